From 52f1ab4021fddd1a109afcca37cfb09ed05284e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:35 +0000
Subject: [PATCH 01/70] fix: treat the vertical tab as white space in the
 parsers

No scanner rule matched '\v' between tokens ("spaces" did not have it and
"^space" excludes it), so every parser stopped there and the rest of the file
was not counted.
---
 src/parsers/common.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..51d1466 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -4,8 +4,8 @@ machine common;
 # common definitions
 
 # whitespace, non-printables
-ws = [\t ];
-spaces = [\t ]+;
+ws = [\t\v ];
+spaces = [\t\v ]+;
 newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
-- 
2.43.0


From 75467b79cd342fdbce904ce384e3a54f2a482eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:20 +0000
Subject: [PATCH 02/70] fix: do not count the lines of a token that fails to
 match twice

Line counting machines call the callback for every newline inside a multi-line
token as they go. If the end of the token never comes, Ragel goes back and
reports the same lines again (e.g. the Java file "/*\nfoo\nbar\n" had 5 lines).
Hold such lines back in ohcount_parse() until the scanner is past them and drop
the ones that are superseded.
---
 src/parser.c | 93 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 358113e..e3153e4 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1,6 +1,7 @@
 // parser.c written by Mitchell Foral. mitchell<att>caladbolg.net.
 // See COPYING for license information.
 
+#include <stdlib.h>
 #include <string.h>
 
 #include "sourcefile.h"
@@ -9,6 +10,92 @@
 
 struct ParserMap * ohcount_hash_parser_from_language (register const char *str, register size_t len);
 
+/**
+ * @struct PendingLine
+ * @brief A line reported from inside a token that may still fail to match.
+ */
+typedef struct PendingLineItem {
+  const char *lang;
+  const char *entity;
+  int s;
+  int e;
+  struct PendingLineItem *prev;
+  struct PendingLineItem *next;
+} PendingLine;
+
+/**
+ * @struct LineCounter
+ * @brief Sits between a line counting machine and the user's callback.
+ */
+typedef struct {
+  void (*callback) (const char *, const char *, int, int, void *);
+  void *userdata;
+  PendingLine *head;
+  PendingLine *tail;
+} LineCounter;
+
+/**
+ * Passes every line reported so far that is behind the scanner on.
+ * @param counter The line counter.
+ * @param end Lines that end after this position stay pending.
+ */
+static void deliver_pending_lines(LineCounter *counter, int end) {
+  while (counter->head && counter->head->e <= end) {
+    PendingLine *line = counter->head;
+    counter->head = line->next;
+    if (counter->head)
+      counter->head->prev = NULL;
+    else
+      counter->tail = NULL;
+    counter->callback(line->lang, line->entity, line->s, line->e,
+                      counter->userdata);
+    free(line);
+  }
+}
+
+/**
+ * Callback for the line counting machines.
+ * Ragel executes actions before the whole token matched. When a multi-line token
+ * does not match in the end, the scanner goes back to te and reports the same
+ * text again, so a line is only passed on once the scanner cannot go back before
+ * its end any more. Pending lines overlapped by a new one are superseded.
+ */
+static void count_line(const char *lang, const char *entity, int s, int e,
+                       void *userdata) {
+  LineCounter *counter = (LineCounter *) userdata;
+  int end = cint(((te > ts) ? te : ts));
+
+  while (counter->tail && counter->tail->e > s) {
+    PendingLine *line = counter->tail;
+    counter->tail = line->prev;
+    if (counter->tail)
+      counter->tail->next = NULL;
+    else
+      counter->head = NULL;
+    free(line);
+  }
+  deliver_pending_lines(counter, end);
+
+  PendingLine *line = NULL;
+  if (counter->head || e > end)
+    line = malloc(sizeof(PendingLine));
+  if (!line) {
+    counter->callback(lang, entity, s, e, counter->userdata);
+    return;
+  }
+  line->lang = lang;
+  line->entity = entity;
+  line->s = s;
+  line->e = e;
+  line->prev = counter->tail;
+  line->next = NULL;
+  if (counter->tail)
+    counter->tail->next = line;
+  else
+    counter->head = line;
+  counter->tail = line;
+}
+
 int ohcount_parse(SourceFile *sourcefile, int count,
                   void (*callback) (const char *, const char *, int, int,
                                     void *),
@@ -20,7 +107,11 @@ int ohcount_parse(SourceFile *sourcefile, int count,
     if (rp) {
       char *buffer = ohcount_sourcefile_get_contents(sourcefile);
       int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
-      if (callback)
+      if (callback && count) {
+        LineCounter counter = { callback, userdata, NULL, NULL };
+        rp->parser(buffer, buffer_len, count, count_line, &counter);
+        deliver_pending_lines(&counter, buffer_len);
+      } else if (callback)
         rp->parser(buffer, buffer_len, count, callback, userdata);
       return 1;
     }
-- 
2.43.0


From 6830a107476ce202d230ee474bee6b87c3f56dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 03/70] fix: count every line a multi-line token covers

Several parsers let newlines pass as ordinary string or comment characters, and
reported all the lines up to the end of the token as one line (the C file
"x = '\n\n';\n" had 1 line).
---
 src/parser.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index e3153e4..33de79a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -34,6 +34,35 @@ typedef struct {
   PendingLine *tail;
 } LineCounter;
 
+/**
+ * Calls the user's callback for every physical line of a reported span.
+ * A token that takes newlines as ordinary characters makes its parser report
+ * all the lines it covers as a single one.
+ */
+static void report_lines(LineCounter *counter, const char *lang,
+                         const char *entity, int s, int e) {
+  const char *last = buffer_start + e - 1;
+  const char *start = buffer_start + s;
+  const char *pos;
+  const char *line_entity = "lblank";
+  int split = 0;
+
+  for (pos = start; pos < last; pos++) {
+    if (*pos == '\n' || *pos == '\f' || (*pos == '\r' && *(pos+1) != '\n')) {
+      counter->callback(lang, line_entity, cint(start), cint(pos) + 1,
+                        counter->userdata);
+      line_entity = "lblank";
+      start = pos + 1;
+      split = 1;
+    } else if (*pos != '\t' && *pos != '\v' && *pos != ' ' && *pos != '\r')
+      line_entity = entity;
+  }
+  if (!split || (*last != '\t' && *last != '\v' && *last != ' ' &&
+                 *last != '\r' && *last != '\n' && *last != '\f'))
+    line_entity = entity;
+  counter->callback(lang, line_entity, cint(start), e, counter->userdata);
+}
+
 /**
  * Passes every line reported so far that is behind the scanner on.
  * @param counter The line counter.
@@ -47,8 +76,7 @@ static void deliver_pending_lines(LineCounter *counter, int end) {
       counter->head->prev = NULL;
     else
       counter->tail = NULL;
-    counter->callback(line->lang, line->entity, line->s, line->e,
-                      counter->userdata);
+    report_lines(counter, line->lang, line->entity, line->s, line->e);
     free(line);
   }
 }
@@ -80,7 +108,7 @@ static void count_line(const char *lang, const char *entity, int s, int e,
   if (counter->head || e > end)
     line = malloc(sizeof(PendingLine));
   if (!line) {
-    counter->callback(lang, entity, s, e, counter->userdata);
+    report_lines(counter, lang, entity, s, e);
     return;
   }
   line->lang = lang;
-- 
2.43.0


From 5ad877382fa17c13a6582cf14e7059b000d88efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 04/70] fix: handle the token the scanner goes back to after a
 multi-line token

When a multi-line token (say a string) does not match, Ragel goes back to the
shorter one (its opening delimiter), but 'entity' was still INTERNAL_NL, so the
delimiter was neither counted as code nor was the rest of its line reported
(e.g. for the Pascal file "'\nx\n" only the last line was counted).
---
 src/parser_macros.h | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..8d686a7 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -163,31 +163,45 @@ void free_queue() {
 /**
  * Executes standard line counting actions for INTERNAL_NL entities.
  * This is typically used in the main action for the INTERNAL_NL entity.
+ * When the scanner went back to a shorter token (ending at p), 'entity' still is
+ * INTERNAL_NL from the longer one that did not match, so it has to be worked out
+ * from the text.
  * @param lang The language name string.
  * @note Applies only to line counting parsers.
  */
 #define std_internal_newline(lang) { \
-  if (callback && p > line_start) { \
-    if (line_contains_code) { \
-      if (inqueue) \
-        enqueue(lang, "lcode", cint(line_start), cint(p), userdata); \
-      else \
-        callback(lang, "lcode", cint(line_start), cint(p), userdata); \
-    } else if (whole_line_comment) { \
-      if (inqueue) \
-        enqueue(lang, "lcomment", cint(line_start), cint(p), userdata); \
-      else \
-        callback(lang, "lcomment", cint(line_start), cint(p), userdata); \
-    } else { \
-      if (inqueue) \
-        enqueue(lang, "lblank", cint(line_start), cint(p), userdata); \
-      else \
-        callback(lang, "lblank", cint(line_start), cint(p), userdata); \
+  if (te == p + 1 && te > ts && \
+      (p == ts || (*(p-1) != '\r' && *(p-1) != '\n' && *(p-1) != '\f') || \
+       (*(p-1) == '\r' && *p == '\n'))) { \
+    if (*p == '\r' || *p == '\n' || *p == '\f') \
+      std_newline(lang) \
+    else if (*p == '\t' || *p == '\v' || *p == ' ') \
+      ls \
+    else \
+      code \
+  } else { \
+    if (callback && p > line_start) { \
+      if (line_contains_code) { \
+        if (inqueue) \
+          enqueue(lang, "lcode", cint(line_start), cint(p), userdata); \
+        else \
+          callback(lang, "lcode", cint(line_start), cint(p), userdata); \
+      } else if (whole_line_comment) { \
+        if (inqueue) \
+          enqueue(lang, "lcomment", cint(line_start), cint(p), userdata); \
+        else \
+          callback(lang, "lcomment", cint(line_start), cint(p), userdata); \
+      } else { \
+        if (inqueue) \
+          enqueue(lang, "lblank", cint(line_start), cint(p), userdata); \
+        else \
+          callback(lang, "lblank", cint(line_start), cint(p), userdata); \
+      } \
     } \
+    whole_line_comment = 0; \
+    line_contains_code = 0; \
+    line_start = p; \
   } \
-  whole_line_comment = 0; \
-  line_contains_code = 0; \
-  line_start = p; \
 }
 
 /**
-- 
2.43.0


From c2be827a5bcc1a822edefb4a74c876cc01f0deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 05/70] fix: count lines of white space only inside tokens as
 blank everywhere

Most parsers did already, but some (Coq, Modelica, Rebol, Haml) counted a line of
a string that is white space only as code when it ends in a form feed or in a
tab.
---
 src/parser.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 33de79a..c5ef2dd 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -37,7 +37,7 @@ typedef struct {
 /**
  * Calls the user's callback for every physical line of a reported span.
  * A token that takes newlines as ordinary characters makes its parser report
- * all the lines it covers as a single one.
+ * all the lines it covers as a single one. Lines of white space only are blank.
  */
 static void report_lines(LineCounter *counter, const char *lang,
                          const char *entity, int s, int e) {
@@ -45,7 +45,6 @@ static void report_lines(LineCounter *counter, const char *lang,
   const char *start = buffer_start + s;
   const char *pos;
   const char *line_entity = "lblank";
-  int split = 0;
 
   for (pos = start; pos < last; pos++) {
     if (*pos == '\n' || *pos == '\f' || (*pos == '\r' && *(pos+1) != '\n')) {
@@ -53,12 +52,11 @@ static void report_lines(LineCounter *counter, const char *lang,
                         counter->userdata);
       line_entity = "lblank";
       start = pos + 1;
-      split = 1;
     } else if (*pos != '\t' && *pos != '\v' && *pos != ' ' && *pos != '\r')
       line_entity = entity;
   }
-  if (!split || (*last != '\t' && *last != '\v' && *last != ' ' &&
-                 *last != '\r' && *last != '\n' && *last != '\f'))
+  if (*last != '\t' && *last != '\v' && *last != ' ' && *last != '\r' &&
+      *last != '\n' && *last != '\f')
     line_entity = entity;
   counter->callback(lang, line_entity, cint(start), e, counter->userdata);
 }
-- 
2.43.0


From edb42b616ff91850e3bebf9a498785b565a33a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 06/70] fix: free the callbacks enqueued for an entity the file
 ends in

---
 src/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.c b/src/parser.c
index c5ef2dd..f18da5d 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -137,6 +137,7 @@ int ohcount_parse(SourceFile *sourcefile, int count,
         LineCounter counter = { callback, userdata, NULL, NULL };
         rp->parser(buffer, buffer_len, count, count_line, &counter);
         deliver_pending_lines(&counter, buffer_len);
+        free_queue(); // of an entity without its ending delimiter
       } else if (callback)
         rp->parser(buffer, buffer_len, count, callback, userdata);
       return 1;
-- 
2.43.0


From 29d2f598bb25264232930e28b4b69d3c6e06f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:54 +0000
Subject: [PATCH 07/70] fix: let strings in templates contain an escaped
 newline

The string machines of PHP, JSP, RHTML, ASPX and ClearSilver templates had no
rule for a backslash at the end of a line and stopped there; the rest of the file
was not looked at any more.
---
 src/parsers/clearsilverhtml.rl | 8 ++++++--
 src/parsers/cs_aspx.rl         | 8 ++++++--
 src/parsers/jsp.rl             | 8 ++++++--
 src/parsers/phphtml.rl         | 8 ++++++--
 src/parsers/rhtml.rl           | 8 ++++++--
 src/parsers/vb_aspx.rl         | 8 ++++++--
 6 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 2ff8dee..c88666c 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -75,7 +75,9 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
@@ -88,7 +90,9 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 911b730..7049241 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -73,7 +73,9 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
@@ -86,7 +88,9 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f197d40..c17f96c 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -75,7 +75,9 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
@@ -88,7 +90,9 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 9dfe21e..cf85a4e 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -75,7 +75,9 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
@@ -88,7 +90,9 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 16b4b50..169bacf 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -75,7 +75,9 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
@@ -88,7 +90,9 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 37dd9a0..1279360 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -73,7 +73,9 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
@@ -86,7 +88,9 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code nonnewline
+    |
+    '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-- 
2.43.0


From 1f1cea315767e94957987626470b5492f33934ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:31 +0000
Subject: [PATCH 08/70] fix: count a line with just the end of a multi-line
 string or comment

The closing delimiter did not mark its line as code (or comment) in many parsers,
so when nothing else is on that line it was counted as blank.
---
 src/parsers/autoconf.rl        | 2 +-
 src/parsers/bfpp.rl            | 2 +-
 src/parsers/c.rl               | 4 ++--
 src/parsers/chaiscript.rl      | 4 ++--
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/coq.rl             | 2 +-
 src/parsers/cs_aspx.rl         | 4 ++--
 src/parsers/css.rl             | 4 ++--
 src/parsers/d.rl               | 6 +++---
 src/parsers/elm.rl             | 2 +-
 src/parsers/factor.rl          | 2 +-
 src/parsers/forth.rl           | 2 +-
 src/parsers/fortranfree.rl     | 4 ++--
 src/parsers/fsharp.rl          | 4 ++--
 src/parsers/glsl.rl            | 4 ++--
 src/parsers/golang.rl          | 4 ++--
 src/parsers/grace.rl           | 2 +-
 src/parsers/groovy.rl          | 4 ++--
 src/parsers/haskell.rl         | 2 +-
 src/parsers/jam.rl             | 4 ++--
 src/parsers/javascript.rl      | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/kotlin.rl          | 2 +-
 src/parsers/lisp.rl            | 2 +-
 src/parsers/lua.rl             | 4 ++--
 src/parsers/modula3.rl         | 4 ++--
 src/parsers/mxml.rl            | 4 ++--
 src/parsers/pascal.rl          | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/powershell.rl      | 4 ++--
 src/parsers/puppet.rl          | 2 +-
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/rust.rl            | 2 +-
 src/parsers/shell.rl           | 4 ++--
 src/parsers/smalltalk.rl       | 2 +-
 src/parsers/sql.rl             | 2 +-
 src/parsers/stratego.rl        | 2 +-
 src/parsers/tcl.rl             | 2 +-
 src/parsers/unrealscript.rl    | 4 ++--
 src/parsers/vb_aspx.rl         | 4 ++--
 40 files changed, 65 insertions(+), 65 deletions(-)

diff --git a/src/parsers/autoconf.rl b/src/parsers/autoconf.rl
index 98721d1..065807a 100644
--- a/src/parsers/autoconf.rl
+++ b/src/parsers/autoconf.rl
@@ -61,7 +61,7 @@ enum {
       ']' @ac_str_nc_dec @code
       |
       (nonnewline - ws - [\[\]]) @code
-    )* :>> (']' when { nest_count == 0 });
+    )* :>> (']' when { nest_count == 0 }) @code;
 
   ac_line := |*
     spaces      ${ entity = AC_SPACE; } => ac_ccallback;
diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index fcb029e..141db71 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -58,7 +58,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ')';
+    )* :>> ')' @code;
 
   bfpp_line := |*
     spaces             ${ entity = BFPP_SPACE;    } => bfpp_ccallback;
diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 0ba4008..d0da598 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   c_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   c_string = c_sq_str | c_dq_str;
 
   c_line := |*
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 5491e36..b83cc4a 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -69,7 +69,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   chai_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
@@ -79,7 +79,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index c88666c..a03949d 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -82,7 +82,7 @@ enum {
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
-  )* '\'' @{ fgoto cshtml_line; };
+  )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
@@ -97,7 +97,7 @@ enum {
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
-  )* '"' @{ fgoto cshtml_line; };
+  )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index eaa3330..f1e141e 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -68,7 +68,7 @@ enum {
       ws
       |
       [^"] @code
-    )* '"';
+    )* '"' @code;
 
   coq_line := |*
     spaces          ${ entity = COQ_SPACE; } => coq_ccallback;
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 7049241..6dc95a9 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -80,7 +80,7 @@ enum {
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto cs_aspx_line; };
+  )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
@@ -95,7 +95,7 @@ enum {
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto cs_aspx_line; };
+  )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 12cd5e8..14736d9 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   css_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   css_string = css_sq_str | css_dq_str;
 
   css_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 9ca52b8..1dac49d 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -87,7 +87,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   d_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -97,7 +97,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   d_bt_str =
     '`' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -107,7 +107,7 @@ enum {
       [^\t `\\] @code
       |
       '\\' nonnewline @code
-    )* '`';
+    )* '`' @code;
   d_string = d_sq_str | d_dq_str | d_bt_str;
 
   d_line := |*
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index 1d71ab2..bbc0ac5 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   elm_string = elm_char | elm_dq_str;
 
   elm_line := |*
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index c16aee9..06a11da 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -56,7 +56,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   factor_line := |*
     spaces        ${ entity = FACTOR_SPACE; } => factor_ccallback;
diff --git a/src/parsers/forth.rl b/src/parsers/forth.rl
index c7c53c0..ebfa526 100644
--- a/src/parsers/forth.rl
+++ b/src/parsers/forth.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> ')';
+    )* :>> ')' @comment;
   forth_comment = forth_line_comment | forth_block_comment;
 
   forth_string = '"' @code ([^\r\n\f"])* '"';
diff --git a/src/parsers/fortranfree.rl b/src/parsers/fortranfree.rl
index 0f1def1..f805a31 100644
--- a/src/parsers/fortranfree.rl
+++ b/src/parsers/fortranfree.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       [^\r\n\f\t '] @code
-    )* '\'';
+    )* '\'' @code;
   ffree_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %ffree_ccallback
@@ -61,7 +61,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @code
-    )* '"';
+    )* '"' @code;
   ffree_string = ffree_sq_str | ffree_dq_str;
 
   ffree_line := |*
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 64c85b1..cb6e492 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -74,7 +74,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
@@ -84,7 +84,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   fsharp_string = fsharp_sq_str | fsharp_dq_str;
 
   fsharp_line := |*
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 167364c..64e0cda 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -75,7 +75,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   glsl_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
@@ -85,7 +85,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   glsl_string = glsl_sq_str | glsl_dq_str;
 
   glsl_line := |*
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index f845ca0..fa9a227 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   golang_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   golang_string = golang_sq_str | golang_dq_str;
 
   golang_line := |*
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index daf60dd..073e2d1 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,7 +54,7 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
-    )* '"' @commit;
+    )* '"' @code @commit;
 
   grace_line := |*
     spaces         ${ entity = GRACE_SPACE; } => grace_ccallback;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index e1a6da4..caf6730 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -71,7 +71,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   groovy_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
@@ -81,7 +81,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   groovy_string = groovy_sq_str | groovy_dq_str;
 
   groovy_line := |*
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 1bb062d..9f4b445 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   haskell_string = haskell_char | haskell_dq_str;
 
   haskell_line := |*
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3b4ccc7..3f7f518 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -55,7 +55,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @code @commit;
   jam_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @code @commit;
   # TODO: heredocs; see ruby.rl for details
   jam_string = jam_sq_str | jam_dq_str;
 
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 172989e..723fbcf 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -68,7 +68,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   js_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
@@ -78,7 +78,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index c17f96c..58c9ad1 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -82,7 +82,7 @@ enum {
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto jsp_line; };
+  )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
@@ -97,7 +97,7 @@ enum {
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto jsp_line; };
+  )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 38ef112..cdb974e 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -76,7 +76,7 @@ enum {
       ws
       |
       [^\t ] @code
-    )* '"""';
+    )* '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
   kotlin_line := |*
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 0698964..08bf62e 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -71,7 +71,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 4092ecf..067413f 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -78,7 +78,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   lua_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   lua_string = lua_sq_str | lua_dq_str | lua_long_string;
 
   lua_line := |*
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 2166f0f..198b62c 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -78,7 +78,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   modula3_string = modula3_singlequoted_string | modula3_doublequoted_string;
 
 
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index 7afe23b..f3604c0 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -72,7 +72,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   mxml_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
@@ -82,7 +82,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   mxml_string = mxml_sq_str | mxml_dq_str;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4dfdf17..4578123 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   pascal_comment = pascal_line_comment | pascal_old_block_comment |
                    pascal_turbo_block_comment;
 
@@ -73,7 +73,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   pascal_line := |*
     spaces          ${ entity = PASCAL_SPACE; } => pascal_ccallback;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index cf85a4e..3f44c29 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -82,7 +82,7 @@ enum {
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
-  )* '\'' @{ fgoto phtml_line; };
+  )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
@@ -97,7 +97,7 @@ enum {
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
-  )* '"' @{ fgoto phtml_line; };
+  )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 6b3947a..58c70b2 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @code @commit;
   powershell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
@@ -76,7 +76,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @code @commit;
   # TODO: heredoc; see ruby.rl for details.
   powershell_string = powershell_sq_str | powershell_dq_str;
 
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index d862f7f..0abb695 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   puppet_line := |*
     spaces          ${ entity = PUPPET_SPACE; } => puppet_ccallback;
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 169bacf..5aaab95 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -82,7 +82,7 @@ enum {
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto rhtml_line; };
+  )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
@@ -97,7 +97,7 @@ enum {
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto rhtml_line; };
+  )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index e3b17c3..0dedd14 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   rust_string = rust_dq_str;
 
   rust_line := |*
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 567afa1..6b69b7a 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -57,7 +57,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @code @commit;
   shell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
@@ -69,7 +69,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @code @commit;
   # TODO: heredocs; see ruby.rl for details
   shell_string = shell_sq_str | shell_dq_str;
 
diff --git a/src/parsers/smalltalk.rl b/src/parsers/smalltalk.rl
index bffb167..fd59f35 100644
--- a/src/parsers/smalltalk.rl
+++ b/src/parsers/smalltalk.rl
@@ -51,7 +51,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @comment
-    )* '"';
+    )* '"' @comment;
 
   smalltalk_string = '\'' @code [^\r\n\f']* '\'';
 
diff --git a/src/parsers/sql.rl b/src/parsers/sql.rl
index 8f20433..09eb40d 100644
--- a/src/parsers/sql.rl
+++ b/src/parsers/sql.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   sql_comment = sql_line_comment | sql_c_block_comment | sql_block_comment;
 
   sql_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 56d76c6..976480d 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -71,7 +71,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   stratego_char_str =
     '\'' (
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index cef3df1..79fb391 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -62,7 +62,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   tcl_line := |*
     spaces       ${ entity = TCL_SPACE; } => tcl_ccallback;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 7e6d8e4..13d2aee 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -64,7 +64,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   unrealscript_string = unrealscript_sq_str | unrealscript_dq_str;
 
   unrealscript_line := |*
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 1279360..812419a 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -80,7 +80,7 @@ enum {
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto vb_aspx_line; };
+  )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
@@ -95,7 +95,7 @@ enum {
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto vb_aspx_line; };
+  )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
-- 
2.43.0


From 6b90c56ac1a0964187cbe1fcb7daf3342170018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:52 +0000
Subject: [PATCH 09/70] fix: do not count lines inside the end tag of an
 embedded language

The scanner goes back to the start of the end tag, so newlines in it were counted
twice, and from a null line_start: "</script\n>" passed the callback a position
far outside the file (and reported an "lblank" entity to entity parsers).
---
 src/parsers/clearsilverhtml.rl | 10 +++++-----
 src/parsers/cs_aspx.rl         | 14 +++++++-------
 src/parsers/html.rl            | 10 +++++-----
 src/parsers/jsp.rl             | 10 +++++-----
 src/parsers/mxml.rl            |  2 +-
 src/parsers/phphtml.rl         | 10 +++++-----
 src/parsers/rhtml.rl           | 10 +++++-----
 src/parsers/vb_aspx.rl         | 14 +++++++-------
 8 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index a03949d..1d5fd72 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -99,10 +99,10 @@ enum {
     '<' !'?cs'
   )* '"' @code @{ fgoto cshtml_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
+  ws_or_nl = (ws | newline);
 
   cshtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cshtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   cshtml_css_line := |*
     cshtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -114,7 +114,7 @@ enum {
   *|;
 
   cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cshtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -161,7 +161,7 @@ enum {
   }
 
   cshtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cshtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cshtml_css_outry_entity = '</' /style/i ws_or_nl* '>';
   cshtml_css_entity := |*
     cshtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -172,7 +172,7 @@ enum {
   *|;
 
   cshtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cshtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cshtml_js_outry_entity = '</' /script/i ws_or_nl* '>';
   cshtml_js_entity := |*
     cshtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 6dc95a9..4d4322c 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -97,10 +97,10 @@ enum {
     '<' !'%'
   )* '"' @code @{ fgoto cs_aspx_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
+  ws_or_nl = (ws | newline);
 
   cs_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cs_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   cs_aspx_css_line := |*
     cs_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -112,7 +112,7 @@ enum {
   *|;
 
   cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cs_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -124,7 +124,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>' @check_blank_outry) @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
@@ -159,7 +159,7 @@ enum {
   }
 
   cs_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cs_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cs_aspx_css_outry_entity = '</' /style/i ws_or_nl* '>';
   cs_aspx_css_entity := |*
     cs_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -170,7 +170,7 @@ enum {
   *|;
 
   cs_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cs_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cs_aspx_js_outry_entity = '</' /script/i ws_or_nl* '>';
   cs_aspx_js_entity := |*
     cs_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -181,7 +181,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_nl* '>' @check_blank_outry) @code;
   cs_aspx_cs_entity := |*
     cs_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 13a155a..42cc396 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -67,10 +67,10 @@ enum {
   html_dq_str = '"' ([^\r\n\f"\\] | '\\' nonnewline)* '"' @code;
   html_string = html_sq_str | html_dq_str;
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %html_ccallback);
+  ws_or_nl = (ws | newline);
 
   html_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  html_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  html_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -82,7 +82,7 @@ enum {
   *|;
 
   html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  html_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  html_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -113,7 +113,7 @@ enum {
   }
 
   html_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  html_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  html_css_outry_entity = '</' /style/i ws_or_nl* '>';
   html_css_entity := |*
     html_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -124,7 +124,7 @@ enum {
   *|;
 
   html_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  html_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  html_js_outry_entity = '</' /script/i ws_or_nl* '>';
   html_js_entity := |*
     html_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 58c9ad1..d19626d 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -99,10 +99,10 @@ enum {
     '<' !'%'
   )* '"' @code @{ fgoto jsp_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
+  ws_or_nl = (ws | newline);
 
   jsp_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  jsp_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   jsp_css_line := |*
     jsp_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -114,7 +114,7 @@ enum {
   *|;
 
   jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  jsp_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -160,7 +160,7 @@ enum {
   }
 
   jsp_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  jsp_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  jsp_css_outry_entity = '</' /style/i ws_or_nl* '>';
   jsp_css_entity := |*
     jsp_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -171,7 +171,7 @@ enum {
   *|;
 
   jsp_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  jsp_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  jsp_js_outry_entity = '</' /script/i ws_or_nl* '>';
   jsp_js_entity := |*
     jsp_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index f3604c0..4d6a8c8 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -85,7 +85,7 @@ enum {
     )* '"' @code;
   mxml_string = mxml_sq_str | mxml_dq_str;
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
+  ws_or_nl = (ws | newline);
 
   mxml_css_entry = '<mx:Style>' @code;
   mxml_css_outry = '</mx:Style>' @check_blank_outry @code;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 3f44c29..04cd6df 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -99,10 +99,10 @@ enum {
     '<' !'?php'
   )* '"' @code @{ fgoto phtml_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
+  ws_or_nl = (ws | newline);
 
   phtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  phtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   phtml_css_line := |*
     phtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -114,7 +114,7 @@ enum {
   *|;
 
   phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  phtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -160,7 +160,7 @@ enum {
   }
 
   phtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  phtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  phtml_css_outry_entity = '</' /style/i ws_or_nl* '>';
   phtml_css_entity := |*
     phtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -171,7 +171,7 @@ enum {
   *|;
 
   phtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  phtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  phtml_js_outry_entity = '</' /script/i ws_or_nl* '>';
   phtml_js_entity := |*
     phtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 5aaab95..710093a 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -99,10 +99,10 @@ enum {
     '<' !'%'
   )* '"' @code @{ fgoto rhtml_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
+  ws_or_nl = (ws | newline);
 
   rhtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  rhtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   rhtml_css_line := |*
     rhtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -114,7 +114,7 @@ enum {
   *|;
 
   rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  rhtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -160,7 +160,7 @@ enum {
   }
 
   rhtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  rhtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  rhtml_css_outry_entity = '</' /style/i ws_or_nl* '>';
   rhtml_css_entity := |*
     rhtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -171,7 +171,7 @@ enum {
   *|;
 
   rhtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  rhtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  rhtml_js_outry_entity = '</' /script/i ws_or_nl* '>';
   rhtml_js_entity := |*
     rhtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 812419a..2374f18 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -97,10 +97,10 @@ enum {
     '<' !'%'
   )* '"' @code @{ fgoto vb_aspx_line; };
 
-  ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
+  ws_or_nl = (ws | newline);
 
   vb_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  vb_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_css_outry = '</' /style/i ws_or_nl* '>' @check_blank_outry @code;
   vb_aspx_css_line := |*
     vb_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -112,7 +112,7 @@ enum {
   *|;
 
   vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  vb_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -124,7 +124,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>' @check_blank_outry) @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
@@ -159,7 +159,7 @@ enum {
   }
 
   vb_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  vb_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  vb_aspx_css_outry_entity = '</' /style/i ws_or_nl* '>';
   vb_aspx_css_entity := |*
     vb_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -170,7 +170,7 @@ enum {
   *|;
 
   vb_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  vb_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  vb_aspx_js_outry_entity = '</' /script/i ws_or_nl* '>';
   vb_aspx_js_entity := |*
     vb_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -181,7 +181,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_nl* '>' @check_blank_outry) @code;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
-- 
2.43.0


From 8c8c5684e33dbafccd231f24610c0bae74ac8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 10/70] fix: report the last line of a file that ends after an
 embedded language entry

and the blank last line of a file that ends inside a multi-line token. Vertical
tabs after an embedded language entry are white space, too.
---
 src/parser_macros.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 8d686a7..d33e4b0 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -258,7 +258,8 @@ void free_queue() {
 }
 
 /**
- * Processes the last line for buffers that don't have a newline at EOF.
+ * Processes the last line for buffers that don't have a newline at EOF, or that
+ * end inside a multi-line entity.
  * This is typically used at the end of the parse_lang function after the Ragel
  * parser has been executed.
  * @param lang The language name string.
@@ -270,23 +271,27 @@ void free_queue() {
       callback(lang, "lcode", cint(line_start), cint(pe), userdata); \
     else if (whole_line_comment) \
       callback(lang, "lcomment", cint(line_start), cint(pe), userdata); \
-  } \
+  } else if (callback && line_start && line_start < pe && \
+             (*(pe-1) == '\n' || *(pe-1) == '\r' || *(pe-1) == '\f')) \
+    callback(lang, "lblank", cint(line_start), cint(pe), userdata); \
 }
 
 /**
  * Determines whether or not the rest of the line is blank.
  * This is typically used when entering an embedded language.
  * @param p The position of entry into the emebedded language.
+ * @param end The end of the buffer.
  * @return 0 if the rest of the line is not blank, the position at the end of
  *   the newline otherwise (inclusive).
  * @note Applies only to line counting parsers.
  */
-int is_blank_entry(char **p) {
+int is_blank_entry(char **p, char *end) {
   char *pos = *p+1;
-  while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
+  while (pos < end && *pos != '\n' && *pos != '\r' && *pos != '\f') {
+    if (*pos != '\t' && *pos != '\v' && *pos != ' ') return 0;
     pos++;
   }
+  if (pos == end) pos--;
   if (*pos == '\r' && *(pos+1) == '\n') pos++;
   *p = pos;
   return 1;
@@ -303,7 +308,7 @@ int is_blank_entry(char **p) {
  * @note Applies only to line counting parsers.
  */
 #define check_blank_entry(lang) { \
-  if (is_blank_entry(&p)) { \
+  if (is_blank_entry(&p, pe)) { \
     te = p + 1; \
     std_newline(lang) \
   } \
-- 
2.43.0


From e251f9ce77911e009f30b07457b98a30b35efae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 11/70] fix: count a HAML line with nothing to evaluate as
 code, not as blank

---
 src/parsers/haml.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d65ce2c..786d17f 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -140,7 +140,11 @@ enum {
   *|;
 
   haml_line := |*
-    haml_ruby_entry @{entity = CHECK_BLANK_ENTRY; } @{saw(RUBY_LANG)} => {fcall haml_ruby_line; };
+    haml_ruby_entry @{entity = CHECK_BLANK_ENTRY; } @{
+      saw(RUBY_LANG)
+      char *rest = p;
+      if (is_blank_entry(&rest, pe)) { code } // nothing to evaluate
+    } => {fcall haml_ruby_line; };
     spaces          ${ entity = HAML_SPACE; } => haml_ccallback;
     haml_comment;
     haml_string;
-- 
2.43.0


From 182aabfa097cf49fb9d640e1b00f7208414ff54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 12/70] fix: count a Perl line that is just an indented '=' as
 code

---
 src/parsers/perl.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b3bebc4..d9c3759 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -99,7 +99,7 @@ enum {
     perl_comment;
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
-    '=' when !starts_line;
+    '=' when !starts_line ${ entity = PERL_ANY; } => perl_ccallback;
     ^(space | '=') ${ entity = PERL_ANY;   } => perl_ccallback;
   *|;
 
-- 
2.43.0


From 070c08c89c5a36a4532a57acae39532359b481de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 13/70] fix: take a carriage return at the end of the file for
 a newline

No scanner rule matched it, and tokens and queued lines before it were dropped.
---
 src/parsers/common.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 51d1466..eeebff8 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -6,7 +6,7 @@ machine common;
 # whitespace, non-printables
 ws = [\t\v ];
 spaces = [\t\v ]+;
-newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
+newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 == pe || *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
 nonprintable_char = cntrl - [\r\n\f];
-- 
2.43.0


From bd7c301ebf0d2683d78825eb72ae3b704459f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 14/70] fix: count a line that enters an embedded language
 inside a string

Entering the embedded language cleared the line's flags, so a line of a PHP, JSP,
RHTML, ASPX or ClearSilver file with nothing after the entry was blank.
---
 src/parsers/clearsilverhtml.rl | 9 ++++++---
 src/parsers/cs_aspx.rl         | 9 ++++++---
 src/parsers/jsp.rl             | 9 ++++++---
 src/parsers/phphtml.rl         | 9 ++++++---
 src/parsers/rhtml.rl           | 9 ++++++---
 src/parsers/vb_aspx.rl         | 9 ++++++---
 6 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 1d5fd72..f41fe1a 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
   )* :>> '-->' @comment @{ fgoto cshtml_line; };
@@ -79,7 +80,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
   )* '\'' @code @{ fgoto cshtml_line; };
@@ -94,7 +96,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
   )* '"' @code @{ fgoto cshtml_line; };
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 4d4322c..34f391a 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -61,7 +61,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
@@ -77,7 +78,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto cs_aspx_line; };
@@ -92,7 +94,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto cs_aspx_line; };
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index d19626d..dea828d 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto jsp_line; };
@@ -79,7 +80,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto jsp_line; };
@@ -94,7 +96,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto jsp_line; };
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 04cd6df..ef365ff 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
   )* :>> '-->' @comment @{ fgoto phtml_line; };
@@ -79,7 +80,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
   )* '\'' @code @{ fgoto phtml_line; };
@@ -94,7 +96,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
   )* '"' @code @{ fgoto phtml_line; };
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 710093a..87f0356 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -63,7 +63,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto rhtml_line; };
@@ -79,7 +80,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto rhtml_line; };
@@ -94,7 +96,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto rhtml_line; };
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 2374f18..1d4abea 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -61,7 +61,8 @@ enum {
     |
     ^(space | [\-<]) @comment
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
   )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
@@ -77,7 +78,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
   )* '\'' @code @{ fgoto vb_aspx_line; };
@@ -92,7 +94,8 @@ enum {
     |
     '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
   )* '"' @code @{ fgoto vb_aspx_line; };
-- 
2.43.0


From 56a6fc7fd37089f971195b3d1d5fdaed4caecd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 15/70] fix: leave PHP at '?>' only, not at any '?'

The rest of a PHP file after a ternary operator was counted as HTML.
---
 src/parsers/phphtml.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index ef365ff..32ff814 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -129,9 +129,9 @@ enum {
   *|;
 
   phtml_php_entry = ('<?' 'php'?) @code;
-  phtml_php_outry = '?>' @check_blank_outry @code;
+  phtml_php_outry = '?' when { p+1 < pe && *(p+1) == '>' };
   phtml_php_line := |*
-    phtml_php_outry ${ p = ts; fret; };
+    phtml_php_outry @{ fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
-- 
2.43.0


From d402934f0410ea3639c3901d5b4fa53a228442c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:32 +0000
Subject: [PATCH 16/70] fix: let CoffeeScript and DTX be looked up by the names
 they are detected as

---
 src/hash/languages.gperf | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 20e57c0..70f0099 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -24,7 +24,7 @@ clearsilver, LANG_CLEARSILVER, "ClearSilver", 0
 clearsilver_template, LANG_CLEARSILVER_TEMPLATE, "ClearSilver", 0
 clojure, LANG_CLOJURE, "Clojure", 0
 cmake, LANG_CMAKE, "Cmake script", 2
-coffescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
+coffeescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
 coq, LANG_COQ, "Coq", 0
 cpp, LANG_CPP, "C++", 0
 crystal, LANG_CRYSTAL, "Crystal", 0
@@ -35,7 +35,7 @@ cuda, LANG_CUDA, "CUDA", 0
 dart, LANG_DART, "Dart", 0
 dcl, LANG_DCL, "DCL", 0
 dmd, LANG_DMD, "D", 0
-dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
+tex_dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
 dylan, LANG_DYLAN, "Dylan", 0
 ebuild, LANG_EBUILD, "Ebuild", 0
 ec, LANG_EC, "eC", 0
-- 
2.43.0


From 3fae2ddd7dfdd5030b08a0f1959cbbdfd0ad6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:49 +0000
Subject: [PATCH 17/70] fix: count a '<' in a string or comment of a template

A line with nothing else was counted as blank.
---
 src/parsers/clearsilverhtml.rl | 6 +++---
 src/parsers/cs_aspx.rl         | 6 +++---
 src/parsers/jsp.rl             | 6 +++---
 src/parsers/phphtml.rl         | 6 +++---
 src/parsers/rhtml.rl           | 6 +++---
 src/parsers/vb_aspx.rl         | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index f41fe1a..1474948 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -66,7 +66,7 @@ enum {
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @comment !'?cs'
   )* :>> '-->' @comment @{ fgoto cshtml_line; };
 
   cshtml_sq_str := (
@@ -83,7 +83,7 @@ enum {
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @code !'?cs'
   )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
@@ -99,7 +99,7 @@ enum {
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @code !'?cs'
   )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_nl = (ws | newline);
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 34f391a..fd7db94 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -64,7 +64,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @comment !'%'
   )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
 
   cs_aspx_sq_str := (
@@ -81,7 +81,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
@@ -97,7 +97,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_nl = (ws | newline);
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index dea828d..3ef99d6 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -66,7 +66,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @comment !'%'
   )* :>> '-->' @comment @{ fgoto jsp_line; };
 
   jsp_sq_str := (
@@ -83,7 +83,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
@@ -99,7 +99,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_nl = (ws | newline);
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 32ff814..3a386f9 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -66,7 +66,7 @@ enum {
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
       @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @comment !'?php'
   )* :>> '-->' @comment @{ fgoto phtml_line; };
 
   phtml_sq_str := (
@@ -83,7 +83,7 @@ enum {
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
       @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @code !'?php'
   )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
@@ -99,7 +99,7 @@ enum {
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
       @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @code !'?php'
   )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_nl = (ws | newline);
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 87f0356..697eb8d 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -66,7 +66,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @comment !'%'
   )* :>> '-->' @comment @{ fgoto rhtml_line; };
 
   rhtml_sq_str := (
@@ -83,7 +83,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
@@ -99,7 +99,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_nl = (ws | newline);
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 1d4abea..d4576db 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -64,7 +64,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @comment !'%'
   )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
 
   vb_aspx_sq_str := (
@@ -81,7 +81,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
@@ -97,7 +97,7 @@ enum {
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code !'%'
   )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_nl = (ws | newline);
-- 
2.43.0


From a75d3a4e3acd924ba16b14be036a171062361f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 18/70] fix: keep the lines above when a pending line is
 superseded in part

---
 src/parser.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index f18da5d..6445648 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -34,6 +34,14 @@ typedef struct {
   PendingLine *tail;
 } LineCounter;
 
+/**
+ * Determines whether or not there is a newline at a position (the last character
+ * of it, that is).
+ */
+static int ends_line(const char *pos) {
+  return *pos == '\n' || *pos == '\f' || (*pos == '\r' && *(pos+1) != '\n');
+}
+
 /**
  * Calls the user's callback for every physical line of a reported span.
  * A token that takes newlines as ordinary characters makes its parser report
@@ -47,7 +55,7 @@ static void report_lines(LineCounter *counter, const char *lang,
   const char *line_entity = "lblank";
 
   for (pos = start; pos < last; pos++) {
-    if (*pos == '\n' || *pos == '\f' || (*pos == '\r' && *(pos+1) != '\n')) {
+    if (ends_line(pos)) {
       counter->callback(lang, line_entity, cint(start), cint(pos) + 1,
                         counter->userdata);
       line_entity = "lblank";
@@ -93,6 +101,14 @@ static void count_line(const char *lang, const char *entity, int s, int e,
 
   while (counter->tail && counter->tail->e > s) {
     PendingLine *line = counter->tail;
+    if (line->s < s) {
+      // keep the lines above, and take over the beginning of this one
+      while (s > line->s && !ends_line(buffer_start + s - 1)) s--;
+      if (s > line->s) {
+        line->e = s;
+        break;
+      }
+    }
     counter->tail = line->prev;
     if (counter->tail)
       counter->tail->next = NULL;
-- 
2.43.0


From e88899c94c6a2086fb0488f7eed6de3ff720fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:30 +0000
Subject: [PATCH 19/70] fix: count an escaped newline in a shell string as code

---
 src/parsers/powershell.rl | 4 ++--
 src/parsers/shell.rl      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 58c70b2..3021471 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -57,7 +57,7 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
       ws
       |
@@ -69,7 +69,7 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
       ws
       |
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 6b69b7a..fb9b0be 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -50,7 +50,7 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
       ws
       |
@@ -62,7 +62,7 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
       ws
       |
-- 
2.43.0


From 4347a360b76c2349672732f74ceaddb808f342c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:30 +0000
Subject: [PATCH 20/70] fix: drop the shell string that starts where a Nix
 string ends

The end of the Nix string also is the start of a shell string, whose failure reset
the flags of the line.
---
 src/parsers/nix.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index a95c071..d607bb8 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -64,7 +64,7 @@ enum {
   nix_dq_shell_entry = '"' @code;
   nix_dq_shell_outry = '"' @check_blank_outry @code;
   nix_dq_shell_line := |*
-    nix_dq_shell_outry @{ p = ts; fret; };
+    nix_dq_shell_outry @{ inqueue = 0; p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
@@ -77,7 +77,7 @@ enum {
   nix_dsq_shell_entry = "''" @code;
   nix_dsq_shell_outry = "''" @check_blank_outry @code;
   nix_dsq_shell_line := |*
-    nix_dsq_shell_outry @{ p = ts; fret; };
+    nix_dsq_shell_outry @{ inqueue = 0; p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-- 
2.43.0


From 0ec40a2df446e5628d8db10b510dbcc29b7a342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 21/70] fix: check for a blank line after the Javascript entry
 in CoffeeScript

The action ran with whatever entity was set last.
---
 src/parsers/coffeescript.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index b08a653..0bffb90 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -108,7 +108,7 @@ enum {
   *|;
 
   coffeescript_line := |*
-		coffeescript_js_entry @coffeescript_ccallback
+		coffeescript_js_entry @{ entity = CHECK_BLANK_ENTRY; } @coffeescript_ccallback
 			@{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
     spaces          ${ entity = COFFEESCRIPT_SPACE; } => coffeescript_ccallback;
     coffeescript_comment;
-- 
2.43.0


From 9fd22d4a52321753cd3cfb61b591d1f242ee4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:39 +0000
Subject: [PATCH 22/70] fix: handle the blank line check CoffeeScript asks for
 at a Javascript entry

---
 src/parsers/coffeescript.rl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 0bffb90..463f0fe 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -42,6 +42,9 @@ enum {
       break;
     case NEWLINE:
       std_newline(COFFEESCRIPT_LANG)
+      break;
+    case CHECK_BLANK_ENTRY:
+      check_blank_entry(COFFEESCRIPT_LANG)
     }
   }
 
-- 
2.43.0


From 164476295f5a742104756e69b69b24b62ee357f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 23/70] fix: name Limbo's unmatched entities within its own
 table

---
 src/parsers/limbo.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..227cb9c 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From 1668eb8d080b6fdf823f75d7ab3c783e51234af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 24/70] fix: do not count lines when listing Modelica entities

---
 src/parsers/modelica.rl | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index f6c5cd2..0117819 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -79,24 +79,18 @@ enum {
     callback(MODELICA_LANG, modelica_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  modelica_eline_comment = '//' @comment nonnewline*;
+  modelica_eline_comment = '//' nonnewline*;
 
-  modelica_eblock_comment =
-    '/*' @comment (
-      newline %{ entity = INTERNAL_NL; } %modelica_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '*/';
+  modelica_eblock_comment = '/*' any* :>> '*/';
 
-  modelica_ecomment = modelica_line_comment | modelica_block_comment;
+  modelica_ecomment = modelica_eline_comment | modelica_eblock_comment;
+  estring = '\"' ([^"\\] | '\\\"')* '\"';
 
   modelica_entity := |*
     space+             ${ entity = MODELICA_SPACE;   } => modelica_ecallback;
     modelica_ecomment ${ entity = MODELICA_COMMENT; } => modelica_ecallback;
     identifier   ${ entity = MODELICA_ANY; } => modelica_ecallback;
-    string       ${ entity = MODELICA_ANY; } => modelica_ecallback;
+    estring      ${ entity = MODELICA_ANY; } => modelica_ecallback;
     ^space;
   *|;
 }%%
-- 
2.43.0


From c8259be0040b3aa3ae91365195f15a95da36fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 25/70] fix: count the text of block comments in MATLAB,
 Octave, Pascal and Puppet as comment

---
 src/parsers/matlab.rl | 2 +-
 src/parsers/octave.rl | 2 +-
 src/parsers/pascal.rl | 2 +-
 src/parsers/puppet.rl | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/matlab.rl b/src/parsers/matlab.rl
index 94862b4..74b1324 100644
--- a/src/parsers/matlab.rl
+++ b/src/parsers/matlab.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   matlab_comment = matlab_line_comment | matlab_block_comment;
 
diff --git a/src/parsers/octave.rl b/src/parsers/octave.rl
index 6261af3..4d9255c 100644
--- a/src/parsers/octave.rl
+++ b/src/parsers/octave.rl
@@ -54,7 +54,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   octave_comment = octave_line_comment | octave_block_comment;
 
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4578123..a4eae58 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -51,7 +51,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*)';
   pascal_turbo_block_comment =
     '{' @comment (
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index 0abb695..7d924bd 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*/';
   puppet_comment = puppet_line_comment | puppet_block_comment;
 
-- 
2.43.0


From 9e278b2d56c0823111ab207fc6d2f67aabd462c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 26/70] fix: go on after a quotation mark in code that does not
 close in Vim scripts

---
 src/parsers/vim.rl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/vim.rl b/src/parsers/vim.rl
index 3d278f2..4c7725b 100644
--- a/src/parsers/vim.rl
+++ b/src/parsers/vim.rl
@@ -55,9 +55,8 @@ enum {
     vim_comment;
     vim_string;
     newline        ${ entity = NEWLINE;   } => vim_ccallback;
-    #'"';
+    '"' when !no_code ${ entity = VIM_ANY; } => vim_ccallback;
     ^(space | '"') ${ entity = VIM_ANY;   } => vim_ccallback;
-
   *|;
 
   # Entity machine
-- 
2.43.0


From f85f738a04560d9821ba4a38b7273293d11be044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 27/70] fix: take a C for a fixed form Fortran comment in the
 first column only

---
 src/parsers/fortranfixed.rl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers/fortranfixed.rl b/src/parsers/fortranfixed.rl
index 16ad9c1..f5a166d 100644
--- a/src/parsers/fortranfixed.rl
+++ b/src/parsers/fortranfixed.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  ffixed_comment = 'C' @comment nonnewline*;
+  ffixed_comment = 'C' when starts_line @comment nonnewline*;
 
   ffixed_sq_str = '\'' @code nonnewline* '\'';
   ffixed_dq_str = '"' @code nonnewline* '"';
@@ -55,7 +55,8 @@ enum {
     ffixed_comment;
     ffixed_string;
     newline         ${ entity = NEWLINE;      } => ffixed_ccallback;
-    ^space          ${ entity = FFIXED_ANY;   } => ffixed_ccallback;
+    'C' when !starts_line ${ entity = FFIXED_ANY; } => ffixed_ccallback;
+    ^(space | 'C')  ${ entity = FFIXED_ANY;   } => ffixed_ccallback;
   *|;
 
   # Entity machine
@@ -65,7 +66,7 @@ enum {
              userdata);
   }
 
-  ffixed_comment_entity = 'C' nonnewline*;
+  ffixed_comment_entity = 'C' when starts_line nonnewline*;
 
   ffixed_entity := |*
     space+                ${ entity = FFIXED_SPACE;   } => ffixed_ecallback;
-- 
2.43.0


From 387531f8b72a581f7f69235fdfec8f64a39a13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 28/70] fix: count a line with just the backslash of a
 continued string as code

---
 src/parsers/c.rl            | 4 ++--
 src/parsers/chaiscript.rl   | 4 ++--
 src/parsers/d.rl            | 6 +++---
 src/parsers/elm.rl          | 2 +-
 src/parsers/fsharp.rl       | 4 ++--
 src/parsers/glsl.rl         | 4 ++--
 src/parsers/golang.rl       | 4 ++--
 src/parsers/groovy.rl       | 4 ++--
 src/parsers/haskell.rl      | 2 +-
 src/parsers/javascript.rl   | 4 ++--
 src/parsers/modula3.rl      | 4 ++--
 src/parsers/rust.rl         | 2 +-
 src/parsers/stratego.rl     | 2 +-
 src/parsers/tcl.rl          | 2 +-
 src/parsers/unrealscript.rl | 4 ++--
 15 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index d0da598..96b5af9 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -66,7 +66,7 @@ enum {
 
   c_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
@@ -76,7 +76,7 @@ enum {
     )* '\'' @code;
   c_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index b83cc4a..b609f08 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -62,7 +62,7 @@ enum {
   # I can't find a definitive answer.
   chai_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
@@ -72,7 +72,7 @@ enum {
     )* '\'' @code;
   chai_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 1dac49d..b3c30c7 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -80,7 +80,7 @@ enum {
 
   d_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -90,7 +90,7 @@ enum {
     )* '\'' @code;
   d_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -100,7 +100,7 @@ enum {
     )* '"' @code;
   d_bt_str =
     '`' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index bbc0ac5..55af669 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -67,7 +67,7 @@ enum {
   elm_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   elm_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %elm_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %elm_ccallback
       |
       ws
       |
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index cb6e492..cbb8188 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -67,7 +67,7 @@ enum {
 
   fsharp_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
@@ -77,7 +77,7 @@ enum {
     )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 64e0cda..2d96262 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -68,7 +68,7 @@ enum {
 
   glsl_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
@@ -78,7 +78,7 @@ enum {
     )* '\'' @code;
   glsl_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index fa9a227..7c34496 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -66,7 +66,7 @@ enum {
 
   golang_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
@@ -76,7 +76,7 @@ enum {
     )* '\'' @code;
   golang_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index caf6730..54139a4 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -64,7 +64,7 @@ enum {
 
   groovy_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
@@ -74,7 +74,7 @@ enum {
     )* '\'' @code;
   groovy_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 9f4b445..f1a251f 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -67,7 +67,7 @@ enum {
   haskell_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   haskell_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %haskell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %haskell_ccallback
       |
       ws
       |
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 723fbcf..4e823ae 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -61,7 +61,7 @@ enum {
   # I can't find a definitive answer.
   js_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
@@ -71,7 +71,7 @@ enum {
     )* '\'' @code;
   js_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 198b62c..d2d0fb3 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -71,7 +71,7 @@ enum {
 
   modula3_singlequoted_string =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
@@ -81,7 +81,7 @@ enum {
     )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index 0dedd14..81b598c 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -67,7 +67,7 @@ enum {
 
   rust_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %rust_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %rust_ccallback
       |
       ws
       |
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 976480d..b6319ff 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -64,7 +64,7 @@ enum {
 
   stratego_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %stratego_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %stratego_ccallback
       |
       ws
       |
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index 79fb391..7db30a6 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -55,7 +55,7 @@ enum {
 
   tcl_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %tcl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %tcl_ccallback
       |
       ws
       |
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 13d2aee..64f75b9 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -57,7 +57,7 @@ enum {
 
   unrealscript_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
@@ -67,7 +67,7 @@ enum {
     )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
-- 
2.43.0


From 96cf9f68512f64e8b942047b96ad13995f482b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 29/70] fix: start a line between two embedded languages where
 its text starts

---
 src/parsers/common.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index eeebff8..4cc39be 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -51,14 +51,15 @@ action commit {
 action ls { if (!line_start) line_start = ts; }
 
 action code {
-  if (!line_contains_code && !line_start) line_start = ts;
+  // there is no token around the text between two embedded languages
+  if (!line_contains_code && !line_start) line_start = (ts) ? ts : p;
   line_contains_code = 1;
 }
 
 action comment {
   if (!line_contains_code) {
     whole_line_comment = 1;
-    if (!line_start) line_start = ts;
+    if (!line_start) line_start = (ts) ? ts : p;
   }
 }
 
-- 
2.43.0


From b54e9ca7b96f56b48b3cfd3a8424bada0bacae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 30/70] fix: let the comments of templates contain a dash

---
 src/parsers/clearsilverhtml.rl | 2 +-
 src/parsers/cs_aspx.rl         | 2 +-
 src/parsers/jsp.rl             | 2 +-
 src/parsers/phphtml.rl         | 2 +-
 src/parsers/rhtml.rl           | 2 +-
 src/parsers/vb_aspx.rl         | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 1474948..5318152 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -61,7 +61,7 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index fd7db94..170bd82 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -59,7 +59,7 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 3ef99d6..e18b759 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -61,7 +61,7 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 3a386f9..52b599d 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -61,7 +61,7 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
       @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 697eb8d..a88a455 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -61,7 +61,7 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index d4576db..35f2ec2 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -59,7 +59,7 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    ^(space | '<') @comment
     |
     '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
       @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
-- 
2.43.0


From 03ec873b6db0c124823f88fde4443860e58a9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 31/70] fix: look for the language in the whole list when
 adding a loc delta

---
 src/loc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..e478f2e 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,8 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (iter->delta && strcmp(iter->delta->language, delta->language) == 0)
+        break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From 99cf6f5c09d552954dd1f9b7cdf5abec7bafcb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 32/70] fix: do not read before a path without a dot or a slash

---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..cee1279 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -30,7 +30,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ?
+                    p : sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From a995eb99a4552f3f92e5a358a981be12472da94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 33/70] fix: free the empty side of a loc delta

---
 src/sourcefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index cee1279..4daa995 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -320,6 +320,7 @@ LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
     delta->blanks_removed = from->blanks_count - to->blanks_count;
   else
     delta->blanks_added = to->blanks_count - from->blanks_count;
+  ohcount_parsed_language_free(blank);
 
   return delta;
 }
-- 
2.43.0


From 8f8a6214cc8793e730367370a0a70a8b58b35957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 34/70] fix: copy the text to diff with its terminator

---
 src/diff.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index bbb96ab..938ca87 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -315,19 +315,19 @@ static int hash(char *line) {
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char bufcpy[strlen(buf)];
+  char *bufcpy = malloc(strlen(buf) + 1);
   char *l;
 
   p = malloc(3*sizeof(struct line));
   j = 0;
-  strncpy(bufcpy, buf, strlen(buf));
-  bufcpy[strlen(buf)] = 0;
+  strcpy(bufcpy, buf);
   l = strtok(bufcpy, "\n");
   while (l) {
     p = realloc(p, (++j+3)*sizeof(struct line));
     p[j].value = hash(l);
     l = strtok(NULL, "\n");
   }
+  free(bufcpy);
   len[i] = j;
   file[i] = p;
 }
-- 
2.43.0


From 7832ee6fc4018ce68812bcbf0f2c43ed3015ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 35/70] fix: tell lines with the same hash apart when diffing

---
 src/diff.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 src/diff.h |  3 ++-
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 938ca87..72a8adc 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -307,8 +307,56 @@ static int hash(char *line) {
   return ((short)low(sum) + (short)high(sum));
 }
 
+/** A distinct line of the buffers being compared. */
+struct text {
+  char *line;
+  int hash;
+  int number;
+  struct text *next;
+};
+
+#define NTEXTS 4096
+static struct text *texts[NTEXTS];
+static int ntexts;
+
+/**
+ * Returns a positive number that is the same for equal lines only.
+ * (Different lines may well have the same hash.)
+ * @param line The line of a buffer.
+ */
+static int number(char *line) {
+  int h = hash(line);
+  struct text **bucket = &texts[h & (NTEXTS-1)];
+  struct text *t;
+
+  for (t = *bucket; t; t = t->next)
+    if (t->hash == h && strcmp(t->line, line) == 0)
+      return t->number;
+  t = malloc(sizeof(struct text));
+  t->line = strdup(line);
+  t->hash = h;
+  t->number = ++ntexts;
+  t->next = *bucket;
+  *bucket = t;
+  return t->number;
+}
+
+/** Forgets the lines numbered so far. */
+static void forget_numbers(void) {
+  int i;
+
+  for (i = 0; ntexts > 0; i++)
+    while (texts[i]) {
+      struct text *t = texts[i];
+      texts[i] = t->next;
+      free(t->line);
+      free(t);
+      ntexts--;
+    }
+}
+
 /**
- * Hashes each line in the given string buffer and stores it internally.
+ * Numbers each line in the given string buffer and stores it internally.
  * @param i 0 for diff 'from', 1 for diff 'to'.
  * @param buf The string buffer to prepare from.
  */
@@ -324,7 +372,7 @@ void prepare(int i, const char *buf) {
   l = strtok(bufcpy, "\n");
   while (l) {
     p = realloc(p, (++j+3)*sizeof(struct line));
-    p[j].value = hash(l);
+    p[j].value = number(l);
     l = strtok(NULL, "\n");
   }
   free(bufcpy);
@@ -678,6 +726,7 @@ void ohcount_calc_diff(const char *from,
 
   prepare(0, from);
   prepare(1, to);
+  forget_numbers();
   clen = 0;
   prune();
   sort(sfile[0], slen[0]);
diff --git a/src/diff.h b/src/diff.h
index 44739a4..14aaddc 100644
--- a/src/diff.h
+++ b/src/diff.h
@@ -8,7 +8,8 @@
  * Computes the diff between the lines of two given string buffers.
  * The results are stored in the passed integer pointers.
  * Note: The algorithm discussed mentions a check being performed to find lines
- * matched incorrectly due to hashing; it is not in this implementation.
+ * matched incorrectly due to hashing; it is not in this implementation, which
+ * numbers the distinct lines instead.
  * @param from The diff 'from' buffer.
  * @param to The diff 'to' buffer.
  * @param added Int pointer the number of lines added result is stored to.
-- 
2.43.0


From 6f875438f182c5eab80c169dabc42c4d79484268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 36/70] fix: look at the beginning of each line of the diff
 only

---
 src/diff.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 72a8adc..e5d8f18 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -700,11 +700,13 @@ void ohcount_calc_diff_with_disk(
 	FILE *f = popen(command, "r");
 	if (f) {
 		char line[10000];
+		int starts_line = 1; // not the rest of a line longer than the buffer
 		while(fgets(line, sizeof(line), f)) {
-			if (line[0] == '>')
+			if (starts_line && line[0] == '>')
 			 	(*added)++;
-			if (line[0] == '<')
+			if (starts_line && line[0] == '<')
 				(*removed)++;
+			starts_line = strchr(line, '\n') != NULL;
 		}
 	}
 	pclose(f);
-- 
2.43.0


From 4eeaf1fc1e0e367f87322d529c69b8abb88274fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:17 +0000
Subject: [PATCH 37/70] fix: take paths of any length when adding a directory

---
 src/sourcefile.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 4daa995..90a7bbb 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -371,10 +371,7 @@ void ohcount_sourcefile_list_add_file(SourceFileList *list,
 
 void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                            const char *directory) {
-  char filepath[FILENAME_MAX];
-  strncpy(filepath, directory, strlen(directory));
-  *(filepath + strlen(directory)) = '/';
-  char *f_p = filepath + strlen(directory) + 1;
+  int dir_length = strlen(directory);
 
   struct dirent *file;
   DIR *d = NULL;
@@ -382,18 +379,18 @@ void ohcount_sourcefile_list_add_directory(SourceFileList *list,
   if (d) {
     while ((file = readdir(d))) {
       struct stat st;
-      int length = strlen(file->d_name);
-      strncpy(f_p, (const char *)file->d_name, length);
-      *(f_p + length) = '\0';
-
-      lstat(filepath, &st);
-      if(S_ISLNK(st.st_mode))
-        continue;
-
-      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
-        ohcount_sourcefile_list_add_directory(list, filepath);
-      else if (S_ISREG(st.st_mode))
-        ohcount_sourcefile_list_add_file(list, filepath);
+      char *filepath = malloc(dir_length + strlen(file->d_name) + 2);
+      strcpy(filepath, directory);
+      filepath[dir_length] = '/';
+      strcpy(filepath + dir_length + 1, file->d_name);
+
+      if (lstat(filepath, &st) == 0 && !S_ISLNK(st.st_mode)) {
+        if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
+          ohcount_sourcefile_list_add_directory(list, filepath);
+        else if (S_ISREG(st.st_mode))
+          ohcount_sourcefile_list_add_file(list, filepath);
+      }
+      free(filepath);
     }
     closedir(d);
   }
-- 
2.43.0


From 3d83b8efaae058cc2e16892b67a3979f50d7235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 38/70] fix: cut lines at the size of the buffer when detecting
 a language

---
 src/detector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..af17017 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -146,7 +146,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
     while (pe < eof) {
       // Get the contents of the first line.
       while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-      length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+      length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
       strncpy(line, p, length);
       line[length] = '\0';
       if (*line == '#' && *(line + 1) == '!') {
@@ -166,7 +166,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       }
       pe = p;
       while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
-      length = (pe - p <= sizeof(buf)) ? pe - p : sizeof(buf);
+      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
 
@@ -323,7 +323,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *line_end = pe;
@@ -572,7 +572,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -741,7 +741,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1029,7 +1029,7 @@ const char *disambiguate_st(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
-- 
2.43.0


From 009df2480814da262b4aa0a5e340254494d5ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 39/70] fix: stop at the end of the line when reading an Emacs
 mode

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index af17017..3d3cba4 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -165,7 +165,8 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
       pe = p;
-      while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
+      while (*pe && !isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-"))
+        pe++;
       length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
-- 
2.43.0


From 456ad4ff680a90f629544760377d9ed8754c8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 40/70] fix: look at every directive of an ASPX page, whatever
 its length

---
 src/detector.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 3d3cba4..8128029 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -237,18 +237,18 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (p && pe) {
       p += 3;
       const int length = pe - p;
-      char buf[length];
+      char *buf = malloc(length + 1), *b;
+      int vb = 0;
       strncpy(buf, p, length);
       buf[length] = '\0';
-      char *eol = buf + strlen(buf);
-      for (p = buf; p < eol; p++) *p = tolower(*p);
-      p = buf;
-      while (*p == ' ' || *p == '\t') p++;
-      if (strncmp(p, "page", 4) == 0) {
-        p += 4;
-        if (strstr(p, "language=\"vb\""))
-          return LANG_VB_ASPX;
-      }
+      for (b = buf; *b; b++) *b = tolower(*b);
+      b = buf;
+      while (*b == ' ' || *b == '\t') b++;
+      if (strncmp(b, "page", 4) == 0)
+        vb = strstr(b + 4, "language=\"vb\"") != NULL;
+      free(buf);
+      if (vb)
+        return LANG_VB_ASPX;
     }
   }
   return LANG_CS_ASPX;
-- 
2.43.0


From eb4d9484c48708cdaf61463ee745166db2e61133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 41/70] fix: find the file name of a Limbo include

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index 8128029..03a1884 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -293,6 +293,7 @@ const char *disambiguate_b(SourceFile *sourcefile) {
       p += 7;
       while (*p == ' ' || *p == '\t') p++;
       if (*p == '"') {
+        p++;
         while (*p != '"' && p < eof) p++;
         if (*p == '"' && *(p + 1) == ';')
           return LANG_LIMBO;
@@ -781,6 +782,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
       if (*p == ' ' || *p == '\t') {
         while (*p == ' ' || *p == '\t') p++;
         if (*p == '"') {
+          p++;
           while (*p != '"' && p < eol) p++;
           if (*p == '"' && *(p - 2) == '.' && *(p - 1) == 'm')
             limbo_score++;
-- 
2.43.0


From f2e315ee24f1ee20f7008352ebbe14d055b62bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 42/70] fix: do not read before a line, nor write behind a file
 name, of a header

---
 src/detector.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 03a1884..f50b7ba 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -546,13 +546,13 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
 }
 
 const char *disambiguate_h(SourceFile *sourcefile) {
-  char *p, *pe, *bof;
+  char *p, *pe;
   int length;
 
   // If the directory contains a matching *.m file, likely Objective C.
   length = strlen(sourcefile->filename);
   if (strcmp(sourcefile->ext, "h") == 0) {
-    char path[length];
+    char path[length + 1];
     strncpy(path, sourcefile->filename, length);
     path[length] = '\0';
     *(path + length - 1) = 'm';
@@ -567,8 +567,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
 
   // Attempt to detect based on file contents.
   char line[81], buf[81];
-  bof = ohcount_sourcefile_get_contents(sourcefile);
-  p = bof;
+  p = ohcount_sourcefile_get_contents(sourcefile);
   pe = p;
   char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
   while (pe < eof) {
@@ -615,7 +614,8 @@ const char *disambiguate_h(SourceFile *sourcefile) {
     // Look for C++ keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != bof && !isalnum(*(p - 1)) && *(p - 1) != '_') {
+      if (islower(*p) &&
+          (p == line || !isalnum(*(p - 1)) && *(p - 1) != '_')) {
         pe = p;
         while (islower(*pe)) pe++;
         if (!isalnum(*pe) && *pe != '_') {
-- 
2.43.0


From 03b8152c2fa85cc08a43f92291a4e1b76a8a0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 43/70] fix: take the .in off file names that have one only

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index f50b7ba..e05188c 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -648,11 +648,11 @@ const char *disambiguate_in(SourceFile *sourcefile) {
   const char *language = NULL;
 
   p = sourcefile->filepath;
-  pe = p + strlen(p) - 3;
-  if (strstr(p, ".") <= pe) {
+  length = strlen(p) - 3;
+  pe = strstr(p, ".");
+  if (pe && pe - p <= length) {
     // Only if the filename has an extension prior to the .in
-    length = pe - p;
-    char buf[length];
+    char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
     p = ohcount_sourcefile_get_contents(sourcefile);
-- 
2.43.0


From 48396831a44deb17f4908d66a0aba2e1cb7e3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 44/70] fix: look at the endings of file names of any length
 around a .m file

---
 src/detector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index e05188c..52edc0e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -716,12 +716,14 @@ const char *disambiguate_m(SourceFile *sourcefile) {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 3) {
+      }
+      if (pe - p >= 3) {
         if (*(pe - 3) == '.' && *(pe - 2) == 'c' && *(pe - 1) == 'c') {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 2) {
+      }
+      if (pe - p >= 2) {
         if (*(pe - 2) == '.') {
           if (*(pe - 1) == 'h')
             has_h_headers = 1;
-- 
2.43.0


From 76dbd59200807371093d569572971f69209f2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 45/70] fix: free the regular expressions that tell Puppet and
 Perl files

---
 src/detector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 52edc0e..c174882 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -919,7 +919,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	int found = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
+	pcre_free(keyword);
+	if (found)
 		return LANG_PUPPET;
 
 	/* check for standard puppet constructs */
@@ -927,7 +929,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	found = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1;
+	pcre_free(construct);
+	if (found)
 		return LANG_PUPPET;
 
 	return LANG_PASCAL;
@@ -942,7 +946,9 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
 	const char *error;
 	int erroffset;
 	pcre *re = pcre_compile("#![^\\n]*perl", PCRE_CASELESS, &error, &erroffset, NULL);
-  if (pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1)
+  int found = pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1;
+  pcre_free(re);
+  if (found)
     return LANG_PERL;
 
   // Check for prolog :- rules
-- 
2.43.0


From 0a06157762df7e7081dbd3481231e5f1c2c61415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 46/70] fix: look at the very end of .r and .rs files, too

---
 src/detector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index c174882..914a072 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -989,7 +989,7 @@ const char *disambiguate_r(SourceFile *sourcefile) {
   // block.
   char *needle = "rebol";
   int len = strlen(needle);
-  for (; contents < eof - len; ++contents)
+  for (; contents <= eof - len; ++contents)
     if (tolower(*contents) == *needle &&
           !strncasecmp(contents, needle, len))
       return LANG_REBOL;
@@ -1017,7 +1017,7 @@ const char *disambiguate_rs(SourceFile *sourcefile) {
 
   char *eof = contents + ohcount_sourcefile_get_contents_size(sourcefile);
 
-  for (; contents < eof - len; ++contents) {
+  for (; contents <= eof - len; ++contents) {
     if (!strncmp(contents, needle, len)) {
       return NULL;
     }
-- 
2.43.0


From 92be915cff340f5ae0122df8d28bdd0a0ab6ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 47/70] fix: do not read before the text libmagic reports

---
 src/detector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 914a072..f979e9a 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -55,12 +55,12 @@ const char *magic_parse(char *line) {
   p = strstr(line, "script"); // Example: "PHP script, ASCII text"
   if (p) {
     do {
-      p--;
+      if (p > line) p--;
       pe = p;
-      while (*p == ' ') p--;
+      while (p > line && *p == ' ') p--;
       while (p != line && isalnum(*(p - 1))) p--;
       if (p != line && *(p - 1) == '-') p--;
-    } while (*p == '-'); // Skip over any switches.
+    } while (p > line && *p == '-'); // Skip over any switches.
     length = pe - p;
     strncpy(buf, p, length);
     buf[length] = '\0';
-- 
2.43.0


From 9b07270cb8e4d59daa8c0efcff99a8df72c22adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 48/70] fix: close libmagic for a file that cannot be read

---
 src/detector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index f979e9a..0ef46fd 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -98,7 +98,10 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     line[sizeof(line)-1] = '\0';
   } else {
     char *p = ohcount_sourcefile_get_contents(sourcefile);
-    if (!p) return NULL;
+    if (!p) {
+      magic_close(cookie);
+      return NULL;
+    }
 
     const char *magic = magic_buffer(cookie, p, strlen(p));
     if (magic == NULL) {
-- 
2.43.0


From 29cc616ac0f390864dac9c9605673776274b45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 49/70] fix: leave room for the end of a file name's extension

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 0ef46fd..b3f4ee7 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -1080,7 +1080,7 @@ int ohcount_is_binary_filename(const char *filename) {
     re = ohcount_hash_language_from_ext(p, length);
     if (re) return ISBINARY(re->value);
     // Try the lower-case version of this extension.
-    char lowerext[length];
+    char lowerext[length + 1];
     strncpy(lowerext, p, length);
     lowerext[length] = '\0';
     for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
-- 
2.43.0


From 56c28d97060ed2b202a7249d83845fe973dd11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 50/70] fix: do not take a short line for a bad label of fixed
 form Fortran

---
 src/detector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index b3f4ee7..f92c52f 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -499,12 +499,14 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
         p++; i++;
         if (i <= 5) {
           blanklabel = blanklabel && (*p == ' ');
-          if ( !isdigit(*p) && *p != ' ' && *p != '!')
+          if ( !isdigit(*p) && *p != ' ' && *p != '!' &&
+               *p != '\r' && *p != '\n' && p < eof)
             // Non-digit, non-blank, non-comment character in the label field
             // definetly not valid fixed formatted code!
             return LANG_FORTRANFREE;
         }
-        if ((i == 6) && !blanklabel && *p != ' ' && *p != '0')
+        if ((i == 6) && !blanklabel && *p != ' ' && *p != '0' &&
+            *p != '\r' && *p != '\n' && p < eof)
           // Fixed format continuation line with non-blank label field
           // not allowed, assume free format:
           return LANG_FORTRANFREE;
-- 
2.43.0


From 38df94b9676e06b2b4ac96f48bc37fcbc1e3964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 51/70] fix: report the licenses found in every language of a
 file

---
 src/licenses.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/licenses.c b/src/licenses.c
index 6cbaae6..364acce 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -767,7 +767,7 @@ void compile_regexps() {
 #define OVERRIDE_LICENSE(l, with) { \
   if (strcmp(license_map[i].name, l) == 0) { \
     for (j = 0; j < license_map_length; j++) \
-      if (potential_licenses_s[j] > -1 && \
+      if (found_licenses[j] && \
           strcmp(license_map[j].name, with) == 0) { \
         overridden = 1; \
         break; \
@@ -794,6 +794,8 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
   if (iter_language) {
     int potential_licenses_s[license_map_length];
     int potential_licenses_e[license_map_length];
+    int found_licenses[license_map_length]; // in any of the languages
+    for (j = 0; j < license_map_length; j++) found_licenses[j] = 0;
 
     while (iter_language) {
       // Before looking for licenses, strip whitespace and newlines
@@ -853,12 +855,15 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      for (j = 0; j < license_map_length; j++)
+        if (potential_licenses_s[j] > -1) found_licenses[j] = 1;
+      free(buffer);
       iter_language = iter_language->next;
     }
 
     // Create the list of licenses from potential licenses.
     for (i = 0; i < license_map_length; i++) {
-      if (potential_licenses_s[i] > -1) {
+      if (found_licenses[i]) {
         int overridden = 0;
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
-- 
2.43.0


From 9ead5778eca594098540e76f19edcfcc67ae7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 52/70] fix: print annotated lines without copying them

---
 src/ohcount.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index ccf7c35..86a9fcf 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -12,11 +12,8 @@
 void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
-  int length = end - start;
-  char buf[length];
-  strncpy(buf, (const char*)sf->contents + start, length); // field exists
-  buf[length] = '\0';
-  printf("%s\t%s\t%s", language, entity, buf);
+  printf("%s\t%s\t", language, entity);
+  fwrite(sf->contents + start, 1, end - start, stdout); // field exists
 }
 
 void annotate(SourceFileList *list) {
-- 
2.43.0


From 40caf2e6a41fb246c98b97192b70afbe4dd519bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 53/70] fix: tell lines that end with a carriage return or a
 form feed apart when diffing

---
 src/diff.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/diff.c b/src/diff.c
index e5d8f18..950b64c 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -355,6 +355,17 @@ static void forget_numbers(void) {
     }
 }
 
+/**
+ * Makes every line of the given string buffer end with a newline, as some files
+ * end theirs with a carriage return or a form feed only.
+ * @param buf The string buffer to change.
+ */
+static void end_lines(char *buf) {
+  for (; *buf; buf++)
+    if (*buf == '\f' || (*buf == '\r' && buf[1] != '\n'))
+      *buf = '\n';
+}
+
 /**
  * Numbers each line in the given string buffer and stores it internally.
  * @param i 0 for diff 'from', 1 for diff 'to'.
@@ -369,6 +380,7 @@ void prepare(int i, const char *buf) {
   p = malloc(3*sizeof(struct line));
   j = 0;
   strcpy(bufcpy, buf);
+  end_lines(bufcpy);
   l = strtok(bufcpy, "\n");
   while (l) {
     p = realloc(p, (++j+3)*sizeof(struct line));
@@ -674,10 +686,13 @@ char *tmp_file_from_buf(const char *buf) {
 	char *path = strdup(template);
 
 	int fd = mkstemp(path);
-  if (write(fd, buf, strlen(buf)) != strlen(buf)) {
+  char *bufcpy = strdup(buf);
+  end_lines(bufcpy);
+  if (write(fd, bufcpy, strlen(bufcpy)) != strlen(bufcpy)) {
     fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
     exit(1);
   }
+  free(bufcpy);
 	close(fd);
 	return path;
 }
-- 
2.43.0


From 5db2bb1872b653fde3ee7a6a5333c76bcd3eff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 54/70] fix: look for Limbo keywords right after an include
 that is not Limbo's

---
 src/detector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index f92c52f..948d48e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -293,12 +293,12 @@ const char *disambiguate_b(SourceFile *sourcefile) {
       return LANG_LIMBO;
     else if (strncmp(p, "include", 7) == 0 &&
         (*(p + 7) == ' ' || *(p + 7) == '\t')) {
-      p += 7;
-      while (*p == ' ' || *p == '\t') p++;
-      if (*p == '"') {
-        p++;
-        while (*p != '"' && p < eof) p++;
-        if (*p == '"' && *(p + 1) == ';')
+      char *q = p + 7;
+      while (*q == ' ' || *q == '\t') q++;
+      if (*q == '"') {
+        q++;
+        while (*q != '"' && q < eof) q++;
+        if (*q == '"' && *(q + 1) == ';')
           return LANG_LIMBO;
       }
     } else if (strncmp(p, "return", 6) == 0 ||
-- 
2.43.0


From ba119c93866cc7d074ab0dfd6465b7e4bc38bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 55/70] fix: do not take Fortran for free form because its
 first line is empty

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index 948d48e..598de75 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -485,6 +485,8 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
   // format if anything opposes this assumption.
   // Rules based on the Fortran standard, page 47:
   // ftp://ftp.nag.co.uk/sc22wg5/N1801-N1850/N1830.pdf
+  // Lines that are empty say nothing, wherever they are.
+  while (p < eof && (*p == '\r' || *p == '\n')) p++;
   while (p < eof) {
     int i = 1;
     int blanklabel;
-- 
2.43.0


From cc8325a692aba1108b6eca14346b58b50e5c3ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:55 +0000
Subject: [PATCH 56/70] fix: end a Lua long bracket at the first closing
 bracket of its level

---
 src/parsers/lua.rl | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 067413f..a3159f5 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -48,7 +48,8 @@ enum {
 
   action lua_long_ec_res { equal_count = 0; }
   action lua_long_ec_inc { equal_count++; }
-  action lua_long_ec_dec { equal_count--; }
+  action lua_long_cc_res { close_count = 0; }
+  action lua_long_cc_inc { close_count++; }
 
   lua_long_comment =
     '--' ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @comment (
@@ -57,7 +58,8 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' @lua_long_cc_res ('=' @lua_long_cc_inc)*
+         ']' when { close_count == equal_count }) @commit;
   lua_line_comment = '--' @comment nonnewline*;
   lua_comment = lua_long_comment | lua_line_comment;
 
@@ -68,7 +70,8 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' @lua_long_cc_res ('=' @lua_long_cc_inc)*
+         ']' when { close_count == equal_count }) @commit;
   lua_sq_str =
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -107,7 +110,8 @@ enum {
 
   lua_block_comment_entity =
     '--[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
-    :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 });
+    :>> (']' @lua_long_cc_res ('=' @lua_long_cc_inc)*
+         ']' when { close_count == equal_count });
   lua_line_comment_entity = '--' (nonnewline)*;
   lua_comment_entity = lua_block_comment_entity | lua_line_comment_entity;
 
@@ -158,6 +162,7 @@ void parse_lua(char *buffer, int length, int count,
   init
 
   int equal_count = 0;
+  int close_count = 0;
 
   %% write init;
   cs = (count) ? lua_en_lua_line : lua_en_lua_entity;
-- 
2.43.0


From 6cc999cec1db943d0524d36931e3c37980384899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:28 +0000
Subject: [PATCH 57/70] fix: count code behind a Lua long comment on the same
 line

---
 src/parsers/lua.rl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index a3159f5..8e7d0be 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -60,7 +60,8 @@ enum {
       (nonnewline - ws) @comment
     )* :>> (']' @lua_long_cc_res ('=' @lua_long_cc_inc)*
          ']' when { close_count == equal_count }) @commit;
-  lua_line_comment = '--' @comment nonnewline*;
+  lua_line_comment =
+    '--' @comment (nonnewline* - ('[' '='* '[' nonnewline*));
   lua_comment = lua_long_comment | lua_line_comment;
 
   lua_long_string =
@@ -112,7 +113,8 @@ enum {
     '--[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
     :>> (']' @lua_long_cc_res ('=' @lua_long_cc_inc)*
          ']' when { close_count == equal_count });
-  lua_line_comment_entity = '--' (nonnewline)*;
+  lua_line_comment_entity =
+    '--' (nonnewline* - ('[' '='* '[' nonnewline*));
   lua_comment_entity = lua_block_comment_entity | lua_line_comment_entity;
 
   lua_string_entity = sq_str_with_escapes | dq_str_with_escapes;
-- 
2.43.0


From 107113b3a6d68a732d5f37135f5a4128f2cf04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 58/70] fix: end a single-quoted string of Modula-2 and Oberon
 at the first single quote

---
 src/parsers/modula2.rl | 2 +-
 src/parsers/oberon.rl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/modula2.rl b/src/parsers/modula2.rl
index 27d6156..96e5efb 100644
--- a/src/parsers/modula2.rl
+++ b/src/parsers/modula2.rl
@@ -69,7 +69,7 @@ enum {
 
   # Modula-2 string literals
 
-  modula2_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  modula2_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   modula2_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   modula2_string = modula2_singlequoted_string | modula2_doublequoted_string;
diff --git a/src/parsers/oberon.rl b/src/parsers/oberon.rl
index ee0e30e..f9953a2 100644
--- a/src/parsers/oberon.rl
+++ b/src/parsers/oberon.rl
@@ -69,7 +69,7 @@ enum {
 
   # Oberon string literals
 
-  oberon_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  oberon_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   oberon_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   oberon_string = oberon_singlequoted_string | oberon_doublequoted_string;
-- 
2.43.0


From b05768f907afa15c420521ec928f045bdc83967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:57 +0000
Subject: [PATCH 59/70] fix: only a neighbour's extension can tell Visual
 Basic, not a whole file name like 'frm'

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 598de75..9220e45 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -361,7 +361,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
       p = pe;
       while (p > filenames[i] && *(p - 1) != '.') p--;
       length = pe - p;
-      if (length == 3 &&
+      if (p > filenames[i] && length == 3 &&
           (strncmp(p, "frm", length) == 0 ||
            strncmp(p, "frx", length) == 0 ||
            strncmp(p, "vba", length) == 0 ||
-- 
2.43.0


From c0a9a234e4fbc52fd9fc8923c4985f8308b3a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:49 +0000
Subject: [PATCH 60/70] fix: the WTF Public License's name is recognised (a
 form feed was looked for)

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 364acce..2225336 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -724,7 +724,7 @@ License license_map[] = {
     LIC_WTFPL2,
     "",
     "WTF Public License",
-    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*\\fuck\\s*public\\s*license\\b)",
+    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*fuck\\s*public\\s*license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From 8e9bb9c44a87ced51c149739285015b643649532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 61/70] fix: --detect lists source code files only, not a null
 language for the others

---
 src/ohcount.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index 86a9fcf..19f797e 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -28,8 +28,9 @@ void annotate(SourceFileList *list) {
 void detect(SourceFileList *list) {
   SourceFileList *iter = list->head;
   while (iter) {
-    printf("%s\t%s\n", ohcount_sourcefile_get_language(iter->sf),
-           iter->sf->filepath);
+    const char *language = ohcount_sourcefile_get_language(iter->sf);
+    if (language)
+      printf("%s\t%s\n", language, iter->sf->filepath);
     iter = iter->next;
   }
 }
-- 
2.43.0


From 3804c0c6a9b669b7141c16f14b5c2bd4b88a13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 62/70] fix: a newline is no part of a regular expression,
 whose first character may be escaped

---
 src/parsers/chaiscript.rl | 2 +-
 src/parsers/javascript.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index b609f08..cb583b1 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -80,7 +80,7 @@ enum {
       |
       '\\' nonnewline @code
     )* '"' @code;
-  chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  chai_regex_str = '/' ([^\r\n\f/*\\] | '\\' nonnewline) ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
   chai_line := |*
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 4e823ae..0e4c99d 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -79,7 +79,7 @@ enum {
       |
       '\\' nonnewline @code
     )* '"' @code;
-  js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  js_regex_str = '/' ([^\r\n\f/*\\] | '\\' nonnewline) ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
   js_line := |*
-- 
2.43.0


From 27da9d72d8616304039aac47cbf5ac6b59ed7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 63/70] fix: Lisp strings may begin with an escaped character
 and with any line end

---
 src/parsers/lisp.rl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 08bf62e..dd5e534 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -59,13 +59,13 @@ enum {
   lisp_empty_string =
     '"'{2} [^"] @{fhold;} @code;
 
-  lisp_char_string =
-    '"' [^"] '"' @code;
-
+  # the first character tells it from an empty string and a docstring
   lisp_regular_string =
-    '"' ([^"]{2}) @code (
+    '"' [^"] @code @{fhold;} (
       newline %{ entity = INTERNAL_NL; } %lisp_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %lisp_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
@@ -73,7 +73,7 @@ enum {
       '\\' nonnewline @code
     )* '"' @code;
 
-  lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
+  lisp_string = lisp_empty_string | lisp_regular_string;
 
   lisp_line := |*
     spaces        ${ entity = LISP_SPACE; } => lisp_ccallback;
-- 
2.43.0


From 0e05584a9867a3387efd6e7fee39a2f70f62b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 64/70] fix: the line end after an open Rebol string belongs to
 the line

---
 src/parsers/rebol.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index eb7fc59..773be91 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -54,7 +54,7 @@ enum {
   rebol_line_comment = ';' @comment nonnewline*;
   rebol_comment = rebol_line_comment;
 
-  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* [\r\n\f"];
+  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* '"'?;
   rebol_cb_str_inner = [^{}] | '^{' | '^}'
                      | newline %{ entity = INTERNAL_NL; } %rebol_ccallback
                      | rebol_cb_str_nest;
-- 
2.43.0


From 28d7d3f98c331c4cc289afc23cb7ae3cfba0e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 65/70] fix: a line comment in Haskell, Elm, MATLAB or Octave
 may be empty at the end of the file

---
 src/parsers/elm.rl     | 2 +-
 src/parsers/haskell.rl | 2 +-
 src/parsers/matlab.rl  | 2 +-
 src/parsers/octave.rl  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index 55af669..3354e5b 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -49,7 +49,7 @@ enum {
   action elm_comment_nc_dec { nest_count--; }
 
   # TODO: |-- is not a comment
-  elm_line_comment = '--' [^>] @{ fhold; } @comment nonnewline*;
+  elm_line_comment = '--' @comment ((nonnewline - '>') nonnewline*)?;
   elm_nested_block_comment =
     '{-' >elm_comment_nc_res @comment (
       newline %{ entity = INTERNAL_NL; } %elm_ccallback
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index f1a251f..6a41aa0 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -49,7 +49,7 @@ enum {
   action haskell_comment_nc_dec { nest_count--; }
 
   # TODO: |-- is not a comment
-  haskell_line_comment = '--' [^>] @{ fhold; } @comment nonnewline*;
+  haskell_line_comment = '--' @comment ((nonnewline - '>') nonnewline*)?;
   haskell_nested_block_comment =
     '{-' >haskell_comment_nc_res @comment (
       newline %{ entity = INTERNAL_NL; } %haskell_ccallback
diff --git a/src/parsers/matlab.rl b/src/parsers/matlab.rl
index 74b1324..54b8f0f 100644
--- a/src/parsers/matlab.rl
+++ b/src/parsers/matlab.rl
@@ -45,7 +45,7 @@ enum {
   }
 
   # Matlab(TM) comments also may begin with the line-continuing sequence ...
-  matlab_line_comment = (('%' | '...') [^{] @{ fhold; }) @comment nonnewline*;
+  matlab_line_comment = ('%' | '...') @comment ((nonnewline - '{') nonnewline*)?;
   matlab_block_comment =
     '%{' @comment (
       newline %{ entity = INTERNAL_NL; } %matlab_ccallback
diff --git a/src/parsers/octave.rl b/src/parsers/octave.rl
index 4d9255c..cb0f4a6 100644
--- a/src/parsers/octave.rl
+++ b/src/parsers/octave.rl
@@ -47,7 +47,7 @@ enum {
   # note: GNU Octave accepts % as well as #, but not '...' at the moment.  We
   # accept it anyways, as that may change.  Also, GNU Octave does not currently
   # support block comments but likely will someday.
-  octave_line_comment = (('%' | '...') [^{] @{ fhold; } | '#') @comment nonnewline*;
+  octave_line_comment = (('%' | '...') @comment ((nonnewline - '{') nonnewline*)? | '#' @comment nonnewline*);
   octave_block_comment =
     '%{' @comment (
       newline %{ entity = INTERNAL_NL; } %octave_ccallback
-- 
2.43.0


From b1621dc98febefc06185223f51f5163d81d52116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 66/70] fix: contents that were set are kept when the file is
 parsed

---
 src/sourcefile.c | 9 +++++++--
 src/structs.h    | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 90a7bbb..bf01a77 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -44,6 +44,7 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   sourcefile->contents = NULL;
   sourcefile->size = -1;
+  sourcefile->contents_set = 0;
 
   sourcefile->language = NULL;
   sourcefile->language_detected = 0;
@@ -78,6 +79,7 @@ void ohcount_sourcefile_set_contents(SourceFile *sourcefile,
   strncpy(sourcefile->contents, contents, size);
   sourcefile->contents[size] = '\0';
   sourcefile->size = size;
+  sourcefile->contents_set = 1;
 }
 
 char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
@@ -200,8 +202,11 @@ void ohcount_sourcefile_parse(SourceFile *sourcefile) {
     // undesirable build-up of memory until the SourceFileList is 'free'd.
     // While it is expensive to re-read the contents from the disk, it is
     // unlikely they will need to be accessed again after parsing.
-    free(sourcefile->contents); // field is guaranteed to exist
-    sourcefile->contents = NULL;
+    // Contents that were not read from the disk have to be kept.
+    if (!sourcefile->contents_set) {
+      free(sourcefile->contents); // field is guaranteed to exist
+      sourcefile->contents = NULL;
+    }
   }
 }
 
diff --git a/src/structs.h b/src/structs.h
index 82cdfc0..63c11e7 100644
--- a/src/structs.h
+++ b/src/structs.h
@@ -272,6 +272,12 @@ typedef struct {
    */
   int size;
 
+  /**
+   * Flag used internally for keeping track of whether or not the contents come
+   * from ohcount_sourcefile_set_contents(), so they cannot be read again.
+   */
+  int contents_set;
+
   /**
    * The file's detected source code language.
    * Do not use this field. Use ohcount_sourcefile_get_language() instead.
-- 
2.43.0


From 1a2fd9954516d7c3ac57e94da9330ab7bbacb5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:13 +0000
Subject: [PATCH 67/70] fix: a line with nothing but the %> that ends C# or
 Visual Basic is HTML

---
 src/parsers/cs_aspx.rl | 2 +-
 src/parsers/vb_aspx.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 170bd82..d7a869b 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -127,7 +127,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>') @check_blank_outry @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 35f2ec2..5327842 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -127,7 +127,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>') @check_blank_outry @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
-- 
2.43.0


From 4884150ed2ada14d9e02badad1a4cfcbb562d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:13 +0000
Subject: [PATCH 68/70] fix: a last line of embedded code without a line end
 belongs to the embedded language

---
 src/parser_macros.h            | 27 ++++++++++++++++++++++++++-
 src/parsers/clearsilverhtml.rl |  2 +-
 src/parsers/cs_aspx.rl         |  2 +-
 src/parsers/haml.rl            |  2 +-
 src/parsers/jsp.rl             |  2 +-
 src/parsers/phphtml.rl         |  2 +-
 src/parsers/rhtml.rl           |  2 +-
 src/parsers/vb_aspx.rl         |  2 +-
 8 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index d33e4b0..b989c1e 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -265,7 +265,7 @@ void free_queue() {
  * @param lang The language name string.
  * @note Applies only to line counting parsers.
  */
-#define process_last_line(lang) {\
+#define last_line(lang) {\
   if ((whole_line_comment || line_contains_code) && callback) { \
     if (line_contains_code) \
       callback(lang, "lcode", cint(line_start), cint(pe), userdata); \
@@ -276,6 +276,31 @@ void free_queue() {
     callback(lang, "lblank", cint(line_start), cint(pe), userdata); \
 }
 
+/**
+ * Processes the last line of a parser that may end in an embedded language.
+ * @param lang The language name string.
+ * @note Applies only to line counting parsers.
+ */
+#define process_last_line(lang) {\
+  if (seen && top > 0) \
+    last_line(seen) \
+  else \
+    last_line(lang) \
+}
+
+/**
+ * Processes the last line of a parser that uses emb_newline, which has the line
+ * of an embedded language's code end with its language.
+ * @param lang The language name string.
+ * @note Applies only to line counting parsers.
+ */
+#define emb_last_line(lang) {\
+  if (seen) \
+    last_line(seen) \
+  else \
+    last_line(lang) \
+}
+
 /**
  * Determines whether or not the rest of the line is blank.
  * This is typically used when entering an embedded language.
diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 5318152..9a8e331 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -238,7 +238,7 @@ void parse_cshtml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(CSHTML_LANG) }
+  if (count) { emb_last_line(CSHTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index d7a869b..85f77bb 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -237,7 +237,7 @@ void parse_cs_aspx(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(CS_ASPX_LANG) }
+  if (count) { emb_last_line(CS_ASPX_LANG) }
 
 	C_LANG = LANG_C;
 }
diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index 786d17f..a540263 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -215,7 +215,7 @@ void parse_haml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(HAML_LANG) }
+  if (count) { emb_last_line(HAML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index e18b759..37e5c4b 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -237,7 +237,7 @@ void parse_jsp(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(JSP_LANG) }
+  if (count) { emb_last_line(JSP_LANG) }
 }
 
 #endif
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 52b599d..e3f0cf3 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -237,7 +237,7 @@ void parse_phtml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(PHTML_LANG) }
+  if (count) { emb_last_line(PHTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index a88a455..656738f 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -237,7 +237,7 @@ void parse_rhtml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(RHTML_LANG) }
+  if (count) { emb_last_line(RHTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 5327842..787f1e1 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -236,7 +236,7 @@ void parse_vb_aspx(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(VB_ASPX_LANG) }
+  if (count) { emb_last_line(VB_ASPX_LANG) }
 }
 
 #endif
-- 
2.43.0


From 0f9d7c2ca087ebf6532d5f88ab8d314211825aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 69/70] fix: a line comment ends where the language embedded in
 HTML ends

---
 src/parsers/clearsilverhtml.rl | 14 ++++++++++++--
 src/parsers/common.rl          | 16 ++++++++++++++++
 src/parsers/cs_aspx.rl         | 14 ++++++++++++--
 src/parsers/html.rl            |  7 ++++++-
 src/parsers/jsp.rl             | 14 ++++++++++++--
 src/parsers/phphtml.rl         | 14 ++++++++++++--
 src/parsers/rhtml.rl           | 14 ++++++++++++--
 src/parsers/vb_aspx.rl         | 14 ++++++++++++--
 8 files changed, 94 insertions(+), 13 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 9a8e331..a124172 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -118,11 +118,16 @@ enum {
 
   cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   cshtml_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  cshtml_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  cshtml_js_comment = cshtml_js_line_comment | js_block_comment;
+  cshtml_js_comment_outry = cshtml_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces      ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    cshtml_js_comment;
+    cshtml_js_comment_outry => { fret; };
     js_string;
     newline     ${ entity = NEWLINE;  } => js_ccallback;
     ^space      ${ entity = JS_ANY;   } => js_ccallback;
@@ -130,11 +135,16 @@ enum {
 
   cshtml_cs_entry = '<?cs' @code;
   cshtml_cs_outry = '?>' @check_blank_outry @code;
+  cshtml_cs_line_comment = '#' @comment (nonnewline when not_question_gt)*;
+  cshtml_cs_comment = cshtml_cs_line_comment;
+  cshtml_cs_comment_outry = cshtml_cs_line_comment '?>'
+    (nonnewline when not_entry)*;
   cshtml_cs_line := |*
     cshtml_cs_outry @{ p = ts; fret; };
     # unmodified Clearsilver patterns
     spaces      ${ entity = CS_SPACE; } => cs_ccallback;
-    cs_comment;
+    cshtml_cs_comment;
+    cshtml_cs_comment_outry => { fret; };
     cs_string;
     newline     ${ entity = NEWLINE;  } => cs_ccallback;
     ^space      ${ entity = CS_ANY;   } => cs_ccallback;
diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 4cc39be..9a89520 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -69,6 +69,22 @@ action check_blank_outry {
 
 # common conditionals
 
+# The line comments of a language embedded in HTML end where the language does.
+# The rest of such a line up to the next embedded language belongs to them.
+action not_entry {
+  !(*p == '<' && p+1 < pe && (*(p+1) == '%' || *(p+1) == '?' ||
+                              *(p+1) == 's' || *(p+1) == 'S'))
+}
+action not_percent_gt { !(*p == '%' && p+1 < pe && *(p+1) == '>') }
+action not_question_gt { !(*p == '?' && p+1 < pe && *(p+1) == '>') }
+action not_aspx_end {
+  !(*p == '%' && p+1 < pe && *(p+1) == '>') &&
+  !(*p == '<' && pe - p > 8 && strncasecmp(p, "</script", 8) == 0)
+}
+action not_script_end {
+  !(*p == '<' && pe - p > 8 && strncasecmp(p, "</script", 8) == 0)
+}
+
 action no_code { !line_contains_code }
 action no_comment { !whole_line_comment }
 action no_code_or_comment { !line_contains_code && !whole_line_comment }
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 85f77bb..156dcc5 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -116,11 +116,16 @@ enum {
 
   cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   cs_aspx_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  cs_aspx_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  cs_aspx_js_comment = cs_aspx_js_line_comment | js_block_comment;
+  cs_aspx_js_comment_outry = cs_aspx_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    cs_aspx_js_comment;
+    cs_aspx_js_comment_outry => { fret; };
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -128,11 +133,16 @@ enum {
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>') @check_blank_outry @code;
+  cs_aspx_cs_line_comment = '//' @comment (nonnewline when not_aspx_end)*;
+  cs_aspx_cs_comment = cs_aspx_cs_line_comment | c_block_comment;
+  cs_aspx_cs_comment_outry = cs_aspx_cs_line_comment
+    ('%>' | '</' /script/i ws* '>') (nonnewline when not_entry)*;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
     spaces        ${ entity = C_SPACE; } => c_ccallback;
-    c_comment;
+    cs_aspx_cs_comment;
+    cs_aspx_cs_comment_outry => { fret; };
     c_string;
     newline       ${ entity = NEWLINE;    } => c_ccallback;
     ^space        ${ entity = C_ANY;   } => c_ccallback;
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 42cc396..dc4ffbe 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -83,11 +83,16 @@ enum {
 
   html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   html_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  html_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  html_js_comment = html_js_line_comment | js_block_comment;
+  html_js_comment_outry = html_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    html_js_comment;
+    html_js_comment_outry => { fret; };
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 37e5c4b..a512261 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -118,11 +118,16 @@ enum {
 
   jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   jsp_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  jsp_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  jsp_js_comment = jsp_js_line_comment | js_block_comment;
+  jsp_js_comment_outry = jsp_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    jsp_js_comment;
+    jsp_js_comment_outry => { fret; };
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -130,11 +135,16 @@ enum {
 
   jsp_java_entry = '<%' @code;
   jsp_java_outry = '%>' @check_blank_outry @code;
+  jsp_java_line_comment = '//' @comment (nonnewline when not_percent_gt)*;
+  jsp_java_comment = jsp_java_line_comment | java_block_comment;
+  jsp_java_comment_outry = jsp_java_line_comment '%>'
+    (nonnewline when not_entry)*;
   jsp_java_line := |*
     jsp_java_outry @{ p = ts; fret; };
     # unmodified JAVA patterns
     spaces        ${ entity = JAVA_SPACE; } => java_ccallback;
-    java_comment;
+    jsp_java_comment;
+    jsp_java_comment_outry => { fret; };
     java_string;
     newline       ${ entity = NEWLINE;    } => java_ccallback;
     ^space        ${ entity = JAVA_ANY;   } => java_ccallback;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index e3f0cf3..ad18815 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -118,11 +118,16 @@ enum {
 
   phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   phtml_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  phtml_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  phtml_js_comment = phtml_js_line_comment | js_block_comment;
+  phtml_js_comment_outry = phtml_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    phtml_js_comment;
+    phtml_js_comment_outry => { fret; };
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -130,11 +135,16 @@ enum {
 
   phtml_php_entry = ('<?' 'php'?) @code;
   phtml_php_outry = '?' when { p+1 < pe && *(p+1) == '>' };
+  phtml_php_line_comment = ('//' | '#') @comment (nonnewline when not_question_gt)*;
+  phtml_php_comment = phtml_php_line_comment | php_block_comment;
+  phtml_php_comment_outry = phtml_php_line_comment '?>'
+    (nonnewline when not_entry)*;
   phtml_php_line := |*
     phtml_php_outry @{ fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
-    php_comment;
+    phtml_php_comment;
+    phtml_php_comment_outry => { fret; };
     php_string;
     newline      ${ entity = NEWLINE;   } => php_ccallback;
     ^space       ${ entity = PHP_ANY;   } => php_ccallback;
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 656738f..e663118 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -118,11 +118,16 @@ enum {
 
   rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   rhtml_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  rhtml_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  rhtml_js_comment = rhtml_js_line_comment | js_block_comment;
+  rhtml_js_comment_outry = rhtml_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    rhtml_js_comment;
+    rhtml_js_comment_outry => { fret; };
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -130,11 +135,16 @@ enum {
 
   rhtml_ruby_entry = '<%' @code;
   rhtml_ruby_outry = '%>' @check_blank_outry @code;
+  rhtml_ruby_line_comment = '#' @comment (nonnewline when not_percent_gt)*;
+  rhtml_ruby_comment = rhtml_ruby_line_comment | ruby_block_comment;
+  rhtml_ruby_comment_outry = rhtml_ruby_line_comment '%>'
+    (nonnewline when not_entry)*;
   rhtml_ruby_line := |*
     rhtml_ruby_outry @{ p = ts; fret; };
     # unmodified Ruby patterns
     spaces        ${ entity = RUBY_SPACE; } => ruby_ccallback;
-    ruby_comment;
+    rhtml_ruby_comment;
+    rhtml_ruby_comment_outry => { fret; };
     ruby_string;
     newline       ${ entity = NEWLINE;    } => ruby_ccallback;
     ^space        ${ entity = RUBY_ANY;   } => ruby_ccallback;
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 787f1e1..2e8a8aa 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -116,11 +116,16 @@ enum {
 
   vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
   vb_aspx_js_outry = '</' /script/i ws_or_nl* '>' @check_blank_outry @code;
+  vb_aspx_js_line_comment = '//' @comment (nonnewline when not_script_end)*;
+  vb_aspx_js_comment = vb_aspx_js_line_comment | js_block_comment;
+  vb_aspx_js_comment_outry = vb_aspx_js_line_comment '</' /script/i ws* '>'
+    (nonnewline when not_entry)*;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    vb_aspx_js_comment;
+    vb_aspx_js_comment_outry => { fret; };
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -128,11 +133,16 @@ enum {
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
   vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_nl* '>') @check_blank_outry @code;
+  vb_aspx_vb_line_comment = ('\'' | /rem/i) @comment (nonnewline when not_aspx_end)*;
+  vb_aspx_vb_comment = vb_aspx_vb_line_comment;
+  vb_aspx_vb_comment_outry = vb_aspx_vb_line_comment ('%>' | '</' /script/i ws* '>')
+    (nonnewline when not_entry)*;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
     spaces        ${ entity = VB_SPACE; } => vb_ccallback;
-    vb_comment;
+    vb_aspx_vb_comment;
+    vb_aspx_vb_comment_outry => { fret; };
     vb_string;
     newline       ${ entity = NEWLINE;    } => vb_ccallback;
     ^space        ${ entity = VB_ANY;   } => vb_ccallback;
-- 
2.43.0


From b778210747b5586ee0440732ad6fb09dffc1cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 70/70] fix: a comment inside a Nix string ends where the
 string ends

---
 src/parsers/nix.rl | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index d607bb8..1192610 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -61,6 +61,11 @@ enum {
 
   nix_comment = nix_line_comment | nix_block_comment;
 
+  # A shell comment ends where the string around it does.
+  action not_dsq_end { !(*p == '\'' && p+1 < pe && *(p+1) == '\'') }
+  nix_dq_shell_comment = '#' @comment ([^\r\n\f"\\] | '\\' nonnewline)* '\\'?;
+  nix_dsq_shell_comment = '#' @comment (nonnewline when not_dsq_end)*;
+
   nix_dq_shell_entry = '"' @code;
   nix_dq_shell_outry = '"' @check_blank_outry @code;
   nix_dq_shell_line := |*
@@ -68,7 +73,7 @@ enum {
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-    shell_comment;
+    nix_dq_shell_comment;
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
     ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
@@ -81,7 +86,7 @@ enum {
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-    shell_comment;
+    nix_dsq_shell_comment;
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
     ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
@@ -110,6 +115,9 @@ enum {
   nix_comment_entity = nix_line_comment_entity | nix_block_comment_entity;
 
 
+  nix_dq_shell_comment_entity = '#' ([^\r\n\f"\\] | '\\' nonnewline)* '\\'?;
+  nix_dsq_shell_comment_entity = '#' (nonnewline when not_dsq_end)*;
+
   nix_dq_shell_entry_entity = '"';
   nix_dq_shell_outry_entity = '"';
   nix_dq_shell_entity := |*
@@ -117,7 +125,7 @@ enum {
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     space+               ${ entity = SHELL_SPACE;   } => shell_ecallback;
-    shell_comment_entity ${ entity = SHELL_COMMENT; } => shell_ecallback;
+    nix_dq_shell_comment_entity ${ entity = SHELL_COMMENT; } => shell_ecallback;
     # TODO:
     ^space;
   *|;
@@ -129,7 +137,7 @@ enum {
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     space+               ${ entity = SHELL_SPACE;   } => shell_ecallback;
-    shell_comment_entity ${ entity = SHELL_COMMENT; } => shell_ecallback;
+    nix_dsq_shell_comment_entity ${ entity = SHELL_COMMENT; } => shell_ecallback;
     # TODO:
     ^space;
   *|;
-- 
2.43.0

