#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sourcefile.h"
#include "detector.h"
#include "diff.h"
#include "loc.h"
#include "licenses.h"
static int bad;
static void is(const char *what, int got, int want) { if (got != want) { printf("%s: %d instead of %d\n", what, got, want); bad = 1; } }
static void same(const char *what, const char *got, const char *want) { if (!got ? !!want : !want || strcmp(got, want)) { printf("%s: %s instead of %s\n", what, got ? got : "none", want ? want : "none"); bad = 1; } }
static char out[4000]; static const char *txt;
static void line(const char *l, const char *e, int s, int n, void *u) { sprintf(out + strlen(out), "%s%s:%s:%d", *out ? " " : "", l, e + 1, n - s); }
static SourceFile *file(const char *name, const char *lang, const char *text) {
  SourceFile *f = ohcount_sourcefile_new(name);
  if (lang) ohcount_sourcefile_set_language(f, lang);
  ohcount_sourcefile_set_contents(f, text);
  return f;
}
/* language:kind:bytes of every line */
static const char *lines(const char *lang, const char *text) {
  SourceFile *f = file("f.x", lang, text); *out = 0;
  ohcount_sourcefile_parse_with_callback(f, line, 0); ohcount_sourcefile_free(f); return out;
}
static const char *entities(const char *lang, const char *text) {
  SourceFile *f = file("f.x", lang, text); *out = 0;
  ohcount_sourcefile_parse_entities_with_callback(f, line, 0); ohcount_sourcefile_free(f); return out;
}
static const char *detect(const char *name, const char *text, char **names) {
  SourceFile *f = file(name, NULL, text); f->filenames = names;
  const char *l = ohcount_detect_language(f); ohcount_sourcefile_free(f); return l;
}
int main(void) {
same("lines", lines("coq", "(*\n\xd0\xb6\xd1\x83\xd0\xba\n*)\n"), "coq:comment:3 coq:comment:7 coq:comment:3");
  return bad;
}
