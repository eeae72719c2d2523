#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sourcefile.h"
#include "detector.h"
#include "diff.h"
#include "loc.h"
#include "licenses.h"
static int bad;
static void is(const char *what, int got, int want) { if (got != want) { printf("%s: %d instead of %d\n", what, got, want); bad = 1; } }
static void same(const char *what, const char *got, const char *want) { if (!got ? !!want : !want || strcmp(got, want)) { printf("%s: %s instead of %s\n", what, got ? got : "none", want ? want : "none"); bad = 1; } }
static char out[4000]; static const char *txt;
static void line(const char *l, const char *e, int s, int n, void *u) { sprintf(out + strlen(out), "%s%s:%s:%d", *out ? " " : "", l, e + 1, n - s); }
static SourceFile *file(const char *name, const char *lang, const char *text) {
  SourceFile *f = ohcount_sourcefile_new(name);
  if (lang) ohcount_sourcefile_set_language(f, lang);
  ohcount_sourcefile_set_contents(f, text);
  return f;
}
/* language:kind:bytes of every line */
static const char *lines(const char *lang, const char *text) {
  SourceFile *f = file("f.x", lang, text); *out = 0;
  ohcount_sourcefile_parse_with_callback(f, line, 0); ohcount_sourcefile_free(f); return out;
}
static const char *entities(const char *lang, const char *text) {
  SourceFile *f = file("f.x", lang, text); *out = 0;
  ohcount_sourcefile_parse_entities_with_callback(f, line, 0); ohcount_sourcefile_free(f); return out;
}
static const char *detect(const char *name, const char *text, char **names) {
  SourceFile *f = file(name, NULL, text); f->filenames = names;
  const char *l = ohcount_detect_language(f); ohcount_sourcefile_free(f); return l;
}
#include <malloc.h>
int main(void) {
int i; lines("c", "int x;\n/* a\n b\n"); lines("perl", "s\n'a\nb\n \"c\nd\n");
  const char *t[] = {"haskell", "'''a\n'''b\n", "python", "x '''a\n\"\"\"b\n'c\n", "ruby", "x\n\"a\n'b\n\"c\n`d\n", "shell", "\"a\n'b\n", "lua", "[[a\n[==[b\n", "c", "/*a\n\"b\n", "php", "<?php\n\"a\n'b\n/*c\n"};
  for (i = 0; i < 14; i += 2) { size_t before = mallinfo2().uordblks; for (int k = 0; k < 50; k++) lines(t[i], t[i + 1]); size_t g = mallinfo2().uordblks - before; if (g > 1000) printf("%s %zu\n", t[i], g), bad = 1; }
  return bad;
}
