/* Parsing does not depend on what was parsed before: file B, then a file A that leaves the scanners in the middle of something, then B again. v_param3: 0 counts B, 1 lists its entities. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_langs.h"
#include "fill.h"
#define CAP 320
static struct { const char *l, *k; int s, e; } rec[CAP];
static int n, count, second;
static void cb(const char *lang, const char *ent, int s, int e, void *u) {
  if (!second) {
    if (count >= CAP) v_end_path();
    rec[count].l = lang; rec[count].k = ent; rec[count].s = s; rec[count].e = e;
  } else {
    v_cover("second report");
    v_assert(count < second - 1, "no report is added by what was parsed before");
    if (count >= second - 1) v_end_path();
    v_assert((unsigned)(rec[count].s == s) & (unsigned)(rec[count].e == e), "the same place is reported");
    v_assert(!strcmp(rec[count].l, lang), "the same language is reported");
    v_assert(!strcmp(rec[count].k, ent), "the same kind is reported");
  }
  count++;
}
static void ignore(const char *lang, const char *ent, int s, int e, void *u) {}
static void parse(const char *lang, char *text, int size, int entities, void (*f)(const char *, const char *, int, int, void *)) {
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, lang);
  char *b = malloc(size + 1); memcpy(b, text, size); b[size] = 0;
  sf->contents = b; sf->size = size;
  if (entities) ohcount_sourcefile_parse_entities_with_callback(sf, f, &n);
  else ohcount_sourcefile_parse_with_callback(sf, f, &n);
  ohcount_sourcefile_free(sf);
}
static const struct { const char *l, *t; } A[] = {
  {"c", "/* x"}, {"c", "x // y"}, {"perl", "x\n 'y\nz"}, {"php", "<?php x"}, {"php", "<style type=\"text/css\"> <?php 'x"}, {"python", "'''\nx"},
  {"haskell", "{- {- {- -}"}, {"jsp", "<script type=\"text/javascript\"> /* x"}, {"dmd", "/+ /+ x\n"}, {"lua", "--[==[ ]=]"}, {"ruby", "=begin\nx"}, {"shell", " "},
};
/* any beginning of a template (its holes filled with x), then a short file */
void h_prefix(void) {
  tm = &VTMPL[-v_param2 - 1];
  int size = tm->n, cut = v_choose("cut", size) + 1, mode = v_param3;
  const char *la = V_LANGS[tm->lang], *lb = v_choose("language", 2) ? "html" : la;
  char *a = malloc(size + 1), b[8];
  for (int i = 0; i < size; i++) a[i] = (unsigned char)tm->text[i] < 6 ? 'x' : tm->text[i];
  tm = NULL;
  v_bytes_dom(b, 1, "b", " a\n", 3); memcpy(b + 1, "/x\n", 4); n = 4;
  parse(lb, b, n, mode, cb);
  second = count + 1; count = 0;
  parse(la, a, cut, v_choose("entities", 2), ignore);
  free(a);
  parse(lb, b, n, mode, cb);
  v_assert(count == second - 1, "no report is lost by what was parsed before");
  v_assert(v_heap_live() == 0, "all memory released");
}
void h_history(void) {
  n = fill_size();
  int mode = v_param3;
  const char *lang = V_LANGS[fill_lang()];
  char *b = fill(n);
  parse(lang, b, n, mode, cb);
  second = count + 1; count = 0;
  int a = v_choose("between", (int)(sizeof(A) / sizeof(*A)) + 1), ae = v_choose("entities", 2);
  if (a < (int)(sizeof(A) / sizeof(*A))) parse(A[a].l, (char *)A[a].t, strlen(A[a].t), ae, ignore);
  else parse(lang, b, n, ae, ignore);
  parse(lang, b, n, mode, cb);
  v_assert(count == second - 1, "no report is lost by what was parsed before");
  free(b);
  v_assert(v_heap_live() == 0, "all memory released");
}
