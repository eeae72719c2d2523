/* The same text with and without a newline at its very end is reported line by line the same. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_langs.h"
#include "fill.h"
#define CAP 320
static struct { const char *l, *k; int s, e; } rec[CAP];
static int n, count, second;
static void cb(const char *lang, const char *ent, int s, int e, void *u) {
  if (!second) {
    if (count >= CAP || s < 0 || e > n) v_end_path();
    rec[count].l = lang; rec[count].k = ent; rec[count].s = s; rec[count].e = e;
  } else {
    v_cover("second report");
    v_assert(count < second - 1, "no line is added by a newline at the end");
    if (count >= second - 1) v_end_path();
    v_assert(rec[count].e + (count == second - 2 && rec[count].e == n - 1) == e, "the line ends at the same place");
    v_assert(!strcmp(rec[count].l, lang), "the line belongs to the same language");
    v_assert(!strcmp(rec[count].k, ent), "the line is of the same kind");
  }
  count++;
}
static void parse(const char *lang, char *b, int size) {
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, lang);
  sf->contents = b; sf->size = size;
  ohcount_sourcefile_parse_with_callback(sf, cb, &n);
  ohcount_sourcefile_free(sf);
}
void h_lastline(void) {
  n = fill_size();
  const char *lang = V_LANGS[fill_lang()];
  char *b = fill(n);
  if (tm) { /* up to the end of one of its lines */
    int ends[64], k = 0;
    for (int i = 0; i < n && k < 64; i++) if (tm->text[i] == '\n' && i) ends[k++] = i;
    if (!k) v_end_path();
    n = ends[v_choose("line", k)];
  }
  v_assume((unsigned)(b[n - 1] != '\n') & (unsigned)(b[n - 1] != '\r') & (unsigned)(b[n - 1] != '\f') & (unsigned)(b[n - 1] != ' ') & (unsigned)(b[n - 1] != '\t') & (unsigned)(b[n - 1] != '\v'));
  if (!strcmp(lang, "dcl")) v_assume(b[n - 1] != '$'); /* which is white space there */
  char *c = malloc(n + 2);
  memcpy(c, b, n); b[n] = 0; c[n] = '\n'; c[n + 1] = 0;
  parse(lang, b, n);
  second = count + 1; count = 0;
  n++; parse(lang, c, n); n--;
  v_assert(count == second - 1, "no line is lost by a newline at the end");
}
