/* The same text with other line ends is reported line by line the same. v_param2 >= 0: every text of that size (the newlines' places are chosen), < 0: templates; v_param3: 0 CRLF, 1 CR, 2 FF. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_langs.h"
#include "fill.h"
#define CAP 320
static struct { const char *l, *k; int s, e; } rec[CAP];
static int n, count, second, map[400];
static void cb(const char *lang, const char *ent, int s, int e, void *u) {
  if (!second) {
    if (count >= CAP || s < 0 || e > n) v_end_path();
    rec[count].l = lang; rec[count].k = ent; rec[count].s = s; rec[count].e = e;
  } else {
    v_cover("second report");
    v_assert(count < second - 1, "no line is added by other line ends");
    if (count >= second - 1) v_end_path();
    v_assert(map[rec[count].e] == e, "the line ends at the same place");
    v_assert(!strcmp(rec[count].l, lang), "the line belongs to the same language");
    v_assert(!strcmp(rec[count].k, ent), "the line is of the same kind");
  }
  count++;
}
static void parse(const char *lang, char *b, int size) {
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, lang);
  sf->contents = b; sf->size = size;
  ohcount_sourcefile_parse_with_callback(sf, cb, &n);
  ohcount_sourcefile_free(sf);
}
void h_lineends(void) {
  static char place[400];
  n = fill_size();
  const char *lang = V_LANGS[fill_lang()];
  char *b = fill(n);
  int bits = tm ? 0 : v_choose("newlines", 1 << n), m = 0;
  for (int i = 0, h = 0; i < n; i++) {
    int hole = !tm || (unsigned char)tm->text[i] < 6;
    place[i] = hole ? (tm ? 0 : bits >> i & 1) : b[i] == '\n';
    if (hole) { v_assume(place[i] ? (unsigned)(b[i] == '\n') : (unsigned)(b[i] != '\n') & (unsigned)(b[i] != '\r') & (unsigned)(b[i] != '\f') & (unsigned)(b[i] != 0)); if (place[i]) b[i] = '\n'; h++; }
    else v_assume((unsigned)(b[i] != '\r') & (unsigned)(b[i] != '\f'));
  }
  char *c = malloc(2 * n + 1);
  for (int i = 0; i < n; i++) { map[i] = m; if (place[i] && v_param3 == 0) c[m++] = '\r'; c[m++] = place[i] && v_param3 ? (v_param3 == 1 ? '\r' : '\f') : b[i]; }
  map[n] = m; c[m] = 0;
  parse(lang, b, n);
  second = count + 1; count = 0;
  int k = n; n = m; parse(lang, c, m); n = k;
  v_assert(count == second - 1, "no line is lost by other line ends");
}
