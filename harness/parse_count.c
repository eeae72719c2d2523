/* Line counting through the public API: any file content of a size, or any instance of a template, in language v_param; v_param3 picks the assertion. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_langs.h"
#include "fill.h"
static int n, last_end, m;
static unsigned char *buf;
static unsigned dcl;
static int nth, php;
#define SP(c) ((unsigned)((c) == ' ') | (unsigned)((c) == '\t') | (unsigned)((c) == '\v') | (dcl & (unsigned)((c) == '$')))
#define SPX(c) ((unsigned)((c) == ' ') | (unsigned)((c) == '\t'))
#define NL(c) ((unsigned)((c) == '\n') | (unsigned)((c) == '\r') | (unsigned)((c) == '\f'))
static unsigned white(int s, int e) { unsigned r = 1; for (int i = s; i < e; i++) r &= SP(buf[i]) | NL(buf[i]); return r; }
static unsigned whitex(int s, int e) { unsigned r = 1; for (int i = s; i < e; i++) r &= SPX(buf[i]) | NL(buf[i]); return r; }
static unsigned nonl(int s, int e) { unsigned r = 1; for (int i = s; i < e; i++) r &= !NL(buf[i]); return r; }
/* the tests have it that a PHP line that begins with ?> is reported without its ? */
static unsigned skippable(int s, int e) {
  unsigned q = php && e > s && e < n ? (unsigned)(buf[e - 1] == '?') & (unsigned)(buf[e] == '>') : 0;
  return white(s, e) | (q & white(s, e - 1));
}
static void cb(const char *lang, const char *ent, int s, int e, void *u) {
  v_cover("line reported");
  if (m == 0) v_assert(s >= 0 && e <= n && s < e, "span inside the file and not empty");
  if (s < 0 || e > n || s >= e) v_end_path();
  if (m == 1 || m == 8) v_assert(s >= last_end, "spans in order and disjoint");
  if (s < last_end) v_end_path();
  if (m == 2 || m == 8) v_assert(skippable(last_end, s) & nonl(last_end, s), "no line or text is skipped");
  if (m == 3 || m == 8) { /* exactly one newline, at the end */
    unsigned z = NL(buf[e - 1]) | (unsigned)(e == n);
    if (e < n) z &= ~((unsigned)(buf[e - 1] == '\r') & (unsigned)(buf[e] == '\n'));
    v_assert(z, "ends at newline or end of file");
  }
  if (m == 4 || m == 8) {
    unsigned inner = 0;
    for (int i = s; i + 1 < e; i++) inner |= NL(buf[i]) & ~((unsigned)(i + 2 == e) & (unsigned)(buf[i] == '\r') & (unsigned)(buf[i + 1] == '\n'));
    v_assert(!inner, "one line per span");
  }
  if (m == 5) v_assert(ent[1] == 'b' ? white(last_end, e) : !whitex(last_end, e), "blank iff whitespace only");
  if (m == 6) {
    v_assert(nth < tm->nexp, "no more lines than expected");
    if (nth < tm->nexp && tm->exp[nth][0]) {
      v_cover("embedded line labelled");
      if (tm->exp[nth][0] != '*') v_assert(!strcmp(ent, tm->exp[nth]), "the line has the expected kind");
      v_assert(!strcmp(lang, tm->expl[nth]), "the line belongs to the expected language");
    }
    nth++;
  }
  last_end = e;
}
void h_count(void) {
  n = fill_size(); m = v_param3;
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, V_LANGS[fill_lang()]);
  php = !strcmp(V_LANGS[fill_lang()], "php");
  dcl = !strcmp(V_LANGS[fill_lang()], "dcl");
  buf = (unsigned char *)fill(n);
  sf->contents = (char *)buf; sf->size = n;
  ohcount_sourcefile_parse_with_callback(sf, cb, &n);
  if (m == 2 || m == 8) v_assert(nonl(last_end, n) & white(last_end, n), "only white space is left at the end");
  if (m == 6) v_assert(nth == tm->nexp, "all lines are reported");
  ohcount_sourcefile_free(sf);
  if (m == 0) v_assert(v_heap_live() == 0, "all memory released");
}
