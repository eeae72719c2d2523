/* Licence detection: the regular expressions are the environment (where each matches is arbitrary), the choice among the matches and the text they get are the code's. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "sourcefile.h"
#include "licenses.h"
extern License license_map[];
#define MAXL 160
static int nl, nlang;
static struct ans { int may, s, e, excluded; } ans[2][MAXL];
static int excl(const char *pat) { for (int i = 0; i < nl; i++) if (license_map[i].exclude_re && (license_map[i].exclude_re == pat || !strcmp(license_map[i].exclude_re, pat))) return i; return -1; }
static int index_of(const char *name) { for (int i = 0; i < nl; i++) if (!strcmp(license_map[i].name, name)) return i; return -1; }
static const char *subject[2];
static int at_licence = -1;
/* the same expression gives the same answer, in the same text */
static int hook(const char *pat, const char *s, int len, int opt, int *ov, int n) {
  int j = 0, lang = 0;
  for (; j < nl && license_map[j].re != pat; j++) ;
  if (j == nl) for (j = 0; j < nl && strcmp(license_map[j].re, pat); j++) ;
  if (j < nl) {
    for (int i = 0; i < len; i++) if (s[i] == 'y') lang = 1;
    struct ans *a = &ans[lang][j];
    subject[lang] = s;
    v_assert(n >= 3, "there is room for the match");
    if (!a->may) return -1;
    v_assume(a->e <= len);
    v_assert(!!(opt & PCRE_CASELESS) == !!(license_map[j].re_flags & PCRE_CASELESS), "the expression is compiled with its flags");
    ov[0] = a->s; ov[1] = a->e;
    at_licence = lang * MAXL + j;
    return 1;
  }
  /* an expression for what must not occur: it is looked for in the match just found */
  v_assert(excl(pat) >= 0, "only the table's expressions are used");
  v_assert(at_licence >= 0, "exclusions are looked for in matches");
  if (at_licence < 0) v_end_path();
  struct ans *a = &ans[at_licence / MAXL][at_licence % MAXL];
  v_assert((unsigned)(s == subject[at_licence / MAXL] + a->s) & (unsigned)(len == a->e - a->s), "exclusions are looked for in the match");
  v_cover("exclusion");
  ov[0] = 0; ov[1] = 1; /* whatever it finds must not disturb the match found before */
  return a->excluded ? 1 : -1;
}
static void candidate(int lang, int j) {
  struct ans *a = &ans[lang][j];
  static int nth;
  char t[3] = {'s', (char)('0' + nth++), 0};
  a->may = 1; a->s = v_range(t, 0, 4); t[0] = 'e'; a->e = v_range(t, 1, 5);
  v_assume(a->s < a->e);
  a->excluded = license_map[j].exclude_re ? v_choose("excluded", 2) : 0;
}
static int over(int i, int *f, const char *l, const char *with) { return !strcmp(license_map[i].name, l) && index_of(with) >= 0 && f[index_of(with)]; }
static void judge(const char *lang, const char *text) {
  int found[MAXL] = {0}, got[MAXL] = {0};
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, lang);
  ohcount_sourcefile_set_contents(sf, text);
  vs_pcre_hook = hook;
  LicenseList *list = ohcount_detect_license(sf);
  for (int l = 0; l < nlang; l++) for (int j = 0; j < nl; j++) {
    struct ans *a = &ans[l][j];
    if (!a->may || a->excluded) continue;
    unsigned inside = 0;
    for (int k = 0; k < nl; k++) {
      struct ans *b = &ans[l][k];
      if (!b->may || b->excluded || k == j) continue;
      inside |= (unsigned)(b->s <= a->s) & (unsigned)(a->e <= b->e) & ((unsigned)(b->s != a->s) | (unsigned)(a->e != b->e));
    }
    if (!v_conc(inside)) found[j] = 1;
  }
  for (LicenseList *i = list->head; i; i = i->next) {
    v_cover("licence");
    int k = i->lic - license_map;
    v_assert(k >= 0 && k < nl && i->lic == license_map + k, "the list holds licences of the table");
    if (k < 0 || k >= nl) v_end_path();
    v_assert(!got[k], "no licence is listed twice");
    got[k] = 1;
  }
  for (int j = 0; j < nl; j++) {
    int want = found[j] && !over(j, found, LIC_GPL, LIC_GPL3) && !over(j, found, LIC_GPL, LIC_GPL3_OR_LATER) && !over(j, found, LIC_GPL3, LIC_GPL3_OR_LATER) && !over(j, found, LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH);
    if (found[j] && !want) v_cover("overridden");
    v_assert(want == got[j], want ? "a licence that is found is listed" : "only licences that are found are listed");
  }
  ohcount_license_list_free(list);
  ohcount_sourcefile_free(sf);
  v_assert(v_heap_live() == 0, "all memory released");
}
static void setup(void) { while (license_map[nl].name) nl++; nlang = 1; if (nl > MAXL) v_end_path(); }
/* two licences; v_param: which pairs */
void h_pair(void) {
  setup();
  int i, j;
  if (v_param == 0) { i = v_choose("first", nl - 1); j = i + 1; }
  else if (v_param == 1) { i = 0; j = 1 + v_choose("second", nl - 1); }
  else if (v_param == 2) { i = v_choose("first", nl - 1); j = nl - 1; }
  else { i = v_param - 3; if (i >= nl - 1) v_end_path(); j = i + 1 + v_choose("second", nl - 1 - i); }
  candidate(0, i);
  if (i != j) candidate(0, j);
  judge("c", "/*xxxxxxxx*/\n");
}
static const char *SPECIAL[] = {LIC_GPL, LIC_GPL3, LIC_GPL3_OR_LATER, LIC_BSD_ISH, LIC_BSD_2CLAUSE_ISH, LIC_MIT, LIC_ACADEMIC};
/* three licences of those with exclusions and overrides; v_param: which; v_param2: in how many languages */
void h_three(void) {
  setup(); nlang = v_param2;
  int w = v_param;
  for (int k = 0; k < 7; k++) {
    if (!(w >> k & 1)) continue;
    int j = index_of(SPECIAL[k]);
    if (j < 0) v_end_path();
    int where = nlang > 1 ? v_choose("where", 3) + 1 : 1;
    for (int l = 0; l < nlang; l++) if (where >> l & 1) candidate(l, j);
  }
  if (nlang > 1) judge("html", "<!--xxxxxxxx-->\n<style type=\"text/css\">\n/*yyyyyyyy*/\n</style>\n");
  else judge("c", "/*xxxxxxxx*/\n");
}
/* the text the expressions get */
static char want[64]; static int nwant, seen;
static int text_hook(const char *pat, const char *s, int len, int opt, int *ov, int n) {
  if (seen++) return -1;
  v_cover("text");
  v_assert(len == nwant, "the expressions get the comments without indent, punctuation and line ends: length");
  if (len != nwant) v_end_path();
  unsigned r = 1;
  for (int i = 0; i < len; i++) r &= (unsigned)(s[i] == want[i]);
  v_assert(r, "the expressions get the comments without indent, punctuation and line ends");
  return -1;
}
void h_text(void) {
  setup();
  int n = v_param2;
  static char text[64], c[64];
  const char *pre = v_param ? "/*" : "/*Copyright\n";
  strcpy(text, pre); int k = strlen(text);
  v_bytes_dom(text + k, n, "b", "a* \n\r\t", 6);
  strcpy(text + k + n, "a*/\n");
  for (int i = 0; i + 1 < n; i++) v_assume(!((unsigned)(text[k + i] == '*') & (unsigned)(text[k + i + 1] == '/')));
  SourceFile *sf = ohcount_sourcefile_new("f.c");
  ohcount_sourcefile_set_language(sf, "c");
  ohcount_sourcefile_set_contents(sf, text);
  ParsedLanguageList *pl = ohcount_sourcefile_get_parsed_language_list(sf);
  v_assert(pl->head != NULL, "the comments are found");
  if (!pl->head) v_end_path();
  strcpy(c, pl->head->pl->comments);
  for (char *p = c; v_conc(*p != 0);) {
    while (v_conc(*p == ' ' || *p == '\t' || *p == '*' || *p == '/')) p++;
    while (v_conc(*p != 0 && *p != '\r' && *p != '\n')) want[nwant++] = *p++;
    while (v_conc(*p == '\r' || *p == '\n')) p++;
    want[nwant++] = ' ';
  }
  vs_pcre_hook = text_hook;
  LicenseList *list = ohcount_detect_license(sf);
  v_assert(seen > 0, "the expressions are applied");
  v_assert(list->head == NULL, "no match, no licence");
  ohcount_license_list_free(list);
  ohcount_sourcefile_free(sf);
  v_assert(v_heap_live() == 0, "all memory released");
}
