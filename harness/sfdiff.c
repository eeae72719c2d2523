/* ohcount_sourcefile_diff against the lines the parsers report for both files: v_param, v_param2 bytes (-1: the file cannot be read), v_param3: language and alphabet */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#define ML 64
struct line { const char *lang; int kind; const unsigned char *p; int len; };
static struct line l[2][ML];
static int n[2], cnt[2];
static unsigned char *buf[2];
static void cb(const char *lg, const char *ent, int s, int e, void *u) {
  int f = *(int *)u;
  struct line *x = &l[f][cnt[f]++];
  x->lang = lg; x->kind = ent[1] == 'b' ? 2 : ent[2] == 'o' && ent[3] == 'd' ? 0 : 1;
  const unsigned char *p = buf[f] + s, *q = buf[f] + e;
  while (p < q && v_conc(*p == ' ' || *p == '\t')) p++;
  if (q > p && v_conc(q[-1] == '\n' || q[-1] == '\r')) q--;   /* of CR LF, the CR stays */
  x->p = p; x->len = (int)(q - p);
}
static int same(const struct line *a, const struct line *b) { return a->len == b->len && v_conc(!memcmp(a->p, b->p, a->len)); }
static struct line *sel[2][ML]; static int ns[2];
static void expect(const char *lang, int kind, int *add, int *rem) {
  static int t[ML + 1][ML + 1];
  for (int f = 0; f < 2; f++) { ns[f] = 0; for (int i = 0; i < cnt[f]; i++) if (l[f][i].kind == kind && !strcmp(l[f][i].lang, lang)) sel[f][ns[f]++] = &l[f][i]; }
  if (kind == 2) { *add = ns[1] > ns[0] ? ns[1] - ns[0] : 0; *rem = ns[0] > ns[1] ? ns[0] - ns[1] : 0; return; }
  for (int i = ns[0]; i >= 0; i--) for (int j = ns[1]; j >= 0; j--)
    t[i][j] = i == ns[0] || j == ns[1] ? 0 : same(sel[0][i], sel[1][j]) ? 1 + t[i + 1][j + 1] : t[i + 1][j] > t[i][j + 1] ? t[i + 1][j] : t[i][j + 1];
  *add = ns[1] - t[0][0]; *rem = ns[0] - t[0][0];
}
static const struct { const char *lang, *dom; const char *doc[2]; } kinds[] = {
  {"c", "a/\n ", {0, 0}}, {"shell", "a#\n\t", {0, 0}}, {"c", "a/\n\r", {0, 0}},
  {"html", "ab\n", {"<style type=\"text/css\">\n?\n</style>\n?", "<style type=\"text/css\">\n?\n?</style>\n?"}},
  {"html", "ab\n", {"?\n<style type=\"text/css\">\n?</style>", "?\n?\n"}},
  {"html", "ab\n", {"?<p>\n?", "<script type=\"text/javascript\">\n//?\n?\n</script>\n<style type=\"text/css\">\n/*?*/\n</style>"}},
};
void h_sfdiff(void) {
  SourceFile *a[2], *b[2];
  const char *dom = kinds[v_param3].dom;
  for (int f = 0; f < 2; f++) {
    int want = f ? v_param2 : v_param; const char *doc = kinds[v_param3].doc[f];
    n[f] = doc ? (int)strlen(doc) : want < 0 ? 0 : want;
    buf[f] = malloc(n[f] + 1);
    if (!doc) v_bytes_dom(buf[f], n[f], f ? "to" : "from", dom, strlen(dom));
    else {
      int h = 0, k = 0; for (int i = 0; doc[i]; i++) h += doc[i] == '?';
      unsigned char *x = malloc(h + 1); v_bytes_dom(x, h, f ? "to" : "from", dom, strlen(dom));
      for (int i = 0; i < n[f]; i++) buf[f][i] = doc[i] == '?' ? x[k++] : (unsigned char)doc[i];
      free(x);
    }
    buf[f][n[f]] = 0;
    a[f] = ohcount_sourcefile_new(f ? "to.x" : "from.x"); b[f] = ohcount_sourcefile_new(f ? "to.x" : "from.x");
    ohcount_sourcefile_set_language(a[f], kinds[v_param3].lang); ohcount_sourcefile_set_language(b[f], kinds[v_param3].lang);
    if (want >= 0 || doc) {
      a[f]->contents = malloc(n[f] + 1); memcpy(a[f]->contents, buf[f], n[f] + 1); a[f]->size = n[f];
      b[f]->contents = malloc(n[f] + 1); memcpy(b[f]->contents, buf[f], n[f] + 1); b[f]->size = n[f];
    }
    ohcount_sourcefile_parse_with_callback(a[f], cb, &f);
  }
  LocDeltaList *d = ohcount_sourcefile_diff(b[0], b[1]), *it;
  int seen = 0;
  for (it = d->head; it; it = it->next) {
    LocDelta *x = it->delta; int add, rem;
    for (LocDeltaList *o = d->head; o != it; o = o->next) v_assert(strcmp(o->delta->language, x->language), "each language has one delta");
    expect(x->language, 0, &add, &rem);
    v_assert(x->code_added == add && x->code_removed == rem, "code changes are those of the code lines");
    int any = ns[0] + ns[1];
    if (add && rem) v_cover("code added and removed");
    expect(x->language, 1, &add, &rem);
    v_assert(x->comments_added == add && x->comments_removed == rem, "comment changes are those of the comment lines");
    any += ns[0] + ns[1];
    expect(x->language, 2, &add, &rem);
    v_assert(x->blanks_added == add && x->blanks_removed == rem, "blank line changes are the difference in their number");
    any += ns[0] + ns[1];
    v_assert(any > 0, "the language occurs in one of the files");
    seen++;
  }
  for (int f = 0; f < 2; f++) for (int i = 0; i < cnt[f]; i++) v_assert(ohcount_loc_delta_list_get_loc_delta(d, l[f][i].lang) != NULL, "every language of the files has a delta");
  if (seen > 1) v_cover("two languages");
  LocList *lf = ohcount_sourcefile_get_loc_list(b[0]), *lt = ohcount_sourcefile_get_loc_list(b[1]);
  v_assert(ohcount_loc_delta_list_net_total(d) == ohcount_loc_list_total(lt) - ohcount_loc_list_total(lf), "the net change is the difference of the totals");
  v_assert(ohcount_loc_delta_list_net_code(d) == ohcount_loc_list_code(lt) - ohcount_loc_list_code(lf), "the net change of code is the difference of the code");
  ohcount_loc_delta_list_free(d);
  for (int f = 0; f < 2; f++) { ohcount_sourcefile_free(a[f]); ohcount_sourcefile_free(b[f]); free(buf[f]); }
  v_assert(v_heap_live() == 0, "all memory released");
}
