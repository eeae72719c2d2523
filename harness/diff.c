/* ohcount_calc_diff against the longest common subsequence of the lines.
 * v_param3 0: texts of v_param and v_param2 arbitrary bytes over a, b and newline;
 *          1: v_param and v_param2 lines, each of one letter a, b, c;
 *          2: the same with lines of one hash: "Axxb" and "axxa", and "x" */
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include "diff.h"
#include "vstubs.h"
#define L 24
static const char *ln[2][L]; static int len_[2][L], cnt[2];
static char *text[2];
static void lines(int s) {
  char *p = text[s]; int k = 0;
  for (;;) {
    while (v_conc(*p == '\n')) p++;
    if (v_conc(!*p)) break;
    ln[s][k] = p; len_[s][k] = 0;
    while (!v_conc(*p == '\n' || !*p)) { p++; len_[s][k]++; }
    k++;
  }
  cnt[s] = k;
}
static void letters(int s, int n, const char *nm) {
  static const char *const w[] = {"Axxb", "axxa", "x"};
  char *b = malloc(n + 1), *q = text[s] = malloc(5 * n + 1);
  v_bytes_dom(b, n, nm, v_param3 == 2 ? "Aax" : "abc", 3);
  for (int i = 0; i < n; i++) {
    if (v_param3 == 1) *q++ = b[i];
    else if (b[i] == 'x') *q++ = 'x';
    else { *q++ = b[i]; *q++ = 'x'; *q++ = 'x'; *q++ = b[i] == 'A' ? 'b' : 'a'; }
    *q++ = '\n';
  }
  *q = 0; free(b);
}
void h_diff(void) {
  int nn[2] = {v_param, v_param2};
  for (int s = 0; s < 2; s++) {
    if (v_param3) letters(s, nn[s], s ? "to" : "from");
    else { text[s] = malloc(nn[s] + 1); v_bytes_dom(text[s], nn[s], s ? "to" : "from", "ab\n", 3); text[s][nn[s]] = 0; }
  }
  int added = -1, removed = -1;
  char *keep[2] = {strdup(text[0]), strdup(text[1])};
  int live = v_heap_live();
  ohcount_calc_diff(text[0], text[1], &added, &removed);
  v_assert(v_heap_live() == live, "all memory released");
  lines(0); lines(1);
  int t[L + 1][L + 1];
  for (int i = cnt[0]; i >= 0; i--) for (int j = cnt[1]; j >= 0; j--) {
    if (i == cnt[0] || j == cnt[1]) t[i][j] = 0;
    else if (v_conc(len_[0][i] == len_[1][j] && !memcmp(ln[0][i], ln[1][j], len_[0][i]))) t[i][j] = 1 + t[i + 1][j + 1];
    else t[i][j] = t[i + 1][j] > t[i][j + 1] ? t[i + 1][j] : t[i][j + 1];
  }
  int lcs = t[0][0];
  if (lcs > 0 && lcs < cnt[0] && lcs < cnt[1]) v_cover("some lines in common");
  v_assert(added == cnt[1] - lcs, "lines added are those of the new text outside a longest common subsequence");
  v_assert(removed == cnt[0] - lcs, "lines removed are those of the old text outside a longest common subsequence");
  v_assert(!memcmp(keep[0], text[0], strlen(keep[0]) + 1) && !memcmp(keep[1], text[1], strlen(keep[1]) + 1), "the texts are left alone");
  int a2 = -1, r2 = -1;
  ohcount_calc_diff(text[0], text[1], &a2, &r2);
  v_assert(a2 == added && r2 == removed, "the same again");
}

/* texts too long to be compared in memory: what the external diff is given and how its output is counted */
void h_disk(void) {
  int n = v_param, big = 100001 + v_param2, a = -1, r = -1, which = v_param3;
  char *x = malloc(big + 1), *y = malloc(4), *out = malloc(n + 10);
  memset(x, 'a', big); x[big] = 0; x[9] = '\n';
  v_bytes_dom(y, 3, "short", "ab\n", 3); y[3] = 0;
  v_bytes_dom(out, n, "out", "<>-\n 1", 6); out[n] = 0;
  vs_popen_text = out;
  ohcount_calc_diff(which ? y : x, which ? x : y, &a, &r);
  v_assert(vs_ntmps == 2 && vs_popen_n == 1, "two files are compared with one command");
  if (vs_ntmps != 2) v_end_path();
  for (int i = 0; i < 2; i++) {
    v_assert(!vs_tmps[i].open, "the temporary file is closed");
    v_assert(vs_tmps[i].unlinked == 1, "the temporary file is removed");
  }
  struct vs_tmp *f = &vs_tmps[0], *t = &vs_tmps[1];
  char *pf = strstr(vs_popen_cmd, f->path), *pt = strstr(vs_popen_cmd, t->path);
  v_assert(pf && pt, "the command compares the temporary files");
  if (!pf || !pt) v_end_path();
  if (pt < pf) { struct vs_tmp *k = f; f = t; t = k; }
  const char *from = which ? y : x, *to = which ? x : y;
  v_assert(f->size == (long)strlen(from) && !memcmp(f->data, from, f->size), "the first file is the old text");
  v_assert(t->size == (long)strlen(to) && !memcmp(t->data, to, t->size), "the second file is the new text");
  int na = 0, nr = 0;
  for (int i = 0; i < n; i++) { unsigned bol = i == 0 ? 1 : (unsigned)(out[i - 1] == '\n'); na += bol & (unsigned)(out[i] == '>'); nr += bol & (unsigned)(out[i] == '<'); }
  v_cover("compared by command");
  v_assert(a == na, "lines added are those marked so in the output");
  v_assert(r == nr, "lines removed are those marked so in the output");
}
