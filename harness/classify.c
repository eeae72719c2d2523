/* Comment/code/blank classification against an independent reference lexer driven by a table of the languages' syntax.
 * v_param: row of the table, v_param2: length, v_param3: 0 arbitrary bytes, 1 bytes of the language's delimiters.
 * v_param3 = 2: the text is frame v_param of the table of frames, with characters of the language's alphabet, and a few others, in its holes.
 * The reference is computed without branching on the bytes: one expression per position. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_spec.h"
#define MAXN 60
typedef unsigned u;
static int n;
static unsigned char *buf;
static const struct vspec *S;
static u bt[MAXN + 8];            /* bytes, 256.. behind the end */
static u nl[MAXN + 8], ws[MAXN + 8];
static u sel(u c, u a, u b) { return b ^ ((a ^ b) & (0u - (c & 1))); }   /* c ? a : b */
static u at(int i) { return i < n ? bt[i] : 0x1000; }
static u is(int i, int c) { return i < n ? (u)(bt[i] == (u)c) : 0; }
static u isci(int i, int c) { return i < n ? (u)(bt[i] == (u)c) | (u)((c >= 'a' && c <= 'z') & (bt[i] == (u)(c - 32))) : 0; }
static u match(int i, const char *s, int ci) { u r = 1; for (int k = 0; s[k]; k++) r &= ci ? isci(i + k, (unsigned char)s[k]) : is(i + k, (unsigned char)s[k]); return r; }
static u codeacc[MAXN + 8], comacc[MAXN + 8], unacc[MAXN + 8];
static u endv[MAXN + 10], tmp[MAXN + 10];

/* end of a line comment starting at i (n if none) */
static u line_end(int i, int cont) {
  u r = n;
  for (int j = n - 1; j >= i; j--) {
    if (!cont) r = sel(nl[j], j, r);
    else r = sel(nl[j] & ~(j > i ? is(j - 1, '\\') : 0) & ~(j > i + 1 ? is(j - 1, '\r') & is(j, '\n') & is(j - 2, '\\') : 0), j, r);
  }
  return r;
}
/* end of a block comment from i on, 0 if it is not closed */
static u block_end(int i, const char *e) {
  u r = 0; int l = strlen(e);
  for (int j = n - l; j >= i; j--) r = sel(match(j, e, 0), j + l, r);
  return r;
}
static u nested_end(int i, const char *s, const char *e) {
  u depth = 1, done = 0, r = 0, busy = 0;      /* busy: character used by the previous delimiter */
  for (int j = i; j + 1 < n; j++) {
    u o = match(j, s, 0) & ~busy & 1, c = match(j, e, 0) & ~busy & 1;
    depth += o; depth -= c;
    u fin = c & (u)(depth == 0) & ~done & 1;
    r = sel(fin, j + 2, r); done |= fin;
    busy = o | c;
  }
  return r;
}
/* end of the string whose body starts at i */
static u str_end(int i, int q, int k) {
  for (int j = n + 2; j >= i; j--) {
    if (j >= n) { tmp[j] = 0; continue; }
    u esc = (k == 1 || k == 2 || k == 3 || k == 6 || k == 7 || k == 9) ? is(j, '\\') : 0;
    u escnl = j + 1 < n ? nl[j + 1] : 0;
    u eolen = (j + 2 < n) ? is(j + 1, '\r') & is(j + 2, '\n') : 0;
    u v = tmp[j + 1];
    if (k == 1 || k == 4 || k == 6) v = sel(nl[j], 0, v);
    if (k == 7) v = sel(nl[j], 0, v);
    u after;
    if (j + 1 >= n) after = 0;
    else {
      u nlcase = k == 2 || k == 7 || k == 9 ? sel(eolen, tmp[j + 3 <= n + 2 ? j + 3 : n + 2], tmp[j + 2]) : 0;
      u crlf = (j + 2 < n) ? is(j + 1, '\r') & is(j + 2, '\n') : 0;  /* the \r of \r\n is not a newline by itself */
      after = sel(escnl | crlf, nlcase, tmp[j + 2]);
    }
    v = sel(esc, after, v);
    tmp[j] = sel(is(j, q), j + 1, v);
  }
  return tmp[i];
}
static void reference(void) {
  u rem = 0, kind = 0, anycode = 0;
  u c = 0, m = 0, un = 0;   /* un: a multi-line construct that is never closed started: the kind of the lines from there on is not defined */
  u linecode = 0;      /* code seen on this line so far */
  for (int i = 0; i < n; i++) {
    u best = 0, bk = 2;
    u start = (u)((u)i >= rem);
    for (int k = 0; k < 4 && S->L[k]; k++) {
      const char *f = S->Lf[k];
      int len = strlen(S->L[k]);
      u ok = match(i, S->L[k], !!strchr(f, 'i'));
      if (strchr(f, 'b')) ok &= i ? nl[i - 1] : 1;
      if (strchr(f, 'n')) ok &= ~linecode;
      if (strchr(f, 'g')) ok &= i + len < n ? ~is(i + len, '>') : 1;
      if (strchr(f, 'l')) { u lb = match(i + len, "[==[", 0) | match(i + len, "[===[", 0); un |= start & ok & lb; ok &= ~(lb | match(i + len, "[[", 0) | match(i + len, "[=[", 0)); }
      u e = line_end(i + len < n ? i + len : n, !!strchr(f, 'c'));
      u better = ok & (u)(e > best);
      best = sel(better, e, best); bk = sel(better, 1, bk);
    }
    if (strchr(S->opt, 'm')) { /* matlab: % not followed by { is a line comment */
      u ok = is(i, '%') & (i + 1 < n ? ~is(i + 1, '{') : 1);
      if (S->lang[0] == 'o') ok |= is(i, '#');
      u e = line_end(i + 1, 0);
      u better = ok & (u)(e > best);
      best = sel(better, e, best); bk = sel(better, 1, bk);
    }
    for (int k = 0; k < 4 && S->B[k]; k++) {
      int len = strlen(S->B[k]);
      u e = S->Bn[k] ? nested_end(i + len, S->B[k], S->E[k]) : block_end(i + len, S->E[k]);
      u ok = match(i, S->B[k], 0) & (u)(e != 0);
      un |= start & match(i, S->B[k], 0) & (u)(e == 0);
      u better = ok & (u)(e > best);
      best = sel(better, e, best); bk = sel(better, S->Bcode[k] ? 2 : 1, bk);
    }
    for (int k = 0; k < 5 && S->Sk[k]; k++) {
      int q = S->Sq[k];
      u e = str_end(i + 1, q, S->Sk[k]);
      u ok = is(i, q) & (u)(e != 0);
      if (S->Sk[k] != 1 && S->Sk[k] != 4 && S->Sk[k] != 6) un |= start & is(i, q) & (u)(e == 0);
      if (S->Sk[k] == 6 || S->Sk[k] == 8 || S->Sk[k] == 9) ok &= ~(is(i + 1, q) & (i + 2 < n ? is(i + 2, q) : 1));
      u better = ok & (u)(e > best);
      best = sel(better, e, best); bk = sel(better, 2, bk);
    }
    if (S->opt[0] == 'r') { /* a regular expression literal */
      u e = str_end(i + 1, '/', 1);
      u ok = is(i, '/') & (i + 1 < n ? ~(is(i + 1, '/') | is(i + 1, '*')) : 0) & (u)(e != 0);
      u better = ok & (u)(e > best);
      best = sel(better, e, best); bk = sel(better, 2, bk);
    }
    u none = (u)(best == 0);
    rem = sel(start, sel(none, i + 1, best), rem);
    kind = sel(start, sel(none, 2, bk), kind);
    u vis = ~(ws[i] | nl[i] | (is(i, '\r'))) & 1;
    c = (c | (vis & (u)(kind == 2))) & 1; m = (m | (vis & (u)(kind == 1))) & 1;
    codeacc[i] = c; comacc[i] = m; unacc[i] = un;
    c &= ~nl[i]; m &= ~nl[i];
    linecode = c;
  }
}
static int last_end;
static void cb(const char *lang, const char *ent, int s, int e, void *ud) {
  v_cover("line classified");
  if (s < 0 || e > n || s >= e || s < last_end) v_end_path();
  u c = codeacc[e - 1], m = comacc[e - 1], d = ~unacc[e - 1] & 1;
  u k = (u)(ent[2] == 'o') & (u)(ent[3] == 'd'), km = (u)(ent[2] == 'o') & (u)(ent[3] == 'm');
  v_assert(!(d & c & ~k), "a line with code is reported as code");
  v_assert(!(d & k & ~c), "a line reported as code has code");
  v_assert(!(d & (m & ~c) & ~km), "a line with only comments is reported as comment");
  last_end = e;
}
void h_classify(void) {
  n = v_param2; S = &VSPEC[v_param];
  const char *frame = NULL;
  if (v_param3 == 2) { frame = VFRAME[v_param].text; n = strlen(frame); S = &VSPEC[VFRAME[v_param].row]; }
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, S->lang);
  buf = malloc(n + 1);
  if (frame) {
    int holes = 0; for (int i = 0; i < n; i++) holes += frame[i] == 1;
    unsigned char *h = malloc(holes); char dom[40]; memcpy(dom, S->alpha, S->nalpha); strcpy(dom + S->nalpha, "\r;(=1\t");
    int nd = S->nalpha; for (const char *x = dom + S->nalpha; *x; x++) if (!strchr(S->avoid, *x)) dom[nd++] = *x;
    v_bytes_dom(h, holes, "b", dom, nd);
    for (int i = 0, k = 0; i < n; i++) buf[i] = frame[i] == 1 ? h[k++] : (unsigned char)frame[i];
    int any = 0; for (int i = 0; i < n; i++) if (frame[i] == 2) { /* any byte but NUL */
      unsigned ok; v_bytes(buf + i, 1, (char[]){'y', (char)('0' + any++), 0}); ok = (u)(buf[i] != 0);
      for (int k = 0; S->avoid[k]; k++) ok &= (u)(buf[i] != (unsigned char)S->avoid[k]);
      v_assume(ok);
    }
    free(h);
  } else if (v_param3) v_bytes_dom(buf, n, "b", S->alpha, S->nalpha);
  else {
    v_bytes(buf, n, "b");
    u ok = 1;
    for (int i = 0; i < n; i++) { for (int k = 0; S->avoid[k]; k++) ok &= (u)(buf[i] != (unsigned char)S->avoid[k]); ok &= (u)(buf[i] != 0); }
    v_assume(ok);
  }
  buf[n] = 0;
  for (int i = 0; i < n; i++) bt[i] = buf[i];
  for (int i = 0; i < n; i++) {
    nl[i] = is(i, '\n') | is(i, '\f') | (is(i, '\r') & (i + 1 < n ? ~is(i + 1, '\n') : 1) & 1);
    ws[i] = is(i, ' ') | is(i, '\t') | is(i, '\v');
  }
  { /* overlapping nested delimiters: which of the two counts is not specified */
    u ok = 1;
    for (int k = 0; k < 4 && S->B[k]; k++) if (S->Bn[k])
      for (int i = 0; i + 2 < n; i++) ok &= ~(is(i, S->B[k][0]) & is(i + 1, S->B[k][1]) & is(i + 2, S->E[k][1])) & ~(is(i, S->E[k][0]) & is(i + 1, S->E[k][1]) & is(i + 2, S->B[k][1]));
    for (int k = 0; k < 4 && S->E[k]; k++) if (strlen(S->E[k]) == 3 && S->E[k][0] == S->E[k][1])
      for (int i = 0; i + 3 < n; i++) { u run = 1; for (int j = 0; j < (frame ? 4 : 7); j++) run &= is(i + j, S->E[k][0]); ok &= ~run; }
    v_assume(ok & 1);
  }
  reference();
  sf->contents = (char *)buf; sf->size = n;
  ohcount_sourcefile_parse_with_callback(sf, cb, 0);
  ohcount_sourcefile_free(sf);
}
