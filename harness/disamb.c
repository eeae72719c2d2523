/* The content tests of ambiguous extensions against the rules they implement, on texts made of v_param2 words of the rule's vocabulary with arbitrary separators. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "sourcefile.h"
#include "detector.h"
#include "v_tables.h"
static char T[2000];
static int N;
static char **files;
#define C(x) v_conc(x)
static int at(int i, const char *w) { int n = strlen(w); if (i + n > N) return 0; for (int k = 0; k < n; k++) if (!C(T[i + k] == w[k])) return 0; return 1; }
static int atci(int i, const char *w) { int n = strlen(w); if (i + n > N) return 0; for (int k = 0; k < n; k++) if (!C(tolower((unsigned char)T[i + k]) == w[k])) return 0; return 1; }
static int has(int i, const char *w) { for (; i < N; i++) if (at(i, w)) return 1; return 0; }
static int sp(int i) { while (i < N && C(T[i] == ' ' || T[i] == '\t')) i++; return i; }
static int ws(int i) { while (i < N && C(T[i] == ' ' || T[i] == '\t' || T[i] == '\n' || T[i] == '\r')) i++; return i; }
/* the lines: next line from i; its end, at most 80 characters, in *e */
static int line(int i, int *e) { int k = i; while (k < N && !C(T[k] == '\n' || T[k] == '\r')) k++; *e = k > i + 80 ? i + 80 : k; while (k < N && C(T[k] == '\n' || T[k] == '\r')) k++; return k; }
static int al(int i) { return i < N && C(isalnum((unsigned char)T[i]) != 0); }
static int dg(int i, int e) { return i < e && C(isdigit((unsigned char)T[i]) != 0); }
static const char *r_aspx(void) {
  for (int i = 0; i < N; i++) if (at(i, "<%@")) {
    int e = i + 3; while (e < N && !at(e, "%>")) e++;
    if (e >= N) break;
    int k = sp(i + 3);
    if (atci(k, "page")) for (; k + 13 <= e; k++) if (atci(k, "language=\"vb\"")) return "vb_aspx";
  }
  return "cs_aspx";
}
static const char *r_asx(void) { int i = ws(0); return i < N && C(T[i] == '<' || T[i] == (char)0xef || T[i] == (char)0xfe || T[i] == (char)0xff) ? NULL : "assembler"; }
static int ends(const char *f, const char *x) { int n = strlen(f), k = strlen(x); unsigned r = n >= k; for (int i = 0; i < k && k <= n; i++) r &= (unsigned)(f[n - k + i] == x[i]); return C(r); }
static const char *r_basic(void) {
  for (int i = 0, e, nx; i < N; i = nx) { nx = line(i, &e); int k = i; while (dg(k, e)) k++; if (k > i && k < e && C(T[k] == ' ' || T[k] == '\t')) { while (k < e && C(T[k] == ' ' || T[k] == '\t')) k++; if (k < e && al(k)) return "classic_basic"; } }
  for (char **f = files; f && *f; f++) if (ends(*f, ".frm") || ends(*f, ".frx") || ends(*f, ".vba") || ends(*f, ".vbp") || ends(*f, ".vbs")) return "visualbasic";
  return "structured_basic";
}
static const char *r_b(void) {
  for (int i = 0; i < N; i++) {
    if (at(i, "implement ") || at(i, "implement\t")) return "limbo";
    if (at(i, "include ") || at(i, "include\t")) { int k = sp(i + 7); if (at(k, "\"")) { for (k++; k < N && !at(k, "\""); k++) ; if (at(k, "\";")) return "limbo"; } }
    if ((at(i, "return") || at(i, "break") || at(i, "continue")) && has(i, ";")) return "limbo";
    if ((at(i, "pick") || at(i, "case")) && has(i, "{")) return "limbo";
  }
  return r_basic();
}
static const char *r_cs(void) { return has(0, "<?cs") ? "clearsilver_template" : "csharp"; }
static const char *r_dat(void) { int i = ws(0); return i == N ? NULL : at(i, "/*") ? "ampl" : at(i, "/") ? NULL : at(i, "#") || at(i, "data") || at(i, "param") || at(i, "set") ? "ampl" : "\1"; }
static const char *r_def(void) { int i = ws(0); return at(i, "(*") || at(i, "DEFINITION") ? "modula2" : NULL; }
static const char *r_mod(void) { int i = ws(0); return i == N ? NULL : at(i, "(*") || at(i, "IMPLEMENTATION") || at(i, "MODULE") ? "modula2" : at(i, "(") || at(i, "I") || at(i, "M") ? NULL : "ampl"; }
static const char *r_fs(void) {
  int forth = 0, fsharp = 0;
  for (int i = 0, e, nx; i < N; i = nx) { nx = line(i, &e); int k = sp(i); if (at(k, "\\ ") || at(k, ": ")) forth++; else if (at(k, "|") || at(k, "let ") || at(k, "type ") || at(k, "//")) fsharp++; }
  return forth > fsharp ? "forth" : forth < fsharp ? "fsharp" : NULL;
}
static int word(int i, int e, int s, const char *w) { int n = strlen(w); return i + n <= e && at(i, w) && !(i > s && (al(i - 1) || at(i - 1, "_"))) && !(i + n < e && (al(i + n) || at(i + n, "_"))); }
static const char *r_h(void) {
  for (char **f = files; f && *f; f++) if (strlen(*f) == 3 && ends(*f, "f.m")) return "objective_c";
  for (int i = 0, e, nx; i < N; i = nx) {
    nx = line(i, &e);
    if (at(i, "#")) {
      int k = sp(i + 1);
      if (at(k, "include ") || at(k, "include\t")) { k = sp(k + 7);
        if (k < e && (at(k, "<") || at(k, "\""))) {
          int b = ++k, dot = -1; while (k < e && !at(k, ">") && !at(k, "\"")) { if (at(k, ".")) dot = k; k++; }
          char nm[100]; memcpy(nm, T + b, k - b); nm[k - b] = 0;
          for (const struct v_kv *t = V_CPP; t->k; t++) if (C(!strcmp(t->k, nm))) return "cpp";
          if (dot >= 0) for (const struct v_kv *t = V_EXT; t->k; t++) if (!strcmp(t->v, "cpp") && C(!strcmp(t->k, nm + (dot + 1 - b)))) return "cpp";
        } }
    }
    for (int k = i; k < e; k++) if (word(k, e, i, "class") || word(k, e, i, "namespace") || word(k, e, i, "template") || word(k, e, i, "typename")) return "cpp";
  }
  return "c";
}
static const char *r_inc(void) { return has(0, "?php") ? "php" : NULL; }
static const char *r_pro(void) { return has(0, "SOURCES +=") || has(0, "SOURCES+=") || has(0, "CONFIG +=") || has(0, "CONFIG+=") ? "make" : "idl_pvwave"; }
static const char *r_r(void) { for (int i = 0; i < N; i++) if (atci(i, "rebol")) return "rebol"; return "r"; }
static const char *r_rs(void) { return atci(0, "#pragma version") || has(0, "\n#pragma version") ? NULL : "rust"; }
static const char *r_st(void) {
  int a = 0, b = 0, c = 0;
  for (int i = 0, e, nx; i < N; i = nx) { nx = line(i, &e); for (int k = i; k < e; k++) { if (at(k, ":")) { int m = k + 1; while (m < e && C(T[m] == ' ' || T[m] == '\t')) m++; if (m < e && at(m, "=")) a = 1; if (m < e && at(m, "[")) b = 1; k = m < e && at(m, ":") ? m : m; } else if (at(k, "].")) c = 1; } }
  return a && b && c ? "smalltalk" : NULL;
}
/* .pl and .pp: what the regular expressions find is arbitrary */
static int re_n, re_hit[4];
static int hook(const char *pat, const char *s, int len, int opt, int *ov, int n) {
  char t[3] = {'r', (char)('0' + re_n), 0}; int h = C(v_range(t, 0, 1));
  v_assert(s != NULL && len >= 0 && len <= N && !memcmp(s, T, len), "the expression is matched against the beginning of the file");
  if (re_n < 4) re_hit[re_n++] = h;
  return h ? 0 : -1;
}
static const char *r_pl(void) { for (int i = 0; i < re_n; i++) if (re_hit[i]) return "perl"; return has(0, ":- ") || has(0, ":-\n") ? "prolog" : "perl"; }
static const char *r_pp(void) { for (int i = 0; i < re_n; i++) if (re_hit[i]) return "puppet"; v_assert(re_n > 0, "expressions are tried"); return "pascal"; }
/* .f and .m: every line has its own say; they are given by the table */
struct ln { const char *t; int free; };
static const struct ln FL[] = {{"C a comment", 0}, {"c", 0}, {"* x & y", 0}, {"! x", 0}, {"      x = 1", 0}, {"     &  x", 0}, {"  100 continue", 0}, {"100   x = 'a & b'", 0}, {"      x = \"&\"", 0}, {"      x ! a & b", 0},
  {"\tx = 1", 0}, {"", 0}, {"     0x", 0}, {"  10 0x", 0}, {" ", 0}, {"12345 x", 0}, {"1", 0},
  {"program x", 1}, {"   x = 1", 1}, {" x", 1}, {"      x = 1 &", 1}, {"12345&x", 1}, {"12345x", 1}, {"&", 1}, {"1 a", 1}, {"      x = 'a' // &", 1}, {"d", 1},
  {"                                                                       x &", 0}, {"                                                                      x&", 1}, {0}};
static int fl_free;
static const char *r_fortran(void) { return fl_free ? "fortranfree" : "fortranfixed"; }
struct ml { const char *t; int objc, matlab, limbo, mathematica, octave; };
static const struct ml ML[] = {{"% x", 0, 1}, {"  %", 0, 1}, {"#import <x>", 1}, {"# x", 0, 1, 1, 0, 1}, {"##\tx", 0, 1, 1, 0, 1}, {"#x"}, {"// x", 1}, {"/* x", 1}, {"- (id)x", 1}, {"+ x", 1}, {"@interface X", 1}, {"@implementation X", 1}, {"@end"},
  {"function (x)", 0, 1}, {"function x"}, {"include \"sys.m\";", 0, 0, 1}, {"include \"sys.h\";"}, {" endfunction", 0, 0, 0, 0, 1}, {"x end_try_catch", 0, 0, 0, 0, 1}, {"x endwhile;", 0, 0, 0, 0, 1}, {"x end_unwind_protect", 0, 0, 0, 0, 1}, {"x endfunctions"},
  {"x: module", 0, 0, 1}, {"x: adt", 0, 0, 1}, {"x: con 5", 0, 0, 1}, {"x: fn(y)", 0, 0, 1}, {"x:\tfn (y)", 0, 0, 1}, {"x: modules"}, {"x:module"}, {"x: fnord"},
  {"x (* y", 0, 0, 0, 1}, {"x /. y", 0, 0, 0, 1}, {"x__", 0, 0, 0, 1}, {"f @@ x", 0, 0, 0, 1}, {"x & )", 0, 0, 0, 1}, {"x &,", 0, 0, 0, 1}, {"x & y"}, {"x"}, {""}, {0}};
static struct ml sum;
static const char *r_m(void) {
  int h = 0, c = 0;
  for (char **f = files; f && *f; f++) {
    if (ends(*f, ".h")) h = 1;
    if (ends(*f, ".c") || ends(*f, ".C") || ends(*f, ".cc") || ends(*f, ".cpp") || ends(*f, ".c++") || ends(*f, ".cxx")) c = 1;
  }
  int objc = sum.objc + (h && !c ? 5 : 0);
  if (sum.limbo > objc && sum.limbo > sum.matlab && sum.limbo > sum.mathematica) return "limbo";
  if (objc > sum.matlab && objc > sum.mathematica) return "objective_c";
  if (sum.mathematica > sum.matlab) return "mathematica";
  return sum.octave ? "octave" : "matlab";
}
#define L80 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
static const struct { const char *ext; const char *(*ref)(void); const char *sep; const char *voc[16]; } K[] = {
  {"aspx", r_aspx, " \n", {"<%@", "%>", "Page", "page", "Language=\"VB\"", "LANGUAGE=\"vb\"", "language=\"C#\"", "x>", "<%", ">", 0}},
  {"asx", r_asx, " \n\t\r", {"<", "a", ";", "\xef", "\xfe\xff", "\xff", " ", "", 0}},
  {"b", r_b, " \nx", {"implement", "include", "\"x\";", "\"x\"", "return", "break;", "continue", ";", "case", "pick", "{", "10", 0}},
  {"bas", r_basic, " \nx\t", {"10", "2", "x", "PRINT", "-", "", L80, "\t", 0}},
  {"cs", r_cs, " \n<", {"<?cs", "<?", "cs", "<", "?cs", "c", "s", "x", 0}},
  {"dat", r_dat, " \na", {"/*", "/", "#", "data", "dat", "param", "par", "set", "s", "x", "", "d", "p", 0}},
  {"def", r_def, " \n*", {"(*", "(", "DEFINITION", "DEF", "x", "*", "", "D", 0}},
  {"mod", r_mod, " \n*", {"(*", "(", "IMPLEMENTATION", "IMPL", "MODULE", "MOD", "x", "var", "", "M", "I", 0}},
  {"fs", r_fs, " \n\r", {"\\", ":", "|", "let", "type", "//", "x", "", "let\tx", "/", 0}},
  {"h", r_h, " \n_\t", {"#", "include", "<string>", "\"x.hpp\"", "<vector.h>", "class", "x", "template", "namespace", "typename", L80, "class2", 0}},
  {"inc", r_inc, " \n?", {"?php", "<?", "php", "?", "ph", "p", "", "x", 0}},
  {"pl", r_pl, " \n-", {":-", ":", "-", "x", "#!/usr/bin/perl", "", "%", 0}},
  {"pp", r_pp, " \n", {"x", "include", "", "class", 0}},
  {"pro", r_pro, " \n+", {"SOURCES", "+=", "CONFIG", "SOURCES+", "CONFIG +", "=", "x", "CONFIG+=", "", 0}},
  {"r", r_r, " \nLl", {"rebol", "REBOL", "rebo", "ReB", "Rebo", "ol", "x", "", "r", 0}},
  {"rs", r_rs, " \n\r", {"#pragma version", "#PRAGMA VERSION", "#pragma", "version", "\n#pragma version", "//", "x", "", 0}},
  {"st", r_st, " \n:", {":=", ":", "=", "[", "].", "]", ".", ": [", "x", L80, "", 0}},
  {"f", r_fortran, "\n\r", {0}}, {"m", r_m, "\n\r", {0}},
};
static const char *run(const char *path) {
  SourceFile *sf = ohcount_sourcefile_new(path);
  sf->size = N; sf->contents = malloc(N + 1); memcpy(sf->contents, T, N + 1); sf->filenames = files;
  const char *r = ohcount_detect_language(sf);
  ohcount_sourcefile_free(sf);
  return r;
}
void h_disamb(void) {
  int f = v_param, k = v_param3 == 2 ? 0 : v_param2 % 10, fr = v_param2 / 10, nv = 0; /* v_param2: words and, times ten, arbitrary bytes behind them */
  const char *const *voc = K[f].voc;
  for (; voc[nv]; nv++) ;
  if (K[f].ref == r_fortran) for (nv = 0; FL[nv].t; nv++) ;
  if (K[f].ref == r_m) for (nv = 0; ML[nv].t; nv++) ;
  char sep[8]; v_bytes_dom(sep, k, "sep", K[f].sep, strlen(K[f].sep));
  for (int i = 0; i < k; i++) {
    char t[3] = {'w', (char)('0' + i), 0};
    int lo = 0, hi = nv;
    if (i == 0 && v_param4) { lo = nv * (v_param4 - 1) / 8; hi = nv * v_param4 / 8; if (lo == hi) v_end_path(); }
    int w = lo + v_choose(t, hi - lo); const char *s;
    if (K[f].ref == r_fortran) { s = FL[w].t; fl_free |= FL[w].free; }
    else if (K[f].ref == r_m) { s = ML[w].t; sum.objc += ML[w].objc; sum.matlab += ML[w].matlab; sum.limbo += ML[w].limbo; sum.mathematica += ML[w].mathematica; sum.octave |= ML[w].octave; }
    else s = voc[w];
    strcpy(T + N, s); N += strlen(s); T[N++] = sep[i];
  }
  if (k) N -= v_choose("last", 2); /* with or without the last separator */
  if (fr) { v_bytes(T + N, fr, "b"); for (int i = 0; i < fr; i++) v_assume(T[N + i] != 0); N += fr; }
  T[N] = 0;
  char *sets[][4] = {{"x.c", "x.h", 0}, {"f.vbp", "g.h", 0}, {"a.H", "f.m", "b.cxx", 0}, {"x.hh", "q.h", "b.py", 0}};
  int fs = v_param3 == 1 ? v_choose("files", 4) : 0;
  static char name[8]; char *one[] = {"x.py", name, 0};
  if (v_param3 == 2) v_bytes_dom(name, v_param2 ? v_choose("length", 5) + 1 : 0, "n", ".fmrxvbapsh.c+C", 15);
  files = v_param3 == 2 ? one : v_param3 ? sets[fs] : NULL;
  vs_pcre_hook = hook;
  char path[20] = "f."; strcat(path, K[f].ext);
  const char *got = run(path), *want = K[f].ref();
  if (want) v_cover(K[f].ext); else v_cover("no language");
  v_assert(want ? got && !strcmp(got, want) : !got, "the content test follows its rule");
  if (f != 11 && f != 12) {
    strcat(path, ".in");
    const char *in = run(path);
    v_assert(in ? got && !strcmp(in, got) : !got, "a name with .in is taken for the name without");
  }
  v_assert(v_heap_live() == 0, "all memory released");
}
