/* Language detection against a reference that works with the documented tables (v_tables.h) only. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "sourcefile.h"
#include "detector.h"
#include "v_tables.h"
int ohcount_is_binary_filename(const char *filename);
/* what a content test may answer; 0 stands for no language, 1 for the mark of a binary file */
static const struct { const char *id; const char *may[6]; } AMB[] = {
  {"aspx", {"cs_aspx", "vb_aspx"}}, {"asx", {"", "assembler"}}, {"b", {"limbo", "classic_basic", "structured_basic", "visualbasic"}},
  {"basic", {"classic_basic", "structured_basic", "visualbasic"}}, {"cs", {"csharp", "clearsilver_template"}}, {"dat", {"", "ampl", "\1"}},
  {"def", {"", "modula2"}}, {"fortran", {"fortranfixed", "fortranfree"}}, {"fs", {"", "forth", "fsharp"}}, {"h", {"c", "cpp", "objective_c"}},
  {"inc", {"", "php", "\1"}}, {"m", {"limbo", "objective_c", "mathematica", "octave", "matlab"}}, {"mod", {"", "modula2", "ampl"}},
  {"pl", {"", "perl", "prolog"}}, {"pp", {"", "puppet", "pascal"}}, {"pro", {"make", "idl_pvwave"}}, {"r", {"rebol", "r"}}, {"rs", {"", "rust"}}, {"st", {"", "smalltalk"}}, {0}};
static unsigned eqn(const char *a, const char *b, int n) { unsigned r = 1; for (int i = 0; i < n; i++) r &= (unsigned)(a[i] == b[i]); return r; }
static unsigned eqci(const char *a, const char *b, int n) { unsigned r = 1; for (int i = 0; i < n; i++) r &= (unsigned)(tolower((unsigned char)a[i]) == b[i]); return r; }
/* exact, then lower case; NULL if there is no such key */
static const char *kv(const struct v_kv *t, const char *s, int n, int lower) {
  for (; t->k; t++) if ((int)strlen(t->k) == n && v_conc(lower ? eqci(s, t->k, n) : eqn(s, t->k, n))) return t->v;
  return NULL;
}
static const char *byname(const char *s, int n, int lower) {
  for (const struct v_lang *t = V_LANG; t->k; t++) if ((int)strlen(t->k) == n && v_conc(lower ? eqci(s, t->k, n) : eqn(s, t->k, n))) return t->name;
  return NULL;
}
static const char *ext_of(const char *name, int n, int *len) {
  for (int i = n - 1; i >= 0; i--) if (v_conc(name[i] == '.')) { *len = n - 1 - i; return name + i + 1; }
  *len = 0; return name + n;
}
static const char *by_ext(const char *e, int n) { const char *v = kv(V_EXT, e, n, 0); return v ? v : kv(V_EXT, e, n, 1); }
/* the Emacs mode of the first line that is not #! */
static const char *by_mode(const char *c) {
  int a = 0, b;
  for (;;) {
    for (b = a; v_conc(c[b] && c[b] != '\r' && c[b] != '\n'); b++) ;
    if (!v_conc(c[a] == '#' && c[a + 1] == '!')) break;
    for (; v_conc(c[b] == '\r' || c[b] == '\n'); b++) ;
    if (!v_conc(c[b] != 0)) { for (b = a; v_conc(c[b] && c[b] != '\r' && c[b] != '\n'); b++) ; break; } /* only #! lines: the last one */
    a = b;
  }
  if (b - a > 80) b = a + 80;
  for (; a + 3 <= b && !v_conc(eqn(c + a, "-*-", 3)); a++) ;
  if (a + 3 > b) return NULL;
  a += 3;
  for (; a < b && v_conc(c[a] == ' ' || c[a] == '\t'); a++) ;
  if (a + 4 <= b && v_conc(eqci(c + a, "mode", 4))) for (a += 4; a < b && v_conc(c[a] == ' ' || c[a] == '\t' || c[a] == ':'); a++) ;
  int e = a;
  for (; e < b && !v_conc(c[e] == ' ' || (c[e] >= 9 && c[e] <= 13) || c[e] == ';') && !(e + 3 <= b && v_conc(eqn(c + e, "-*-", 3))); e++) ;
  const char *w = c + a; int n = e - a; const char *r;
  v_cover("Emacs mode");
  if (n == 1 && v_conc(tolower((unsigned char)w[0]) == 'c')) return "c";
  if ((r = byname(w, n, 0))) return r;
  if ((r = kv(V_EXT, w, n, 0))) return r;
  if ((r = byname(w, n, 1))) return r;
  return kv(V_EXT, w, n, 1);
}
static const char *magic_lang; /* the language libmagic's answer names */
static void judge(const char *got, const char *want) {
  if (want && want[0] == '\1') want = NULL;
  if (want && want[0] == '\2') {
    if (!strcmp(want + 1, "in")) return; /* the name without .in decides: P13 */
    unsigned ok = 0; int k;
    for (k = 0; AMB[k].id && strcmp(AMB[k].id, want + 1); k++) ;
    v_assert(AMB[k].id != 0, "the content test is known");
    if (!AMB[k].id) v_end_path();
    for (int i = 0; i < 6 && AMB[k].may[i]; i++) ok |= (unsigned)(got ? !strcmp(got, AMB[k].may[i]) : !AMB[k].may[i][0]);
    v_cover("content test");
    v_assert(ok, "the content test answers one of its languages");
  } else if (want) {
    v_cover("language known");
    v_assert(got && !strcmp(got, want), "the language is the one the tables give");
  } else {
    v_cover("no language");
    v_assert(!got, "no language is guessed");
  }
}
static const char *ref(const char *name, int n, const char *contents) {
  int el; const char *e = ext_of(name, n, &el), *r;
  if ((r = by_ext(e, el))) return r;
  if ((r = by_mode(contents))) return r;
  if ((r = kv(V_FILE, name, n, 0))) return r;
  return magic_lang;
}
static char *mk(const char *pre, const char *s, int n) {
  char *p = malloc(strlen(pre) + n + 1); strcpy(p, pre); memcpy(p + strlen(pre), s, n); p[strlen(pre) + n] = 0; return p;
}
static const char *detect(const char *path, const char *contents) {
  SourceFile *sf = ohcount_sourcefile_new(path);
  if (contents) { sf->size = strlen(contents); sf->contents = malloc(sf->size + 1); memcpy(sf->contents, contents, sf->size + 1); }
  const char *r = ohcount_detect_language(sf);
  ohcount_sourcefile_free(sf);
  return r;
}
/* A word: kind >= 0: that many arbitrary bytes; -1: a key of a table with one arbitrary byte at any place; -2: a key with its letters in any case;
 * -3: a key and one more arbitrary byte, or without its last byte.  v_param4 selects one of eight slices of the table. */
static int word(char *b, int kind, int table) {
  int n, k = 0;
  if (kind >= 0) { v_bytes(b, kind, "word"); n = kind; }
  else {
    const char *keys[400];
    if (table == 0) for (int i = 0; V_EXT[i].k; i++) keys[k++] = V_EXT[i].k;
    if (table == 1) for (int i = 0; V_FILE[i].k; i++) keys[k++] = V_FILE[i].k;
    if (table == 2) for (int i = 0; V_LANG[i].k; i++) keys[k++] = V_LANG[i].k;
    int lo = k * v_param4 / 8, hi = k * (v_param4 + 1) / 8;
    if (lo == hi) v_end_path();
    const char *key = keys[lo + v_choose("key", hi - lo)];
    n = strlen(key);
    strcpy(b, key);
    if (kind == -1) { char t[2] = {(char)('A' + n), 0}; int at = v_choose(t, n); v_bytes(b + at, 1, "byte"); }
    if (kind == -2) for (int i = 0; i < n; i++) if (isalpha((unsigned char)key[i])) { char t[3] = {'c', (char)('a' + i), 0}; b[i] = (char)(key[i] ^ (v_range(t, 0, 1) << 5)); }
    if (kind == -3) { if (v_choose("cut", 2)) n--; else v_bytes(b + n++, 1, "more"); }
  }
  b[n] = 0;
  for (int i = 0; i < n; i++) v_assume(b[i] != 0);
  return n;
}
/* a file name that is a prefix (v_param) and a word (v_param2, of table v_param3); no contents to speak of */
void h_name(void) {
  static const char *const pre[] = {"", "f.", "Dir.c/", "Make", "a.b.", "C:\\x."};
  static const int dir[] = {0, 0, 6, 0, 0, 3};
  char b[40]; const char *px = pre[v_param];
  int n = word(b, v_param2, v_param3);
  for (int i = 0; i < n; i++) v_assume(b[i] != '/'), v_assume(b[i] != '\\');
  char *path = mk(px, b, n);
  const char *name = path + dir[v_param]; int nn = strlen(px) - dir[v_param] + n;
  const char *got = detect(path, "");
  judge(got, ref(name, nn, ""));
  int bin = ohcount_is_binary_filename(path);
  int el; const char *e = ext_of(name, nn, &el), *r = by_ext(e, el);
  if (e == name) r = NULL;
  if (r && r[0] == '\1') v_cover("binary name");
  v_assert((unsigned)(bin != 0) == (unsigned)(r && r[0] == '\1'), "a file name is binary exactly if its extension is one of binary files");
  free(path);
  v_assert(v_heap_live() == 0, "all memory released");
}
/* a word in the mode line of frame v_param */
void h_mode(void) {
  static const char *const pre[] = {"-*-", "-*- mode: ", "# -*-MoDe:", "#!/bin/sh\n# -*- ", "#!a\r\n#!b\r\n-*-", "x\n-*-", "", "#!/bin/zzz -*- "};
  static const char *const post[] = {"-*-\n", " -*-\n", "; tab-width: 4 -*-\nx\n", "\n", "-*-", " -*-\n", "", "\n"};
  int f = v_param; char b[40];
  int n = word(b, v_param2, v_param3);
  char *c = mk(pre[f], b, n), *t = mk(c, post[f], strlen(post[f]));
  const char *got = detect("f", t);
  judge(got, ref("f", 1, t));
  free(c); free(t);
  v_assert(v_heap_live() == 0, "all memory released");
}
/* every combination of what may decide */
void h_prec(void) {
  static const char *const names[] = {"f", "f.c", "f.C", "f.PY", "f.zzz", "f.png", "f.PNG", "Makefile", "x/Makefile.c", "CMakeLists.txt", "configure.ac", "init.pp", "Rakefile", "makefile.zzz", "f.4Th"};
  static const char *const cont[] = {"", "x\n", "-*- ruby -*-\n", "-*- mode: RUBY -*-\n", "#!/bin/sh\n-*-c++-*-\n", "-*- zzz -*-\n", "x\n-*- ruby -*-\n", "-*- C -*-", "-*- png -*-\n", "-*- mode: f90 -*-\n"};
  static const char *const mag[] = {"data", "PHP script, ASCII text", "a /usr/bin/perl -w script text executable", "script text executable for ruby -w,", "XML 1.0 document", "zzz script text"}, *const mlang[] = {0, "php", "perl", "ruby", "xml", 0};
  int a = v_choose("name", 15), b = v_choose("contents", 10), m = v_choose("magic", 6);
  vs_magic_answer = mag[m]; magic_lang = mlang[m];
  const char *name = strrchr(names[a], '/'); name = name ? name + 1 : names[a];
  const char *got = detect(names[a], cont[b]);
  judge(got, ref(name, strlen(name), cont[b]));
  v_assert(v_heap_live() == 0, "all memory released");
  v_assert(vs_magic_open_n == 0, "libmagic is closed");
}
/* libmagic's answer: a script of a symbolic interpreter */
void h_magic(void) {
  static const char *const form[] = {"? script", "a ? script text executable", "a /usr/bin/? - script", "a ? -% script text executable", "a /usr/local/bin/? -% -a script", "?  xml", "? Script, ASCII text", "script text executable for ?", "script text executable for ? -w,", "a script text executable for ?"};
  int n = v_param2, f = v_param;
  char t[160], *q = t; char b[20], sw[2];
  v_bytes(b, n, "word"); v_bytes(sw, 1, "switch");
  for (int i = 0; i < n; i++) v_assume(b[i] != 0), v_assume(isalnum((unsigned char)b[i]) != 0);
  v_assume(isalnum((unsigned char)sw[0]) != 0);
  for (const char *s = form[f]; *s; s++) if (*s == '?') for (int i = 0; i < n; i++) *q++ = b[i]; else if (*s == '%') *q++ = sw[0]; else *q++ = *s;
  *q = 0;
  vs_magic_answer = t;
  const char *got = detect("f", "x\n"), *want;
  if (f == 5) want = "xml"; /* no interpreter is named */
  else if (f == 9) want = byname("a", 1, 1);
  else want = byname(b, n, 1);
  if (want && n == 3) v_cover("script of a known language");
  v_assert(want ? got && !strcmp(got, want) : !got, "the interpreter named is the language");
  v_assert(vs_magic_open_n == 0, "libmagic is closed");
  v_assert(v_heap_live() == 0, "all memory released");
}
/* nothing but safety: any answer, any contents */
void h_safe(void) {
  static const char *const ids[] = {"", "zzz", "ascx", "asx", "b", "bas", "cs", "dat", "def", "f", "fs", "h", "in", "inc", "m", "mod", "pl", "pp", "pro", "r", "rs", "st"};
  static const char *const idof[] = {"", "", "aspx", "asx", "b", "basic", "cs", "dat", "def", "fortran", "fs", "h", "in", "inc", "m", "mod", "pl", "pp", "pro", "r", "rs", "st"};
  int n = v_param2, f = v_param;
  char *c = NULL, path[40];
  if (n >= 0) { c = malloc(n + 1); v_bytes(c, n, "contents"); c[n] = 0; }
  strcpy(path, "f."); strcat(path, ids[f]);
  if (v_param3) strcpy(path, f == 12 ? "dir.h/x.h.in" : ids[f]);
  SourceFile *sf = ohcount_sourcefile_new(path);
  sf->contents = c; if (c) sf->size = n;
  char *files[] = {"a", "", "b.c", "x.h", "f.m", NULL}, *files2[] = {"q.h", "vbp", "x.vbs", NULL};
  sf->filenames = v_param3 ? files : v_param4 ? files2 : NULL;
  char ma[24] = {0}; int ml = v_param4;
  if (ml) { v_bytes(ma, ml, "magic"); for (int i = 0; i < ml; i++) v_assume(ma[i] != 0); memcpy(ma + ml, "script", 7); vs_magic_answer = ma; }
  const char *got = ohcount_detect_language(sf);
  v_cover("detected");
  if (idof[f][0] && f != 12 && !v_param3) { char w[20] = "\2"; strcat(w, idof[f]); judge(got, w); }
  else if (got) { unsigned ok = (unsigned)(got[0] == '\1'); for (const struct v_lang *t = V_LANG; t->k; t++) ok |= (unsigned)!strcmp(got, t->name); v_assert(ok, "the language is one of the table, or the mark of a binary file"); }
  v_assert(ohcount_sourcefile_get_language(sf) == got, "the same language again");
  sf->filenames = NULL;
  ohcount_sourcefile_free(sf);
  v_assert(vs_magic_open_n == 0, "libmagic is closed");
  v_assert(v_heap_live() == 0, "all memory released");
}
