/* The command line tool's main, on an in-memory file system; its output is compared with what the library says about the same files. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "sourcefile.h"
#include "licenses.h"
int ohcount_cli_main(int argc, char **argv);
extern License license_map[];
struct file { const char *path, *dom, *lang; char text[100]; int n; const char *fixed; };
enum { NF = 6 };
static struct file F[NF] = {{"a.c", "a/\n", "c"}, {"b.py", "a#\n", "python"}, {"e.c", "a/\n", "c"}, {"n.zzz", "a", NULL}, {"m.rb", "a#\n", "ruby"}, {"h.html", "a \n", "html", "", 0, "<p>\n<?cs\n?\n?>\n<style>\n?\n</style>\n<!---->\n"}};
static int pos;
static int starts(const char *w) { return !strncmp(vout + pos, w, strlen(w)); }
/* the output goes on with w (which may hold symbolic characters) */
static void expect(const char *w, int n, const char *what) {
  v_assert(pos + n <= vout_n, what);
  if (pos + n > vout_n) v_end_path();
  unsigned r = 1;
  for (int i = 0; i < n; i++) r &= (unsigned)(vout[pos + i] == w[i]);
  v_assert(r, what);
  pos += n;
}
static void expects(const char *w, const char *what) { expect(w, strlen(w), what); }
static void nextline(void) { while (pos < vout_n && vout[pos] != '\n') pos++; if (pos < vout_n) pos++; }
static int word(char *t) {
  int n = 0;
  while (pos < vout_n && vout[pos] == ' ') pos++;
  while (pos < vout_n && vout[pos] != ' ' && vout[pos] != '\n' && n < 60) t[n++] = vout[pos++];
  t[n] = 0;
  return n;
}
static int number(void) { char t[64]; word(t); v_assert(*t >= '0' && *t <= '9', "a number is printed"); return atoi(t); }
struct row { char lang[64]; int files, code, comments, blanks, total; char path[64]; };
static void row(struct row *r, int summary) {
  char t[64];
  word(r->lang); r->files = summary ? number() : 0; r->code = number(); r->comments = number();
  int save = pos; word(t);
  if (*t && t[strlen(t) - 1] == '%') {
    int tenths = 0;
    for (char *p = t; *p && *p != '%'; p++) if (*p != '.') tenths = tenths * 10 + *p - '0';
    int sum = r->code + r->comments, diff = tenths * sum - 1000 * r->comments;
    v_assert(sum ? diff <= sum && -diff <= sum : !tenths, "the share of comments is right to a tenth of a percent");
  } else { v_assert(r->code + r->comments == 0, "the share of comments is printed"); pos = save; }
  r->blanks = number(); r->total = number();
  v_assert(r->total == r->code + r->comments + r->blanks, "the total adds up");
  *r->path = 0; if (!summary) word(r->path);
  nextline();
}
static struct row ref[NF][4]; static int nref[NF]; static int cur; static int annot; static char want[1000]; static int nwant;
static void put(const char *s, int n) { memcpy(want + nwant, s, n); nwant += n; }
static void count(const char *lang, const char *kind, int s, int e, void *u) {
  int i = 0; char t[40];
  for (; i < nref[cur] && strcmp(ref[cur][i].lang, lang); i++) ;
  if (i == nref[cur]) { strcpy(ref[cur][i].lang, lang); nref[cur]++; }
  if (kind[1] == 'b') ref[cur][i].blanks++; else if (kind[2] == 'o' && kind[3] == 'd') ref[cur][i].code++; else ref[cur][i].comments++;
  ref[cur][i].total++;
  if (annot == 1) { put(lang, strlen(lang)); put("\t", 1); put(kind, strlen(kind)); put("\t", 1); put(F[cur].text + s, e - s); }
}
static void entity(const char *lang, const char *kind, int s, int e, void *u) { char t[80]; sprintf(t, "%s\t%s\t%d\t%d\n", lang, kind, s, e); put(t, strlen(t)); }
static int lic_at = -1;
static int hook(const char *pat, const char *s, int len, int opt, int *ov, int n) {
  if (lic_at < 0 || strcmp(pat, license_map[lic_at].re) || !len) return -1;
  ov[0] = 0; ov[1] = 1; return 1;
}
static int run(int argc, char **argv) { v_out_begin(); int r = ohcount_cli_main(argc, argv); v_out_sync(); pos = 0; return r; }
static const char *FLAG[][2] = {{"-a", "--annotate"}, {"-d", "--detect"}, {"-h", "--help"}, {"-i", "--individual"}, {"-l", "--license"}, {"-re", "-re"}, {"-s", "--summary"}, {0, 0}};
/* v_param: command, v_param2: which files (bits), v_param3: symbolic bytes in each, v_param4: 1 long flags, 2 missing file, 4 files in reverse order */
void h_cli(void) {
  int cmd = v_param, nf = 0, which[NF];
  for (int x = 0, i; x < NF; x++) if (i = v_param4 & 4 ? NF - 1 - x : x, v_param2 >> i & 1) {
    F[i].n = v_param3; v_bytes_dom(F[i].text, F[i].n, (char[]){'b', (char)('0' + i), 0}, F[i].dom, strlen(F[i].dom));
    if (F[i].fixed) {
      char h[4] = {F[i].text[0], v_param3 > 1 ? F[i].text[1] : 'b', 0}; int k = 0;
      strcpy(F[i].text, F[i].fixed); F[i].n = strlen(F[i].text);
      for (int j = 0; j < F[i].n; j++) if (F[i].text[j] == '?' && F[i].text[j - 1] == '\n' && F[i].text[j + 1] == '\n') F[i].text[j] = h[k++];
    }
    vs_add(F[i].path, VS_REG, F[i].text, F[i].n); which[nf++] = i;
  }
  vs_magic_answer = "data";
  vs_pcre_hook = hook;
  if (cmd == 4) lic_at = 3;
  /* what the library says */
  annot = cmd == 0;
  for (int k = 0; k < nf; k++) {
    cur = which[k];
    SourceFile *sf = ohcount_sourcefile_new(F[cur].path);
    if (F[cur].lang) { if (cmd == 5) ohcount_sourcefile_parse_entities_with_callback(sf, entity, 0); else ohcount_sourcefile_parse_with_callback(sf, count, 0); }
    ohcount_sourcefile_free(sf);
  }
  int opened = vs_opened, fo = vs_fopen_n;
  char *argv[8]; int argc = 0;
  argv[argc++] = "ohcount";
  if (FLAG[cmd][0]) argv[argc++] = (char *)FLAG[cmd][v_param4 & 1];
  if (v_param4 & 2) argv[argc++] = "missing.c";
  for (int k = 0; k < nf; k++) argv[argc++] = (char *)F[which[k]].path;
  argv[argc] = NULL;
  v_assert(run(argc, argv) == 0, "the tool succeeds");
  if (v_param4 & 2) expects("Bad argument: missing.c\n", "a path that does not exist is reported");
  char t[100]; struct row r;
  if (cmd == 0 || cmd == 5) { v_cover(cmd ? "entities" : "annotations"); expect(want, nwant, "every line (entity) of every file is printed"); v_assert(pos == vout_n, "nothing else is printed"); }
  else if (cmd == 1) {
    v_cover("languages");
    for (int k = 0; k < nf; k++) if (F[which[k]].lang) { sprintf(t, "%s\t%s\n", F[which[k]].lang, F[which[k]].path); expects(t, "each source file's language and path is printed"); }
    v_assert(pos == vout_n, "nothing else is printed");
  } else if (cmd == 2) { v_cover("help"); v_assert(starts("Usage: "), "help is printed"); for (int c = 0; c < 7; c++) v_assert(strstr(vout, FLAG[c][0]) && strstr(vout, FLAG[c][1]), "help names every option"); }
  else if (cmd == 4) {
    for (int k = 0; k < nf; k++) if (nref[which[k]] && ref[which[k]][0].comments) { v_cover("licences"); sprintf(t, "%s %s\n", license_map[lic_at].name, F[which[k]].path); expects(t, "each file's licence is printed"); }
    v_assert(pos == vout_n, "nothing else is printed");
  } else {
    sprintf(t, "Examining %d file(s)\n", nf); expects(t, "the number of files is printed");
    while (pos < vout_n && !starts("----")) nextline();
    nextline();
    if (cmd == 3) {
      for (int k = 0; k < nf; k++) {
        char last[64] = "";
        for (int i = 0; i < nref[which[k]]; i++) {
          v_cover("rows by file");
          row(&r, 0);
          v_assert(strcmp(last, r.lang) < 0, "a file's languages are in alphabetical order"); strcpy(last, r.lang);
          v_assert(!strcmp(r.path, F[which[k]].path), "the row names its file");
          int j = 0; while (j < nref[which[k]] && strcmp(ref[which[k]][j].lang, r.lang)) j++;
          v_assert(j < nref[which[k]], "the row's language is the file's");
          if (j == nref[which[k]]) v_end_path();
          struct row *e = &ref[which[k]][j];
          v_assert(r.code == e->code && r.comments == e->comments && r.blanks == e->blanks, "the row has the file's counts");
        }
      }
    } else {
      struct row sum[12], tot; int ns = 0, last = 1 << 30; memset(sum, 0, sizeof sum); memset(&tot, 0, sizeof tot);
      for (int k = 0; k < nf; k++) for (int i = 0; i < nref[which[k]]; i++) {
        struct row *e = &ref[which[k]][i]; int j = 0;
        while (j < ns && strcmp(sum[j].lang, e->lang)) j++;
        if (j == ns) strcpy(sum[ns++].lang, e->lang);
        sum[j].files++; sum[j].code += e->code; sum[j].comments += e->comments; sum[j].blanks += e->blanks;
        tot.files++; tot.code += e->code; tot.comments += e->comments; tot.blanks += e->blanks;
      }
      for (int i = 0; i < ns; i++) {
        v_cover("rows by language");
        row(&r, 1);
        v_assert(r.code <= last, "languages are in descending order of code"); last = r.code;
        int j = 0; while (j < ns && strcmp(sum[j].lang, r.lang)) j++;
        v_assert(j < ns, "each language has one row");
        if (j == ns) v_end_path();
        v_assert(r.files == sum[j].files && r.code == sum[j].code && r.comments == sum[j].comments && r.blanks == sum[j].blanks, "the row has the language's sums");
        sum[j].lang[0] = 0;
      }
      v_assert(starts("----"), "no other row");
      nextline();
      row(&r, 1);
      v_assert(!strcmp(r.lang, "Total") && r.files == tot.files && r.code == tot.code && r.comments == tot.comments && r.blanks == tot.blanks, "the last row has the totals");
    }
    v_assert(pos == vout_n, "nothing else is printed");
  }
  v_assert(vs_opened == vs_closed && vs_dir_opened == vs_dir_closed, "all files and directories are closed");
  v_assert(v_heap_live() == 0, "all memory released");
}
/* which words are options: v_param < 0: a dash and -v_param arbitrary characters; else option v_param cut or extended, v_param2: long form */
void h_flag(void) {
  static char flag[24]; int n, c;
  vs_add(".", VS_DIR, 0, 0); vs_add("./a.c", VS_REG, "//a\n", 4);
  if (v_param < 0) { n = -v_param; flag[0] = '-'; v_bytes_dom(flag + 1, n, "f", "abdehilnrsu-_ASD?", 17); flag[n + 1] = 0; n++; }
  else { n = v_choose("cut", strlen(FLAG[v_param][v_param2]) + 1); memcpy(flag, FLAG[v_param][v_param2], n); v_bytes_dom(flag + n, 1, "f", "aesyl-\0", 7); n += 1; flag[n] = 0; }
  if (v_param >= 0) v_assume(flag[0] != 0);
  for (int i = 0; i < n; i++) v_conc(flag[i]);
  char *argv[] = {"ohcount", flag, NULL};
  v_assert(run(2, argv) == 0, "the tool succeeds");
  for (c = 0; c < 7; c++) if (!strcmp(flag, FLAG[c][0]) || !strcmp(flag, FLAG[c][1])) break;
  static char t[200];
  if (c == 7) { v_cover("no option"); strcpy(t, "Bad argument: "); strcat(t, flag); strcat(t, "\nExamining 0 file(s)\n"); expects(t, "a word that is no option is taken for a path"); }
  else {
    v_cover("option");
    v_assert(c == 0 ? !strcmp(vout, "c\tlcomment\t//a\n") : c == 1 ? !strcmp(vout, "c\t./a.c\n") : c == 2 ? starts("Usage") : c == 3 ? starts("Examining 1") && strstr(vout, "//") == NULL && strstr(vout, "./a.c") != NULL :
             c == 4 ? vout_n == 0 : c == 5 ? !strcmp(vout, "c\tcomment\t0\t3\nc\tspace\t3\t4\n") || !strcmp(vout, "c\tcomment\t0\t3\n") : starts("Examining 1") && strstr(vout, "Total") && !strstr(vout, "./a.c"), "the option selects its report, of the current directory");
  }
  v_assert(v_heap_live() == 0, "all memory released");
}
