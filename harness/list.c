/* Lists of source files: what a directory walk finds, and the sums over a list. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "loc.h"
enum { NONE, REG, DIR_, LINKF, LINKD, FIFO, LOCKED, DANGLING };
static const int parent[] = {-1, -1, 0, 0, 1, 2};       /* r/N0 r/N1 r/N0/N2 r/N0/N3 r/N1/N4 r/N0/N2/N5 */
static char path[6][40], text[6][4];
static int type[6], want[6], nwant, seen[6];
/* v_param, v_param2: types of the two entries of the directory; v_param3: 0 symbolic names, 1 fixed names and symbolic contents, 2 names of dots; v_param4: 1 readdir backwards, 2 no types from readdir, 4 files added before and after */
void h_list(void) {
  vs_magic_answer = "data";
  vs_dir_order = v_param4 & 1; vs_dtype_unknown = v_param4 >> 1 & 1;
  vs_add("r", VS_DIR, 0, 0);
  vs_add("t", VS_DIR, 0, 0); vs_add("t/x.c", VS_REG, "a\n", 2);
  for (int k = 0; k < 6; k++) {
    int p = parent[k]; char *q = path[k], nm[3] = {'n', 'b', 0};
    if (p >= 0 && type[p] != DIR_ && type[p] != LOCKED) continue;
    if (k < 2) type[k] = k ? v_param2 : v_param;
    else if (v_param3 == 1) type[k] = v_choose(((char[]){'t', (char)('0' + k), 0}), 2) + 1;
    else if (k == 3) type[k] = REG;
    else { type[k] = v_choose(((char[]){'t', (char)('0' + k), 0}), k == 5 ? 3 : 6); if (k == 5 && type[k] == DIR_) type[k] = LINKD; }
    if (type[k] == NONE) continue;
    strcpy(q, p < 0 ? "r" : path[p]); strcat(q, "/");
    if (v_param3 == 0) { v_bytes_dom(nm, 1, (char[]){'n', (char)('0' + k), 0}, ".n", 2); v_conc(nm[0]); nm[1] = 0; strcat(q, nm); }
    else if (v_param3 == 2) strcat(q, k == 0 || k == 2 ? "..." : k == 3 ? "..a" : "a..");
    q[strlen(q) + 1] = 0; q[strlen(q)] = (char)('0' + k);
    if (v_param3 == 2 && k == 0) q[strlen(q) - 1] = 0;
    strcat(q, type[k] == DIR_ ? "" : k & 1 ? ".py" : ".c");
    if (v_param3 == 1 && type[k] == REG) { v_bytes_dom(text[k], 1, (char[]){'b', (char)('0' + k), 0}, "/#\n\0", 4); strcpy(text[k] + 1, "/\n"); }
    vs_add(q, type[k] == REG ? VS_REG : type[k] == FIFO ? VS_FIFO : type[k] == DIR_ || type[k] == LOCKED ? VS_DIR : VS_LINK,
           type[k] == LINKF ? "t/x.c" : type[k] == LINKD ? "t" : type[k] == DANGLING ? "t/none" : text[k], type[k] == LOCKED ? -1 : (long)strlen(text[k]));
    if (type[k] == REG) {
      int ok = 1;
      for (int a = p; a >= 0; a = parent[a]) ok &= type[a] == DIR_ && strrchr(path[a], '/')[1] != '.';
      want[k] = ok; nwant += ok;
    }
  }
  vs_add("z.c", VS_REG, "a\n", 2);
  SourceFileList *list = ohcount_sourcefile_list_new(), *i;
  int more = (v_param4 & 4) != 0, n = 0;
  v_assert(list->head == NULL, "a new list is empty");
  if (more) ohcount_sourcefile_list_add_file(list, "z.c");
  ohcount_sourcefile_list_add_directory(list, "r");
  if (more) { ohcount_sourcefile_list_add_directory(list, "none"); ohcount_sourcefile_list_add_directory(list, "t/x.c"); ohcount_sourcefile_list_add_directory(list, "t"); ohcount_sourcefile_list_add_file(list, "z.c"); }
  if (nwant) v_cover("files"); else v_cover("no file");
  for (i = list->head; i; i = i->next, n++) {
    const char *f = i->sf->filepath;
    if (more && (n == 0 || n > nwant)) { v_assert(n <= nwant + 2 && !strcmp(f, n == nwant + 1 ? "t/x.c" : "z.c"), "files added one by one are listed in their order"); continue; }
    int k = 0;
    while (k < 6 && !(want[k] && !strcmp(f, path[k]))) k++;
    v_assert(k < 6, "only regular files outside hidden directories are listed, by their path, and no link is followed");
    if (k == 6) v_end_path();
    v_assert(!seen[k], "no file is listed twice"); seen[k] = 1;
    v_assert(!strcmp(i->sf->filename, strrchr(path[k], '/') + 1), "a file's name is the last part of its path");
  }
  v_assert(n == nwant + 3 * more, "every regular file in the directory and below is listed");
  v_assert(vs_dir_opened == vs_dir_closed, "all directories are closed");
  v_assert(vs_fopen_n == 0, "listing opens no file");
  if (v_param3 == 1) {
    LocList *all = ohcount_sourcefile_list_analyze_languages(list), *l; int code = 0, com = 0, bl = 0, fc = 0, c = 0, m = 0;
    for (i = list->head; i; i = i->next) for (LocList *x = ohcount_sourcefile_get_loc_list(i->sf)->head; x; x = x->next) { code += x->loc->code; com += x->loc->comments; bl += x->loc->blanks; fc += x->loc->filecount; if (!strcmp(x->loc->language, "c")) { c += x->loc->code; m += x->loc->filecount; } }
    v_cover("sums");
    v_assert(code == ohcount_loc_list_code(all) && com == ohcount_loc_list_comments(all) && bl == ohcount_loc_list_blanks(all) && fc == ohcount_loc_list_filecount(all), "the sums over a list are those of its files");
    Loc *lc = ohcount_loc_list_get_loc(all, "c");
    v_assert(lc ? lc->code == c && lc->filecount == m : m == 0, "a language's sums are those of its files");
    for (l = all->head; l; l = l->next) for (LocList *x = l->next; x; x = x->next) v_assert(strcmp(x->loc->language, l->loc->language) != 0, "a language is listed once");
    ohcount_loc_list_free(all);
  }
  ohcount_sourcefile_list_free(list);
  v_assert(vs_opened == vs_closed, "all files are closed");
  v_assert(v_heap_live() == 0, "all memory released");
}
