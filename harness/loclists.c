/* LocList and LocDeltaList against bookkeeping per language: v_param additions in languages with arbitrary short names and arbitrary counts,
 * the last v_param2 of them through a second list.
 * v_param3: 0: sums, of arbitrary counts; 1: comparisons and compact copies, where counts are -1, 0 or 1 for the language in question. */
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include "loc.h"
#define K 8
static char name[K][3];
static int n, m;
static int val[K][6];
static int same(int i, int j) { return !memcmp(name[i], name[j], 3); }
static int first(int i) { for (int j = 0; j < i; j++) if (same(i, j)) return 0; return 1; }
static unsigned sum(int i, int f) { unsigned s = 0; for (int j = 0; j < n; j++) if (same(i, j)) s += (unsigned)val[j][f]; return s; }
static unsigned all(int f) { unsigned s = 0; for (int j = 0; j < n; j++) s += (unsigned)val[j][f]; return s; }
static void names(int nf) {
  n = v_param; m = v_param2;
  /* which of the languages are the same: every partition; the names are prefixes of each other, or differ in one letter */
  static const char *const words[] = {"a", "ab", "b", "aa", "A", "ba"};
  int k = 0;
  for (int i = 0; i < n; i++) {
    char t[3] = {'n', (char)('0' + i), 0};
    int c = v_choose(t, k + 1);
    if (c == k) k++;
    strcpy(name[i], words[c]);
    for (int f = 0; f < nf; f++) { char t[4] = {'v', (char)('0' + i), (char)('a' + f), 0}; val[i][f] = v_param3 ? v_range(t, -1, 1) : v_i32(t); }
  }
}
void h_loc(void) {
  names(4);
  LocList *l = ohcount_loc_list_new(), *o = ohcount_loc_list_new();
  v_assert(ohcount_loc_list_get_loc(l, "a") == NULL && ohcount_loc_list_total(l) == 0 && ohcount_loc_list_filecount(l) == 0, "the empty list has nothing");
  for (int i = 0; i < n; i++) {
    Loc *c = ohcount_loc_new(name[i], val[i][0], val[i][1], val[i][2], val[i][3]);
    v_assert(ohcount_loc_total(c) == (int)((unsigned)val[i][0] + (unsigned)val[i][1] + (unsigned)val[i][2]), "total is code, comments and blanks");
    v_assert(ohcount_loc_is_equal(c, c), "equal to itself");
    if (i && v_param3) {
      Loc *d = ohcount_loc_new(name[i - 1], val[i - 1][0], val[i - 1][1], val[i - 1][2], val[i - 1][3]);
      unsigned eq = (unsigned)(val[i][0] == val[i - 1][0]) & (unsigned)(val[i][1] == val[i - 1][1]) & (unsigned)(val[i][2] == val[i - 1][2]) & (unsigned)(val[i][3] == val[i - 1][3]);
      v_assert((unsigned)(ohcount_loc_is_equal(c, d) != 0) == (same(i, i - 1) ? eq : 0), "equal exactly if language and counts are");
      ohcount_loc_free(d);
    }
    ohcount_loc_list_add_loc(i < n - m ? l : o, c);
    c->code = c->comments = c->blanks = c->filecount = 77; /* the list keeps its own copy */
    ohcount_loc_free(c);
  }
  ohcount_loc_list_add_loc_list(l, o);
  ohcount_loc_list_free(o);
  LocList *it = l->head; int k = 0;
  for (int i = 0; i < n; i++) if (first(i)) {
    v_assert(it != NULL, "every language added is in the list");
    if (!it) v_end_path();
    k++;
    Loc *c = it->loc;
    v_assert(!strcmp(c->language, name[i]), "languages come in the order of their first addition");
    v_assert((unsigned)c->code == sum(i, 0), "code is summed per language");
    v_assert((unsigned)c->comments == sum(i, 1), "comments are summed per language");
    v_assert((unsigned)c->blanks == sum(i, 2), "blanks are summed per language");
    v_assert((unsigned)c->filecount == sum(i, 3), "file counts are summed per language");
    char cp[3]; strcpy(cp, name[i]);
    v_assert(ohcount_loc_list_get_loc(l, cp) == c, "a language is found by name");
    it = it->next;
  }
  if (k > 2) v_cover("three languages");
  v_assert(it == NULL, "no language occurs twice");
  v_assert(ohcount_loc_list_get_loc(l, "zz") == NULL, "an unknown language is not found");
  v_assert((unsigned)ohcount_loc_list_code(l) == all(0), "code of the list");
  v_assert((unsigned)ohcount_loc_list_comments(l) == all(1), "comments of the list");
  v_assert((unsigned)ohcount_loc_list_blanks(l) == all(2), "blanks of the list");
  v_assert((unsigned)ohcount_loc_list_total(l) == all(0) + all(1) + all(2), "total of the list");
  v_assert((unsigned)ohcount_loc_list_filecount(l) == all(3), "files of the list");
  if (v_param3) {
  LocList *z = ohcount_loc_list_new_compact(l), *zi = z->head;
  for (it = l->head; it; it = it->next) {
    if (v_conc(ohcount_loc_total(it->loc) != 0)) {
      v_assert(zi && zi->loc != it->loc && ohcount_loc_is_equal(zi->loc, it->loc), "the compact list keeps every language with lines");
      if (!zi) v_end_path();
      zi = zi->next;
    }
  }
  v_assert(zi == NULL, "the compact list drops languages without lines");
  ohcount_loc_list_free(z);
  }
  ohcount_loc_list_free(l);
  v_assert(v_heap_live() == 0, "all memory released");
}
void h_delta(void) {
  names(6);
  LocDeltaList *l = ohcount_loc_delta_list_new(), *o = ohcount_loc_delta_list_new();
  v_assert(ohcount_loc_delta_list_get_loc_delta(l, "a") == NULL && ohcount_loc_delta_list_net_total(l) == 0, "the empty list has nothing");
  for (int i = 0; i < n; i++) {
    int *v = val[i];
    LocDelta *c = ohcount_loc_delta_new(name[i], v[0], v[1], v[2], v[3], v[4], v[5]);
    v_assert((unsigned)ohcount_loc_delta_net_code(c) == (unsigned)v[0] - (unsigned)v[1], "net code");
    v_assert((unsigned)ohcount_loc_delta_net_comments(c) == (unsigned)v[2] - (unsigned)v[3], "net comments");
    v_assert((unsigned)ohcount_loc_delta_net_blanks(c) == (unsigned)v[4] - (unsigned)v[5], "net blanks");
    v_assert((unsigned)ohcount_loc_delta_net_total(c) == (unsigned)v[0] - (unsigned)v[1] + (unsigned)v[2] - (unsigned)v[3] + (unsigned)v[4] - (unsigned)v[5], "net total");
    if (v_param3) {
    unsigned ch = 0; for (int f = 0; f < 6; f++) ch |= (unsigned)(v[f] != 0);
    v_assert((unsigned)(ohcount_loc_delta_is_changed(c) != 0) == ch, "changed exactly if some count is not 0");
    }
    if (i && v_param3) {
      int *w = val[i - 1];
      LocDelta *d = ohcount_loc_delta_new(name[i - 1], w[0], w[1], w[2], w[3], w[4], w[5]);
      unsigned eq = 1; for (int f = 0; f < 6; f++) eq &= (unsigned)(v[f] == w[f]);
      v_assert((unsigned)(ohcount_loc_delta_is_equal(c, d) != 0) == (same(i, i - 1) ? eq : 0), "equal exactly if language and counts are");
      ohcount_loc_delta_free(d);
    }
    ohcount_loc_delta_list_add_loc_delta(i < n - m ? l : o, c);
    c->code_added = c->comments_added = c->blanks_removed = 77;
    ohcount_loc_delta_free(c);
  }
  ohcount_loc_delta_list_add_loc_delta_list(l, o);
  ohcount_loc_delta_list_free(o);
  LocDeltaList *it = l->head; int k = 0;
  for (int i = 0; i < n; i++) if (first(i)) {
    v_assert(it != NULL, "every language added is in the list");
    if (!it) v_end_path();
    k++;
    LocDelta *c = it->delta;
    v_assert(!strcmp(c->language, name[i]), "languages come in the order of their first addition");
    v_assert((unsigned)c->code_added == sum(i, 0), "added code is summed per language");
    v_assert((unsigned)c->code_removed == sum(i, 1), "removed code is summed per language");
    v_assert((unsigned)c->comments_added == sum(i, 2), "added comments are summed per language");
    v_assert((unsigned)c->comments_removed == sum(i, 3), "removed comments are summed per language");
    v_assert((unsigned)c->blanks_added == sum(i, 4), "added blanks are summed per language");
    v_assert((unsigned)c->blanks_removed == sum(i, 5), "removed blanks are summed per language");
    char cp[3]; strcpy(cp, name[i]);
    v_assert(ohcount_loc_delta_list_get_loc_delta(l, cp) == c, "a language is found by name");
    it = it->next;
  }
  if (k > 2) v_cover("three languages");
  v_assert(it == NULL, "no language occurs twice");
  v_assert(ohcount_loc_delta_list_get_loc_delta(l, "zz") == NULL, "an unknown language is not found");
  v_assert((unsigned)ohcount_loc_delta_list_code_added(l) == all(0), "added code of the list");
  v_assert((unsigned)ohcount_loc_delta_list_code_removed(l) == all(1), "removed code of the list");
  v_assert((unsigned)ohcount_loc_delta_list_comments_added(l) == all(2), "added comments of the list");
  v_assert((unsigned)ohcount_loc_delta_list_comments_removed(l) == all(3), "removed comments of the list");
  v_assert((unsigned)ohcount_loc_delta_list_blanks_added(l) == all(4), "added blanks of the list");
  v_assert((unsigned)ohcount_loc_delta_list_blanks_removed(l) == all(5), "removed blanks of the list");
  v_assert((unsigned)ohcount_loc_delta_list_net_code(l) == all(0) - all(1), "net code of the list");
  v_assert((unsigned)ohcount_loc_delta_list_net_comments(l) == all(2) - all(3), "net comments of the list");
  v_assert((unsigned)ohcount_loc_delta_list_net_blanks(l) == all(4) - all(5), "net blanks of the list");
  v_assert((unsigned)ohcount_loc_delta_list_net_total(l) == all(0) - all(1) + all(2) - all(3) + all(4) - all(5), "net total of the list");
  if (v_param3) {
  LocDeltaList *z = ohcount_loc_delta_list_new_compact(l), *zi = z->head;
  for (it = l->head; it; it = it->next) {
    if (v_conc(ohcount_loc_delta_is_changed(it->delta) != 0)) {
      v_assert(zi && zi->delta != it->delta && ohcount_loc_delta_is_equal(zi->delta, it->delta), "the compact list keeps every language with changes");
      if (!zi) v_end_path();
      zi = zi->next;
    }
  }
  v_assert(zi == NULL, "the compact list drops languages without changes");
  ohcount_loc_delta_list_free(z);
  }
  ohcount_loc_delta_list_free(l);
  v_assert(v_heap_live() == 0, "all memory released");
}
