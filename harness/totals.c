/* The totals and texts a SourceFile keeps, against the lines its parser reports. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_langs.h"
#include "fill.h"
#define ML 300
static int n, nl, kind[ML], s_[ML], e_[ML];
static const char *lang[ML];
static unsigned char *buf;
static void cb(const char *l, const char *ent, int s, int e, void *u) {
  if (nl == ML) v_end_path();
  lang[nl] = l; s_[nl] = s; e_[nl] = e; kind[nl] = ent[1] == 'b' ? 2 : ent[2] == 'o' && ent[3] == 'd' ? 0 : 1; nl++;
}
static unsigned first(int i) { for (int j = 0; j < i; j++) if (!strcmp(lang[j], lang[i])) return 0; return 1; }
static int count(const char *l, int k) { int c = 0; for (int i = 0; i < nl; i++) c += !strcmp(lang[i], l) && kind[i] == k; return c; }
/* the lines of one kind, one after the other, without the white space they start with */
static unsigned text_is(const char *l, int k, const char *t) {
  long at = 0;
  for (int i = 0; i < nl; i++) if (kind[i] == k && !strcmp(lang[i], l)) {
    int s = s_[i];
    while (s < n && v_conc(buf[s] == ' ' || buf[s] == '\t')) s++;
    for (; s < e_[i]; s++) v_assert((unsigned char)t[at++] == buf[s], k ? "the comments are the comment lines without their indent" : "the code is the code lines without their indent");
  }
  return t[at] == 0;
}
void h_totals(void) {
  n = fill_size();
  const char *L = V_LANGS[fill_lang()];
  buf = (unsigned char *)fill(n);
  if (v_param3 == 0) for (int i = 0; i < n; i++) v_assume(buf[i] != 0);
  char *copy = malloc(n + 1); memcpy(copy, buf, n + 1);
  SourceFile *a = ohcount_sourcefile_new("f.x"), *b = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(a, L); ohcount_sourcefile_set_language(b, L);
  a->contents = (char *)buf; a->size = n;
  b->contents = copy; b->size = n;
  ohcount_sourcefile_parse_with_callback(a, cb, 0);
  if (nl) v_cover("lines"); if (nl > 2) v_cover("several lines");
  LocList *ll = ohcount_sourcefile_get_loc_list(b), *it = ll->head;
  ParsedLanguageList *pl = ohcount_sourcefile_get_parsed_language_list(b)->head;
  int nlang = 0;
  for (int i = 0; i < nl; i++) if (first(i)) {
    nlang++;
    v_assert(it && pl, "every language with a line is listed");
    if (!it || !pl) v_end_path();
    v_assert(!strcmp(it->loc->language, lang[i]) && !strcmp(pl->pl->name, lang[i]), "languages are listed in the order they first occur");
    v_assert(it->loc->code == count(lang[i], 0), "lines of code");
    v_assert(it->loc->comments == count(lang[i], 1), "lines of comments");
    v_assert(it->loc->blanks == count(lang[i], 2), "blank lines");
    v_assert(it->loc->filecount == 1, "one file");
    v_assert(pl->pl->code_count == count(lang[i], 0) && pl->pl->comments_count == count(lang[i], 1) && pl->pl->blanks_count == count(lang[i], 2), "the parsed language counts the same");
    if (v_param3 == 0) {
      v_assert(text_is(lang[i], 0, pl->pl->code), "the code ends with the last code line");
      v_assert(text_is(lang[i], 1, pl->pl->comments), "the comments end with the last comment line");
    }
    it = it->next; pl = pl->next;
  }
  if (nlang > 1) v_cover("several languages");
  v_assert(!it && !pl, "no language is listed that has no line, or twice");
  v_assert(ohcount_loc_list_total(ll) == nl, "the total is the number of lines");
  v_assert(ohcount_sourcefile_get_loc_list(b) == ll, "the list is made once");
  ohcount_sourcefile_free(a); ohcount_sourcefile_free(b);
  v_assert(v_heap_live() == 0, "all memory released");
}
