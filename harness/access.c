/* What a SourceFile answers does not depend on what it was asked before. v_param: number of characters, v_param2: where the contents are (0 disk, 1 disk path, 2 memory), v_param3: first thing asked, v_param4: number of things asked. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "licenses.h"
#include "languages.h"
enum { CONTENTS, SIZE, LANGUAGE, PARSED, LOCS, LICENCES, ENTITIES, LINES, DIFF, DIFFED, NOPS };
static const char *NAMES[] = {"f.h", "f.c", "f.rb"};
static int n;
static char *text;
static struct ans { int n, s[16], e[16]; const char *k[16], *l[16]; } base[2], now;
static void cb(const char *lang, const char *ent, int s, int e, void *u) {
  struct ans *a = u;
  if (a->n == 16) v_end_path();
  a->l[a->n] = lang; a->k[a->n] = ent; a->s[a->n] = s; a->e[a->n] = e; a->n++;
}
static void same(struct ans *b) {
  v_assert(now.n == b->n, "as many lines or entities as of a new file");
  if (now.n != b->n) v_end_path();
  for (int i = 0; i < b->n; i++)
    v_assert(now.s[i] == b->s[i] && now.e[i] == b->e[i] && !strcmp(now.k[i], b->k[i]) && !strcmp(now.l[i], b->l[i]), "the same lines and entities as of a new file");
}
static int hook(const char *p, const char *s, int l, int o, int *ov, int k) { return -1; }
static SourceFile *file(const char *name) {
  SourceFile *sf = ohcount_sourcefile_new(v_param2 == 1 ? name + 2 : name);
  if (v_param2 == 1) ohcount_sourcefile_set_diskpath(sf, name);
  if (v_param2 == 2) ohcount_sourcefile_set_contents(sf, text);
  return sf;
}
static const char *lang; static LocList *bl;
static int sum(LocDeltaList *l) { int r = 0; for (LocDeltaList *i = l->head; i; i = i->next) r += i->delta->code_added + i->delta->code_removed + i->delta->comments_added + i->delta->comments_removed + i->delta->blanks_added + i->delta->blanks_removed; return r; }
static void ask(SourceFile *sf, SourceFile *other, int what) {
  now.n = 0;
  if (what == CONTENTS) {
    char *c = ohcount_sourcefile_get_contents(sf);
    v_cover("contents");
    v_assert(c || !n, "the contents are available");
    if (!c) return;
    unsigned ok = 1;
    for (int i = 0; i < n; i++) ok &= (unsigned)(c[i] == text[i]);
    v_assert(ok & (unsigned)(c[n] == 0), "the contents are the file's");
  }
  if (what == SIZE) v_assert(ohcount_sourcefile_get_contents_size(sf) == n, "the size is the file's");
  if (what == LANGUAGE) { const char *l = ohcount_sourcefile_get_language(sf); v_assert(l == lang || (l && lang && !strcmp(l, lang)), "the language is that of a new file"); }
  if (what == PARSED || what == LOCS) {
    ParsedLanguageList *p = ohcount_sourcefile_get_parsed_language_list(sf)->head;
    LocList *a = what == LOCS ? ohcount_sourcefile_get_loc_list(sf)->head : 0;
    for (LocList *b = bl->head; b; b = b->next) {
      v_cover("languages");
      v_assert(p && (what == PARSED || a), "as many languages as of a new file");
      if (!p || (what == LOCS && !a)) v_end_path();
      v_assert(!strcmp(p->pl->name, b->loc->language) && p->pl->code_count == b->loc->code && p->pl->comments_count == b->loc->comments && p->pl->blanks_count == b->loc->blanks, "parsed languages as of a new file");
      if (a) { v_assert(!strcmp(a->loc->language, b->loc->language) && a->loc->code == b->loc->code && a->loc->comments == b->loc->comments && a->loc->blanks == b->loc->blanks && a->loc->filecount == 1, "counts as of a new file"); a = a->next; }
      p = p->next;
    }
    v_assert(!p && !a, "no more languages than of a new file");
  }
  if (what == LICENCES) v_assert(!ohcount_sourcefile_get_license_list(sf)->head, "no licence");
  if (what == ENTITIES) { ohcount_sourcefile_parse_entities_with_callback(sf, cb, &now); same(&base[1]); }
  if (what == LINES) { ohcount_sourcefile_parse_with_callback(sf, cb, &now); same(&base[0]); }
  if (what == DIFF || what == DIFFED) {
    LocDeltaList *d = what == DIFF ? ohcount_sourcefile_diff(sf, other) : ohcount_sourcefile_diff(other, sf);
    v_assert(sum(d) == 0, "a file does not differ from one with the same contents");
    ohcount_loc_delta_list_free(d);
  }
}
void h_access(void) {
  n = v_param;
  text = malloc(n + 1);
  v_bytes_dom(text, n, "b", "a\n/*#", 5); text[n] = 0;
  char path[16] = "d/";
  strcat(path, NAMES[v_choose("name", 3)]);
  if (v_param2 < 2) vs_add(path, VS_REG, text, n);
  vs_add("d", VS_DIR, "", 0);
  vs_pcre_hook = hook;
  SourceFile *a = file(path), *b = file(path), *c = file(path), *d = file(path), *other = file(path), *sf = file(path);
  ohcount_sourcefile_parse_with_callback(a, cb, &base[0]);
  ohcount_sourcefile_parse_entities_with_callback(b, cb, &base[1]);
  bl = ohcount_sourcefile_get_loc_list(c);
  lang = ohcount_sourcefile_get_language(d);
  ask(sf, other, v_param3);
  for (int i = 1; i < v_param4; i++) ask(sf, other, v_choose("asked", NOPS));
  ohcount_sourcefile_free(a); ohcount_sourcefile_free(b); ohcount_sourcefile_free(c); ohcount_sourcefile_free(d); ohcount_sourcefile_free(other); ohcount_sourcefile_free(sf);
  v_assert(vs_opened == vs_closed && vs_dir_opened == vs_dir_closed, "every file opened is closed");
  v_assert(v_heap_live() == 1, "all memory released");
}
