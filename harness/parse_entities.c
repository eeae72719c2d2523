/* Entity listing through the public API: any content of exactly v_param2 bytes in language v_param. */
#include "vh.h"
#include "vstubs.h"
#include <string.h>
#include <stdlib.h>
#include "sourcefile.h"
#include "v_langs.h"
#include "fill.h"
static int n, last_end, m;
static unsigned char *buf;
static void cb(const char *lang, const char *ent, int s, int e, void *u) {
  v_cover("entity reported");
  if (m == 0) v_assert(s >= 0 && e <= n && s < e, "entity inside the file and not empty");
  if (s < 0 || e > n || s >= e) v_end_path();
  if (m == 1) {
    v_assert(s >= last_end, "entities in order and disjoint");
    v_assert(strcmp(ent, "lcode") && strcmp(ent, "lcomment") && strcmp(ent, "lblank"), "entity names, not line kinds");
    v_assert(u == &n, "user data passed through");
  }
  last_end = e;
}
void h_entities(void) {
  n = fill_size(); m = v_param3;
  SourceFile *sf = ohcount_sourcefile_new("f.x");
  ohcount_sourcefile_set_language(sf, V_LANGS[fill_lang()]);
  buf = (unsigned char *)fill(n);
  sf->contents = (char *)buf; sf->size = n;
  ohcount_sourcefile_parse_entities_with_callback(sf, cb, &n);
  ohcount_sourcefile_free(sf);
  if (m == 0) v_assert(v_heap_live() == 0, "all memory released");
}
