/* Native side of the harness interface: values come from the witness file named by V_WITNESS. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vh.h"
#define EXTERN_PARAM
int v_param, v_param2, v_param3, v_param4;
extern void V_ENTRY(void);
static struct { char name[120]; long long val; } wit[4096];
static int nwit = -1, asserted;
static long live;
static void load(void) {
  nwit = 0;
  const char *f = getenv("V_WITNESS");
  FILE *in = f ? fopen(f, "r") : NULL;
  if (!in) return;
  unsigned long long v;
  while (nwit < 4096 && fscanf(in, "%119s %llu", wit[nwit].name, &v) == 2) wit[nwit++].val = (long long)v;
  fclose(in);
}
static int find(const char *name, long long *v) {
  if (nwit < 0) load();
  for (int i = 0; i < nwit; i++)
    if (!strcmp(wit[i].name, name)) { *v = wit[i].val; return 1; }
  return 0;
}
void v_bytes(void *p, long n, const char *name) {
  for (long i = 0; i < n; i++) { char b[200]; long long v = 0; snprintf(b, sizeof b, "%s.%ld", name, i); find(b, &v); ((unsigned char *)p)[i] = v; }
}
void v_bytes_dom(void *p, long n, const char *name, const char *dom, long nd) {
  for (long i = 0; i < n; i++) { char b[200]; long long v = (unsigned char)dom[0]; snprintf(b, sizeof b, "%s.%ld", name, i); find(b, &v); ((unsigned char *)p)[i] = v; }
}
int v_i32(const char *name) { long long v = 0; find(name, &v); return (int)v; }
long v_i64(const char *name) { long long v = 0; find(name, &v); return (long)v; }
int v_range(const char *name, int lo, int hi) { char b[200]; long long v = 0; snprintf(b, sizeof b, "%s@%d:%d", name, lo, hi); find(b, &v); return lo + (int)v; }
void v_assume(int c) { if (!c) { fflush(stdout); fprintf(stderr, "VASSUME-FALSE\n"); _exit(55); } }
void v_assert(int c, const char *msg) { if (!c) { fflush(stdout); fprintf(stderr, "VASSERT %s\n", msg); asserted = 1; _exit(77); } }
void v_cover(const char *msg) { (void)msg; }
long v_conc(long x) { return x; }
void v_poison(void *p, long n) { memset(p, 0x5a, n); }
void v_end_path(void) { _exit(0); }
void v_print(const char *msg, long x) { fprintf(stderr, "%s %ld\n", msg, x); }
int v_is_concrete(long x) { (void)x; return 1; }
long v_obj_left(const void *p) { (void)p; return 1L << 40; }
long v_heap_live(void) { return live; }
/* heap accounting for the code under test (compiled with -Dmalloc=vn_malloc ...) */
void *vn_malloc(size_t n) { live++; return malloc(n); }
void *vn_calloc(size_t n, size_t m) { live++; return calloc(n, m); }
void *vn_realloc(void *p, size_t n) { if (!p) live++; return realloc(p, n); }
void vn_free(void *p) { if (p) live--; free(p); }
char *vn_strdup(const char *s) { live++; return strdup(s); }
char *vn_strndup(const char *s, size_t n) { live++; return strndup(s, n); }
char vout[1 << 16]; int vout_n;
static FILE *outf;
void v_out_begin(void) { fflush(stdout); if (!outf) { outf = tmpfile(); if (outf) dup2(fileno(outf), 1); } else { rewind(outf); if (ftruncate(fileno(outf), 0)) _exit(3); } }
void v_out_sync(void) { fflush(stdout); if (!outf) _exit(3); lseek(fileno(outf), 0, SEEK_SET); vout_n = (int)read(fileno(outf), vout, sizeof vout - 1); if (vout_n < 0) vout_n = 0; vout[vout_n] = 0; lseek(fileno(outf), vout_n, SEEK_SET); }
int main(void) {
  const char *e;
  if ((e = getenv("V_PARAM"))) v_param = atoi(e);
  if ((e = getenv("V_PARAM2"))) v_param2 = atoi(e);
  if ((e = getenv("V_PARAM3"))) v_param3 = atoi(e);
  if ((e = getenv("V_PARAM4"))) v_param4 = atoi(e);
  V_ENTRY();
  fflush(stdout);
  fprintf(stderr, "VDONE\n");
  return 0;
}
