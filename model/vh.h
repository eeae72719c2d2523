/* Interface between a harness and its two executions: symbolic (osym implements the v_ functions) and native replay
 * (vnative.c implements them by reading a witness).  Harnesses are compiled unchanged for both. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
void v_bytes(void *p, long n, const char *name);                                   /* n arbitrary bytes */
void v_bytes_dom(void *p, long n, const char *name, const char *dom, long ndom);   /* n bytes from a set */
int v_i32(const char *name);
long v_i64(const char *name);
int v_range(const char *name, int lo, int hi);                                     /* arbitrary int in [lo,hi], hi-lo<=255 */
void v_assume(int c);
void v_assert(int c, const char *msg);
void v_cover(const char *msg);                                                     /* reachability witness */
long v_conc(long x);                                                               /* split on every feasible value */
long v_heap_live(void);                                                            /* live heap blocks */
void v_poison(void *p, long n);                                                    /* make memory uninitialised */
void v_end_path(void);
void v_print(const char *msg, long x);
int v_is_concrete(long x);
long v_obj_left(const void *p);                                                    /* readable bytes at p */
extern char vout[1 << 16]; extern int vout_n;                                      /* what was printed, after v_out_sync */
void v_out_begin(void); void v_out_sync(void);
extern int v_param, v_param2, v_param3, v_param4;                                  /* set by the driver, concrete */
/* pick one of k alternatives, concretely */
#define v_choose(name, k) ((int)v_conc(v_range(name, 0, (k)-1)))
#endif
