/* C library model used in the symbolic execution (the native replay uses the real C library).
 * Comparisons and copies on symbolic data are branch-free so that one path covers every value. */
#include <stddef.h>
#include <stdarg.h>
#include "vh.h"
int v_param, v_param2, v_param3, v_param4;
#include "ctype_tab.h"
const unsigned short **__ctype_b_loc(void) { static const unsigned short *p; p = v_ctype_b + 128; return &p; }
const int **__ctype_tolower_loc(void) { static const int *p; p = v_tolower_tab + 128; return &p; }
const int **__ctype_toupper_loc(void) { static const int *p; p = v_toupper_tab + 128; return &p; }
int tolower(int c) { return v_tolower_tab[c + 128]; }
int toupper(int c) { return v_toupper_tab[c + 128]; }
#define CT(f, bit) int f(int c) { return v_ctype_b[c + 128] & (unsigned short)(bit); }
CT(isupper, 1 << 8) CT(islower, 1 << 9) CT(isalpha, 1 << 10) CT(isdigit, 1 << 11) CT(isxdigit, 1 << 12) CT(isspace, 1 << 13)
CT(isprint, 1 << 14) CT(isgraph, 1 << 15) CT(isblank, 1 << 0) CT(iscntrl, 1 << 1) CT(ispunct, 1 << 2) CT(isalnum, 1 << 3)
static int verrno; int *__errno_location(void) { return &verrno; }

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
/* first non-zero difference, computed without branching on symbolic data */
static int cmp_core(const char *a, const char *b, size_t n, int ci, int stopnul) {
  unsigned r = 0, done = 0;
  size_t i;
  long la = v_obj_left(a), lb = v_obj_left(b);
  for (i = 0; i < n; i++) {
    if ((long)i >= la || (long)i >= lb) { if (done) break; }   /* only unfinished comparisons read on */
    unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (ci) { x = v_tolower_tab[x + 128]; y = v_tolower_tab[y + 128]; }
    unsigned d = x - y;
    if (v_is_concrete(done) && v_is_concrete(d) && v_is_concrete(x)) {
      if (done) break;
      if (d) return (int)d;
      if (stopnul && !x) break;
      continue;
    }
    r |= d & (done - 1);
    done |= (unsigned)(d != 0) | (unsigned)(stopnul & (x == 0));
    if (v_is_concrete(done)) { if (done) break; }
    else if (v_is_concrete(y) && y == 0 && stopnul) break;     /* b ended: x==0 or d!=0, done is true */
    else if (v_is_concrete(x) && x == 0 && stopnul) break;
  }
  return (int)r;
}
int strcmp(const char *a, const char *b) { return cmp_core(a, b, (size_t)-1, 0, 1); }
int strncmp(const char *a, const char *b, size_t n) { return cmp_core(a, b, n, 0, 1); }
int strcasecmp(const char *a, const char *b) { return cmp_core(a, b, (size_t)-1, 1, 1); }
int strncasecmp(const char *a, const char *b, size_t n) { return cmp_core(a, b, n, 1, 1); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int memcmp(const void *a, const void *b, size_t n) { return cmp_core(a, b, n, 0, 0); }
int bcmp(const void *a, const void *b, size_t n) { return cmp_core(a, b, n, 0, 0); }
char *strncpy(char *d, const char *s, size_t n) {
  unsigned char done = 0; size_t i; long ls = v_obj_left(s);
  for (i = 0; i < n; i++) {
    if (v_is_concrete(done) ) { if (done) { d[i] = 0; continue; } }
    else if ((long)i >= ls) { if (done) { for (; i < n; i++) d[i] = 0; return d; } }
    unsigned char c = (unsigned char)s[i];
    d[i] = (char)(c & (unsigned char)(done - 1));
    done |= (unsigned char)(c == 0);
  }
  return d;
}
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i; for (i = 0; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strchrnul(const char *s, int c) { for (;; s++) if (!*s || *s == (char)c) return (char *)s; }
char *strrchr(const char *s, int c) { size_t n = strlen(s) + 1; while (n--) if (s[n] == (char)c) return (char *)s + n; return 0; }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (cmp_core(h, n, l, 0, 1) == 0) return (char *)h; return 0; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (cmp_core(h, n, l, 1, 1) == 0) return (char *)h; return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) { if (*p == (unsigned char)c) return (void *)p; p++; } return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { size_t i; for (i = 0; i + nl <= hl; i++) if (memcmp((const char *)h + i, n, nl) == 0) return (char *)h + i; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void *malloc(size_t); void *calloc(size_t, size_t); void free(void *);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
void *reallocarray(void *p, size_t a, size_t b); 
void *memcpy(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return d; }
void *memmove(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return d; }
void *mempcpy(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return (char *)d + n; }
void *memset(void *d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
void bzero(void *d, size_t n) { __builtin_memset(d, 0, n); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long strtol(const char *s, char **e, int b) { long r = 0; int neg = 0; const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; if (*p == '-' || *p == '+') neg = *p++ == '-'; if (!b) b = 10; while (*p >= '0' && *p <= '9') r = r * b + (*p++ - '0'); if (e) *e = (char *)p; return neg ? -r : r; }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
void exit(int c) { (void)c; v_end_path(); }
void _exit(int c) { (void)c; v_end_path(); }
char *getenv(const char *n) { (void)n; return 0; }
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) {
  char *p = b; size_t i, j, k;
  for (i = 1; i < n; i++) for (j = i; j > 0 && c(p + (j - 1) * w, p + j * w) > 0; j--) for (k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
/* ---- formatted output: text goes to a buffer the harness may inspect (vout), numbers must be concrete */
char vout[1 << 16]; int vout_n;
void v_out_begin(void) { vout_n = 0; }
void v_out_sync(void) { vout[vout_n] = 0; }
static int vfmt(char *d, size_t cap, const char *f, va_list ap) {
  size_t n = 0;
#define PUT(c) do { if (n + 1 < cap) d[n] = (c); n++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++;
    int left = 0, zero = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng = 1; f++; }
    char tmp[40]; const char *s = tmp; int len = 0, neg = 0;
    if (*f == 's') { s = va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || len < prec) && s[len]) len++; }
    else if (*f == 'c') { tmp[0] = (char)va_arg(ap, int); len = 1; }
    else if (*f == '%') { tmp[0] = '%'; len = 1; }
    else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'p') {
      unsigned long u; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
      if (*f == 'd' || *f == 'i') { long v = lng ? va_arg(ap, long) : va_arg(ap, int); v = v_conc(v); neg = v < 0; u = neg ? -(unsigned long)v : (unsigned long)v; }
      else { u = (lng || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); u = v_conc(u); }
      char r[40]; int k = 0; do { unsigned g = u % base; r[k++] = "0123456789abcdef"[g]; u /= base; } while (u);
      if (neg) tmp[len++] = '-'; while (k) tmp[len++] = r[--k];
    } else if (*f == 'f' || *f == 'g' || *f == 'e') {
      double v = va_arg(ap, double); if (prec < 0) prec = 6;
      if (v < 0) { tmp[len++] = '-'; v = -v; }
      double sc = 1; for (int i = 0; i < prec; i++) sc *= 10; unsigned long u = (unsigned long)(v * sc + 0.5), ip = u / (unsigned long)sc, fp = u % (unsigned long)sc;
      char r[24]; int k = 0; do { r[k++] = '0' + ip % 10; ip /= 10; } while (ip); while (k) tmp[len++] = r[--k];
      if (prec) { tmp[len++] = '.'; for (int i = prec - 1; i >= 0; i--) { r[i] = '0' + fp % 10; fp /= 10; } for (int i = 0; i < prec; i++) tmp[len++] = r[i]; }
    }
    int pad = width - len;
    if (!left) { char pc = zero && *f != 's' ? '0' : ' '; while (pad-- > 0) PUT(pc); }
    for (int i = 0; i < len; i++) PUT(s[i]);
    if (left) while (pad-- > 0) PUT(' ');
  }
  if (cap) d[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int vsnprintf(char *d, size_t c, const char *f, va_list ap) { return vfmt(d, c, f, ap); }
int vsprintf(char *d, const char *f, va_list ap) { return vfmt(d, (size_t)1 << 40, f, ap); }
int snprintf(char *d, size_t c, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfmt(d, c, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfmt(d, (size_t)1 << 40, f, ap); va_end(ap); return r; }
static int vemit(const char *f, va_list ap) { int r = vfmt(vout + vout_n, sizeof vout - vout_n, f, ap); vout_n += r; return r; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vemit(f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vemit(f, ap); }
int putchar(int c) { vout[vout_n++] = (char)c; return c; }
int puts(const char *s) { return printf("%s\n", s); }
void *stdout = (void *)1, *stderr = (void *)2, *stdin = (void *)3;
int fprintf(void *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = 0; if (fp == stdout) r = vemit(f, ap); va_end(ap); return r; }
int fputs(const char *s, void *fp) { if (!fp) *(volatile int *)fp = 0; if (fp == stdout) printf("%s", s); return 1; }
int fputc(int c, void *fp) { if (fp == stdout) putchar(c); return c; }
int putc(int c, void *fp) { return fputc(c, fp); }
size_t fwrite(const void *p, size_t a, size_t b, void *fp) { if (fp == stdout) for (size_t i = 0; i < a * b; i++) putchar(((const char *)p)[i]); return b; }
int fflush(void *fp) { return 0; }
