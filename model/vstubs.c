#include <stddef.h>
#include <string.h>
#include <dirent.h>
#include <sys/stat.h>
#include <stdlib.h>
#include <stdarg.h>
#include "vh.h"
#include "vstubs.h"
struct vs_node vs_nodes[64];
int vs_nnodes, vs_writable = 1;
const char *vs_magic_answer = "data";
int vs_magic_open_n, vs_opened, vs_closed, vs_dir_opened, vs_dir_closed, vs_fopen_n, vs_pcre_live;
int (*vs_pcre_hook)(const char *, const char *, int, int, int *, int);
void vs_add(const char *path, int type, const char *data, long size) {
  vs_nodes[vs_nnodes].path = path; vs_nodes[vs_nnodes].type = type; vs_nodes[vs_nnodes].data = data; vs_nodes[vs_nnodes].size = size; vs_nnodes++;
}
int vs_dtype_unknown, vs_dir_order;
static int find(const char *path) {
  for (int i = 0; i < vs_nnodes; i++) if (!strcmp(vs_nodes[i].path, path)) return i;
  return -1;
}
/* the node a path means once links (data: the target's path) are followed, in the last component only if last */
static int resolve(const char *path, int last) {
  char t[600], u[600]; int again = 1, depth = 0;
  if (strlen(path) > 250) return find(path);
  strcpy(t, path);
  while (again && depth++ < 4) {
    again = 0;
    for (int i = 0; i < vs_nnodes && !again; i++) if (vs_nodes[i].type == VS_LINK && vs_nodes[i].data) {
      long n = strlen(vs_nodes[i].path);
      if (strncmp(t, vs_nodes[i].path, n) || !(t[n] == '/' || (last && !t[n]))) continue;
      strcpy(u, vs_nodes[i].data); strcat(u, t + n); strcpy(t, u); again = 1;
    }
  }
  return find(t);
}
/* ---- files */
struct vs_file { int used, node; long pos; };
static struct vs_file files[32];
void *vs_fopen(const char *path, const char *mode) {
  int i, k = resolve(path, 1);
  if (mode[0] == 'r') { if (k < 0 || vs_nodes[k].type != VS_REG) return 0; }
  else if (!vs_writable) return 0;
  vs_fopen_n++;
  for (i = 0; i < 32 && files[i].used; i++) ;
  if (i == 32) return 0;
  files[i].used = 1; files[i].node = mode[0] == 'r' ? k : -1; files[i].pos = 0; vs_opened++;
  return &files[i];
}
int vs_fclose(void *f) { struct vs_file *p = f; v_assert(p && p->used, "a stream is closed exactly once"); p->used = 0; vs_closed++; return 0; }
size_t vs_fread(void *d, size_t sz, size_t n, void *f) {
  struct vs_file *p = f;
  if (p->node < 0 || sz == 0 || n == 0) return 0;
  long left = vs_nodes[p->node].size - p->pos, want = (long)(sz * n), got = left < want ? left : want;
  if (got < 0) got = 0;
  memcpy(d, vs_nodes[p->node].data + p->pos, got);
  p->pos += got;
  return got / sz;
}
int vs_fseek(void *f, long o, int w) { struct vs_file *p = f; p->pos = (w == 2 ? (p->node >= 0 ? vs_nodes[p->node].size : 0) : w == 1 ? p->pos : 0) + o; return 0; }
long vs_ftell(void *f) { return ((struct vs_file *)f)->pos; }
void vs_rewind(void *f) { ((struct vs_file *)f)->pos = 0; }
int vs_feof(void *f) { struct vs_file *p = f; return p->node < 0 || p->pos >= vs_nodes[p->node].size; }
char *vs_fgets(char *d, int n, void *f) {
  struct vs_file *p = f; int i = 0;
  if (p->node < 0) return 0;
  while (i < n - 1 && p->pos < vs_nodes[p->node].size) { char c = vs_nodes[p->node].data[p->pos++]; d[i++] = c; if (c == '\n') break; }
  if (!i) return 0;
  d[i] = 0; return d;
}
/* ---- directories */
struct vs_dir { int used, node, next; };
static struct vs_dir dirs[16];
static struct dirent ent[16];
void *vs_opendir(const char *path) {
  int i, k; char t[5000]; long n = strlen(path);
  strcpy(t, path);
  while (n > 1 && t[n - 1] == '/') t[--n] = 0;
  k = resolve(t, 1);
  if (k < 0 || vs_nodes[k].type != VS_DIR || vs_nodes[k].size < 0) return 0;
  for (i = 0; i < 16 && dirs[i].used; i++) ;
  if (i == 16) return 0;
  dirs[i].used = 1; dirs[i].node = k; dirs[i].next = 0; vs_dir_opened++;
  return &dirs[i];
}
struct dirent *vs_readdir(void *d) {
  struct vs_dir *p = d; struct dirent *e = &ent[p - dirs];
  for (; p->next < vs_nnodes + 2; p->next++) {
    int i = vs_dir_order ? vs_nnodes - 1 - p->next : p->next - 2;
    if (i < 0) { strcpy(e->d_name, i == -2 ? "." : ".."); e->d_type = DT_DIR; }
    else {
      const char *dir = vs_nodes[p->node].path, *q = vs_nodes[i].path; long n = strlen(dir);
      if (strncmp(q, dir, n) || q[n] != '/' || strchr(q + n + 1, '/') || !q[n + 1]) continue;
      strcpy(e->d_name, q + n + 1);
      e->d_type = vs_nodes[i].type == VS_DIR ? DT_DIR : vs_nodes[i].type == VS_LINK ? DT_LNK : vs_nodes[i].type == VS_FIFO ? DT_FIFO : DT_REG;
    }
    if (vs_dtype_unknown) e->d_type = DT_UNKNOWN;
    p->next++;
    return e;
  }
  return 0;
}
int vs_closedir(void *d) { struct vs_dir *p = d; v_assert(p && p->used, "a directory handle is closed exactly once"); p->used = 0; vs_dir_closed++; return 0; }
static int st_of(const char *path, struct stat *st, int follow) {
  char t[5000]; long n = strlen(path); strcpy(t, path);
  int k;
  /* dir/. and dir/.. are directories whenever dir is */
  if (n >= 2 && t[n - 1] == '.' && (t[n - 2] == '/' || (n >= 3 && t[n - 2] == '.' && t[n - 3] == '/'))) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
  k = resolve(t, follow);
  if (k < 0) return -1;
  memset(st, 0, sizeof *st);
  int ty = vs_nodes[k].type;
  st->st_size = vs_nodes[k].size;
  st->st_mode = (ty == VS_DIR ? S_IFDIR : ty == VS_LINK ? (follow && !vs_nodes[k].data ? S_IFREG : S_IFLNK) : ty == VS_FIFO ? S_IFIFO : S_IFREG) | 0644;
  return 0;
}
int vs_lstat(const char *path, struct stat *st) { return st_of(path, st, 0); }
int vs_stat(const char *path, struct stat *st) { return st_of(path, st, 1); }
int vs_fstat(int fd, struct stat *st) { return -1; }
int vs_access(const char *p, int m) { return resolve(p, 1) >= 0 ? 0 : -1; }
int vs_open(const char *p, int m, ...) { return -1; }
struct vs_tmp vs_tmps[4];
int vs_ntmps, vs_popen_n, vs_pclose_n;
const char *vs_popen_text;
char vs_popen_cmd[1024];
static struct vs_tmp *tmp_of(int fd) { v_assert(fd >= 100 && fd < 100 + vs_ntmps && vs_tmps[fd - 100].open, "the descriptor is open"); return &vs_tmps[fd - 100]; }
int vs_close(int fd) { tmp_of(fd)->open = 0; return 0; }
long vs_read(int fd, void *d, size_t n) { return -1; }
long vs_write(int fd, const void *d, size_t n) {
  struct vs_tmp *t = tmp_of(fd);
  char *q = malloc(t->size + n + 1);
  if (t->size) memcpy(q, t->data, t->size);
  memcpy(q + t->size, d, n);
  if (t->data) free(t->data);
  t->data = q; t->size += n; q[t->size] = 0;
  return (long)n;
}
int vs_unlink(const char *p) { for (int i = 0; i < vs_ntmps; i++) if (!strcmp(vs_tmps[i].path, p)) { vs_tmps[i].unlinked++; return 0; } return -1; }
int vs_mkstemp(char *t) {
  if (vs_ntmps == 4) return -1;
  struct vs_tmp *m = &vs_tmps[vs_ntmps];
  long n = strlen(t);
  t[n - 1] = (char)('0' + vs_ntmps);
  if (n >= 80) return -1;
  strcpy(m->path, t); m->open = 1;
  return 100 + vs_ntmps++;
}
void *vs_popen(const char *c, const char *m) {
  if (strlen(c) < sizeof vs_popen_cmd) strcpy(vs_popen_cmd, c);
  if (!vs_popen_text) return 0;
  int i;
  for (i = 0; i < 32 && files[i].used; i++) ;
  if (i == 32) return 0;
  vs_nodes[63].path = ""; vs_nodes[63].type = VS_FIFO; vs_nodes[63].data = vs_popen_text; vs_nodes[63].size = strlen(vs_popen_text);
  files[i].used = 1; files[i].node = 63; files[i].pos = 0; vs_popen_n++;
  return &files[i];
}
int vs_pclose(void *f) { struct vs_file *p = f; v_assert(p && p->used && p->node == 63, "a pipe is closed exactly once"); p->used = 0; vs_pclose_n++; return 0; }
/* ---- libmagic */
static int cookie_mem;
void *vs_magic_open(int f) { vs_magic_open_n++; return &cookie_mem; }
void vs_magic_close(void *c) { vs_magic_open_n--; }
const char *vs_magic_error(void *c) { return "error"; }
int vs_magic_load(void *c, const char *f) { return 0; }
const char *vs_magic_file(void *c, const char *p) { return vs_magic_answer; }
const char *vs_magic_buffer(void *c, const void *p, size_t n) { return vs_magic_answer; }
/* ---- PCRE: the answer is the harness's */
struct vs_re { const char *pattern; int options; };
static struct vs_re res[256];
static int nres;
void *vs_pcre_compile(const char *pat, int opt, const char **err, int *off, const unsigned char *tab) {
  int i;
  for (i = 0; i < nres; i++) if (res[i].pattern == pat || !strcmp(res[i].pattern, pat)) return &res[i];
  if (nres == 256) return 0;
  res[nres].pattern = pat; res[nres].options = opt;
  return &res[nres++];
}
int vs_pcre_exec(const void *re, const void *extra, const char *s, int len, int start, int opt, int *ov, int n) {
  const struct vs_re *r = re;
  if (!r) return -2;
  if (!vs_pcre_hook) return -1;
  return vs_pcre_hook(r->pattern, s, len, r->options | opt, ov, n);
}
int vs_pcre_fullinfo(const void *re, const void *x, int w, void *p) { return -1; }
static void v_free(void *p) { (void)p; }
void (*pcre_free)(void *) = v_free;
void (*vs_pcre_free)(void *) = v_free;
