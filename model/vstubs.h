/* A link's data is its target's path (NULL: some regular file), a directory of negative size cannot be read.
   The environment model: an in-memory file system and nondeterministic libmagic / PCRE, used by both executions. */
#ifndef VSTUBS_H
#define VSTUBS_H
enum { VS_REG, VS_DIR, VS_LINK, VS_FIFO };
struct vs_node { const char *path; int type; const char *data; long size; };
extern struct vs_node vs_nodes[64];
extern int vs_nnodes;
extern int vs_dtype_unknown, vs_dir_order; /* readdir gives no types; gives the entries backwards */
extern int vs_writable;              /* may files be opened for writing? */
extern const char *vs_magic_answer;  /* what libmagic says; NULL = error */
extern int vs_magic_open_n, vs_opened, vs_closed, vs_dir_opened, vs_dir_closed, vs_fopen_n, vs_pcre_live;
extern int (*vs_pcre_hook)(const char *pattern, const char *subject, int len, int options, int *ov, int novec);
void vs_add(const char *path, int type, const char *data, long size);
struct vs_tmp { char path[80]; char *data; long size; int open, unlinked; };
extern struct vs_tmp vs_tmps[4];     /* what mkstemp made */
extern int vs_ntmps, vs_popen_n, vs_pclose_n;
extern const char *vs_popen_text;    /* what a command prints; NULL = popen fails */
extern char vs_popen_cmd[1024];
#endif
