/* File contents for the parser harnesses: v_param2 >= 0: that many arbitrary bytes; v_param2 < 0: template -v_param2-1 with symbolic holes. */
#include "v_tmpl.h"
static const struct vtmpl *tm;
static int fill_size(void) { if (v_param2 >= 0) return v_param2; tm = &VTMPL[-v_param2 - 1]; return tm->n; }
static int fill_lang(void) { return v_param2 >= 0 ? v_param : VTMPL[-v_param2 - 1].lang; }
static char *fill(int n) {
  unsigned char *buf = malloc(n + 1);
  if (!tm) v_bytes(buf, n, "b");
  else {
    int holes = 0;
    for (int i = 0; i < n; i++) holes += (unsigned char)tm->text[i] < 6;
    unsigned char *h = malloc(holes + 1); int k = 0;
    v_bytes(h, holes, "b");
    for (int i = 0; i < n; i++) {
      unsigned char t = tm->text[i];
      if (t >= 6) { buf[i] = t; continue; }
      unsigned char c = h[k++]; unsigned ok = 1;
      if (t == 2) ok = (unsigned)(c != '\n') & (unsigned)(c != '\r') & (unsigned)(c != '\f') & (unsigned)(c != 0);
      if (t == 3) ok = (unsigned)(c >= 'a') & (unsigned)(c <= 'z');
      if (t == 4) ok = (unsigned)(c == ' ') | (unsigned)(c == '\t');
      if (t == 5) ok = (unsigned)(c == ' ') | (unsigned)(c == '\n') | (unsigned)(c == 'a');
      v_assume(ok);
      buf[i] = c;
    }
    free(h);
  }
  buf[n] = 0;
  return (char *)buf;
}
