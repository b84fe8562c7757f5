/* Helpers shared by the harnesses. */
#ifndef HX_H
#define HX_H
#include <string.h>
#include <stdlib.h>
#include "sx.h"
extern int jbo_main(int, char **) __attribute__((weak));
#ifndef HX_MAXTXT
#define HX_MAXTXT 4096
#endif
static char hx_txt[HX_MAXTXT]; static int hx_n;
static inline void hx_c(int c) { hx_txt[hx_n++] = c; }
static inline void hx_s(const char *s) { while (*s) hx_txt[hx_n++] = *s++; }
/* append word number v of a table of equally wide (space padded) words: the
 * text stays symbolic, one byte variable decides the whole word */
#define HX_W 48
typedef char hx_word[HX_W];
static inline int hx_width(hx_word *t, int k) { int i, w = 0; for (i = 0; i < k; i++) { int l = strlen(t[i]); if (l > w) w = l; } return w; }
/* words are padded with leading spaces so that a position after the slot is a
 * word boundary either way */
static void hx_put(hx_word *t, int k, int v) {
  static char pad[256][HX_W]; int i, j, w = hx_width(t, k);
  for (i = 0; i < k; i++) { int l = strlen(t[i]); for (j = 0; j < w - l; j++) pad[i][j] = ' '; for (; j < w; j++) pad[i][j] = t[i][j - (w - l)]; }
  for (j = 0; j < w; j++) hx_c(pad[v][j]);
}
static int hx_slot(const char *name, hx_word *t, int k) { int v = sx_choice(name, k); hx_put(t, k, v); hx_c(' '); return v; }
static char *hx_argv[16]; static int hx_argc;
static void hx_opt(char *o) { if (!hx_argc) hx_argv[hx_argc++] = "prog"; if (o) hx_argv[hx_argc++] = o; }
static int hx_run(void) { hx_opt(0); hx_argv[hx_argc] = 0; sx_stdin(hx_txt, hx_n); return jbo_main(hx_argc, hx_argv); }
/* first position >= from where s occurs in b[0..n), or -1 */
static int hx_find(const char *b, int n, int from, const char *s) {
  int i, j, l = strlen(s); for (i = from; i + l <= n; i++) { for (j = 0; j < l && b[i + j] == s[j]; j++) ; if (j == l) return i; } return -1; }
static int hx_count(const char *b, int n, const char *s) { int c = 0, p = 0; while ((p = hx_find(b, n, p, s)) >= 0) c++, p++; return c; }
/* branch-free comparison */
static int hx_eq(const char *a, const char *b, int n) { int ok = 1, i; for (i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }
#endif
