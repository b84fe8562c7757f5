/* Two texts that mean the same are analysed the same: a template builds both
 * from the same symbolic choices; two copies of the program run on them. */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **);
static char ta[2048], tb[2048], out1[16384]; static int na, nb, len1, rc1, stage;
static void put(char *t, int *n, const char *s) { while (*s) t[(*n)++] = *s++; }
static void slot(hx_word *A, hx_word *B, int k) { int v = sx_choice("slot", k); hx_put(A, k, v); put(ta, &na, (hx_txt[hx_n] = 0, hx_txt)); hx_n = 0; hx_put(B, k, v); put(tb, &nb, (hx_txt[hx_n] = 0, hx_txt)); hx_n = 0; }
#define A(s) put(ta, &na, s);
#define B(s) put(tb, &nb, s);
#define BOTH(s) A(s) B(s)
#define CH(set) { int c = sx_pick("c", set); ta[na++] = tb[nb++] = c; }
#define UPA(set) { int c = sx_pick("c", set), u = sx_flag("capital"); ta[na++] = c - 32 * u; tb[nb++] = c; }   /* a capital in the first text */
#define ROWS(...) { static struct { hx_word a, b; } R[] = { __VA_ARGS__ }; static hx_word X[128], Y[128]; int i_, k_ = sizeof R / sizeof *R; for (i_ = 0; i_ < k_; i_++) { memcpy(X[i_], R[i_].a, HX_W); memcpy(Y[i_], R[i_].b, HX_W); } slot(X, Y, k_); }
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; slot(T, T, sizeof T / sizeof *T); BOTH(" ") }
#ifndef MUST
#define MUST 0
#endif
#ifdef OPT1
#define AC 2
#else
#define AC 1
#define OPT1 0
#endif
static void fold(char *o, int n) {
#ifdef FOLD
  int i; for (i = 0; i < n; i++) { int c = o[i], u = (c >= 'A') & (c <= 'Z'); o[i] = c + 32 * u; }
#endif
}
int sx_main(void) {
  static char *av[] = { "jbofihe", OPT1, 0 }; int rc2;
  TEMPLATE
  sx_stdin(ta, na); rc1 = one_main(AC, av);
  stage = 1; len1 = sx_outlen; sx_assert(len1 < (int)sizeof out1, "(harness) output size"); memcpy(out1, sx_out, len1); sx_outlen = sx_errlen = 0;
  if (MUST) sx_assert(rc1 == 0, "the text is accepted");
  sx_observe(rc1); sx_observe(len1);
  sx_stdin(tb, nb); rc2 = two_main(AC, av);
  if (rc1 == 0) sx_reach("accepted"); else sx_reach("rejected");
  sx_assert((rc1 == 0) == (rc2 == 0), "both ways to write the text are accepted, or both rejected");
  sx_assert(len1 == sx_outlen, "both ways to write the text give the same analysis (length)");
  fold(out1, len1); fold(sx_out, len1);
  sx_assert(hx_eq(out1, sx_out, len1), "both ways to write the text give the same analysis");
  sx_done();
}
void sx_on_exit(int code) { }
