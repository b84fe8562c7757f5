/* No input makes a program crash: every run ends with exit status 0 or with
 * an error message, and every access to memory on the way is to an object
 * that exists (checked by the engine on every instruction). */
#define HX_MAXTXT 65536
#include "hx.h"
#include "dict.h"
static int ended;
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; hx_slot("slot", T, sizeof T / sizeof *T); }
#define TEXT(s) hx_s(s);
#define CH(set) hx_c(sx_pick("c", set));
#define ANY hx_c(sx_byte("byte"));
/* a piece of text repeated a chosen number of times */
#define REP(sep, ...) { static char *P[] = { __VA_ARGS__ }; static int N[] = { COUNTS }; int p = sx_concretize(sx_choice("piece", sizeof P / sizeof *P)), n = N[sx_concretize(sx_choice("count", sizeof N / sizeof *N))], k; for (k = 0; k < n; k++) { if (k) hx_s(sep); hx_s(P[p]); } }
/* a word of a chosen length: head + n times a piece + tail */
#define ONEOF(...) { static char *P[] = { __VA_ARGS__ }; hx_s(P[sx_concretize(sx_choice("piece", sizeof P / sizeof *P))]); }
#ifndef COUNTS
#define COUNTS 1, 2, 22, 70
#endif
#ifndef OPTS
#define OPTS "-x"
#endif
int sx_main(void) {
  static char *O[] = { OPTS }; static char opt[64]; static char *av[128]; int ac = 1, o = sx_concretize(sx_choice("options", sizeof O / sizeof *O)), r; char *p;
  av[0] = "prog"; strcpy(opt, O[o]);
  for (p = opt; *p; ) { while (*p == ' ') *p++ = 0; if (*p) av[ac++] = p; while (*p && *p != ' ') p++; }
#ifdef ARGS
  { static char a[ARGS][8]; int i, k; for (k = 0; k < ARGS; k++) { int l = sx_concretize(sx_choice("length", 5)); for (i = 0; i < l; i++) a[k][i] = sx_pick("a", ARGSET); a[k][l] = 0; av[ac++] = a[k]; } }
#endif
#ifdef WORDARGS /* a number of component words given as arguments */
  { static char *W[] = { WORDARGS }; static int N[] = { COUNTS }; int w = sx_concretize(sx_choice("word", sizeof W / sizeof *W)), n = N[sx_concretize(sx_choice("count", sizeof N / sizeof *N))], k; for (k = 0; k < n; k++) av[ac++] = W[w]; }
#endif
#ifdef DICT
  { static Dent D[] = { DICT }; int n = sizeof D / sizeof *D; dict_make(D, n);
#ifdef DIGITS /* the character '0' in a gloss stands for any digit */
    { int k; char *p; for (k = 0; k < n; k++) for (p = dict_val[k]; *p; p++) if (*p == '0') *p = sx_pick("digit", "0123456789"); }
#endif
#ifdef GLOSS
    { int l = sx_concretize(sx_choice("gloss length", GLOSS + 1)), i, k; char g[GLOSS]; for (i = 0; i < l; i++) g[i] = sx_pick("gloss", GLOSSSET); for (k = 0; k < n; k++) for (i = 0; i < GLOSS && dict_val[k][i]; i++) dict_val[k][i] = i < l ? g[i] : 0; }
#endif
    dict_done(); }
#endif
  TEMPLATE
  sx_stdin(hx_txt, hx_n); av[ac] = 0;
  r = jbo_main(ac, av);
  sx_observe(r);
  if (r == 0) sx_reach("succeeds"); else { sx_reach("fails"); sx_assert(sx_errlen > 0 || sx_outlen > 0, "a failure is reported with a message"); }
  ended = 1; sx_done();
  return 0;
}
void sx_on_exit(int code) { if (!ended && code != 0) { sx_assert(sx_errlen > 0 || sx_outlen > 0, "a failure is reported with a message"); sx_reach("exits"); } }
