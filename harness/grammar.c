/* A text is accepted exactly when the grammar of The Complete Lojban Language
 * derives it (lib/bnf.txt).  The sets of texts that the grammar derives, with
 * all elidable terminators (FULL) and with any of them left out (OPT), come
 * from a recogniser of its own (lib/earley.c). */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **);
#include BITS
#define BIT(a, i) ((a)[(i) >> 3] >> ((i) & 7) & 1)
static int rc[2], stage, ns, v[8], k[8];
static void done(void) {
  long i, x = 0; int full, opt;
  for (i = 0; i < ns; i++) x = x * k[i] + sx_concretize(v[i]);
  full = BIT(FULL, x); opt = BIT(OPT, x);
  if (full) sx_reach("derived with all terminators"); else if (opt) sx_reach("derived"); else sx_reach("not derived");
  if (opt || rc[0]) sx_assert(opt || rc[0] != 0, "what is accepted is grammatical");
  if (!opt) sx_assert(rc[0] != 0, "a text that is not grammatical is refused");
  if (full) sx_assert(rc[0] == 0, "a grammatical text with all its terminators is accepted"), sx_assert(rc[1] == 0, "-re accepts a grammatical text with all its terminators");
  else sx_assert(rc[1] != 0, "-re refuses a text that lacks a terminator or is not grammatical");
  sx_done(); }
static void second(void) { static char *av[] = { "jbofihe", "-re", 0 }; stage = 2; sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n); rc[1] = two_main(2, av); sx_observe(rc[1]); done(); }
int sx_main(void) {
  static char *av[] = { "jbofihe", 0 };
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; k[ns] = sizeof T / sizeof *T; v[ns] = sx_choice("word", k[ns]); if (ns + 1 < NSL) v[ns] = sx_concretize(v[ns]), hx_s(T[v[ns]]), hx_s(" "); else hx_put(T, k[ns], v[ns]), hx_s(" "); ns++; }
  hx_s(PRE " "); SLOTS hx_s(POST "\n");
  stage = 1; sx_stdin(hx_txt, hx_n); rc[0] = one_main(1, av); sx_observe(rc[0]); sx_observe(sx_outlen);
  second(); return 0; }
void sx_on_exit(int code) { sx_assert(code != 0, "the program leaves early only with an error"); rc[stage - 1] = code; if (stage == 1) { sx_observe(code); second(); } else done(); }
