/* Lujvo proposals: two or three components whose rafsi are symbolic. The words, their rafsi and the number of rafsi
 * come from a small table that replaces the big one; everything else is the real program. */
#include "hx.h"
#include "morph_ref.h"
#ifndef NT
#define NT 2
#endif
#ifndef VOW
#define VOW "aeiou"
#endif
char sx_wrd[2 * NT][8], sx_raf[NT][8];
static int len[NT], islong[NT], isccv[NT], form_[NT];
static const char FIRST[][6] = { "CVC", "CcV", "CVv", "CV'V", "CVCpV", "CcVCV" }, LAST[][6] = { "CcV", "CVv", "CV'V", "CVCpV", "CcVCV" };
#ifndef CON
#define CON "bcdfgjklmnprstvxz"
#endif
static const char con[] = CON;
/* without branches */
static int in(int c, const char *s) { int r = 0; while (*s) r |= c == *s++; return r; }
static int bad2(int a, int b) {
  return (a == b) | (in(a, "bdgjvz") & in(b, "cfkpstx")) | (in(b, "bdgjvz") & in(a, "cfkpstx")) | (in(a, "cjsz") & in(b, "cjsz")) | ((a == 'c') & (b == 'x')) | ((a == 'x') & ((b == 'c') | (b == 'k'))) | ((a == 'k') & (b == 'x')) | ((a == 'm') & (b == 'z')); }
static int bad3_(int a, int b, int c) { return (a == 'n') & (((b == 'd') & ((c == 'j') | (c == 'z'))) | ((b == 't') & ((c == 'c') | (c == 's')))); }
static int init_(int a, int b) { return (in(a, "bfgkmpvx") & in(b, "lr")) | (in(a, "cs") & in(b, "fklmnprt")) | ((a == 'd') & in(b, "jrz")) | (in(a, "jz") & in(b, "bdgmv")) | ((a == 't') & in(b, "crs")); }
static void fill(char *o, const char *f) {
  int i; for (i = 0; f[i]; i++) { int q = f[i];
    if (f[i + 1] == 'v') { static const char dd[] = "aiaueioi"; int v = sx_choice("diphthong", 4); o[i] = dd[2 * v]; o[i + 1] = dd[2 * v + 1]; i++; }
    else if (q == 'C') o[i] = f[i + 1] == 'c' ? sx_pick("first", con) : sx_pick("cons", con);
    else if (q == 'c') { o[i] = sx_pick("second", con); sx_assume(init_(o[i - 1], o[i])); }
    else if (q == 'p') { o[i] = sx_pick("second", con); sx_assume(!bad2(o[i - 1], o[i])); }
    else if (q == 'V') o[i] = sx_pick("vowel", VOW);
    else o[i] = q; }
  o[i] = 0; }
static char exp[40];
int sx_main(void) {
  static char *av[8] = { "jvocuhadju", "-R" }; static const int RS[] = { 5, 7, 8, 6, 2, 4 }, RE[] = { 7, 8, 6, 1, 3 };
  int i, j, ac = 2, L, A = 0, H = 0, R = 0, vv = 0, n = 0;
  for (i = 0; i < NT; i++) {
    int last = i == NT - 1, f = sx_concretize(sx_choice("shape", last ? 5 : 6)); const char *s;
#ifdef FIRST1
    if (i == 0) sx_assume(f == FIRST1);
#endif
    s = last ? LAST[f] : FIRST[f];
    form_[i] = f; R += last ? RE[f] : RS[f];
    memcpy(sx_wrd[i], "qqqq0", 6); sx_wrd[i][4] += i; memcpy(sx_wrd[NT + i], "wwww0", 6); sx_wrd[NT + i][4] += i; strcpy(sx_raf[i], "zzz");
    if (strlen(s) == 5) { char *w = sx_wrd[NT + i]; islong[i] = 1; fill(w, s); if (!last) sx_assume(!((w[0] == 'b') & (w[1] == 'r') & (w[2] == 'o') & (w[3] == 'd'))); len[i] = last ? 5 : 4;
      for (j = 0; j < i; j++) if (islong[j]) sx_assume(!hx_eq(w, sx_wrd[NT + j], 5)); }
    else { fill(sx_raf[i], s); len[i] = strlen(s); }
    isccv[i] = len[i] == 3 && f == (last ? 0 : 1);
    av[ac++] = islong[i] ? sx_wrd[NT + i] : sx_wrd[i];
  }
  /* the expected word: The Complete Lojban Language, chapter 4.11 */
  { char g[NT] = { 0 }; const char *p[NT]; for (i = 0; i < NT; i++) p[i] = islong[i] ? sx_wrd[NT + i] : sx_raf[i];
    for (i = 0; i < NT - 1; i++) { int a = p[i][len[i] - 1], b = p[i + 1][0], c = p[i + 1][1];
      if (len[i] == 4 && islong[i]) g[i] = 'y';
      else if (form_[i] == 0 && (bad2(a, b) | bad3_(a, b, c))) g[i] = 'y'; }
    if ((form_[0] == 2 || form_[0] == 3) && !(NT == 2 && isccv[1])) g[0] = p[1][0] == 'r' ? 'n' : 'r';
    for (i = 0; i < NT; i++) { for (j = 0; j < len[i]; j++) exp[n++] = p[i][j]; if (i < NT - 1 && g[i]) { exp[n++] = g[i]; H++; } }
    if (form_[0] == 0 && !g[0]) {   /* tosmabru: would the word fall apart after its first two letters? */
      int t = init_(exp[2], exp[3]); if (form_[1] == 0 || (NT == 2 && form_[1] == 3)) if (t && lujvo((unsigned char *)exp + 2, n - 2)) { for (i = n; i > 3; i--) exp[i] = exp[i - 1]; exp[3] = 'y'; n++; H++; sx_reach("tosmabru"); } }
    L = n; for (i = 0; i < NT; i++) { for (j = 0; j < len[i]; j++) { int q = (i == NT - 1 ? LAST : FIRST)[form_[i]][j]; vv += q == 'V' || q == 'v'; } A += len[i] == 4 && !islong[i]; }
  }
  { int rc = jbo_main(ac, av); const char *o = sx_out; int p = 0, e, sc = 0;
    sx_assert(rc == 0, "a lujvo is proposed");
    for (i = 0; i < 3; i++) { p = hx_find(o, sx_outlen, p, "\n"); sx_assert(p >= 0, "the list has a heading"); p++; }
    sx_assert(o[p] == '*', "the only proposal is the best one"); p++;
    while (o[p] == ' ') p++;
    while (o[p] >= '0' && o[p] <= '9') sc = sc * 10 + o[p++] - '0';
    sx_assert(o[p] == ' ' && o[p + 1] == ' ', "score and lujvo are two columns"); p += 2;
    e = hx_find(o, sx_outlen, p, "\n"); sx_assert(e >= 0 && e == sx_outlen - 1, "there is exactly one proposal");
    sx_observe(e - p); sx_observe(sc);
    sx_assert(e - p == n, "the lujvo has the rafsi and the necessary hyphens only");
    sx_assert(hx_eq(o + p, exp, n), "the lujvo consists of the rafsi joined by the prescribed hyphens");
    sx_assert(sc == 1000 * L - 500 * A + 100 * H - 10 * R - vv, "the score is the one of The Complete Lojban Language");
    sx_reach("proposed"); sx_done(); }
}
void sx_on_exit(int code) { sx_assert(0, "a lujvo is proposed for every combination of rafsi"); }
