/* cmafihe: every word of the text with its selma'o and its translation, in
 * order; the three kinds of output show the same; the columns of -b line up
 * and the lines keep to the width. */
#include "hx.h"
#include "dict.h"
/* the dictionary; opt: the number of the choice that decides whether the entry is there, 0: always */
typedef struct { const char *k, *v; int opt; } Ent;
static const Ent E_[] = { ENTRIES };
#define NE ((int)(sizeof E_ / sizeof *E_))
static Dent D[NE]; static int nd, on[10];
static const char *get(const char *pre, const char *k, int l) { int i, n = strlen(pre); for (i = 0; i < nd; i++) if (!strncmp(D[i].k, pre, n) && !strncmp(D[i].k + n, k, l) && D[i].k[n + l] == 0) return D[i].v; return 0; }
static int vow(int c) { return c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u'; }
static int edge(int c) { return !vow(c) && c != '\'' && c != 'y'; }        /* a cmavo can start here */
static void add(char *o, const char *sep, const char *x) { if (*o) strcat(o, sep); strcat(o, x); }
/* a compound is cut into the longest pieces that have entries */
static void pieces(char *o, const char *w, const char *pre) { const char *p = w; *o = 0;
  while (*p) { const char *e, *v = 0; if (*p == '.') p++; for (e = p + strlen(p); e > p; ) { if ((v = get(pre, p, e - p))) break; do e--; while (e > p && !edge(*e)); }
    if (v) { add(o, " ", v); p = e; } else { add(o, " ", "?"); do p++; while (*p && !edge(*p)); } } }
static void cmavo(const char *w, char *sel, char *tr) { const char *x = w + (*w == '.'), *v = get("", x, strlen(x));
  if (v) { strcpy(tr, v); v = get("+", x, strlen(x)); strcpy(sel, v ? v : ""); } else { pieces(tr, w, ""); pieces(sel, w, "+"); } }
/* the entry of a place without its class and markers */
static void clean(char *o, const char *v) { int i, n = 0; if (v[0] && v[1] == ';') v += 2; for (i = 0; v[i]; i++) if (!(v[i] == '*' && (v[i + 1] == 0 || v[i + 1] == ' ' || v[i + 1] == '/'))) o[n++] = v[i]; o[n] = 0; }
/* a word without entry: its rafsi, given with '|' between them ('-' for a hyphen letter after one) */
static void lujvo(const char *parts, char *tr) { static const char *const P[] = { "2nd conv-", "3rd conv-", "4th conv-", "5th conv-" }; const char *p = parts; int cv = 0; *tr = 0;
  while (*p) { int l = 0, c; char one[64], key[16]; const char *v; while (p[l] && p[l] != '|') l++;
    c = l == 3 && p[1] == 'e' && p[2] == 'l' ? (p[0] == 's' ? 2 : p[0] == 't' ? 3 : p[0] == 'v' ? 4 : p[0] == 'x' ? 5 : 0) : l == 3 && !strncmp(p, "ter", 3) ? 3 : 0;
    if (c && p[l]) cv = c;
    else { const char *pre = l == 5 ? "" : "%"; one[0] = 0;
      if (cv) { strncpy(key, p, l); key[l] = '0' + cv; if ((v = get(pre, key, l + 1))) clean(one, v); else { strcpy(one, P[cv - 2]); v = get(pre, p, l); strcat(one, v ? v : "??"); } cv = 0; }
      else { v = get(pre, p, l); strcpy(one, v ? v : "?"); }
      add(tr, "-", one); }
    p += l; if (*p) p++; } }
/* the words of the text: as written and, for brivla, their parts; c cmavo, b brivla, n name, p paragraph */
typedef struct { char kind; const char *w, *parts; } Row;
static const Row R[] = { ROWS };
#define NR ((int)(sizeof R / sizeof *R))
static int v_[NWORDS]; static char exp_[4096], ln[3][512]; static int ne, used;
static void out(const char *s) { while (*s) exp_[ne++] = *s++; }
static void flush(void) { int i; if (used) { for (i = 0; i < 3; i++) { out(ln[i]); out("\n"); ln[i][0] = 0; } out("\n"); } used = 0; }
static void blk(const char *a, const char *b, const char *c, int width) { const char *x[3]; int i, m = 0; x[0] = a; x[1] = b; x[2] = c; for (i = 0; i < 3; i++) if ((int)strlen(x[i]) > m) m = strlen(x[i]); m++;
  if (used + m > width) flush();
  for (i = 0; i < 3; i++) { strcat(ln[i], x[i]); while ((int)strlen(ln[i]) < used + m) strcat(ln[i], " "); } used += m; }
#ifdef SYLL
/* a compound of SYLL cmavo with symbolic letters */
static char sy_[64]; static int sn;
static void syllables(void) { int i, k; for (i = 0; i < SYLL; i++) { sy_[sn++] = sx_pick("consonant", "lm"); sy_[sn++] = sx_pick("vowel", "ei"); k = sx_concretize(sx_choice("form", 3)); if (k == 1) sy_[sn++] = sx_pick("vowel", "iu"); else if (k == 2) { sy_[sn++] = '\''; sy_[sn++] = sx_pick("vowel", "ei"); } } for (i = 0; i < sn; i++) hx_c(sy_[i]); hx_c(' '); }
#endif
int sx_main(void) {
  static hx_word W[NR]; static char *av[8]; int ac = 0, i, r, mode = sx_concretize(sx_choice("output", MODES)), width = 80; static const int WIDTHS[] = { 1, 7, 12, 20, 33, 79 };
  for (i = 0; i < NE; i++) if (E_[i].opt && !on[E_[i].opt]) on[E_[i].opt] = 1 + sx_concretize(sx_choice("entry", 2));
  for (i = 0; i < NE; i++) if (!E_[i].opt || on[E_[i].opt] == 2) { D[nd].k = E_[i].k; D[nd++].v = E_[i].v; }
  dict_make(D, nd); dict_done();
  for (i = 0; i < NR; i++) strcpy(W[i], R[i].w);
  for (i = 0; i < NWORDS; i++) v_[i] = hx_slot("word", W, NR);
#ifdef SYLL
  syllables();
#endif
  av[ac++] = "cmafihe"; if (mode == 1) av[ac++] = "-l"; if (mode >= 2) av[ac++] = "-b"; if (mode > 2) { static char num[4]; width = WIDTHS[mode - 3]; num[0] = '0' + width / 10; num[1] = '0' + width % 10; av[ac++] = "-w"; av[ac++] = num; } av[ac] = 0;
  hx_c('\n'); sx_stdin(hx_txt, hx_n); r = jbo_main(ac, av); sx_observe(r); sx_observe(sx_outlen);
  sx_assert(r == 0, "the text is glossed"); sx_assert(sx_errlen == 0, "nothing is left over");
  { int p = mode == 1 ? hx_find(sx_out, sx_outlen, 0, "\\begin{document}") : 0;
    for (i = 0; i < NWORDS; i++) { const Row *w = &R[sx_concretize(v_[i])]; char sel[256] = "", tr[512] = ""; const char *v;
      if (w->kind == 'p') { if (mode >= 2) flush(); if (mode != 1) out("\n"); continue; }
      if (w->kind == 'c') cmavo(w->w, sel, tr);
      else if (w->kind == 'n') strcpy(sel, "CMENE");
      else { strcpy(sel, "BRIVLA"); if ((v = get("", w->w, strlen(w->w)))) strcpy(tr, v); else lujvo(w->parts, tr); }
      if (mode == 0) { out(w->w); out(" <"); out(sel); out("> ["); out(tr); out("] "); }
      else if (mode == 1) { static const char *const F[] = { "\\textbf{\\footnotesize ", "\\textrm{\\footnotesize ", "\\textit{\\footnotesize " }; const char *x[3]; char want[640]; int k; x[0] = w->w; x[1] = sel; x[2] = tr;
        for (k = 0; k < 3; k++) { strcpy(want, F[k]); strcat(want, x[k]); strcat(want, "}"); p = hx_find(sx_out, sx_outlen, p, want); sx_assert(p >= 0, "LaTeX shows every word with its selma'o and translation in order"); p += strlen(want); }
        sx_reach("latex"); }
      else blk(w->w, sel, tr, width); }
#ifdef SYLL
    { char sel[256] = "", tr[512] = ""; for (i = 0; i < sn; i++) sy_[i] = sx_concretize(sy_[i]); cmavo(sy_, sel, tr); sx_assert(mode == 0, "plain only"); out(sy_); out(" <"); out(sel); out("> ["); out(tr); out("] "); sx_reach(strchr(tr, '?') ? "unknown piece" : "all known"); }
#endif
    if (mode == 1) sx_assert(hx_find(sx_out, sx_outlen, p, "\\textbf") < 0 && hx_find(sx_out, sx_outlen, p, "\\end{document}") >= 0, "LaTeX shows no other words");
    else { int ok; if (mode >= 2) flush(); out("\n"); ok = sx_outlen == ne; sx_assert(ok, "the output has the expected length"); sx_assert(hx_eq(sx_out, exp_, ne), "every word is shown with its selma'o and translation, in order"); if (mode >= 2) sx_reach("block"); else sx_reach("plain"); } }
  sx_done();
  return 0;
}
