/* -se: the words it says can be left out can be left out without any change in
 * the grouping, the minimal patterns are enough and minimal, and a terminator it
 * does not mention is needed.  The grouping is the one that -ie shows. */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **), three_main(int, char **);
static char se[4096], ie[4096], t2[1024]; static int nse, nie, n2, rc1;
typedef struct { int w, pat, np; unsigned p[16]; int n; } Rep;   /* first word, minimal patterns (0: none of the words) */
static Rep R[12]; static int nr;
static int wb[128], we[128], nw; static unsigned char term[128], gone[128];
static const char *const TERMS[] = { "be'o", "boi", "cu", "do'u", "fe'u", "ge'u", "ke'e", "kei", "ku", "ku'e", "ku'o", "li'u", "lo'o", "lu'u", "me'u", "nu'u", "se'u", "te'u", "toi", "tu'u", "vau", "ve'o", 0 };
static int up(int c) { return (c >= 'A') & (c <= 'Z'); }
static int atcol(int col) { int i; for (i = 0; i < nw; i++) if (wb[i] == col - 1) return i; return -1; }
static int num(const char *s, int *p) { int v = 0; while (s[*p] >= '0' && s[*p] <= '9') v = v * 10 + s[(*p)++] - '0'; return v; }
/* compares the word list at s[*p..] up to the end character with the words of the text from i on; -1 if they differ */
static int wordsat(const char *s, int *p, int end, int i) { int k = 0;
  for (;;) { int j; if (i + k >= nw) return -1; for (j = wb[i + k]; j < we[i + k]; j++) if (s[(*p)++] != hx_txt[j]) return -1; k++; if (s[*p] == end) { ++*p; return k; } if (s[(*p)++] != ' ') return -1; } }
static int parse(void) { int p = 0;
  for (;;) { int q, c1, c2; Rep *r = &R[nr]; memset(r, 0, sizeof *r);
    while (p < nse && se[p] == '\n') p++;
    if (p >= nse) return 0;
    if (se[p] == '(') return 1;
    if (hx_eq(se + p, "You could omit ", 15)) r->pat = 0; else if (hx_eq(se + p, "The words ", 10)) r->pat = 1; else return 0;
    while (p < nse && se[p] != '\'') p++;
    q = ++p;
    while (p < nse && (se[p] != '\n' || se[p + 1] == ' ') && !(se[p] == 'c' && se[p + 1] == 'o' && se[p + 2] == 'l')) p++;
    p += 4; c1 = num(se, &p); r->w = atcol(c1); if (r->w < 0) return 0;
    r->n = wordsat(se, &q, '\'', r->w); if (r->n < 0) return 0;
    if (r->n > 1) { while (p < nse && !(se[p] == 'c' && se[p + 1] == 'o' && se[p + 2] == 'l')) p++; p += 4; c2 = num(se, &p); if (atcol(c2) != r->w + r->n - 1) return 0; }
    while (p < nse && se[p] != '\n') p++; p++;
    if (r->pat) { if (!hx_eq(se + p, "could be safely", 15)) return 0; while (p < nse && se[p] != '\n') p++; p++;
      while (hx_eq(se + p, "  Pattern ", 10)) { int k = 0; unsigned m = 0; p += 10; num(se, &p); if (!hx_eq(se + p, " :  ", 4)) return 0; p += 4;
        while (p < nse) { int l = 0; while (se[p + l] != ' ' && se[p + l] != '\n') l++;
          for (; k < r->n; k++) if (we[r->w + k] - wb[r->w + k] == l && hx_eq(se + p, hx_txt + wb[r->w + k], l)) break;
          if (k == r->n) return 0; m |= 1u << k++; p += l; if (se[p++] == '\n') break; }
        if (r->np >= 16) return 0; r->p[r->np++] = m; } 
      if (!r->np) return 0; }
    if (++nr >= 12) return 0; } }
static int dup(const Rep *r) { int i, j; for (i = 0; i < r->n; i++) for (j = 0; j < i; j++) if (we[r->w + i] - wb[r->w + i] == we[r->w + j] - wb[r->w + j] && hx_eq(hx_txt + wb[r->w + i], hx_txt + wb[r->w + j], we[r->w + i] - wb[r->w + i])) return 1; return 0; }
int sx_main(void) {
  static char *a1[] = { "jbofihe", "-se", 0 }, *a2[] = { "jbofihe", "-ie", 0 };
  int i, j, k, l, rc, what, same = 0;
#ifdef SOUND
#define COMPLETE 0
#else
#define COMPLETE 1
#endif
#ifdef FREE
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; hx_slot("slot", T, sizeof T / sizeof *T); }
#else
/* a slot: which phrase is decided by branching, which words of the same class and length it consists of stays symbolic */
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; int r_ = sx_concretize(sx_choice("slot", sizeof T / sizeof *T / NV)), v_ = sx_choice("words", NV), j_, k_; for (j_ = 0; T[r_ * NV][j_]; j_++) { int c_ = 0, eq_ = 1; for (k_ = 0; k_ < NV; k_++) { eq_ &= T[r_ * NV + k_][j_] == T[r_ * NV][j_]; } if (eq_) c_ = T[r_ * NV][j_]; else c_ = T[r_ * NV + v_][j_]; hx_c(c_); } hx_c(' '); }
#endif
#define TEXT(s) hx_s(s);
  TEMPLATE
  sx_stdin(hx_txt, hx_n); rc1 = one_main(2, a1);
  sx_observe(rc1); sx_observe(sx_outlen);
#ifdef FREE   /* any texts, most of them ungrammatical: the words are decided once the text is accepted */
  if (rc1) { sx_reach("rejected"); sx_done(); }
  for (i = 0; i < hx_n; i++) hx_txt[i] = sx_concretize((unsigned char)hx_txt[i]);
  for (i = 0; i < sx_outlen; i++) sx_out[i] = sx_concretize((unsigned char)sx_out[i]);
#endif
  for (i = 0; i < hx_n; i = j) { while (i < hx_n && hx_txt[i] == ' ') i++; for (j = i; j < hx_n && hx_txt[j] != ' '; j++) ; if (j > i) { wb[nw] = i; we[nw] = j; for (k = 0; TERMS[k]; k++) if ((int)strlen(TERMS[k]) == j - i && hx_eq(TERMS[k], hx_txt + i, j - i)) term[nw] = 1; nw++; } }
  nse = sx_outlen; memcpy(se, sx_out, nse); sx_outlen = sx_errlen = 0;
#ifdef MAY
  if (rc1) { sx_reach("rejected"); sx_done(); }
#endif
  sx_assert(rc1 == 0, "a grammatical text is accepted");
  sx_stdin(hx_txt, hx_n); rc = two_main(2, a2);
  sx_assert(rc == 0, "the option does not change whether a text is accepted");
  nie = sx_outlen; memcpy(ie, sx_out, nie); sx_outlen = sx_errlen = 0;
  sx_assert(parse(), "the reports name words of the text at their positions");
  /* what to try: a report (0..nr-1) or a terminator that no report mentions */
  { int n = 0, opt[160], o2[160], o3[160];
    for (i = 0; i < nr; i++) { if (!R[i].pat) { opt[n] = 0; o2[n] = i; o3[n++] = 0; } else for (j = 0; j < R[i].np; j++) { opt[n] = 0; o2[n] = i; o3[n++] = R[i].p[j]; if (COMPLETE) for (k = 0; k < R[i].n; k++) if (R[i].p[j] >> k & 1) { opt[n] = 1; o2[n] = i; o3[n++] = R[i].p[j] & ~(1u << k); } } }
    for (i = 0; i < nw; i++) if (COMPLETE && term[i]) { for (j = 0; j < nr; j++) if (i >= R[j].w && i < R[j].w + R[j].n) { break; } if (j == nr) { opt[n] = 2; o2[n] = i; o3[n++] = 0; } }
    if (!n) { sx_reach("nothing"); sx_done(); }
    i = sx_concretize(sx_choice("try", n)); what = opt[i];
    if (what == 2) gone[o2[i]] = 1; else { if (what == 0) { if (o3[i]) sx_reach("pattern"); else sx_reach("omit"); } for (k = 0; k < R[o2[i]].n; k++) gone[R[o2[i]].w + k] = !(o3[i] >> k & 1); if (what == 0 && dup(&R[o2[i]])) sx_done(); } }
  for (i = 0; i < nw; i++) if (!gone[i]) { for (j = wb[i]; j < we[i]; j++) t2[n2++] = hx_txt[j]; t2[n2++] = ' '; }
  sx_stdin(t2, n2); rc = three_main(2, a2);
  sx_observe(rc);
  if (rc == 0) { same = 1; for (i = k = 0; ; i++, k++) { int c, d;
      while (i < nie && (ie[i] == ' ' || ie[i] == '\n')) i++;
      while (k < sx_outlen && (sx_out[k] == ' ' || sx_out[k] == '\n')) k++;
      if (i == nie || k == sx_outlen) break;
      c = ie[i]; d = sx_out[k]; same &= c + 32 * up(c) == d + 32 * up(d); }
    same &= i == nie && k == sx_outlen; }
  if (what == 0) sx_assert(same, "the words that can be left out can be left out without a change of the grouping");
  if (what == 1) { sx_assert(!same, "every word of a minimal pattern is needed"); sx_reach("minimal"); }
  if (what == 2) { sx_assert(!same, "a terminator that is not reported is needed"); sx_reach("needed"); }
  sx_done();
}
void sx_on_exit(int code) { sx_assert(code != 0, "the program does not leave early with success"); }
