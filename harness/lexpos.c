/* Line and column numbers in diagnostics against a reference computation. */
#include "hx.h"
#ifndef K
#define K 5
#endif
static int line = 1, col = 0, depth = 0;        /* of the last character put */
static void put(int c) { hx_c(c); col++; if (c == '\n') { line++; col = 0; } if (depth ? c == '(' : c == '(') depth++; else if (depth && c == ')') depth--; }
static int num(int p, int *v) { int n = 0, d = 0; while (sx_err[p] >= '0' && sx_err[p] <= '9') n = n * 10 + sx_err[p++] - '0', d++; *v = n; return d ? p : -1; }
static void want(const char *s, int l, int c, const char *sep, const char *end) {
  int p = hx_find(sx_err, sx_errlen, 0, s), v;
  sx_assert(p >= 0, "the offending word is reported");
  p = num(p + strlen(s), &v); sx_assert(p > 0, "a line number is reported"); sx_assert(v == l, "the reported line is the line of the word");
  sx_assert(hx_eq(sx_err + p, sep, strlen(sep)), "a column number is reported");
  p = num(p + strlen(sep), &v); sx_assert(p > 0, "a column number is reported"); sx_assert(v == c, "the reported column is the column of the word's first character");
  sx_assert(hx_eq(sx_err + p, end, strlen(end)), "position ends the message");
}
static int l1, c1, l2, c2, l3, c3, hidden;
#if MODE == 0
int sx_main(void) {
  int i, w = 0;
  for (i = 0; i < K; i++) { int c = sx_pick("c", ALPHA); if (!depth && (c == 'a' || c == 'n' || c == ')')) w = 1; put(c); }
  /* the bad word is a word of its own */
  if (!depth) put(' ');
  hidden = depth > 0; l1 = line; c1 = col + 1;
  hx_s("qz\n");
  return hx_run();
}
void sx_on_exit(int code) {
  sx_observe(sx_errlen);
  if (hidden) { sx_reach("hidden"); sx_assert(hx_find(sx_err, sx_errlen, 0, "'qz'") < 0, "a comment is not analysed"); sx_assert(code == 3, "an unclosed comment is reported"); return; }
  sx_reach("shown");
  sx_assert(code == 3, "bad words give exit status 3");
  want("Unrecognizable word 'qz' at line ", l1, c1, " column ", "\n");
}
#elif MODE == 1
/* separators of up to three bytes, at least one of them outside a comment */
static void seps(int n) { int i; for (i = 0; i < n; i++) put(sx_pick("s", " \n\t.>()x")); sx_assume(depth == 0); }
static int isx(int from) { int d = 0, i; for (i = from; i < hx_n; i++) { if (hx_txt[i] == '(') d++; else if (d && hx_txt[i] == ')') d--; else if (!d && (hx_txt[i] == 'x' || hx_txt[i] == ')')) return 1; } return 0; }
static void sep(int n) { int f = hx_n; seps(n); sx_assume(!isx(f)); }
static void word(const char *w) { while (*w) put(*w++); }
int sx_main(void) {
  hx_opt("-bt" + 3 * 0); hx_argc = 1;
  sep(NA); l1 = line; c1 = col + 1; word("mi"); 
  sep(NB); l2 = line; c2 = col + 1; word("klama");
  sep(NC); l3 = line; c3 = col + 1; word("ku'o"); put('\n');
  return hx_run();
}
void sx_on_exit(int code) {
  sx_observe(sx_errlen);
  sx_assert(code == 1 || code == 2, "a syntax error gives a nonzero exit status");
  want("Misparsed token :\n  ku'o [KUhO] (line ", l3, c3, ", col ", ")\n");
  want("  klama [BRIVLA] (line ", l2, c2, ", col ", ")\n");
  want("  mi [KOhA3] (line ", l1, c1, ", col ", ")\n");
}
#elif MODE == 3
/* names that break up at la, lai or doi: every part has its own column */
static hx_word A[] = { "", "mi", "do'a", "mi'ale", "lo'e", "broda" }, L[] = { "la", "lai", "doi" }, N[] = { "rn", "ndan", "miladn", "n" };
static int la, ll, ln;
int sx_main(void) {
  int i, a = sx_choice("a", 5), l = sx_choice("l", 3), m = sx_choice("m", 4), t = sx_choice("t", 2);
  for (i = 0; i < 3; i++) put(sx_pick("s", " \n."));
  la = a = sx_concretize(a); ll = l = sx_concretize(l); ln = m = sx_concretize(m); t = sx_concretize(t);
  l1 = line; for (i = 0; A[a][i]; i++) put(A[a][i]);
  c1 = col + 1; for (i = 0; L[l][i]; i++) put(L[l][i]);
  c2 = col + 1; for (i = 0; N[m][i]; i++) put(N[m][i]);
  if (t) put('\n'); put(' '); l3 = line; c3 = col + 1; { const char *p = "ku'o\n"; while (*p) put(*p++); }
  return hx_run();
}
void sx_on_exit(int code) {
  char b[64]; sx_observe(sx_errlen); sx_assert(code != 0, "exit status");
  if (ln == 2) { if (hx_find(sx_err, sx_errlen, 0, "  la [LA] (line ") >= 0 && ll) { sx_reach("nested"); want("  la [LA] (line ", l1, c2 + 2, ", col ", ")\n"); want("  mi [KOhA3] (line ", l1, c2, ", col ", ")\n"); } return; }
  want("Misparsed token :\n  ku'o [KUhO] (line ", l3, c3, ", col ", ")\n");
  strcpy(b, "  "); strcat(b, N[ln]); strcat(b, " [CMENE] (line ");
  want(b, l1, c2, ", col ", ")\n");
  want(ll == 0 ? "  la [LA] (line " : ll == 1 ? "  lai [LA] (line " : "  doi [DOI] (line ", l1, c1, ", col ", ")\n"); sx_reach("split");
}
#else
/* words run together: every part has its own column */
static hx_word A[] = { "le", "nu", "pa", "le'i", "lo'e", "ca", "mi" };
static hx_word B[] = { "klama", "le'e", "jbopre", "do", "e'o", "spageti" };
int sx_main(void) {
  int i, a = sx_choice("a", 7), b = sx_choice("b", 7), m = sx_choice("m", 3), t = sx_choice("t", 3);
  for (i = 0; i < 2; i++) put(sx_pick("s", " \n"));
  a = sx_concretize(a); b = sx_concretize(b); m = sx_concretize(m); t = sx_concretize(t);
  l1 = line; 
  for (i = 0; A[a][i]; i++) put(A[a][i]);
  if (m) for (i = 0; A[b][i]; i++) put(A[b][i]);
  c1 = col + 1; hidden = t;
  if (t == 0) { word2: ; { const char *p = "xoi"; while (*p) put(*p++); } }
  else if (t == 1) { const char *p = "klama"; while (*p) put(*p++); put(' '); put('k'); put('u'); put('\''); put('o'); }
  else { const char *p = "ku'o"; while (*p) put(*p++); }
  put('\n');
  return hx_run();
}
void sx_on_exit(int code) {
  sx_observe(sx_errlen);
  if (hidden == 0) { sx_assert(code == 3, "exit status"); want("Bad cmavo [xoi] at line ", l1, c1, " column ", "\n"); sx_reach("bad"); }
  else if (hidden == 2) { sx_assert(code != 0, "exit status"); if (hx_find(sx_err, sx_errlen, 0, "Misparsed token :\n  ku'o [KUhO]") >= 0) { sx_reach("mis"); want("Misparsed token :\n  ku'o [KUhO] (line ", l1, c1, ", col ", ")\n"); } }
  else if (hx_find(sx_err, sx_errlen, 0, "  klama [BRIVLA] (line ") >= 0) { sx_reach("brivla"); want("  klama [BRIVLA] (line ", l1, c1, ", col ", ")\n"); }
}
#endif
