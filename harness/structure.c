/* Default bracketed output and -t / -tf parse trees: every word, in order,
 * properly nested, and the three views agree. */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **);
#define MAXEV 512
#ifdef SAME
#define CYC 1
#else
#define CYC 0
#endif
#ifndef MARKERS
#define MARKERS 1
#endif
static short ev1[MAXEV], ev2[MAXEV]; static int n1, n2;   /* word: depth, closing: -1-depth */
static char in[1024]; static int nin;                     /* input words, one space before each */
static int rc1, must, tf;
static int issep(int c) { return c == ' ' || c == '\n' || c == '.' || c == '\t'; }
static void norm(void) { int i, w = 0; nin = 0; for (i = 0; i < hx_n; i++) { if (issep(hx_txt[i])) w = 0; else { if (!w) in[nin++] = ' '; w = 1; in[nin++] = hx_txt[i]; } } in[nin] = 0; }
#ifdef PEINAI   /* known finding: the nai of pei nai is not shown in the brackets */
static void dropnai(void) { int i, j; for (i = 0; i + 8 <= nin; i++) { int sym = 0; for (j = 0; j < 8; j++) sym |= sx_is_symbolic(in[i + j]); if (!sym && hx_eq(in + i, " pei nai", 8)) { for (j = i + 4; j + 4 <= nin; j++) in[j] = in[j + 4]; nin -= 4; } } in[nin] = 0; }
#endif
static int eat(int p, const char *s, int l) { int ok = 1, i; if (p + 1 + l > nin) return -1; ok &= in[p] == ' '; for (i = 0; i < l; i++) ok &= in[p + 1 + i] == s[i]; ok &= (in[p + 1 + l] == ' ') | (in[p + 1 + l] == 0); sx_assert(ok, "every word of the text is shown, unchanged and in order"); return p + 1 + l; }
static int brackets(const char *o, int len) {
  static const char OP[] = "([{<"; char st[64]; short num[64]; int nst = 0, p = 0, i = 0;
  while (i < len) { int c = o[i];
    if (c == ' ' || c == '\n') { i++; continue; }
    if (c == '(' || c == '[' || c == '{' || c == '<') {
      sx_assert(nst < 63, "(harness) nesting"); if (CYC) sx_assert(c == OP[nst % 4], "opening brackets follow the cycle ( [ { <");
      i++; num[nst] = -1; if (c == '(') { int v = 0, d = 0; while (o[i] >= '0' && o[i] <= '9') v = v * 10 + o[i++] - '0', d++; sx_assert(d && (!CYC || v == nst / 4), "round brackets carry the number of their level"); num[nst] = v; }
      st[nst++] = c; continue; }
    if (c == ')' || c == ']' || c == '}' || c == '>') {
      static const char CL[] = ")]}>";
      sx_assert(nst > 0, "no closing bracket without an opening one"); nst--; sx_assert(c == CL[strchr(OP, st[nst]) - OP], "closing brackets match the opening ones");
      i++; if (c == ')') { int v = 0, d = 0; while (o[i] >= '0' && o[i] <= '9') v = v * 10 + o[i++] - '0', d++; sx_assert(d && v == num[nst], "round brackets carry the same number on both sides"); }
      sx_assert(n1 < MAXEV, "(harness) events"); ev1[n1++] = -1 - nst; continue; }
    { int j = i; while (j < len && !strchr(" \n([{<)]}>", o[j])) j++;
      p = eat(p, o + i, j - i); sx_assert(p >= 0, "no word is shown that is not in the text");
      sx_assert(nst > 0, "words are inside the outermost bracket"); ev1[n1++] = nst; i = j; } }
  sx_assert(nst == 0, "all brackets are closed");
  sx_assert(p == nin, "no word of the text is missing");
  return p;
}
/* eats the words of s[0..l) */
static int eats(int p, const char *s, int l, int d) { int i = 0; while (i < l) { int j; if (s[i] == ' ' || s[i] == '.') { i++; continue; } j = i; while (j < l && s[j] != ' ' && s[j] != '.') j++; p = eat(p, s + i, j - i); sx_assert(p >= 0, "no word is shown in the tree that is not in the text"); ev2[n2++] = d; i = j; } return p; }
static int next1(int p, int d) { int q = p + 1; while (q < nin && in[q] != ' ') q++; ev2[n2++] = d; return q; }
static void tree(const char *o, int len) {
  int i = 0, p = 0, last = 0; int cnt[80]; int k; for (k = 0; k < 80; k++) cnt[k] = 0;
  while (i < len) { int d = 0, e, q; 
    while (i + 1 < len && ((o[i] == '|' && o[i + 1] == ' ') || (o[i] == '+' && o[i + 1] == '-'))) { int plus = o[i] == '+'; i += 2; d++; if (plus) break; }
    sx_assert(d < 78, "(harness) depth");
    for (e = i; e < len && o[e] != '\n'; e++) ;
    for (q = i; q + 2 < e && !(o[q] == ' ' && o[q + 1] == ':' && o[q + 2] == ' '); q++) ;
    if (q + 2 >= e && !(o[q] == ' ' && q + 2 == e)) q = -1;
    if (q < 0) { /* non-terminal: comes after its children, which are one level deeper */
      for (k = d + 2; k < 80; k++) sx_assert(cnt[k] == 0, "the parts of a phrase are exactly one level deeper");
      if (!tf) sx_assert(d == 0 || cnt[d + 1] > 1 || MARKERS, "phrases with a single part are not shown by -t");
      cnt[d + 1] = 0; cnt[d]++; ev2[n2++] = -1 - d; }
    else { int b = q + 3, f = e; 
      if (hx_eq(o + i, "CMAVO", 5)) { f = b; while (f < e && o[f] != ' ') f++; p = eats(p, o + b, f - b, d); }
      else if (hx_eq(o + i, "BRIVLA", 6) || hx_eq(o + i, "CMENE", 5) || hx_eq(o + i, "ZEI", 3)) p = eats(p, o + b, f - b, d);
      else if (hx_eq(o + i, "ZOI", 3)) { p = next1(p, d); p = next1(p, d); p = eats(p, o + b, f - b, d); p = next1(p, d); }
      else if (hx_eq(o + i, "ZO ", 3)) { p = eats(p, "zo", 2, d); p = eats(p, o + b, f - b, d); }
      else if (hx_eq(o + i, "LOhU", 4)) { p = eats(p, "lo'u", 4, d); p = eats(p, o + b, f - b, d); p = eats(p, "le'u", 4, d); }
      else if (hx_eq(o + i, "BU", 2)) { p = eats(p, o + b, f - b, d); p = eats(p, "bu", 2, d); }
      else sx_assert(0, "every leaf of the tree is a known kind of word");
      cnt[d]++; }
    last = d; i = e + 1; }
  sx_assert(p == nin, "no word of the text is missing in the tree");
  sx_assert(cnt[0] == 1, "the tree has one root"); for (k = 1; k < 80; k++) sx_assert(cnt[k] == 0, "everything hangs on the root");
}
static int stage;
static void second(void);
int sx_main(void) {
  static char *av[] = { "jbofihe", 0 };
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; hx_slot("slot", T, sizeof T / sizeof *T); }
#define TEXT(s) hx_s(s);
  must = 1;
  TEMPLATE
  norm();
  sx_stdin(hx_txt, hx_n);
  rc1 = one_main(1, av);
  if (must) sx_assert(rc1 == 0, "a grammatical text is accepted");
#ifdef PEINAI
  dropnai();
#endif
  if (rc1 == 0) { sx_reach("accepted"); brackets(sx_out, sx_outlen); } else { sx_reach("rejected"); sx_assert(sx_outlen == 0, "no analysis is shown for a rejected text"); sx_assert(sx_errlen > 0, "a rejected text is reported"); }
  second();
  return 0;
}
static void second(void) {
  static char *av[] = { "jbofihe", "-t", 0 }; int rc2, i;
  norm();
#ifdef TF
  tf = 1; av[1] = "-tf";
#endif
  sx_observe(sx_outlen); sx_observe(n1);
  sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n); stage = 2;
  rc2 = two_main(2, av);
  sx_assert(rc1 == rc2, "the kind of output does not change whether the text is accepted");
  if (rc2) { sx_assert(sx_outlen == 0, "no tree is shown for a rejected text"); return; }
  tree(sx_out, sx_outlen);
  sx_observe(sx_outlen); sx_observe(n2);
#ifdef SAME
  { int ok = n1 == n2; for (i = 0; i < n1 && i < n2; i++) ok &= ev1[i] == ev2[i]; sx_assert(ok, "brackets and tree show the same grouping"); }
#endif
}
void sx_on_exit(int code) { if (stage == 0) sx_assert(code != 0, "the program does not leave early with success"); }
