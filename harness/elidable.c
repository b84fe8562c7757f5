/* -ie shows the elided terminators: the text with them written out is accepted
 * by -re with the same grouping, -ie adds nothing else, and -re accepts exactly
 * the texts to which -ie has nothing to add. */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **), three_main(int, char **);
static char out1[4096], txt2[4096], in[1024]; static int len1, n2, nin, added, rc1;
static int isbr(int c) { return (c == '(') | (c == '[') | (c == '{') | (c == '<') | (c == ')') | (c == ']') | (c == '}') | (c == '>') | ((c >= '0') & (c <= '9')); }
static int up(int c) { return (c >= 'A') & (c <= 'Z'); }
static int issep(int c) { return c == ' ' || c == '\n' || c == '.'; }
static const char *const TERMS[] = { "BE'O", "BOI", "CU", "DO'U", "FE'U", "GE'U", "KE'E", "KEI", "KU", "KU'E", "KU'O", "LI'U", "LO'O", "LU'U", "ME'U", "NU'U", "SE'U", "TE'U", "TOI", "TU'U", "VAU", "VE'O", "ZI'E", 0 };
int sx_main(void) {
  static char *a1[] = { "jbofihe", "-ie", 0 }, *a2[] = { "jbofihe", "-re", 0 };
  int i, w, must = 1, rc;
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; hx_slot("slot", T, sizeof T / sizeof *T); }
#define TEXT(s) hx_s(s);
  TEMPLATE
  for (i = w = 0; i < hx_n; i++) { if (issep(hx_txt[i])) w = 0; else { if (!w) in[nin++] = ' '; w = 1; in[nin++] = hx_txt[i]; } }
  sx_stdin(hx_txt, hx_n);
  rc1 = one_main(2, a1);
  sx_observe(rc1); sx_observe(sx_outlen);
  if (must) sx_assert(rc1 == 0, "a grammatical text is accepted");
  if (rc1) { sx_reach("rejected"); }
  else {
    int p = 0;
    len1 = sx_outlen; memcpy(out1, sx_out, len1);
    for (i = 0; i < len1; i++) { int c = out1[i]; txt2[n2++] = isbr(c) ? ' ' : up(c) ? c + 32 : c; }
    for (i = 0; i < len1;) { int j; if (isbr(out1[i]) || out1[i] == ' ' || out1[i] == '\n') { i++; continue; }
      for (j = i; j < len1 && !isbr(out1[j]) && out1[j] != ' ' && out1[j] != '\n'; j++) ;
      if (up(out1[i])) { int k, ok = 0; for (k = 0; TERMS[k]; k++) if (j - i == (int)strlen(TERMS[k]) && hx_eq(out1 + i, TERMS[k], j - i)) ok = 1; sx_assert(ok, "only terminators are inserted"); added++; }
      else { sx_assert(p + 1 + j - i <= nin && in[p] == ' ' && hx_eq(in + p + 1, out1 + i, j - i), "the words of the text are kept in order"); p += 1 + j - i; }
      i = j; }
    sx_assert(p == nin, "all words of the text are kept");
#ifdef DROP /* leave one of the terminators out again: -re accepts what is left exactly if -ie adds nothing to it */
    if (!added) { sx_reach("nothing to add"); sx_done(); return 0; }
    { int d = sx_concretize(sx_choice("left out", 12)), k = 0, rc2, add2 = 0; 
      if (d >= added) { sx_done(); return 0; }
      for (i = 0; i < len1;) { int j; if (isbr(out1[i]) || out1[i] == ' ' || out1[i] == '\n') { i++; continue; }
        for (j = i; j < len1 && !isbr(out1[j]) && out1[j] != ' ' && out1[j] != '\n'; j++) ;
        if (up(out1[i]) && k++ == d) { int q; for (q = i; q < j; q++) txt2[q] = ' '; }
        i = j; }
      sx_outlen = sx_errlen = 0; sx_stdin(txt2, n2);
      rc2 = two_main(2, a1);
      if (!rc2) for (i = 0; i < sx_outlen; i++) add2 |= up(sx_out[i]);
      sx_outlen = sx_errlen = 0; sx_stdin(txt2, n2);
      rc = three_main(2, a2);
      sx_observe(rc2); sx_observe(rc);
      if (rc2) sx_assert(rc != 0, "-re accepts only grammatical texts");
      else { sx_assert((rc == 0) == (add2 == 0), "-re accepts a text exactly if no terminator is elided from it"); if (add2) sx_reach("one left out"); else sx_reach("nothing left out"); }
      sx_done(); return 0; }
#endif
    sx_outlen = sx_errlen = 0; sx_stdin(txt2, n2);
    rc = two_main(2, a2);
    sx_observe(rc);
    sx_assert(rc == 0, "the text with its elided terminators written out satisfies -re");
    { int ok = 1, k = 0; for (i = 0; ; i++, k++) { int c; /* line breaks may be placed differently */
        while (i < len1 && (out1[i] == ' ' || out1[i] == '\n')) i++;
        while (k < sx_outlen && (sx_out[k] == ' ' || sx_out[k] == '\n')) k++;
        if (i == len1 || k == sx_outlen) break;
        c = out1[i]; ok &= sx_out[k] == (up(c) ? c + 32 : c); }
      sx_assert(ok & (i == len1) & (k == sx_outlen), "it has the same grouping"); }
    if (added) sx_reach("added"); else sx_reach("nothing to add");
  }
  sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n);
  rc = three_main(2, a2);
  if (rc1) sx_assert(rc != 0, "-re accepts only grammatical texts");
  else sx_assert((rc == 0) == (added == 0), "-re accepts a text exactly if no terminator is elided from it");
  if (rc) sx_assert(sx_outlen == 0, "no analysis is shown for a text that -re rejects");
  sx_done();
}
void sx_on_exit(int code) { sx_assert(code != 0, "the program does not leave early with success"); }
