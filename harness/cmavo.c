/* The cmavo: every word of the form of a cmavo is known with its selma'o or
 * refused (CLASSES not defined), and all words of a selma'o are understood the
 * same way (CLASSES).  The words and selma'o: lib/cmavo.txt. */
#include "hx.h"
static const struct { char w[8], s[8]; } TAB[] = {
#include "cmavotab.inc"
};
#ifndef CLASSES
static char w[8]; static int n, symc;
#ifndef POST
#define POST ""
#endif
int sx_main(void) {
  static const char *P[] = { SHAPES }; const char *p = P[sx_concretize(sx_choice("shape", sizeof P / sizeof *P))]; int i;
  for (i = 0; p[i]; i++) w[i] = p[i] == 'C' ? sx_pick("c", "bcdfgjklmnprstvxz") : p[i] == 'V' ? sx_pick("v", "aeiou") : p[i];
  n = i; for (i = 0; i < n; i++) hx_c(w[i]); hx_s(POST " ku'o klama\n");
  return hx_run(); }
void sx_on_exit(int code) {
  int k, i, special, found = -1, q, ex; char b[64];
  sx_observe(sx_errlen); sx_observe(code);
  for (i = 0; i < n; i++) w[i] = sx_concretize(w[i]);
  for (k = 0; k < (int)(sizeof TAB / sizeof *TAB); k++) if (!strcmp(TAB[k].w, w)) found = k;
  if (found < 0) {
    sx_reach("unknown"); sx_assert(code == 3, "a word that is no cmavo is refused"); sx_assert(sx_outlen == 0, "no analysis is shown");
    strcpy(b, "Bad cmavo ["); strcat(b, w); strcat(b, "] at line 1 column " "1" "\n"); q = hx_find(sx_err, sx_errlen, 0, b);
    if (q < 0) { strcpy(b, "Unrecognizable word '"); strcat(b, w); strcat(b, POST "' at line 1 column " "1" "\n"); q = hx_find(sx_err, sx_errlen, 0, b); }
    sx_assert(q >= 0, "the word that is no cmavo is reported with its place"); return; }
  sx_assert(hx_find(sx_err, sx_errlen, 0, "Bad cmavo") < 0 && hx_find(sx_err, sx_errlen, 0, "Unrecognizable") < 0, "every cmavo is known");
  sx_assert(code != 3 || hx_find(" zo zoi la'o lo'u bu zei si sa su ", 35, 0, w) >= 0, "every cmavo is known");
  { static const char SP[] = " zo zoi la'o lo'u bu zei si sa su ba'e za'e fa'o "; int l; b[0] = ' '; strcpy(b + 1, w); l = strlen(b); b[l] = ' '; b[l + 1] = 0; special = hx_find(SP, sizeof SP - 1, 0, b) >= 0; }
  if (special) { sx_reach("words with a meaning for the preprocessor"); return; }
  sx_assert(code != 0, "the text is not grammatical"); sx_reach("known");
  strcpy(b, "  "); strcat(b, w); strcat(b, " ["); strcat(b, TAB[found].s); strcat(b, "] (line 1, col " "1" ")\n");
  sx_assert(hx_find(sx_err, sx_errlen, 0, b) >= 0, "every cmavo belongs to the selma'o of the word list"); }
#else
extern int one_main(int, char **), two_main(int, char **);
static const struct { short from, n; } CLS[] = {
#include "cmavocls.inc"
};
static hx_word MEM[] = {
#include "cmavomem.inc"
};
static const struct { short cls, ref; char pre[80], post[80]; } FR[] = {
#include "cmavofr.inc"
};
static char o1[8192]; static int l1, stage;
static int isw(int c) { return (c >= 'a' && c <= 'z') || c == '\''; }
int sx_main(void) {
  static char *av[] = { "jbofihe", "-t", 0 }; int f, k, i, j, x, r, la, lb; const char *a, *b;
  f = sx_concretize(sx_choice("frame", (NFR + 31) / 32)) * 32; f += sx_concretize(sx_choice("frame", NFR - f < 32 ? NFR - f : 32)); f += FFR; k = CLS[FR[f].cls].from; r = k + FR[f].ref;
  hx_s(FR[f].pre); hx_s(MEM[r]); hx_s(FR[f].post); hx_c('\n'); sx_stdin(hx_txt, hx_n);
  i = one_main(2, av); sx_assert(i == 0, "the text with the first word of the selma'o is accepted");
  l1 = sx_outlen; sx_assert(l1 < (int)sizeof o1, "(harness) size"); memcpy(o1, sx_out, l1); sx_outlen = sx_errlen = 0; stage = 1; hx_n = 0;
  hx_s(FR[f].pre); { static hx_word M[128]; for (i = 0; i < CLS[FR[f].cls].n; i++) memcpy(M[i], MEM[k + i], HX_W); x = hx_slot("word", M, CLS[FR[f].cls].n); } hx_s(FR[f].post); hx_c('\n'); sx_stdin(hx_txt, hx_n);
  j = two_main(2, av); sx_observe(sx_outlen); stage = 2;
  sx_assert(j == 0, "the text is accepted with every word of the selma'o");
  x = k + sx_concretize(x); a = MEM[r]; b = MEM[x]; la = strlen(a); lb = strlen(b);
  for (i = j = 0; i < l1 && j < sx_outlen; ) {
    if (o1[i] == sx_out[j] && !((i == 0 || !isw(o1[i - 1])) && la <= l1 - i && !memcmp(o1 + i, a, la) && !isw(o1[i + la]))) { i++, j++; continue; }
    sx_assert((i == 0 || !isw(o1[i - 1])) && !memcmp(o1 + i, a, la) && !isw(o1[i + la]), "all words of a selma'o are understood the same way");
    if (!memcmp(sx_out + j, b, lb) && !isw(sx_out[j + lb])) { i += la; j += lb; if (o1[i + 1] == '[') { while (o1[i] != ']') i++; while (j < sx_outlen && sx_out[j] != ']') j++; } }
    else if (!memcmp(sx_out + j, a, la) && !isw(sx_out[j + la])) i += la, j += la;
    else sx_assert(0, "all words of a selma'o are understood the same way"); }
  sx_assert(i == l1 && j == sx_outlen, "all words of a selma'o are understood the same way"); sx_reach("same"); sx_done(); }
void sx_on_exit(int code) { if (stage < 2) sx_assert(0, "the program does not give up"); }
#endif
