/* zo, lo'u..le'u, zoi, zei, bu (together with si) against a reference model. */
#include "hx.h"
#ifndef K
#define K 4
#endif
enum { CMV, BRV, CMN, ZOQ, LOHUQ, ZOIQ, ZEIC, BUC, BKN };
static hx_word W[] = { "mi", "klama", "djan", "zo", "lo'u", "le'u", "zei", "bu", "si", "zoi .x. mi .x." };
enum { W_MI, W_KLAMA, W_DJAN, W_ZO, W_LOHU, W_LEHU, W_ZEI, W_BU, W_SI, W_ZOI, NW };
typedef struct { int kind, w, def; char s[96]; } Tok;
static Tok t[K + 1]; static int n, slot[K], err;
static void del(int i, int j) { int k; for (k = j; k < n; k++) t[i + k - j] = t[k]; n -= j - i; }
static void cat(char *d, const char *s) { while (*d) d++; while ((*d++ = *s++)) ; }
static int isw(int i, int w) { return i < n && t[i].kind == CMV && t[i].w == w; }
/* how a token appears inside lo'u or zei */
static void plain(char *d, Tok *x) { 
  if (x->kind == ZOQ) { cat(d, "zo+"); cat(d, x->s); }
  else if (x->kind == ZOIQ) { cat(d, "zoi+\""); cat(d, x->s); cat(d, "\""); }
  else if (x->kind == LOHUQ) { cat(d, "lo'u+\""); cat(d, x->s); cat(d, "\""); }
  else if (x->kind == BKN) cat(d, "<Defective erasure>");
  else cat(d, x->s); }
static void model(void) {
  int i, j;
  n = K;
  for (i = 0; i < K; i++) { int w = sx_concretize(slot[i]); t[i].w = w; t[i].def = 0; t[i].s[0] = 0; t[i].kind = w == W_KLAMA ? BRV : w == W_DJAN ? CMN : w == W_ZOI ? ZOIQ : CMV; cat(t[i].s, w == W_ZOI ? "mi" : W[w]); }
  for (i = 0; i < n; i++) if (isw(i, W_ZO)) {           /* zo quotes the next word, whatever it is */
    if (i + 1 == n) { err = 1; return; }
    strcpy(t[i].s, t[i + 1].s); t[i].kind = ZOQ; del(i + 1, i + 2); }
  for (i = 0; i < n; i++) if (isw(i, W_LOHU)) {         /* lo'u quotes up to the next le'u */
    char b[96]; b[0] = 0;
    for (j = i + 1; j < n && !isw(j, W_LEHU); j++) { if (j > i + 1) cat(b, " "); plain(b, &t[j]); }
    if (j == n) { err = 1; return; }
    strcpy(t[i].s, b); t[i].kind = LOHUQ; del(i + 1, j + 1); }
  for (i = 0; i < n;) {                                 /* si */
    if (!isw(i, W_SI) || i == 0) { i++; continue; }
    { Tok *y = &t[i - 1]; int req = y->kind == ZOQ ? 2 : y->kind == LOHUQ ? 3 : y->kind == ZOIQ ? 4 : y->kind == BKN ? y->def : 1, got = 1; j = i + 1; while (got < req && isw(j, W_SI)) got++, j++;
      if (got < req) { y->kind = BKN; y->def = req - got; del(i, j); } else { del(i - 1, j); i--; } } }
  if (n && isw(0, W_ZEI)) err = 3;
  for (i = 1; i < n; i++) if (isw(i, W_ZEI)) {          /* zei joins the words on both sides */
    char b[96]; b[0] = 0;
    plain(b, &t[i - 1]); j = i;
    while (isw(j, W_ZEI)) { if (j + 1 >= n) { err = 3; return; } cat(b, " zei "); plain(b, &t[j + 1]); j += 2; }
    strcpy(t[i - 1].s, b); t[i - 1].kind = ZEIC; del(i, j); i--; }
  if (err) return;
  for (i = 0; i < n; i++) if (isw(i, W_BU)) {           /* bu makes a letter of the preceding word */
    char b[96]; b[0] = 0;
    if (i == 0) { err = 3; return; }
    { Tok *y = &t[i - 1];
      if (y->kind == ZOQ) { cat(b, "zo"); cat(b, y->s); }
      else if (y->kind == BUC) { cat(b, y->s); cat(b, ".bu"); }
      else if (y->kind == LOHUQ) { cat(b, "lo'u-"); cat(b, y->s); cat(b, "-le'u"); }
      else if (y->kind == BKN) cat(b, "<Defective erasure>");
      else cat(b, y->s);
      strcpy(y->s, b); y->kind = BUC; del(i, i + 1); i--; } }
}
int sx_main(void) { int i; hx_opt("-k"); for (i = 0; i < K; i++) slot[i] = hx_slot("word", W, NW); return hx_run(); }
void sx_on_exit(int code) {
  int p, i;
  sx_observe(sx_outlen); sx_observe(code);
  model();
  if (err) { sx_reach("error"); sx_assert(code != 0, "a quotation, zei or bu without its words is an error"); sx_assert(sx_errlen > 0, "errors are reported"); return; }
  p = hx_find(sx_out, sx_outlen, 0, "Token list after preprocessing\n\n");
  sx_assert(p >= 0, "the token list after preprocessing is printed");
  p += 32;
  for (i = 0; i < n; i++) {
    static const char *tag[] = { "CMV : ", "BRV : ", "CMN : ", "ZO  : ", "LOhU  : ", "ZOI : ", "ZEI : ", "BU : ", "BKN : (broken erasure)" };
    const char *g = tag[t[i].kind];
    sx_assert(hx_eq(sx_out + p, g, strlen(g)), "each word or construct is of the right kind"); p += strlen(g);
    if (t[i].kind != BKN) { sx_assert(hx_eq(sx_out + p, t[i].s, strlen(t[i].s)), "each construct covers exactly the words it should"); p += strlen(t[i].s); sx_assert(sx_out[p] == '\n' || sx_out[p] == ' ', "nothing else is in the construct"); if (t[i].kind != CMV) sx_assert(sx_out[p] == '\n', "nothing else is in the construct"); }
    while (p < sx_outlen && sx_out[p] != '\n') p++;
    p++;
  }
  sx_assert(hx_eq(sx_out + p, "-----", 5), "no quoted word remains outside its quotation");
  sx_reach("end");
}
