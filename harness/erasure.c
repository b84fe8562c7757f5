/* si / sa / su against a reference model of the token stream. */
#include "hx.h"
#ifndef K
#define K 4
#endif
enum { T_KOHA, T_BRIV, T_CMENE, T_LE, T_LU, T_TO, T_NIHO, T_TUHE, T_ZO, T_LOHU, T_ZOI, T_SI, T_SA, T_SU, T_BKN };
static hx_word W[] = { "mi", "do", "klama", "djan", "le", "lu", "to", "ni'o", "tu'e", "zo le", "lo'u le mi le'u", "zoi .x. le .x.", "si", "sa", "su", "la'o .x. mi .x.", "prami" };
static const char KIND[] = { T_KOHA, T_KOHA, T_BRIV, T_CMENE, T_LE, T_LU, T_TO, T_NIHO, T_TUHE, T_ZO, T_LOHU, T_ZOI, T_SI, T_SA, T_SU, T_ZOI, T_BRIV };
static hx_word SHOW[] = { "CMV : mi [", "CMV : do [", "BRV : klama\n", "CMN : djan\n", "CMV : le [", "CMV : lu [", "CMV : to [", "CMV : ni'o [", "CMV : tu'e [", "ZO  : le\n", "LOhU  : le mi\n", "ZOI : le\n", "CMV : si [", "CMV : sa [", "CMV : su [", "ZOI : mi\n", "BRV : prami\n" };
#define NW ((int)(sizeof KIND))
#ifdef FEW   /* longer texts of few words */
static const unsigned char SUB[] = { FEW };
#define NS ((int)(sizeof SUB))
static hx_word WS[NS];
#endif
static int slot[K];
typedef struct { int w, kind, def; } Tok;
static Tok t[K + 1]; static int n;
static int need(Tok *x) { switch (x->kind) { case T_ZO: return 2; case T_LOHU: return 3; case T_ZOI: return 4; case T_BKN: return x->def; default: return 1; } }
static void del(int i, int j) { int k; for (k = j; k < n; k++) t[i + k - j] = t[k]; n -= j - i; }  /* removes [i,j) */
static void model(void) {
  int i, j, k;
  n = K; for (i = 0; i < K; i++) { t[i].w = slot[i]; t[i].kind = KIND[slot[i]]; t[i].def = 0; }
  /* si erases the preceding word; a quotation counts for all of its words */
  for (i = 0; i < n;) {
    if (t[i].kind != T_SI || i == 0) { i++; continue; }
    { int req = need(&t[i - 1]), got = 1; j = i + 1; while (got < req && j < n && t[j].kind == T_SI) got++, j++;
      if (got < req) { t[i - 1].kind = T_BKN; t[i - 1].def = req - got; del(i, j); }
      else { del(i - 1, j); i--; } } }
  /* sa: back to the last word of the kind that follows it */
  for (i = 0; i + 1 < n;) {
    if (t[i].kind != T_SA) { i++; continue; }
    for (j = i - 1; j >= 0; j--) if (t[j].kind == t[i + 1].kind) break;
    if (j < 0) j = 0;
    del(j, i + 1); i = j; }
  /* su: back to ni'o, lu, tu'e, to (included) or the start; su su: everything */
  for (i = 0; i < n;) {
    if (t[i].kind != T_SU) { i++; continue; }
    if (i + 1 < n && t[i + 1].kind == T_SU) { del(0, i + 2); i = 0; continue; }
    for (k = i - 1; k >= 0; k--) if (t[k].kind == T_NIHO || t[k].kind == T_LU || t[k].kind == T_TUHE || t[k].kind == T_TO) break;
    if (k < 0) k = 0;
    del(k, i + 1); i = k; }
}
int sx_main(void) {
  int i;
  hx_opt("-k");
#ifdef FEW
  for (i = 0; i < NS; i++) memcpy(WS[i], W[SUB[i]], sizeof(hx_word));
  for (i = 0; i < K; i++) slot[i] = SUB[hx_slot("word", WS, NS)];
#else
  for (i = 0; i < K; i++) slot[i] = hx_slot("word", W, NW);
#endif
  sx_observe(hx_run());
  return 0;
}
void sx_on_exit(int code) {
  int p, i, j, e;
  sx_observe(sx_outlen);
  model();
  p = hx_find(sx_out, sx_outlen, 0, "Token list after preprocessing\n\n");
  sx_assert(p >= 0, "the token list after preprocessing is printed");
  p += 32;
  for (i = 0; i < n; i++) {
    if (t[i].kind == T_BKN) { sx_reach("broken"); sx_assert(hx_eq(sx_out + p, "BKN :", 5), "an incompletely erased quotation is marked as such"); }
    else { char *s = SHOW[t[i].w]; int l; for (l = 0; s[l]; l++) ; sx_assert(hx_eq(sx_out + p, s, l), "exactly the words that are not erased remain, in order"); }
    while (p < sx_outlen && sx_out[p] != '\n') p++;
    p++;
  }
  sx_assert(hx_eq(sx_out + p, "-----", 5), "no erased word remains");
  sx_reach("end");
}
