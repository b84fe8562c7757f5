/* Earley recogniser (native, concrete): which of the texts of a template does
 * the BNF derive?  Reads the template from stdin, prints one 0/1 per text. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "bnf.inc"            /* NR rules R[], each: lhs, length, first; RHS[]; NNT; START */
#define MAXT 40
static int dot0[NR + 1], nd, drule[1 << 14], ddot[1 << 14], nullable[NNT];
static int byl[NNT + 1][NR + 1];
typedef struct { int d, o; } It;
static It *S[MAXT + 1]; static int n[MAXT + 1]; static unsigned char *seen[MAXT + 1];
static int *wait[MAXT + 1];   /* per set: items by the nonterminal they wait for, built when the set is complete */
static void add(int k, int d, int o) { unsigned b = d * (MAXT + 1) + o; if (seen[k][b >> 3] >> (b & 7) & 1) return; seen[k][b >> 3] |= 1 << (b & 7); S[k][n[k]++] = (It){ d, o }; }
static int nxt(int d) { int r = drule[d], p = ddot[d]; return p < R[r].len ? RHS[R[r].first + p] : -1; }
static void close_(int k) {
  static unsigned char pred[NNT]; int i, j; memset(pred, 0, sizeof pred);
  for (i = 0; i < n[k]; i++) { It it = S[k][i]; int x = nxt(it.d);
    if (x < 0) { int l = R[drule[it.d]].lhs; for (j = 0; j < n[it.o]; j++) if (nxt(S[it.o][j].d) == l) add(k, S[it.o][j].d + 1, S[it.o][j].o); }
    else if (x < 1000) { if (!pred[x]) { pred[x] = 1; for (j = 0; byl[x][j] >= 0; j++) add(k, dot0[byl[x][j]], k); } if (nullable[x]) add(k, it.d + 1, it.o); } } }
static void reset(int k) { int i; for (i = 0; i < n[k]; i++) { unsigned b = S[k][i].d * (MAXT + 1) + S[k][i].o; seen[k][b >> 3] = 0; } n[k] = 0; }
static int shift(int k, int t) { int i; reset(k + 1); for (i = 0; i < n[k]; i++) if (nxt(S[k][i].d) == t) add(k + 1, S[k][i].d + 1, S[k][i].o); if (!n[k + 1]) return 0; close_(k + 1); return 1; }
static int accept_(int k) { int i; for (i = 0; i < n[k]; i++) if (nxt(S[k][i].d) < 0 && R[drule[S[k][i].d]].lhs == START && S[k][i].o == 0) return 1; return 0; }
static int ns, cnt[16], len[16][512], tok[16][512][16], npost, post[64];
static void rec(int slot, int k, int alive) {
  int i, j;
  if (slot == ns) { for (i = 0; alive && i < npost; i++) alive = shift(k++, post[i]); putchar('0' + (alive && accept_(k))); return; }
  for (i = 0; i < cnt[slot]; i++) { int a = alive, kk = k; for (j = 0; a && j < len[slot][i]; j++) a = shift(kk++, tok[slot][i][j]); rec(slot + 1, kk, a); } }
static int get(void) { int v; if (scanf("%d", &v) != 1) abort(); return v; }
int main(void) {
  int i, j, k, ch, p0, a = 1, c[NNT] = { 0 };
  for (i = 0; i < NR; i++) { dot0[i] = nd; for (j = 0; j <= R[i].len; j++) drule[nd] = i, ddot[nd++] = j; byl[R[i].lhs][c[R[i].lhs]++] = i; }
  for (i = 0; i < NNT; i++) byl[i][c[i]] = -1;
  do { ch = 0; for (i = 0; i < NR; i++) if (!nullable[R[i].lhs]) { for (j = 0; j < R[i].len; j++) { int x = RHS[R[i].first + j]; if (x >= 1000 || !nullable[x]) break; } if (j == R[i].len) nullable[R[i].lhs] = ch = 1; } } while (ch);
  for (k = 0; k <= MAXT; k++) { S[k] = malloc(sizeof(It) * nd * (k + 1)); seen[k] = calloc(1, (size_t)nd * (MAXT + 1) / 8 + 1); }
  for (j = 0; byl[START][j] >= 0; j++) add(0, dot0[byl[START][j]], 0);
  close_(0); k = 0;
  p0 = get(); for (i = 0; i < p0; i++) { int t = get(); if (a) a = shift(k++, t); }
  ns = get(); for (i = 0; i < ns; i++) { cnt[i] = get(); for (j = 0; j < cnt[i]; j++) { int l = len[i][j] = get(), m; for (m = 0; m < l; m++) tok[i][j][m] = get(); } }
  npost = get(); for (i = 0; i < npost; i++) post[i] = get();
  rec(0, k, a); putchar('\n'); return 0; }
