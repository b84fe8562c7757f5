/* The list of lujvo proposals: every combination of rafsi once, best first, the best ones marked, options only change the presentation. */
#include "hx.h"
#define NW 6
#ifndef NT
#define NT 2
#endif
extern int one_main(int, char **), two_main(int, char **);
char sx_wrd[NW][8], sx_raf[9][8];
static char out1[4096]; static int len1;
typedef struct { int mark, score, n; const char *w; } Line;
static Line L1[80], L2[80]; static int n1, n2;
static const char *hid1; static int hidden1, hidden2, stage;
static int vowel(int c) { return (c == 'a') | (c == 'e') | (c == 'i') | (c == 'o') | (c == 'u'); }
/* splits the list; -1 if a line has another form */
static int parse(const char *o, int n, Line *L, int mark, int score, int *hidden) {
  int p = 0, k = 0; *hidden = 0;
  if (score) for (k = 0; k < 3; k++) { p = hx_find(o, n, p, "\n"); if (p < 0) return -1; p++; }
  k = 0;
  while (p < n) {
    if (o[p] == '(') { int v = 0; p++; while (o[p] >= '0' && o[p] <= '9') v = v * 10 + o[p++] - '0'; *hidden = v; p = hx_find(o, n, p, "\n"); if (p < 0) return -1; p++; continue; }
    if (o[p] == 'N' || o[p] == 'W') { p = hx_find(o, n, p, "\n"); if (p < 0) return -1; p++; continue; }
    if (k >= 80) return -1;
    L[k].mark = 0; L[k].score = 0;
    if (mark) { L[k].mark = o[p++]; if (!score && o[p++] != ' ') return -1; }
    if (score) { while (o[p] == ' ') p++; while (o[p] >= '0' && o[p] <= '9') L[k].score = L[k].score * 10 + o[p++] - '0'; if (o[p] != ' ' || o[p + 1] != ' ') return -1; p += 2; }
    L[k].w = o + p; L[k].n = 0; while (p < n && o[p] != '\n') p++, L[k].n++;
    if (p >= n) return -1;
    p++; k++;
  }
  return k; }
static const char *RF[9];
int sx_main(void) {
  static char *av[12] = { "jvocuhadju", "-R", "-a" }; static char *av2[12] = { "jvocuhadju", "-R" };
  int ac = 3, ac2 = 2, nt = NT, i, j, k, total = 1, rc, S = 1, A = 1, all = 0, q = 0, lng = 0; int w[3], cnt[3];
  strcpy(sx_wrd[0], "mabla"); strcpy(sx_wrd[1], "nekta"); strcpy(sx_wrd[2], "prulu"); strcpy(sx_wrd[3], "brodo"); strcpy(sx_wrd[4], "ce'a"); strcpy(sx_wrd[5], "zvati");
  strcpy(sx_raf[0], "mab"); sx_raf[0][0] = sx_pick("first", "mbt"); sx_raf[0][2] = sx_pick("third", "bnr"); strcpy(sx_raf[1], "mla"); strcpy(sx_raf[2], "mai");
  strcpy(sx_raf[3], "nek"); sx_raf[3][2] = sx_pick("third", "kr"); strcpy(sx_raf[4], "ne'a"); strcpy(sx_raf[5], "cem"); strcpy(sx_raf[6], "zva"); strcpy(sx_raf[7], "vat"); strcpy(sx_raf[8], "za'i");
  if (sx_flag("-l")) { av[ac++] = "-l"; av2[ac2++] = "-l"; lng = 1; }
  if (sx_flag("-b")) { av[ac++] = "-b"; av2[ac2++] = "-b"; lng |= 2; }
  if (sx_flag("-S")) { av2[ac2++] = "-S"; S = 0; }
  if (sx_flag("-A")) { av2[ac2++] = "-A"; A = 0; }
  if (sx_flag("-q")) { av2[ac2++] = "-q"; q = 1; }
  if (sx_flag("-a")) { av2[ac2++] = "-a"; all = 1; }
  for (i = 0; i < nt; i++) { w[i] = sx_concretize(sx_choice("word", NW)); av[ac++] = av2[ac2++] = sx_wrd[w[i]]; }
  av[ac] = av2[ac2] = 0;
  rc = one_main(ac, av);
  stage = 1; len1 = sx_outlen; memcpy(out1, sx_out, len1); sx_outlen = sx_errlen = 0;
  n1 = rc == 0 ? parse(out1, len1, L1, 1, 1, &hidden1) : -2;
  sx_assert(n1 != -1, "the list has one lujvo per line");
  sx_assert(rc == 0, "a list is printed");
  sx_assert(hidden1 == 0, "-a shows all lujvo");
  /* the rafsi each word contributes */
  { static char cand[3][5][6]; int m, want = 1;
    for (i = 0; i < nt; i++) { int last = i == nt - 1, c = 0; static const int ns[NW] = { 3, 2, 0, 0, 1, 3 }, st[NW] = { 0, 3, 5, 5, 5, 6 };
      for (j = 0; j < ns[w[i]]; j++) { const char *r = sx_raf[st[w[i]] + j]; int l = strlen(r); if (!last || vowel(r[l - 1])) strcpy(cand[i][c++], r); }
      if ((c == 0 || (lng & 1)) && strlen(sx_wrd[w[i]]) == 5) { strcpy(cand[i][c], sx_wrd[w[i]]); if (!last) cand[i][c][4] = 0; if (last || (lng & 2) || w[i] != 3) c++; }
      cnt[i] = c; want *= c; }
    sx_observe(want); sx_observe(n1);
    sx_assert(n1 == want, "every combination of rafsi is listed once");
    for (i = 1; i < n1; i++) sx_assert(L1[i - 1].score <= L1[i].score, "the lujvo are listed in the order of their scores");
    for (m = 0; m < want; m++) { int x = m, seen = 0; const char *r[3]; int l = 0; for (i = 0; i < nt; i++) { r[i] = cand[i][x % cnt[i]]; x /= cnt[i]; }
      for (i = 0; i < n1; i++) { /* line i is this combination with optional hyphens */
        int p = 0, ok = 1; for (j = 0; j < nt; j++) { int rl = strlen(r[j]); if (p + rl > L1[i].n) { ok = 0; break; } ok &= hx_eq(L1[i].w + p, r[j], rl); p += rl; if (j < nt - 1 && p < L1[i].n) { int c = L1[i].w[p], e = r[j + 1][0]; if (c != e) { ok &= (c == 'y') | (c == 'r') | (c == 'n'); p++; } else if ((c == 'n' || c == 'r') && 0) p++; } }
        seen += ok & (p == L1[i].n); }
      sx_assert(seen >= 1, "each combination of rafsi is among the proposals"); } }
  /* marks: '!' for the ambiguous rafsi brod, '*' for the best ones */
  for (i = 0; i < n1; i++) { int brod = hx_find(L1[i].w, L1[i].n, 0, "brod") >= 0 && !(L1[i].n >= 5 && hx_eq(L1[i].w + L1[i].n - 5, "brodo", 5) && hx_find(L1[i].w, L1[i].n - 1, 0, "brod") == L1[i].n - 5);
    sx_assert((L1[i].mark == '!') == brod, "lujvo with the rafsi brod are marked with !");
    if (!brod) sx_assert((L1[i].mark == '*') == (L1[i].score == L1[0].score), "exactly the best lujvo are marked with *");
    sx_assert(L1[i].mark == '*' || L1[i].mark == '!' || L1[i].mark == ' ', "a mark is * or ! or nothing"); }
  /* the options change the presentation only */
  rc = two_main(ac2, av2); stage = 2;
  n2 = rc == 0 ? parse(sx_out, sx_outlen, L2, A, S, &hidden2) : -2;
  sx_assert(n2 >= 0, "the list has one lujvo per line with every option");
  sx_assert(n2 == (all || n1 < 8 ? n1 : 8), "at most eight lujvo are shown without -a, all of them with -a");
  sx_assert(hidden2 == (q ? 0 : n1 - n2), "the number of hidden lujvo is reported");
  for (i = 0; i < n2; i++) { sx_assert(L2[i].n == L1[i].n && hx_eq(L2[i].w, L1[i].w, L1[i].n), "the best lujvo are shown, with any option"); if (A) sx_assert(L2[i].mark == L1[i].mark, "the marks are the same with any option"); if (S) sx_assert(L2[i].score == L1[i].score, "the scores are the same with any option"); }
  sx_reach("list"); if (n1 > 8) sx_reach("hidden"); sx_done();
}
void sx_on_exit(int code) {
  sx_assert(code != 0 && sx_errlen > 0, "a refusal is reported and is an error");
  sx_assert(hx_find(sx_out, sx_outlen, 0, "* ") < 0 && hx_find(sx_out, sx_outlen, 0, "Score") < 0, "nothing is proposed when the words are refused");
  sx_reach("refused"); }
