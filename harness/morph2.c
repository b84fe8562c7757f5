/* Upper case letters, commas and foreign characters in words of N letters. (CBMC) */
#include "cb.h"
#include "morf.h"
int allow_cultural_rafsi;
#include "morph_ref.h"
int is_bad_cmene(char *word, int *split, char **ladoi, char **tail) { *split = 0; *ladoi = *tail = 0; return 0; }
int main(void) {
  static char *st[64], **ps = st, *st2[64], **ps2 = st2; int i, j = 0; static char s[N + 1], r[N + 2]; _Bool anyup = 0, foreign = 0;
  unsigned char p = nd(); ASSUME(p <= N + 1);   /* where the comma goes, N + 1: none */
  for (i = 0; i < N; i++) { unsigned char x = nd(); _Bool up = nd() & 1;
    ASSUME(C(x) || V(x) || x == 'y' || x == '\''); s[i] = x; if (x == '\'') up = 0;
    if (i == p) r[j++] = ',';
    r[j] = up ? x - 32 : x; anyup |= up;
#ifdef FOREIGN
    { unsigned char z = nd(); if (nd() & 1) { unsigned char lz = z >= 'A' && z <= 'Z' ? z + 32 : z; ASSUME(z && z != ',' && z != '\'' && !C(lz) && !V(lz) && lz != 'y'); r[j] = z; foreign = 1; } }
#endif
    j++; }
#ifdef PAT
  { static const char pat[] = PAT; for (i = 0; pat[i] && i < N; i++) { unsigned char c = s[i]; char q = pat[i]; ASSUME(q == 'C' ? C(c) : q == 'V' ? V(c) : q == 'x' ? c == 'y' || c == '\'' : 1); } }
#endif
  if (p == N) r[j++] = ',';
  SHOW(r);
  MorfType t = morf_scan(s, &ps, 0), u = morf_scan(r, &ps2, 0);
#ifdef FOREIGN
  ASSERT(!foreign || u == MT_BOGUS, "a word with a character that is not Lojban is rejected");
#else
  if (t == MT_BOGUS) ASSERT(u == MT_BOGUS, "capitals and commas do not make a word");
  else if (anyup && t != MT_CMENE) ASSERT(u == MT_BAD_UPPERCASE, "capitals outside names are reported");
  else { ASSERT(u == t, "capitals in names and commas do not change the kind of word"); ASSERT(ps2 - st2 == ps - st, "and not how many cmavo precede it");
    { int a = 0, n = ps - st; for (i = 0; i <= N; i++) if (i <= n) { int x = st[i] - s, y = st2[i] - r; ASSERT(y == x + (x >= p) || (x == p && y == x), "nor where the words begin"); } } }
#endif
}
