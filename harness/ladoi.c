/* Names: la, lai, doi inside a name (bccheck.c), for every well formed name of up to N letters. (CBMC) */
#include "cb.h"
#include "morf.h"
#include "bccheck.h"
#include "morph_ref.h"
unsigned char in[N + 2];
#include "name_ref.h"
int main(void) {
  static char s[N + 2]; int i, split = 7, r, len = 0, f = -1, fl = 0; char *a = 0, *b = 0; _Bool la = 0, yy = 0;
  for (i = 0; i < N; i++) { unsigned char x = nd(); in[i] = x; _Bool up = nd() & 1; ASSUME(C(x) || V(x) || x == 'y' || x == '\''); s[i] = up && x != '\'' ? x - 32 : x; }
  ASSUME(name());
  for (i = N - 1; i >= 0; i--) { if (ladoi(i, &len)) { la = 1; f = i; fl = len; } if (i > 1 && in[i] == 'y' && in[i - 1] == 'y') yy = 1; }
  SHOW(s);
  r = is_bad_cmene(s, &split, &a, &b);
#ifdef REACH
  ASSERT(!(r && la && f == 2 && split), "reach bad name"); ASSERT(r, "reach good name");
#else
  if (yy) { ASSERT(r, "a name with yy is bad"); ASSERT(la || (!a && !b), "nothing is reported to break off when there is nothing"); }
  else {
    ASSERT(la == !!r, "a name is bad exactly if it contains la, lai or doi that does not follow a consonant");
    if (la) { ASSERT(a == s + f && b == s + f + fl, "a bad name is broken up around its first la, lai or doi"); ASSERT(split == 0 || split == 1, "whether the rest is a word of its own is decided"); }
  }
#endif
}
