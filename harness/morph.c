/* Word types: every string of N letters, against the reference morphology. (CBMC) */
#include "cb.h"
#include "morf.h"
int allow_cultural_rafsi;
#include "morph_ref.h"
#ifndef N
#define N 6
#endif
unsigned char in[N + 1];
static _Bool L(int i) { return i < N ? V(in[i]) : 0; }
/* cm[k]: the first k letters are a sequence of cmavo that a brivla can follow */
static _Bool vpair(int i) { return dv(in[i], in[i + 1]); }
static _Bool cmstr(int k, _Bool cy) {
  _Bool ok = 1; int i;
  _Bool y = 0;   /* a Cy cmavo has begun: only Cy may follow */
  for (i = 0; i < N; i++) if (i < k) {
    unsigned char c = in[i], p = i ? in[i - 1] : 0, n = i + 1 < k ? in[i + 1] : 0;
    _Bool last = i + 1 == k;
    if (C(c)) ok &= !last && (V(n) || (cy && n == 'y')) && (V(p) || p == 'y' || i == 0);
    if (c == '\'') ok &= V(p) && V(n);
    if (c == 'y') ok &= C(p) && cy && (last || C(n));
    if (y) ok &= !V(c) && c != '\'';
    if (c == 'y') y = 1;
    if (V(c) && V(p)) ok &= vpair(i - 1) || (i == 1 && (p == 'i' || p == 'u') && (last || C(n)));
  }
  if (cy) { /* hesitation */ _Bool h = 1; for (i = 0; i < N; i++) if (i < k) h &= in[i] == 'y'; if (k == 3) h |= in[0] == 'y' && in[1] == '\'' && in[2] == 'y'; ok |= h; }
  return k == 0 || ok;
}
#include "name_ref.h"
/* The check for la, lai and doi is decided by ladoi.c; here it gives any answer. */
char *asked; int ans;
int is_bad_cmene(char *word, int *split, char **ladoi, char **tail) { int x = nd(); ans = x; asked = word; *split = 5; *ladoi = word + 1; *tail = word + 2; return x; }
int main(void) {
  static char *st[64], **ps = st; int i, j; static char s[N + 1]; struct morf_xtra mx;
  for (i = 0; i < N; i++) { unsigned char x = nd(); in[i] = x; ASSUME(C(x) || V(x) || x == 'y' || x == '\''); s[i] = x; }
  in[N] = 0;
#ifdef PAT   /* one part of a case split on the classes of the first letters */
  { static const char pat[] = PAT; for (i = 0; pat[i] && i < N; i++) { unsigned char c = in[i]; char q = pat[i]; ASSUME(q == 'C' ? C(c) : q == 'V' ? V(c) : q == 'x' ? c == 'y' || c == '\'' : 1); } }
#endif
  SHOW(s);
  MorfType t = morf_scan(s, &ps, &mx);
  int k = *ps - s, cnt = ps - st;
#ifdef REACH
  ASSERT(t != MT_GISMU, "reach gismu"); ASSERT(t != MT_LUJVO, "reach lujvo"); ASSERT(t != MT_FUIVLA4, "reach fu'ivla");
  ASSERT(t != MT_CMAVOS || cnt < 1, "reach cmavo"); ASSERT(t != MT_CMENE || mx.u.cmene.is_bad, "reach name"); ASSERT(t != MT_CMENE || !mx.u.cmene.is_bad, "reach bad name");
  ASSERT(t != MT_GISMU || k == 0, "reach prefixed gismu");
#else
  _Bool cm[N + 1], gi[N + 1], lu[N + 1];
  for (i = 0; i <= N; i++) { cm[i] = cmstr(i, 0) && (i == 0 || (i < N && C(in[i]) && (V(in[i - 1])))); gi[i] = i == N - 5 && gismu(in + i, N - i); lu[i] = lujvo(in + i, N - i); }
  _Bool brivla = t == MT_GISMU || t == MT_LUJVO || t == MT_FUIVLA3 || t == MT_FUIVLA3_CVC || t == MT_FUIVLA3X || t == MT_FUIVLA3X_CVC || t == MT_FUIVLA4;
  ASSERT(t != MT_BAD_UPPERCASE, "no upper case is reported for lower case letters");
  /* gismu and lujvo, alone and after cmavo */
  _Bool anyg = 0, anyl = 0; int kg = 0, kl = 0;
  for (i = 0; i < N; i++) { if (cm[i] && gi[i]) { anyg = 1; kg = i; } if (cm[i] && lu[i]) { anyl = 1; kl = i; } }
  if (anyg) ASSERT(t == MT_GISMU && k == kg, "every gismu form is recognised, alone and after cmavo");
  if (t == MT_GISMU) ASSERT(anyg, "only gismu forms are called gismu");
  if (anyl && !anyg) ASSERT(t == MT_LUJVO && k == kl, "every well formed lujvo is recognised, alone and after cmavo (tosmabru rule)");
  if (t == MT_LUJVO) { _Bool ok = 0; for (i = 0; i < N; i++) if (i == k) ok = cm[i] && (lu[i] || tosy(in + i, N - i)); ASSERT(ok, "only well formed lujvo are called lujvo"); }
  /* cmavo */
  _Bool cms = cmstr(N, 1);
  ASSERT(cms == (t == MT_CMAVOS), "exactly the sequences of cmavo are called cmavo");
  if (cms) { int e = 0; _Bool ok = 1; for (i = 0; i < N; i++) if (i == 0 || C(in[i])) { ok &= e <= cnt && st[e] == s + i; e++; } ASSERT(ok && e == cnt + 1, "each cmavo of a sequence is separated at its first letter"); }
  /* names */
  _Bool nm = name();
  ASSERT(nm == (t == MT_CMENE), "exactly the well formed names are called names");
  if (t == MT_CMENE) ASSERT(asked == s && mx.u.cmene.ladoi == s + 1 && mx.u.cmene.tail == s + 2 && mx.u.cmene.can_split == 5 && mx.u.cmene.is_bad == ans, "a name is checked for la, lai and doi and the answer is passed on");
  /* fu'ivla and all words */
  _Bool pairs = 1; for (i = 1; i < N; i++) if (C(in[i]) && C(in[i - 1])) pairs &= perm(in[i - 1], in[i]) && !(i > 1 && bad3(in[i - 2], in[i - 1], in[i]));
  ASSERT(t == MT_BOGUS || pairs, "no word contains a forbidden consonant pair or triple");
  if (brivla) { _Bool clus = 0, ok = 0; int seen = 0;
    for (i = 0; i < N; i++) if (i >= k && in[i] != '\'' && in[i] != 'y') { seen++; if (seen <= 4 && i + 1 < N && C(in[i]) && (C(in[i + 1]) || (in[i + 1] == 'y' && i + 2 < N && C(in[i + 2])))) clus = 1; if (seen <= 4 && i + 1 < N && C(in[i]) && C(in[i+1])) clus = 1; }
    for (i = 0; i < N; i++) if (i == k) ok = cm[i];
    ASSERT(V(in[N - 1]), "every brivla ends in a vowel"); ASSERT(ok || k == 0, "what precedes a brivla is a sequence of cmavo");
    ASSERT(clus, "every brivla has a consonant cluster in its first five letters"); }
  if (t >= MT_FUIVLA3 && t <= MT_FUIVLA4) {
    _Bool y = 0; for (i = 0; i < N; i++) y |= in[i] == 'y';
    ASSERT(!y, "fu'ivla contain no y");
    /* slinku'i test: a cmavo CV before the word must not turn it into a lujvo */
    if (k == 0 && C(in[0]) && C(in[1])) { unsigned char w[N + 3]; w[0] = 'p'; w[1] = 'a'; for (i = 0; i < N; i++) w[i + 2] = in[i]; w[N + 2] = 0; ASSERT(init(in[0], in[1]), "an initial cluster is a permissible initial pair"); ASSERT(!lujvo(w, N + 2), "no fu'ivla fails the slinku'i test"); }
    if (t == MT_FUIVLA3 || t == MT_FUIVLA3_CVC) { char *h = mx.u.stage_3.hyph; _Bool in_ = h > s + 2 && h < s + N - 1; ASSERT(in_, "the hyphen of a stage 3 fu'ivla lies inside the word");
      if (in_) ASSERT((*h == 'r' || *h == 'n' || *h == 'l') && h - (s + k) == (t == MT_FUIVLA3 ? 4 : 3) && C(h[1]), "the hyphen of a stage 3 fu'ivla is the r, n or l after its rafsi"); }
  }
#endif
}
