/* The dictionary compiler: every definition that was given last, and nothing
 * else, is found in the compiled dictionary, with its translation. The oracle
 * is the list of definitions kept in order, written from the manual page. */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **); extern char *dict_lookup(char *);
#ifndef ML /* longest key or value of the job */
#define ML 64
#endif
typedef struct { char k[ML], v[ML]; int on; } Ent;
#ifndef NE
#define NE 64
#endif
static Ent E[NE]; static int ne, ended;
#define TEXT(s) hx_s(s);
#define CH(set) hx_c(sx_pick("c", set));
#define WORDS(...) { static hx_word T[] = { __VA_ARGS__ }; int v = sx_concretize(sx_choice("word", sizeof T / sizeof *T)); hx_s(T[v]); }
/* n times the letter c */
#define RUN(c) { static int L[] = { LENS }; int i, n = L[sx_concretize(sx_choice("length", sizeof L / sizeof *L))]; for (i = 0; i < n; i++) hx_c(c); }
#define ANY { int c = sx_byte("byte"); sx_assume(c != 0); hx_c(c); }
static int find(const char *k) { int i; for (i = 0; i < ne; i++) if (!strcmp(E[i].k, k)) return i; return -1; }
static Ent *entry(const char *k) { int i = find(k); if (i < 0) { i = ne++; sx_assert(ne <= NE, "(harness) entries"); strcpy(E[i].k, k); } return &E[i]; }
static void undefine(const char *k) { static const char S[] = "nvatq"; char b[ML + 8]; int i, l = strlen(k); strcpy(b, k); b[l + 1] = 0; for (i = 0; S[i]; i++) { b[l] = S[i]; entry(b)->on = 0; } }
static void define(const char *k, const char *v) { Ent *e = entry(k); strcpy(e->v, v); e->on = 1; }
static int dig(int c) { return c >= '0' && c <= '9'; }
/* lujvo used by the jobs and their components */
static const char *CANON[][2] = { { "soirsai", "sonci+sanmi" }, { "sonsai", 0 }, { "selma'o", "se+cmavo" }, { "selcma", "se+cmalu" }, { "bavlamfi'e", "balvi+lamji+finpe" } };
static void mapping(const char *k, const char *v) {
  int l = strlen(k), i, n;
  if (dig(k[l - 1])) undefine(k);
  if (l <= 255 && strlen(v) <= 255) define(k, v); /* the file format has one byte for a length; longer ones are reported */
  if (!dig(k[l - 1])) return;
  for (i = 0; i < (int) (sizeof CANON / sizeof *CANON); i++) if (CANON[i][1] && (n = strlen(CANON[i][0])) < l && !strncmp(k, CANON[i][0], n) && !(k[n] == '\'' || (k[n] >= 'a' && k[n] <= 'z'))) {
    char b[32], d[40]; strcpy(b, CANON[i][1]); n = strlen(b); b[n] = k[l - 1]; b[n + 1] = 0; undefine(b); strcpy(d, "@"); strcat(d, k); define(b, d); }
}
static int sp(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n'; }
static void oracle(const char *t, int n) {
  int i = 0;
  while (i < n) { char k[ML], v[ML]; int nk = 0, nv = 0, col = 0, e = i; while (e < n && t[e] != '\n') e++;
    while (i < e && sp(t[i])) i++;
    if (i < e && t[i] != '#' && t[i] != '!' && t[i] != ';') {
      while (i < e && t[i] != ':') k[nk++] = t[i++];
      if (i < e) { col = 1; i++; while (i < e && t[i] != ':') v[nv++] = t[i++]; }
      k[nk] = v[nv] = 0;
      if (col && nk) mapping(k, v);
    }
    i = e + 1; }
}
static void verify(const char *db) {
  int len, n, i, p, on = 0; char *d = sx_file_data(db, &len); const char *prev = 0;
  sx_assert(len >= 4, "the dictionary is written");
  n = (unsigned char) d[0] << 24 | (unsigned char) d[1] << 16 | (unsigned char) d[2] << 8 | (unsigned char) d[3];
  sx_assert(n >= 0 && 4 + 2 * n <= len, "the dictionary is large enough for its entries");
  p = 4 + 2 * n;
  for (i = 0; i < n; i++) { int kl = (unsigned char) d[4 + 2 * i], vl = (unsigned char) d[5 + 2 * i], f; const char *k = d + p, *v;
    sx_assert(p + kl + vl + 2 <= len, "an entry lies within the dictionary"); v = k + kl + 1; p += kl + vl + 2;
    sx_assert(k[kl] == 0 && (int) strlen(k) == kl && v[vl] == 0 && (int) strlen(v) == vl, "the lengths of an entry are those of its strings");
    if (prev) sx_assert(strcmp(prev, k) < 0, "the entries are in order, each key once"); prev = k;
    f = find(k); sx_assert(f >= 0 && E[f].on, "an entry was defined and not removed"); }
  sx_assert(p == len, "nothing follows the entries");
  for (i = 0; i < ne; i++) { char *v = dict_lookup(E[i].k);
    if (E[i].on) { on++; sx_assert(v != 0, "a defined word is found"); sx_assert(!strcmp(v, E[i].v), "a word has the translation defined last"); sx_reach("found"); }
    else { sx_assert(v == 0, "a word that is not defined is not found"); sx_reach("not found"); } }
  sx_assert(on == n, "every entry is in the dictionary");
}
int sx_main(void) {
  static char *av[6]; int a, r;
  TEMPLATE
  a = hx_n;
  av[0] = "smujajgau"; av[1] = "dict"; av[2] = "src1"; av[3] = 0;
  sx_file_add("src1", hx_txt, a); oracle(hx_txt, a);
#ifdef TEMPLATE2
  { TEMPLATE2 } sx_file_add("src2", hx_txt + a, hx_n - a); oracle(hx_txt + a, hx_n - a);
#ifdef UPDATE
  r = one_main(3, av); sx_assert(r == 0, "compiling succeeds"); av[2] = "src2"; r = two_main(3, av);
#else
  av[3] = "src2"; av[4] = 0; r = one_main(4, av);
#endif
#else
  r = one_main(3, av);
#endif
  sx_assert(r == 0, "compiling succeeds");
  sx_env_dict = "dict"; verify("dict");
  ended = 1; sx_done();
  return 0;
}
void sx_on_exit(int code) { if (!ended) sx_assert(0, "compiling succeeds"); }
