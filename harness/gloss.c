/* Glosses: the translation shown for a brivla in each context is the one the
 * dictionary entry of that place, its class and the overriding entries demand
 * (smujajgau(1), "special translation formats", and the table in translate.c). */
#include "hx.h"
#include "dict.h"
static char exp_[256], g[16], sub[64], line[512]; static int ended;
#ifndef GSET
#define GSET "esychat /*"
#endif
#ifndef PLACES
#define PLACES "12345"
#endif
#ifndef GL
#define GL 5
#endif
static int vow(int c) { return c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u'; }
static int cons(int c) { return c >= 'a' && c <= 'z' && !vow(c) && c != 'y'; }
static int mark(const char *x, int i) { return x[i] == '*' && (x[i + 1] == 0 || x[i + 1] == ' ' || x[i + 1] == '/'); }
static int starts(const char *x, const char *p) { while (*p) if (*x++ != *p++) return 0; return 1; }
/* an English word with a suffix: 's' plural, 'r' actor, 'i' participle */
static int word(char *o, int n, const char *x, int l, int kind) {
  int i, e = l > 0 ? x[l - 1] : 0, b = l > 1 ? x[l - 2] : 0, cut = kind == 'i' && e == 'e' && l > 1 && !vow(b); const char *s;
  for (i = 0; i < l - cut; i++) o[n++] = x[i];
  if (kind == 's') s = e == 's' || e == 'z' || e == 'x' || (e == 'h' && b == 'c') ? "(es)" : e == 'y' && cons(b) ? "(ies)" : "(s)";
  else if (kind == 'r') s = e == 'e' ? "-r(s)" : "-er(s)";
  else s = "-ing";
  while (*s) o[n++] = *s++;
  return n; }
/* the suffix goes to every marker, or to the end when there is none */
static void suffix(char *o, const char *x, int kind) {
  int n = 0, i, from = 0, any = 0;
  for (i = 0; x[i]; i++) if (mark(x, i)) { const char *r = x + i + 1; n = word(o, n, x + from, i - from, kind); any = 1; from = i + 1;
    if (kind == 'r') { while (*r == ' ') r++; if (!starts(r, "in") && !starts(r, "at") && !starts(r, "with") && !starts(r, "through")) { const char *s = " of"; while (*s) o[n++] = *s++; } } }
  if (!any) n = word(o, n, x, i, kind); else while (from < i) o[n++] = x[from++];
  o[n] = 0; }
static void bare(char *o, const char *x) { int i, n = 0; for (i = 0; x[i]; i++) if (!mark(x, i)) o[n++] = x[i]; o[n] = 0; }
enum { N, V, Q, TAG };
#define BP (base[0] == 't' ? 3 : p)
/* the gloss of an entry of class c with the text x; nf: its noun form, if there is one */
static void gloss(char *o, int c, const char *x, int ctx, const char *nf) {
  char t[200];
  switch (c) {
  case 'D': case 'E':
    suffix(t, x, 's');
    if (ctx == N) strcpy(o, t); else if (ctx == Q) { bare(o, x); strcat(o, "-ish"); } else { strcpy(o, ctx == V ? "being " : ""); strcat(o, nf ? nf : t); } break;
  case 'S':
    bare(t, x);
    if (ctx == N) strcpy(o, t); else if (ctx == Q) { strcpy(o, t); strcat(o, "-ish"); } else { strcpy(o, ctx == V ? "being " : ""); strcat(o, nf ? nf : t); } break;
  case 'A': suffix(o, x, ctx == N || ctx == TAG ? 'r' : 'i'); break;
  case 'P': bare(t, x); strcpy(o, ctx == V ? "being " : ""); strcat(o, t); if (ctx == N || ctx == TAG) strcat(o, " thing(s)"); break;
  case 'R': bare(t, x); strcpy(o, ctx == V ? "being " : ctx == Q ? "" : "thing(s) "); strcat(o, t); break;
  case 'I': suffix(t, x, 'i'); strcpy(o, ctx == N || ctx == TAG ? "thing(s) " : ""); strcat(o, t); break;
  default: strcpy(o, x); } }
static Dent D[24]; static char K[24][32], X[24][64]; static int nd;
static void entry(const char *k, int place, const char *suf, int c, const char *x) {
  char *p = K[nd], *v = X[nd]; strcpy(p, k); p += strlen(p); *p++ = '0' + place; strcpy(p, suf);
  if (c) { *v++ = c; *v++ = ';'; } strcpy(v, x); nd++; }
static void add(void) { int i, j; for (i = 0; i < nd; i++) { D[i].k = K[i]; D[i].v = X[i]; } for (i = 1; i < nd; i++) for (j = i; j > 0 && strcmp(D[j - 1].k, D[j].k) > 0; j--) { Dent t = D[j]; D[j] = D[j - 1]; D[j - 1] = t; } dict_make(D, nd); dict_done(); }
static int cls(const char *n) { return "ADSPRIE"[sx_concretize(sx_choice(n, 7))]; }
static void text(char *t) { int i, l = 1 + sx_concretize(sx_choice("length", GL)); for (i = 0; i < l; i++) t[i] = sx_pick("g", GSET); t[l] = 0; sx_assume(t[0] >= 'a'); for (i = 0; i < l; i++) sx_assume(t[i] != '*' || mark(t, i)); }
int sx_main(void) {
  static char *av[] = { "jbofihe", "-x", 0 }; static const char *CONV[] = { "", "se ", "te ", "ve ", "xe " }, *FA[] = { "fa", "fe", "fi", "fo", "fu" }, *SUF[] = { "n", "v", "q", "t" }; static const char *WORD = "klama"; const char *base = "klama", *nf = 0; int c, ctx, p, r, xf;
  ctx = sx_concretize(sx_choice("context", 4)); p = PLACES[sx_concretize(sx_choice("place", sizeof PLACES - 1))] - '0';
#ifdef PATTERN   /* a lujvo whose last component has a pattern: class;a %<place><context> b */
  { static char x[16], pat[32]; static const char PC[] = "nvqta"; int cc = cls("class"), pc = sx_concretize(sx_choice("pattern context", 5)), pp = 1 + sx_concretize(sx_choice("pattern place", 2)), pre = sx_concretize(sx_choice("prefix", 2)), k = 0, red = sx_concretize(sx_choice("redirect", 2));
    WORD = pre ? "nalzu'e" : "mlezma"; if (pre) WORD = "norkla";
    text(x); c = cc; entry("melbi", pp, "", cc, x); if (pre) entry("klama", pp, "", cc, x);
    if (red) { pat[0] = '@'; pat[1] = '0' + pp; pat[2] = 0; entry(pre ? "*2no'e+" : "*2+zmadu", p, "", 0, pat); gloss(exp_, cc, x, ctx, 0); }
    else { int c2 = cls("pattern class"); static char pt[64]; strcpy(pt, "so %"); pt[4] = '0' + pp; pt[5] = PC[pc]; strcpy(pt + 6, sx_concretize(sx_choice("mark", 2)) ? "* us" : "y"); entry(pre ? "*2no'e+" : "*2+zmadu", p, "", c2, pt); strcpy(sub, "so "); gloss(sub + 3, cc, x, pc == 4 ? Q : pc, 0); strcat(sub, pt + 6); gloss(exp_, c2, sub, ctx, 0); }
    if (sx_concretize(sx_choice("lower", 2))) entry(pre ? "*1no'e+" : "*1+zmadu", p, "", 'D', "wrong");   /* a pattern of lower precedence */
    add(); goto run; }
#endif
#ifdef LUJVO   /* a lujvo without entry: its components' glosses */
  { static char a[16], b[16]; int ca = cls("class"), cb = cls("class"); WORD = "norkla"; text(a); text(b); WORD = "mlekla"; entry("melbi", 1, "", ca, a); entry("klama", p, "", cb, b); gloss(exp_, ca, a, Q, 0); strcat(exp_, "-"); gloss(sub, cb, b, N, 0); strcat(exp_, sub); strcat(exp_, "??"); add(); goto run; }
#endif
  text(g); c = sx_concretize(sx_choice("plain", 2)) ? 0 : cls("class");
  
#ifdef ONLY
  entry(base, p, "", c, g); xf = 0; gloss(exp_, c, g, ctx, nf);
#else
  if (sx_concretize(sx_choice("redirect", 2))) { static char red[16] = "@tavla3"; entry("klama", p, "", 0, red); base = "tavla"; entry(base, 3, "", c, g); }
  else entry(base, p, "", c, g);
  if (sx_concretize(sx_choice("noun form", 2))) entry(base, BP, "n", 0, nf = "oxen");
  xf = sx_concretize(sx_choice("explicit form", 3));
  if (xf && !(ctx == N && nf) && !(xf == 2 && ctx != Q)) entry(base, BP, xf == 2 ? "a" : SUF[ctx], 0, "quux"), strcpy(exp_, "quux");
  else if (ctx == N && nf) strcpy(exp_, nf);
  else gloss(exp_, c, g, ctx, nf);
#endif
  entry(base, BP == 1 ? 2 : 1, "", 'D', "wrong"); entry("melbi", 1, "", 'P', "other");
  add();
#if defined PATTERN || defined LUJVO
run:
#endif
  if (ctx == TAG) { hx_s(FA[p - 1]); hx_s(" do "); hx_s(WORD); strcpy(line, "["); strcat(line, WORD); line[strlen(line) + 1] = 0; line[strlen(line)] = '0' + p; strcat(line, " ("); strcat(line, exp_); strcat(line, "):]"); }
  else { hx_s(ctx == V ? "do " : "le "); hx_s(CONV[p - 1]); hx_s(WORD); if (ctx == Q) hx_s(" gerku"); hx_s(ctx == V ? "" : " cu melbi"); strcpy(line, CONV[p - 1]); strcat(line, WORD); strcat(line, " /"); strcat(line, exp_); strcat(line, "/"); }
  sx_stdin(hx_txt, hx_n); r = jbo_main(2, av); sx_observe(r); sx_observe(sx_outlen);
  sx_assert(r == 0, "the text is accepted");
  { int i, n = strlen(line), k; for (i = 0; i + n <= sx_outlen; i++) { for (k = 0; k < n && sx_out[i + k] == line[k]; k++) ; if (k == n) break; }
    if (ctx == N) sx_reach("noun"); if (ctx == V) sx_reach("verb"); if (ctx == Q) sx_reach("qualifier"); if (ctx == TAG) sx_reach("tag");
    sx_assert(i + n <= sx_outlen, "the gloss is the one the entry demands in this context"); }
  ended = 1; sx_done();
  return 0;
}
void sx_on_exit(int code) { sx_assert(ended, "the program does not leave early"); }
