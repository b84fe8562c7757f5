/* Logical connectives are translated as the truth function they denote (The
 * Complete Lojban Language, chapter 14: a or, e and, o if and only if, u
 * whether or not; na before negates the first operand, nai after the second
 * one; with forethought nai after the ge negates the first and after the gi
 * the second; se exchanges the operands). */
#include "hx.h"
#include "dict.h"
enum { EK, JEK, GIHEK, GEK, GUHEK, GI };
typedef struct { int kind, na, se, w, nai, of; } Conn;     /* of: for gi the forethought connective it belongs to */
static Conn C[16]; static int nc, open_[8], no;
static hx_word NA_[] = { "", "na" }, SE_[] = { "", "se" }, NAI_[] = { "", "nai" };
static hx_word W[][5] = { { ".a", ".e", ".o", ".u", "ji" }, { "ja", "je", "jo", "ju", "je'i" }, { "gi'a", "gi'e", "gi'o", "gi'u", "gi'i" }, { "ga", "ge", "go", "gu", "ge'i" }, { "gu'a", "gu'e", "gu'o", "gu'u", "gu'i" } };
static void conn(int kind) { Conn *c = &C[nc]; c->kind = kind; c->na = c->se = c->w = c->nai = -1;
  if (kind == GI) { hx_s("gi "); c->of = open_[--no]; c->nai = hx_slot("nai", NAI_, 2); nc++; return; }
  if (kind < GEK) c->na = hx_slot("na", NA_, 2); else open_[no++] = nc;
  c->se = hx_slot("se", SE_, 2); c->w = hx_slot("connective", W[kind], 5); c->nai = hx_slot("nai", NAI_, 2); nc++; }
static const char *const FORMS[] = { FORMSET };
static Dent D[64]; static char K[64][16], V[64][16];
static void fn(char *o, const Conn *c, int na, int nai, int w) { int i, se = c->se > 0;
  for (i = 0; i < 4; i++) { int x = i < 2, y = !(i & 1), t; x ^= na; y ^= nai; if (se) { int s = x; x = y; y = s; }
    t = w == 0 ? x | y : w == 1 ? x & y : w == 2 ? x == y : x; o[i] = w == 4 ? 'Q' : t ? 'T' : 'F'; }
  o[4] = 0; }
int sx_main(void) {
  static char *av[] = { "jbofihe", "-x", 0 }; int i, n = 0, k, r, p = 0; const char *s;
  static const char *const P[] = { "@AFTER", "@GE", "@GI" }, *const S[] = { "AF", "GE", "GI" };
  for (i = 0; i < 17; i++) for (k = 0; k < 3; k++) { int j; for (j = 0; j < 4; j++) K[n][j] = i ? "FT"[(i - 1) >> (3 - j) & 1] : 'Q'; K[n][4] = 0; strcpy(V[n], S[k]); strcat(V[n], K[n]); strcat(K[n], P[k]); D[n].k = K[n]; D[n].v = V[n]; n++; }
  for (i = 1; i < n; i++) for (k = i; k > 0 && strcmp(D[k - 1].k, D[k].k) > 0; k--) { Dent t = D[k]; D[k] = D[k - 1]; D[k - 1] = t; }
  dict_make(D, n); dict_done();
  s = FORMS[sx_concretize(sx_choice("form", sizeof FORMS / sizeof *FORMS))];
  /* in the forms E, J, H, G, U and / are connectives, B is what may follow an afterthought one */
  for (; *s; s++) switch (*s) {
  case 'E': conn(EK); break; case 'J': conn(JEK); break; case 'H': conn(GIHEK); break; case 'G': conn(GEK); break; case 'U': conn(GUHEK); break; case '/': conn(GI); break;
  case 'B': { static hx_word B[] = { "", "bo", "ba bo", "ke", "ba ke" }; hx_slot("group", B, 5); break; }
  case 'T': { static hx_word B[] = { "", "bo", "ba bo", "tu'e" }; hx_slot("group", B, 4); break; }
  case 'b': if (s[1] == '?') { static hx_word B[] = { "", "bo", "ba bo", "ke" }; hx_slot("group", B, 4); s++; break; }   /* fall through */
  default: hx_c(*s); }
  sx_stdin(hx_txt, hx_n); r = jbo_main(2, av); sx_observe(r); sx_observe(sx_outlen);
  sx_assert(r == 0, "the text is accepted");
  for (i = 0; i < nc; i++) { Conn *c = &C[i]; if (c->na >= 0) c->na = sx_concretize(c->na); if (c->se >= 0) c->se = sx_concretize(c->se); if (c->w >= 0) c->w = sx_concretize(c->w); if (c->nai >= 0) c->nai = sx_concretize(c->nai); }
  for (i = 0; i < nc; i++) { Conn *c = &C[i]; static char want[64]; char t[8];
    if (c->kind == GI) { strcpy(want, c->nai ? "gi nai /GI" : "gi /GI"); fn(t, &C[c->of], C[c->of].nai, c->nai, C[c->of].w); }
    else { int j, nai2 = c->nai, na = c->na > 0;
      if (c->kind >= GEK) { na = c->nai; for (j = i; j < nc && !(C[j].kind == GI && C[j].of == i); j++) ; nai2 = C[j].nai; }
      strcpy(want, c->na > 0 ? "na " : ""); if (c->se > 0) strcat(want, "se "); strcat(want, W[c->kind][c->w]); strcat(want, c->nai ? " nai /" : " /"); strcat(want, c->kind < GEK ? "AF" : "GE"); fn(t, c, na, nai2, c->w); }
    strcat(want, t); strcat(want, "/");
    p = hx_find(sx_out, sx_outlen, p, want); sx_assert(p >= 0, "the connective is translated as the truth function it denotes"); p++;
    if (c->w == 4) sx_reach("question"); if (c->kind == GI) sx_reach("forethought"); }
  k = hx_count(sx_out, sx_outlen, "/AF") + hx_count(sx_out, sx_outlen, "/GE") + hx_count(sx_out, sx_outlen, "/GI");
  sx_assert(k == nc, "nothing else is translated as a connective");
  sx_done();
  return 0;
}
