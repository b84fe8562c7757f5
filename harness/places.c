/* The place labels of terms: which place of which brivla a term fills, by the
 * rules of The Complete Lojban Language (chapter 9: FA, SE, be/bei, FAI; bridi
 * tails share the terms before them and after their vau). */
#include "hx.h"
#define NW 10
static const char *const WORD[NW] = { "mi", "do", "ti", "ta", "tu", "da", "de", "di", "ko", "ri" };
typedef struct { int kind, w; char label[4][48]; int nl; } Term;      /* kind: 0 plain, 1-5 fa-fu, 6 fai, 7 with a tense or modal */
static Term T_[NW]; static int nt;
static const char *const TAGW[] = { "", "fa ", "fe ", "fi ", "fo ", "fu ", "fai ", "bau " };
#ifndef NLINK
#define NLINK 0
#endif
#ifndef KINDS
#define KINDS 0, 1, 2, 3, 7
#endif
static const unsigned char KIND[] = { KINDS };
typedef struct { int n; int t[NW]; } Vec;
/* a term: absent or one of the kinds, decided symbolically; resolved after the run */
static void put(Vec *v, int absent) { static hx_word W[NW][sizeof KIND + 1]; int i, k = 0;
  if (absent) k++;
  for (i = 0; i < (int)sizeof KIND; i++) { strcpy(W[nt][k], TAGW[KIND[i]]); strcat(W[nt][k++], WORD[nt]); }
  T_[nt].kind = hx_slot("term", W[nt], k) + !absent; T_[nt].w = nt; v->t[v->n++] = nt++; }
static void slots(Vec *v, int n) { while (n--) put(v, 1); }
static void settle(Vec *v) { int i, n = 0; for (i = 0; i < v->n; i++) { Term *t = &T_[v->t[i]]; int k = sx_concretize(t->kind); t->kind = k ? KIND[k - 1] : -1; if (k) v->t[n++] = v->t[i]; } v->n = n; }
typedef struct { const char *name; int place[32], fai, taken[32], faitaken; } Brivla;
static void label(Term *t, const char *name, int pos) { char *l = t->label[t->nl++]; int n; strcpy(l, name); n = strlen(l); l[n] = '0' + pos; strcpy(l + n + 1, " (???)"); }
static void fill(Brivla *b, Vec *v, int base) { int i;
  for (i = 0; i < v->n; i++) { Term *t = &T_[v->t[i]]; if (t->kind >= 1 && t->kind <= 5) { label(t, b->name, b->place[t->kind]); b->taken[t->kind] = 1; } else if (t->kind == 6 && b->fai) label(t, b->name, b->fai); }
  for (i = 0; i < v->n; i++) { Term *t = &T_[v->t[i]]; if (t->kind == 0) { while (b->taken[base]) base++; label(t, b->name, b->place[base]); b->taken[base++] = 1; } else if (t->kind <= 5) base = t->kind + 1; } }
/* conversions: written from the outermost to the innermost */
static const char *const CW[] = { "", "se ", "te ", "ve ", "xe ", "jai " }, *const CS[] = { CONVS };
static int conv(void) { static hx_word W[sizeof CS / sizeof *CS]; int i; const char *s; for (i = 0; i < (int)(sizeof CS / sizeof *CS); i++) { W[i][0] = 0; for (s = CS[i]; *s; s++) strcat(W[i], CW[*s - '0']); } return hx_slot("conversion", W, i); }
static void name(const char *s) { hx_s(s); hx_c(' '); }
static void brivla(Brivla *b, const char *nm, int cv) { int i, n; const char *c = CS[sx_concretize(cv)]; b->name = nm; b->fai = 0; for (i = 0; i < 32; i++) b->place[i] = i, b->taken[i] = 0; for (n = strlen(c); n--; ) { int k = c[n] - '0'; if (k < 5) { int t = b->place[1]; b->place[1] = b->place[k + 1]; b->place[k + 1] = t; } else b->fai = b->place[1]; } }
static Vec pre, links, p1, p2, p3; static Brivla X, Y, Z;
static void cat2(Vec *d, Vec *s) { int i; for (i = 0; i < s->n; i++) d->t[d->n++] = s->t[i]; }
/* be ... bei ... be'o after a brivla; their places count as filled before the other terms are placed */
static void link(void) { int i, k = sx_concretize(sx_choice("links", NLINK + 1)); for (i = 0; i < k; i++) { hx_s(i ? "bei " : "be "); put(&links, 0); } if (k) hx_s("be'o "); }
static hx_word BEFORE[] = { "melbi", "melbi bo", "ke melbi ke'e", "na", "na'e" }, CONN[] = { "je", "ja nai", "joi", "je bo" }, GIHE[] = { "gi'e", "gi'a nai", "gi'e bo", "gi'a ke", "gi'e ba ke" };
int sx_main(void) {
  static char *av[] = { "jbofihe", "-x", 0 }; int c1 = 0, c2 = 0, i, k, r; Vec a;
  switch (FORM) {
  case 0:  /* terms, selbri, terms */
    slots(&pre, NPRE); c1 = conv(); name("klama"); link(); slots(&p1, NPOST); break;
  case 1:  /* in a tanru or in brackets the last one counts */
    slots(&pre, NPRE); hx_slot("before", BEFORE, 5); c1 = conv(); name("klama"); slots(&p1, NPOST); break;
  case 2:  /* connected: both count */
    slots(&pre, NPRE); c1 = conv(); name("klama"); hx_slot("connective", CONN, 4); c2 = conv(); name("cadzu"); slots(&p1, NPOST); break;
  case 3:  /* bridi tails */
    slots(&pre, NPRE); c1 = conv(); name("klama"); slots(&p1, NPOST); hx_slot("connective", GIHE, 5); c2 = conv(); name("cadzu"); slots(&p2, NPOST); hx_s("vau "); slots(&p3, NPOST); break;
  case 4:  /* an abstraction as a sumti: its terms are its own */
    slots(&pre, 1); c1 = conv(); name("djuno"); hx_s("le nu "); slots(&p1, NPRE); c2 = conv(); name("klama"); slots(&p2, NPOST); hx_s("vau kei ku "); slots(&p3, 1); break;
  case 5:  /* a description and relative clauses */
    hx_s("le "); c1 = conv(); name("klama"); link(); hx_s("poi "); slots(&pre, 1); c2 = conv(); name("cadzu"); slots(&p2, NPOST); hx_s("vau ku'o ku cu melbi "); slots(&p3, 1); break;
  }
  sx_stdin(hx_txt, hx_n); r = jbo_main(2, av); sx_observe(r); sx_observe(sx_outlen);
  sx_assert(r == 0, "the text is accepted");
  settle(&pre); settle(&links); settle(&p1); settle(&p2); settle(&p3);
  switch (FORM) {
  case 0: case 1: brivla(&X, "klama", c1); fill(&X, &links, 2); fill(&X, &pre, 1); fill(&X, &p1, 2); break;
  case 2: brivla(&X, "klama", c1); brivla(&Y, "cadzu", c2); fill(&X, &pre, 1); fill(&X, &p1, 2); fill(&Y, &pre, 1); fill(&Y, &p1, 2); break;
  case 3: brivla(&X, "klama", c1); brivla(&Y, "cadzu", c2); a = p1; cat2(&a, &p3); fill(&X, &pre, 1); fill(&X, &a, 2); a = p2; cat2(&a, &p3); fill(&Y, &pre, 1); fill(&Y, &a, 2); break;
  case 4: { int b = 2; brivla(&X, "djuno", c1); brivla(&Y, "klama", c2); fill(&X, &pre, 1); while (X.taken[b]) b++; X.taken[b] = 1; fill(&X, &p3, b + 1); fill(&Y, &p1, 1); fill(&Y, &p2, 2); break; }
  case 5: brivla(&X, "klama", c1); brivla(&Y, "cadzu", c2); brivla(&Z, "melbi", 0); Z.taken[1] = 1; fill(&X, &links, 2); fill(&Y, &pre, 1); fill(&Y, &p2, 2); fill(&Z, &p3, 2); break;
  }
  for (i = 0; i < nt; i++) { Term *t = &T_[i]; static char want[256]; int p, i2; if (t->kind < 0) continue;
    for (p = -1, k = 0; p < 0 && k < (t->nl > 1 ? 2 : 1); k++) {       /* the order of the labels does not matter */
      want[0] = 0; if (t->nl) { strcpy(want, "(["); for (i2 = 0; i2 < t->nl; i2++) { if (i2) strcat(want, ", "); strcat(want, t->label[k ? t->nl - 1 - i2 : i2]); } strcat(want, ":] "); } else strcpy(want, "("); strcat(want, TAGW[t->kind]); if (t->kind == 7) strcat(want, "/?/ "); strcat(want, WORD[t->w]); strcat(want, ")");
      p = hx_find(sx_out, sx_outlen, 0, want); }
    sx_assert(p >= 0, "the term carries the labels of exactly the places it fills"); if (t->nl) sx_reach("labelled"); else sx_reach("unlabelled"); if (t->nl > 1) sx_reach("several"); }
  sx_done();
  return 0;
}
