/* Inputs and assertions of harnesses decided by CBMC; with SX_NATIVE the inputs are read from a counterexample. */
#ifdef SX_NATIVE
#include <stdio.h>
#include <stdlib.h>
static FILE *nd_f;
static unsigned char nd(void) { int v = 0; if (!nd_f) nd_f = fopen(getenv("SX_REPLAY"), "r"); if (!nd_f || fscanf(nd_f, "%d", &v) != 1) v = 0; return v; }
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "assumption does not hold\n"); exit(0); } } while (0)
#define ASSERT(c, m) do { if (!(c)) { fprintf(stderr, "assertion failed: %s\n", m); exit(66); } } while (0)
#define SHOW(s) fprintf(stderr, "word: %s\n", s)
#else
unsigned char nd_v[64]; unsigned nd_n;
static unsigned char nd(void) { unsigned char x; nd_v[nd_n] = x; return nd_v[nd_n++]; }
#define ASSUME(c) __CPROVER_assume(c)
#define ASSERT(c, m) __CPROVER_assert(c, m)
#define SHOW(s)
#endif
