/* Writes a C function equal to a generated automaton's next state function, one
 * formula per state: the real function is run for every state that can be
 * reached from the initial state and every token. */
#include <stdio.h>
extern int FN(int, int);
int allow_cultural_rafsi;
#define STR_(x) #x
#define STR(x) STR_(x)
static int seen[1 << 16], todo[1 << 16], n;
int main(void) {
  int i, t, u; seen[0] = 1; todo[n++] = 0;
  printf("int %s(int s, int t) {\n__CPROVER_assert(t >= 0 && t < 32 && s >= 0, \"state and token are in the range of the table\");\nunsigned short r = 0; _Bool S;\n", STR(FN));
  for (t = 0; t < 32; t++) printf("_Bool T%d = t == %d;\n", t, t);
  for (i = 0; i < n; i++) { int nx[32], any = 0, s = todo[i]; for (t = 0; t < 32; t++) { nx[t] = FN(s, t); if (nx[t] >= 0) { any = 1; if (nx[t] < 1 << 16 && !seen[nx[t]]) seen[nx[t]] = 1, todo[n++] = nx[t]; } } if (!any) continue;
    printf("S = s == %d;\nr |= ", s);
    for (t = 0; t < 32; t++) if (nx[t] >= 0) { int v = nx[t] + 1; printf("((S & (T%d", t); for (u = t + 1; u < 32; u++) if (nx[u] == v - 1) { printf("|T%d", u); nx[u] = -1; } printf(")) ? %d : 0) | ", v); }
    printf("0;\n"); }
  printf("return (int) r - 1; }\n"); return 0; }
