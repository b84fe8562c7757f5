/* The other way round: any well formed lujvo of the given shape (its letters are
 * symbolic) whose rafsi are known is among the lujvo that jvocuhadju makes of
 * the components under which the dictionary compiler enters it. */
#include "hx.h"
#include "morph_ref.h"
extern int one_main(int, char **), two_main(int, char **);
static int stage;
int sx_main(void) {
  static char *a1[20] = { "jvocuhadju", "-a", "-l", "-q", "-S", "-A", "-R" }, *a2[] = { "smujajgau", "out", "src", 0 };
  static char w[24], src[40], comp[64]; static const char *PS[] = { PATS }; const char *P = PS[sx_concretize(sx_choice("pattern", sizeof PS / sizeof *PS))]; int ncomp = *P++ - '0', i, j, n = strlen(P), k = 7, len, r; char *d, *key = 0;
  for (i = 0; i < n; i++) w[i] = P[i] == 'C' ? sx_pick("c", CONS) : P[i] == 'V' ? sx_pick("v", "aeiou") : P[i];
  sx_assume(lujvo((unsigned char *)w, n));
  memcpy(src, w, n); strcpy(src + n, "1:x\n"); sx_file_add("src", src, n + 4);
  i = two_main(3, a2); sx_assert(i == 0, "the dictionary is made"); sx_outlen = sx_errlen = 0;
  d = sx_file_data("out", &len); sx_assert(d && len > 4, "the dictionary is written");
  { int ne = (unsigned char)d[0] << 24 | (unsigned char)d[1] << 16 | (unsigned char)d[2] << 8 | (unsigned char)d[3], p = 4 + 2 * ne;
    for (i = 0; i < ne; i++) { if (strchr(d + p, '+')) { sx_assert(!key, "one decomposition"); key = d + p; } p += (unsigned char)d[4 + 2 * i] + (unsigned char)d[5 + 2 * i] + 2; } }
  sx_assert(key != 0, "the lujvo is entered under its components");
  if (strchr(key, '?')) { sx_reach("unknown rafsi"); sx_done(); }
  for (i = j = 0; key[i]; i++) comp[j++] = key[i]; comp[j] = 0; sx_assert(j > 0 && comp[j - 1] == '1', "of its place"); comp[--j] = 0;
  a1[k++] = comp; for (i = 0; i < j; i++) if (comp[i] == '+') { comp[i] = 0; a1[k++] = comp + i + 1; }
  sx_assert(k - 7 == ncomp, "as many components as rafsi");
  for (i = 0; i < j; i++) comp[i] = sx_concretize((unsigned char)comp[i]);
  stage = 1; r = one_main(k, a1); sx_observe(r);
  for (i = 0; i < sx_outlen; ) { int ok; for (j = i; j < sx_outlen && sx_out[j] != '\n'; j++) ; while (i < j && sx_out[i] == ' ') i++; ok = j - i == n; if (ok) ok = hx_eq(sx_out + i, w, n); if (ok) { sx_reach("found"); sx_done(); } i = j + 1; }
  sx_assert(0, "jvocuhadju makes the lujvo of its components");
}
void sx_on_exit(int code) { sx_assert(stage == 1 && code != 0, "no program gives up"); sx_reach("not in the list"); sx_done(); }
