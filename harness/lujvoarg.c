/* Any argument words: only the words of the list, in either case and with h for ', are components; everything else is refused. */
#include "hx.h"
char sx_wrd[6][8], sx_raf[9][8];
static int want = -1, ver;
int sx_main(void) {
  static char *av[6] = { "jvocuhadju", 0 }; static char a[6][700]; int i, k, ac = 1, okw = 1, n = 0, bad = 0;
  static const char *tab[6] = { "mabla", "nekta", "prulu", "brodo", "ce'a", "zvati" };
  for (i = 0; i < 6; i++) strcpy(sx_wrd[i], tab[i]);
  for (i = 0; i < 9; i++) strcpy(sx_raf[i], i & 1 ? "mla" : "vai"); strcpy(sx_raf[5], "cem");
  for (k = 0; k < 2; k++) { int len = sx_concretize(sx_choice("length", 8)), is = 0; 
    if (len == 7) { len = 650; memset(a[k], 'b', len); for (i = 0; i < 6; i++) a[k][len - 6 + i] = "mabla"[i]; }
    else for (i = 0; i < len; i++) a[k][i] = sx_pick("c", "mablcehMAB'-vti");
    a[k][len] = 0;
    if (len < 7 && len > 0 && a[k][0] == '-') { bad = 1; if (len == 2 && (a[k][1] == 'v')) ver = 1; }
    else { n++; for (i = 0; i < 6; i++) { int l = strlen(tab[i]), eq = 1, j; if (l == len) { for (j = 0; j < l; j++) { int c = a[k][j]; c += 32 * ((c >= 'A') & (c <= 'Z')); c += ('\'' - 'h') * (c == 'h'); eq &= c == tab[i][j]; } is |= eq; } } okw &= is; }
    av[ac++] = a[k]; }
  av[ac] = 0;
  { int e = bad | (n < 2) | !okw, rc; want = e; if (e) sx_reach("refuse"); else sx_reach("take"); rc = jbo_main(ac, av); sx_observe(rc); sx_assert(rc == 0 && !e, "words that are not in the list, and unknown options, are refused"); }
  sx_done();
}
void sx_on_exit(int code) {
  sx_assert((code != 0 || ver) && sx_errlen > 0, "a refusal is an error with a message");
  sx_assert(want == 1 || hx_find(sx_err, sx_errlen, 0, "No matching rafsi") >= 0, "words of the list are accepted in either case and with h for '");
  sx_reach("refused"); }
