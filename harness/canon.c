/* The components of a lujvo: every lujvo that jvocuhadju makes of two or three
 * words is taken apart into those words by the dictionary compiler (and thus by
 * the translation, which uses the same code). */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **);
static const char *const WD[] = {
#include "words.h"
};
#ifndef MOREOPT
#define MOREOPT
#endif
static char list[8192]; static int nl, stage;
int sx_main(void) {
  static char *a1[10] = { "jvocuhadju", "-a", "-l", "-q", "-S", "-A", "-R" }, *a2[] = { "smujajgau", "out", "src", 0 };
  static char src[16384], want[40]; int i, j, n = 0, k = 7, len, hits = 0, w; char *d;
  w = sx_concretize(sx_range("word, high", 0, (int)(sizeof WD / sizeof *WD - 1) / 64)) * 64; w += sx_concretize(sx_choice("word, low", 64)); sx_assume(w < (int)(sizeof WD / sizeof *WD));
#ifdef WPRE
  a1[k++] = WPRE; strcat(want, WPRE "+");
#endif
  a1[k++] = (char *)WD[w]; strcat(want, WD[w]);
#ifdef WPOST
  a1[k++] = WPOST; strcat(want, "+" WPOST);
#endif
  strcat(want, "1");
  i = one_main(k, a1); sx_observe(i);
  nl = sx_outlen; memcpy(list, sx_out, nl); sx_outlen = sx_errlen = 0; stage = 1;
  for (i = 0; i < nl; ) { for (j = i; j < nl && list[j] != '\n'; j++) ; for (; i < j; i++) if (list[i] != ' ') src[n++] = list[i]; strcpy(src + n, "1:x\n"); n += 4; i = j + 1; }
  if (!n) { sx_reach("no lujvo"); sx_done(); }
  sx_file_add("src", src, n); i = two_main(3, a2); sx_assert(i == 0, "the dictionary is made");
  d = sx_file_data("out", &len); sx_assert(d && len > 4, "the dictionary is written");
  { int ne = (unsigned char)d[0] << 24 | (unsigned char)d[1] << 16 | (unsigned char)d[2] << 8 | (unsigned char)d[3], p = 4 + 2 * ne;
    for (i = 0; i < ne; i++) { char *key = d + p; p += (unsigned char)d[4 + 2 * i] + (unsigned char)d[5 + 2 * i] + 2;
      if (strchr(key, '+')) { hits++; sx_assert(!strcmp(key, want), "the lujvo is taken apart into the words it was made of"); } else if (strchr(key, '?')) sx_assert(0, "every rafsi is known"); } }
  sx_assert(hits > 0, "the lujvo is entered under its components"); sx_reach("lujvo");
  sx_done();
}
void sx_on_exit(int code) { if (stage) sx_assert(0, "the dictionary compiler does not give up"); else sx_done(); }
