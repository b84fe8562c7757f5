/* A text and its normal form (one space between words, comments removed,
 * digits and ':' spelled out) give the same analysis. Two copies of the program
 * run on the two texts. */
#include "hx.h"
extern int one_main(int, char **), two_main(int, char **);
#ifndef K
#define K 4
#endif
static char t2[512]; static int n2;
static char out1[8192]; static int len1, rc1, stage;
static void w2(const char *s) { while (*s) t2[n2++] = *s++; }
int sx_main(void) {
  static char *av[] = { "jbofihe", "-k", 0 };
  int i, depth = 0, inw = 0; 
  static const char *D[] = { "no", "pa", "re", "ci", "vo", "mu", "xa", "ze", "bi", "so" };
  hx_s(HEAD);
  for (i = 0; i < K; i++) hx_c(sx_pick("c", ALPHA));
  hx_s(TAIL);
  sx_stdin(hx_txt, hx_n);
  rc1 = one_main(2, av);
  stage = 1; len1 = sx_outlen; memcpy(out1, sx_out, sx_outlen); sx_outlen = 0; sx_errlen = 0;
  for (i = 0; i < hx_n; i++) {
    int c = (unsigned char)hx_txt[i];
    if (depth) { if (c == '(') depth++; else if (c == ')') depth--; continue; }
    if (c == '(') { depth = 1; w2(" "); }
    else if (c >= '0' && c <= '9') { w2(" "); w2(D[c - '0']); w2(" "); }
    else if (c == ':') w2(" pi'e ");
    else if (c == '\n') w2("\n");
    else if (c == ' ' || c == '\t' || c == '.' || c == '>') w2(" ");
    else t2[n2++] = c;
  }
  if (depth) { sx_reach("unclosed"); sx_assert(rc1 == 3, "an unclosed comment is an error"); sx_done(); }
  sx_stdin(t2, n2);
  { int rc2 = two_main(2, av);
    sx_observe(rc1); sx_observe(len1);
    if (rc1 == 0) sx_reach("accepted"); else sx_reach("rejected");
    sx_assert(rc1 == rc2, "the text and its normal form have the same exit status");
    sx_assert(len1 == sx_outlen, "the text and its normal form give the same analysis (length)");
    sx_assert(hx_eq(out1, sx_out, len1), "the text and its normal form give the same analysis");
  }
  sx_done();
}
/* a quotation word at the very end makes the program leave through exit() */
void sx_on_exit(int code) { }
