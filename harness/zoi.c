/* zoi / la'o: the quoted text runs up to the next occurrence of the delimiter word. */
#include "hx.h"
#ifndef K
#define K 6
#endif
#ifndef ALPHA
#define ALPHA "xyAX&\xe9 .\n"
#endif
static int form, dl; static char body[K], dlm[4];
static char w[K + 4][K + 4]; static int nw, cut = -1, wl[K + 4];
int sx_main(void) {
  int i;
  hx_opt("-k");
  form = sx_flag("form"); dl = sx_choice("delim", 2);
  hx_s(sx_concretize(form) ? "la'o" : "zoi");
  hx_s(" ."); hx_s(sx_concretize(dl) ? "xy" : "x"); hx_s(". ");
  for (i = 0; i < K; i++) { body[i] = sx_pick("c", ALPHA); hx_c(body[i]); }
  hx_s(" .x. cu .xy. ");
  return hx_run();
}
void sx_on_exit(int code) {
  int i, j, inw = 0, p; const char *d = dl ? "xy" : "x"; 
  sx_observe(sx_outlen); sx_observe(code);
  /* words of everything after the opening delimiter */
  static char all[K + 32]; int na = 0; for (i = 0; i < K; i++) all[na++] = body[i]; { const char *q = " .x. cu .xy. "; while (*q) all[na++] = *q++; }
  static char ww[K + 8][K + 16]; static int wlen[K + 8]; int nword = 0, cur = 0;
  for (i = 0; i <= na; i++) { if (i == na || all[i] == ' ' || all[i] == '.' || all[i] == '\n') { if (cur) { wlen[nword++] = cur; cur = 0; } }
    else { if ((all[i] == '5' || all[i] == ':' || all[i] == '(' || all[i] == '>') && cur == (int)strlen(d) && hx_eq(ww[nword], d, cur)) { wlen[nword++] = cur; break; }   /* the delimiter ends where a word can end */
      ww[nword][cur++] = all[i]; } }
  int end = -1; for (i = 0; i < nword && end < 0; i++) if (wlen[i] == (int)strlen(d) && hx_eq(ww[i], d, wlen[i])) end = i;
  sx_assert(end >= 0, "(harness) a closing delimiter exists");
  if (code == 3) { sx_reach("bad"); return; }      /* the rest of the text is not Lojban */
  p = hx_find(sx_out, sx_outlen, 0, "ZOI : "); sx_assert(p >= 0, "the quotation is one token"); p += 6;
  for (i = 0; i < end; i++) { if (i) { sx_assert(sx_out[p] == ' ', "words of the quoted text are separated by one space"); p++; } sx_assert(hx_eq(sx_out + p, ww[i], wlen[i]), "the quoted text is kept verbatim"); p += wlen[i]; }
  sx_assert(sx_out[p] == '\n', "the quotation ends at the first closing delimiter");
  sx_reach("quoted");
}
