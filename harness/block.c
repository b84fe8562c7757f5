/* Block output (-b): shows what the HTML output shows, every word above its
 * translation and its labels, all starting in one column; whatever the width
 * (-w), the lines are cut between blocks only, none is wider than the width
 * unless one block is, and none ends early. */
#include "hx.h"
#include "dict.h"
extern int one_main(int, char **), two_main(int, char **), three_main(int, char **);
#define MB 200
#define MR 8
/* the blocks that the HTML output calls for */
typedef struct { char cell[MR][200]; int rows, par, col, w, brac; } Block;
static Block B[MB]; static int nb;
static char html[40000]; static int hn;
static int at(int i, const char *p) { int k; for (k = 0; p[k]; k++) if (i + k >= hn || html[i + k] != p[k]) return 0; return k; }
static int open_; static Block *cur; static int haseng, par;
static void flush(void) { if (open_) nb++; open_ = 0; }
static void need(void) { if (!open_) { sx_assert(nb < MB, "(harness) blocks"); cur = &B[nb]; memset(cur, 0, sizeof *cur); cur->par = par; cur->rows = 2; haseng = 0; open_ = 1; } }
static void app(int row, int c) { char *s = cur->cell[row]; int n = strlen(s); sx_assert(n < 199, "(harness) cell"); s[n] = c; }
/* the characters up to the mark, without white space and with the escapes undone */
static int body(int i, const char *mark, int row, int split) { int k;
  while (!(k = at(i, mark))) { int c = html[i], e; sx_assert(i < hn, "HTML tags are closed");
    if (split && (e = at(i, ", "))) { i += e; row++; sx_assert(row < MR, "(harness) labels"); if (cur->rows <= row) cur->rows = row + 1; continue; }
    if ((e = at(i, "&lt;"))) c = '<'; else if ((e = at(i, "&gt;"))) c = '>'; else if ((e = at(i, "&amp;"))) c = '&'; else e = 1;
    if (c != ' ' && c != '\n') app(row, c); i += e; }
  return i + k; }
static void blocks(void) {
  int i = hx_find(html, hn, 0, "<BODY>"), k, b, tags = 0; i += 6;
  while (i < hn) {
    static const char *const O[] = { "(", "[", "{", "&lt;&lt;<SUB>", "&lt;<SUB>", ")", "]", "}", "&gt;&gt;<SUB>", "&gt;<SUB>" }, *const S[] = { "(", "[", "{", "<<", "<", ")", "]", "}", ">>", ">" };
    if (html[i] == ' ' || html[i] == '\n') { i++; continue; }
    if ((k = at(i, "</BODY>"))) break;
    if ((k = at(i, "<P><P>"))) { flush(); par++; i += k; continue; }
    if ((k = at(i, "<B>"))) { if (open_ && haseng) flush(); need(); i = body(i + k, "</B>", 0, 0); continue; }
    if ((k = at(i, "<I>"))) { need(); haseng = 1; i = body(i + k, "</I>", 1, 0); continue; }
    if ((k = at(i, "<U><FONT SIZE=-1>["))) { flush(); need(); cur->rows = 3; i = body(i + k, ":] </FONT></U>", 2, 1); continue; }
    if ((k = at(i, "&lt;-"))) { need(); haseng = 1; app(1, '<'); app(1, '-'); i += k; continue; }
    if ((k = at(i, "<FONT SIZE=+2>&quot;</FONT>"))) { need(); haseng = 1; app(1, '"'); i += k; continue; }
    for (b = 0; b < 10 && !(k = at(i, O[b])); b++) ;
    sx_assert(b < 10, "(harness) HTML element");
    flush(); need(); cur->brac = 1 + b; haseng = 1; strcpy(cur->cell[0], S[b]); strcpy(cur->cell[1], S[b]); strcpy(cur->cell[2], S[b]); cur->rows = 4;
    i += k; if (b == 3 || b == 4 || b == 8 || b == 9) i -= 5;
    k = at(i, "<SUB><FONT SIZE=\"-3\">"); sx_assert(k, "a bracket carries a number"); i += k; while (html[i] >= '0' && html[i] <= '9') app(3, html[i++]); i += at(i, "</FONT></SUB>");
  }
  flush();
}
/* the groups of lines of a block output: rows of each, blanks at the end ignored */
#define MG 120
static struct { int row[MR + 1], len[MR + 1], n, par; } G[MG]; static int ng;
static void groups(void) { int i = 0, p = 0, in = 0; ng = 0;
  while (i < sx_outlen) { int e = i; while (e < sx_outlen && sx_out[e] != '\n') e++; sx_assert(e < sx_outlen, "the last line ends");
    { int l = e; while (l > i && sx_out[l - 1] == ' ') l--;
      if (e == i) { if (!in) p++; in = 0; }       /* an empty line ends a group; another one, a paragraph */
      else if (!in && l - i == 60 && sx_out[i] == '-' && sx_out[i + 1] == '-' && sx_out[i + 59] == '-') ;
      else { if (!in) { sx_assert(ng < MG, "(harness) groups"); G[ng].n = 0; G[ng].par = p; ng++; in = 1; } { int *n = &G[ng - 1].n; sx_assert(*n <= MR, "(harness) rows"); G[ng - 1].row[*n] = i; G[ng - 1].len[*n] = l - i; (*n)++; } } }
    i = e + 1; } }
static char wide[MB * 20], *wrow[20][MR + 1]; static int wlen[20][MR + 1], wn[20];
static int ch(int p, int r, int c) { return r < wn[p] && c < wlen[p][r] ? wrow[p][r][c] : ' '; }
int sx_main(void) {
  static char *ah[] = { "jbofihe", "-H", 0 }, *aw[] = { "jbofihe", "-x", "-b", "-w", "20000", 0 }; static char num[8]; static char *ab[] = { "jbofihe", "-x", "-b", "-w", num, 0 }; static char all[20000];
  int r1, r2, r3, i, r, k, g, np, W; static const int WS[] = { WIDTHS };
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; hx_slot("slot", T, sizeof T / sizeof *T); }
#define TEXT(s) hx_s(s);
  { static Dent D[] = { { "do", "you" }, { "gerku1", "D;dog" }, { "ke'a", "it" }, { "klama1", "A;goooo" }, { "klama1n", "goer" }, { "klama2", "D;destination" }, { "le", "the" }, { "mi", "me" }, { "ui", "happy" }, { "zo", "word" } }; int l = 1 + sx_concretize(sx_choice("length", LENS)); D[4].v = l == 1 ? "g" : l == 2 ? "goer-and-comer" : "goer"; dict_make(D, sizeof D / sizeof *D); }
  dict_done();
  W = WS[sx_concretize(sx_choice("width", sizeof WS / sizeof *WS))];
  { int d = 100000, v = W, n = 0; while (d > 1 && v < d) d /= 10; for (; d; d /= 10) num[n++] = '0' + v / d % 10; }
  TEMPLATE
  sx_stdin(hx_txt, hx_n); r1 = one_main(2, ah); sx_observe(r1); hn = sx_outlen; sx_assert(hn < (int)sizeof html, "(harness) HTML"); memcpy(html, sx_out, hn);
  sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n); r2 = two_main(5, aw); sx_observe(sx_outlen); sx_assert(r1 == r2, "the layout does not change whether the text is accepted");
  if (r1) { sx_reach("rejected"); sx_done(); return 0; }
  blocks(); groups(); sx_assert(sx_outlen < (int)sizeof all, "(harness) wide output"); memcpy(all, sx_out, sx_outlen);
  np = ng; sx_assert(np <= 20, "(harness) paragraphs"); sx_assert(np == (nb ? par + 1 : 0), "with room enough every paragraph is one group of lines");
  for (g = 0; g < ng; g++) { wn[g] = G[g].n; for (r = 0; r < G[g].n; r++) wrow[g][r] = all + G[g].row[r], wlen[g][r] = G[g].len[r]; }
  for (i = 0; i < nb; i++) { Block *b = &B[i]; int c = i && B[i - 1].par == b->par ? B[i - 1].col + B[i - 1].w : 0, p = b->par, w = 0;
    b->col = c;
    for (r = 0; r < b->rows; r++) { const char *s = b->cell[r]; int x = c, round = b->brac && (s[0] == '(' || s[0] == ')');
      if (!*s) continue;
      if (round && r < 3 && ch(p, r, c) != s[0]) {  /* tall brackets */
        static const char *const OT[2][3] = { { " /", "|", "|" }, { "|", "|", " \\" } }, *const CT[2][3] = { { "\\", " |", " |" }, { " |", " |", "/" } }; int t, ok = 0, m = 1;
        for (t = 0; t < 2; t++) { const char *q = s[0] == '(' ? OT[t][r] : CT[t][r]; int y = 0; while (q[y] && ch(p, r, c + y) == q[y]) y++; if (!q[y]) { ok = 1; m = y; } }
        sx_assert(ok, "brackets are drawn over three lines"); if (m + 1 > w) w = m + 1; x = c + m; s++; if (!*s) continue; }
      else sx_assert(ch(p, r, c) == s[0], "a word and what belongs to it start in the same column");
      while (*s) { if (ch(p, r, x) == ' ') { x++; sx_assert(x < 20000, "everything that HTML shows is shown"); continue; } sx_assert(ch(p, r, x) == *s, "block output shows what HTML shows"); s++; x++; }
      if (!(r > 1 && !b->brac && !strncmp(b->cell[r], "jai+<tag>", 9)) && !(r == 1 && !b->brac && (b->cell[1][strlen(b->cell[1]) - 1] == '-' || b->cell[1][strlen(b->cell[1]) - 1] == '"'))) x++;
      if (x - c > w) w = x - c; }
    b->w = w; }
  for (g = 0; g < ng; g++) { int e = 0; for (i = 0; i < nb; i++) if (B[i].par == g) e = B[i].col + B[i].w; for (r = 0; r < wn[g]; r++) sx_assert(wlen[g][r] <= e, "nothing else is shown"); }
  for (i = 0; i < nb; i++) { int p = B[i].par, c; for (r = B[i].rows; r < wn[p]; r++) for (c = B[i].col; c < B[i].col + B[i].w; c++) sx_assert(ch(p, r, c) == ' ', "a block has no more lines than labels"); }
  sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n); r3 = three_main(5, ab); sx_observe(sx_outlen); sx_assert(r3 == 0, "the width does not change whether the text is accepted");
  groups();
  for (g = 0, i = 0; i < nb; g++) { int p = B[i].par, s = B[i].col, e = s + B[i].w, j = i + 1, c;
    while (j < nb && B[j].par == p && e + B[j].w - s <= W) e += B[j++].w;
    sx_assert(g < ng, "every block is shown");
    for (r = 0; r < (wn[p] > G[g].n ? wn[p] : G[g].n); r++) for (c = s; c < e; c++) sx_assert(ch(p, r, c) == (r < G[g].n && c - s < G[g].len[r] ? sx_out[G[g].row[r] + c - s] : ' '), "the lines are the wide lines cut between blocks at the width");
    for (r = 0; r < G[g].n; r++) sx_assert(G[g].len[r] <= e - s, "no line is wider than its blocks");
    if (j < nb && B[j].par == p) sx_reach("cut"); if (e - s > W) sx_reach("wide block");
    i = j; }
  sx_assert(g == ng, "nothing is shown twice"); sx_reach("laid out");
  sx_done();
  return 0;
}
void sx_on_exit(int code) { }
