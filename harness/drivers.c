/* The text, HTML and LaTeX outputs show the same content, and the mark-up of
 * HTML and LaTeX is well formed: each output is decoded to the stream of
 * characters the reader sees (white space aside) and compared. */
#include "hx.h"
#include "dict.h"
extern int one_main(int, char **), two_main(int, char **), three_main(int, char **);
#define MAXS 6000
#define OPENB 1001
#define CLOSEB 1002
static short st[MAXS], sh[MAXS], sl[MAXS]; static int nt, nh, nl;
static const char *o; static int len;
static int ws(int c) { return c == ' ' || c == '\n' || c == '\t'; }
static void put(short *s, int *n, int c) { sx_assert(*n < MAXS, "(harness) stream"); s[(*n)++] = c; }
static int at(int i, const char *p) { int k; for (k = 0; p[k]; k++) if (i + k >= len || o[i + k] != p[k]) return 0; return k; }
/* bracket numbers: an opening and its closing bracket carry the same one */
static int num[64], nnum;
static void number(short *s, int n, int v, int open) {
  if (open) { sx_assert(nnum < 64, "(harness) nesting"); num[nnum++] = v; }
  else { sx_assert(nnum > 0 && num[nnum - 1] == v, "opening and closing bracket carry the same number"); nnum--; }
}
static int digits(int *i) { int v = 0, d = 0; while (*i < len && o[*i] >= '0' && o[*i] <= '9') v = v * 10 + o[(*i)++] - '0', d++; sx_assert(d, "a bracket carries a number"); return v; }
static int brac(int c) { return c == '(' || c == '[' || c == '{' || c == '<' || c == OPENB ? 1 : c == ')' || c == ']' || c == '}' || c == '>' || c == CLOSEB ? 0 : -1; }

static void text(void) {
  int i = 0; o = sx_out; len = sx_outlen; nt = 0;
  while (i < len) { int c = o[i++]; if (ws(c)) continue; if ((c == '`' || c == '\'') && i < len && o[i] == c) { put(st, &nt, '"'); i++; continue; } put(st, &nt, c); }
}

static void html(void) {
  static const char PRO[] = "<HTML>\n<HEAD>\n<TITLE>Lojban translation</TITLE>\n<BODY>\n", EPI[] = "</BODY>\n";
  char stack[16]; int ns = 0, i, e; o = sx_out; len = sx_outlen; nh = 0; nnum = 0;
  sx_assert(at(0, PRO), "HTML starts with its prologue"); i = strlen(PRO);
  e = len - strlen(EPI); sx_assert(e >= i && at(e, EPI), "HTML ends with its epilogue"); len = e;
  while (i < len) { int k, c = o[i];
    if (ws(c)) { i++; continue; }
    if (c == '<') {
      if ((k = at(i, "<B>")) || (k = at(i, "<U>")) || (k = at(i, "<I>"))) { sx_assert(ns < 16, "(harness) tags"); stack[ns++] = o[i + 1]; if (o[i + 1] == 'I') put(sh, &nh, '/'); i += k; }
      else if ((k = at(i, "<FONT SIZE=-1>")) || (k = at(i, "<FONT SIZE=+2>")) ) { stack[ns++] = 'F'; i += k; }
      else if ((k = at(i, "<SUB><FONT SIZE=\"-3\">"))) { int v, op = nh ? brac(sh[nh - 1]) : -1; i += k; v = digits(&i); sx_assert(op >= 0, "a number follows a bracket"); number(sh, nh, v, op); k = at(i, "</FONT></SUB>"); sx_assert(k, "HTML tags are closed in order"); i += k; }
      else if ((k = at(i, "</B>")) || (k = at(i, "</U>")) || (k = at(i, "</I>"))) { sx_assert(ns > 0 && stack[ns - 1] == o[i + 2], "HTML tags are closed in order"); ns--; if (o[i + 2] == 'I') put(sh, &nh, '/'); i += k; }
      else if ((k = at(i, "</FONT>"))) { sx_assert(ns > 0 && stack[ns - 1] == 'F', "HTML tags are closed in order"); ns--; i += k; }
      else if ((k = at(i, "<P>"))) i += k;
      else sx_assert(0, "the character < of the text is escaped in HTML");
      continue; }
    sx_assert(c != '>', "the character > of the text is escaped in HTML");
    if (c == '&') {
      if ((k = at(i, "&lt;"))) put(sh, &nh, '<'); else if ((k = at(i, "&gt;"))) put(sh, &nh, '>'); else if ((k = at(i, "&amp;"))) put(sh, &nh, '&'); else if ((k = at(i, "&quot;"))) put(sh, &nh, '"');
      else sx_assert(0, "the character & of the text is escaped in HTML");
      i += k; continue; }
    put(sh, &nh, c); i++; }
  sx_assert(ns == 0, "HTML tags are closed"); sx_assert(nnum == 0, "brackets are closed in HTML");
}

static void latex(void) {
  static const char PRO[] = "\\begin{document}\n", EPI[] = "\\end{document}\n"; static const char *RAW = "&%#_{}^~$\\";
  char stack[16]; int ns = 0, i, e; o = sx_out; len = sx_outlen; nl = 0; nnum = 0;
  i = hx_find(o, len, 0, PRO); sx_assert(i >= 0, "LaTeX starts with its prologue"); i += strlen(PRO);
  e = len - strlen(EPI); sx_assert(e >= i && at(e, EPI), "LaTeX ends with its epilogue"); len = e;
  while (i < len) { int k, c = o[i], top = ns ? stack[ns - 1] : 0;
    if (ws(c)) { i++; continue; }
    if (c == '}' && top) {
      if (top == 'M') { k = at(i, "}\\/}"); sx_assert(k, "LaTeX groups are closed in order"); } else { k = 1; if (top == 'S') put(sl, &nl, '/'); }
      ns--; i += k; continue; }
    if (c == '~' && top == 'F') { i++; continue; }
    if ((c == '`' || c == '\'') && i + 1 < len && o[i + 1] == c) { put(sl, &nl, '"'); i += 2; continue; }
    if (c == '{' && !top) {
      if ((k = at(i, "{}$^{\\textit{\\scriptsize "))) { int v, op = nl ? brac(sl[nl - 1]) : -1; i += k; v = digits(&i); sx_assert(op >= 0, "a number follows a bracket"); number(sl, nl, v, op); k = at(i, "}}$"); sx_assert(k, "LaTeX groups are closed in order"); }
      else if ((k = at(i, "{\\large{} $\\triangleleft$}"))) { put(sl, &nl, '<'); put(sl, &nl, '<'); } else if ((k = at(i, "{\\large{} $\\triangleright$}"))) { put(sl, &nl, '>'); put(sl, &nl, '>'); }
      else if ((k = at(i, "{\\reflectbox{\\zd\\char233}}"))) { put(sl, &nl, '<'); put(sl, &nl, '-'); }
      else sx_assert(0, "the character { of the text is escaped in LaTeX");
      i += k; continue; }
    if (c == '$') {
      if ((k = at(i, "$\\langle$")) || (k = at(i, "$<$"))) put(sl, &nl, '<'); else if ((k = at(i, "$\\rangle$")) || (k = at(i, "$>$"))) put(sl, &nl, '>');
      else if ((k = at(i, "$\\lceil$")) || (k = at(i, "$\\lfloor$"))) put(sl, &nl, OPENB); else if ((k = at(i, "$\\rceil$")) || (k = at(i, "$\\rfloor$"))) put(sl, &nl, CLOSEB);
      else sx_assert(0, "the character $ of the text is escaped in LaTeX");
      i += k; continue; }
    if (c == '\\') {
      if ((k = at(i, "\\mbox{\\textbf{"))) { sx_assert(!top, "LaTeX groups do not nest"); stack[ns++] = 'M'; }
      else if ((k = at(i, "\\textsl{\\small{}"))) { sx_assert(!top, "LaTeX groups do not nest"); stack[ns++] = 'S'; put(sl, &nl, '/'); }
      else if ((k = at(i, "\\textsl{\\footnotesize{}"))) { sx_assert(!top, "LaTeX groups do not nest"); stack[ns++] = 'F'; }
      else if ((k = at(i, "\\vspace{"))) { int j = i + k; while (j < len && o[j] != '}') j++; k = j + 1 - i; }
      else if ((k = at(i, "\\^{}")) || (k = at(i, "\\~{}"))) put(sl, &nl, o[i + 1]);
      else if ((k = at(i, "\\textbackslash{}"))) put(sl, &nl, '\\');
      else { int d = i + 1 < len ? o[i + 1] : 0; sx_assert(d == '{' || d == '}' || d == '&' || d == '%' || d == '#' || d == '_' || d == '$', "the character \\ of the text is escaped in LaTeX"); put(sl, &nl, d); k = 2; }
      i += k; continue; }
    { int r; for (r = 0; RAW[r]; r++) sx_assert(c != RAW[r], "the special characters of TeX are escaped in the text"); sx_assert(c != '<' && c != '>', "< and > are written in math mode in LaTeX"); }
    put(sl, &nl, c); i++; }
  sx_assert(ns == 0, "LaTeX groups are closed"); sx_assert(nnum == 0, "brackets are closed in LaTeX");
}
int sx_main(void) {
  static char *ax[] = { "jbofihe", "-x", 0 }, *ah[] = { "jbofihe", "-H", 0 }, *al[] = { "jbofihe", "-l", 0 }; int r1, r2, r3, i, ok;
#define SLOT(...) { static hx_word T[] = { __VA_ARGS__ }; hx_slot("slot", T, sizeof T / sizeof *T); }
#define TEXT(s) hx_s(s);
#define CH(set) hx_c(sx_pick("c", set));
#ifndef GLOSS
#define GLOSS "a&<>_ %#^{}"
#endif
  { static Dent D[] = { { "do", "you" }, { "gerku1", "D;dXg" }, { "klama1", "A;gXo" }, { "klama1n", "gXer/gXers" }, { "klama2t", "destXation(s)" }, { "melbi1", "P;bXY" }, { "mi", "mX" }, { "ui", "Xhappy" } };
    int n = sizeof D / sizeof *D, c1 = sx_pick("g", GLOSS), c2 = sx_pick("h", GLOSS); dict_make(D, n); for (i = 0; i < n; i++) { char *p; for (p = dict_val[i]; *p; p++) if (*p == 'X') *p = c1; else if (*p == 'Y') *p = c2; } }
  dict_done();
  TEMPLATE
  sx_stdin(hx_txt, hx_n); r1 = one_main(2, ax); text(); sx_observe(nt);
  sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n); r2 = two_main(2, ah);
  if (r1 == 0) html(); sx_observe(nh);
  sx_outlen = sx_errlen = 0; sx_stdin(hx_txt, hx_n); r3 = three_main(2, al);
  if (r1 == 0) latex(); sx_observe(nl);
#ifdef MUST
  sx_assert(r1 == 0, "the text is accepted");
#endif
  if (r1 == 0) sx_reach("accepted"); else sx_reach("rejected");
  sx_assert(r1 == r2 && r1 == r3, "the kind of output does not change whether the text is accepted");
  if (r1) { sx_done(); return 0; }
  sx_assert(nt == nh, "text and HTML show the same content (length)"); sx_assert(nh == nl, "HTML and LaTeX show the same content (length)");
  ok = 1; for (i = 0; i < nh; i++) ok &= (st[i] == sh[i]) | ((st[i] == '^') & ((sh[i] == '(') | (sh[i] == ')')));
  sx_assert(ok, "text and HTML show the same content");
  ok = 1; for (i = 0; i < nh; i++) ok &= (sl[i] == sh[i]) | ((sl[i] == OPENB) & (sh[i] == '(')) | ((sl[i] == CLOSEB) & (sh[i] == ')'));
  sx_assert(ok, "HTML and LaTeX show the same content");
  sx_done();
  return 0;
}
void sx_on_exit(int code) { }
