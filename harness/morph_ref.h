/* Reference Lojban morphology (The Complete Lojban Language, chapters 3 and 4),
 * written without branches on the letters. Words are lower case. */
static _Bool V(int c) { return c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u'; }
static _Bool C(int c) { return c == 'b' || c == 'c' || c == 'd' || c == 'f' || c == 'g' || c == 'j' || c == 'k' || c == 'l' || c == 'm' || c == 'n' || c == 'p' || c == 'r' || c == 's' || c == 't' || c == 'v' || c == 'x' || c == 'z'; }
static _Bool son(int c) { return c == 'l' || c == 'm' || c == 'n' || c == 'r'; }
static _Bool voiced(int c) { return c == 'b' || c == 'd' || c == 'g' || c == 'j' || c == 'v' || c == 'z'; }
static _Bool sib(int c) { return c == 'c' || c == 'j' || c == 's' || c == 'z'; }
static _Bool perm(int a, int b) { return C(a) && C(b) && a != b && (son(a) || son(b) || voiced(a) == voiced(b)) && !(sib(a) && sib(b)) && !(a == 'c' && b == 'x') && !(a == 'k' && b == 'x') && !(a == 'x' && (b == 'c' || b == 'k')) && !(a == 'm' && b == 'z'); }
static _Bool init(int a, int b) {
  switch (a) {
  case 'b': case 'g': case 'k': case 'f': case 'v': case 'p': case 'x': if (a == 'x' ) return b == 'l' || b == 'r'; return b == 'l' || b == 'r';
  case 'm': return b == 'l' || b == 'r';
  case 'c': return b == 'f' || b == 'k' || b == 'l' || b == 'm' || b == 'n' || b == 'p' || b == 'r' || b == 't';
  case 's': return b == 'f' || b == 'k' || b == 'l' || b == 'm' || b == 'n' || b == 'p' || b == 'r' || b == 't';
  case 'j': return b == 'b' || b == 'd' || b == 'g' || b == 'm' || b == 'v';
  case 'z': return b == 'b' || b == 'd' || b == 'g' || b == 'm' || b == 'v';
  case 'd': return b == 'j' || b == 'r' || b == 'z';
  case 't': return b == 'c' || b == 'r' || b == 's';
  }
  return 0;
}
static _Bool bad3(int a, int b, int c) { return a == 'n' && ((b == 'd' && (c == 'j' || c == 'z')) || (b == 't' && (c == 'c' || c == 's'))); }
static _Bool dv(int a, int b) { return (a == 'a' && (b == 'i' || b == 'u')) || ((a == 'e' || a == 'o') && b == 'i'); }
/* s[i..i+l) has the form, f: C consonant, c second of an initial pair, p second of a permissible pair, V, v second of ai au ei oi, ' */
static _Bool form(const unsigned char *s, int n, int i, const char *f) {
  _Bool ok = 1; int k;
  for (k = 0; f[k]; k++) { if (i + k >= n) return 0; switch (f[k]) {
    case 'C': ok &= C(s[i + k]); break; case 'c': ok &= init(s[i + k - 1], s[i + k]); break; case 'p': ok &= perm(s[i + k - 1], s[i + k]); break;
    case 'V': ok &= V(s[i + k]); break; case 'v': ok &= dv(s[i + k - 1], s[i + k]); break; default: ok &= s[i + k] == f[k]; } }
  return ok; }
static _Bool gismu(const unsigned char *s, int n) { return n == 5 && (form(s, n, 0, "CVCpV") || form(s, n, 0, "CcVCV")); }
/* lujvo: free[i] a rafsi may start at i without regard to the letter before it;
 * cvc[i] a rafsi CVC ends right before i */
static _Bool final(const unsigned char *s, int n, int i) { int l = n - i;
  return (l == 3 && (form(s, n, i, "CVv") || form(s, n, i, "CcV"))) || (l == 4 && form(s, n, i, "CV'V")) || (l == 5 && (form(s, n, i, "CVCpV") || form(s, n, i, "CcVCV"))); }
static _Bool lujvo(const unsigned char *s, int n) {
  _Bool fr[16], cv[16], one[16], ok = 0; int i;
  if (n < 6) return 0;
  for (i = 0; i < 16; i++) fr[i] = cv[i] = one[i] = 0;
  /* first rafsi */
  fr[3] = form(s, n, 0, "CcV"); cv[3] = form(s, n, 0, "CVC");
  fr[5] = (form(s, n, 0, "CVCp") || form(s, n, 0, "CcVC")) && s[4] == 'y';
  { _Bool a = form(s, n, 0, "CVv"), b = form(s, n, 0, "CV'V");   /* these need r or n unless only a CCV follows */
    _Bool ha = n > 4 && ((s[3] == 'r' && s[4] != 'r' && C(s[4])) || (s[3] == 'n' && s[4] == 'r')), hb = n > 5 && ((s[4] == 'r' && s[5] != 'r' && C(s[5])) || (s[4] == 'n' && s[5] == 'r'));
    if (n == 6) ok |= a && form(s, n, 3, "CcV");
    if (n == 7) ok |= b && form(s, n, 4, "CcV");
    one[4] = a && ha; one[5] = b && hb; fr[4] |= one[4]; fr[5] |= one[5]; }
  for (i = 3; i < n; i++) {
    _Bool here, y;
    /* CVC directly before: the pair must be permissible and no forbidden triple may arise */
    here = fr[i] || (cv[i] && perm(s[i - 1], s[i]) && !(i + 1 < n && bad3(s[i - 1], s[i], s[i + 1])));
    /* final rafsi; a hyphen after an initial CVV is not used before a final CCV */
    ok |= here && final(s, n, i) && !((i == 4 || i == 5) && one[i] && n - i == 3 && form(s, n, i, "CcV") && !(i == 5 && form(s, n, 0, "CVCp") && s[4] == 'y'));
    if (i + 3 < n) { fr[i + 3] |= here && (form(s, n, i, "CVv") || form(s, n, i, "CcV")); cv[i + 3] |= here && form(s, n, i, "CVC"); }
    if (i + 4 < n) fr[i + 4] |= here && form(s, n, i, "CV'V");
    if (i + 5 < n) fr[i + 5] |= here && (form(s, n, i, "CVCp") || form(s, n, i, "CcVC")) && s[i + 4] == 'y';
    /* y after CVC: only where it is needed */
    if (i + 2 < n) { y = cv[i] && s[i] == 'y' && C(s[i + 1]) && (!perm(s[i - 1], s[i + 1]) || bad3(s[i - 1], s[i + 1], s[i + 2])); fr[i + 1] |= y; }
  }
  return ok; }
/* first rafsi CVC, y, and a pair that could begin a word: the y is there for the tosmabru test only */
static _Bool tosy(const unsigned char *s, int n) { unsigned char r[16]; int i; if (n < 7) return 0; for (i = 0; i < 16; i++) r[i] = 0; for (i = 0; i + 1 < n; i++) r[i] = s[i < 3 ? i : i + 1]; return form(s, n, 0, "CVCy") && init(s[2], s[4]) && lujvo(r + 0, n - 1); }
