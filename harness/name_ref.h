/* Reference for names; the word is in[0..N). */
static _Bool name(void) {
  _Bool ok = C(in[N - 1]), yrun = 0; int i;
  for (i = 0; i < N; i++) {
    unsigned char c = in[i], p = i ? in[i - 1] : 0, n = in[i + 1];
    if (C(c) && C(p)) ok &= perm(p, c) && !(i > 1 && bad3(in[i - 2], p, c));
    if (c == '\'') ok &= (V(p) || p == 'y') && (V(n) || n == 'y');
    if (c == 'y') { ok &= i == 0 || C(p) || p == '\'' || p == 'i' || p == 'u' || (p == 'y' && yrun); if (i == 0) ok &= C(n); yrun = C(p) || (p == 'y' && yrun); }
    if (V(c)) ok &= p != 'y';
  }
  return ok;
}
static _Bool ladoi(int i, int *len) {
  _Bool pre = i == 0 || !C(in[i - 1]);
  _Bool a = in[i] == 'l' && i + 2 < N && in[i + 1] == 'a' && (C(in[i + 2]) || in[i + 2] == '\''), b = i + 3 < N && in[i] == 'l' && in[i + 1] == 'a' && in[i + 2] == 'i' && (C(in[i + 3]) || in[i + 3] == '\''), d = i + 3 < N && in[i] == 'd' && in[i + 1] == 'o' && in[i + 2] == 'i' && (C(in[i + 3]) || in[i + 3] == '\'');
  *len = a ? 2 : 3; return pre && (a || b || d);
}
