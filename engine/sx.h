/* Harness interface of the symbolic executor; the same harness is compiled
 * natively (with -DSX_NATIVE) to replay counterexamples against the real code. */
#ifndef SX_H
#define SX_H
int  sx_byte(const char *name);              /* fresh symbolic input byte 0..255 */
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_observe(unsigned long v);            /* value compared between sx and the native run */
int  sx_concretize(int v);                   /* case split */
void sx_reach(const char *id);
void sx_done(void) __attribute__((noreturn));
void sx_debug(const char *s, long v);
int  sx_is_symbolic(long v);
/* captured output and virtual files */
extern char sx_out[]; extern int sx_outlen;
extern char sx_err[]; extern int sx_errlen;
void sx_file_add(const char *name, const char *buf, int len);
char *sx_file_data(const char *name, int *len);
void sx_stdin(const char *buf, int len);
extern char *sx_env_dict;
static inline int sx_range(const char *n, int lo, int hi) { int v = sx_byte(n); sx_assume(v >= lo && v <= hi); return v; }
static inline int sx_choice(const char *n, int k) { int v = sx_byte(n); sx_assume(v < k); return v; }
static inline int sx_flag(const char *n) { return sx_choice(n, 2); }
static inline int sx_pick(const char *n, const char *set) { /* one character of a set, not split */
  int v = sx_byte(n); int ok = 0, i; for (i = 0; set[i]; i++) ok |= (v == (unsigned char)set[i]); sx_assume(ok); return v; }
#endif
