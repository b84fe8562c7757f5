/* Native replay: input bytes come from the file named in SX_REPLAY (one number
 * per line); exit status 66 = property assertion failed, 67 = abort()/assert()
 * in the code, 77 = an assumption does not hold, 0 = finished. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sx.h"
static FILE *rf, *of; static int n_in;
static void init(void) { static int d; const char *p; if (d) return; d = 1; p = getenv("SX_REPLAY"); if (p) rf = fopen(p, "r"); p = getenv("SX_OBS"); if (p) of = fopen(p, "w"); }
static void fin(int c) { if (of) fclose(of); fflush(stdout); fflush(stderr); if (getenv("SX_SHOW")) { fwrite(sx_out, 1, sx_outlen, stdout); fwrite(sx_err, 1, sx_errlen, stderr); fflush(stdout); } _exit(c); }
int sx_byte(const char *name) { int v = 0; init(); if (rf && fscanf(rf, "%d", &v) != 1) v = 0; n_in++; return v & 255; }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-ASSUME failed\n"); fin(77); } }
void sx_assert(int c, const char *m) { init(); if (!c) { fprintf(stderr, "SX-ASSERT failed: %s\n", m); fin(66); } }
void sx_observe(unsigned long v) { init(); if (of) fprintf(of, "%lu\n", v); }
int sx_concretize(int v) { return v; }
void sx_reach(const char *i) { }
void sx_debug(const char *s, long v) { }
int sx_is_symbolic(long v) { return 0; }
void sx_done(void) { init(); fin(0); for (;;); }
void sx_on_exit(int) __attribute__((weak));
void sx_on_abort(void) __attribute__((weak));
static int exiting;
void sx_exit(int c) { init(); if (sx_on_exit && !exiting) { exiting = 1; sx_on_exit(c); } fin(0); for (;;); }
void sx_abort(void) { init(); if (sx_on_abort && !exiting) { exiting = 1; sx_on_abort(); fin(0); } fprintf(stderr, "SX-ABORT abort() called\n"); fin(67); for (;;); }
void sx_assert_fail(const char *e, const char *f, int l) { init(); if (sx_on_abort && !exiting) { exiting = 1; sx_on_abort(); fin(0); } fprintf(stderr, "SX-ABORT assertion %s at %s:%d\n", e, f, l); fin(67); for (;;); }
int sx_main(void);
int main(void) { int r = sx_main(); sx_exit(r); }
