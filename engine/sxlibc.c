/* In-memory stdio + (for the symbolic build) the string/ctype functions. */
#ifndef SX_NATIVE
#define __NO_CTYPE 1
#endif
#include <stddef.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#ifdef SX_NATIVE
#include <stdio.h>
#endif
#include "sx.h"
#ifndef SX_OUTMAX
#define SX_OUTMAX 65536
#endif
char sx_out[SX_OUTMAX]; int sx_outlen; char sx_err[SX_OUTMAX]; int sx_errlen; char *sx_env_dict;
typedef struct sx_file_s { const char *name; char *d; int len, cap, pos, write, eof, un, std, used; } SXFILE;
#define NF 8
static SXFILE files[NF];                     /* stored files */
static SXFILE handles[16];
static SXFILE f_in = {"<stdin>",0,0,0,0,0,0,-1,0,1}, f_out = {"<stdout>",0,0,0,0,1,0,-1,1,1}, f_err = {"<stderr>",0,0,0,0,1,0,-1,2,1};
SXFILE *sx_stdin_f = &f_in, *sx_stdout_f = &f_out, *sx_stderr_f = &f_err;
static SXFILE *findfile(const char *n) { int i; for (i = 0; i < NF; i++) if (files[i].used && !strcmp(files[i].name, n)) return &files[i]; return 0; }
void sx_file_add(const char *name, const char *buf, int len) { int i; SXFILE *f = findfile(name); if (!f) { for (i = 0; i < NF; i++) if (!files[i].used) break; if (i == NF) return; f = &files[i]; } f->used = 1; f->name = name; f->d = malloc(len ? len : 1); memcpy(f->d, buf, len); f->len = len; f->cap = len; }
char *sx_file_data(const char *name, int *len) { SXFILE *f = findfile(name); if (!f) { *len = -1; return 0; } *len = f->len; return f->d; }
void sx_stdin(const char *buf, int len) { f_in.d = malloc(len ? len : 1); memcpy(f_in.d, buf, len); f_in.len = len; f_in.pos = 0; f_in.eof = 0; f_in.un = -1; }
SXFILE *sx_fopen(const char *n, const char *m) {
  int i; SXFILE *s = findfile(n), *h; 
  if (m[0] == 'r' && !s) return 0;
  for (i = 0; i < 16; i++) if (!handles[i].used) break;
  if (i == 16) return 0;
  h = &handles[i];
  if (m[0] == 'w') { sx_file_add(n, "", 0); s = findfile(n); if (!s) return 0; }
  h->used = 1; h->name = s->name; h->pos = 0; h->eof = 0; h->un = -1; h->std = 0; h->write = (m[0] != 'r'); h->d = s->d; h->len = s->len; h->cap = s->cap; if (m[0] == 'a') h->pos = h->len;
  return h;
}
static void sync_(SXFILE *h) { SXFILE *s; if (h->std || !h->write) return; s = findfile(h->name); if (s) { s->d = h->d; s->len = h->len; s->cap = h->cap; } }
int sx_fclose(SXFILE *f) { sync_(f); if (f == &f_in || f == &f_out || f == &f_err) return 0; f->used = 0; return 0; }
int sx_fputc(int c, SXFILE *o) {
  if (o == &f_out) { if (sx_outlen < SX_OUTMAX - 1) { sx_out[sx_outlen++] = c; } return c; }
  if (o == &f_err) { if (sx_errlen < SX_OUTMAX - 1) sx_err[sx_errlen++] = c; return c; }
  if (o->pos >= o->cap) { int nc = o->cap ? o->cap * 2 : 256; o->d = realloc(o->d, nc); o->cap = nc; }
  o->d[o->pos++] = c; if (o->pos > o->len) o->len = o->pos; sync_(o);
  return c;
}
int sx_fputs(const char *s, SXFILE *o) { while (*s) sx_fputc(*s++, o); return 1; }
int sx_puts(const char *s) { sx_fputs(s, &f_out); sx_fputc('\n', &f_out); return 1; }
int sx_fgetc(SXFILE *f) { if (f->un >= 0) { int c = f->un; f->un = -1; return c; } if (f->pos >= f->len) { f->eof = 1; return -1; } return (unsigned char) f->d[f->pos++]; }
int sx_ungetc(int c, SXFILE *f) { if (c < 0) return -1; f->un = (unsigned char) c; f->eof = 0; return c; }
char *sx_fgets(char *b, int n, SXFILE *f) { int i = 0; while (i < n - 1) { int c = sx_fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (i == 0) return 0; b[i] = 0; return b; }
size_t sx_fread(void *p, size_t s, size_t n, SXFILE *f) { size_t i, t = s * n; for (i = 0; i < t; i++) { int c = sx_fgetc(f); if (c < 0) break; ((char *)p)[i] = c; } return s ? i / s : 0; }
size_t sx_fwrite(const void *p, size_t s, size_t n, SXFILE *f) { size_t i, t = s * n; for (i = 0; i < t; i++) sx_fputc(((const unsigned char *)p)[i], f); return n; }
long sx_ftell(SXFILE *f) { return f->pos - (f->un >= 0); }
int sx_fseek(SXFILE *f, long o, int w) { f->pos = w == 0 ? o : w == 1 ? f->pos + o : f->len + o; f->eof = 0; f->un = -1; return 0; }
void sx_rewind(SXFILE *f) { f->pos = 0; f->eof = 0; f->un = -1; }
int sx_feof(SXFILE *f) { return f->eof; }
int sx_ferror(SXFILE *f) { return 0; }
void sx_clearerr(SXFILE *f) { f->eof = 0; }
int sx_fflush(SXFILE *f) { return 0; }
int sx_isatty(int fd) { return 0; }
#ifndef SX_NATIVE
static int errno_; int *__errno_location(void) { return &errno_; }
#endif
int sx_fileno(SXFILE *f) { return f == &f_in ? 0 : f == &f_out ? 1 : f == &f_err ? 2 : 3 + (int)(f - handles); }
int sx_fstat(int fd, struct stat *sb) { int i; char *z = (char *)sb; for (i = 0; i < (int)sizeof *sb; i++) z[i] = 0; sb->st_size = fd >= 3 ? handles[fd - 3].len : 0; return 0; }
void *sx_mmap(void *a, size_t n, int p, int fl, int fd, off_t o) { char *m = malloc(n ? n : 1); memcpy(m, handles[fd - 3].d + o, n); return m; }
int sx_munmap(void *a, size_t n) { return 0; }
void sx_perror(const char *s) { sx_fputs(s, &f_err); sx_fputs(": error\n", &f_err); }
char *sx_getenv(const char *n) { return sx_env_dict; }
typedef void (*sx_sig_t)(int); sx_sig_t sx_signal(int s, sx_sig_t h) { return 0; }

#ifdef SX_NATIVE
static char fmtbuf[1 << 17];
int sx_vfprintf(SXFILE *o, const char *f, va_list ap) { int n = vsnprintf(fmtbuf, sizeof fmtbuf, f, ap); sx_fputs(fmtbuf, o); return n; }
int sx_vsprintf(char *o, const char *f, va_list ap) { int i, n = vsnprintf(fmtbuf, sizeof fmtbuf, f, ap); for (i = 0; i <= n; i++) o[i] = fmtbuf[i]; return n; }
int sx_vsnprintf(char *o, size_t m, const char *f, va_list ap) { return vsnprintf(o, m, f, ap); }
#else
/* A small printf: flags "-0+ #", width, precision, h l ll z, c s d i u x X o p f % */
typedef struct { SXFILE *f; char *p; size_t n, max; } Sink;
static void emit(Sink *k, int c) { if (k->f) sx_fputc(c, k->f); else if (k->n < k->max) k->p[k->n] = c; k->n++; }
static void fmt(Sink *k, const char *f, va_list ap) {
  while (*f) {
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0; char tmp[72]; int n = 0, neg = 0, i;
    if (*f != '%') { emit(k, *f++); continue; }
    f++;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; f++; }
    switch (*f) {
      case '%': emit(k, '%'); f++; break;
      case 'c': { int c = va_arg(ap, int); if (!left) for (i = 1; i < width; i++) emit(k, ' '); emit(k, c); if (left) for (i = 1; i < width; i++) emit(k, ' '); f++; break; }
      case 's': { const char *s = va_arg(ap, const char *); int l = 0; if (!s) s = "(null)"; while ((prec < 0 || l < prec) && s[l]) l++; if (!left) for (i = l; i < width; i++) emit(k, ' '); for (i = 0; i < l; i++) emit(k, s[i]); if (left) for (i = l; i < width; i++) emit(k, ' '); f++; break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long v; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        if (*f == 'p') { lng = 1; alt = 1; }
        if (*f == 'd' || *f == 'i') { long s = lng ? va_arg(ap, long) : va_arg(ap, int); if (s < 0) { neg = 1; v = -(unsigned long)s; } else v = s; } else { v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); plus = space = 0; }
        do { tmp[n++] = dg[v % base]; v /= base; } while (v);
        while (n < prec && n < 64) tmp[n++] = '0';
        { int pre = (neg || plus || space) ? 1 : 0; if (alt && base == 16) pre += 2; if (zero && !left && prec < 0) while (n + pre < width && n < 64) tmp[n++] = '0';
          if (!left) for (i = n + pre; i < width; i++) emit(k, ' ');
          if (neg) emit(k, '-'); else if (plus) emit(k, '+'); else if (space) emit(k, ' ');
          if (alt && base == 16) { emit(k, '0'); emit(k, 'x'); }
          for (i = n - 1; i >= 0; i--) emit(k, tmp[i]);
          if (left) for (i = n + pre; i < width; i++) emit(k, ' '); }
        f++; break; }
      case 'f': case 'g': { double d = va_arg(ap, double); unsigned long ip, fr; long sc = 1; if (prec < 0) prec = 6; for (i = 0; i < prec; i++) sc *= 10; if (d < 0) { neg = 1; d = -d; } ip = (unsigned long)d; fr = (unsigned long)((d - ip) * sc + 0.5); if (fr >= (unsigned long)sc) { ip++; fr -= sc; }
        for (i = 0; i < prec; i++) { tmp[n++] = '0' + fr % 10; fr /= 10; } if (prec) tmp[n++] = '.'; do { tmp[n++] = '0' + ip % 10; ip /= 10; } while (ip); if (neg) tmp[n++] = '-';
        if (!left) for (i = n; i < width; i++) emit(k, ' '); for (i = n - 1; i >= 0; i--) emit(k, tmp[i]); if (left) for (i = n; i < width; i++) emit(k, ' '); f++; break; }
      default: abort();
    }
  }
}
int sx_vfprintf(SXFILE *o, const char *f, va_list ap) { Sink k; k.f = o; k.p = 0; k.n = 0; k.max = 0; fmt(&k, f, ap); return k.n; }
int sx_vsprintf(char *o, const char *f, va_list ap) { Sink k; k.f = 0; k.p = o; k.n = 0; k.max = (size_t)-1; fmt(&k, f, ap); o[k.n] = 0; return k.n; }
int sx_vsnprintf(char *o, size_t m, const char *f, va_list ap) { Sink k; k.f = 0; k.p = o; k.n = 0; k.max = m ? m - 1 : 0; fmt(&k, f, ap); if (m) o[k.n < m ? k.n : m - 1] = 0; return k.n; }
#endif
int sx_printf(const char *f, ...) { int n; va_list ap; va_start(ap, f); n = sx_vfprintf(&f_out, f, ap); va_end(ap); return n; }
int sx_fprintf(SXFILE *o, const char *f, ...) { int n; va_list ap; va_start(ap, f); n = sx_vfprintf(o, f, ap); va_end(ap); return n; }
int sx_sprintf(char *o, const char *f, ...) { int n; va_list ap; va_start(ap, f); n = sx_vsprintf(o, f, ap); va_end(ap); return n; }
int sx_snprintf(char *o, size_t m, const char *f, ...) { int n; va_list ap; va_start(ap, f); n = sx_vsnprintf(o, m, f, ap); va_end(ap); return n; }

#ifndef SX_NATIVE
/* string.h / ctype.h / stdlib.h for the symbolic build */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++; return lc((unsigned char)*a) - lc((unsigned char)*b); }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; while (n && *a == *b) a++, b++, n--; return n ? *a - *b : 0; }
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = x; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *strchr(const char *s, int c) {
#ifndef SX_NATIVE
  if (sx_is_symbolic(c)) { size_t n = strlen(s) + 1; const char *r = 0; while (n--) r = s[n] == (char)c ? s + n : r; return (char *)r; }
#endif
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char *)h; if (!*h) return 0; } }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) if (strchr(set, *s)) return (char *)s; return 0; }
char *strdup(const char *s) { char *r = malloc(strlen(s) + 1); return strcpy(r, s); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
long strtol(const char *s, char **e, int base) { long v = 0; int neg = 0; while (isspace((unsigned char)*s)) s++; if (*s == '-') neg = 1, s++; else if (*s == '+') s++; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; if (e) *e = (char *)s; return neg ? -v : v; }
int atoi(const char *s) { return strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
/* insertion sort (stable); any correct sort is an admissible qsort */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base; size_t i, j; char *t = malloc(sz ? sz : 1);
  for (i = 1; i < n; i++) { memcpy(t, b + i * sz, sz); for (j = i; j > 0 && cmp(b + (j - 1) * sz, t) > 0; j--) memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + j * sz, t, sz); }
  free(t);
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const char *p = (const char *)base + m * sz; int r = cmp(key, p); if (r == 0) return (void *)p; if (r < 0) h = m; else l = m + 1; } return 0;
}
#endif
