/* Force-included into every translation unit under test: routes stdio and a
 * few system calls to the in-memory model in sxlibc.c, in the symbolic and in
 * the native build alike. */
#ifndef SXSHIM_H
#define SXSHIM_H
#define __NO_CTYPE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <assert.h>
#include <errno.h>
typedef struct sx_file_s SXFILE;
extern SXFILE *sx_stdin_f, *sx_stdout_f, *sx_stderr_f;
int sx_printf(const char *f, ...) __attribute__((format(printf,1,2)));
int sx_fprintf(SXFILE *o, const char *f, ...) __attribute__((format(printf,2,3)));
int sx_sprintf(char *o, const char *f, ...) __attribute__((format(printf,2,3)));
int sx_snprintf(char *o, size_t n, const char *f, ...) __attribute__((format(printf,3,4)));
int sx_vfprintf(SXFILE *o, const char *f, va_list ap);
int sx_vsprintf(char *o, const char *f, va_list ap);
int sx_vsnprintf(char *o, size_t n, const char *f, va_list ap);
int sx_fputc(int c, SXFILE *o); int sx_fputs(const char *s, SXFILE *o); int sx_puts(const char *s);
int sx_fgetc(SXFILE *f); int sx_ungetc(int c, SXFILE *f); char *sx_fgets(char *b, int n, SXFILE *f);
SXFILE *sx_fopen(const char *n, const char *m); int sx_fclose(SXFILE *f);
size_t sx_fread(void *p, size_t s, size_t n, SXFILE *f); size_t sx_fwrite(const void *p, size_t s, size_t n, SXFILE *f);
long sx_ftell(SXFILE *f); int sx_fseek(SXFILE *f, long o, int w); int sx_feof(SXFILE *f); int sx_ferror(SXFILE *f); int sx_fflush(SXFILE *f); int sx_fileno(SXFILE *f);
void sx_clearerr(SXFILE *f); void sx_rewind(SXFILE *f);
int sx_fstat(int fd, struct stat *sb); void *sx_mmap(void *a, size_t n, int p, int fl, int fd, off_t o); int sx_munmap(void *a, size_t n);
void sx_perror(const char *s); char *sx_getenv(const char *n);
int sx_isatty(int fd);
typedef void (*sx_sig_t)(int); sx_sig_t sx_signal(int s, sx_sig_t h);
#undef stdin
#undef stdout
#undef stderr
#undef getc
#undef putc
#undef getchar
#undef putchar
#undef feof
#undef ferror
#define FILE SXFILE
#define stdin sx_stdin_f
#define stdout sx_stdout_f
#define stderr sx_stderr_f
#define printf sx_printf
#define fprintf sx_fprintf
#define sprintf sx_sprintf
#define snprintf sx_snprintf
#define vfprintf sx_vfprintf
#define vprintf(f,a) sx_vfprintf(sx_stdout_f,f,a)
#define vsprintf sx_vsprintf
#define vsnprintf sx_vsnprintf
#define fputc sx_fputc
#define putc sx_fputc
#define putchar(c) sx_fputc((c), sx_stdout_f)
#define fputs sx_fputs
#define puts sx_puts
#define fgetc sx_fgetc
#define getc sx_fgetc
#define getchar() sx_fgetc(sx_stdin_f)
#define ungetc sx_ungetc
#define fgets sx_fgets
#define fopen sx_fopen
#define fclose sx_fclose
#define fread sx_fread
#define fwrite sx_fwrite
#define ftell sx_ftell
#define fseek sx_fseek
#define feof sx_feof
#define ferror sx_ferror
#define clearerr sx_clearerr
#define rewind sx_rewind
#define fflush sx_fflush
#define fileno sx_fileno
#define isatty sx_isatty
#define fstat sx_fstat
#define mmap sx_mmap
#define munmap sx_munmap
#define perror sx_perror
#define getenv sx_getenv
#define signal sx_signal
#ifdef SX_NATIVE
void sx_exit(int c) __attribute__((noreturn)); void sx_abort(void) __attribute__((noreturn));
void sx_assert_fail(const char *e, const char *f, int l) __attribute__((noreturn));
#define exit sx_exit
#define abort sx_abort
#undef assert
#define assert(e) ((e) ? (void)0 : sx_assert_fail(#e, __FILE__, __LINE__))
#endif
#endif
