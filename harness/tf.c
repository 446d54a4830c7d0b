/* tf.c - preload library: numbered points before and after every call that allocates memory or handles files and processes;
   at one point a signal is raised or the call fails.  Only in the program named TF_PROG.
   TF_AT=n  TF_WHAT=number of a signal, or f (the call fails), or F (this and all later allocations fail)  TF_COUNT=file (8 bytes, number of points) */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int on, ready, sig, fail, failAll; static long n, at = -1; static volatile long *shared; static pid_t me;
__attribute__((constructor)) static void init(void) { char b[512]; ssize_t l = readlink("/proc/self/exe", b, sizeof b - 1); char *e = getenv("TF_PROG"); ready = 1; if (!e || l <= 0) return; b[l] = 0; char *q = strrchr(b, '/'); if (strcmp(q ? q + 1 : b, e)) return; me = getpid();
  if ((e = getenv("TF_AT"))) at = atol(e); if ((e = getenv("TF_WHAT"))) { if (*e == 'f') fail = 1; else if (*e == 'F') failAll = 1; else sig = atoi(e); }
  if ((e = getenv("TF_COUNT"))) { int fd = open(e, O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, 8) == 0) { void *p = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) shared = p; close(fd); } } on = 1; }
static int point(int before, int alloc) { if (!on || getpid() != me) return 0; long c = n++; if (shared) *shared = n; if (failAll && alloc && before && c >= at && at >= 0) return 1; if (c != at) return 0; if (sig) raise(sig); return fail && before; }
#define REAL(f) static __typeof__(f) *r; if (!r) r = dlsym(RTLD_NEXT, #f)
void *malloc(size_t s) { if (point(1, 1)) { errno = ENOMEM; return NULL; } return __libc_malloc(s); }
void *calloc(size_t a, size_t b) { if (point(1, 1)) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t s) { if (point(1, 1)) { errno = ENOMEM; return NULL; } return __libc_realloc(p, s); }
int mkstemp(char *t) { REAL(mkstemp); if (point(1, 0)) { errno = EACCES; return -1; } int x = r(t); int e = errno; point(0, 0); errno = e; return x; }
FILE *fopen(const char *a, const char *b) { REAL(fopen); if (point(1, 0)) { errno = EMFILE; return NULL; } FILE *x = r(a, b); int e = errno; point(0, 0); errno = e; return x; }
int fclose(FILE *f) { REAL(fclose); int k = point(1, 0), x = r(f); int e = errno; point(0, 0); errno = e; if (k) { errno = ENOSPC; return EOF; } return x; }
int unlink(const char *a) { REAL(unlink); if (point(1, 0)) { errno = EACCES; return -1; } int x = r(a); int e = errno; point(0, 0); errno = e; return x; }
FILE *popen(const char *a, const char *b) { REAL(popen); if (point(1, 0)) { errno = EAGAIN; return NULL; } FILE *x = r(a, b); int e = errno; point(0, 0); errno = e; return x; }
int pclose(FILE *f) { REAL(pclose); int k = point(1, 0), x = r(f); int e = errno; point(0, 0); errno = e; if (k) { errno = ECHILD; return -1; } return x; }
char *fgets(char *s, int l, FILE *f) { REAL(fgets); if (point(1, 0)) return NULL; char *x = r(s, l, f); point(0, 0); return x; }
int close(int fd) { REAL(close); int k = point(1, 0), x = r(fd); int e = errno; point(0, 0); errno = e; if (k) { errno = EIO; return -1; } return x; }
int fputs(const char *s, FILE *f) { REAL(fputs); point(0, 0); return r(s, f); }
int putc(int c, FILE *f) { return fputc(c, f); }
int fprintf(FILE *f, const char *fmt, ...) { va_list v; va_start(v, fmt); point(0, 0); int x = vfprintf(f, fmt, v); va_end(v); return x; }
/* waiting takes no time: the clock is virtual */
#include <sys/select.h>
#include <sys/time.h>
static long off_us;
int select(int m, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) { REAL(select); if (!on || !t) return r(m, a, b, c, t); long us = t->tv_sec * 1000000L + t->tv_usec; struct timeval x = {0, us < 2000 ? us : 2000}; int k = point(1, 0); if (k) { errno = EINTR; return -1; } int z = r(m, a, b, c, &x), e = errno; if (z == 0 && us > 2000) off_us += us - 2000; point(0, 0); errno = e; return z; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { static int (*r)(struct timeval *, void *); if (!r) r = dlsym(RTLD_NEXT, "gettimeofday"); int x = r(t, z); if (on && t) { long u = t->tv_usec + off_us; t->tv_sec += u / 1000000; t->tv_usec = u % 1000000; } return x; }
int kill(pid_t p, int s) { if (on) return 0; REAL(kill); return r(p, s); } /* never reaches another process */
