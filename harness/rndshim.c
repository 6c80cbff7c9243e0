/* LD_PRELOAD entropy source.  Every way a process can ask the kernel for randomness is replaced; the bytes handed out
 * are counted and a fault can be placed at an exact byte position.
 *   RND_LIMIT=n   n bytes are delivered, afterwards the fault applies
 *   RND_FAULT=eof|eio|enoent  (enoent: opening fails instead; RND_LIMIT ignored)
 *   RND_CHUNK=c   at most c bytes per read
 *   RND_EINTR=1   every other read fails with EINTR
 *   RND_SEED=s    deterministic bytes
 *   RND_LOG=fd    every delivery is logged as "d n" */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static long envl(const char *n, long d) { const char *e = getenv(n); return e ? atol(e) : d; }
static long limit(void) { static long l = -2; if (l == -2) l = envl("RND_LIMIT", -1); return l; }
static long used; static unsigned long tick;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int isrnd(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int noent(void) { const char *f = getenv("RND_FAULT"); return f && !strcmp(f, "enoent"); }
static void fault(void) { if (getenv("RND_LOG") && write(atoi(getenv("RND_LOG")), "fault\n", 6) != 6) abort(); }
static ssize_t deliver(char *b, size_t n) {
    long c = envl("RND_CHUNK", 0), i; size_t got; char log[40]; ssize_t r;
    pthread_mutex_lock(&mu);
    if (getenv("RND_EINTR") && (tick++ & 1) == 0) { pthread_mutex_unlock(&mu); errno = EINTR; return -1; }
    if (c > 0 && n > (size_t)c) n = c;
    if (limit() >= 0 && used + (long)n > limit()) n = limit() - used;
    if (n == 0 && limit() >= 0) { const char *f = getenv("RND_FAULT"); pthread_mutex_unlock(&mu); fault(); if (f && !strcmp(f, "eio")) { errno = EIO; return -1; } return 0; }
    for (got = 0; got < n; got += r) { r = syscall(SYS_getrandom, b + got, n - got, 0); if (r <= 0) abort(); }
    for (i = 0; i < (long)n; i++) if (getenv("RND_SEED")) b[i] = (char)((used + i) * 197 + 13);
    used += n; r = n;
    if (getenv("RND_LOG")) { int k = snprintf(log, 40, "d %ld\n", (long)n); if (write(atoi(getenv("RND_LOG")), log, k) != k) abort(); }
    pthread_mutex_unlock(&mu);
    return r;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return deliver(b, n); }
static FILE *mk(void) { cookie_io_functions_t f = {ck_read, NULL, NULL, NULL}; return fopencookie(NULL, "r", f); }
#define REAL(n) ({ static void *p; if (!p) p = dlsym(RTLD_NEXT, n); p; })
FILE *fopen(const char *p, const char *m) { if (isrnd(p)) { if (noent()) { fault(); errno = ENOENT; return NULL; } return mk(); } return ((FILE *(*)(const char *, const char *))REAL("fopen"))(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
static int rfd[16], nrfd;
static int regfd(void) { int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY); if (fd >= 0 && nrfd < 16) rfd[nrfd++] = fd; return fd; }
static int isfd(int fd) { int i; for (i = 0; i < nrfd; i++) if (rfd[i] == fd) return 1; return 0; }
int open(const char *p, int fl, ...) { va_list a; int m; va_start(a, fl); m = va_arg(a, int); va_end(a); if (isrnd(p)) { if (noent()) { fault(); errno = ENOENT; return -1; } return regfd(); } return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; int m; va_start(a, fl); m = va_arg(a, int); va_end(a); return open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list a; int m; va_start(a, fl); m = va_arg(a, int); va_end(a); if (isrnd(p)) return open(p, fl); return syscall(SYS_openat, d, p, fl, m); }
FILE *fdopen(int fd, const char *m) { if (isfd(fd)) return mk(); return ((FILE *(*)(int, const char *))REAL("fdopen"))(fd, m); }
ssize_t read(int fd, void *b, size_t n) { if (isfd(fd)) return deliver(b, n); return syscall(SYS_read, fd, b, n); }
int close(int fd) { int i; for (i = 0; i < nrfd; i++) if (rfd[i] == fd) rfd[i] = -1; return syscall(SYS_close, fd); }
ssize_t getrandom(void *b, size_t n, unsigned fl) { ssize_t r; if (noent()) { fault(); errno = ENOSYS; return -1; } r = deliver(b, n); if (r == 0 && n) { errno = EAGAIN; return -1; } return r; }
int getentropy(void *b, size_t n) { size_t g = 0; while (g < n) { ssize_t r = getrandom((char *)b + g, n - g, 0); if (r < 0) { if (errno == EINTR) continue; return -1; } g += r; } return 0; }
