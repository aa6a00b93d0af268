// Controlled source of randomness for the conformance driver (-DWITH_RND).
// Every way the C library offers to obtain operating-system randomness is
// replaced by one stream that the script selects and whose consumption is
// counted; the library's sources are linked into the same program, so their
// calls end up here.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include "rnd.h"
#ifdef WITH_MEM
#include "mem.h"
#endif

enum { REAL, PRNG, FAIL_OPEN };
static int mode = REAL;
#ifdef THREADED
static __thread uint64_t st;             // one stream per thread
#else
static uint64_t st;
#endif
static unsigned char *pre; static size_t npre, ppre;   // given bytes, delivered first
static long limit = -1; static int limit_err;           // stream ends after `limit` more bytes: EOF or error
static size_t chunk;                                    // most bytes one request delivers (0: no limit)
static long flip = -1; static unsigned char flipmask;   // one byte of the stream inverted
static unsigned long total, since;                      // bytes delivered
static int realfd = -1;

static long raw(long n, ...) {
    static long (*r)(long, ...); long a, b, c, d; va_list ap;
    va_start(ap, n); a = va_arg(ap, long); b = va_arg(ap, long); c = va_arg(ap, long); d = va_arg(ap, long); va_end(ap);
    if (!r) r = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    return r(n, a, b, c, d, 0, 0);
}
static uint64_t next64(void) {          // splitmix64
    uint64_t z = (st += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static unsigned char nextbyte(void) { return ppre < npre ? pre[ppre++] : (unsigned char)(next64() >> 24); }
void rnd_real(void) { mode = REAL; limit = -1; chunk = 0; flip = -1; npre = ppre = 0; }
void rnd_prng(uint64_t seed) { rnd_real(); mode = PRNG; st = seed * 0x2545F4914F6CDD1Dull + 12345; since = 0; }
void rnd_seed(uint64_t seed) { st = seed * 0x2545F4914F6CDD1Dull + 12345; }      // this thread's stream
void rnd_prefix(const unsigned char *b, size_t n) { free(pre); pre = malloc(n ? n : 1); memcpy(pre, b, n); npre = n; ppre = 0; }
void rnd_limit(long n, int err) { limit = n; limit_err = err; }
void rnd_chunk(size_t n) { chunk = n; }
void rnd_flip(long at, unsigned char m) { flip = at; flipmask = m; }
void rnd_missing(void) { mode = FAIL_OPEN; }
unsigned long rnd_total(void) { return total; }

static ssize_t deliver(unsigned char *b, size_t n) {
    size_t i;
    if (chunk && n > chunk) n = chunk;
    if (mode == FAIL_OPEN) { errno = EIO; return -1; }
    if (limit >= 0) {
        if (limit == 0) { if (limit_err) { errno = EIO; return -1; } return 0; }
        if ((size_t)limit < n) n = limit;
        limit -= n;
    }
    if (mode == REAL) {
        ssize_t r;
        if (realfd < 0) realfd = (int)raw(SYS_openat, (long)AT_FDCWD, "/dev/urandom", (long)(O_RDONLY | O_CLOEXEC), 0L);
        r = raw(SYS_read, (long)realfd, b, n, 0L);
        if (r > 0) total += r;
        return r;
    }
    for (i = 0; i < n; i++) { b[i] = nextbyte(); if (flip >= 0 && since == (unsigned long)flip) b[i] ^= flipmask; since++; }
    total += n;
#ifdef WITH_MEM
    mem_secret(b, n);
#endif
    return (ssize_t)n;
}
static int israndom(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }

// ---- streams
static ssize_t ck_read(void *c, char *b, size_t n) { (void)c; return deliver((unsigned char *)b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { (void)c; (void)b; return (ssize_t)n; }
static int held;                         // sources of randomness which are open
int rnd_held(void) { return held; }
static int ck_close(void *c) { (void)c; held--; return 0; }
static FILE *cookie(void) {
    cookie_io_functions_t f = { ck_read, ck_write, NULL, ck_close };
    if (mode == FAIL_OPEN) { errno = ENOENT; return NULL; }
    held++;
    return fopencookie(NULL, "r", f);
}
FILE *fopen(const char *p, const char *m) {
    static FILE *(*r)(const char *, const char *);
    if (israndom(p)) return cookie();
    if (!r) r = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
    return r(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }

// ---- descriptors
#define MAXFD 1024
static unsigned char isrnd[MAXFD];
static int rndopen(void) {
    int fd;
    if (mode == FAIL_OPEN) { errno = ENOENT; return -1; }
    fd = (int)raw(SYS_openat, (long)AT_FDCWD, "/dev/null", (long)O_RDONLY, 0L);
    if (fd >= 0 && fd < MAXFD) { isrnd[fd] = 1; held++; }
    return fd;
}
int open(const char *p, int fl, ...) {
    va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
    if (israndom(p)) return rndopen();
    return (int)raw(SYS_openat, (long)AT_FDCWD, p, (long)fl, (long)m);
}
int open64(const char *p, int fl, ...) {
    va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
    if (israndom(p)) return rndopen();
    return (int)raw(SYS_openat, (long)AT_FDCWD, p, (long)fl, (long)m);
}
int openat(int d, const char *p, int fl, ...) {
    va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
    if (israndom(p)) return rndopen();
    return (int)raw(SYS_openat, (long)d, p, (long)fl, (long)m);
}
int close(int fd) { if (fd >= 0 && fd < MAXFD) { held -= isrnd[fd]; isrnd[fd] = 0; } return (int)raw(SYS_close, (long)fd, 0L, 0L, 0L); }
ssize_t read(int fd, void *b, size_t n) {
    if (fd >= 0 && fd < MAXFD && isrnd[fd]) return deliver(b, n);
    return raw(SYS_read, (long)fd, b, n, 0L);
}
// a stdio stream over such a descriptor
FILE *fdopen(int fd, const char *m) {
    static FILE *(*r)(int, const char *);
    if (fd >= 0 && fd < MAXFD && isrnd[fd]) { held -= isrnd[fd]; isrnd[fd] = 0; return cookie(); }   // (the stream owns it)
    if (!r) r = (FILE *(*)(int, const char *))dlsym(RTLD_NEXT, "fdopen");
    return r(fd, m);
}

// ---- system calls
ssize_t getrandom(void *b, size_t n, unsigned fl) { (void)fl; if (mode == FAIL_OPEN) { errno = ENOSYS; return -1; } return deliver(b, n); }
int getentropy(void *b, size_t n) {
    unsigned char *p = b;
    if (mode == FAIL_OPEN) { errno = ENOSYS; return -1; }
    while (n) { ssize_t r = deliver(p, n); if (r <= 0) { errno = EIO; return -1; } p += r; n -= r; }
    return 0;
}
void arc4random_buf(void *b, size_t n) {
    unsigned char *p = b;
    while (n) { ssize_t r = deliver(p, n); if (r <= 0) abort(); p += r; n -= r; }
}
uint32_t arc4random(void) { uint32_t v; arc4random_buf(&v, 4); return v; }
uint32_t arc4random_uniform(uint32_t bound) {
    uint32_t v, lim;
    if (bound < 2) return 0;
    lim = -bound % bound;
    do v = arc4random(); while (v < lim);
    return v % bound;
}
long syscall(long n, ...) {
    long a, b, c, d; va_list ap;
    va_start(ap, n); a = va_arg(ap, long); b = va_arg(ap, long); c = va_arg(ap, long); d = va_arg(ap, long); va_end(ap);
    if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
    return raw(n, a, b, c, d);
}
