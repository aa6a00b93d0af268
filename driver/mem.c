// Watches every block the library and GMP obtain from and return to the system
// allocator (-DWITH_MEM).  Each block carries a guard area behind it.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include "mem.h"
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_realloc(void *, size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_memalign(size_t, size_t);

#define GUARD 64
typedef struct blk { struct blk *next; unsigned char *p; size_t n; char gmp, driver; } blk;
#define HB 65536
static blk *tab[HB];
static int in_call, in_gmp;
static mem_t now; static unsigned long live, bytes, gmplive;
static unsigned slot(const void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u >> 8) % HB; }

// released blocks of this call that are not GMP's (scanned for secrets when it is over)
typedef struct { unsigned char *b; size_t n; } copy_t;
static copy_t *kept; static size_t nkept, capkept;
static void keep(const unsigned char *b, size_t n) {
    if (n < 8 || n > 1 << 20) return;
    if (nkept == capkept) { capkept = capkept * 2 + 16; kept = __libc_realloc(kept, capkept * sizeof *kept); }
    kept[nkept].b = __libc_malloc(n); memcpy(kept[nkept].b, b, n); kept[nkept++].n = n;
}

static blk *add(void *p, size_t n) {
    blk *b = __libc_malloc(sizeof *b); unsigned s = slot(p);
    b->p = p; b->n = n; b->gmp = in_gmp != 0; b->driver = 0; b->next = tab[s]; tab[s] = b;
    memset((unsigned char *)p + n, 0x5C, GUARD);
    live++; bytes += n; if (b->gmp) gmplive++;
    return b;
}
static blk **find(void *p) { blk **b = &tab[slot(p)]; while (*b && (*b)->p != p) b = &(*b)->next; return b; }
static void check_guard(blk *b) { int i; for (i = 0; i < GUARD; i++) if (b->p[b->n + i] != 0x5C) { now.torn++; memset(b->p + b->n, 0x5C, GUARD); return; } }
// the block goes back to the system: what does it still hold?
static void release(blk **bp, int judged) {
    blk *b = *bp; size_t i;
    check_guard(b);
    if (judged) {
        now.freed++;
        if (b->gmp) { now.gmpfreed++; for (i = 0; i < b->n; i++) if (b->p[i]) { now.dirty++; break; } }
        else keep(b->p, b->n);
    }
    live--; bytes -= b->n; if (b->gmp) gmplive--;
    *bp = b->next; memset(b->p, 0xD7, b->n); __libc_free(b->p); __libc_free(b);
}

void *malloc(size_t n) {
    void *p;
    if (!in_call) return __libc_malloc(n);
    p = __libc_malloc(n + GUARD); if (!p) return NULL;
    memset(p, 0xA6, n); add(p, n); return p;
}
void *calloc(size_t a, size_t b) {
    void *p;
    if (!in_call) return __libc_calloc(a, b);
    if (b && a > (size_t)-1 / 2 / b) return NULL;
    p = malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void free(void *p) {
    blk **b;
    if (!p) return;
    b = find(p);
    if (!*b) { __libc_free(p); return; }       // not obtained in a library call (the C library's own)
    release(b, 1);
}
void *realloc(void *p, size_t n) {
    blk **b, *o; void *q;
    if (!p) return malloc(n);
    b = find(p);
    if (!*b) return __libc_realloc(p, n);
    o = *b;
    if (n <= o->n) {                           // in place: the tail goes back
        size_t i;
        check_guard(o);
        if (o->gmp) { for (i = n; i < o->n; i++) if (o->p[i]) { now.dirty++; break; } } else keep(o->p + n, o->n - n);
        bytes -= o->n - n; o->n = n; memset(o->p + n, 0x5C, GUARD);
        return p;
    }
    { int g = in_gmp; in_gmp = o->gmp; q = __libc_malloc(n + GUARD); memset(q, 0xA6, n); add(q, n); in_gmp = g; }
    memcpy(q, p, o->n);
    release(find(p), 1);
    return q;
}
void *memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = __libc_memalign(a, n); return *r ? 0 : 12; }

void *drv_malloc(size_t n) { return __libc_malloc(n); }
void *drv_calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void *drv_realloc(void *p, size_t n) { return __libc_realloc(p, n); }
char *drv_strdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(__libc_malloc(n), s, n); }
void drv_free(void *p) {        // the driver releases its own blocks, and results the library handed over
    blk **b;
    if (!p) return;
    b = find(p);
    if (*b) release(b, 0); else __libc_free(p);
}

static void *(*g_alloc)(size_t); static void *(*g_realloc)(void *, size_t, size_t); static void (*g_free)(void *, size_t);
static void *w_alloc(size_t n) { void *p; in_gmp++; p = g_alloc(n); in_gmp--; return p; }
static void *w_realloc(void *o, size_t a, size_t n) { void *p; in_gmp++; p = g_realloc(o, a, n); in_gmp--; return p; }
static void w_free(void *o, size_t n) { in_gmp++; g_free(o, n); in_gmp--; }
void mem_start(void) {
    mp_get_memory_functions(&g_alloc, &g_realloc, &g_free);
    mp_set_memory_functions(w_alloc, w_realloc, w_free);
}
void mem_call(int on) { in_call = on; if (on) { memset(&now, 0, sizeof now); } }

// ---- secrets: eight-byte windows, in memory order, of values in either byte order
#define HS 262144
static uint64_t sec[HS]; static size_t nsec;
static void add8(uint64_t v) {
    size_t h, i; int c = 0;
    for (i = 0; i < 8; i++) if ((v >> (8 * i)) & 255) c++;
    if (c < 6) return;
    h = (size_t)((v * 0x9E3779B97F4A7C15ull) >> 46);
    while (sec[h] && sec[h] != v) h = (h + 1) % HS;
    if (!sec[h] && nsec < HS / 2) { sec[h] = v; nsec++; }
}
static int has8(uint64_t v) { size_t h = (size_t)((v * 0x9E3779B97F4A7C15ull) >> 46); while (sec[h]) { if (sec[h] == v) return 1; h = (h + 1) % HS; } return 0; }
void mem_secret(const unsigned char *b, size_t n) {      // b: little-endian bytes
    size_t i, j; uint64_t v, w;
    for (i = 0; i + 8 <= n; i += 8) {
        v = w = 0;
        for (j = 0; j < 8; j++) { v |= (uint64_t)b[i + j] << (8 * j); w |= (uint64_t)b[i + j] << (8 * (7 - j)); }
        add8(v); add8(w);
    }
}
void mem_report(mem_t *m, int all) {
    static unsigned calls;
    size_t k, i; unsigned s; blk *b; uint64_t v;
    for (k = 0; k < nkept; k++) {
        int hit = 0;
        for (i = 0; !hit && i + 8 <= kept[k].n; i++) { memcpy(&v, kept[k].b + i, 8); if (v && has8(v)) hit = 1; }
        now.exposed += hit; __libc_free(kept[k].b);
    }
    nkept = 0;
    if (all || ++calls % 64 == 0) for (s = 0; s < HB; s++) for (b = tab[s]; b; b = b->next) check_guard(b);
    now.live = live; now.bytes = bytes; now.gmplive = gmplive;
    *m = now;
}
