/* counts live heap blocks (preloaded) */
#define _GNU_SOURCE
#include <stddef.h>
#include <errno.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static long live;
#define ADD(n) __atomic_add_fetch(&live, n, __ATOMIC_RELAXED)
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) ADD(1); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (p) ADD(1); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p) ADD(1); else if (q && !n && !p) ADD(-1); return p; }
void free(void *p) { if (p) ADD(-1); __libc_free(p); }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) ADD(1); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
long count_live_blocks(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
