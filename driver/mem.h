#include <stddef.h>
// allocator used by the driver itself (drv.c is compiled with malloc etc. renamed to these)
void *drv_malloc(size_t n); void *drv_calloc(size_t a, size_t b); void *drv_realloc(void *p, size_t n); void drv_free(void *p); char *drv_strdup(const char *s);
void mem_start(void);                       // after the cleaning allocator was chosen: watch GMP's functions
void mem_call(int on);                      // a library call begins / ends
void mem_secret(const unsigned char *b, size_t n);   // eight bytes or more that must not be found in released memory
typedef struct { unsigned long live, bytes, gmplive, freed, gmpfreed, dirty, exposed, torn; } mem_t;
void mem_report(mem_t *m, int all);                  // figures of the call that ended; live: blocks held on behalf of the library; all: look at the guards of all live blocks (otherwise now and then)
