#include <stdint.h>
#include <stddef.h>
void rnd_real(void);
void rnd_prng(uint64_t seed);
int rnd_held(void);
void rnd_seed(uint64_t seed);
void rnd_prefix(const unsigned char *b, size_t n);
void rnd_limit(long n, int err);
void rnd_chunk(size_t n);
void rnd_flip(long at, unsigned char mask);
void rnd_missing(void);
unsigned long rnd_total(void);
