// Force-included into the library's sources in the address-sanitizer build: GMP itself is
// not instrumented, so the operands of its low-level calls are checked here.
#include <gmp.h>
#include <stdlib.h>
#include <stdio.h>
#include <sanitizer/asan_interface.h>
static inline __attribute__((unused)) void vchk_(const void *p, long n, const char *f) {
    if (n > 0 && __asan_region_is_poisoned((void *)p, (size_t)n * sizeof(mp_limb_t))) { fprintf(stderr, "bad operand of %s, %ld limbs\n", f, n); __asan_report_error(__builtin_return_address(0), NULL, NULL, (void *)p, 0, (size_t)n * 8); abort(); }
}
#define VC(p, n) vchk_((p), (long)(n), __func__)
#define W3(nm) static inline __attribute__((unused)) mp_limb_t v_##nm(mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n) { VC(r, n); VC(a, n); VC(b, n); return nm(r, a, b, n); }
#define W1(nm) static inline __attribute__((unused)) mp_limb_t v_##nm(mp_ptr r, mp_srcptr a, mp_size_t n, mp_limb_t b) { VC(r, n); VC(a, n); return nm(r, a, n, b); }
W3(mpn_add_n) W3(mpn_sub_n)
W1(mpn_add_1) W1(mpn_sub_1) W1(mpn_mul_1)
static inline __attribute__((unused)) int v_mpn_cmp(mp_srcptr a, mp_srcptr b, mp_size_t n) { VC(a, n); VC(b, n); return mpn_cmp(a, b, n); }
static inline __attribute__((unused)) void v_mpn_mul_n(mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n) { VC(r, 2 * n); VC(a, n); VC(b, n); mpn_mul_n(r, a, b, n); }
static inline __attribute__((unused)) void v_mpn_sqr(mp_ptr r, mp_srcptr a, mp_size_t n) { VC(r, 2 * n); VC(a, n); mpn_sqr(r, a, n); }
static inline __attribute__((unused)) void v_mpn_tdiv_qr(mp_ptr q, mp_ptr r, mp_size_t o, mp_srcptr a, mp_size_t an, mp_srcptr d, mp_size_t dn) {
    VC(q, an - dn + 1); VC(r, dn); VC(a, an); VC(d, dn); mpn_tdiv_qr(q, r, o, a, an, d, dn);
}
#undef mpn_add_n
#define mpn_add_n v_mpn_add_n
#undef mpn_sub_n
#define mpn_sub_n v_mpn_sub_n
#undef mpn_add_1
#define mpn_add_1 v_mpn_add_1
#undef mpn_sub_1
#define mpn_sub_1 v_mpn_sub_1
#undef mpn_mul_1
#define mpn_mul_1 v_mpn_mul_1
#undef mpn_cmp
#define mpn_cmp v_mpn_cmp
#undef mpn_mul_n
#define mpn_mul_n v_mpn_mul_n
#undef mpn_sqr
#define mpn_sqr v_mpn_sqr
#undef mpn_tdiv_qr
#define mpn_tdiv_qr v_mpn_tdiv_qr
