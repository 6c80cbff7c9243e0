/* GMP's assembler is invisible to AddressSanitizer: calls from the library into the word-array layer (and the byte
 * import/export) are routed through here, where the ranges they are going to touch are checked first. */
#include <gmp.h>
#include <sanitizer/asan_interface.h>
#include <stddef.h>
#include <stdlib.h>

unsigned long gmpwrap_checked;
static void rd(const void *p, size_t n) { gmpwrap_checked++; void *q = __asan_region_is_poisoned((void *)p, n); if (n && q) { volatile char c = *(volatile char *)q; (void)c; abort(); } }
static void wr(void *p, size_t n) { gmpwrap_checked++; void *q = __asan_region_is_poisoned(p, n); if (n && q) { *(volatile char *)q = 0; abort(); } }
#define L(n) ((size_t)(n) * sizeof(mp_limb_t))
#define W3(name) mp_limb_t __real_##name(mp_ptr, mp_srcptr, mp_srcptr, mp_size_t); \
  mp_limb_t __wrap_##name(mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n) { rd(a, L(n)); rd(b, L(n)); wr(r, L(n)); return __real_##name(r, a, b, n); }
W3(__gmpn_add_n) W3(__gmpn_sub_n)
#define W1(name, ex) mp_limb_t __real_##name(mp_ptr, mp_srcptr, mp_size_t, mp_limb_t); \
  mp_limb_t __wrap_##name(mp_ptr r, mp_srcptr a, mp_size_t n, mp_limb_t b) { rd(a, L(n)); wr(r, L(n)); return __real_##name(r, a, n, b); }
W1(__gmpn_mul_1, 0) W1(__gmpn_addmul_1, 0) W1(__gmpn_submul_1, 0)
#define WS(name) mp_limb_t __real_##name(mp_ptr, mp_srcptr, mp_size_t, unsigned); \
  mp_limb_t __wrap_##name(mp_ptr r, mp_srcptr a, mp_size_t n, unsigned b) { rd(a, L(n)); wr(r, L(n)); return __real_##name(r, a, n, b); }
WS(__gmpn_lshift) WS(__gmpn_rshift)
void __real___gmpn_mul_n(mp_ptr, mp_srcptr, mp_srcptr, mp_size_t);
void __wrap___gmpn_mul_n(mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n) { rd(a, L(n)); rd(b, L(n)); wr(r, L(2 * n)); __real___gmpn_mul_n(r, a, b, n); }
void __real___gmpn_sqr(mp_ptr, mp_srcptr, mp_size_t);
void __wrap___gmpn_sqr(mp_ptr r, mp_srcptr a, mp_size_t n) { rd(a, L(n)); wr(r, L(2 * n)); __real___gmpn_sqr(r, a, n); }
mp_limb_t __real___gmpn_mul(mp_ptr, mp_srcptr, mp_size_t, mp_srcptr, mp_size_t);
mp_limb_t __wrap___gmpn_mul(mp_ptr r, mp_srcptr a, mp_size_t n, mp_srcptr b, mp_size_t m) { rd(a, L(n)); rd(b, L(m)); wr(r, L(n + m)); return __real___gmpn_mul(r, a, n, b, m); }
void __real___gmpn_tdiv_qr(mp_ptr, mp_ptr, mp_size_t, mp_srcptr, mp_size_t, mp_srcptr, mp_size_t);
void __wrap___gmpn_tdiv_qr(mp_ptr q, mp_ptr r, mp_size_t x, mp_srcptr a, mp_size_t n, mp_srcptr d, mp_size_t m) { rd(a, L(n)); rd(d, L(m)); wr(q, L(n - m + 1)); wr(r, L(m)); __real___gmpn_tdiv_qr(q, r, x, a, n, d, m); }
int __real___gmpn_cmp(mp_srcptr, mp_srcptr, mp_size_t);
int __wrap___gmpn_cmp(mp_srcptr a, mp_srcptr b, mp_size_t n) { rd(a, L(n)); rd(b, L(n)); return __real___gmpn_cmp(a, b, n); }
#define WC(name) void __real_##name(mp_ptr, mp_srcptr, mp_size_t); \
  void __wrap_##name(mp_ptr r, mp_srcptr a, mp_size_t n) { rd(a, L(n)); wr(r, L(n)); __real_##name(r, a, n); }
WC(__gmpn_copyi) WC(__gmpn_copyd)
void __real___gmpn_zero(mp_ptr, mp_size_t);
void __wrap___gmpn_zero(mp_ptr r, mp_size_t n) { wr(r, L(n)); __real___gmpn_zero(r, n); }
void __real___gmpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
void __wrap___gmpz_import(mpz_ptr z, size_t c, int o, size_t s, int e, size_t na, const void *p) { rd(p, c * s); __real___gmpz_import(z, c, o, s, e, na, p); }
void *__real___gmpz_export(void *, size_t *, int, size_t, int, size_t, mpz_srcptr);
void *__wrap___gmpz_export(void *p, size_t *c, int o, size_t s, int e, size_t na, mpz_srcptr z) {
    if (p && mpz_sgn(z)) { size_t k = 8 * s - na; wr(p, (mpz_sizeinbase(z, 2) + k - 1) / k * s); }
    return __real___gmpz_export(p, c, o, s, e, na, z);
}
char *__real___gmpz_get_str(char *, int, mpz_srcptr);
char *__wrap___gmpz_get_str(char *p, int b, mpz_srcptr z) { if (p && b >= 2) wr(p, 1); return __real___gmpz_get_str(p, b, z); }
