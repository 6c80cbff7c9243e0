/* GMP is not instrumented: what its calls read and write is declared to ThreadSanitizer here. */
#include <gmp.h>
#include <stddef.h>
void __tsan_read_range(void *, unsigned long);
void __tsan_write_range(void *, unsigned long);
#define L(n) ((unsigned long)(n) * sizeof(mp_limb_t))
static void rd(const void *p, unsigned long n) { if (n) __tsan_read_range((void *)p, n); }
static void wr(void *p, unsigned long n) { if (n) __tsan_write_range(p, n); }
static void zr(mpz_srcptr z) { rd(z, sizeof *z); rd(z->_mp_d, L(z->_mp_size < 0 ? -z->_mp_size : z->_mp_size)); }
static void zw(mpz_ptr z) { wr(z, sizeof *z); }
static void zl(mpz_ptr z) { wr(z->_mp_d, L(z->_mp_size < 0 ? -z->_mp_size : z->_mp_size)); }
#define W3(name) mp_limb_t __real_##name(mp_ptr, mp_srcptr, mp_srcptr, mp_size_t); \
  mp_limb_t __wrap_##name(mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n) { rd(a, L(n)); rd(b, L(n)); wr(r, L(n)); return __real_##name(r, a, b, n); }
W3(__gmpn_add_n) W3(__gmpn_sub_n)
#define W1(name) mp_limb_t __real_##name(mp_ptr, mp_srcptr, mp_size_t, mp_limb_t); \
  mp_limb_t __wrap_##name(mp_ptr r, mp_srcptr a, mp_size_t n, mp_limb_t b) { rd(a, L(n)); wr(r, L(n)); return __real_##name(r, a, n, b); }
W1(__gmpn_mul_1) W1(__gmpn_addmul_1) W1(__gmpn_submul_1)
void __real___gmpn_mul_n(mp_ptr, mp_srcptr, mp_srcptr, mp_size_t);
void __wrap___gmpn_mul_n(mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n) { rd(a, L(n)); rd(b, L(n)); wr(r, L(2 * n)); __real___gmpn_mul_n(r, a, b, n); }
void __real___gmpn_sqr(mp_ptr, mp_srcptr, mp_size_t);
void __wrap___gmpn_sqr(mp_ptr r, mp_srcptr a, mp_size_t n) { rd(a, L(n)); wr(r, L(2 * n)); __real___gmpn_sqr(r, a, n); }
#define ZV1(name) void __real_##name(mpz_ptr, mpz_srcptr); void __wrap_##name(mpz_ptr r, mpz_srcptr a) { zr(a); zw(r); __real_##name(r, a); zl(r); }
#define ZV2(name) void __real_##name(mpz_ptr, mpz_srcptr, mpz_srcptr); void __wrap_##name(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { zr(a); zr(b); zw(r); __real_##name(r, a, b); zl(r); }
ZV1(__gmpz_set) ZV2(__gmpz_add) ZV2(__gmpz_sub) ZV2(__gmpz_mul) ZV2(__gmpz_mod)
#define ZU(name) void __real_##name(mpz_ptr, mpz_srcptr, unsigned long); void __wrap_##name(mpz_ptr r, mpz_srcptr a, unsigned long b) { zr(a); zw(r); __real_##name(r, a, b); zl(r); }
ZU(__gmpz_add_ui) ZU(__gmpz_sub_ui) ZU(__gmpz_mul_ui) ZU(__gmpz_fdiv_q_2exp)
#define ZUR(name) unsigned long __real_##name(mpz_ptr, mpz_srcptr, unsigned long); unsigned long __wrap_##name(mpz_ptr r, mpz_srcptr a, unsigned long b) { unsigned long x; zr(a); zw(r); x = __real_##name(r, a, b); zl(r); return x; }
ZUR(__gmpz_tdiv_q_ui) ZUR(__gmpz_fdiv_r_ui)
int __real___gmpz_invert(mpz_ptr, mpz_srcptr, mpz_srcptr);
int __wrap___gmpz_invert(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { int x; zr(a); zr(b); zw(r); x = __real___gmpz_invert(r, a, b); zl(r); return x; }
void __real___gmpz_powm(mpz_ptr, mpz_srcptr, mpz_srcptr, mpz_srcptr);
void __wrap___gmpz_powm(mpz_ptr r, mpz_srcptr a, mpz_srcptr b, mpz_srcptr c) { zr(a); zr(b); zr(c); zw(r); __real___gmpz_powm(r, a, b, c); zl(r); }
void __real___gmpz_powm_ui(mpz_ptr, mpz_srcptr, unsigned long, mpz_srcptr);
void __wrap___gmpz_powm_ui(mpz_ptr r, mpz_srcptr a, unsigned long b, mpz_srcptr c) { zr(a); zr(c); zw(r); __real___gmpz_powm_ui(r, a, b, c); zl(r); }
int __real___gmpz_cmp(mpz_srcptr, mpz_srcptr);
int __wrap___gmpz_cmp(mpz_srcptr a, mpz_srcptr b) { zr(a); zr(b); return __real___gmpz_cmp(a, b); }
void __real___gmpz_set_ui(mpz_ptr, unsigned long);
void __wrap___gmpz_set_ui(mpz_ptr r, unsigned long b) { zw(r); __real___gmpz_set_ui(r, b); zl(r); }
void *__real___gmpz_realloc(mpz_ptr, mp_size_t);
void *__wrap___gmpz_realloc(mpz_ptr r, mp_size_t n) { zw(r); return __real___gmpz_realloc(r, n); }
void __real___gmpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
void __wrap___gmpz_import(mpz_ptr z, size_t c, int o, size_t s, int e, size_t na, const void *p) { rd(p, c * s); zw(z); __real___gmpz_import(z, c, o, s, e, na, p); zl(z); }
void *__real___gmpz_export(void *, size_t *, int, size_t, int, size_t, mpz_srcptr);
void *__wrap___gmpz_export(void *p, size_t *c, int o, size_t s, int e, size_t na, mpz_srcptr z) { zr(z); return __real___gmpz_export(p, c, o, s, e, na, z); }
int __real___gmpz_set_str(mpz_ptr, const char *, int);
int __wrap___gmpz_set_str(mpz_ptr z, const char *s, int b) { int x; zw(z); x = __real___gmpz_set_str(z, s, b); zl(z); return x; }
int __real___gmpz_jacobi(mpz_srcptr, mpz_srcptr);
int __wrap___gmpz_jacobi(mpz_srcptr a, mpz_srcptr b) { zr(a); zr(b); return __real___gmpz_jacobi(a, b); }
void __real___gmpz_setbit(mpz_ptr, unsigned long);
void __wrap___gmpz_setbit(mpz_ptr r, unsigned long b) { zw(r); __real___gmpz_setbit(r, b); zl(r); }
