/* Random source driver.  Modes:
 *   hist MAXHEX COUNT            histograms of draws below MAX
 *   fork J K                     J draws, then children and grandchildren draw K each; every value is printed
 *   threads T K                  T threads draw K each
 *   op NAME N                    N operations that need randomness, each announced before and after */
#include <ecc.h>
#include <gmp.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static mpECurve_t cv; static mpECDSASignatureScheme_t sch; static mpFp_t sk; static mpECP_t pk, base;
static void toy(unsigned char *h, unsigned char *m, size_t n) { size_t i; for (i = 0; i < 32; i++) h[i] = (unsigned char)(m[i % n] * 31 + i); }
static void setup(void) {
    mpECDSAHashfunc_t H; mpz_t d; mpz_init_set_str(d, "123456789abcdef123456789abcdef1234567", 16);
    mpECurve_init(cv); if (mpECurve_set_named(cv, "secp256k1")) exit(98);
    H->dohash = toy; H->hsz = 32; mpECDSASignatureScheme_init(sch, cv, H);
    mpFp_init(sk, cv->n); mpFp_set_mpz(sk, d, cv->n);
    mpECP_init(base, cv); mpECP_set_mpz(base, cv->G[0], cv->G[1], cv);
    mpECP_init(pk, cv); mpECP_scalar_mul(pk, base, sk); mpz_clear(d);
}
/* one random operation; its observable result as text */
static void one(const char *op, char *buf, size_t cap) {
    mpz_t z, m; mpz_init(z); mpz_init(m);
    if (!strcmp(op, "urandom")) { mpz_set_ui(m, 1); mpz_mul_2exp(m, m, 256); mpz_urandom(z, m); }
    else if (!strcmp(op, "field")) { mpFp_t a; mpFp_init(a, cv->n); mpFp_urandom(a, cv->n); mpz_set_mpFp(z, a); mpFp_clear(a); }
    else if (!strcmp(op, "point")) { mpECP_t a; mpECP_init(a, cv); mpECP_urandom(a, cv); mpz_set_mpECP_affine_x(z, a); mpECP_clear(a); }
    else if (!strcmp(op, "sign")) {
        mpECDSASignature_t s; if (mpECDSASignature_init_Sign(s, sch, sk, (unsigned char *)"message", 7)) { snprintf(buf, cap, "refused"); goto out; }
        mpz_set_mpFp(z, s->r); mpECDSASignature_clear(s); }
    else if (!strcmp(op, "elgamal")) {
        mpECElgamalCiphertext_t e; if (mpECElgamal_init_encrypt(e, pk, base)) { snprintf(buf, cap, "refused"); goto out; }
        mpz_set_mpECP_affine_x(z, e->C); mpECElgamal_clear(e); }
    else exit(98);
    gmp_snprintf(buf, cap, "%Zx", z);
out:
    mpz_clear(z); mpz_clear(m);
}
static void emit(const char *who, const char *op) {
    char v[400], l[480]; int n; one(op, v, sizeof v); n = snprintf(l, sizeof l, "%s %s %s\n", who, op, v);
    if (write(1, l, n) != n) _exit(98);
}
static const char *ops[] = {"urandom", "field", "sign", "elgamal", "point"};
static void batch(const char *who, int k) { int i; for (i = 0; i < k; i++) { emit(who, ops[0]); emit(who, ops[1]); if (i % 4 == 0) emit(who, ops[2]); if (i % 8 == 1) emit(who, ops[3]); if (i % 8 == 5) emit(who, ops[4]); } }

static int tk;
static void *thr(void *a) { char who[16]; int i; snprintf(who, 16, "t%d", (int)(long)a); for (i = 0; i < tk; i++) emit(who, "urandom"); return NULL; }

int main(int argc, char **argv) {
    if (argc < 3) return 98;
    if (!strcmp(argv[1], "hist")) {
        long n = atol(argv[3]), i; mpz_t m, z, t; static long hi[256], lo[256], md[251], sm[65536]; long bad = 0; int small;
        mpz_init(m); mpz_init(z); mpz_init(t); mpz_set_str(m, argv[2], 16); small = mpz_cmp_ui(m, 65536) <= 0;
        for (i = 0; i < n; i++) {
            mpz_urandom(z, m);
            if (mpz_sgn(z) < 0 || mpz_cmp(z, m) >= 0) { bad++; continue; }
            if (small) sm[mpz_get_ui(z)]++;
            else { mpz_mul_ui(t, z, 256); mpz_fdiv_q(t, t, m); hi[mpz_get_ui(t)]++; lo[mpz_get_ui(z) & 255]++; md[mpz_fdiv_ui(z, 251)]++; }
        }
        printf("bad %ld\n", bad);
        if (small) { long q = mpz_get_ui(m); printf("small"); for (i = 0; i < q; i++) printf(" %ld", sm[i]); printf("\n"); }
        else { printf("hi"); for (i = 0; i < 256; i++) printf(" %ld", hi[i]); printf("\nlo"); for (i = 0; i < 256; i++) printf(" %ld", lo[i]); printf("\nmd"); for (i = 0; i < 251; i++) printf(" %ld", md[i]); printf("\n"); }
        return 0;
    }
    setup();
    if (!strcmp(argv[1], "fork")) {
        int j = atoi(argv[2]), k = atoi(argv[3]), c; char who[32];
        batch("parent0", j);
        for (c = 0; c < 4; c++) {
            pid_t p = fork(); if (p < 0) return 98;
            if (p == 0) {
                pid_t q = c % 2 ? 0 : fork();
                if (c % 2 == 0 && q == 0) { snprintf(who, 32, "grandchild%d", c); batch(who, k); _exit(0); }
                snprintf(who, 32, "child%d", c); batch(who, k);
                if (q > 0) { int st; waitpid(q, &st, 0); if (st) _exit(97); }
                _exit(0);
            }
            if (c == 1) batch("parent1", k);
            { int st; waitpid(p, &st, 0); if (st) return 97; }
        }
        batch("parent2", k);
        return 0;
    }
    if (!strcmp(argv[1], "threads")) {
        int t = atoi(argv[2]), i; pthread_t th[64]; tk = atoi(argv[3]);
        for (i = 0; i < t; i++) pthread_create(&th[i], NULL, thr, (void *)(long)i);
        for (i = 0; i < t; i++) pthread_join(th[i], NULL);
        return 0;
    }
    if (!strcmp(argv[1], "op")) {
        int n = atoi(argv[3]), i;
        for (i = 0; i < n; i++) { char l[32]; int q = snprintf(l, 32, "start %d\n", i); if (write(1, l, q) != q) return 98; emit("value", argv[2]); }
        return 0;
    }
    return 98;
}
