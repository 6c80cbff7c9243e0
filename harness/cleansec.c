/* Secrets in released memory: usage: cleansec SEED ROUNDS MODE CURVEFILE ("c type p a b n h gx gy bits"); MODE early|late (safe clean enabled first or in the middle) */
#include <stdio.h>
#include <ecc.h>
#include <gmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cleanmon.h"
static void gfree(char *s) { void (*f)(void *, size_t); mp_get_memory_functions(NULL, NULL, &f); f(s, strlen(s) + 1); }
static gmp_randstate_t rs; static unsigned long found;
static void toy(unsigned char *h, unsigned char *msg, size_t sz) { unsigned long long a = 1469598103934665603ULL; size_t i; for (i = 0; i < sz; i++) { a ^= msg[i]; a *= 1099511628211ULL; } for (i = 0; i < 32; i++) { a ^= i + 1; a *= 1099511628211ULL; h[i] = (unsigned char)(a >> 32); } }
static const unsigned char *mem(const unsigned char *h, size_t n, const unsigned char *x, size_t m) { return n >= m ? memmem(h, n, x, m) : NULL; }
extern void *memmem(const void *, size_t, const void *, size_t);
static void hunt1(const char *what, mpz_t s) {
    static unsigned char le[300], be[300]; static char hx[700]; size_t n, i; mpz_t t;
    if (mpz_sizeinbase(s, 2) < 72) return;
    cleanmon.keep = 0;
    memset(le, 0, sizeof le); memset(be, 0, sizeof be);
    mpz_export(le, &n, -1, 1, 0, 0, s); mpz_export(be, NULL, 1, 1, 0, 0, s);
    for (i = 0; i < n; i++) sprintf(hx + 2 * i, "%02x", be[i]);
    if (mem(cleanmon.kept, cleanmon.nkept, le, n) || mem(cleanmon.kept, cleanmon.nkept, be, n) || mem(cleanmon.kept, cleanmon.nkept, (unsigned char *)hx, 2 * n)) { found++; fprintf(stderr, "CLEANMON secret-%s in released memory\n", what); }
    (void)t;
}
static void hunt_entropy(void) {
    size_t i; cleanmon.keep = 0;
    for (i = 0; i + 16 <= cleanmon.nrand; i += 8) if (mem(cleanmon.kept, cleanmon.nkept, cleanmon.rand + i, 16)) { found++; fprintf(stderr, "CLEANMON secret-entropy in released memory\n"); return; }
}
static void begin(void) { cleanmon.nkept = 0; cleanmon.nrand = 0; cleanmon.keep = 1; }
int main(int argc, char **argv) {
    char line[8192]; FILE *f; unsigned long r, hunts = 0, sizes = 0; int late;
    if (argc < 5) return 98;
    late = !strcmp(argv[3], "late");
    if (!late) _enable_gmp_safe_clean();
    gmp_randinit_default(rs); gmp_randseed_ui(rs, strtoul(argv[1], NULL, 10));
    /* growing and shrinking: values against a model kept outside big-number storage */
    {
        enum { NZ = 24 }; mpz_t z[NZ]; static char *model[NZ]; int i, k;
        for (i = 0; i < NZ; i++) { mpz_init(z[i]); model[i] = mpz_get_str(NULL, 16, z[i]); }
        for (r = 0; r < 4000; r++) {
            i = gmp_urandomm_ui(rs, NZ); k = gmp_urandomm_ui(rs, 7);
            if (late && r == 2000) _enable_gmp_safe_clean();
            if (k < 2) { mpz_rrandomb(z[i], rs, 1 + gmp_urandomm_ui(rs, k ? 4000 : 200)); gfree(model[i]); model[i] = mpz_get_str(NULL, 16, z[i]); }
            else if (k == 2) { mpz_realloc2(z[i], mpz_sizeinbase(z[i], 2)); sizes++; }                 /* exact */
            else if (k == 3) { mpz_realloc2(z[i], mpz_sizeinbase(z[i], 2) + gmp_urandomm_ui(rs, 3000)); sizes++; }
            else if (k == 4) { mpz_mul_2exp(z[i], z[i], gmp_urandomm_ui(rs, 2000)); gfree(model[i]); model[i] = mpz_get_str(NULL, 16, z[i]); }
            else if (k == 5) { mpz_clear(z[i]); mpz_init_set_str(z[i], model[i], 16); }
            else { mpz_tdiv_q_2exp(z[i], z[i], gmp_urandomm_ui(rs, 500)); _mpz_realloc(z[i], mpz_size(z[i]) ? mpz_size(z[i]) : 1); gfree(model[i]); model[i] = mpz_get_str(NULL, 16, z[i]); sizes++; }
            { char *s = mpz_get_str(NULL, 16, z[i]); if (strcmp(s, model[i])) { fprintf(stderr, "CLEANMON value-changed\n"); found++; } gfree(s); }
        }
        for (i = 0; i < NZ; i++) { mpz_clear(z[i]); gfree(model[i]); }
    }
    f = fopen(argv[4], "r"); if (!f) return 98;
    while (fgets(line, sizeof line, f)) {
        mpECurve_t cv; mpz_t z[7]; int i, type, st; unsigned bits; char *p = strtok(line + 2, " \n");
        type = atoi(p); for (i = 0; i < 7; i++) mpz_init_set_str(z[i], strtok(NULL, " \n"), 16);
        bits = atoi(strtok(NULL, " \n"));
        mpECurve_init(cv);
        st = type == 2 ? mpECurve_set_mpz_ws(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits) : type == 3 ? mpECurve_set_mpz_ed(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits) :
             type == 4 ? mpECurve_set_mpz_mo(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits) : mpECurve_set_mpz_te(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
        for (i = 0; i < 7; i++) mpz_clear(z[i]);
        if (st) return 98;
        for (r = 0; r < strtoul(argv[2], NULL, 10); r++) {
            mpFp_t d, k; mpECP_t g, q, s, pt, dec; mpz_t dz, kz, e, t, sx, sy; mpECDSASignatureScheme_t S; mpECDSAHashfunc_t H; mpECDSASignature_t sig; mpECElgamalCiphertext_t c; unsigned char msg[20], dig[32]; int ok;
            mpz_init(dz); mpz_init(kz); mpz_init(e); mpz_init(t); mpz_init(sx); mpz_init(sy);
            /* key generation */
            begin();
            mpFp_init(d, cv->n); mpFp_urandom(d, cv->n); mpz_set_mpFp(dz, d);
            mpECP_init(g, cv); mpECP_set_mpz(g, cv->G[0], cv->G[1], cv); mpECP_init(q, cv);
            if (r & 1) mpECP_scalar_base_mul(q, g, d); else mpECP_scalar_mul(q, g, d);
            hunt_entropy(); hunt1("key", dz); hunts += 2;
            /* signing: the nonce is recovered from the signature */
            mpECDSAHashfunc_init(H); H->dohash = toy; H->hsz = 32; mpECDSASignatureScheme_init(S, cv, H);
            for (i = 0; i < 20; i++) msg[i] = gmp_urandomb_ui(rs, 8);
            begin(); ok = mpECDSASignature_init_Sign(sig, S, d, msg, 20) == 0;
            cleanmon.keep = 0;
            if (ok) {
                size_t nb = mpz_sizeinbase(cv->n, 2);
                toy(dig, msg, 20); mpz_import(e, 32, 1, 1, 0, 0, dig); if (nb < 256) mpz_fdiv_q_2exp(e, e, 256 - nb);
                mpz_set_mpFp(t, sig->r); mpz_mul(t, t, dz); mpz_add(t, t, e); mpz_set_mpFp(kz, sig->s); mpz_invert(kz, kz, cv->n); mpz_mul(kz, kz, t); mpz_mod(kz, kz, cv->n);
                hunt_entropy(); hunt1("nonce", kz); hunt1("key", dz); mpz_invert(t, kz, cv->n); hunt1("nonce-inverse", t); hunts += 4;
                mpECDSASignature_clear(sig);
            }
            mpECDSASignatureScheme_clear(S); mpECDSAHashfunc_clear(H);
            /* shared secret and Elgamal */
            mpECP_init(s, cv); mpECP_init(pt, cv); mpECP_init(dec, cv); mpFp_init(k, cv->n); mpFp_urandom(k, cv->n);
            mpECP_urandom(pt, cv);
            begin(); mpECP_scalar_mul(s, q, k); cleanmon.keep = 0;
            mpz_set_mpECP_affine_x(sx, s); mpz_set_mpECP_affine_y(sy, s); hunt1("shared", sx); hunt1("shared", sy); hunt1("key", dz); hunts += 3;
            begin(); ok = mpECElgamal_init_encrypt(c, q, pt) == 0; hunt_entropy(); hunts++;
            if (ok) { cleanmon.keep = 1; mpECElgamal_init_decrypt(dec, d, c); cleanmon.keep = 0; mpECP_scalar_mul(s, c->C, d); mpz_set_mpECP_affine_x(sx, s); hunt1("shared", sx); mpz_set_mpECP_affine_x(sx, pt); hunt1("plaintext", sx); hunt1("key", dz); hunts += 3; mpECElgamal_clear(c); }
            begin(); mpFp_clear(d); mpFp_clear(k); mpECP_clear(g); mpECP_clear(q); mpECP_clear(s); mpECP_clear(pt); mpECP_clear(dec); hunt1("key", dz); hunt1("nonce", kz); hunts += 2;
            mpz_clear(dz); mpz_clear(kz); mpz_clear(e); mpz_clear(t); mpz_clear(sx); mpz_clear(sy);
        }
        mpECurve_clear(cv);
    }
    fclose(f);
    gmp_randclear(rs);
    printf("hunts %lu resizes %lu found %lu dropped %lu\n", hunts, sizes, found, cleanmon.dropped);
    return 0;
}
