/* Trace of point operations.  Built without PIE; usage: tracedrv SYMS SCRIPT OUT, SYMS = lines "hexaddr class" (A addition,
 * D doubling, S swap), SCRIPT = lines
 *   curve type p a b n h gx gy bits | point x y proj | run route scalar(hex, may be negative) | key d | sign n | full route scalar
 * For every run: the outermost operations in order as hash, counts, and the number of stores made inside swaps. */
#include <stdio.h>
#include <ecc.h>
#include <gmp.h>
#include <stdlib.h>
#include <string.h>
#define NI __attribute__((no_instrument_function))
#define NS 4096
static unsigned long addr[NS]; static char cls[NS]; static int ns;
static int on, depth, full; static unsigned long cnt[256], hash, stores, len; static FILE *out;
static NI char klass(void *f) { int i, lo = 0, hi = ns - 1; unsigned long a = (unsigned long)f; while (lo <= hi) { i = (lo + hi) / 2; if (addr[i] == a) return cls[i]; if (addr[i] < a) lo = i + 1; else hi = i - 1; } return 0; }
static char top;
NI void __cyg_profile_func_enter(void *f, void *c) { char k; (void)c; if (!on) return; k = klass(f); if (!k) return; if (depth++ == 0) { top = k; cnt[(int)k]++; hash = (hash ^ k) * 1099511628211UL; len++; if (full) fputc(k, out); } }
NI void __cyg_profile_func_exit(void *f, void *c) { (void)c; if (on && klass(f)) { depth--; if (depth == 0) top = 0; } }
#define ST(n) NI void __sanitizer_cov_store##n(void *p) { (void)p; if (on && top == 'S') stores++; }
ST(1) ST(2) ST(4) ST(8) ST(16)
NI static void begin(void) { memset(cnt, 0, sizeof cnt); hash = 1469598103934665603UL; stores = len = 0; depth = 0; top = 0; on = 1; }
NI static void end(void) { on = 0; fprintf(out, "%s%lx %lu %lu %lu %lu\n", full ? " " : "", hash, cnt['A'], cnt['D'], cnt['S'], stores); }
static void toy(unsigned char *h, unsigned char *msg, size_t sz) { unsigned long long a = 1469598103934665603ULL; size_t i; for (i = 0; i < sz; i++) { a ^= msg[i]; a *= 1099511628211ULL; } for (i = 0; i < 32; i++) { a ^= i + 1; a *= 1099511628211ULL; h[i] = (unsigned char)(a >> 32); } }
int main(int argc, char **argv) {
    FILE *f; static char line[16384]; unsigned long a; char k; mpECurve_t cv; mpECP_t P, R, T; int have = 0, havep = 0; mpz_t z[7], s; mpFp_t d; int i;
    if (argc < 4) return 98;
    f = fopen(argv[1], "r"); if (!f) return 98;
    while (fscanf(f, "%lx %c", &a, &k) == 2) { addr[ns] = a; cls[ns++] = k; }
    fclose(f);
    f = fopen(argv[2], "r"); out = fopen(argv[3], "w"); if (!f || !out) return 98;
    for (i = 0; i < 7; i++) mpz_init(z[i]);
    mpz_init(s);
    while (fgets(line, sizeof line, f)) {
        char *op = strtok(line, " \n"), *q;
        if (!op) continue;
        if (!strcmp(op, "curve")) {
            int t, st; unsigned bits;
            if (havep) { mpECP_clear(P); mpECP_clear(R); mpECP_clear(T); mpFp_clear(d); havep = 0; }
            if (have) mpECurve_clear(cv);
            mpECurve_init(cv); have = 1;
            t = atoi(strtok(NULL, " \n")); for (i = 0; i < 7; i++) mpz_set_str(z[i], strtok(NULL, " \n"), 16);
            bits = atoi(strtok(NULL, " \n"));
            st = t == 2 ? mpECurve_set_mpz_ws(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits) : t == 3 ? mpECurve_set_mpz_ed(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits) :
                 t == 4 ? mpECurve_set_mpz_mo(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits) : mpECurve_set_mpz_te(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
            if (st) return 98;
            fprintf(out, "curve\n");
        } else if (!strcmp(op, "point")) {
            if (havep) { mpECP_clear(P); mpECP_clear(R); mpECP_clear(T); mpFp_clear(d); }
            mpECP_init(P, cv); mpECP_init(R, cv); mpECP_init(T, cv); mpFp_init(d, cv->n); havep = 1;
            mpz_set_str(z[0], strtok(NULL, " \n"), 16); mpz_set_str(z[1], strtok(NULL, " \n"), 16);
            mpECP_set_mpz(P, z[0], z[1], cv); mpECP_set_neutral(R, cv);
            if (atoi(strtok(NULL, " \n"))) { mpECP_double(R, P); mpECP_sub(P, R, P); }      /* the same point, projective */
            mpECP_set(T, P); mpECP_scalar_base_mul_setup(T);
            fprintf(out, "point\n");
        } else if (!strcmp(op, "run") || !strcmp(op, "full")) {
            char *route = strtok(NULL, " \n");
            full = !strcmp(op, "full");
            mpz_set_str(s, strtok(NULL, " \n"), 16); mpFp_set_mpz(d, s, cv->n);
            begin();
            if (!strcmp(route, "mul")) mpECP_scalar_mul(R, P, d);
            else if (!strcmp(route, "mulz")) mpECP_scalar_mul_mpz(R, P, s);
            else if (!strcmp(route, "alias")) { on = 0; mpECP_set(R, P); begin(); mpECP_scalar_mul(R, R, d); }
            else if (!strcmp(route, "base")) mpECP_scalar_base_mul(R, T, d);
            else if (!strcmp(route, "basez")) mpECP_scalar_base_mul_mpz(R, T, s);
            else return 98;
            end();
        } else if (!strcmp(op, "sign")) {            /* sign d: one signature with key d */
            mpECDSASignatureScheme_t S; mpECDSAHashfunc_t H; mpECDSASignature_t g; int st;
            full = 0; mpz_set_str(s, strtok(NULL, " \n"), 16); mpFp_set_mpz(d, s, cv->n);
            mpECDSAHashfunc_init(H); H->dohash = toy; H->hsz = 32; mpECDSASignatureScheme_init(S, cv, H);
            q = strtok(NULL, " \n");
            begin(); st = mpECDSASignature_init_Sign(g, S, d, (unsigned char *)q, strlen(q)); if (st) { on = 0; return 98; } end();
            mpECDSASignature_clear(g); mpECDSASignatureScheme_clear(S); mpECDSAHashfunc_clear(H);
        } else if (!strcmp(op, "dec") || !strcmp(op, "enc")) {
            mpECElgamalCiphertext_t c; mpECP_t q2; int e = !strcmp(op, "enc"), st;
            full = 0; mpz_set_str(s, strtok(NULL, " \n"), 16); mpFp_set_mpz(d, s, cv->n);
            mpECP_init(q2, cv); mpECP_scalar_mul(q2, P, d);
            if (e) begin();
            st = mpECElgamal_init_encrypt(c, P, q2); if (st) return 98;
            if (e) end(); else { begin(); st = mpECElgamal_init_decrypt(R, d, c); if (st) return 98; end(); }
            mpECElgamal_clear(c); mpECP_clear(q2);
        } else if (!strcmp(op, "rand")) { begin(); mpECP_urandom(R, cv); end(); }
        else return 98;
    }
    fprintf(out, "END\n");
    fclose(out);
    return 0;
}
