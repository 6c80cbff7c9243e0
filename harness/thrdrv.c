/* Threads over shared inputs and private objects.
 * usage: thrdrv MODE(seq|par) NTHREADS NOPS SEED SETUP   with SETUP = lines "c type p a b n h gx gy bits" and "m modulus"
 * Every thread prints "T<i> <k> <op> <t0> <t1> <result>": results are deterministic (random outputs are reduced to a
 * verdict), so those of the concurrent run must be those of the sequential run.  t0/t1 come from a relaxed counter,
 * which orders nothing for the race detector. */
#define _GNU_SOURCE
#include <stdio.h>
#include <ecc.h>
#include <gmp.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAXC 6
#define MAXM 64
#define MAXT 16
typedef struct { char a[9][520]; int type; unsigned bits; } spec_t;
typedef struct {
    mpECurve_t cv, cv2; mpECP_t A, B, T, U, Q, PT; mpFp_t k, d, f, g; mpz_t kz, fz;
    mpECDSASignatureScheme_t S; mpECDSASignature_t sig; mpECElgamalCiphertext_t ct; unsigned char *enc; int enclen; char *encs; unsigned char *sb; size_t sbl; char *ss; mpz_t x, y;
} shared_t;
static spec_t spec[MAXC]; static int nc; static char mods[MAXM][300]; static int nm;
static shared_t sh[MAXC];
static int nops, nthr; static unsigned long seed; static unsigned long clk;
static pthread_barrier_t bar; static int par, delays;
static char *logs[MAXT];

static void toy(unsigned char *h, unsigned char *msg, size_t sz) { unsigned long long a = 1469598103934665603ULL; size_t i; for (i = 0; i < sz; i++) { a ^= msg[i]; a *= 1099511628211ULL; } for (i = 0; i < 32; i++) { a ^= i + 1; a *= 1099511628211ULL; h[i] = (unsigned char)(a >> 32); } }
static unsigned char MSG[] = "concurrency";

static int build(mpECurve_t cv, spec_t *s) {
    mpz_t z[7]; int i, st;
    for (i = 0; i < 7; i++) mpz_init_set_str(z[i], s->a[i], 16);
    st = s->type == 2 ? mpECurve_set_mpz_ws(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], s->bits) : s->type == 3 ? mpECurve_set_mpz_ed(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], s->bits) :
         s->type == 4 ? mpECurve_set_mpz_mo(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], s->bits) : mpECurve_set_mpz_te(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], s->bits);
    for (i = 0; i < 7; i++) mpz_clear(z[i]);
    return st;
}
static void share(shared_t *h, spec_t *s, int k) {
    mpECP_t g; mpECDSAHashfunc_t H; mpz_t t;
    mpECurve_init(h->cv); mpECurve_init(h->cv2);
    if (build(h->cv, s) || build(h->cv2, s)) { fprintf(stderr, "bad curve\n"); exit(98); }
    mpz_init_set_ui(t, seed * 2654435761u + 12345 + k);
    mpz_init(h->kz); mpz_ui_pow_ui(h->kz, 7, 400); mpz_mul(h->kz, h->kz, t);
    mpFp_init(h->k, h->cv->n); mpFp_set_mpz(h->k, h->kz, h->cv->n);
    mpz_add_ui(t, h->kz, 99); mpFp_init(h->d, h->cv->n); mpFp_set_mpz(h->d, t, h->cv->n);
    if (mpFp_cmp_ui(h->d, 0) == 0) mpFp_set_ui(h->d, 5, h->cv->n);
    mpz_init(h->fz); mpz_ui_pow_ui(h->fz, 5, 300); mpz_add(h->fz, h->fz, t);
    mpFp_init_fp(h->f, h->cv->fp); mpFp_set_mpz_fp(h->f, h->fz, h->cv->fp);
    mpFp_init_fp(h->g, h->cv->fp); mpFp_mul_ui(h->g, h->f, 12345); mpFp_add_ui(h->g, h->g, 1);
    mpECP_init(g, h->cv); mpECP_set_mpz(g, h->cv->G[0], h->cv->G[1], h->cv);
    mpECP_init(h->A, h->cv); mpECP_scalar_mul(h->A, g, h->k); mpECP_double(h->A, h->A);      /* projective */
    mpz_init(h->x); mpz_init(h->y); { mpECP_t c; mpECP_init(c, h->cv); mpECP_double(c, h->A); mpz_set_mpECP_affine_x(h->x, c); mpz_set_mpECP_affine_y(h->y, c); mpECP_clear(c); }
    mpECP_init(h->B, h->cv); mpECP_set_mpz(h->B, h->x, h->y, h->cv);                          /* affine */
    mpECP_init(h->T, h->cv); mpECP_set(h->T, g); mpECP_scalar_base_mul_setup(h->T);           /* prepared */
    mpECP_init(h->U, h->cv); mpECP_double(h->U, g);                                          /* not prepared, projective */
    mpECP_init(h->Q, h->cv); mpECP_scalar_mul(h->Q, g, h->d);
    mpECP_init(h->PT, h->cv2); mpECP_set_mpz(h->PT, h->x, h->y, h->cv2);
    mpECDSAHashfunc_init(H); H->dohash = toy; H->hsz = 32; mpECDSASignatureScheme_init(h->S, h->cv, H); mpECDSAHashfunc_clear(H);
    if (mpECDSASignature_init_Sign(h->sig, h->S, h->d, MSG, sizeof MSG)) exit(98);
    if (mpECElgamal_init_encrypt(h->ct, h->Q, h->B)) exit(98);
    h->enclen = mpECP_out_bytelen(h->B, 1); h->enc = malloc(h->enclen); mpECP_out_bytes(h->enc, h->B, 1);
    h->encs = malloc(mpECP_out_strlen(h->B, 0) + 1); mpECP_out_str(h->encs, h->B, 0);
    h->sb = mpECDSASignature_export_bytes(h->sig, &h->sbl); h->ss = mpECDSASignature_export_str(h->sig);
    mpECP_clear(g); mpz_clear(t);
}

typedef struct { int id; unsigned long r; FILE *o; char *buf; size_t len; mpECP_t D, W; mpFp_t F; int init; } thr_t;
static unsigned long rnd(thr_t *t) { t->r ^= t->r << 13; t->r ^= t->r >> 7; t->r ^= t->r << 17; return t->r; }
static void pt(thr_t *t, mpECP_t p) { int l = mpECP_out_strlen(p, 0); char *s = malloc(l + 1); mpECP_out_str(s, p, 0); s[l] = 0; fprintf(t->o, "%s", s); free(s); }
static void fe(thr_t *t, mpFp_t f) { mpz_t z; mpz_init(z); mpz_set_mpFp(z, f); gmp_fprintf(t->o, "%Zx", z); mpz_clear(z); }

#define NOP 36
static const char *names[NOP] = {"add", "sub", "dbl", "neg", "cmp", "copy", "mul", "mulz", "bmulT", "bmulU", "affmpz", "afffp", "outbytes", "outstr", "inbytes", "instr", "cvcopy", "cvcmp", "check", "named", "scheme",
    "sign", "verify", "sigout", "sigin", "enc", "dec", "field", "fieldinv", "modulus", "furandom", "zurandom", "purandom", "curvelist", "fset", "ownpts"};

static void step(thr_t *t, int op, int ci, unsigned long rr) {
    shared_t *h = &sh[ci]; mpECP_t p, q; mpFp_t f, g; mpz_t z, w; int i, st;
    switch (op) {
    case 0: mpECP_add(t->D, h->A, h->B); pt(t, t->D); break;
    case 1: mpECP_sub(t->D, h->B, h->A); pt(t, t->D); break;
    case 2: mpECP_double(t->D, h->A); pt(t, t->D); break;
    case 3: mpECP_neg(t->D, h->A); pt(t, t->D); break;
    case 4: fprintf(t->o, "%d%d%d", mpECP_cmp(h->A, h->B) != 0, mpECP_cmp(h->A, h->A) != 0, mpECP_cmp(h->T, h->U) != 0); break;
    case 5: mpECP_set(t->D, rr & 1 ? h->T : h->U); pt(t, t->D); break;
    case 6: mpECP_scalar_mul(t->D, h->A, h->k); pt(t, t->D); break;
    case 7: mpECP_scalar_mul_mpz(t->D, h->B, h->kz); pt(t, t->D); break;
    case 8: mpECP_scalar_base_mul(t->D, h->T, h->k); pt(t, t->D); break;
    case 9: if (rr & 1) mpECP_scalar_base_mul(t->D, h->U, h->k); else mpECP_scalar_base_mul_mpz(t->D, h->U, h->kz); pt(t, t->D); break;
    case 10: mpz_init(z); mpz_set_mpECP_affine_x(z, h->A); gmp_fprintf(t->o, "%Zx,", z); mpz_set_mpECP_affine_y(z, h->A); gmp_fprintf(t->o, "%Zx", z); mpz_clear(z); break;
    case 11: mpFp_init_fp(f, h->cv->fp); mpFp_set_mpECP_affine_x(f, h->U); fe(t, f); mpFp_set_mpECP_affine_y(f, h->A); fe(t, f); mpFp_clear(f); break;
    case 12: { int c = rr & 1, l = mpECP_out_bytelen(h->A, c); unsigned char *b = malloc(l); mpECP_out_bytes(b, rr & 2 ? h->A : h->U, c); for (i = 0; i < l; i++) fprintf(t->o, "%02x", b[i]); free(b); break; }
    case 13: { int c = rr & 1, l = mpECP_out_strlen(h->Q, c); char *b = malloc(l + 1); mpECP_out_str(b, h->Q, c); b[l] = 0; fprintf(t->o, "%s", b); free(b); break; }
    case 14: st = mpECP_set_bytes(t->D, h->enc, h->enclen, h->cv); fprintf(t->o, "%d ", st); pt(t, t->D); break;
    case 15: st = mpECP_set_str(t->D, h->encs, h->cv); fprintf(t->o, "%d ", st); pt(t, t->D); break;
    case 16: { mpECurve_t c; mpECurve_init(c); mpECurve_set(c, h->cv); fprintf(t->o, "%d", mpECurve_cmp(c, h->cv2) != 0); mpECurve_clear(c); break; }
    case 17: fprintf(t->o, "%d%d", mpECurve_cmp(h->cv, h->cv2) != 0, mpECurve_cmp(h->cv, sh[(ci + 1) % nc].cv) != 0); break;
    case 18: fprintf(t->o, "%d%d", mpECurve_point_check(h->cv, h->x, h->y), mpECurve_point_check(h->cv, h->y, h->x)); break;
    case 19: { static const char *nn[6] = {"secp256k1", "Curve25519", "E-222", "Ed25519", "secp112r1", "M-221"}; mpECurve_t c; mpECurve_init(c); st = mpECurve_set_named(c, (char *)nn[rr % 6]); gmp_fprintf(t->o, "%d %Zx", st, c->G[0]); mpECurve_clear(c); break; }
    case 20: { mpECDSASignatureScheme_t S; mpECDSAHashfunc_t H; mpECDSASignature_t s; mpECDSAHashfunc_init(H); H->dohash = toy; H->hsz = 32; mpECDSASignatureScheme_init(S, h->cv, H);
        st = mpECDSASignature_init_import_bytes(s, S, h->sb, h->sbl); fprintf(t->o, "%d", st); if (!st) { fprintf(t->o, "%d", mpECDSASignature_verify_cmp(s, h->Q, MSG, sizeof MSG)); mpECDSASignature_clear(s); } mpECDSASignatureScheme_clear(S); break; }
    case 21: { mpECDSASignature_t s; st = mpECDSASignature_init_Sign(s, h->S, h->d, MSG, sizeof MSG); fprintf(t->o, "%d", st); if (!st) { fprintf(t->o, "%d", mpECDSASignature_verify_cmp(s, h->Q, MSG, sizeof MSG)); mpECDSASignature_clear(s); } break; }
    case 22: fprintf(t->o, "%d%d", mpECDSASignature_verify_cmp(h->sig, h->Q, MSG, sizeof MSG) != 0, mpECDSASignature_verify_cmp(h->sig, h->A, MSG, sizeof MSG) != 0); break;
    case 23: { size_t l; unsigned char *b = mpECDSASignature_export_bytes(h->sig, &l); char *s = mpECDSASignature_export_str(h->sig); fprintf(t->o, "%d%d", l == h->sbl && !memcmp(b, h->sb, l), strcmp(s, h->ss)); free(b); free(s); break; }
    case 24: { mpECDSASignature_t s; st = mpECDSASignature_init_import_str(s, h->S, h->ss); fprintf(t->o, "%d", st); if (!st) { fprintf(t->o, "%d", mpFp_cmp(s->r, h->sig->r) != 0); mpECDSASignature_clear(s); } break; }
    case 25: { mpECElgamalCiphertext_t c; st = mpECElgamal_init_encrypt(c, h->Q, rr & 1 ? h->B : h->A); fprintf(t->o, "%d", st); if (!st) { st = mpECElgamal_init_decrypt(t->D, h->d, c); fprintf(t->o, "%d%d", st, mpECP_cmp(t->D, rr & 1 ? h->B : h->A) != 0); mpECElgamal_clear(c); } mpECP_set_neutral(t->D, h->cv); break; }
    case 26: st = mpECElgamal_init_decrypt(t->D, h->d, h->ct); fprintf(t->o, "%d%d", st, mpECP_cmp(t->D, h->B) != 0); break;
    case 27: mpFp_init_fp(f, h->cv->fp); mpFp_add(f, h->f, h->g); fe(t, f); mpFp_sub(f, h->f, h->g); fe(t, f); mpFp_mul(f, h->f, h->g); fe(t, f); mpFp_sqr(f, h->f); fe(t, f); mpFp_neg(f, h->g); fe(t, f);
        mpFp_add_ui(f, h->f, 7); mpFp_mul_ui(f, f, 9); mpFp_sub_ui(f, f, 3); fe(t, f); fprintf(t->o, " %d%d%d%d", mpFp_cmp(h->f, h->g) != 0, mpFp_cmp_ui(h->f, 3) != 0, mpFp_cmp_mpz(h->f, h->fz) != 0, mpFp_tstbit(h->f, 5) != 0); mpFp_clear(f); break;
    case 28: mpFp_init_fp(f, h->cv->fp); st = mpFp_inv(f, h->f); fe(t, f); mpFp_sqr(f, h->g); st |= mpFp_sqrt(f, f); mpFp_sqr(f, f); fe(t, f); mpFp_pow_mpz(f, h->f, h->kz); fe(t, f); mpFp_pow_ui(f, h->g, 65537); fe(t, f); fprintf(t->o, " %d", st); mpFp_clear(f); break;
    case 29: mpz_init_set_str(z, mods[rr % nm], 16); mpFp_init(f, z); mpFp_set_mpz(f, h->fz, z); mpFp_set_ui(f, 3 + (rr >> 8) % 1000, z); mpFp_init(g, z); mpFp_set_mpz(g, h->kz, z); mpFp_mul(f, f, g); fe(t, f); mpFp_sub(f, f, g); fe(t, f); mpFp_clear(f); mpFp_clear(g); mpz_clear(z); break;
    case 30: mpFp_init(f, h->cv->n); mpFp_urandom(f, h->cv->n); mpz_init(z); mpz_set_mpFp(z, f); fprintf(t->o, "%d", mpz_cmp(z, h->cv->n) < 0 && mpz_sgn(z) >= 0); mpz_clear(z); mpFp_clear(f); break;
    case 31: mpz_init(z); mpz_init_set_ui(w, 1); mpz_mul_2exp(w, w, 192); mpz_urandom(z, w); fprintf(t->o, "%d", mpz_cmp(z, w) < 0 && mpz_sizeinbase(z, 2) > 60); mpz_clear(z); mpz_clear(w); break;
    case 32: mpECP_init(p, h->cv); mpECP_urandom(p, h->cv); mpz_init(z); mpz_init(w); mpz_set_mpECP_affine_x(z, p); mpz_set_mpECP_affine_y(w, p); fprintf(t->o, "%d", mpECurve_point_check(h->cv, z, w)); mpz_clear(z); mpz_clear(w); mpECP_clear(p); break;
    case 33: { char **l = _mpECurve_list_standard_curves(); for (i = 0; l[i]; i++) fprintf(t->o, "%s.", l[i]); for (i = 0; l[i]; i++) free(l[i]); free(l); break; }
    case 34: mpFp_init_fp(f, h->cv->fp); mpFp_init_fp(g, h->cv->fp); mpFp_set(f, h->f); mpFp_set_mpz_fp(g, h->fz, h->cv->fp); mpFp_swap(f, g); mpFp_cswap(f, g, rr & 1); fe(t, f); fe(t, g);
        mpECP_set_mpz(t->D, h->x, h->y, h->cv); pt(t, t->D); mpFp_set_mpECP_affine_x(f, h->B); mpFp_set_mpECP_affine_y(g, h->B); mpECP_set_mpFp(t->D, f, g, h->cv); pt(t, t->D); mpFp_clear(f); mpFp_clear(g); break;
    case 35: mpECP_init(p, h->cv); mpECP_init(q, h->cv2); mpECP_set(p, h->A); mpECP_set(q, h->PT); mpECP_scalar_base_mul_setup(p); mpECP_swap(p, q); mpECP_scalar_base_mul(t->D, q, h->k); pt(t, t->D); mpECP_clear(p); mpECP_clear(q); break;
    }
}
static void *body(void *a) {
    thr_t *t = a; int k;
    t->o = open_memstream(&t->buf, &t->len);
    t->r = seed * 0x9E3779B97F4A7C15UL + (t->id + 1) * 0xD1B54A32D192ED03UL; rnd(t); rnd(t);
    if (nc) { mpECP_init(t->D, sh[0].cv); mpECP_set_neutral(t->D, sh[0].cv); }
    if (par) pthread_barrier_wait(&bar);
    for (k = 0; k < nops; k++) {
        unsigned long c0, c1, rr; int op, ci; size_t at; char num[64];
        /* the first operations of all threads coincide on process-wide state */
        op = k == 0 ? (seed % 3 == 0 ? 29 : seed % 3 == 1 ? 30 : 9) : (int)(rnd(t) % NOP); rr = k == 0 ? seed : rnd(t) >> 5; ci = k == 0 ? (int)(seed % nc) : (int)(rnd(t) % nc);
        if (k && rnd(t) % 4 == 0) op = (int)((seed + k) % NOP), ci = (int)((seed + k) % nc);      /* all threads on the same operation at times */
        fprintf(t->o, "T%d %d %s ", t->id, k, names[op]);
        c0 = __atomic_fetch_add(&clk, 1, __ATOMIC_RELAXED);
        step(t, op, ci, rr);
        c1 = __atomic_fetch_add(&clk, 1, __ATOMIC_RELAXED);
        (void)at; snprintf(num, sizeof num, " # %lu %lu %d\n", c0, c1, ci); fputs(num, t->o);
        if (delays && rnd(t) % 3 == 0) { if (rnd(t) & 1) sched_yield(); else usleep(rnd(t) % 300); }
    }
    if (nc) mpECP_clear(t->D);
    fclose(t->o); logs[t->id] = t->buf;
    return NULL;
}
int main(int argc, char **argv) {
    FILE *in; char line[8192]; pthread_t th[MAXT]; thr_t tt[MAXT]; int i;
    if (argc < 6) return 98;
    par = !strcmp(argv[1], "par"); nthr = atoi(argv[2]); nops = atoi(argv[3]); seed = strtoul(argv[4], NULL, 10); delays = seed & 1;
    in = fopen(argv[5], "r"); if (!in) return 98;
    while (fgets(line, sizeof line, in)) {
        if (line[0] == 'm') { line[strcspn(line, "\n")] = 0; snprintf(mods[nm++], 300, "%s", line + 2); }
        else if (line[0] == 'c') { spec_t *s = &spec[nc++]; char *p = strtok(line + 2, " \n"); s->type = atoi(p); for (i = 0; i < 7; i++) snprintf(s->a[i], 520, "%s", strtok(NULL, " \n")); s->bits = atoi(strtok(NULL, " \n")); }
    }
    fclose(in);
    if (!nc || !nm || nthr > MAXT) return 98;
    /* with seed%3 of 1 the sharing phase would use the entropy source first: then only curves without signatures */
    if (getenv("THR_COLD")) {
        /* nothing shared: all threads use the process-wide state for the first time together */
        nc = 0;
    } else for (i = 0; i < nc; i++) share(&sh[i], &spec[i], i);
    if (getenv("THR_SAFECLEAN")) _enable_gmp_safe_clean();
    memset(tt, 0, sizeof tt);
    pthread_barrier_init(&bar, NULL, nthr);
    if (nc == 0) {
        extern void *cold(void *);
        for (i = 0; i < nthr; i++) { tt[i].id = i; pthread_create(&th[i], NULL, cold, &tt[i]); if (!par) pthread_join(th[i], NULL); }
    } else for (i = 0; i < nthr; i++) { tt[i].id = i; pthread_create(&th[i], NULL, body, &tt[i]); if (!par) pthread_join(th[i], NULL); }
    if (par) for (i = 0; i < nthr; i++) pthread_join(th[i], NULL);
    for (i = 0; i < nthr; i++) fputs(logs[i], stdout);
    printf("END\n");
    return 0;
}
/* own objects only, nothing touched before */
void *cold(void *a) {
    thr_t *t = a; int k, i; unsigned long c0, c1;
    t->o = open_memstream(&t->buf, &t->len);
    t->r = seed * 0x9E3779B97F4A7C15UL + 77;        /* the same choices in every thread */
    if (par) pthread_barrier_wait(&bar);
    for (k = 0; k < nops; k++) {
        int op = rnd(t) % 5, m = rnd(t) % nm; mpz_t z, w; mpFp_t f, g;
        static const char *cn[5] = {"cold-modulus", "cold-urandom", "cold-furandom", "cold-curve", "cold-sign"};
        fprintf(t->o, "T%d %d %s ", t->id, k, cn[op]);
        c0 = __atomic_fetch_add(&clk, 1, __ATOMIC_RELAXED);
        mpz_init_set_str(z, mods[m], 16); mpz_init_set(w, z);
        switch (op) {
        case 0: mpFp_init(f, z); mpFp_set_ui(f, 12345 + t->id, z); mpFp_init(g, z); mpFp_set_mpz(g, w, z); mpFp_sub_ui(g, g, 3); mpFp_mul(f, f, g); fe(t, f); mpFp_clear(f); mpFp_clear(g); break;
        case 1: mpz_urandom(w, z); fprintf(t->o, "%d", mpz_cmp(w, z) < 0); break;
        case 2: mpFp_init(f, z); mpFp_urandom(f, z); mpz_set_mpFp(w, f); fprintf(t->o, "%d", mpz_cmp(w, z) < 0); mpFp_clear(f); break;
        case 3: case 4: {
            shared_t h; i = (int)(rnd(t) % (sizeof spec / sizeof spec[0])); while (!spec[i].type) i = (i + 1) % MAXC;
            memset(&h, 0, sizeof h); mpECurve_init(h.cv); fprintf(t->o, "%d", build(h.cv, &spec[i]));
            mpECP_init(h.A, h.cv); mpECP_set_mpz(h.A, h.cv->G[0], h.cv->G[1], h.cv); mpECP_double(h.A, h.A); pt(t, h.A);
            if (op == 4) { mpECDSAHashfunc_t H; mpFp_init(h.d, h.cv->n); mpFp_urandom(h.d, h.cv->n); mpECP_init(h.Q, h.cv); mpECP_set_mpz(h.Q, h.cv->G[0], h.cv->G[1], h.cv); mpECP_scalar_mul(h.Q, h.Q, h.d);
                mpECDSAHashfunc_init(H); H->dohash = toy; H->hsz = 32; mpECDSASignatureScheme_init(h.S, h.cv, H);
                fprintf(t->o, " %d", mpECDSASignature_init_Sign(h.sig, h.S, h.d, MSG, sizeof MSG)); fprintf(t->o, "%d", mpECDSASignature_verify_cmp(h.sig, h.Q, MSG, sizeof MSG));
                mpECDSASignature_clear(h.sig); mpECDSASignatureScheme_clear(h.S); mpECP_clear(h.Q); mpFp_clear(h.d); }
            mpECP_clear(h.A); mpECurve_clear(h.cv); break; }
        }
        mpz_clear(z); mpz_clear(w);
        c1 = __atomic_fetch_add(&clk, 1, __ATOMIC_RELAXED);
        fprintf(t->o, " # %lu %lu -1\n", c0, c1);
        if (delays && rnd(t) % 3 == 0) sched_yield();
    }
    fclose(t->o); logs[t->id] = t->buf;
    return NULL;
}
