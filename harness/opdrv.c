/* Operation-script driver: executes histories of libecc API calls and logs every observable result.
 * usage: opdrv SCRIPT OUT   (one command per line; one result line per command; "@ id" starts a case) */
#include <stdio.h>
#include <assert.h>
#include <ecc.h>
#include <gmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define NF 96
#define NC 32
#define NP 96
#define NS 8
#define NG 32
#define NE 16

static mpFp_t F[NF]; static int Fi[NF];
static mpECurve_t CV[NC]; static int Ci[NC];
static mpECP_t P[NP]; static int Pi[NP];
static mpECDSASignatureScheme_t S[NS]; static int Si[NS];
static mpECDSASignature_t G[NG]; static int Gi[NG];
static mpECElgamalCiphertext_t E[NE]; static int Ei[NE];
static mpz_t z0, z1, z2, z3, z4, z5, z6, z7;
static FILE *out;

static char *tok[64]; static int ntok;
static void gfree(char *s) { void (*f)(void *, size_t); mp_get_memory_functions(NULL, NULL, &f); f(s, strlen(s) + 1); }

static void die(const char *m) { fprintf(stderr, "opdrv: bad script: %s (%s)\n", m, ntok ? tok[0] : ""); fflush(out); _exit(97); }
static int I(int k) { if (k >= ntok) die("missing arg"); return atoi(tok[k]); }
static unsigned long U(int k) { if (k >= ntok) die("missing arg"); return strtoul(tok[k], NULL, 16); }
/* inputs which the library only reads are compared with what was passed, after every operation */
static mpz_ptr zin[16]; static int zink[16], nzin; static unsigned char *hexcopy; static size_t hexcopyn;
static void changed(const char *what) { fprintf(stderr, "opdrv: the library changed its input (%s) in %s\n", what, tok[0]); fflush(out); abort(); }
static void Zs(mpz_t z, int k) { if (k >= ntok) die("missing arg"); if (mpz_set_str(z, tok[k], 16) != 0) die("bad int"); if (nzin < 16) { zin[nzin] = z; zink[nzin++] = k; } }
static void hfree(void *b) { if (hexcopyn && memcmp(b, hexcopy, hexcopyn)) changed("octets"); free(b); }

static int f(int k) { int r = I(k); if (r < 0 || r >= NF) die("freg"); return r; }
static int fr(int k) { int r = f(k); if (!Fi[r]) die("unset freg"); return r; }
static int p(int k) { int r = I(k); if (r < 0 || r >= NP) die("preg"); return r; }
static int pr(int k) { int r = p(k); if (!Pi[r]) die("unset preg"); return r; }
static int c(int k) { int r = I(k); if (r < 0 || r >= NC) die("creg"); return r; }
static int cr(int k) { int r = c(k); if (!Ci[r]) die("unset creg"); return r; }
static int sg(int k) { int r = I(k); if (r < 0 || r >= NG) die("greg"); return r; }
static int ss(int k) { int r = I(k); if (r < 0 || r >= NS || !Si[r]) die("sreg"); return r; }
static int eg(int k) { int r = I(k); if (r < 0 || r >= NE) die("ereg"); return r; }

static void fdst(int r, mpFp_field_ptr fp) { if (!Fi[r]) { mpFp_init_fp(F[r], fp); Fi[r] = 1; } }
static void pdst(int r, mpECurve_ptr cv) { if (!Pi[r]) { mpECP_init(P[r], cv); Pi[r] = 1; } }

static void pf(mpFp_t v) {   /* value; fixed width words are read through the public conversion */
    mpz_t t; mpz_init(t); mpz_set_mpFp(t, v); gmp_fprintf(out, "%Zx", t);
    if (mpz_cmp(t, v->fp->p) >= 0) fprintf(out, "!noncanonical");
    mpz_clear(t);
}
static void pp(mpECP_t v) {  /* works on a copy so that the representation of v is not touched */
    mpECP_t t; unsigned char *b; int l;
    mpz_t x, y;
    mpECP_init(t, v->cvp); mpECP_set(t, v);
    l = mpECP_out_bytelen(t, 0);
    b = malloc(l); mpECP_out_bytes(b, t, 0);
    if (b[0] == 0) fprintf(out, "N");
    else {
        mpz_init(x); mpz_init(y);
        mpz_set_mpECP_affine_x(x, t); mpz_set_mpECP_affine_y(y, t);
        gmp_fprintf(out, "%Zx,%Zx", x, y);
        mpz_clear(x); mpz_clear(y);
    }
    free(b); mpECP_clear(t);
}
static void pcv(mpECurve_t v) {
    fprintf(out, "t%d,", (int)v->type);
    gmp_fprintf(out, "%Zx,", v->fp->p);
    switch (v->type) {
    case EQTypeShortWeierstrass: pf(v->coeff.ws.a); fprintf(out, ","); pf(v->coeff.ws.b); break;
    case EQTypeEdwards: pf(v->coeff.ed.c); fprintf(out, ","); pf(v->coeff.ed.d); break;
    case EQTypeMontgomery: pf(v->coeff.mo.B); fprintf(out, ","); pf(v->coeff.mo.A); break;
    case EQTypeTwistedEdwards: pf(v->coeff.te.a); fprintf(out, ","); pf(v->coeff.te.d); break;
    default: break;
    }
    gmp_fprintf(out, ",%Zx,%Zx,%Zx,%Zx,%u", v->n, v->h, v->G[0], v->G[1], v->bits);
}
static void hexout(const unsigned char *b, size_t n) { size_t i; for (i = 0; i < n; i++) fprintf(out, "%02x", b[i]); if (!n) fprintf(out, "-"); }
static unsigned char *hexin(int k, size_t *n) {
    size_t l, i; unsigned char *b; unsigned v;
    if (k >= ntok) die("missing bytes");
    if (strcmp(tok[k], "-") == 0) { *n = 0; hexcopyn = 0; return malloc(1); }
    l = strlen(tok[k]) / 2; b = malloc(l ? l : 1);
    for (i = 0; i < l; i++) { if (sscanf(tok[k] + 2 * i, "%2x", &v) != 1) die("hex"); b[i] = v; }
    free(hexcopy); hexcopy = malloc(l ? l : 1); memcpy(hexcopy, b, l); hexcopyn = l;
    *n = l; return b;
}

/* test "hash": an arbitrary fixed digest is planted so that every digest value can be exercised */
static unsigned char digest[256]; static size_t digest_len, hash_calls, hash_lastsz;
static void planted_hash(unsigned char *h, unsigned char *msg, size_t sz) {
    volatile unsigned char x = 0; size_t i;
    hash_calls++; hash_lastsz = sz;
    for (i = 0; i < sz; i++) x ^= msg[i];
    memcpy(h, digest, digest_len);
}
/* message dependent toy hash of any length (FNV chain), mirrored by the oracle */
static size_t toy_len;
static void toy_hash(unsigned char *h, unsigned char *msg, size_t sz) {
    unsigned long long a = 1469598103934665603ULL; size_t i;
    for (i = 0; i < sz; i++) { a ^= msg[i]; a *= 1099511628211ULL; }
    for (i = 0; i < toy_len; i++) { a ^= i + 1; a *= 1099511628211ULL; h[i] = (unsigned char)(a >> 32); }
}

static void clear_sigs(void) { int i; for (i = 0; i < NG; i++) if (Gi[i]) { mpECDSASignature_clear(G[i]); Gi[i] = 0; } }
static void reset_all(void) {
    int i;
    clear_sigs();
    for (i = 0; i < NE; i++) if (Ei[i]) { mpECElgamal_clear(E[i]); Ei[i] = 0; }
    for (i = 0; i < NS; i++) if (Si[i]) { mpECDSASignatureScheme_clear(S[i]); Si[i] = 0; }
    for (i = 0; i < NP; i++) if (Pi[i]) { mpECP_clear(P[i]); Pi[i] = 0; }
    for (i = 0; i < NC; i++) if (Ci[i]) { mpECurve_clear(CV[i]); Ci[i] = 0; }
    for (i = 0; i < NF; i++) if (Fi[i]) { mpFp_clear(F[i]); Fi[i] = 0; }
}
static void dumpall(void) {
    int i;
    fprintf(out, "D");
    for (i = 0; i < NF; i++) if (Fi[i]) { fprintf(out, " f%d=", i); pf(F[i]); gmp_fprintf(out, "/%Zx", F[i]->fp->p); }
    for (i = 0; i < NC; i++) if (Ci[i]) { fprintf(out, " c%d=", i); if (CV[i]->fp) pcv(CV[i]); else fprintf(out, "unset"); }
    for (i = 0; i < NP; i++) if (Pi[i]) {
        int j, o = -1;
        for (j = 0; j < NC; j++) if (Ci[j] && P[i]->cvp == CV[j]) o = j;
        fprintf(out, " p%d=", i); pp(P[i]); fprintf(out, "@%d", o);
    }
    for (i = 0; i < NS; i++) if (Si[i]) { int j, o = -1; for (j = 0; j < NC; j++) if (Ci[j] && S[i]->cvp == CV[j]) o = j; fprintf(out, " s%d=%d,%zu,%zu,", i, o, S[i]->nsz, S[i]->H->hsz); pp(S[i]->cv_G); }
    for (i = 0; i < NG; i++) if (Gi[i]) { fprintf(out, " g%d=", i); pf(G[i]->r); fprintf(out, ","); pf(G[i]->s); }
    for (i = 0; i < NE; i++) if (Ei[i]) { fprintf(out, " e%d=", i); pp(E[i]->C); fprintf(out, ","); pp(E[i]->D); }
}

static int is(const char *s) { return strcmp(tok[0], s) == 0; }

static void run(void) {
    int r, d, a, b, st; size_t n; unsigned char *buf; char *str;
    /* ---------- field ---------- */
    if (is("fset")) { d = f(1); Zs(z0, 2); Zs(z1, 3); if (!Fi[d]) { mpFp_init(F[d], z1); Fi[d] = 1; } mpFp_set_mpz(F[d], z0, z1); pf(F[d]); }
    else if (is("fsetlike")) { d = f(1); Zs(z0, 2); a = fr(3); fdst(d, F[a]->fp); mpFp_set_mpz_fp(F[d], z0, F[a]->fp); pf(F[d]); }
    else if (is("fsetui")) { d = f(1); Zs(z1, 3); if (!Fi[d]) { mpFp_init(F[d], z1); Fi[d] = 1; } mpFp_set_ui(F[d], U(2), z1); pf(F[d]); }
    else if (is("fsetuilike")) { d = f(1); a = fr(3); fdst(d, F[a]->fp); mpFp_set_ui_fp(F[d], U(2), F[a]->fp); pf(F[d]); }
    else if (is("fcopy")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_set(F[d], F[a]); pf(F[d]); }
    else if (is("fget")) { a = fr(1); pf(F[a]); gmp_fprintf(out, "/%Zx", F[a]->fp->p); }
    else if (is("fgetdirty")) { /* export into an integer that already holds something else */
        a = fr(1); Zs(z0, 2); mpz_set(z1, z0); mpz_set_mpFp(z1, F[a]); gmp_fprintf(out, "%Zx", z1); }
    else if (is("fclear")) { a = fr(1); mpFp_clear(F[a]); Fi[a] = 0; fprintf(out, "ok"); }
    else if (is("fadd") || is("fsub") || is("fmul")) {
        d = f(1); a = fr(2); b = fr(3); fdst(d, F[a]->fp);
        if (is("fadd")) mpFp_add(F[d], F[a], F[b]); else if (is("fsub")) mpFp_sub(F[d], F[a], F[b]); else mpFp_mul(F[d], F[a], F[b]);
        pf(F[d]);
    }
    else if (is("fneg")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_neg(F[d], F[a]); pf(F[d]); }
    else if (is("fsqr")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_sqr(F[d], F[a]); pf(F[d]); }
    else if (is("faddui")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_add_ui(F[d], F[a], U(3)); pf(F[d]); }
    else if (is("fsubui")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_sub_ui(F[d], F[a], U(3)); pf(F[d]); }
    else if (is("fmului")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_mul_ui(F[d], F[a], U(3)); pf(F[d]); }
    else if (is("fpowui")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); mpFp_pow_ui(F[d], F[a], U(3)); pf(F[d]); }
    else if (is("fpowz")) { d = f(1); a = fr(2); Zs(z0, 3); fdst(d, F[a]->fp); mpFp_pow_mpz(F[d], F[a], z0); pf(F[d]); }
    else if (is("finv")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); st = mpFp_inv(F[d], F[a]); fprintf(out, "%d ", st != 0); if (!st) pf(F[d]); else fprintf(out, "-"); }
    else if (is("fsqrt")) { d = f(1); a = fr(2); fdst(d, F[a]->fp); st = mpFp_sqrt(F[d], F[a]); fprintf(out, "%d ", st != 0); if (!st) pf(F[d]); else fprintf(out, "-"); }
    else if (is("fcmp")) { fprintf(out, "%d", mpFp_cmp(F[fr(1)], F[fr(2)]) != 0); }
    else if (is("fcmps")) { st = mpFp_cmp(F[fr(1)], F[fr(2)]); fprintf(out, "%d", (st > 0) - (st < 0)); }
    else if (is("fcmpui")) { fprintf(out, "%d", mpFp_cmp_ui(F[fr(1)], U(2)) != 0); }
    else if (is("fcmpz")) { Zs(z0, 2); fprintf(out, "%d", mpFp_cmp_mpz(F[fr(1)], z0) != 0); }
    else if (is("fswap")) { a = fr(1); b = fr(2); mpFp_swap(F[a], F[b]); pf(F[a]); fprintf(out, " "); pf(F[b]); }
    else if (is("fcswap")) { a = fr(1); b = fr(2); mpFp_cswap(F[a], F[b], I(3)); pf(F[a]); fprintf(out, " "); pf(F[b]); }
    else if (is("ftst")) { fprintf(out, "%d", mpFp_tstbit(F[fr(1)], I(2)) != 0); }
    else if (is("fsame")) { fprintf(out, "%d", F[fr(1)]->fp == F[fr(2)]->fp); }
    else if (is("furandom")) { d = f(1); Zs(z1, 2); if (!Fi[d]) { mpFp_init(F[d], z1); Fi[d] = 1; } mpFp_urandom(F[d], z1); pf(F[d]); }
    else if (is("zurandom")) { Zs(z1, 1); mpz_urandom(z0, z1); gmp_fprintf(out, "%Zx", z0); }
    /* ---------- curves ---------- */
    else if (is("cname")) { d = c(1); if (!Ci[d]) { mpECurve_init(CV[d]); Ci[d] = 1; } st = mpECurve_set_named(CV[d], tok[2]); fprintf(out, "%d", st != 0); }
    else if (is("cset") || is("csetstr") || is("csetdec")) {   /* cset reg type p a b n h gx gy bits */
        unsigned bits; char *s[7]; int k;
        d = c(1); if (!Ci[d]) { mpECurve_init(CV[d]); Ci[d] = 1; }
        Zs(z0, 3); Zs(z1, 4); Zs(z2, 5); Zs(z3, 6); Zs(z4, 7); Zs(z5, 8); Zs(z6, 9); bits = I(10); a = I(2);
        if (is("cset")) {
            st = a == 2 ? mpECurve_set_mpz_ws(CV[d], z0, z1, z2, z3, z4, z5, z6, bits) :
                 a == 3 ? mpECurve_set_mpz_ed(CV[d], z0, z1, z2, z3, z4, z5, z6, bits) :
                 a == 4 ? mpECurve_set_mpz_mo(CV[d], z0, z1, z2, z3, z4, z5, z6, bits) :
                          mpECurve_set_mpz_te(CV[d], z0, z1, z2, z3, z4, z5, z6, bits);
        } else {
            const char *fmt = is("csetstr") ? "%#Zx" : "%Zd";
            gmp_asprintf(&s[0], fmt, z0); gmp_asprintf(&s[1], fmt, z1); gmp_asprintf(&s[2], fmt, z2); gmp_asprintf(&s[3], fmt, z3);
            gmp_asprintf(&s[4], fmt, z4); gmp_asprintf(&s[5], fmt, z5); gmp_asprintf(&s[6], fmt, z6);
            st = a == 2 ? mpECurve_set_str_ws(CV[d], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits) :
                 a == 3 ? mpECurve_set_str_ed(CV[d], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits) :
                 a == 4 ? mpECurve_set_str_mo(CV[d], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits) :
                          mpECurve_set_str_te(CV[d], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
            for (k = 0; k < 7; k++) gfree(s[k]);
        }
        fprintf(out, "%d", st != 0);
    }
    else if (is("ccopy")) { d = c(1); a = cr(2); if (!Ci[d]) { mpECurve_init(CV[d]); Ci[d] = 1; } mpECurve_set(CV[d], CV[a]); fprintf(out, "ok"); }
    else if (is("cclear")) { d = cr(1); mpECurve_clear(CV[d]); Ci[d] = 0; fprintf(out, "ok"); }
    else if (is("cdump")) { pcv(CV[cr(1)]); }
    else if (is("ccmp")) { fprintf(out, "%d", mpECurve_cmp(CV[cr(1)], CV[cr(2)]) != 0); }
    else if (is("ccheck")) { a = cr(1); Zs(z0, 2); Zs(z1, 3); fprintf(out, "%d", mpECurve_point_check(CV[a], z0, z1) != 0); }
    else if (is("clist")) { char **l = _mpECurve_list_standard_curves(), **q; for (q = l; *q; q++) { fprintf(out, "%s%s", q == l ? "" : " ", *q); free(*q); } free(l); }
    /* ---------- points ---------- */
    else if (is("pset")) { d = p(1); a = cr(2); pdst(d, CV[a]); Zs(z0, 3); Zs(z1, 4); mpECP_set_mpz(P[d], z0, z1, CV[a]); pp(P[d]); }
    else if (is("psetq")) { d = p(1); a = cr(2); pdst(d, CV[a]); Zs(z0, 3); Zs(z1, 4); mpECP_set_mpz(P[d], z0, z1, CV[a]); fprintf(out, "ok"); }
    else if (is("psetf")) { d = p(1); a = cr(2); pdst(d, CV[a]); mpECP_set_mpFp(P[d], F[fr(3)], F[fr(4)], CV[a]); pp(P[d]); }
    else if (is("pneut")) { d = p(1); a = cr(2); pdst(d, CV[a]); mpECP_set_neutral(P[d], CV[a]); pp(P[d]); }
    else if (is("pgen")) { d = p(1); a = cr(2); pdst(d, CV[a]); mpECP_set_mpz(P[d], CV[a]->G[0], CV[a]->G[1], CV[a]); pp(P[d]); }
    else if (is("pinit")) { d = p(1); a = cr(2); if (Pi[d]) mpECP_clear(P[d]); mpECP_init(P[d], CV[a]); Pi[d] = 1; mpECP_set_neutral(P[d], CV[a]); fprintf(out, "ok"); }
    else if (is("pcopy")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); mpECP_set(P[d], P[a]); pp(P[d]); }
    else if (is("pclear")) { a = pr(1); mpECP_clear(P[a]); Pi[a] = 0; fprintf(out, "ok"); }
    else if (is("pdump")) { pp(P[pr(1)]); }
    else if (is("paff")) { a = pr(1); mpz_set_mpECP_affine_x(z0, P[a]); mpz_set_mpECP_affine_y(z1, P[a]); gmp_fprintf(out, "%Zx,%Zx", z0, z1); }
    else if (is("pafff")) { a = pr(1); d = f(2); b = f(3); fdst(d, P[a]->cvp->fp); fdst(b, P[a]->cvp->fp); mpFp_set_mpECP_affine_x(F[d], P[a]); mpFp_set_mpECP_affine_y(F[b], P[a]); pf(F[d]); fprintf(out, ","); pf(F[b]); }
    else if (is("padd") || is("psub")) { d = p(1); a = pr(2); b = pr(3); pdst(d, P[a]->cvp); if (is("padd")) mpECP_add(P[d], P[a], P[b]); else mpECP_sub(P[d], P[a], P[b]); pp(P[d]); }
    else if (is("paddq") || is("psubq")) { d = p(1); a = pr(2); b = pr(3); pdst(d, P[a]->cvp); if (is("paddq")) mpECP_add(P[d], P[a], P[b]); else mpECP_sub(P[d], P[a], P[b]); fprintf(out, "ok"); }
    else if (is("pdbl")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); mpECP_double(P[d], P[a]); pp(P[d]); }
    else if (is("pneg")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); mpECP_neg(P[d], P[a]); pp(P[d]); }
    else if (is("pcmp")) { fprintf(out, "%d", mpECP_cmp(P[pr(1)], P[pr(2)]) != 0); }
    else if (is("pswap")) { a = pr(1); b = pr(2); mpECP_swap(P[a], P[b]); pp(P[a]); fprintf(out, " "); pp(P[b]); }
    else if (is("pcswap")) { a = pr(1); b = pr(2); mpECP_cswap(P[a], P[b], I(3)); pp(P[a]); fprintf(out, " "); pp(P[b]); }
    else if (is("pmul")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); mpECP_scalar_mul(P[d], P[a], F[fr(3)]); pp(P[d]); }
    else if (is("pmulz")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); Zs(z0, 3); mpECP_scalar_mul_mpz(P[d], P[a], z0); pp(P[d]); }
    else if (is("pbsetup")) { mpECP_scalar_base_mul_setup(P[pr(1)]); fprintf(out, "ok"); }
    else if (is("pbmul")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); mpECP_scalar_base_mul(P[d], P[a], F[fr(3)]); pp(P[d]); }
    else if (is("pbmulz")) { d = p(1); a = pr(2); pdst(d, P[a]->cvp); Zs(z0, 3); mpECP_scalar_base_mul_mpz(P[d], P[a], z0); pp(P[d]); }
    else if (is("purandom")) { d = p(1); a = cr(2); pdst(d, CV[a]); mpECP_urandom(P[d], CV[a]); pp(P[d]); }
    else if (is("pout")) { /* exact-size heap buffer so that overruns are seen */
        a = pr(1); r = I(2); n = mpECP_out_bytelen(P[a], r); buf = malloc(n); memset(buf, 0xA5, n); mpECP_out_bytes(buf, P[a], r); hexout(buf, n); free(buf); }
    else if (is("pouts")) { a = pr(1); r = I(2); n = mpECP_out_strlen(P[a], r); str = malloc(n + 1); memset(str, 'Z', n + 1); mpECP_out_str(str, P[a], r); fprintf(out, "%zu %zu %s", n, strlen(str), str); free(str); }
    else if (is("pin")) { d = p(1); a = cr(2); pdst(d, CV[a]); buf = hexin(3, &n); st = mpECP_set_bytes(P[d], buf, n, CV[a]); hfree(buf); fprintf(out, "%d ", st != 0); if (!st) pp(P[d]); else fprintf(out, "-"); }
    else if (is("pins")) { /* argument: hex encoding of the C string */
        d = p(1); a = cr(2); pdst(d, CV[a]); buf = hexin(3, &n); str = malloc(n + 1); memcpy(str, buf, n); str[n] = 0; hfree(buf);
        st = mpECP_set_str(P[d], str, CV[a]); hfree(str); fprintf(out, "%d ", st != 0); if (!st) pp(P[d]); else fprintf(out, "-"); }
    else if (is("pcurve")) { int j, o = -1; a = pr(1); for (j = 0; j < NC; j++) if (Ci[j] && P[a]->cvp == CV[j]) o = j; fprintf(out, "%d", o); }
    /* ---------- ecdsa ---------- */
    else if (is("digest")) { buf = hexin(1, &n); if (n > sizeof digest) die("digest"); memcpy(digest, buf, n); digest_len = n; hfree(buf); fprintf(out, "ok"); }
    else if (is("sinit")) { /* sinit s c hashlen(planted)  |  sinit s c toy len */
        mpECDSAHashfunc_t H; int toy = strcmp(tok[3], "toy") == 0;
        d = I(1); if (d < 0 || d >= NS) die("s"); a = cr(2);
        if (Si[d]) { mpECDSASignatureScheme_clear(S[d]); Si[d] = 0; }
        mpECDSAHashfunc_init(H); H->dohash = toy ? toy_hash : planted_hash; H->hsz = toy ? I(4) : I(3); if (toy) toy_len = H->hsz;
        st = mpECDSASignatureScheme_init(S[d], CV[a], H); Si[d] = 1; fprintf(out, "%d", st != 0); mpECDSAHashfunc_clear(H); }
    else if (is("sclear")) { d = ss(1); mpECDSASignatureScheme_clear(S[d]); Si[d] = 0; fprintf(out, "ok"); }
    else if (is("sign")) { /* sign g s f msg */
        d = sg(1); a = ss(2); b = fr(3); buf = hexin(4, &n); if (Gi[d]) { mpECDSASignature_clear(G[d]); Gi[d] = 0; }
        st = mpECDSASignature_init_Sign(G[d], S[a], F[b], buf, n); hfree(buf); fprintf(out, "%d ", st != 0);
        if (!st) { Gi[d] = 1; pf(G[d]->r); fprintf(out, " "); pf(G[d]->s); } else fprintf(out, "- -"); }
    else if (is("gset")) { /* signature with arbitrary r,s mod n, built the way an application with field elements would */
        d = sg(1); a = ss(2); Zs(z0, 3); Zs(z1, 4);
        if (!Gi[d]) { mpFp_init(G[d]->r, S[a]->cvp->n); mpFp_init(G[d]->s, S[a]->cvp->n); Gi[d] = 1; }
        mpFp_set_mpz(G[d]->r, z0, S[a]->cvp->n); mpFp_set_mpz(G[d]->s, z1, S[a]->cvp->n); G[d]->sscheme = S[a]; fprintf(out, "ok"); }
    else if (is("gsetmod")) { /* r,s in a foreign field */
        d = sg(1); a = ss(2); Zs(z0, 3); Zs(z1, 4); Zs(z2, 5); Zs(z3, 6);
        if (!Gi[d]) { mpFp_init(G[d]->r, z2); mpFp_init(G[d]->s, z3); Gi[d] = 1; }
        mpFp_set_mpz(G[d]->r, z0, z2); mpFp_set_mpz(G[d]->s, z1, z3); G[d]->sscheme = S[a]; fprintf(out, "ok"); }
    else if (is("gclear")) { d = sg(1); if (Gi[d]) { mpECDSASignature_clear(G[d]); Gi[d] = 0; } fprintf(out, "ok"); }
    else if (is("verify")) { /* verify g p msg */
        d = sg(1); if (!Gi[d]) die("sig"); a = pr(2); buf = hexin(3, &n); st = mpECDSASignature_verify_cmp(G[d], P[a], buf, n); hfree(buf); fprintf(out, "%d", st == 0); }
    else if (is("gout")) { d = sg(1); if (!Gi[d]) die("sig"); buf = mpECDSASignature_export_bytes(G[d], &n); hexout(buf, n); free(buf); }
    else if (is("gouts")) { d = sg(1); if (!Gi[d]) die("sig"); str = mpECDSASignature_export_str(G[d]); fprintf(out, "%s", str); free(str); }
    else if (is("gin")) { d = sg(1); a = ss(2); buf = hexin(3, &n); if (Gi[d]) { mpECDSASignature_clear(G[d]); Gi[d] = 0; }
        st = mpECDSASignature_init_import_bytes(G[d], S[a], buf, n); hfree(buf); fprintf(out, "%d ", st != 0); if (!st) { Gi[d] = 1; pf(G[d]->r); fprintf(out, " "); pf(G[d]->s); } else fprintf(out, "- -"); }
    else if (is("gins")) { d = sg(1); a = ss(2); buf = hexin(3, &n); str = malloc(n + 1); memcpy(str, buf, n); str[n] = 0; hfree(buf); if (Gi[d]) { mpECDSASignature_clear(G[d]); Gi[d] = 0; }
        st = mpECDSASignature_init_import_str(G[d], S[a], str); hfree(str); fprintf(out, "%d ", st != 0); if (!st) { Gi[d] = 1; pf(G[d]->r); fprintf(out, " "); pf(G[d]->s); } else fprintf(out, "- -"); }
    /* ---------- elgamal ---------- */
    else if (is("enc")) { /* enc e pK ptxt */
        d = eg(1); a = pr(2); b = pr(3); if (Ei[d]) { mpECElgamal_clear(E[d]); Ei[d] = 0; }
        st = mpECElgamal_init_encrypt(E[d], P[a], P[b]); fprintf(out, "%d ", st != 0); if (!st) { Ei[d] = 1; pp(E[d]->C); fprintf(out, " "); pp(E[d]->D); } else fprintf(out, "- -"); }
    else if (is("eset")) { /* eset e pC pD : assembled from points as an importer does */
        d = eg(1); a = pr(2); b = pr(3); if (Ei[d]) { mpECElgamal_clear(E[d]); Ei[d] = 0; }
        mpECP_init(E[d]->C, P[a]->cvp); mpECP_set(E[d]->C, P[a]); mpECP_init(E[d]->D, P[b]->cvp); mpECP_set(E[d]->D, P[b]); Ei[d] = 1; fprintf(out, "ok"); }
    else if (is("dec")) { /* dec p f e */
        d = p(1); b = fr(2); a = eg(3); if (!Ei[a]) die("ereg"); if (Pi[d]) { mpECP_clear(P[d]); Pi[d] = 0; }
        st = mpECElgamal_init_decrypt(P[d], F[b], E[a]); fprintf(out, "%d ", st != 0); if (!st) { Pi[d] = 1; pp(P[d]); } else fprintf(out, "-"); }
    else if (is("eclear")) { d = eg(1); if (Ei[d]) { mpECElgamal_clear(E[d]); Ei[d] = 0; } fprintf(out, "ok"); }
    else if (is("dumpall")) dumpall();
    else if (is("reset")) { reset_all(); fprintf(out, "ok"); }
    else die("unknown op");
    fprintf(out, "\n");
}

int main(int argc, char **argv) {
    char *line = NULL; size_t cap = 0; FILE *in; int unb = getenv("OPDRV_UNBUF") != NULL; int al = getenv("OPDRV_ALARM") ? atoi(getenv("OPDRV_ALARM")) : 120;
    if (argc < 3) return 98;
    in = fopen(argv[1], "r"); out = fopen(argv[2], "w");
    if (!in || !out) return 98;
    setvbuf(out, NULL, _IOFBF, 1 << 18);
    if (getenv("OPDRV_SAFECLEAN")) _enable_gmp_safe_clean();
    char *copy = NULL; size_t ccap = 0; mpz_t zc; mpz_init(zc);
    mpz_init(z0); mpz_init(z1); mpz_init(z2); mpz_init(z3); mpz_init(z4); mpz_init(z5); mpz_init(z6); mpz_init(z7);
    while (getline(&line, &cap, in) > 0) {
        char *sv = NULL, *t;
        ntok = 0;
        for (t = strtok_r(line, " \n", &sv); t && ntok < 64; t = strtok_r(NULL, " \n", &sv)) tok[ntok++] = t;
        if (!ntok) continue;
        if (tok[0][0] == '@') { fprintf(out, "@ %s\n", tok[1]); fflush(out); alarm(al); continue; }
        size_t used = (size_t)(tok[ntok - 1] - line) + strlen(tok[ntok - 1]) + 1; int k;
        if (used > ccap) copy = realloc(copy, ccap = used * 2);
        memcpy(copy, line, used); nzin = 0;
        run();
        if (memcmp(copy, line, used)) changed("text");
        for (k = 0; k < nzin; k++) if (mpz_set_str(zc, tok[zink[k]], 16) || mpz_cmp(zc, zin[k])) changed("integer");
        if (unb) fflush(out);
    }
    reset_all();
    mpz_clear(z0); mpz_clear(z1); mpz_clear(z2); mpz_clear(z3); mpz_clear(z4); mpz_clear(z5); mpz_clear(z6); mpz_clear(z7);
    mpz_clear(zc); free(copy); free(hexcopy); free(line); fprintf(out, "END\n"); fclose(out); fclose(in);
    return 0;
}
