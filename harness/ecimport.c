/* imports keys, messages and ciphertexts from octet strings given in a script, prints the outcome and the re-export */
#include <ecc.h>
#include <ecdh_der.h>
#include <elgamal_der.h>
#include <b64file.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>

int __lsan_do_recoverable_leak_check(void);

static void hexout(FILE *o, const unsigned char *b, size_t n) {
    size_t i;
    for (i = 0; i < n; i++) fprintf(o, "%02x", b[i]);
    if (n == 0) fprintf(o, "-");
}

/* leaves a pattern where the frames of the importers will be: a pointer nobody set must not happen to be NULL */
__attribute__((noinline, no_sanitize("address"))) static void smear(void) {
    volatile char pad[65536];
    size_t i;
    for (i = 0; i < sizeof(pad); i++) pad[i] = (char)0xa5;
}

static void op_run(char *op, char *hex, char *label, FILE *out) {
        unsigned char *raw;
        size_t n, i;
        n = (hex && hex[0] != '-') ? strlen(hex) / 2 : 0;
        raw = malloc(n ? n : 1);     /* exactly as long as the data: the redzone starts behind it */
        for (i = 0; i < n; i++) { unsigned v; sscanf(hex + 2 * i, "%2x", &v); raw[i] = v; }
        if (!strcmp(op, "priv")) {
            mpz_t d; mpECurve_t cv;
            mpz_init(d);
            mpECurve_init(cv);
            if (_ecdh_der_import_privkey(d, cv, (char *)raw, n) == 0) {
                size_t sz; char *der = _ecdh_der_export_privkey(d, cv, &sz);
                fprintf(out, "0 "); hexout(out, (unsigned char *)der, sz); 
                free(der);
            } else fprintf(out, "1");
            mpECurve_clear(cv);
            mpz_clear(d);
        } else if (!strcmp(op, "pub")) {
            mpECP_t P; mpECurve_t cv;
            memset(P, 0xa5, sizeof(P)); memset(cv, 0xa5, sizeof(cv));
            if (_ecdh_der_init_import_pubkey(P, cv, (char *)raw, n) == 0) {
                size_t sz; char *der = _ecdh_der_export_pubkey(P, cv, &sz);
                fprintf(out, "0 "); hexout(out, (unsigned char *)der, sz); 
                free(der);
                mpECP_clear(P);
                mpECurve_clear(cv);
            } else fprintf(out, "1");
        } else if (!strcmp(op, "msg")) {
            unsigned char *p = (unsigned char *)1, *q = (unsigned char *)1, *c = (unsigned char *)1;
            int a, b, e;
            if (_ecdhe_der_init_import_message(&p, &a, &q, &b, &c, &e, (char *)raw, n) == 0) {
                fprintf(out, "0 "); hexout(out, p, a); fprintf(out, " "); hexout(out, q, b); fprintf(out, " "); hexout(out, c, e); 
                free(p); free(q); free(c);
            } else fprintf(out, "1");
        } else if (!strcmp(op, "eg")) {
            mpECElgamalCiphertext_t ct; mpECurve_t cv;
            memset(ct, 0xa5, sizeof(ct));
            mpECurve_init(cv);
            if (_ecelgamal_der_import_ciphertxt(ct, cv, (char *)raw, n) == 0) {
                size_t sz; char *der = _ecelgamal_der_export_ciphertxt(ct, &sz);
                fprintf(out, "0 "); hexout(out, (unsigned char *)der, sz); 
                free(der);
                mpECElgamal_clear(ct);
            } else fprintf(out, "1");
            mpECurve_clear(cv);
        } else if (!strcmp(op, "unwrap")) {
            /* a NUL-terminated text, as read_buffer_from_file hands it over */
            char *t = malloc(n + 1), *b; size_t sz = 0;
            memcpy(t, raw, n); t[n] = 0;
            b = read_b64wrapped_from_buffer(t, label, &sz);
            if (b) { fprintf(out, "0 "); hexout(out, (unsigned char *)b, sz);  free(b); } else fprintf(out, "1");
            free(t);
        } else if (!strcmp(op, "wrap")) {
            FILE *f = tmpfile(); long sz; size_t rl = 0; char *t; int r;
            r = write_b64wrapped_to_file(f, (char *)raw, (int)n, label);
            sz = ftell(f); rewind(f); (void)sz;
            t = read_buffer_from_file(f, &rl);
            fclose(f);
            fprintf(out, "%d ", r); if (t) hexout(out, (unsigned char *)t, rl); else fprintf(out, "-"); 
            free(t);
        } else { fprintf(stderr, "unknown op %s\n", op); _exit(97); }
        free(raw);
}

int main(int argc, char **argv) {
    FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
    char *line = NULL;
    size_t cap = 0;
    ssize_t got;
    char *al = getenv("OPDRV_ALARM");
    if (!in || !out) return 97;
    setvbuf(out, NULL, _IOLBF, 0);
    while ((got = getline(&line, &cap, in)) > 0) {
        char *op, *hex, *label = NULL;
        if (line[got - 1] == '\n') line[--got] = 0;
        if (line[0] == '@') { fprintf(out, "%s\n", line); continue; }
        if (!strcmp(line, "reset")) { fprintf(out, "ok\n"); continue; }
        op = strtok(line, " ");
        hex = strtok(NULL, " ");
        label = strtok(NULL, "");
        fflush(out);
        /* every operation in a process of its own, so that a fatal one does not hide the next */
        {
            int pipefd[2], st = 0; pid_t pid; static char err[60000]; size_t en = 0; ssize_t r; size_t k;
            FILE *res = tmpfile(); char rbuf[4096];
            if (pipe(pipefd) || !res) return 97;
            pid = fork();
            if (pid < 0) return 97;
            if (pid == 0) {
                close(pipefd[0]); dup2(pipefd[1], 2); close(pipefd[1]);
                alarm(al ? atoi(al) : 120);
                smear();
                op_run(op, hex, label, res);
                fflush(res);
                if (__lsan_do_recoverable_leak_check()) { }
                _exit(0);
            }
            close(pipefd[1]);
            while ((r = read(pipefd[0], rbuf, sizeof(rbuf))) > 0)
                for (k = 0; (ssize_t)k < r; k++) if (en < sizeof(err)) err[en++] = rbuf[k];
            close(pipefd[0]);
            waitpid(pid, &st, 0);
            rewind(res);
            while ((k = fread(rbuf, 1, sizeof(rbuf), res)) > 0) fwrite(rbuf, 1, k, out);
            fclose(res);
            if (st != 0 || en != 0) { fprintf(out, " !%d ", st); hexout(out, (unsigned char *)err, en); }
            fprintf(out, "\n");
        }
    }
    free(line);
    fprintf(out, "END\n");
    fclose(out);
    fclose(in);
    return 0;
}
