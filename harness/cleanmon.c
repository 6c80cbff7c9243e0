/* Release monitor: sees every block at the moment it goes back to the allocator.
 * Big-number blocks are known because the memory functions of GMP are interposed (mp_set_memory_functions is wrapped);
 * malloc/free/realloc themselves are replaced (linked into the executable, so GMP and libecc both get them). */
#define _GNU_SOURCE
#include <gmp.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "cleanmon.h"

void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t);

cleanmon_t cleanmon;
#define TAB (1 << 20)
typedef struct { void *p; size_t sz; int big; unsigned char *snap; size_t snapsz; } ent_t;
static ent_t tab[TAB]; static int in;
static int quiet_depth;
static ent_t *find(void *p) { unsigned h = (unsigned)(((unsigned long)p >> 4) * 2654435761u) & (TAB - 1); int i; for (i = 0; i < TAB; i++, h = (h + 1) & (TAB - 1)) { if (tab[h].p == p) return &tab[h]; if (!tab[h].p) return NULL; } return NULL; }
static void put(void *p, size_t sz) {
    unsigned h = (unsigned)(((unsigned long)p >> 4) * 2654435761u) & (TAB - 1), n = 0;
    if (!p) return;
    while (tab[h].p && tab[h].p != (void *)-1L) { h = (h + 1) & (TAB - 1); if (++n >= TAB) { static const char m[] = "cleanmon: table full\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); } }
    tab[h].p = p; tab[h].sz = sz; tab[h].big = 0; tab[h].snap = NULL; tab[h].snapsz = 0;
}
static void note(const char *kind, size_t sz, size_t at) {
    char b[200]; int k;
    cleanmon.violations++;
    if (cleanmon.violations > 20) return;
    k = snprintf(b, sizeof b, "CLEANMON %s block=%zu offset=%zu\n", kind, sz, at);
    if (write(2, b, k) != k) _exit(98);
}
static int uniform(const unsigned char *p, size_t n) { size_t i; for (i = 1; i < n; i++) if (p[i] != p[0]) return 0; return 1; }
/* 8-byte words that survive: same value as before the release was asked for, and not part of a constant fill */
static void judge(ent_t *e) {
    const unsigned char *p = e->p; size_t i, n = e->sz;
    cleanmon.freed++; cleanmon.bytes += n;
    if (!e->snap) { if (!uniform(p, n)) note("released-directly", n, 0); return; }
    if (uniform(p, n)) return;
    for (i = 0; i + 8 <= n; i += 8) {
        unsigned long w; memcpy(&w, p + i, 8);
        if (w == 0) continue;
        if (!memcmp(p + i, e->snap + i, 8)) { note("kept", n, i); return; }
    }
}
static void keep(const void *p, size_t n) {     /* what is in released memory that is not big-number storage */
    if (!cleanmon.keep || n == 0) return;
    if (n > sizeof cleanmon.kept - cleanmon.nkept - 8) { cleanmon.dropped++; return; }
    memcpy(cleanmon.kept + cleanmon.nkept, p, n); cleanmon.nkept += n;
    memset(cleanmon.kept + cleanmon.nkept, 0xA5, 8); cleanmon.nkept += 8;
}
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && !in) { memset(p, 0xC7, n); put(p, n); } return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && !in) put(p, a * b); return p; }
static void release(void *p) {
    ent_t *e = find(p);
    if (!e) return;
    if (e->big && cleanmon.enabled) judge(e); else keep(p, e->sz);
    if (e->snap) { __libc_free(e->snap); e->snap = NULL; }
    e->p = (void *)-1L;
    { unsigned h = e - tab; if (!tab[(h + 1) & (TAB - 1)].p) while (tab[h].p == (void *)-1L) { tab[h].p = NULL; h = (h - 1) & (TAB - 1); } }
}
void free(void *p) { if (!p) return; if (!in) release(p); __libc_free(p); }
void *realloc(void *p, size_t n) {      /* may always move, so always does */
    void *q; ent_t *e; size_t o; int big;
    if (!p) return malloc(n);
    if (in) return __libc_realloc(p, n);
    e = find(p);
    if (!e) { q = __libc_realloc(p, n); if (q) put(q, n); return q; }
    o = e->sz; big = e->big;
    q = malloc(n); if (!q) return NULL;
    memcpy(q, p, o < n ? o : n);
    if (big && cleanmon.enabled && !e->snap) { e->snap = __libc_malloc(o ? o : 1); memcpy(e->snap, p, o); }
    release(p); __libc_free(p);
    if (big) find(q)->big = 1;
    return q;
}

static void *(*u_alloc)(size_t); static void *(*u_realloc)(void *, size_t, size_t); static void (*u_free)(void *, size_t);
static void snap(void *p) { ent_t *e = find(p); if (e) { if (e->snap) __libc_free(e->snap); e->snap = __libc_malloc(e->sz ? e->sz : 1); memcpy(e->snap, p, e->sz); } }
static void *m_alloc(size_t n) { void *p = u_alloc ? u_alloc(n) : malloc(n); ent_t *e = find(p); if (e) e->big = 1; cleanmon.allocs++; return p; }
static void *m_realloc(void *o, size_t os, size_t ns) {
    void *r; ent_t *e; size_t m = os < ns ? os : ns; unsigned char *c = __libc_malloc(m ? m : 1);
    memcpy(c, o, m); snap(o);
    r = u_realloc ? u_realloc(o, os, ns) : realloc(o, ns);
    if (ns > os) cleanmon.grown++; else if (ns < os) cleanmon.shrunk++;
    if (r != o) cleanmon.moved++;
    if (memcmp(r, c, m)) note("value-lost", ns, 0);
    e = find(r);
    if (e) { e->big = 1; if (e->sz < ns) note("too-small", e->sz, ns); if (e->snap) { __libc_free(e->snap); e->snap = NULL; } }
    __libc_free(c);
    return r;
}
static void m_free(void *p, size_t n) { snap(p); if (u_free) u_free(p, n); else free(p); { ent_t *e = find(p); if (e && e->snap) { __libc_free(e->snap); e->snap = NULL; } } }
void __real___gmp_set_memory_functions(void *(*)(size_t), void *(*)(void *, size_t, size_t), void (*)(void *, size_t));
void __wrap___gmp_set_memory_functions(void *(*a)(size_t), void *(*r)(void *, size_t, size_t), void (*f)(void *, size_t)) {
    u_alloc = a == m_alloc ? u_alloc : a; u_realloc = r == m_realloc ? u_realloc : r; u_free = f == m_free ? u_free : f;
    cleanmon.enabled = 1;
    __real___gmp_set_memory_functions(m_alloc, m_realloc, m_free);
}
static void report(void) {
    const char *f = getenv("CLEANMON_OUT"); FILE *o;
    in = 1;
    if (f && (o = fopen(f, "w"))) { fprintf(o, "%lu %lu %lu %lu %lu %lu %lu %d\n", cleanmon.allocs, cleanmon.freed, cleanmon.bytes, cleanmon.grown, cleanmon.shrunk, cleanmon.moved, cleanmon.violations, cleanmon.enabled); fclose(o); }
    in = 0;
}
__attribute__((constructor)) static void start(void) { atexit(report); __real___gmp_set_memory_functions(m_alloc, m_realloc, m_free); }
/* entropy */
static void ent(const void *p, size_t n) { if (cleanmon.nrand + n <= sizeof cleanmon.rand) { memcpy(cleanmon.rand + cleanmon.nrand, p, n); cleanmon.nrand += n; } }
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { size_t r = __real_fread(p, s, n, f); ent(p, r * s); return r; }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n) { ssize_t r = __real_read(fd, p, n); if (r > 0) ent(p, r); return r; }
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *p, size_t n, unsigned fl) { ssize_t r = __real_getrandom(p, n, fl); if (r > 0) ent(p, r); return r; }
