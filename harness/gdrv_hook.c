/* Linked into the Go driver: at the entry of every C call made by the binding a marked thread waits until the collector
 * has completed two cycles together with the finalizers they queued. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#define NI __attribute__((no_instrument_function, noinline))
static unsigned long ticks, wanted, waits;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int on, depth;
NI void vf_hook_enable(int v) { on = v; }
NI unsigned long vf_hook_waits(void) { return waits; }
NI int vf_gc_wanted(void) { int r; pthread_mutex_lock(&mu); r = wanted != ticks; pthread_mutex_unlock(&mu); return r; }
NI void vf_gc_tick(void) { pthread_mutex_lock(&mu); ticks = wanted; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
NI void vf_alarm(int s) { alarm(s); }
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
NI size_t vf_heap(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
NI size_t vf_heap(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks; }
#endif
/* with GDRV_DELAY threads are held up at random entries, so that the C calls of one goroutine fall between those of another */
static int delays = -1; static unsigned long delayed; static __thread unsigned rs;
NI unsigned long vf_hook_delays(void) { return delayed; }
NI static void delay(void) {
    if (delays < 0) { char *e = getenv("GDRV_DELAY"); delays = e ? atoi(e) : 0; }
    if (!delays) return;
    if (!rs) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); rs = (unsigned)t.tv_nsec ^ (unsigned)(size_t)&rs; rs |= 1; }
    rs = rs * 1664525u + 1013904223u;
    if ((rs >> 16) % 100 >= (unsigned)delays) return;
    __atomic_add_fetch(&delayed, 1, __ATOMIC_RELAXED);
    if ((rs >> 26) & 3) sched_yield();
    else { struct timespec t = {0, 1000 + ((rs >> 8) & 0xffff)}; nanosleep(&t, NULL); }
}
NI void __cyg_profile_func_enter(void *f, void *c) {
    if (!depth && !on) delay();
    if (depth++ || !on) return;
    unsigned long t;
    pthread_mutex_lock(&mu); t = ++wanted; pthread_cond_broadcast(&cv);
    while (ticks < t) pthread_cond_wait(&cv, &mu);
    waits++; pthread_mutex_unlock(&mu);
}
NI void __cyg_profile_func_exit(void *f, void *c) { depth--; }
