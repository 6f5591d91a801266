/* The library is compiled with -Dmemcpy=vp_memcpy: copies may be split and delayed. */
#include "vp.h"
static unsigned inten; static uint64_t bs = 1, thr; static uint64_t hits;
static __thread vp_rng_t r; static __thread uint64_t rf;
void vpc_set(uint64_t seed, unsigned intensity) { __atomic_store_n(&bs, seed | 1, __ATOMIC_RELAXED); __atomic_store_n(&inten, intensity, __ATOMIC_RELAXED); __atomic_store_n(&thr, 0, __ATOMIC_RELAXED); }
void (*vpc_hook)(void);
uint64_t vpc_hits(void) { return __atomic_load_n(&hits, __ATOMIC_RELAXED); }
static void pt(void) {
    unsigned k = __atomic_load_n(&inten, __ATOMIC_RELAXED); if (!k) return;
    uint64_t s = __atomic_load_n(&bs, __ATOMIC_RELAXED);
    if (rf != s) { rf = s; vp_rng_init(&r, s, __atomic_add_fetch(&thr, 1, __ATOMIC_RELAXED)); }
    uint64_t v = vp_rng_next(&r) >> 16;
    if (v % 100 >= k) return;
    __atomic_add_fetch(&hits, 1, __ATOMIC_RELAXED);
    v >>= 8;
    if (v % 4 == 0) sched_yield();
    else if (v % 4 == 1) { struct timespec ts = {0, (long)((v >> 8) % 30000)}; nanosleep(&ts, 0); }
    else { volatile unsigned n = (unsigned)(v >> 8) % 3000; while (n) n = n - 1; }
}
void* vp_memcpy(void* d, const void* s, size_t n) {
    if (vpc_hook) vpc_hook();
    if (!__atomic_load_n(&inten, __ATOMIC_RELAXED)) return memcpy(d, s, n);
    pt();
    size_t h = n / 2;
    memcpy(d, s, h);
    if (n > 1) pt();
    memcpy((char*)d + h, (const char*)s + h, n - h);
    pt();
    return d;
}
