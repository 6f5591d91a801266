/* --wrap=malloc,calloc,realloc,free,strdup,strndup,asprintf,vasprintf,reallocarray: live-block accounting and failure injection.
 * Harness code that must not fail uses __real_*. The monitor's own tables use mmap'd statics. */
#include "vp.h"
#include <malloc.h>
#include <stdarg.h>
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
bool vpm_track;
volatile bool vpm_paused; /* allocations neither fail nor count */
#define CAP (1u << 18)
static struct { void* p; size_t n; } tab[CAP];
static size_t ntomb;
static long live, live_bytes;
static int lk;
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
#define TOMB ((void*)1)
static size_t slot(void* p) { return ((uintptr_t)p * 0x9E3779B97F4A7C15ull >> 20) & (CAP - 1); }
static void add(void* p, size_t n) {
    if (!p || !vpm_track) return;
    lock();
    size_t i = slot(p), k = 0;
    while (tab[i].p && tab[i].p != TOMB && k++ < CAP) i = (i + 1) & (CAP - 1);
    if (tab[i].p == TOMB) ntomb--;
    tab[i].p = p; tab[i].n = n; live++; live_bytes += (long)n;
    unlock();
}
static void del(void* p) {
    if (!p || !vpm_track) return;
    lock();
    size_t i = slot(p), k = 0;
    while (tab[i].p && k++ < CAP) {
        if (tab[i].p == p) { tab[i].p = TOMB; ntomb++; live--; live_bytes -= (long)tab[i].n;
            if (!tab[(i + 1) & (CAP - 1)].p) { size_t j = i; while (tab[j].p == TOMB) { tab[j].p = NULL; ntomb--; j = (j - 1) & (CAP - 1); } }
            break; }
        i = (i + 1) & (CAP - 1);
    }
    unlock();
}
void vpm_begin(void) { lock(); if (live || ntomb) memset(tab, 0, sizeof tab); live = live_bytes = 0; ntomb = 0; unlock(); vpm_track = true; }
void vpm_end(void) { vpm_track = false; }
long vpm_live(void) { lock(); long v = live; unlock(); return v; }
long vpm_live_bytes(void) { lock(); long v = live_bytes; unlock(); return v; }
void vpm_dump(char* out, size_t cap) { size_t o = 0; out[0] = 0; lock();
    for (size_t i = 0; i < CAP && o + 40 < cap; i++) if (tab[i].p && tab[i].p != TOMB) o += (size_t)snprintf(out + o, cap - o, "[%zu bytes] ", tab[i].n);
    unlock(); }
/* failure injection */
static long calls, fail_at, fail_from, failed; static unsigned permille; static vp_rng_t frng;
static __thread int suppress;
void vpm_fail_at(long n) { calls = 0; failed = 0; fail_at = n; fail_from = 0; permille = 0; }
void vpm_fail_from(long n) { calls = 0; failed = 0; fail_at = 0; fail_from = n; permille = 0; }
void vpm_fail_mask(uint64_t s, unsigned pm) { calls = 0; failed = 0; fail_at = fail_from = 0; vp_rng_init(&frng, s, 7); permille = pm; }
void vpm_fail_off(void) { fail_at = fail_from = 0; permille = 0; }
long vpm_calls(void) { return __atomic_load_n(&calls, __ATOMIC_RELAXED); }
long vpm_failed(void) { return __atomic_load_n(&failed, __ATOMIC_RELAXED); }
static bool should_fail(void) {
    if (vpm_paused) return false;
    long c = __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED);
    bool f = (fail_at && c == fail_at) || (fail_from && c >= fail_from);
    if (permille) { lock(); f = vp_rng_below(&frng, 1000) < permille; unlock(); }
    if (f) { __atomic_add_fetch(&failed, 1, __ATOMIC_RELAXED); errno = ENOMEM; }
    return f;
}
bool vpm_refuse(void) { return should_fail(); }
void* __wrap_malloc(size_t n) { if (should_fail()) return NULL; void* p = __real_malloc(n); add(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (should_fail()) return NULL; void* p = __real_calloc(a, b); add(p, a * b); return p; }
void* __wrap_realloc(void* o, size_t n) {
    if (should_fail()) return NULL;
    /* del before: once realloc returns another thread may own the old address */
    bool t = vpm_track && o; if (t) del(o);
    void* p = __real_realloc(o, n);
    if (p) add(p, n); else if (t && n) add(o, 0);
    return p;
}
void __wrap_free(void* p) { if (p) del(p); __real_free(p); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char* __wrap_strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __real_vasprintf(char**, const char*, va_list);
int __wrap_vasprintf(char** out, const char* f, va_list ap) { if (should_fail()) { *out = NULL; return -1; } int r = __real_vasprintf(out, f, ap); if (r >= 0) add(*out, (size_t)r + 1); return r; }
void* __wrap_reallocarray(void* o, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } return __wrap_realloc(o, a * b); }
int __wrap_asprintf(char** out, const char* f, ...) {
    if (should_fail()) { *out = NULL; return -1; }
    va_list ap; va_start(ap, f); int r = __real_vasprintf(out, f, ap); va_end(ap);
    if (r >= 0) add(*out, (size_t)r + 1);
    return r;
}
