/* --wrap of the synchronisation calls the library makes: inserts scheduling noise around them. */
#include "vp.h"
#include <semaphore.h>
static uint64_t base_seed; static unsigned inten; static uint64_t hits; static uint64_t thr_no;
static __thread vp_rng_t r; static __thread uint64_t r_for;
void vps_set(uint64_t seed, unsigned intensity) { __atomic_store_n(&base_seed, seed | 1, __ATOMIC_RELAXED); __atomic_store_n(&inten, intensity, __ATOMIC_RELAXED); __atomic_store_n(&thr_no, 0, __ATOMIC_RELAXED); }
uint64_t vps_hits(void) { return __atomic_load_n(&hits, __ATOMIC_RELAXED); }
void vps_point(void) {
    unsigned k = __atomic_load_n(&inten, __ATOMIC_RELAXED); if (!k) return;
    uint64_t bs = __atomic_load_n(&base_seed, __ATOMIC_RELAXED);
    if (r_for != bs) { r_for = bs; vp_rng_init(&r, bs, __atomic_add_fetch(&thr_no, 1, __ATOMIC_RELAXED)); }
    uint64_t v = vp_rng_next(&r) >> 16;
    if (v % 100 >= k) return;
    __atomic_add_fetch(&hits, 1, __ATOMIC_RELAXED);
    v >>= 8;
    switch (v % 8) {
    case 0: case 1: case 2: sched_yield(); break;
    case 3: case 4: { volatile unsigned n = (unsigned)(v >> 8) % 2000; while (n) n = n - 1; break; }
    case 5: case 6: { struct timespec ts = {0, (long)((v >> 8) % 60000)}; nanosleep(&ts, 0); break; }
    default: { struct timespec ts = {0, (long)((v >> 8) % 400000)}; nanosleep(&ts, 0); break; }
    }
}
#define W1(name, T) int __real_##name(T*); int __wrap_##name(T* x) { int e = errno; vps_point(); errno = e; int rc = __real_##name(x); e = errno; vps_point(); errno = e; return rc; }
W1(pthread_mutex_lock, pthread_mutex_t)
W1(pthread_mutex_trylock, pthread_mutex_t)
W1(pthread_mutex_unlock, pthread_mutex_t)
W1(pthread_cond_signal, pthread_cond_t)
W1(pthread_cond_broadcast, pthread_cond_t)
/* what POSIX allows at any time: a condition wait that ends without a signal, a semaphore wait interrupted by a handled signal */
static unsigned spur; void vps_spurious(unsigned percent) { __atomic_store_n(&spur, percent, __ATOMIC_RELAXED); }
static bool spurious(void) { static __thread uint64_t x; unsigned k = __atomic_load_n(&spur, __ATOMIC_RELAXED); if (!k) return false; if (!x) x = vp_mix(__atomic_load_n(&base_seed, __ATOMIC_RELAXED), (uintptr_t)&x); x = vp_mix(x, 7); if (x >> 20 & 1) return false; return (x >> 24) % 50 < k; }
static uint64_t spurs; uint64_t vps_spurs(void) { return __atomic_load_n(&spurs, __ATOMIC_RELAXED); }
int __real_sem_wait(sem_t*); int __wrap_sem_wait(sem_t* x) { int e = errno; vps_point(); if (spurious()) { __atomic_add_fetch(&spurs, 1, __ATOMIC_RELAXED); errno = EINTR; return -1; } errno = e; int rc = __real_sem_wait(x); e = errno; vps_point(); errno = e; return rc; }
W1(sem_post, sem_t)
W1(pthread_rwlock_rdlock, pthread_rwlock_t)
W1(pthread_rwlock_wrlock, pthread_rwlock_t)
W1(pthread_rwlock_unlock, pthread_rwlock_t)
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (spurious()) { __atomic_add_fetch(&spurs, 1, __ATOMIC_RELAXED); __real_pthread_mutex_unlock(m); vps_point(); sched_yield(); __real_pthread_mutex_lock(m); return 0; }
    int rc = __real_pthread_cond_wait(c, m); vps_point(); return rc; }
void* __real_memcpy(void*, const void*, size_t);
