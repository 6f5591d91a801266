/* --wrap of lock initialisation and destruction: which locks the library holds on to. */
#include "vp.h"
#include "wrap_locks.h"
#include <semaphore.h>
#include <pthread.h>
#define CAP 8192
static struct { const void* p; const char* kind; } tab[CAP]; static int n; static long made, gone; static int lk; static char bad[160];
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
static void up(const void* p, const char* kind) { lock(); made++; int i; for (i = 0; i < n; i++) if (tab[i].p == p) break;
    if (i < n) { if (!bad[0]) snprintf(bad, sizeof bad, "a %s is initialised where a %s still lives", kind, tab[i].kind); } else if (n < CAP) n++;
    if (i < CAP) { tab[i].p = p; tab[i].kind = kind; } unlock(); }
static void down(const void* p, const char* kind) { lock(); gone++; int i; for (i = 0; i < n; i++) if (tab[i].p == p) break;
    if (i == n) { if (!bad[0]) snprintf(bad, sizeof bad, "a %s is destroyed that was not initialised (or twice)", kind); } else tab[i] = tab[--n]; unlock(); }
static long owed, owed0; /* owed0: the threads of the harness itself */
void vpk_begin(void) { owed0 = __atomic_load_n(&owed, __ATOMIC_SEQ_CST); lock(); n = 0; made = gone = 0; bad[0] = 0; unlock(); }
long vpk_live(void) { lock(); long v = n; unlock(); return v; }
long vpk_made(void) { lock(); long v = made; unlock(); return v; }
const char* vpk_bad(void) { return bad[0] ? bad : NULL; }
void vpk_dump(char* o, size_t cap) { size_t k = 0; o[0] = 0; lock(); for (int i = 0; i < n && k + 40 < cap; i++) k += (size_t)snprintf(o + k, cap - k, "%s ", tab[i].kind); unlock(); }
#define W(T, init, destroy, kind, P, A) int __real_##init P; int __wrap_##init P { int r = __real_##init A; if (!r) up(x, kind); return r; } \
    int __real_##destroy(T*); int __wrap_##destroy(T* x) { int r = __real_##destroy(x); if (!r) down(x, kind); return r; }
W(pthread_mutex_t, pthread_mutex_init, pthread_mutex_destroy, "mutex", (pthread_mutex_t* x, const pthread_mutexattr_t* a), (x, a))
W(pthread_cond_t, pthread_cond_init, pthread_cond_destroy, "condition", (pthread_cond_t* x, const pthread_condattr_t* a), (x, a))
W(pthread_rwlock_t, pthread_rwlock_init, pthread_rwlock_destroy, "rwlock", (pthread_rwlock_t* x, const pthread_rwlockattr_t* a), (x, a))
W(sem_t, sem_init, sem_destroy, "semaphore", (sem_t* x, int s, unsigned v), (x, s, v))
/* threads that were neither joined nor detached keep their stack for ever, also when they have ended */

int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { int st = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &st); bool j = st == PTHREAD_CREATE_JOINABLE; if (j) __atomic_add_fetch(&owed, 1, __ATOMIC_SEQ_CST); int r = __real_pthread_create(t, a, f, x); if (r && j) __atomic_sub_fetch(&owed, 1, __ATOMIC_SEQ_CST); return r; }
int __real_pthread_join(pthread_t, void**); int __wrap_pthread_join(pthread_t t, void** v) { int r = __real_pthread_join(t, v); if (!r) __atomic_sub_fetch(&owed, 1, __ATOMIC_SEQ_CST); return r; }
int __real_pthread_detach(pthread_t); int __wrap_pthread_detach(pthread_t t) { int r = __real_pthread_detach(t); if (!r) __atomic_sub_fetch(&owed, 1, __ATOMIC_SEQ_CST); return r; }
long vpk_owed(void) { return __atomic_load_n(&owed, __ATOMIC_SEQ_CST) - owed0; }
