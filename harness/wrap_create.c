/* --wrap of what makes threads and locks: creation fails where the allocation plan says so. Needs wrap_malloc.c. */
#include "vp.h"
#include <semaphore.h>
bool vpm_refuse(void);
volatile bool vpc_mutex_fails = true; /* off for objects whose code has no use for a mutex that cannot be made */
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { if (vpm_refuse()) { vp_count("threads_refused", 1); return EAGAIN; } return __real_pthread_create(t, a, f, x); }
int __real_sem_init(sem_t*, int, unsigned);
int __wrap_sem_init(sem_t* s, int p, unsigned v) { if (vpm_refuse()) { vp_count("locks_refused", 1); errno = ENOSPC; return -1; } return __real_sem_init(s, p, v); }
int __real_pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*);
int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) { if (vpm_refuse()) { vp_count("locks_refused", 1); return ENOMEM; } return __real_pthread_rwlock_init(l, a); }
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __wrap_pthread_mutex_init(pthread_mutex_t* l, const pthread_mutexattr_t* a) { if (vpc_mutex_fails && vpm_refuse()) { vp_count("locks_refused", 1); return ENOMEM; } return __real_pthread_mutex_init(l, a); }
