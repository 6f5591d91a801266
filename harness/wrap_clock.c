/* --wrap=gettimeofday,time,clock_gettime,timespec_get: the clock the library sees is the workload's. */
#include "vp.h"
#include "wrap_clock.h"
int __real_gettimeofday(struct timeval*, void*); time_t __real_time(time_t*);
bool vck_on; void (*vck_next)(struct timeval*); __thread struct timeval vck_told; __thread uint64_t vck_asked;
int __wrap_gettimeofday(struct timeval* tv, void* z) { if (!vck_on) return __real_gettimeofday(tv, z); vck_next(tv); vck_told = *tv; vck_asked++; return 0; }
time_t __wrap_time(time_t* t) { if (!vck_on) return __real_time(t); struct timeval tv; vck_next(&tv); vck_told = tv; vck_asked++; if (t) *t = tv.tv_sec; return tv.tv_sec; }
int __real_clock_gettime(clockid_t, struct timespec*); int __real_timespec_get(struct timespec*, int);
static void spec(struct timespec* t) { struct timeval tv; vck_next(&tv); vck_told = tv; vck_asked++; t->tv_sec = tv.tv_sec; t->tv_nsec = tv.tv_usec * 1000; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!vck_on || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, t); spec(t); return 0; }
int __wrap_timespec_get(struct timespec* t, int b) { if (!vck_on) return __real_timespec_get(t, b); spec(t); return b; }
