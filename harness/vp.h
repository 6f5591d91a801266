/* Runtime-monitoring harness support. */
#ifndef VP_H
#define VP_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

typedef struct { const char* name; void (*fn)(void); } vp_mode_t;
extern const vp_mode_t vp_modes[]; /* ends with {0} */

extern uint64_t vp_case;     /* index of the running case */
extern uint64_t vp_seed;
extern bool vp_thorough;
extern bool vp_replaying;

/* ---- randomness: everything derives from (seed, mode, case) ---- */
typedef struct { uint64_t a, b; } vp_rng_t;
void vp_rng_init(vp_rng_t* r, uint64_t s1, uint64_t s2);
uint64_t vp_rng_next(vp_rng_t* r);
uint64_t vp_rng_below(vp_rng_t* r, uint64_t n); /* 0..n-1 */
extern vp_rng_t vp_rng;      /* main thread's */
static inline int vp_nonzero(uint64_t x) { static const int v[] = { 1, -1, 2, -7, 256, 65536, (int)(1u << 24), -2147483647 - 1, 2147483647, 3 }; return v[x % 10]; } /* what a callback may answer for "not 0" */
#define vp_rand() vp_rng_next(&vp_rng)
#define vp_below(n) vp_rng_below(&vp_rng, (n))
#define vp_between(lo, hi) ((lo) + vp_rng_below(&vp_rng, (uint64_t)((hi) - (lo)) + 1))
#define vp_chance(num, den) (vp_rng_below(&vp_rng, (den)) < (uint64_t)(num))
uint64_t vp_hash(const void* p, size_t n, uint64_t h);
uint64_t vp_mix(uint64_t h, uint64_t v);

/* ---- observation ---- */
void vp_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void vp_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define VP_CHECK(cond, key, ...) do { if (!(cond)) vp_fail(key, __VA_ARGS__); } while (0)
void vp_error(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); /* harness trouble */
void vp_count(const char* name, uint64_t n);
void vp_seen(uint64_t h);            /* distinct abstract state / interleaving / outcome */
void vp_case_mix(uint64_t h);        /* identity of the case (main thread) */
void vp_nontrivial(void);            /* the case counts as non-trivial by the rule */
void vp_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool vp_want_sample(void);
void vp_beat(void);                  /* progress inside a long case */

/* bounded waiting: true as soon as cond(arg) holds; fails with `key` when the
 * process has come to rest without it (or after a very generous time) */
void vp_await(bool (*cond)(void*), void* arg, const char* key, const char* what);

/* ---- guarded buffers: exact-size heap copies so ASan sees any overrun ---- */
const char* vp_scratch(void);        /* private scratch directory of this process */

/* run fn in a forked child with stdout/stderr to /dev/null; returns wait status */
int vp_fork(void (*fn)(void*), void* arg);
int vp_fork_log(void (*fn)(void*), void* arg, char* err, size_t errcap);
uint64_t vp_now_ns(void);
int vp_count_fds(void);
int vp_count_threads(void);

/* ---- malloc interposition (only when linked with wrap_malloc) ---- */
extern bool vpm_track;               /* record library allocations */
void vpm_begin(void);                /* start tracking, forget old */
long vpm_live(void);                 /* live blocks allocated since vpm_begin */
long vpm_live_bytes(void);
void vpm_dump(char* out, size_t cap);
void vpm_end(void);
void vpm_fail_at(long nth);          /* nth allocation from now fails (1 = next); 0 = off */
void vpm_fail_from(long nth);        /* every allocation from the nth fails */
void vpm_fail_mask(uint64_t rngseed, unsigned permille);
void vpm_fail_off(void);
long vpm_calls(void);                /* allocations attempted since last arming */
long vpm_failed(void);

/* ---- scheduling noise (only when linked with wrap_pthread) ---- */
void vps_set(uint64_t seed, unsigned intensity); /* 0 = off */
void vps_point(void);
uint64_t vps_hits(void);
#ifdef VP_TRACK /* see vp.c */
int vp_asprintf(char** p, const char* f, ...) __attribute__((format(printf, 2, 3)));
#include "mem/asprintf.h"
#define asprintf vp_asprintf
#endif
#endif
