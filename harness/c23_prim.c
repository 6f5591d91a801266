/* C23: portable mutex, read-write lock, semaphore and threads, watched from inside the sections they guard. */
#include "vp.h"
#include "thread/portable_thread.h"
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <signal.h>
#include <alloca.h>
#pragma weak vps_set
#define NOISE_ON() do { if (vps_set) vps_set(vp_rand(), vp_chance(3, 4) ? (unsigned)vp_below(30) : 0); } while (0)
static void dawdle(vp_rng_t* r) { switch (vp_rng_below(r, 8)) { case 0: sched_yield(); break; case 1: { volatile int n = (int)vp_rng_below(r, 300); while (n) n = n - 1; break; } case 2: if (vp_rng_below(r, 20) == 0) { struct timespec t = { 0, (long)vp_rng_below(r, 50000) }; nanosleep(&t, 0); } break; default: break; } }
typedef struct { int id; uint64_t seed; int n; } thr_t;
#define SPAWN(nt, fn, per) portable_thread_t T[12]; thr_t A[12]; for (int i_ = 0; i_ < (nt); i_++) { A[i_] = (thr_t){ i_, vp_rand(), (per) }; VP_CHECK(portable_thread_create(&T[i_], NULL, fn, &A[i_]) == 0 && T[i_], "create", "no thread"); }
#define JOIN(nt) for (int i_ = 0; i_ < (nt); i_++) { void* r_ = NULL; VP_CHECK(portable_thread_join(T[i_], &r_) == 0, "join", "joining failed"); VP_CHECK(r_ == &A[i_], "join.result", "thread %d's result did not come through", i_); }
/* ---- mutex ---- */
#define NM 3
static portable_mutex_t mx[NM]; static struct { int in; uint64_t plain, pad[6], sum; } G[NM]; static uint64_t order_hash; static int contended;
static void* mutexer(void* a) { thr_t* t = a; vp_rng_t r; vp_rng_init(&r, t->seed, 1); for (int i = 0; i < t->n; i++) { int k = (int)vp_rng_below(&r, NM); if (__atomic_load_n(&G[k].in, __ATOMIC_RELAXED)) __atomic_add_fetch(&contended, 1, __ATOMIC_RELAXED); VP_CHECK(portable_mutex_lock(&mx[k]) == 0, "mutex.lock", "locking failed"); int in = __atomic_add_fetch(&G[k].in, 1, __ATOMIC_RELAXED); VP_CHECK(in == 1, "mutex.exclusion", "%d threads hold one mutex", in);
        uint64_t v = G[k].plain; dawdle(&r); G[k].plain = v + 1; G[k].sum = v + 1; if (k == 0) order_hash = vp_mix(order_hash, (uint64_t)t->id); in = __atomic_sub_fetch(&G[k].in, 1, __ATOMIC_RELAXED); VP_CHECK(in == 0, "mutex.exclusion", "another thread entered"); VP_CHECK(portable_mutex_unlock(&mx[k]) == 0, "mutex.unlock", "unlocking failed"); if (vp_rng_below(&r, 4) == 0) dawdle(&r); } return a; }
static void m_mutex(void) { int nt = (int)vp_between(2, 8); memset(G, 0, sizeof G); order_hash = 1; contended = 0; for (int i = 0; i < NM; i++) VP_CHECK(portable_mutex_init(&mx[i], NULL) == 0 && mx[i], "mutex.init", "no mutex"); NOISE_ON(); int per = (int)vp_between(100, 600); SPAWN(nt, mutexer, per) JOIN(nt) uint64_t tot = 0; for (int i = 0; i < NM; i++) { VP_CHECK(G[i].plain == G[i].sum, "mutex.data", "guarded data differ"); tot += G[i].plain; VP_CHECK(portable_mutex_destroy(&mx[i]) == 0 && !mx[i], "mutex.destroy", "destroying left the handle"); } VP_CHECK(tot == (uint64_t)nt * (uint64_t)per, "mutex.data", "%llu guarded increments, %d made", (unsigned long long)tot, nt * per);
    vp_count("mutex_sections", tot); vp_count("mutex_contended", (uint64_t)contended); vp_seen(order_hash); vp_case_mix(order_hash); if (contended) vp_nontrivial(); if (vp_want_sample()) vp_sample("%d threads, %llu sections, %d met the holder", nt, (unsigned long long)tot, contended); }
/* ---- read-write lock ---- */
static portable_rwlock_t rw; static struct { int readers, writers; uint64_t a, pad[8], b; int together, met; } R; static int nrd, at_once; static bool go_on;
static void* rwer(void* p) { thr_t* t = p; vp_rng_t r; vp_rng_init(&r, t->seed, 1); unsigned wr = (unsigned)vp_rng_below(&r, 6); for (int i = 0; i < t->n; i++) {
        if (vp_rng_below(&r, 10) < wr) { if (__atomic_load_n(&R.readers, __ATOMIC_RELAXED) + __atomic_load_n(&R.writers, __ATOMIC_RELAXED)) __atomic_add_fetch(&R.met, 1, __ATOMIC_RELAXED); VP_CHECK(portable_rwlock_wrlock(&rw) == 0, "rwlock.lock", "write locking failed"); int w = __atomic_add_fetch(&R.writers, 1, __ATOMIC_RELAXED), rd = __atomic_load_n(&R.readers, __ATOMIC_RELAXED); VP_CHECK(w == 1 && rd == 0, "rwlock.exclusion", "a writer is in with %d writers and %d readers", w - 1, rd); R.a++; dawdle(&r); R.b++; rd = __atomic_load_n(&R.readers, __ATOMIC_RELAXED); w = __atomic_sub_fetch(&R.writers, 1, __ATOMIC_RELAXED); VP_CHECK(w == 0 && rd == 0, "rwlock.exclusion", "%d others beside a writer", w + rd); }
        else { VP_CHECK(portable_rwlock_rdlock(&rw) == 0, "rwlock.lock", "read locking failed"); int rd = __atomic_add_fetch(&R.readers, 1, __ATOMIC_RELAXED), w = __atomic_load_n(&R.writers, __ATOMIC_RELAXED); VP_CHECK(w == 0, "rwlock.exclusion", "a reader is in with a writer"); if (rd > 1) __atomic_add_fetch(&R.together, 1, __ATOMIC_RELAXED); uint64_t a = R.a; dawdle(&r); VP_CHECK(R.b == a && R.a == a, "rwlock.data", "a reader saw a write in progress"); __atomic_sub_fetch(&R.readers, 1, __ATOMIC_RELAXED); }
        VP_CHECK(portable_rwlock_unlock(&rw) == 0, "rwlock.unlock", "unlocking failed"); } return p; }
static void* holder(void* p) { VP_CHECK(portable_rwlock_rdlock(&rw) == 0, "rwlock.lock", "read locking failed"); __atomic_add_fetch(&at_once, 1, __ATOMIC_SEQ_CST); while (!__atomic_load_n(&go_on, __ATOMIC_SEQ_CST)) { struct timespec t = { 0, 100000 }; nanosleep(&t, 0); } portable_rwlock_unlock(&rw); return p; }
static bool all_in(void* a) { return __atomic_load_n(&at_once, __ATOMIC_SEQ_CST) == *(int*)a; }
static bool w_in; static void* wanter(void* p) { portable_rwlock_wrlock(&rw); __atomic_store_n(&w_in, true, __ATOMIC_SEQ_CST); portable_rwlock_unlock(&rw); return p; }
static void m_rwlock(void) { memset(&R, 0, sizeof R); VP_CHECK(portable_rwlock_init(&rw, NULL) == 0 && rw, "rwlock.init", "no lock"); { /* many readers at once, no writer among them */ if (vps_set) vps_set(0, 0); at_once = 0; go_on = false; w_in = false; nrd = (int)vp_between(2, 6); SPAWN(nrd, holder, 0) vp_await(all_in, &nrd, "rwlock.readers", "all readers to hold the lock at once"); portable_thread_t w; int x = 0; portable_thread_create(&w, NULL, wanter, &x); struct timespec ts = { 0, 300000 }; nanosleep(&ts, 0); VP_CHECK(!__atomic_load_n(&w_in, __ATOMIC_SEQ_CST), "rwlock.exclusion", "a writer got in among %d readers", nrd); __atomic_store_n(&go_on, true, __ATOMIC_SEQ_CST); JOIN(nrd) portable_thread_join(w, NULL); VP_CHECK(w_in, "rwlock.writer", "the writer never got in"); vp_count("readers_at_once", (uint64_t)nrd); }
    int nt = (int)vp_between(2, 8), per = (int)vp_between(50, 400); NOISE_ON(); SPAWN(nt, rwer, per) JOIN(nt) VP_CHECK(R.a == R.b, "rwlock.data", "guarded data differ"); VP_CHECK(portable_rwlock_destroy(&rw) == 0 && !rw, "rwlock.destroy", "destroying left the handle"); vp_count("rwlock_writes", R.a); vp_count("rwlock_reads", (uint64_t)nt * (uint64_t)per - R.a); vp_count("reads_together", (uint64_t)R.together); vp_count("writer_met_others", (uint64_t)R.met); vp_seen(vp_mix(R.a, (uint64_t)R.together)); vp_case_mix(vp_mix(R.a, vp_rand())); if (R.together && R.met) vp_nontrivial(); if (vp_want_sample()) vp_sample("%d threads, %llu writes, %d reads together", nt, (unsigned long long)R.a, R.together); }
/* ---- semaphore ---- */
static portable_sem_t sm; static long posted, passed, initial, interrupted, want_total, blocked; static long tickets; static int val_bad;
static pthread_t wself[8]; static int wup; static void* waiter(void* p) { thr_t* t = p; wself[t->id] = pthread_self(); __atomic_add_fetch(&wup, 1, __ATOMIC_SEQ_CST); vp_rng_t r; vp_rng_init(&r, t->seed, 1); for (int i = 0; i < t->n;) { if (__atomic_load_n(&posted, __ATOMIC_RELAXED) + initial <= __atomic_load_n(&passed, __ATOMIC_RELAXED)) __atomic_add_fetch(&blocked, 1, __ATOMIC_RELAXED); int rc = portable_sem_wait(&sm); if (rc) { __atomic_add_fetch(&interrupted, 1, __ATOMIC_RELAXED); continue; } long pa = __atomic_add_fetch(&passed, 1, __ATOMIC_SEQ_CST), po = __atomic_load_n(&posted, __ATOMIC_SEQ_CST); VP_CHECK(pa <= po + initial, "sem.excess", "%ld passed a semaphore of %ld with %ld posts", pa, initial, po); i++; dawdle(&r); } return p; }
static void* poster(void* p) { thr_t* t = p; vp_rng_t r; vp_rng_init(&r, t->seed, 2); for (int i = 0; i < t->n; i++) { __atomic_add_fetch(&posted, 1, __ATOMIC_SEQ_CST); VP_CHECK(portable_sem_post(&sm) == 0, "sem.post", "posting failed"); dawdle(&r); if (vp_rng_below(&r, 16) == 0) { int v = -5; VP_CHECK(portable_sem_getvalue(&sm, &v) == 0, "sem.value", "no value"); long mx_ = initial + __atomic_load_n(&posted, __ATOMIC_SEQ_CST); VP_CHECK(v >= 0 && v <= mx_, "sem.value", "value %d, %ld at most", v, mx_); } } return p; }
static bool all_passed(void* a) { (void)a; return __atomic_load_n(&passed, __ATOMIC_SEQ_CST) == want_total; }
static void on_usr1(int s) { (void)s; }
static void m_sem(void) {
    static bool h; if (!h) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, NULL); h = true; }
    /* alone: the value through its whole range, waits that need not block, and the end of the range */
    { unsigned base = vp_chance(1, 2) ? (unsigned)vp_below(4) : vp_chance(1, 2) ? 0x7fffffffu - (unsigned)vp_below(3000) : (unsigned)vp_below(0x7fffffff); long x = base, top = 0x7fffffff; portable_sem_t q; int g = -1, ups = (int)vp_below(vp_chance(1, 4) ? 70000 : 3000);
      VP_CHECK(portable_sem_init(&q, 0, base) == 0 && q, "sem.init", "no semaphore of %u", base);
      for (int i = 0; i < ups; i++) { int r = portable_sem_post(&q); VP_CHECK((r == 0) == (x < top), "sem.value", "post at %ld returned %d", x, r); if (x < top) x++; if (i % 97 == 0 || i + 1 == ups) VP_CHECK(portable_sem_getvalue(&q, &g) == 0 && g == x, "sem.value", "value %d after %d posts to %u", g, i + 1, base); }
      int downs = (int)(x < 2000 ? x : 2000); for (int i = 0; i < downs; i++) { VP_CHECK(portable_sem_wait(&q) == 0, "sem.wait", "wait at %ld failed", x); x--; } VP_CHECK(portable_sem_getvalue(&q, &g) == 0 && g == x, "sem.value", "value %d, expected %ld", g, x);
      VP_CHECK(portable_sem_destroy(&q) == 0, "sem.destroy", "destroy"); VP_CHECK(portable_sem_init(&q, 0, 0x80000000u + (unsigned)vp_below(0x7fffffff)) != 0, "sem.init", "a semaphore beyond the range was made"); vp_count("sem_posts_alone", (uint64_t)ups); }
    int nw = (int)vp_between(1, 5), np = (int)vp_between(1, 4); initial = vp_chance(1, 2) ? 0 : (long)vp_below(20); posted = passed = interrupted = blocked = 0; wup = 0; long total = (long)vp_between(50, 500), extra = vp_chance(1, 2) ? (long)vp_below(30) : 0; if (total < initial) total = initial + 50; want_total = total;
    VP_CHECK(portable_sem_init(&sm, 0, (unsigned)initial) == 0 && sm, "sem.init", "no semaphore"); int v = -1; VP_CHECK(portable_sem_getvalue(&sm, &v) == 0 && v == initial, "sem.value", "value %d of a new semaphore of %ld", v, initial); NOISE_ON();
    portable_thread_t W[8], P[8]; thr_t wa[8], pa[8]; long left = total; for (int i = 0; i < nw; i++) { long k = i == nw - 1 ? left : total / nw; left -= k; wa[i] = (thr_t){ i, vp_rand(), (int)k }; portable_thread_create(&W[i], NULL, waiter, &wa[i]); }
    long posts = total - initial + extra, pl = posts; bool hold_back = posts > 3 && vp_chance(1, 3); if (hold_back) { pl -= 1 + extra; } long now = pl; for (int i = 0; i < np; i++) { long k = i == np - 1 ? pl : now / np; pl -= k; pa[i] = (thr_t){ i, vp_rand(), (int)k }; portable_thread_create(&P[i], NULL, poster, &pa[i]); }
    bool sig = vp_chance(1, 3); if (sig) for (int i = 0; i < 30; i++) { if (__atomic_load_n(&wup, __ATOMIC_SEQ_CST) < nw) sched_yield(); else pthread_kill(wself[i % nw], SIGUSR1); struct timespec t = { 0, 50000 }; nanosleep(&t, 0); }
    for (int i = 0; i < np; i++) { void* r = NULL; portable_thread_join(P[i], &r); VP_CHECK(r == &pa[i], "join.result", "result"); }
    if (hold_back) { /* one post is missing: exactly one pass is missing, and one post lets it through */ want_total = total - 1; vp_await(all_passed, NULL, "sem.lost", "everyone but one to pass"); struct timespec t = { 0, 300000 }; nanosleep(&t, 0); VP_CHECK(__atomic_load_n(&passed, __ATOMIC_SEQ_CST) == total - 1, "sem.excess", "somebody passed without a post"); want_total = total; thr_t one = { 0, vp_rand(), (int)(1 + extra) }; poster(&one); vp_count("sem_last_post", 1); }
    vp_await(all_passed, NULL, "sem.lost", "every waiter to pass"); for (int i = 0; i < nw; i++) { void* r = NULL; portable_thread_join(W[i], &r); VP_CHECK(r == &wa[i], "join.result", "result"); }
    VP_CHECK(portable_sem_getvalue(&sm, &v) == 0 && v == initial + posted - passed, "sem.value", "value %d at rest, expected %ld + %ld - %ld", v, initial, posted, passed); VP_CHECK(portable_sem_destroy(&sm) == 0 && !sm, "sem.destroy", "destroying left the handle");
    vp_count("sem_passes", (uint64_t)passed); vp_count("sem_blocked", (uint64_t)blocked); vp_count("sem_interrupted", (uint64_t)interrupted); vp_seen(vp_mix((uint64_t)initial * 64 + (uint64_t)nw * 8 + (uint64_t)np, (uint64_t)blocked)); vp_case_mix(vp_mix((uint64_t)total, vp_rand())); if (blocked) vp_nontrivial(); if (vp_want_sample()) vp_sample("semaphore of %ld, %ld posts, %ld passes by %d waiters, %ld found it empty", initial, posted, passed, nw, blocked); }
/* ---- threads ---- */
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define SMALL 3 /* the sanitizers need some stack themselves */
#else
#define SMALL 0
#endif
typedef struct { uint64_t v; void* ret; unsigned stack; char name[20], seen[32]; bool rename; unsigned long tid; int ran; bool ended; long depth; } th_t;
static void use_stack(size_t n) { volatile char* p = alloca(n); for (size_t i = 0; i < n; i += 1024) p[i] = 1; p[n - 1] = 1; }
static void* body(void* a) { th_t* t = a; __atomic_add_fetch(&t->ran, 1, __ATOMIC_SEQ_CST); t->tid = portable_thread_gettid(); VP_CHECK(t->tid == (unsigned long)syscall(SYS_gettid), "gettid", "thread number %lu, expected %ld", t->tid, syscall(SYS_gettid)); if (t->rename) { VP_CHECK(portable_thread_set_current_name("renamed") == 0, "name", "renaming failed"); prctl(PR_GET_NAME, t->seen); VP_CHECK(!strcmp(t->seen, "renamed"), "name", "renamed to \"%s\"", t->seen); }
    if (t->stack) { pthread_attr_t at; size_t sz = 0; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstacksize(&at, &sz); pthread_attr_destroy(&at); VP_CHECK(sz + 4096 >= t->stack, "stack", "a stack of %zu bytes for the requested %u", sz, t->stack); if (t->stack >= 16384) use_stack(t->stack > 200000 ? t->stack - 150000 : t->stack / 4); }
    struct timespec ts = { 0, (long)(t->v % 7) * 20000 }; nanosleep(&ts, 0); t->v = ~t->v; t->ended = true; return t->ret; }
static int thr_base; static bool thr_back(void* a) { (void)a; return vp_count_threads() <= thr_base; }
static void* named(void* a) { th_t* t = a; for (int i = 0; i < 20000; i++) { prctl(PR_GET_NAME, t->seen); if (!strcmp(t->seen, t->name)) break; struct timespec ts = { 0, 50000 }; nanosleep(&ts, 0); } t->ended = true; return a; }
static void m_threads(void) { thr_base = vp_count_threads(); int n = (int)vp_between(1, 10); th_t t[10]; portable_thread_t p[10]; uint64_t v[10], h = 1; for (int i = 0; i < n; i++) { memset(&t[i], 0, sizeof t[i]); v[i] = t[i].v = vp_rand(); t[i].ret = vp_chance(1, 4) ? NULL : (void*)(uintptr_t)vp_rand(); t[i].rename = vp_chance(1, 4); portable_thread_attr_t at; memset(&at, 0, sizeof at); if (vp_chance(1, 3)) { static const unsigned k[] = { 1, 16384, 70000, 262144, 1 << 20, 16u << 20, 33333333 }; at.stack_size = t[i].stack = k[SMALL + vp_below(7 - SMALL)]; vp_count("stacks", 1); if (t[i].stack > (8u << 20)) vp_count("large_stacks", 1); } p[i] = NULL;
        VP_CHECK(portable_thread_create(&p[i], t[i].stack || vp_chance(1, 2) ? &at : NULL, body, &t[i]) == 0 && p[i], "create", "no thread (stack %u)", t[i].stack); h = vp_mix(h, v[i]); }
    for (int i = 0; i < n; i++) { void* r = (void*)1; bool want = vp_chance(7, 8); VP_CHECK(portable_thread_join(p[i], want ? &r : NULL) == 0, "join", "joining failed"); VP_CHECK(t[i].ended && t[i].v == ~v[i], "join.early", "joining came back before the thread had ended"); if (want) VP_CHECK(r == t[i].ret, "join.result", "result %p, expected %p", r, t[i].ret); VP_CHECK(t[i].ran == 1, "create.once", "the routine ran %d times", t[i].ran); for (int j = 0; j < i; j++) (void)j; vp_count("threads", 1); }
    { th_t s; memset(&s, 0, sizeof s); portable_thread_attr_t at; memset(&at, 0, sizeof at); size_t l = vp_between(1, 31); for (size_t i = 0; i < l; i++) at.name[i] = (char)('a' + vp_below(26)); snprintf(s.name, sizeof s.name, "%.15s", at.name); portable_thread_t q; VP_CHECK(portable_thread_create(&q, &at, named, &s) == 0, "create", "no thread"); portable_thread_join(q, NULL); VP_CHECK(!strcmp(s.seen, s.name), "name", "a thread to be named \"%s\" is called \"%s\"", at.name, s.seen); vp_count("named", 1); if (l > 15) vp_count("long_thread_names", 1); }
    vp_await(thr_back, NULL, "threads", "all threads to be gone"); vp_nontrivial(); vp_case_mix(h); vp_seen(vp_mix((uint64_t)n, h)); if (vp_want_sample()) vp_sample("%d threads", n); }
static void m_invalid(void) { /* nothing there: refused, nothing touched */ portable_mutex_t m = NULL; portable_rwlock_t w = NULL; portable_sem_t s = NULL; int v = 77; portable_thread_t t = (void*)1;
#define NO(e) VP_CHECK((e) != 0, "invalid", #e " succeeded")
    NO(portable_mutex_init(NULL, NULL)); NO(portable_mutex_lock(NULL)); NO(portable_mutex_lock(&m)); NO(portable_mutex_unlock(NULL)); NO(portable_mutex_unlock(&m)); NO(portable_mutex_destroy(NULL)); NO(portable_mutex_destroy(&m)); NO(portable_rwlock_init(NULL, NULL)); NO(portable_rwlock_rdlock(NULL)); NO(portable_rwlock_rdlock(&w)); NO(portable_rwlock_wrlock(NULL)); NO(portable_rwlock_wrlock(&w)); NO(portable_rwlock_unlock(NULL)); NO(portable_rwlock_unlock(&w)); NO(portable_rwlock_destroy(NULL)); NO(portable_rwlock_destroy(&w));
    NO(portable_sem_init(NULL, 0, 0)); NO(portable_sem_wait(NULL)); NO(portable_sem_wait(&s)); NO(portable_sem_post(NULL)); NO(portable_sem_post(&s)); NO(portable_sem_getvalue(NULL, &v)); NO(portable_sem_getvalue(&s, &v)); VP_CHECK(v == 77, "invalid", "value written"); NO(portable_sem_destroy(NULL)); NO(portable_sem_destroy(&s)); NO(portable_thread_create(NULL, NULL, body, NULL)); NO(portable_thread_create(&t, NULL, NULL, NULL)); NO(portable_thread_join(NULL, NULL)); NO(portable_thread_set_current_name(NULL)); NO(portable_thread_set_current_name(""));
    for (int i = 0; i < 50; i++) { vpm_begin(); VP_CHECK(!portable_mutex_init(&m, NULL) && !portable_rwlock_init(&w, NULL) && !portable_sem_init(&s, 0, 3), "invalid", "init"); portable_mutex_destroy(&m); portable_rwlock_destroy(&w); portable_sem_destroy(&s); NO(portable_mutex_unlock(&m)); NO(portable_mutex_lock(&m)); NO(portable_rwlock_unlock(&w)); NO(portable_sem_post(&s)); NO(portable_mutex_destroy(&m)); NO(portable_rwlock_destroy(&w)); NO(portable_sem_destroy(&s)); VP_CHECK(vpm_live() == 0, "leak", "%ld blocks left", vpm_live()); vpm_end(); vp_count("refused_operations", 7); }
    VP_CHECK(portable_sem_init(&s, 0, 0x80000000u) != 0 && !s, "sem.init", "an impossible value was accepted"); vp_nontrivial(); vp_case_mix(3); }
/* ---- attributes given at creation ---- */
static portable_mutex_t am; static int am_in; typedef struct { int got; bool own; } am_t;
static void* am_try(void* p) { am_t* t = p; int rc = portable_mutex_lock(&am); VP_CHECK(rc == 0, "attr.mutex", "locking returned %d", rc); t->own = true; __atomic_add_fetch(&am_in, 1, __ATOMIC_SEQ_CST); VP_CHECK(portable_mutex_unlock(&am) == 0, "attr.mutex", "unlocking failed"); t->got = 1; return p; }
static void* am_steal(void* p) { am_t* t = p; t->got = portable_mutex_unlock(&am); return p; }
static portable_rwlock_t ar; static int ar_wtid, ar_order, ar_w, ar_r;
static void* ar_writer(void* p) { __atomic_store_n(&ar_wtid, (int)syscall(SYS_gettid), __ATOMIC_SEQ_CST); VP_CHECK(portable_rwlock_wrlock(&ar) == 0, "attr.rwlock", "write locking failed"); ar_w = __atomic_add_fetch(&ar_order, 1, __ATOMIC_SEQ_CST); portable_rwlock_unlock(&ar); return p; }
static void* ar_reader(void* p) { VP_CHECK(portable_rwlock_rdlock(&ar) == 0, "attr.rwlock", "read locking failed"); int k = __atomic_add_fetch(&ar_order, 1, __ATOMIC_SEQ_CST); __atomic_store_n(&ar_r, k, __ATOMIC_SEQ_CST); portable_rwlock_unlock(&ar); return p; }
static bool asleep(void* a) { int tid = __atomic_load_n((int*)a, __ATOMIC_SEQ_CST); if (!tid) return false; char n[64], b[256]; snprintf(n, sizeof n, "/proc/self/task/%d/syscall", tid); FILE* f = fopen(n, "r"); if (!f) return false; size_t l = fread(b, 1, sizeof b - 1, f); fclose(f); b[l] = 0; long nr; return sscanf(b, "%ld", &nr) == 1 && nr == SYS_futex; }
static volatile size_t pa_stack; static void* pa_body(void* p) { pthread_attr_t at; size_t sz = 0; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstacksize(&at, &sz); pthread_attr_destroy(&at); pa_stack = sz; return p; }
static void m_attrs(void) { uint64_t h = 1; thr_base = vp_count_threads();
    { pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_RECURSIVE); VP_CHECK(portable_mutex_init(&am, &ma) == 0, "attr.mutex", "no mutex"); pthread_mutexattr_destroy(&ma); int depth = (int)vp_between(2, 40); am_in = 0; for (int i = 0; i < depth; i++) { if (i == 1) pa_stack = 0; VP_CHECK(portable_mutex_lock(&am) == 0, "attr.mutex", "locking a recursive mutex again failed at depth %d", i); }
      am_t t = { 0, false }; portable_thread_t q; VP_CHECK(portable_thread_create(&q, NULL, am_try, &t) == 0, "create", "no thread"); for (int i = 0; i < depth; i++) { if (vp_chance(1, 3)) { struct timespec ts = { 0, 30000 }; nanosleep(&ts, 0); } VP_CHECK(__atomic_load_n(&am_in, __ATOMIC_SEQ_CST) == 0, "attr.mutex", "another thread got in while the mutex was held %d deep", depth - i); VP_CHECK(portable_mutex_unlock(&am) == 0, "attr.mutex", "unlocking failed at depth %d", depth - i); }
      portable_thread_join(q, NULL); VP_CHECK(am_in == 1 && t.got == 1, "attr.mutex", "the other thread never got in"); VP_CHECK(portable_mutex_destroy(&am) == 0, "attr.mutex", "destroy"); h = vp_mix(h, (uint64_t)depth); vp_count("nested_locks", (uint64_t)depth); }
    { pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK); VP_CHECK(portable_mutex_init(&am, &ma) == 0, "attr.mutex", "no mutex"); pthread_mutexattr_destroy(&ma); VP_CHECK(portable_mutex_unlock(&am) != 0, "attr.mutex", "unlocking a free error-checking mutex succeeded"); VP_CHECK(portable_mutex_lock(&am) == 0, "attr.mutex", "lock"); VP_CHECK(portable_mutex_lock(&am) != 0, "attr.mutex", "an error-checking mutex was taken twice");
      am_t t = { 0, false }; portable_thread_t q; VP_CHECK(portable_thread_create(&q, NULL, am_steal, &t) == 0, "create", "no thread"); portable_thread_join(q, NULL); VP_CHECK(t.got != 0, "attr.mutex", "a thread that holds nothing unlocked an error-checking mutex"); VP_CHECK(portable_mutex_unlock(&am) == 0, "attr.mutex", "unlocking failed"); VP_CHECK(portable_mutex_destroy(&am) == 0, "attr.mutex", "destroy"); vp_count("refused_locks", 3); }
#ifndef __SANITIZE_THREAD__
    { pthread_rwlockattr_t ra; pthread_rwlockattr_init(&ra); bool pw = vp_chance(2, 3); pthread_rwlockattr_setkind_np(&ra, pw ? PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP : PTHREAD_RWLOCK_PREFER_READER_NP); VP_CHECK(portable_rwlock_init(&ar, &ra) == 0, "attr.rwlock", "no lock"); pthread_rwlockattr_destroy(&ra); ar_wtid = ar_order = ar_w = ar_r = 0; VP_CHECK(portable_rwlock_rdlock(&ar) == 0, "attr.rwlock", "lock"); portable_thread_t w, r; VP_CHECK(portable_thread_create(&w, NULL, ar_writer, NULL) == 0, "create", "no thread");
      vp_await(asleep, &ar_wtid, "attr.rwlock", "the writer to wait"); VP_CHECK(portable_thread_create(&r, NULL, ar_reader, NULL) == 0, "create", "no thread"); struct timespec ts = { 0, 2000000 }; if (pw) nanosleep(&ts, 0); else for (int i = 0; i < 2000 && !__atomic_load_n(&ar_r, __ATOMIC_SEQ_CST); i++) nanosleep(&ts, 0); int got = __atomic_load_n(&ar_r, __ATOMIC_SEQ_CST); if (pw) VP_CHECK(!got, "attr.rwlock", "a reader passed the writer waiting at a lock that prefers writers"); else VP_CHECK(got, "attr.rwlock", "a reader waited behind the writer at a lock that prefers readers");
      portable_rwlock_unlock(&ar); portable_thread_join(w, NULL); portable_thread_join(r, NULL); VP_CHECK(ar_order == 2 && (pw ? ar_w == 1 : ar_w == 2), "attr.rwlock", "the writer came in as number %d", ar_w); VP_CHECK(portable_rwlock_destroy(&ar) == 0, "attr.rwlock", "destroy"); vp_count(pw ? "writers_preferred" : "readers_preferred", 1); h = vp_mix(h, pw); }
#endif
    { pthread_attr_t pt; pthread_attr_init(&pt); size_t want = ((size_t)vp_between(8, 600) << 16); pthread_attr_setstacksize(&pt, want); portable_thread_attr_t at; memset(&at, 0, sizeof at); at.platform_attr = &pt; if (vp_chance(1, 2)) at.stack_size = 262144; portable_thread_t q; pa_stack = 0; VP_CHECK(portable_thread_create(&q, &at, pa_body, &pt) == 0, "create", "no thread"); void* r = NULL; VP_CHECK(portable_thread_join(q, &r) == 0 && r == &pt, "join.result", "result"); VP_CHECK(pa_stack + 4096 >= want, "attr.thread", "a stack of %zu bytes where the platform attributes ask for %zu", pa_stack, want); size_t now = 0; VP_CHECK(pthread_attr_getstacksize(&pt, &now) == 0 && now == want, "attr.thread", "the caller's attributes were changed"); pthread_attr_destroy(&pt); vp_count("platform_attributes", 1); h = vp_mix(h, want); }
    vp_await(thr_back, NULL, "threads", "all threads to be gone"); vp_nontrivial(); vp_case_mix(h); vp_seen(h); if (vp_want_sample()) vp_sample("attributes"); }
const vp_mode_t vp_modes[] = { {"attrs", m_attrs}, {"mutex", m_mutex}, {"rwlock", m_rwlock}, {"sem", m_sem}, {"threads", m_threads}, {"invalid", m_invalid}, {0} };
