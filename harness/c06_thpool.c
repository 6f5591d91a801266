/* C06: thread pool: exactly-once execution, exact waits, pause/resume, destroy. */
#include "vp.h"
#include <signal.h>
#include <fcntl.h>
#include "thread/thpool.h"
void vps_set(uint64_t seed, unsigned intensity) __attribute__((weak)); void vps_spurious(unsigned percent) __attribute__((weak)); uint64_t vps_spurs(void) __attribute__((weak));
#define SPURIOUS() do { static uint64_t was; if (vps_spurs) { vp_count("spurious_wakeups", vps_spurs() - was); was = vps_spurs(); vps_spurious(vp_chance(1, 2) ? 0 : (unsigned)vp_between(1, 40)); } } while (0)
void vps_point(void) __attribute__((weak));
void vpm_begin(void) __attribute__((weak)); void vpm_end(void) __attribute__((weak)); long vpm_live(void) __attribute__((weak));

#define MAXT 8192
typedef struct ctx ctx_t;
typedef struct { ctx_t* c; volatile int accepted, begun, done; int work; unsigned arg; int nested; pid_t tid; uint32_t magic; } task_t;
struct ctx {
    threadpool p; int n; volatile int ntasks; volatile int running, maxrun; volatile int begun, done; volatile bool destroyed;
    pid_t tids[64]; volatile int ntids; volatile int reuse; volatile int nested_ok; uint64_t seed; volatile int gate;
    volatile int order;
    task_t t[MAXT];
};
static ctx_t* A; static ctx_t* B;
#define LD(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
#define ST(x, v) __atomic_store_n(&(x), (v), __ATOMIC_SEQ_CST)
static pid_t main_tid;

static void note_tid(ctx_t* c) {
    pid_t me = gettid();
    int n = LD(c->ntids);
    for (int i = 0; i < n && i < 64; i++) if (c->tids[i] == me) return;
    int k = __atomic_fetch_add(&c->ntids, 1, __ATOMIC_SEQ_CST);
    if (k < 64) c->tids[k] = me;
}
static int submit(ctx_t* c, int work, int nested);
static void task(void* arg) {
    task_t* t = arg; ctx_t* c = t->c;
    VP_CHECK(t >= c->t && t < c->t + MAXT && t->magic == 0xabcd1234, "thpool.argument", "task ran with a foreign argument");
    VP_CHECK(!LD(c->destroyed), "thpool.after-destroy", "task %d began after destroy returned", (int)(t - c->t));
    int b = __atomic_add_fetch(&t->begun, 1, __ATOMIC_SEQ_CST);
    VP_CHECK(b == 1, "thpool.twice", "task %d executed %d times", (int)(t - c->t), b);
    int r = __atomic_add_fetch(&c->running, 1, __ATOMIC_SEQ_CST);
    VP_CHECK(r <= c->n, "thpool.parallel", "%d tasks at once in a pool of %d threads", r, c->n);
    if (r > c->maxrun) c->maxrun = r;
    t->tid = gettid(); note_tid(c);
    VP_CHECK(t->tid != main_tid, "thpool.thread", "task ran in the submitting thread");
    __atomic_add_fetch(&c->begun, 1, __ATOMIC_SEQ_CST);
    switch (t->work) {
    case 0: break;
    case 1: { volatile unsigned n = t->arg % 3000; while (n) n = n - 1; break; }
    case 2: sched_yield(); break;
    case 3: { struct timespec ts = {0, (long)(t->arg % 300000)}; nanosleep(&ts, 0); break; }
    case 4: { struct timespec ts = {0, (long)(t->arg % 8000000)}; nanosleep(&ts, 0); break; }
    case 5: { while (!LD(c->gate)) sched_yield(); break; }
    }
    if (t->nested && !LD(c->destroyed)) { int k = t->nested; while (k--) if (submit(c, (int)(t->arg % 3), 0) >= 0) __atomic_add_fetch(&c->nested_ok, 1, __ATOMIC_SEQ_CST); }
    __atomic_sub_fetch(&c->running, 1, __ATOMIC_SEQ_CST);
    VP_CHECK(!LD(c->destroyed), "thpool.destroy-early", "destroy returned while task %d was running", (int)(t - c->t));
    ST(t->done, 1);
    __atomic_add_fetch(&c->done, 1, __ATOMIC_SEQ_CST);
}
static int submit(ctx_t* c, int work, int nested) {
    int i = __atomic_fetch_add(&c->ntasks, 1, __ATOMIC_SEQ_CST);
    if (i >= MAXT) { ST(c->ntasks, MAXT); return -1; }
    task_t* t = &c->t[i]; t->c = c; t->work = work; t->nested = nested; t->arg = (unsigned)vp_mix(c->seed, (uint64_t)i); t->magic = 0xabcd1234;
    int rc = thpool_add_work(c->p, task, t);
    VP_CHECK(rc == 0, "thpool.add", "thpool_add_work answered %d", rc);
    ST(t->accepted, 1);
    return i;
}
static int ntasks(ctx_t* c) { int n = LD(c->ntasks); return n > MAXT ? MAXT : n; }
/* wait and check the guarantee for everything whose submission had completed before */
static void wait_and_check(ctx_t* c) {
    static __thread unsigned char snap[MAXT];
    int n = ntasks(c); for (int i = 0; i < n; i++) snap[i] = (unsigned char)LD(c->t[i].accepted);
    thpool_wait(c->p);
    for (int i = 0; i < n; i++) VP_CHECK(!snap[i] || LD(c->t[i].done), "thpool.wait-early", "thpool_wait returned while task %d submitted before was %s", i, LD(c->t[i].begun) ? "running" : "queued");
}
static void final_check(ctx_t* c) {
    int n = ntasks(c), acc = 0;
    for (int i = 0; i < n; i++) { acc += c->t[i].accepted; VP_CHECK(!c->t[i].accepted || (c->t[i].begun == 1 && c->t[i].done), "thpool.lost", "task %d accepted but executed %d times after the wait", i, c->t[i].begun); }
    VP_CHECK(LD(c->ntids) <= c->n, "thpool.threads", "tasks ran on %d threads, pool has %d", c->ntids, c->n);
    VP_CHECK(LD(c->running) == 0, "thpool.wait-early", "tasks still running");
    vp_count("tasks_executed", (uint64_t)acc);
}
static bool idle(void* a) { return thpool_num_threads_working(((ctx_t*)a)->p) == 0; }
static ctx_t* fresh(ctx_t** slot, int n) {
    if (!*slot) *slot = calloc(1, sizeof **slot); else { int k = (*slot)->ntasks; if (k > MAXT) k = MAXT; memset(*slot, 0, offsetof(ctx_t, t) + (size_t)k * sizeof(task_t)); }
    ctx_t* c = *slot; c->n = n; c->seed = vp_rand(); main_tid = gettid();
    return c;
}
typedef struct { ctx_t* c; uint64_t seed; int n; int mix; int nested; unsigned gap; int waits; volatile int finished; } arg_t;
static void pace(vp_rng_t* r, unsigned gap) {
    if (!gap) return;
    if (vp_rng_below(r, gap) == 0) { struct timespec ts = {0, (long)vp_rng_below(r, 200000)}; nanosleep(&ts, 0); } else if (vp_rng_below(r, 4) == 0) sched_yield();
}
static int pick(vp_rng_t* r, int mix) { unsigned v = (unsigned)vp_rng_below(r, 100);
    switch (mix) { case 0: return v < 80 ? 0 : 1; case 1: return v < 30 ? 0 : v < 60 ? 1 : v < 80 ? 2 : 3; default: return v < 40 ? 1 : v < 95 ? 3 : 4; } }
static void* submitter(void* a) {
    arg_t* g = a; vp_rng_t r; vp_rng_init(&r, g->seed, 11);
    for (int i = 0; i < g->n; i++) { submit(g->c, pick(&r, g->mix), g->nested && vp_rng_below(&r, 8) == 0 ? (int)vp_rng_below(&r, 4) : 0); pace(&r, g->gap); if (vps_point) vps_point(); }
    ST(g->finished, 1);
    return 0;
}
static void* waiter(void* a) {
    arg_t* g = a; vp_rng_t r; vp_rng_init(&r, g->seed, 12);
    for (int i = 0; i < g->waits; i++) { wait_and_check(g->c); vp_count("waits_returned", 1); pace(&r, 3); }
    ST(g->finished, 1);
    return 0;
}
static int threads_base; static bool threads_back(void* a) { (void)a; return vp_count_threads() <= threads_base; }

static void m_exec(void) {
    int n = vp_chance(1, 5) ? 1 : (int)vp_between(2, 8);
    threads_base = vp_count_threads();
    ctx_t* c = fresh(&A, n);
    if (vps_set) vps_set(vp_rand(), vp_chance(1, 4) ? 0 : (unsigned)vp_between(2, 40)); SPURIOUS();
    c->p = thpool_init(n);
    VP_CHECK(c->p, "thpool.init", "thpool_init(%d) failed", n);
    VP_CHECK(thpool_add_work(c->p, NULL, NULL) != 0, "thpool.add", "task without a function accepted");
    int rounds = (int)vp_between(1, 4), early = 0;
    uint64_t h = 0;
    for (int k = 0; k < rounds; k++) {
        int S = (int)vp_between(1, 4), W = (int)vp_below(4);
        arg_t sa[4] = {{0}}, wa[4] = {{0}}; pthread_t st[4], wt[4];
        int total = (int)vp_between(1, vp_chance(1, 4) ? 400 : 60);
        int mix = (int)vp_below(3), nested = vp_chance(1, 2); unsigned gap = vp_chance(1, 2) ? 0 : (unsigned)vp_between(1, 20);
        if (total > 100) mix = 0;
        vp_trace("round %d: threads %d submitters %d waiters %d tasks %d mix %d nested %d gap %u", k, n, S, W, total, mix, nested, gap);
        for (int i = 0; i < W; i++) { wa[i] = (arg_t){ .c = c, .seed = vp_rand(), .waits = (int)vp_between(1, 6) }; }
        for (int i = 0; i < S; i++) sa[i] = (arg_t){ .c = c, .seed = vp_rand(), .n = (total + S - 1) / S, .mix = mix, .nested = nested, .gap = gap };
        for (int i = 0; i < S; i++) pthread_create(&st[i], 0, submitter, &sa[i]);
        for (int i = 0; i < W; i++) pthread_create(&wt[i], 0, waiter, &wa[i]);
        for (int i = 0; i < S; i++) pthread_join(st[i], 0);
        if (vp_chance(1, 2)) { wait_and_check(c); early = 1; final_check(c); }
        for (int i = 0; i < W; i++) pthread_join(wt[i], 0);
        h = vp_mix(h, (uint64_t)ntasks(c)); vp_seen(vp_mix((uint64_t)c->maxrun * 64 + (uint64_t)c->ntids, (uint64_t)ntasks(c) / 16));
        vp_beat();
    }
    /* everybody waits for the last tasks: each waiter must be let go */
    ST(c->gate, 0); int g = submit(c, 5, 0);
    if (g >= 0) {
        int W = (int)vp_between(2, 4); arg_t wa[4] = {{0}}; pthread_t wt[4];
        for (int i = 0; i < W; i++) { wa[i] = (arg_t){ .c = c, .seed = vp_rand(), .waits = 1 }; pthread_create(&wt[i], 0, waiter, &wa[i]); }
        struct timespec ts = {0, (long)vp_below(2000000)}; nanosleep(&ts, 0);
        for (int i = 0; i < W; i++) VP_CHECK(!LD(wa[i].finished) || LD(c->t[g].done), "thpool.wait-early", "a waiter returned while a task submitted before was running");
        for (int i = (int)vp_below(10); i > 0; i--) submit(c, 0, 0);
        ST(c->gate, 1);
        for (int i = 0; i < W; i++) pthread_join(wt[i], 0); /* the watchdog reports a waiter left behind */
        vp_count("gated_waiters", (uint64_t)W);
    }
    wait_and_check(c); final_check(c);
    vp_await(idle, c, "thpool.working", "thpool_num_threads_working back to 0");
    thpool_destroy(c->p); ST(c->destroyed, true);
    if (c->maxrun == n && n > 1) vp_count("saturated", 1);
    if (c->nested_ok) vp_count("nested_tasks", (uint64_t)c->nested_ok);
    vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy");
    vp_case_mix(h); if (ntasks(c) > n) vp_nontrivial(); (void)early;
    vp_count("pools", 1);
    if (vp_want_sample()) vp_sample("threads %d, %d tasks over %d rounds, %d nested, most at once %d", n, ntasks(c), rounds, c->nested_ok, c->maxrun);
}

/* destroyed at a random moment, with tasks queued, running or none */
static void m_destroy(void) {
    int n = vp_chance(1, 12) ? 0 : (int)vp_between(1, 6);
    threads_base = vp_count_threads();
    ctx_t* c = fresh(&A, n);
    if (vps_set) vps_set(vp_rand(), vp_chance(1, 4) ? 0 : (unsigned)vp_between(2, 40)); SPURIOUS();
    if (vpm_begin) vpm_begin();
    c->p = thpool_init(n == 0 && vp_chance(1, 2) ? -3 : n);
    VP_CHECK(c->p, "thpool.init", "thpool_init(%d) failed", n);
    int total = (int)vp_below(vp_chance(1, 3) ? 5 : 60), mix = (int)vp_below(3);
    vp_trace("threads %d tasks %d mix %d", n, total, mix);
    for (int i = 0; i < total; i++) submit(c, pick(&vp_rng, mix), 0);
    if (vp_chance(2, 3)) { struct timespec ts = {0, (long)vp_below(vp_chance(1, 2) ? 200000 : 3000000)}; nanosleep(&ts, 0); }
    thpool_destroy(c->p);
    int run = LD(c->running), begun = LD(c->begun);
    ST(c->destroyed, true);
    VP_CHECK(run == 0, "thpool.destroy-early", "destroy returned while %d tasks were running", run);
    vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy");
    VP_CHECK(LD(c->begun) == begun, "thpool.after-destroy", "a task began after destroy");
    for (int i = 0; i < total; i++) VP_CHECK(c->t[i].begun <= 1 && c->t[i].begun == c->t[i].done, "thpool.destroy-early", "task %d begun %d done %d", i, c->t[i].begun, c->t[i].done);
    if (vpm_begin) { long live = vpm_live(); vpm_end(); VP_CHECK(live == 0, "thpool.leak", "%ld blocks left behind after destroy (%d tasks never ran)", live, total - begun); }
    if (begun < total) vp_count("destroyed_with_queued", 1);
    if (begun == total && total) vp_count("destroyed_after_all", 1);
    vp_seen(vp_mix((uint64_t)n, (uint64_t)(begun * 64 + total)));
    vp_case_mix(vp_mix((uint64_t)n * 100 + (uint64_t)total, (uint64_t)begun)); if (total > n) vp_nontrivial();
    vp_count("pools", 1);
    thpool_destroy(NULL);
}

/* a task that outlasts every patience: waiting and destroying keep waiting for it (with the library's seconds of sleep shortened, hundreds of polls) */
static void* opener(void* a) { int ms = *(int*)a; struct timespec ts = {ms / 1000, ms % 1000 * 1000000l}; nanosleep(&ts, 0); ST(A->gate, 1); return 0; }
static void m_patience(void) {
    int n = (int)vp_between(1, 4); threads_base = vp_count_threads(); ctx_t* c = fresh(&A, n); c->gate = 0; if (vps_set) vps_set(vp_rand(), 0);
    c->p = thpool_init(n); VP_CHECK(c->p, "thpool.init", "thpool_init(%d) failed", n); int total = (int)vp_between(1, 12), ms = (int)vp_between(1050, 1700), held = 0; bool wait = vp_chance(1, 2);
    for (int i = 0; i < total; i++) { int w = i == 0 || vp_chance(1, 6) ? 5 : 0; held += w == 5; submit(c, w, 0); }
    while (LD(c->begun) == 0) sched_yield();
    vp_trace("threads %d tasks %d, %d held for %d ms, %s", n, total, held, ms, wait ? "wait" : "destroy");
    pthread_t o; pthread_create(&o, 0, opener, &ms);
    if (wait) { thpool_wait(c->p); VP_CHECK(LD(c->done) == total, "thpool.wait-early", "wait returned with %d of %d tasks done", LD(c->done), total); }
    thpool_destroy(c->p); VP_CHECK(LD(c->gate), "thpool.destroy-early", "destroy returned before the running task had ended"); int run = LD(c->running); ST(c->destroyed, true);
    VP_CHECK(run == 0, "thpool.destroy-early", "destroy returned while %d tasks were running", run);
    pthread_join(o, 0); vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy");
    for (int i = 0; i < total; i++) VP_CHECK(c->t[i].begun <= 1 && c->t[i].begun == c->t[i].done, "thpool.destroy-early", "task %d begun %d done %d", i, c->t[i].begun, c->t[i].done);
    vp_count("outlasted", 1); vp_case_mix(vp_mix((uint64_t)n * 100 + (uint64_t)total, (uint64_t)ms)); vp_nontrivial();
}

/* pausing: tasks never hold a lock while they may be held */
#define SETTLE_NS 30000000
static void nap(long ns) { struct timespec ts = {ns / 1000000000, ns % 1000000000}; while (nanosleep(&ts, &ts) && errno == EINTR) {} }
static void frozen(ctx_t* c, const char* what, long ns) {
    int b0 = LD(c->begun); nap(ns); int b1 = LD(c->begun);
    VP_CHECK(b0 == b1, "thpool.pause", "%d tasks began while the pool was paused (%s)", b1 - b0, what);
    vp_count("paused_windows", 1);
}
static void spray(ctx_t* c, int n, bool pausable) { for (int i = 0; i < n; i++) submit(c, pausable ? (int)vp_below(3) : pick(&vp_rng, 1), 0); }
static void m_pause(void) {
    static bool quiet; if (!quiet && !vp_replaying) { quiet = true; }
    int n = (int)vp_between(1, 6), kind = (int)vp_below(5);
    threads_base = vp_count_threads();
    ctx_t* c = fresh(&A, n);
    if (vps_set) vps_set(vp_rand(), vp_chance(1, 3) ? 0 : (unsigned)vp_between(2, 30)); SPURIOUS();
    c->p = thpool_init(n); VP_CHECK(c->p, "thpool.init", "failed");
    vp_trace("threads %d kind %d", n, kind);
    ctx_t* d = NULL;
    switch (kind) {
    case 0: case 1: { /* tasks flowing, then paused; more arrive; resumed */
        spray(c, (int)vp_below(300), true);
        if (vp_chance(1, 3)) wait_and_check(c);
        int cycles = (int)vp_between(1, 3);
        for (int k = 0; k < cycles; k++) {
            thpool_pause(c->p);
            nap(SETTLE_NS); frozen(c, "tasks queued before", 5000000);
            spray(c, (int)vp_between(1, 40), true);
            frozen(c, "tasks added while paused", 30000000);
            vp_count("added_while_paused", 1);
            if (vp_chance(1, 3)) { thpool_pause(c->p); frozen(c, "paused twice", 10000000); }
            thpool_resume(c->p);
            if (vp_chance(1, 2)) wait_and_check(c);
            spray(c, (int)vp_below(20), true);
            vp_beat();
        }
        break; }
    case 2: { /* resume follows at once, again and again */
        int cycles = (int)vp_between(5, 60);
        for (int k = 0; k < cycles; k++) {
            spray(c, (int)vp_below(10), true);
            thpool_pause(c->p);
            if (vp_chance(1, 3)) { volatile unsigned q = (unsigned)vp_below(20000); while (q) q = q - 1; }
            thpool_resume(c->p);
            if (vp_chance(1, 8)) wait_and_check(c);
        }
        vp_count("prompt_resumes", (uint64_t)cycles);
        break; }
    case 3: { /* another pool's life does not touch a paused one, nor the reverse */
        spray(c, (int)vp_below(50), true);
        thpool_pause(c->p); nap(SETTLE_NS);
        spray(c, (int)vp_between(1, 20), true);
        frozen(c, "alone", 5000000);
        d = fresh(&B, (int)vp_between(1, 4)); d->p = thpool_init(d->n); VP_CHECK(d->p, "thpool.init", "failed");
        frozen(c, "another pool created", 20000000);
        spray(d, (int)vp_between(1, 50), true); wait_and_check(d);
        frozen(c, "another pool working", 5000000);
        thpool_pause(d->p); thpool_resume(d->p); spray(d, 5, true); wait_and_check(d); final_check(d);
        frozen(c, "another pool resumed", 20000000);
        thpool_destroy(d->p); ST(d->destroyed, true);
        frozen(c, "another pool destroyed", 20000000);
        thpool_resume(c->p);
        vp_count("other_pool", 1);
        break; }
    default: { /* destroyed while paused */
        spray(c, (int)vp_below(80), true);
        thpool_pause(c->p); if (vp_chance(1, 2)) nap(SETTLE_NS);
        spray(c, (int)vp_below(10), true);
        thpool_destroy(c->p); int b = LD(c->begun); VP_CHECK(LD(c->running) == 0, "thpool.destroy-early", "tasks running after destroy");
        ST(c->destroyed, true);
        vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy");
        VP_CHECK(LD(c->begun) == b, "thpool.after-destroy", "a task began after destroy");
        vp_count("destroyed_paused", 1);
        vp_case_mix(vp_mix((uint64_t)n, (uint64_t)b)); vp_nontrivial();
        return; }
    }
    wait_and_check(c); final_check(c);
    thpool_destroy(c->p); ST(c->destroyed, true);
    vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy");
    vp_case_mix(vp_mix((uint64_t)(n * 8 + kind), (uint64_t)ntasks(c))); vp_nontrivial();
    vp_seen(vp_mix((uint64_t)(n * 8 + kind), (uint64_t)ntasks(c)));
    vp_count("pause_cases", 1);
}
/* a queue of more than 2^16 tasks behind busy threads: each runs once, one thread takes them in order */
static uint8_t* sc_ran; static volatile int sc_begun, sc_gate, sc_held; static bool sc_one; static size_t sc_n;
static void sc_block(void* a) { (void)a; __atomic_add_fetch(&sc_held, 1, __ATOMIC_SEQ_CST); while (!LD(sc_gate)) { struct timespec ts = {0, 200000}; nanosleep(&ts, 0); } }
static void sc_task(void* a) { size_t i = (size_t)(uintptr_t)a - 1; VP_CHECK(i < sc_n, "thpool.argument", "task ran with a foreign argument"); VP_CHECK(__atomic_add_fetch(&sc_ran[i], 1, __ATOMIC_SEQ_CST) == 1, "thpool.twice", "task %zu executed twice", i); int o = __atomic_fetch_add(&sc_begun, 1, __ATOMIC_SEQ_CST); if (sc_one) VP_CHECK((size_t)o == i, "thpool.order", "task %zu began as number %d on the only thread", i, o); if (!(o & 0xfff)) vp_beat(); }
static void m_scale(void) {
    int n = vp_chance(1, 2) ? 1 : (int)vp_between(2, 6); sc_one = n == 1; sc_n = 66000 + vp_below(10000); sc_ran = calloc(sc_n, 1); sc_begun = sc_gate = sc_held = 0; threadpool p = thpool_init(n); VP_CHECK(p, "thpool.init", "failed"); if (vps_set) vps_set(vp_rand(), 0);
    for (int i = 0; i < n; i++) VP_CHECK(thpool_add_work(p, sc_block, NULL) == 0, "thpool.add", "refused");
    while (LD(sc_held) < n) { struct timespec ts = {0, 100000}; nanosleep(&ts, 0); }
    for (size_t i = 0; i < sc_n; i++) { VP_CHECK(thpool_add_work(p, sc_task, (void*)(uintptr_t)(i + 1)) == 0, "thpool.add", "refused"); if (!(i & 0xfff)) vp_beat(); }
    VP_CHECK(LD(sc_begun) == 0, "thpool.parallel", "more tasks than threads at once"); ST(sc_gate, 1); thpool_wait(p); VP_CHECK((size_t)LD(sc_begun) == sc_n, "thpool.wait", "wait returned after %d of %zu tasks", LD(sc_begun), sc_n); thpool_destroy(p); for (size_t i = 0; i < sc_n; i++) VP_CHECK(sc_ran[i] == 1, "thpool.lost", "task %zu ran %d times", i, sc_ran[i]); free(sc_ran); vp_count("long_queues", 1); vp_case_mix(sc_n); vp_nontrivial();
}
/* as many tasks as the pool has threads are in progress together, however many that is; each waits for all the others */
static void w_task(void* a) { int n = (int)(intptr_t)a; __atomic_add_fetch(&sc_held, 1, __ATOMIC_SEQ_CST); (void)n; while (!LD(sc_gate)) { struct timespec ts = {0, 200000}; nanosleep(&ts, 0); } __atomic_add_fetch(&sc_begun, 1, __ATOMIC_SEQ_CST); }
static bool w_met(void* a) { return LD(sc_held) >= (int)(intptr_t)a; }
static threadpool w_pool; static int w_waited; static void* w_waiter(void* a) { (void)a; thpool_wait(w_pool); ST(w_waited, 1); VP_CHECK(LD(sc_gate), "thpool.wait", "wait returned while %d tasks were in progress", LD(sc_held)); return NULL; }
static void m_wide(void) {
    int n = vp_case % 8 == 3 ? 256 : vp_chance(1, 2) ? (int)vp_between(9, 70) : (int)vp_between(64, 420); threads_base = vp_count_threads(); sc_held = sc_gate = sc_begun = 0; if (vps_set) vps_set(vp_rand(), 0); threadpool p = thpool_init(n); VP_CHECK(p, "thpool.init", "a pool of %d threads refused", n);
    for (int i = 0; i < n; i++) VP_CHECK(thpool_add_work(p, w_task, (void*)(intptr_t)n) == 0, "thpool.add", "refused");
    vp_await(w_met, (void*)(intptr_t)n, "thpool.parallel", "as many tasks as the pool has threads to be in progress together"); VP_CHECK(thpool_num_threads_working(p) == n, "thpool.working", "%d threads working, %d tasks in progress", thpool_num_threads_working(p), n);
    pthread_t wt; w_pool = p; w_waited = 0; pthread_create(&wt, 0, w_waiter, 0); struct timespec lull = {0, 3000000}; nanosleep(&lull, 0); ST(sc_gate, 1); thpool_wait(p); pthread_join(wt, 0); VP_CHECK(LD(sc_begun) == n, "thpool.wait", "wait returned after %d of %d tasks, %d threads working", LD(sc_begun), n, thpool_num_threads_working(p));
    thpool_destroy(p); vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy"); vp_count("wide_pools", 1); vp_count(n > 256 ? "pools_above_256" : n > 64 ? "pools_above_64" : "pools_above_8", 1); vp_case_mix((uint64_t)n); vp_seen((uint64_t)n); vp_nontrivial(); }
/* one pool for a long time: thousands of waits, hundreds of pauses */
static void o_task(void* a) { size_t i = (size_t)(uintptr_t)a - 1; VP_CHECK(i < sc_n, "thpool.argument", "task ran with a foreign argument"); VP_CHECK(__atomic_add_fetch(&sc_ran[i], 1, __ATOMIC_SEQ_CST) == 1, "thpool.twice", "task %zu executed twice", i); __atomic_fetch_add(&sc_begun, 1, __ATOMIC_SEQ_CST); }
static void m_often(void) { int n = (int)vp_between(1, 5), waits = 0, pauses = 0; threads_base = vp_count_threads(); sc_n = 90000; sc_ran = calloc(sc_n, 1); sc_begun = 0; if (vps_set) vps_set(vp_rand(), 0); threadpool p = thpool_init(n); VP_CHECK(p, "thpool.init", "failed"); size_t given = 0; bool pausing = vp_case % 2;
    while (given < sc_n && waits < 5000) { size_t k = vp_chance(1, 4) ? 0 : vp_below(vp_chance(1, 20) ? 200 : 20); bool hold = pausing && pauses < 1100 && vp_chance(1, 3); if (hold) { thpool_pause(p); pauses++; } for (size_t i = 0; i < k && given < sc_n; i++) { VP_CHECK(thpool_add_work(p, o_task, (void*)(uintptr_t)(given + 1)) == 0, "thpool.add", "refused"); given++; } if (hold) thpool_resume(p);
        thpool_wait(p); waits++; VP_CHECK((size_t)LD(sc_begun) == given, "thpool.wait", "wait %d (after %d pauses) returned when %d of %zu tasks had run", waits, pauses, LD(sc_begun), given); if (!(waits & 63)) vp_beat(); }
    thpool_destroy(p); for (size_t i = 0; i < sc_n; i++) VP_CHECK(sc_ran[i] == (i < given), "thpool.lost", "task %zu ran %d times", i, sc_ran[i]); free(sc_ran); vp_await(threads_back, 0, "thpool.threads-left", "pool threads gone after destroy"); vp_count("waits_of_one_pool", (uint64_t)waits); vp_count("pauses_of_one_pool", (uint64_t)pauses); vp_case_mix(vp_mix((uint64_t)n, given)); vp_seen(given); vp_nontrivial(); }
const vp_mode_t vp_modes[] = { {"often", m_often}, {"exec", m_exec}, {"destroy", m_destroy}, {"patience", m_patience}, {"pause", m_pause}, {"scale", m_scale}, {"wide", m_wide}, {0} };
