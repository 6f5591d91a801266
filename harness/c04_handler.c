/* C04: queue handlers: every accepted message dispatched once, in order, on one thread. */
#include "vp.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
/* callbacks keep using the handle while it is destroyed, so destroy gets a variable of its own to clear */
static void kill_f(fixed_msg_queue_handler h) { fixed_msg_queue_handler_destroy(&h); VP_CHECK(!h, "handler.destroy", "handle not cleared"); }
static void kill_v(msg_queue_handler h) { msg_queue_handler_destroy(&h); VP_CHECK(!h, "handler.destroy", "handle not cleared"); }
void vps_set(uint64_t seed, unsigned intensity) __attribute__((weak)); void vps_spurious(unsigned percent) __attribute__((weak)); uint64_t vps_spurs(void) __attribute__((weak));
#define SPURIOUS() do { static uint64_t was; if (vps_spurs) { vp_count("spurious_wakeups", vps_spurs() - was); was = vps_spurs(); vps_spurious(vp_chance(1, 2) ? 0 : (unsigned)vp_between(1, 40)); } } while (0)
void vps_point(void) __attribute__((weak));

static uint64_t salt;
static uint8_t mb(uint64_t k, uint32_t i) { uint64_t x = (k * 1000003 + i + salt) * 0x9E3779B97F4A7C15ull; return (uint8_t)(x >> 41); }
#define MAXM 6000
enum { END_DRAIN, END_DESTROY, END_STOP };
typedef struct {
    int fixed; msg_queue_handler v; fixed_msg_queue_handler x;
    pthread_mutex_t lock;           /* serialises pushers, as documented */
    uint64_t accepted;              /* under lock: ids 0..accepted-1 were accepted */
    uint64_t offered; bool nolock;  /* without clears the callback may run while a push is under way: then it goes by what was offered, and takes no lock */
    uint32_t len[MAXM];
    uint64_t clear_before;          /* ids below were cleared (under lock) */
    uint64_t clear_done;            /* id bound of the last clear that has returned */
    volatile uint64_t next;         /* handler thread: next id to dispatch */
    volatile uint64_t dispatched;
    uint64_t skipped, late_after_clear, late_bound;
    volatile int ready, stopped, destroyed, destroying; volatile bool in_cb; pthread_t tid; bool have_tid;
    uint64_t stop_at; volatile bool stop_returned; volatile bool want_stop;
    int cbstyle; unsigned self_push; vp_rng_t rcb;
    unsigned maxlen; uint64_t full; uint64_t cap; int nprod, style; unsigned per; uint64_t seed;
    bool use_clear, cb_clear; uint64_t clears, maxseen;
    void* user; uint64_t refused_after_stop;
    int hold; /* 1: the ready notification waits */ bool nocb; int gate; /* 1: the callback waits at the gate */
} ctx_t;
static ctx_t* C;

static void thread_check(const char* what) {
    if (!C->have_tid) { C->tid = pthread_self(); C->have_tid = true; }
    VP_CHECK(pthread_equal(C->tid, pthread_self()), "handler.thread", "%s ran on a second thread", what);
    VP_CHECK(!C->destroyed, "handler.after-destroy", "%s ran after destroy returned", what);
}
static int push_locked(vp_rng_t* r);
static void on_status(msg_q_handler_status_e st, void* ud) {
    VP_CHECK(ud == C->user, "handler.user-data", "status callback got wrong user data");
    thread_check("status callback");
    if (vps_point) vps_point();
    if (st == MSG_Q_HANDLER_STATUS_READY_TO_GO) {
        VP_CHECK(!C->ready && !C->stopped && !C->dispatched, "handler.ready-order", "ready notified %s", C->ready ? "twice" : "late");
        while (__atomic_load_n(&C->hold, __ATOMIC_ACQUIRE)) { struct timespec ts = {0, 30000}; nanosleep(&ts, 0); }
        C->ready++;
    } else {
        VP_CHECK(st == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP, "handler.status", "unknown status %d", st);
        VP_CHECK(C->ready == 1 && !C->stopped, "handler.stop-order", "about-to-stop notified %s", C->stopped ? "twice" : "before ready");
        if (C->stop_returned) { pthread_mutex_lock(&C->lock); int pr = push_locked(&C->rcb); pthread_mutex_unlock(&C->lock); VP_CHECK(pr != 1, "handler.push-accepted", "a push is accepted during the about-to-stop notification, after the callback asked to stop"); vp_count("pushes_while_stopping", 1); }
        __atomic_store_n(&C->stopped, C->stopped + 1, __ATOMIC_SEQ_CST);
    }
}
static int push_locked(vp_rng_t* r);
/* common part of both callbacks; returns the callback's result */
static int dispatch(uint64_t id, uint32_t len, const char* data, int what, int a1, int a2, void* ud) {
    VP_CHECK(ud == C->user, "handler.user-data", "message callback got wrong user data");
    thread_check("message callback");
    VP_CHECK(C->ready == 1, "handler.before-ready", "message dispatched before the ready notification");
    VP_CHECK(!C->stopped, "handler.after-stop", "message dispatched after about-to-stop");
    VP_CHECK(!C->stop_returned, "handler.after-stop", "message %llu dispatched after the callback asked to stop", (unsigned long long)id);
    VP_CHECK(!C->in_cb, "handler.reentrant", "callback re-entered");
    C->in_cb = true;
    if (!C->nolock) pthread_mutex_lock(&C->lock);
    uint64_t next = C->next, acc = C->nolock ? __atomic_load_n(&C->offered, __ATOMIC_SEQ_CST) : C->accepted, cb = C->clear_before, cd = C->clear_done;
    VP_CHECK(id < acc, "handler.phantom", "message %llu dispatched, only %llu accepted", (unsigned long long)id, (unsigned long long)acc);
    VP_CHECK(id >= next, "handler.duplicate", "message %llu dispatched after %llu", (unsigned long long)id, (unsigned long long)next - 1);
    if (id > next) {
        VP_CHECK(C->use_clear && id <= cb + 0, "handler.lost", "message %llu dispatched where %llu was due (cleared below %llu)", (unsigned long long)id, (unsigned long long)next, (unsigned long long)cb);
        C->skipped += id - next;
    }
    if (id < cd) { /* a clear returned before this callback began: only the one already on its way may come */
        if (C->late_bound != cd) { C->late_bound = cd; C->late_after_clear = 0; }
        VP_CHECK(++C->late_after_clear <= 1, "handler.cleared-dispatched", "message %llu dispatched although cleared (below %llu)", (unsigned long long)id, (unsigned long long)cd);
        vp_count("in_flight_at_clear", 1);
    }
    C->next = id + 1; C->dispatched++;
    VP_CHECK(len == C->len[id], "handler.length", "message %llu has length %u, pushed with %u", (unsigned long long)id, len, C->len[id]);
    if (!C->nolock) pthread_mutex_unlock(&C->lock);
    VP_CHECK((uint32_t)a1 == (uint32_t)(id * 7) && (uint32_t)a2 == (uint32_t)(id ^ 0x5555), "handler.fields", "message %llu fields differ", (unsigned long long)id);
    for (uint32_t i = 0; i < len; i++) VP_CHECK((uint8_t)data[i] == mb(id, i), "handler.content", "message %llu byte %u/%u differs", (unsigned long long)id, i, len);
    (void)what;
    switch (C->cbstyle) {
    case 0: break;
    case 1: if (vp_rng_below(&C->rcb, 4) == 0) sched_yield(); break;
    case 2: if (vp_rng_below(&C->rcb, 8) == 0) { struct timespec ts = {0, (long)vp_rng_below(&C->rcb, 200000)}; nanosleep(&ts, 0); } break;
    default: while (__atomic_load_n(&C->gate, __ATOMIC_ACQUIRE) == 1) { struct timespec ts = {0, 30000}; nanosleep(&ts, 0); } break;
    }
    if (C->self_push && vp_rng_below(&C->rcb, 10) == 0) { C->self_push--; pthread_mutex_lock(&C->lock); push_locked(&C->rcb); pthread_mutex_unlock(&C->lock); }
    if (C->cb_clear && vp_rng_below(&C->rcb, 50) == 0) {
        pthread_mutex_lock(&C->lock); fixed_msg_queue_handler_clear(C->x); C->clear_before = C->accepted; C->clears++; uint64_t b = C->accepted;
        /* on this thread nothing is in flight: strict from here */
        C->clear_done = b; C->late_bound = b; C->late_after_clear = 1; pthread_mutex_unlock(&C->lock);
    }
    vp_beat();
    C->in_cb = false;
    if (C->want_stop && id >= C->stop_at) { C->stop_returned = true; return vp_nonzero(vp_rng_below(&C->rcb, 10)); }
    return 0;
}
static int cb_var(queue_msg_t* m, void* ud) { return dispatch((uint32_t)m->what, (uint32_t)m->obj_len, m->obj, m->what, m->arg1, m->arg2, ud); }
static int cb_fix(fixed_msg_t* m, void* ud) { return dispatch((uint32_t)m->what, (uint32_t)m->obj.data_len, m->obj.data, m->what, m->arg1, m->arg2, ud); }

/* caller holds C->lock; returns 1 accepted, 0 full, -1 refused otherwise */
static int push_locked(vp_rng_t* r) {
    uint64_t id = C->accepted; if (id >= MAXM) return 0;
    uint32_t len; msg_q_code_e e; uint64_t room;
    if (C->fixed) {
        static fixed_msg_t m; /* under lock */
        len = vp_rng_below(r, 6) ? (uint32_t)vp_rng_below(r, 40) : (uint32_t)vp_rng_below(r, MSG_OBJ_MAX_CAPACITY + 1);
        m.what = (int)id; m.arg1 = (int)(id * 7); m.arg2 = (int)(id ^ 0x5555); m.obj.data_len = (int)len;
        for (uint32_t i = 0; i < len; i++) m.obj.data[i] = (char)mb(id, i);
        C->len[id] = len; __atomic_store_n(&C->offered, id + 1, __ATOMIC_SEQ_CST); room = fixed_msg_queue_handler_available_push_amount(C->x);
        e = fixed_msg_queue_handler_push(C->x, &m);
        VP_CHECK(e != MSG_Q_CODE_FULL || room == 0, "handler.push-refused", "push reported full with room for %llu", (unsigned long long)room);
        memset(&m, 0x33, sizeof m);
    } else {
        len = vp_rng_below(r, 5) ? (uint32_t)vp_rng_below(r, 30) : (uint32_t)vp_rng_below(r, C->maxlen + 1);
        queue_msg_t* m = malloc(sizeof *m + len);
        m->what = (int)id; m->arg1 = (int)(id * 7); m->arg2 = (int)(id ^ 0x5555); m->obj_len = (int)len;
        for (uint32_t i = 0; i < len; i++) m->obj[i] = (char)mb(id, i);
        C->len[id] = len; __atomic_store_n(&C->offered, id + 1, __ATOMIC_SEQ_CST); room = msg_queue_handler_available_push_bytes(C->v);
        e = msg_queue_handler_push(C->v, m);
        VP_CHECK(e != MSG_Q_CODE_FULL || room < sizeof *m + len + 16, "handler.push-refused", "push of %u reported full with %llu bytes free", len, (unsigned long long)room);
        free(m);
    }
    if (e == MSG_Q_CODE_SUCCESS) { C->accepted++; if (len > C->maxseen) C->maxseen = len; return 1; }
    if (e == MSG_Q_CODE_FULL) { C->full++; return 0; }
    VP_CHECK(C->stop_returned || __atomic_load_n(&C->destroying, __ATOMIC_SEQ_CST), "handler.push-status", "push on a running handler gives status %d", e);
    return -1;
}
static void* producer(void* arg) {
    intptr_t id = (intptr_t)arg; vp_rng_t r; vp_rng_init(&r, C->seed, (uint64_t)id + 10); unsigned full = 0;
    for (unsigned i = 0; i < C->per;) {
        pthread_mutex_lock(&C->lock); int rc = push_locked(&r);
        if (C->use_clear && vp_rng_below(&r, 60) == 0) {
            fixed_msg_queue_handler_clear(C->x); C->clear_before = C->accepted; C->clears++; C->clear_done = C->accepted;
        }
        bool dead = C->stop_returned, capd = C->accepted >= MAXM; pthread_mutex_unlock(&C->lock);
        if (rc < 0 || capd) break;
        if (dead && full > 3) break;
        if (rc == 1) { i++; full = 0; } else { struct timespec ts = {0, 50000}; full++; nanosleep(&ts, 0); if (C->style == 1 && full > 4) i++; }
        if (C->style == 2 && vp_rng_below(&r, 10) == 0) { struct timespec ts = {0, (long)vp_rng_below(&r, 100000)}; nanosleep(&ts, 0); }
    }
    return NULL;
}
static bool all_done(void* a) { (void)a; pthread_mutex_lock(&C->lock); bool ok = (C->next >= C->accepted || C->clear_before >= C->accepted) && !__atomic_load_n(&C->in_cb, __ATOMIC_SEQ_CST); pthread_mutex_unlock(&C->lock); return ok; } /* in_cb within the lock: a callback still under way may push another */
static bool is_stopped(void* a) { (void)a; return __atomic_load_n(&C->stopped, __ATOMIC_SEQ_CST) != 0; }
static bool drained(void* a) { (void)a; return C->fixed ? fixed_msg_queue_handler_is_empty(C->x) : msg_queue_handler_available_pop_bytes(C->v) == 0; }

static void run(int fixed, bool with_clear) {
    C = calloc(1, sizeof *C); salt = vp_rand(); C->fixed = fixed; C->seed = vp_rand(); C->user = malloc(1); C->use_clear = C->cb_clear = with_clear;
    pthread_mutex_init(&C->lock, 0); vp_rng_init(&C->rcb, vp_rand(), 3);
    C->cbstyle = (int)vp_below(3); C->style = (int)vp_below(3); C->nprod = 1 + (int)vp_below(3); C->per = 20 + (unsigned)vp_below(300); C->nolock = !with_clear && vp_chance(1, 2); C->self_push = !C->nolock && vp_chance(1, 3) ? 30 : 0;
    int end = (int)vp_below(3); C->want_stop = end == END_STOP; C->stop_at = C->want_stop ? vp_below(C->per) : UINT64_MAX;
    if (vps_set) vps_set(vp_rand(), vp_chance(2, 3) ? (unsigned)vp_below(25) : 0); SPURIOUS();
    uint32_t qs;
    if (fixed) {
        qs = 4 + (uint32_t)vp_below(vp_chance(1, 2) ? 8 : 60);
        fixed_msg_queue_handler_init_param_t p = {C->user, cb_fix, vp_chance(1, 8) ? NULL : on_status};
        if (!p.fn_on_status_changed) { C->ready = 1; C->nocb = true; }
        C->x = fixed_msg_queue_handler_create(qs, &p); memset(&p, 0x44, sizeof p);
        VP_CHECK(C->x, "handler.create", "creation refused"); C->cap = fixed_msg_queue_handler_available_push_amount(C->x);
    } else {
        qs = 80 + (uint32_t)vp_below(vp_chance(1, 2) ? 400 : vp_chance(1, 2) ? 40000 : 4000);
        msg_queue_handler_init_param_t p = {C->user, cb_var, vp_chance(1, 8) ? NULL : on_status};
        if (!p.fn_on_status_changed) { C->ready = 1; C->nocb = true; }
        C->v = msg_queue_handler_create(qs, &p); memset(&p, 0x44, sizeof p);
        VP_CHECK(C->v, "handler.create", "creation refused"); C->cap = msg_queue_handler_available_push_bytes(C->v);
        C->maxlen = (unsigned)C->cap > 24 ? (unsigned)C->cap - 24 : 1;
    }
    vp_trace("fixed=%d size=%u cap=%llu producers=%d x %u end=%d clear=%d cb=%d", fixed, qs, (unsigned long long)C->cap, C->nprod, C->per, end, with_clear, C->cbstyle);
    pthread_t t[4];
    for (int i = 0; i < C->nprod; i++) pthread_create(&t[i], 0, producer, (void*)(intptr_t)i);
    if (end == END_DESTROY && vp_chance(1, 3)) { struct timespec ts = {0, (long)vp_below(3000000)}; nanosleep(&ts, 0); }
    for (int i = 0; i < C->nprod; i++) pthread_join(t[i], 0);
    if (end == END_DRAIN) {
        vp_await(all_done, 0, "handler.lost", "all accepted messages dispatched");
        VP_CHECK(with_clear || (C->next == C->accepted && C->dispatched == C->accepted), "handler.lost", "%llu accepted, %llu dispatched", (unsigned long long)C->accepted, (unsigned long long)C->dispatched);
        vp_await(drained, 0, "handler.not-empty", "queue empty after everything was dispatched");
        if (fixed) VP_CHECK(fixed_msg_queue_handler_available_push_amount(C->x) == C->cap && !fixed_msg_queue_handler_is_full(C->x), "handler.room", "room not back after drain");
        else VP_CHECK(msg_queue_handler_available_push_bytes(C->v) == C->cap, "handler.room", "room not back after drain");
        vp_count("ended_drained", 1);
    } else if (end == END_STOP) {
        /* make sure the stopping message gets there */
        if (!C->stop_returned) { pthread_mutex_lock(&C->lock); C->stop_at = 0; vp_rng_t r9; vp_rng_init(&r9, C->seed, 99); (void)push_locked(&r9); pthread_mutex_unlock(&C->lock); }
        if (!C->nocb && !(with_clear)) vp_await(is_stopped, 0, "handler.no-stop", "about-to-stop after the callback asked to stop");
        if (C->stop_returned) {
            /* after the stop is notified (or, without a status callback, soon) pushes are refused */
            if (C->ready && C->stopped == 0) { struct timespec ts = {0, 2000000}; nanosleep(&ts, 0); }
            if (is_stopped(0)) {
                pthread_mutex_lock(&C->lock); vp_rng_t r; vp_rng_init(&r, C->seed, 77);
                VP_CHECK(push_locked(&r) != 1, "handler.push-after-stop", "push accepted after about-to-stop"); pthread_mutex_unlock(&C->lock);
                vp_count("ended_stopped", 1);
            }
        }
    }
    if (vps_point) vps_point();
    __atomic_store_n(&C->destroying, 1, __ATOMIC_SEQ_CST);
    if (fixed) kill_f(C->x); else kill_v(C->v);
    C->destroyed = 1;
    C->x = NULL; C->v = NULL;
    VP_CHECK(!C->in_cb, "handler.after-destroy", "callback still running after destroy");
    VP_CHECK(C->ready == 1 && C->stopped == (C->nocb ? 0 : 1), "handler.status", "%d ready and %d about-to-stop notifications over one life", C->ready, C->stopped);
    if (end == END_DESTROY) vp_count("ended_destroyed", 1);
    if (C->accepted > C->next) vp_count("undispatched_at_destroy", C->accepted - C->next);
    vp_count("accepted", C->accepted); vp_count("dispatched", C->dispatched); vp_count("full", C->full); vp_count("clears", C->clears); vp_count("cleared_messages", C->skipped);
    if (!fixed && C->maxseen > 4096) vp_count("cases_with_large_message", 1);
    vp_case_mix(C->accepted); vp_case_mix(C->full); vp_case_mix(C->dispatched); vp_case_mix((uint64_t)end * 2 + (uint64_t)fixed);
    vp_seen(vp_mix(vp_mix(C->full, C->skipped), C->accepted - C->next));
    if (C->full && C->dispatched > 10) vp_nontrivial();
    if (vp_want_sample()) vp_sample("%s handler, capacity %llu, %d producers: %llu accepted, %llu refused full, %llu dispatched, %llu cleared, end=%s", fixed ? "fixed" : "variable", (unsigned long long)C->cap, C->nprod,
        (unsigned long long)C->accepted, (unsigned long long)C->full, (unsigned long long)C->dispatched, (unsigned long long)C->skipped, end == 0 ? "drain" : end == 1 ? "destroy" : "stop");
    free(C->user); pthread_mutex_destroy(&C->lock); free(C);
}
static void mode_var(void) { run(0, false); }
static void mode_fixed(void) { run(1, vp_case & 1); }

/* clear while the callback is held at a gate: exactly the queued ones vanish */
static bool cb_entered(void* a) { (void)a; pthread_mutex_lock(&C->lock); bool in = C->dispatched > 0; pthread_mutex_unlock(&C->lock); return in; } /* past its accounting, not only called */
static void mode_clear_gate(void) {
    C = calloc(1, sizeof *C); salt = vp_rand(); C->fixed = 1; C->user = malloc(1); C->use_clear = true; C->cbstyle = 3; C->gate = 1; bool at_ready = vp_chance(1, 3); C->hold = at_ready; uint64_t first = !at_ready;
    pthread_mutex_init(&C->lock, 0); vp_rng_init(&C->rcb, vp_rand(), 3); C->seed = vp_rand();
    fixed_msg_queue_handler_init_param_t p = {C->user, cb_fix, on_status};
    C->x = fixed_msg_queue_handler_create(16 + (uint32_t)vp_below(30), &p); VP_CHECK(C->x, "handler.create", "creation refused");
    C->cap = fixed_msg_queue_handler_available_push_amount(C->x);
    vp_rng_t r; vp_rng_init(&r, C->seed, 5);
    C->use_clear = true;
    if (!at_ready) { pthread_mutex_lock(&C->lock); push_locked(&r); pthread_mutex_unlock(&C->lock); vp_await(cb_entered, 0, "handler.lost", "first message dispatched"); }
    unsigned before = (unsigned)vp_below(C->cap), after = (unsigned)vp_below(C->cap - before);
    pthread_mutex_lock(&C->lock);
    uint64_t held = fixed_msg_queue_handler_available_pop_amount(C->x); VP_CHECK(held <= 1, "handler.amount", "%llu messages reported while the only one is being handled", (unsigned long long)held);
    for (unsigned i = 0; i < before; i++) {
        uint64_t want = held + (C->accepted - first), got;
        VP_CHECK((got = fixed_msg_queue_handler_available_pop_amount(C->x)) == want && fixed_msg_queue_handler_available_push_amount(C->x) == C->cap - want, "handler.amount", "%llu waiting messages reported, %llu were accepted behind the gate", (unsigned long long)got, (unsigned long long)want);
        push_locked(&r);
    }
    uint64_t bound = C->accepted;
    fixed_msg_queue_handler_clear(C->x); C->clear_before = C->clear_done = bound; C->late_bound = bound; C->late_after_clear = 1; /* nothing in flight but the gated one */
    for (unsigned i = 0; i < after; i++) push_locked(&r);
    uint64_t total = C->accepted; pthread_mutex_unlock(&C->lock);
    __atomic_store_n(&C->gate, 0, __ATOMIC_RELEASE); C->cbstyle = 0; __atomic_store_n(&C->hold, 0, __ATOMIC_RELEASE); if (at_ready) vp_count("cleared_before_ready", 1);
    vp_await(drained, 0, "handler.not-empty", "queue empty after the gate opened");
    if (total > bound) { vp_await(all_done, 0, "handler.lost", "messages pushed after clear dispatched"); }
    kill_f(C->x); C->destroyed = 1;
    VP_CHECK(C->stopped == 1 && C->ready == 1, "handler.status", "ready %d, about-to-stop %d notifications", C->ready, C->stopped);
    vp_count("gated_clears", 1); vp_case_mix(before * 1000 + after); if (before && after) vp_nontrivial();
    free(C->user); pthread_mutex_destroy(&C->lock); free(C);
}
/* statuses and lifecycle with no, one or many messages, immediate destroy */
static void mode_life(void) {
    C = calloc(1, sizeof *C); salt = vp_rand(); C->fixed = (int)(vp_case & 1); C->user = malloc(1); C->cbstyle = (int)vp_below(3);
    pthread_mutex_init(&C->lock, 0); vp_rng_init(&C->rcb, vp_rand(), 3);
    if (vps_set) vps_set(vp_rand(), (unsigned)vp_below(40)); SPURIOUS();
    C->maxlen = 20; vp_rng_t r; vp_rng_init(&r, vp_rand(), 5);
    if (C->fixed) { fixed_msg_queue_handler_init_param_t p = {C->user, cb_fix, on_status}; C->x = fixed_msg_queue_handler_create(8, &p); }
    else { msg_queue_handler_init_param_t p = {C->user, cb_var, on_status}; C->v = msg_queue_handler_create(1000, &p); }
    VP_CHECK(C->x || C->v, "handler.create", "creation refused");
    unsigned n = (unsigned)vp_below(4); pthread_mutex_lock(&C->lock); for (unsigned i = 0; i < n; i++) push_locked(&r); pthread_mutex_unlock(&C->lock);
    int how = (int)vp_below(3);
    if (how == 0) vp_await(all_done, 0, "handler.lost", "messages dispatched"); else if (how == 1) { struct timespec ts = {0, (long)vp_below(200000)}; nanosleep(&ts, 0); }
    if (C->fixed) kill_f(C->x); else kill_v(C->v);
    C->destroyed = 1;
    VP_CHECK(C->ready == 1 && C->stopped == 1, "handler.status", "%d ready and %d about-to-stop notifications over one life", C->ready, C->stopped);
    vp_count("lives", 1); vp_case_mix(n * 8 + (unsigned)how * 2 + (unsigned)C->fixed); vp_case_mix(C->dispatched); vp_nontrivial();
    free(C->user); pthread_mutex_destroy(&C->lock); free(C);
}
static int cb_none(queue_msg_t* m, void* u) { (void)m; (void)u; return 0; }
static int cb_nonex(fixed_msg_t* m, void* u) { (void)m; (void)u; return 0; }
static void mode_refuse(void) {
    msg_queue_handler_init_param_t p = {0}; fixed_msg_queue_handler_init_param_t q = {0};
    VP_CHECK(!msg_queue_handler_create(1000, NULL) && !msg_queue_handler_create(1000, &p) && !fixed_msg_queue_handler_create(10, NULL) && !fixed_msg_queue_handler_create(10, &q), "handler.create", "invalid parameters accepted");
    p.fn_handle_msg = cb_none; q.fn_handle_msg = cb_nonex;
    VP_CHECK(!msg_queue_handler_create(0, &p) && !msg_queue_handler_create(3, &p) && !fixed_msg_queue_handler_create(0, &q) && !fixed_msg_queue_handler_create(1, &q), "handler.create", "useless size accepted");
    queue_msg_t m = {0}; fixed_msg_t x; memset(&x, 0, sizeof x);
    VP_CHECK(msg_queue_handler_push(NULL, &m) != MSG_Q_CODE_SUCCESS && fixed_msg_queue_handler_push(NULL, &x) != MSG_Q_CODE_SUCCESS, "handler.null", "push to no handler succeeds");
    msg_queue_handler_destroy(NULL); fixed_msg_queue_handler_destroy(NULL);
    msg_queue_handler n1 = NULL; fixed_msg_queue_handler n2 = NULL; msg_queue_handler_destroy(&n1); fixed_msg_queue_handler_destroy(&n2);
    vp_count("refusals", 1); vp_case_mix(vp_case + 1);
}
/* messages of every magnitude the queue has room for, each checked whole */
static uint64_t big_got; static uint32_t big_len; static char* big_src; static int big_bad;
static int cb_big(queue_msg_t* m, void* u) { (void)u; if ((uint32_t)m->obj_len != big_len || memcmp(m->obj, big_src, big_len)) big_bad = 1; __atomic_add_fetch(&big_got, 1, __ATOMIC_SEQ_CST); return 0; }
static bool big_here(void* a) { return __atomic_load_n(&big_got, __ATOMIC_SEQ_CST) >= *(uint64_t*)a; }
static void big_run(uint32_t qs, uint32_t maxlen, int n) {
    int kmax = 32 - __builtin_clz(maxlen | 1), asc = (int)vp_below(4); msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p); p.fn_handle_msg = cb_big; big_got = 0; big_bad = 0; msg_queue_handler h = msg_queue_handler_create(qs, &p); VP_CHECK(h, "handler.create", "creation of %u bytes refused", qs);
    queue_msg_t* m = malloc(sizeof *m + maxlen); VP_CHECK(m, "harness", "memory"); uint64_t sent = 0; uint32_t room = (uint32_t)msg_queue_handler_available_push_bytes(h) - 4 - (uint32_t)sizeof *m; if (room < maxlen) maxlen = room;
    for (int i = 0; i < n; i++) { uint32_t k = (uint32_t)vp_below((uint64_t)kmax + 1), len = vp_chance(1, 2) ? (uint32_t)((uint64_t)1 << k) + (uint32_t)vp_below(3) - 1 - (vp_chance(1, 2) ? (uint32_t)sizeof *m : 0) : (uint32_t)vp_below(maxlen + 1ull); if (asc && n > 1 && 12 + i <= kmax) len = (1u << (12 + i)) - (uint32_t)sizeof *m + (uint32_t)vp_below(asc == 1 ? 1 : 3) - (asc > 1); /* each just as large as the buffer the last one left, or next to it */ if (n == 1 || len > maxlen) len = maxlen - (uint32_t)vp_below(maxlen < 3 ? maxlen + 1 : 3);
        m->what = 1; m->arg1 = m->arg2 = 0; m->obj_len = (int)len; uint64_t x = vp_rand() | 1; for (uint32_t j = 0; j + 8 <= len; j += 8) { uint64_t y = x * (j + 1); memcpy(m->obj + j, &y, 8); } for (uint32_t j = len & ~7u; j < len; j++) m->obj[j] = (char)(x >> (j & 7)); big_src = m->obj; big_len = len;
        vp_trace("message of %u in a queue of %u", len, qs); VP_CHECK(msg_queue_handler_push(h, m) == MSG_Q_CODE_SUCCESS, "handler.push-refused", "a message of %u bytes refused by an empty queue of %u", len, qs); sent++;
        vp_await(big_here, &sent, "handler.lost", "a message of this size to be dispatched"); VP_CHECK(!big_bad, "handler.content", "message of %u bytes arrived changed", len); if (len > 65536) vp_count("messages_above_64K", 1); if (len > 1u << 30) vp_count("messages_above_1G", 1); vp_seen(vp_mix(7, (uint64_t)(32 - __builtin_clz(len | 1)))); }
    msg_queue_handler_destroy(&h); free(m); vp_case_mix(vp_mix(qs, (uint64_t)n)); vp_nontrivial();
}
static void m_sizes(void) { uint32_t qs = 1u << (8 + vp_below(15)); big_run(qs + (uint32_t)vp_below(qs), qs, (int)vp_between(1, 12)); }
static void m_giant(void) { big_run(0x80000000u + 4096, (1u << 30) + 100 + (uint32_t)vp_below(1u << 20), 1); }
/* a long life: more messages than any counter narrower than the ids could tell apart, with rare clears */
static struct { fixed_msg_queue_handler h; msg_queue_handler v; uint64_t next, accepted, bound, skipped, got; } G;
static int long_got(uint64_t id, int a1, int a2) { VP_CHECK(a1 == (int)(id * 7) && a2 == (int)(id ^ 0x5555), "handler.fields", "message %llu fields differ", (unsigned long long)id); VP_CHECK(id >= G.next, "handler.duplicate", "message %llu dispatched after %llu", (unsigned long long)id, (unsigned long long)G.next - 1);
    if (id > G.next) { VP_CHECK(id <= __atomic_load_n(&G.bound, __ATOMIC_SEQ_CST), "handler.lost", "message %llu dispatched where %llu was due", (unsigned long long)id, (unsigned long long)G.next); G.skipped += id - G.next; } __atomic_store_n(&G.next, id + 1, __ATOMIC_SEQ_CST); G.got++; if (!(id & 1023)) vp_beat(); return 0; }
static int long_fix(fixed_msg_t* m, void* u) { (void)u; return long_got((uint64_t)(uint32_t)m->what, m->arg1, m->arg2); }
static int long_var(queue_msg_t* m, void* u) { (void)u; return long_got((uint64_t)(uint32_t)m->what, m->arg1, m->arg2); }
static bool long_done(void* a) { (void)a; uint64_t n = __atomic_load_n(&G.next, __ATOMIC_SEQ_CST); return n >= G.accepted || G.bound >= G.accepted; }
static void m_long(void) { memset(&G, 0, sizeof G); bool fixed = vp_case % 3; uint64_t total = 135000 + vp_below(8000), clear_at = fixed ? 1 + vp_below(vp_chance(1, 2) ? 40 : 66000) : UINT64_MAX, full = 0; fixed_msg_queue_handler_init_param_t fp = { .fn_handle_msg = long_fix }; msg_queue_handler_init_param_t mp = { .fn_handle_msg = long_var };
    uint32_t cap = 50 + (uint32_t)vp_below(500); if (fixed) G.h = fixed_msg_queue_handler_create(cap, &fp); else G.v = msg_queue_handler_create(cap * 64, &mp); VP_CHECK(G.h || G.v, "handler.create", "creation refused");
    static fixed_msg_t fm; queue_msg_t vm; memset(&vm, 0, sizeof vm); fm.obj.data_len = 0;
    while (G.accepted < total) { uint64_t id = G.accepted; msg_q_code_e e; if (fixed) { fm.what = (int)id; fm.arg1 = (int)(id * 7); fm.arg2 = (int)(id ^ 0x5555); e = fixed_msg_queue_handler_push(G.h, &fm); } else { vm.what = (int)id; vm.arg1 = (int)(id * 7); vm.arg2 = (int)(id ^ 0x5555); e = msg_queue_handler_push(G.v, &vm); }
        if (e == MSG_Q_CODE_SUCCESS) { G.accepted++; if (G.accepted == clear_at) { __atomic_store_n(&G.bound, G.accepted, __ATOMIC_SEQ_CST); fixed_msg_queue_handler_clear(G.h); } } else { VP_CHECK(e == MSG_Q_CODE_FULL, "handler.push-status", "push on a running handler gives status %d", e); full++; sched_yield(); } if (!(G.accepted & 1023)) vp_beat(); }
    vp_await(long_done, 0, "handler.lost", "all accepted messages dispatched"); if (fixed) kill_f(G.h); else kill_v(G.v);
    VP_CHECK(G.got + G.skipped == total, "handler.lost", "%llu accepted, %llu dispatched, %llu cleared", (unsigned long long)total, (unsigned long long)G.got, (unsigned long long)G.skipped); VP_CHECK(G.skipped <= (fixed ? cap + 2 : 0), "handler.lost", "%llu messages cleared from a queue of %u", (unsigned long long)G.skipped, cap);
    vp_count("long_lives", 1); vp_count("long_messages", total); vp_case_mix(vp_mix(total, clear_at)); vp_seen(vp_mix(full, G.skipped)); if (full) vp_nontrivial(); }
/* a consumer that stands still while very much is accepted: more than 2^16 messages, many megabytes; then everything comes, in order */
static struct { fixed_msg_queue_handler h; msg_queue_handler v; int held, open; uint64_t next, accepted; uint64_t salt; uint32_t szmask; } K;
static uint32_t back_len(uint64_t id) { uint64_t x = vp_mix(K.salt, id); return (x & 63) == 0 ? (uint32_t)(x >> 8) % (K.szmask * 16 + 1) : (uint32_t)(x >> 8) & K.szmask; }
static void back_got(uint64_t id) { if (id == 0) { __atomic_store_n(&K.held, 1, __ATOMIC_SEQ_CST); while (!__atomic_load_n(&K.open, __ATOMIC_SEQ_CST)) { struct timespec ts = {0, 200000}; nanosleep(&ts, 0); } }
    VP_CHECK(id == K.next, "handler.lost", "message %llu dispatched where %llu was due", (unsigned long long)id, (unsigned long long)K.next); __atomic_store_n(&K.next, id + 1, __ATOMIC_SEQ_CST); if (!(id & 1023)) vp_beat(); }
static int back_fix(fixed_msg_t* m, void* u) { (void)u; back_got((uint32_t)m->what); VP_CHECK(m->arg1 == m->what * 3, "handler.fields", "message %d fields differ", m->what); return 0; }
static int back_var(queue_msg_t* m, void* u) { (void)u; uint32_t id = (uint32_t)m->what; back_got(id); VP_CHECK(m->obj_len == (int)back_len(id) && m->arg1 == m->what * 3, "handler.fields", "message %u has %d bytes, %u given", id, m->obj_len, back_len(id));
    for (int i = 0; i < m->obj_len; i++) VP_CHECK((uint8_t)m->obj[i] == (uint8_t)(id * 31 + (uint32_t)i * 7), "handler.content", "message %u byte %d differs", id, i); return 0; }
static bool back_done(void* a) { (void)a; return __atomic_load_n(&K.next, __ATOMIC_SEQ_CST) >= K.accepted; }
static bool back_held(void* a) { (void)a; return __atomic_load_n(&K.held, __ATOMIC_SEQ_CST); }
static void m_backlog(void) { memset(&K, 0, sizeof K); bool fixed = vp_case & 1; K.salt = vp_rand(); K.szmask = vp_case % 4 == 0 ? 7 : vp_case % 4 == 2 ? 2047 : 15; fixed_msg_queue_handler_init_param_t fp = { .fn_handle_msg = back_fix }; msg_queue_handler_init_param_t mp = { .fn_handle_msg = back_var };
    uint64_t want = fixed ? 66000 + vp_below(6000) : K.szmask == 7 ? 70000 + vp_below(5000) : 15000 + vp_below(5000); uint32_t size = fixed ? 140000 : 33u << 20;
    if (fixed) K.h = fixed_msg_queue_handler_create(size, &fp); else K.v = msg_queue_handler_create(size, &mp); VP_CHECK(K.h || K.v, "handler.create", "creation refused"); static fixed_msg_t fm; queue_msg_t* vm = calloc(1, sizeof *vm + K.szmask * 16 + 16);
    for (int round = 0; round < 2; round++) { __atomic_store_n(&K.next, 0, __ATOMIC_SEQ_CST); K.held = K.open = 0; K.accepted = 0;
        while (K.accepted < want) { uint64_t id = K.accepted; msg_q_code_e e; if (fixed) { fm.what = (int)id; fm.arg1 = (int)id * 3; e = fixed_msg_queue_handler_push(K.h, &fm); }
            else { vm->what = (int)id; vm->arg1 = (int)id * 3; vm->obj_len = (int)back_len(id); for (int i = 0; i < vm->obj_len; i++) vm->obj[i] = (char)(id * 31 + (uint64_t)i * 7); e = msg_queue_handler_push(K.v, vm); }
            VP_CHECK(e == MSG_Q_CODE_SUCCESS, "handler.push-status", "push %llu with ample room gives status %d", (unsigned long long)id, e); K.accepted++; if (K.accepted == 1) vp_await(back_held, 0, "handler.lost", "the first message dispatched"); if (!(K.accepted & 1023)) vp_beat(); }
        uint64_t left = fixed ? fixed_msg_queue_handler_available_pop_amount(K.h) : msg_queue_handler_available_pop_bytes(K.v); VP_CHECK(fixed ? left == want - 1 : left > (want - 1) * 8, "handler.available", "%llu queued, %llu accepted and held up", (unsigned long long)left, (unsigned long long)want - 1);
        __atomic_store_n(&K.open, 1, __ATOMIC_SEQ_CST); vp_await(back_done, 0, "handler.lost", "all accepted messages dispatched"); vp_count("backlogs", 1); if (!fixed && left > 65536 * 4) vp_count("backlogs_of_megabytes", 1); }
    free(vm); if (fixed) kill_f(K.h); else kill_v(K.v); VP_CHECK(K.next == want, "handler.duplicate", "%llu dispatched, %llu accepted", (unsigned long long)K.next, (unsigned long long)want); vp_case_mix(vp_mix(want, K.salt)); vp_seen(vp_mix(want, fixed)); vp_nontrivial(); }
const vp_mode_t vp_modes[] = {{"backlog", m_backlog}, {"variable", mode_var}, {"fixed", mode_fixed}, {"clear_gate", mode_clear_gate}, {"sizes", m_sizes}, {"giant", m_giant}, {"long", m_long}, {"life", mode_life}, {"refuse", mode_refuse}, {0}};
