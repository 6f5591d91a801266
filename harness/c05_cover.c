/* C05: auto-covering buffer against the stream model: window [R, W) with W-R <= capacity. */
#include "vp.h"
#include "ring/autocover_buffer.h"
void vpc_set(uint64_t seed, unsigned intensity) __attribute__((weak));
extern void (*vpc_hook)(void) __attribute__((weak));

static uint64_t salt;
static inline uint8_t f(uint64_t p) { uint64_t x = (p + salt) * 0x9E3779B97F4A7C15ull; return (uint8_t)(x >> 37); }
typedef struct { uint64_t R, W; uint32_t cap; } win_t;

/* judges a read/available answer against the window at the time of the call */
static void judge(win_t* w, uint64_t pos, uint64_t req, int ret, const uint8_t* buf, bool is_read) {
    if (pos >= w->R && pos < w->W) {
        uint64_t avail = w->W - pos;
        if (!is_read) VP_CHECK(ret >= 0 && (uint64_t)ret == avail, "cover.available", "available at %llu is %d, window [%llu,%llu)", (unsigned long long)pos, ret, (unsigned long long)w->R, (unsigned long long)w->W);
        else if (req <= avail) {
            VP_CHECK(ret >= 0 && (uint64_t)ret == req, "cover.read-refused", "read(%llu,%llu) gives %d, window [%llu,%llu)", (unsigned long long)pos, (unsigned long long)req, ret, (unsigned long long)w->R, (unsigned long long)w->W);
            for (uint64_t i = 0; i < req; i++) VP_CHECK(buf[i] == f(pos + i), "cover.content", "byte at stream position %llu is wrong (read of %llu at %llu, window [%llu,%llu))", (unsigned long long)(pos + i), (unsigned long long)req, (unsigned long long)pos, (unsigned long long)w->R, (unsigned long long)w->W);
            vp_count("reads_ok", 1);
        } else { VP_CHECK(ret == AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, "cover.not-enough", "read of %llu with %llu available gives %d", (unsigned long long)req, (unsigned long long)avail, ret); vp_count("reads_short", 1); }
    } else if (pos < w->R) {
        VP_CHECK(ret == AUTO_COVER_BUF_ERR_DATA_COVERED, "cover.covered", "position %llu is gone (window [%llu,%llu), capacity %u) but the answer is %d", (unsigned long long)pos, (unsigned long long)w->R, (unsigned long long)w->W, w->cap, ret);
        vp_count(pos + w->cap < w->W ? "covered_older_lap" : "covered_or_consumed", 1);
    } else {
        VP_CHECK(ret <= 0, "cover.future", "position %llu is not written yet (W=%llu) but the answer is %d", (unsigned long long)pos, (unsigned long long)w->W, ret);
        if (pos == w->W) { VP_CHECK(ret == (is_read ? AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH : 0), "cover.end", "nothing is written at %llu yet, but %s gives %d", (unsigned long long)pos, is_read ? "a read" : "the available amount", ret); vp_count("reads_at_end", 1); }
        vp_count("reads_future", 1);
    }
}
static uint64_t pick_pos(vp_rng_t* r, win_t* w) {
    uint64_t lvl = w->W - w->R;
    switch (vp_rng_below(r, 10)) {
    case 0: return w->R;
    case 1: return w->W;
    case 2: return w->W ? w->W - 1 : 0;
    case 3: { uint64_t b = 1 + vp_rng_below(r, w->cap); return w->R >= b ? w->R - b : 0; }
    case 4: { uint64_t b = w->cap * (1 + vp_rng_below(r, 4)) + vp_rng_below(r, w->cap); return w->W >= b ? w->W - b : 0; }
    case 5: return w->W + vp_rng_below(r, 3u * w->cap);
    default: return w->R + (lvl ? vp_rng_below(r, lvl) : 0);
    }
}
/* lock callbacks: a real mutex plus a monitor of the protocol */
static pthread_mutex_t mtx; static volatile uint64_t holder; static volatile bool armed;
static win_t model;
static __thread struct { int acq, rel, op; uint64_t n, pos, req; win_t snap; uint64_t me; } T;
static uint64_t thr_ids;
static int acquire(void* arg) {
    VP_CHECK(arg == &mtx, "cover.lock-arg", "lock callback got the wrong argument");
    if (T.acq++ || T.rel) vp_fail("cover.lock-twice", "lock acquired %d times in one call", T.acq);
    pthread_mutex_lock(&mtx); holder = T.me;
    T.snap = model;
    return 0;
}
static int release(void* arg) {
    VP_CHECK(arg == &mtx && holder == T.me, "cover.unlock-unheld", "lock released without holding it");
    if (T.rel++ || !T.acq) vp_fail("cover.unlock-twice", "lock released %d times in one call", T.rel);
    win_t* m = &model;
    if (T.op == 1) { m->W += T.n; if (m->W - m->R > m->cap) m->R = m->W - m->cap; }
    if (T.op == 2 && T.pos >= m->R && T.pos + T.req <= m->W && T.pos < m->W) m->R = T.pos + T.req;
    holder = 0; pthread_mutex_unlock(&mtx);
    return 0;
}
static void begin(int op, uint64_t n, uint64_t pos, uint64_t req) { T.acq = T.rel = 0; T.op = op; T.n = n; T.pos = pos; T.req = req; if (!T.me) T.me = __atomic_add_fetch(&thr_ids, 1, __ATOMIC_RELAXED); }
static void balanced(const char* what) { VP_CHECK(T.acq == 1 && T.rel == 1, "cover.lock-balance", "%s: %d acquires, %d releases", what, T.acq, T.rel); }
static void in_copy(void) { if (armed && T.op && holder != T.me) vp_fail("cover.copy-unlocked", "data copied without holding the lock"); }

static void mode_history(void) {
    salt = vp_rand(); win_t w = {0};
    uint32_t req = vp_chance(2, 3) ? 3 + (uint32_t)vp_below(62) : 3 + (uint32_t)vp_below(2000);
    bool lk = vp_chance(1, 3); auto_cover_buf_lock_t L = {&mtx, acquire, release};
    auto_cover_buf_handle h = auto_cover_buf_create(req, lk ? &L : NULL);
    VP_CHECK(h, "cover.create", "creation refused for %u", req);
    /* capacity: the window after plenty of single-byte writes is observed, not assumed */
    uint32_t c = 4; while (c < req) c *= 2;
    w.cap = c; model = w;
    vp_trace("create(%u) lock=%d", req, lk);
    unsigned n = 30 + (unsigned)vp_below(150); bool wrapped = false, older = false;
    for (unsigned s = 0; s < n; s++) {
        int op = (int)vp_below(10);
        if (op < 4) {
            uint32_t len = vp_chance(1, 8) ? c : 1 + (uint32_t)vp_below(vp_chance(1, 2) ? 4 : c);
            uint8_t* b = malloc(len); for (uint32_t i = 0; i < len; i++) b[i] = f(w.W + i);
            vp_trace("write %u at %llu", len, (unsigned long long)w.W);
            begin(1, len, 0, 0);
            int r = auto_cover_buf_write(h, b, len);
            if (lk) balanced("write");
            VP_CHECK(r == (int)len, "cover.write", "write of %u gives %d", len, r); free(b);
            w.W += len; if (w.W - w.R > c) { w.R = w.W - c; wrapped = true; }
        } else {
            uint64_t pos = pick_pos(&vp_rng, &w);
            if (pos + c < w.W) older = true;
            if (op < 6) {
                begin(3, 0, pos, 0);
                vp_trace("available %llu window [%llu,%llu)", (unsigned long long)pos, (unsigned long long)w.R, (unsigned long long)w.W);
                int r = auto_cover_buf_available_read(h, (uint32_t)pos); if (lk) balanced("available");
                judge(&w, pos, 0, r, NULL, false);
            } else {
                uint64_t av = pos < w.W ? w.W - pos : 0;
                uint64_t q = vp_chance(1, 4) ? av : vp_chance(1, 4) ? av + 1 : 1 + vp_below(c + 2);
                if (vp_chance(1, 40)) q = vp_chance(1, 2) ? 0x80000000u + vp_below(9) : UINT32_MAX - vp_below(9);
                if (!q) q = 1;
                size_t bl = q <= c ? (size_t)q : 1; uint8_t* b = malloc(bl); memset(b, 0xC3, bl);
                vp_trace("read pos=%llu n=%llu window [%llu,%llu)", (unsigned long long)pos, (unsigned long long)q, (unsigned long long)w.R, (unsigned long long)w.W);
                begin(2, 0, pos, q);
                int r = auto_cover_buf_read(h, (uint32_t)pos, b, (uint32_t)q); if (lk) balanced("read");
                judge(&w, pos, q, r, b, true);
                if (r < 0) for (size_t i = 0; i < bl; i++) VP_CHECK(b[i] == 0xC3, "cover.refused-touched", "refused read wrote to the buffer");
                free(b);
                if (pos >= w.R && pos < w.W && pos + q <= w.W) w.R = pos + q;
            }
        }
        vp_seen(vp_mix(vp_mix(w.W % c * 8 / c, (w.W - w.R) * 8 / c), (uint64_t)op)); vp_case_mix(vp_mix(w.W - w.R, (uint64_t)op));
    }
    /* everything still in the window comes out */
    while (w.R < w.W) {
        uint64_t q = 1 + vp_below(w.W - w.R); uint8_t* b = malloc((size_t)q);
        begin(2, 0, w.R, q); int r = auto_cover_buf_read(h, (uint32_t)w.R, b, (uint32_t)q); judge(&w, w.R, q, r, b, true); free(b); w.R += q;
    }
    if (wrapped) vp_count("cases_covered", 1);
    if (wrapped && older) vp_nontrivial();
    if (vp_want_sample()) vp_sample("capacity %u lock %d: stream of %llu bytes, window ended [%llu,%llu)", c, lk, (unsigned long long)w.W, (unsigned long long)w.R, (unsigned long long)w.W);
    T.op = 0;
    auto_cover_buf_destroy(&h); VP_CHECK(!h, "cover.destroy", "handle not cleared"); auto_cover_buf_destroy(&h); auto_cover_buf_destroy(NULL);
}
/* stream positions beyond 2^32 */
static void mode_overflow(void) {
    salt = vp_rand(); uint32_t c = 1u << (14 + vp_below(8)); win_t w = {0, 0, c};
    auto_cover_buf_handle h = auto_cover_buf_create(c, NULL);
    char* junk = calloc(1, c); uint64_t target = (1ull << 32) - vp_below(3u * c); unsigned k = 0;
    while (w.W + c <= target) { if (auto_cover_buf_write(h, junk, c) != (int)c) vp_fail("cover.write", "write refused"); w.W += c; if (!(++k & 255)) vp_beat(); }
    w.R = w.W - c; free(junk);
    uint8_t* b = malloc(c); uint64_t clean = w.W; /* positions from here on hold f */
    bool crossed = false; uint64_t before = w.W;
    for (unsigned s = 0; s < 400 || !crossed; s++) {
        if (s > 3000) break;
        if (vp_chance(1, 2)) {
            uint32_t len = 1 + (uint32_t)vp_below(c / 3); for (uint32_t i = 0; i < len; i++) b[i] = f(w.W + i);
            VP_CHECK(auto_cover_buf_write(h, b, len) == (int)len, "cover.write", "write refused");
            w.W += len; if (w.W - w.R > c) w.R = w.W - c;
        } else {
            uint64_t pos = pick_pos(&vp_rng, &w); uint64_t q = 1 + vp_below(c / 2);
            if (pos >= w.R && pos < clean) continue;
            int r = auto_cover_buf_read(h, (uint32_t)pos, b, (uint32_t)q);
            judge(&w, pos, q, r, b, true);
            if (pos >= w.R && pos < w.W && pos + q <= w.W) w.R = pos + q;
        }
        if (before < (1ull << 32) && w.W >= (1ull << 32)) { crossed = true; before = w.W; vp_count("overflow_crossed", 1); }
    }
    free(b); auto_cover_buf_destroy(&h); vp_case_mix(target); vp_nontrivial();
}
/* amounts beyond 2^16, 2^20 and 2^24 */
static void mode_scale(void) {
    salt = vp_rand(); uint32_t c = 1u << (17 + vp_below(9)); win_t w = {0, 0, c}; auto_cover_buf_handle h = auto_cover_buf_create(c, NULL); VP_CHECK(h, "cover.create", "refused");
    uint8_t* b = malloc(c);
    for (unsigned s = 0; s < (c > (1u << 22) ? 16u : 60u); s++) {
        if (vp_chance(1, 2)) {
            uint32_t len = vp_chance(1, 6) ? c : 1 + (uint32_t)vp_below(c); if (vp_chance(1, 8)) len = 65536; for (uint32_t i = 0; i < len; i++) b[i] = f(w.W + i);
            VP_CHECK(auto_cover_buf_write(h, b, len) == (int)len, "cover.write", "write of %u refused", len); w.W += len; if (w.W - w.R > c) w.R = w.W - c;
        } else {
            uint64_t pos = vp_chance(3, 4) && w.W > w.R ? w.R + vp_below(w.W - w.R) : pick_pos(&vp_rng, &w), q = 1 + vp_below(c); if (pos >= w.R && pos < w.W && vp_chance(1, 2)) q = w.W - pos;
            memset(b, 0, q < c ? q : c); int r = auto_cover_buf_read(h, (uint32_t)pos, b, (uint32_t)q); judge(&w, pos, q, r, b, true);
            if (pos >= w.R && pos < w.W && pos + q <= w.W) { w.R = pos + q; vp_count("scale_reads", q > 65536); }
        }
        int av = auto_cover_buf_available_read(h, (uint32_t)w.R); VP_CHECK(av == (int)(w.W - w.R), "cover.available", "%d available, expected %llu", av, (unsigned long long)(w.W - w.R)); vp_beat();
    }
    free(b); auto_cover_buf_destroy(&h); vp_case_mix(c); vp_nontrivial();
}
/* concurrent writers and readers under lock callbacks; the model moves inside the lock */
static struct { auto_cover_buf_handle h; uint64_t seed; unsigned ops; int kind; pthread_barrier_t bar; } K;
static pthread_mutex_t wlock = PTHREAD_MUTEX_INITIALIZER; static uint64_t nextW;
static uint64_t obs;
static void* worker(void* arg) {
    intptr_t id = (intptr_t)arg; vp_rng_t r; vp_rng_init(&r, K.seed, (uint64_t)id);
    uint8_t* b = malloc(model.cap + 8); uint64_t o = (uint64_t)id;
    pthread_barrier_wait(&K.bar);
    for (unsigned i = 0; i < K.ops; i++) {
        bool wr = id == 0 || (id == 1 && vp_rng_below(&r, 3) == 0);
        if (wr) {
            /* writers take turns so that the writer knows its stream position; readers do not */
            uint32_t len = 1 + (uint32_t)vp_rng_below(&r, vp_rng_below(&r, 4) ? model.cap / 4 : model.cap);
            pthread_mutex_lock(&wlock);
            for (uint32_t k = 0; k < len; k++) b[k] = f(nextW + k);
            begin(1, len, 0, 0);
            int rc = auto_cover_buf_write(K.h, b, len); balanced("write"); T.op = 0;
            VP_CHECK(rc == (int)len, "cover.write", "write of %u gives %d", len, rc);
            nextW += len; pthread_mutex_unlock(&wlock);
            for (uint32_t k = 0; k < len; k++) b[k] = 0x77;
        } else {
            win_t g = *(volatile win_t*)&model; if (g.R > g.W) g.R = g.W;
            uint64_t pos = pick_pos(&r, &g), av = pos < g.W ? g.W - pos : 0;
            uint64_t q = vp_rng_below(&r, 3) ? 1 + vp_rng_below(&r, 9) : av ? av : 1; if (q > model.cap) q = model.cap;
            begin(2, 0, pos, q);
            int rc = auto_cover_buf_read(K.h, (uint32_t)pos, b, (uint32_t)q); balanced("read"); T.op = 0;
            judge(&T.snap, pos, q, rc, b, true);
            o = vp_mix(o, (uint64_t)(rc < 0 ? rc : 1));
            if (vp_rng_below(&r, 5) == 0) {
                begin(3, 0, pos, 0);
                rc = auto_cover_buf_available_read(K.h, (uint32_t)pos); balanced("available"); T.op = 0;
                judge(&T.snap, pos, 0, rc, NULL, false);
            }
        }
        if (!(i & 255)) vp_beat();
        if (vp_rng_below(&r, 16) == 0) sched_yield();
    }
    __atomic_add_fetch(&obs, o, __ATOMIC_RELAXED);
    free(b); return NULL;
}
static void mode_concurrent(void) {
    salt = vp_rand(); uint32_t c = 4u << vp_below(9);
    model = (win_t){0, 0, c}; nextW = 0; pthread_mutex_init(&mtx, 0); holder = 0; obs = 0;
    auto_cover_buf_lock_t L = {&mtx, acquire, release};
    K.h = auto_cover_buf_create(c, &L); memset(&L, 0x11, sizeof L); /* the buffer must have its own copy */
    K.seed = vp_rand(); K.ops = 300 + (unsigned)vp_below(400);
    if (vpc_set) vpc_set(vp_rand(), vp_chance(1, 2) ? 20 : 0);
    if (&vpc_hook) { vpc_hook = in_copy; armed = true; }
    int nt = 2 + (int)vp_below(4); pthread_t t[8]; pthread_barrier_init(&K.bar, 0, (unsigned)nt);
    for (int i = 0; i < nt; i++) pthread_create(&t[i], 0, worker, (void*)(intptr_t)i);
    for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
    armed = false; if (vpc_set) vpc_set(1, 0);
    pthread_barrier_destroy(&K.bar);
    T.op = 0; auto_cover_buf_destroy(&K.h); pthread_mutex_destroy(&mtx);
    vp_count("concurrent_ops", (uint64_t)nt * K.ops); vp_seen(obs); vp_case_mix(obs);
    if (model.W > 2 * c) vp_nontrivial();
}
const vp_mode_t vp_modes[] = {{"history", mode_history}, {"overflow", mode_overflow}, {"scale", mode_scale}, {"concurrent", mode_concurrent}, {0}};
void vp_harness_init(void) { pthread_mutex_init(&mtx, 0); }
