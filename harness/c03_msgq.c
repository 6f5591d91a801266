/* C03: message queues against a model list of messages. */
#include "vp.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
static uint64_t salt;
static uint8_t mb(uint64_t k, uint64_t i) { uint64_t x = (k * 1000003 + i + salt) * 0x9E3779B97F4A7C15ull; return (uint8_t)(x >> 41); }
#define MAXQ 8192
static struct { uint64_t id; uint32_t len; } mq[MAXQ]; static unsigned mh, mt; /* model */
static unsigned mn(void) { return mt - mh; }

static void mode_var(void) {
    salt = vp_rand(); mh = mt = 0;
    uint32_t sz = vp_chance(3, 4) ? (uint32_t)vp_below(200) : (uint32_t)vp_below(6000);
    vp_trace("msg_queue_create(%u)", sz);
    msg_queue q = msg_queue_create(sz);
    if (!q) { VP_CHECK(sz < 48, "msgq.create", "creation refused for %u bytes", sz); vp_count("creations_refused", 1); return; }
    const uint32_t cap = msg_queue_available_push_bytes(q);
    VP_CHECK(cap >= 1 && cap <= sz && cap * 2u + 128 > sz, "msgq.capacity", "queue of %u bytes has %u free", sz, cap);
    VP_CHECK(msg_queue_available_pop_bytes(q) == 0 && msg_queue_next_msg_size(q) == 0, "msgq.fresh", "fresh queue not empty");
    uint32_t used = 0, oh = 0; uint64_t id = 0; bool wrapped = false; uint64_t through = 0; unsigned fulls = 0, smalls = 0;
    unsigned n = 30 + (unsigned)vp_below(200);
    uint32_t maxl = 1 + (uint32_t)vp_below(vp_chance(1, 2) ? 12 : cap + 4);
    for (unsigned s = 0; s < n; s++) {
        int op = (int)vp_below(20); uint32_t free0 = cap - used;
        if (op < 9) {
            uint32_t len = vp_chance(1, 4) ? (free0 > 4 ? free0 - 4 + (uint32_t)vp_below(3) - 1 : 1) : 1 + (uint32_t)vp_below(maxl);
            if (vp_chance(1, 60)) len = UINT32_MAX - (uint32_t)vp_below(6);
            if (!len) len = 1;
            bool huge = len > 1000000; uint8_t* m = malloc(huge ? 1 : len);
            if (!huge) for (uint32_t i = 0; i < len; i++) m[i] = mb(id, i);
            vp_trace("push len=%u used=%u/%u", len, used, cap);
            msg_q_code_e e = msg_queue_push(q, m, len); free(m);
            if (e == MSG_Q_CODE_SUCCESS) {
                uint32_t u2 = msg_queue_available_pop_bytes(q);
                VP_CHECK(u2 > used + len && u2 <= cap, "msgq.used", "used %u -> %u after push of %u", used, u2, len);
                if (!oh) oh = u2 - used - len;
                VP_CHECK(u2 - used - len == oh && oh < 64, "msgq.overhead", "push of %u took %u bytes", len, u2 - used);
                used = u2; mq[mt++ % MAXQ].id = id; mq[(mt - 1) % MAXQ].len = len; id++; through += len;
            } else {
                VP_CHECK(e == MSG_Q_CODE_FULL, "msgq.push-status", "push refused with status %d", e);
                VP_CHECK(oh ? (uint64_t)len + oh > free0 : (uint64_t)len + 64 > free0, "msgq.push-refused", "push of %u refused with %u free", len, free0);
                fulls++;
            }
        } else if (op < 17) {
            uint32_t want = mn() ? mq[mh % MAXQ].len : 0;
            uint32_t bs = vp_chance(1, 3) && want ? (uint32_t)vp_below(want) : want + (uint32_t)vp_below(6), bs0 = bs;
            if (vp_chance(1, 5)) bs = bs0 = want;
            uint8_t* m = malloc(bs ? bs : 1); memset(m, 0x5A, bs ? bs : 1);
            VP_CHECK(msg_queue_next_msg_size(q) == want, "msgq.next-size", "next size %u, model %u", msg_queue_next_msg_size(q), want);
            vp_trace("pop buf=%u next=%u", bs, want);
            msg_q_code_e e = msg_queue_pop(q, m, &bs);
            if (!mn()) { VP_CHECK(e == MSG_Q_CODE_EMPTY, "msgq.pop-empty", "pop of empty queue gives %d", e); vp_count("pop_empty", 1); }
            else if (bs0 < want) {
                VP_CHECK(e == MSG_Q_CODE_BUF_NOT_ENOUGH, "msgq.pop-small", "pop into %u of %u gives %d", bs0, want, e);
                VP_CHECK(bs == want, "msgq.pop-small-size", "reports %u, message has %u", bs, want);
                for (uint32_t i = 0; i < bs0; i++) VP_CHECK(m[i] == 0x5A, "msgq.pop-small-touched", "refused pop wrote to the buffer");
                VP_CHECK(msg_queue_available_pop_bytes(q) == used, "msgq.pop-small-lost", "refused pop changed the queue"); smalls++;
            } else {
                VP_CHECK(e == MSG_Q_CODE_SUCCESS, "msgq.pop-status", "pop gives %d, message of %u, buffer %u", e, want, bs0);
                for (uint32_t i = 0; i < want; i++) VP_CHECK(m[i] == mb(mq[mh % MAXQ].id, i), "msgq.content", "message %llu byte %u/%u differs", (unsigned long long)mq[mh % MAXQ].id, i, want);
                for (uint32_t i = want; i < bs0; i++) VP_CHECK(m[i] == 0x5A, "msgq.overrun", "pop wrote past the message");
                VP_CHECK(bs == want, "msgq.pop-size", "successful pop reports size %u, message has %u", bs, want);
                uint32_t u2 = msg_queue_available_pop_bytes(q);
                VP_CHECK(u2 == used - want - oh, "msgq.used", "used %u -> %u after pop of %u (overhead %u)", used, u2, want, oh);
                used = u2; mh++;
            }
            free(m);
        } else if (op == 17 && vp_chance(1, 5)) { vp_trace("clear"); msg_queue_clear(q); mh = mt; used = 0; vp_count("clears", 1); }
        else if (op == 18) {
            uint8_t x = 1; uint32_t bs = 1;
            VP_CHECK(msg_queue_push(q, &x, 0) != MSG_Q_CODE_SUCCESS, "msgq.zero", "empty message accepted");
            VP_CHECK(msg_queue_push(q, NULL, 1) != MSG_Q_CODE_SUCCESS && msg_queue_push(NULL, &x, 1) != MSG_Q_CODE_SUCCESS, "msgq.null", "null argument accepted");
            VP_CHECK(msg_queue_pop(NULL, &x, &bs) != MSG_Q_CODE_SUCCESS && msg_queue_pop(q, NULL, &bs) != MSG_Q_CODE_SUCCESS && msg_queue_pop(q, &x, NULL) != MSG_Q_CODE_SUCCESS, "msgq.null", "null argument accepted");
        }
        VP_CHECK(msg_queue_available_pop_bytes(q) == used, "msgq.used", "used bytes %u, model %u", msg_queue_available_pop_bytes(q), used);
        VP_CHECK(msg_queue_available_push_bytes(q) == cap - used, "msgq.free", "free bytes %u, model %u", msg_queue_available_push_bytes(q), cap - used);
        VP_CHECK(msg_queue_next_msg_size(q) == (mn() ? mq[mh % MAXQ].len : 0), "msgq.next-size", "next size %u", msg_queue_next_msg_size(q));
        vp_seen(vp_mix((uint64_t)op, used * 32 / cap) + (mn() > 8 ? 8 : mn()) * 7919);
        vp_case_mix(used * 32 + (uint64_t)op);
        if (through > cap) wrapped = true;
    }
    if (wrapped) vp_count("cases_wrapped", 1);
    vp_count("pushes_full", fulls); vp_count("pops_small", smalls); vp_count("messages", id);
    if (wrapped && fulls) vp_nontrivial();
    if (vp_want_sample()) vp_sample("queue of %u bytes (capacity %u): %llu messages accepted, %u refused full, %u refused small buffer", sz, cap, (unsigned long long)id, fulls, smalls);
    msg_queue_destroy(&q);
    VP_CHECK(!q, "msgq.destroy", "handle not cleared");
    msg_queue_destroy(NULL);
}
static void mode_fixed(void) {
    salt = vp_rand(); mh = mt = 0;
    uint32_t es = vp_chance(1, 3) ? 1 + (uint32_t)vp_below(8) : 1 + (uint32_t)vp_below(150), req = 1 + (uint32_t)vp_below(70);
    vp_trace("fixed_msg_queue_create(%u,%u)", es, req);
    fixed_msg_queue q = fixed_msg_queue_create(es, req);
    if (!q) { VP_CHECK((uint64_t)es * req < 64, "fmq.create", "creation refused for %u x %u", es, req); vp_count("creations_refused", 1); return; }
    const uint32_t cap = fixed_msg_queue_available_push_amount(q);
    uint64_t low = (uint64_t)es * req > 64 ? ((uint64_t)es * req - 64) / 2 / es : 0;
    VP_CHECK(cap <= req && cap >= low, "fmq.capacity", "requested %u, capacity %u", req, cap);
    uint64_t id = 0, tail = 0; unsigned fulls = 0, empties = 0;
    uint8_t* m = malloc(es);
    unsigned n = 30 + (unsigned)vp_below(250), bias = (unsigned)vp_below(3);
    for (unsigned s = 0; s < n; s++) {
        uint64_t cnt = id - tail; int op = (int)vp_below(20 + bias * 3);
        if (op < 9 || op > 19) {
            for (uint32_t i = 0; i < es; i++) m[i] = mb(id, i);
            vp_trace("push %llu count=%llu/%u", (unsigned long long)id, (unsigned long long)cnt, cap);
            bool ok = fixed_msg_queue_push(q, m);
            VP_CHECK(ok == (cnt < cap), "fmq.push", "push with %llu of %u gives %d", (unsigned long long)cnt, cap, ok);
            if (ok) id++; else fulls++;
        } else if (op < 18) {
            memset(m, 0, es); vp_trace("pop");
            bool ok = fixed_msg_queue_pop(q, m);
            VP_CHECK(ok == (cnt > 0), "fmq.pop", "pop with %llu queued gives %d", (unsigned long long)cnt, ok);
            if (ok) { for (uint32_t i = 0; i < es; i++) VP_CHECK(m[i] == mb(tail, i), "fmq.content", "message %llu byte %u/%u differs", (unsigned long long)tail, i, es); tail++; }
            else empties++;
        } else if (op == 18 && vp_chance(1, 5)) { if ((uint64_t)cap * es < 200000 && vp_chance(1, 2)) { vp_trace("fill"); while (id - tail < cap) { for (uint32_t i = 0; i < es; i++) m[i] = mb(id, i); VP_CHECK(fixed_msg_queue_push(q, m), "fmq.push", "push with %llu of %u refused", (unsigned long long)(id - tail), cap); id++; } }
            vp_trace("clear"); fixed_msg_queue_clear(q); tail = id; vp_count("clears", 1); }
        cnt = id - tail;
        VP_CHECK(fixed_msg_queue_available_pop_amount(q) == cnt, "fmq.count", "amount %u, model %llu", fixed_msg_queue_available_pop_amount(q), (unsigned long long)cnt);
        VP_CHECK(fixed_msg_queue_available_push_amount(q) == cap - cnt, "fmq.free", "room %u, model %llu", fixed_msg_queue_available_push_amount(q), (unsigned long long)(cap - cnt));
        VP_CHECK(fixed_msg_queue_is_empty(q) == (cnt == 0) && fixed_msg_queue_is_full(q) == (cnt == cap), "fmq.flags", "empty/full flags wrong at %llu/%u", (unsigned long long)cnt, cap);
        vp_seen(vp_mix((uint64_t)op, cnt) + cap * 131); vp_case_mix(cnt * 32 + (uint64_t)op);
    }
    free(m);
    if (cap && id > cap) { vp_count("cases_wrapped", 1); if (fulls && empties) vp_nontrivial(); }
    vp_count("fixed_full", fulls); vp_count("fixed_empty", empties); vp_count("fixed_messages", id);
    fixed_msg_queue_destroy(&q); VP_CHECK(!q, "fmq.destroy", "handle not cleared"); fixed_msg_queue_destroy(&q); fixed_msg_queue_destroy(NULL);
    VP_CHECK(!fixed_msg_queue_create(0, 5) && !fixed_msg_queue_create(5, 0), "fmq.create", "zero size accepted");
}
/* sizes beyond 16 bits (and 24 bits) in every place a size appears */
static void mode_scale(void) {
    salt = vp_rand();
    bool big = vp_case % 3 == 0; uint32_t sz = big ? (1u << 24) * 2 + (uint32_t)vp_below(5000000) : 70000 + (uint32_t)vp_below(700000);
    msg_queue q = msg_queue_create(sz); VP_CHECK(q != NULL, "msgq.create", "creation refused for %u bytes", sz);
    uint32_t cap = msg_queue_available_push_bytes(q); VP_CHECK(cap <= sz && cap * 2ull + 128 > sz, "msgq.capacity", "queue of %u bytes has %u free", sz, cap);
    uint8_t* m = malloc(cap + 16); uint8_t* o = malloc((size_t)cap * 2 + 200000); uint32_t lens[40]; unsigned h = 0, t = 0; uint64_t id = 0, tid = 0; uint32_t used = 0;
    vp_trace("queue of %u, capacity %u", sz, cap);
    for (unsigned s = 0; s < (big ? 12u : 40u); s++) {
        if (t - h < 30 && (vp_chance(3, 5) || t == h)) {
            uint32_t free0 = cap - used; uint32_t len = t == h && vp_chance(1, 2) ? free0 - 8 - (uint32_t)vp_below(20) : vp_chance(1, 3) ? 1 + (uint32_t)vp_below(free0 + 1) : 65536u + (uint32_t)vp_below(40) - 20;
            if (big && t == h && vp_chance(1, 2)) len = (1u << 24) + (uint32_t)vp_below(40) - 20;
            if (len > cap + 8) len = cap;
            for (uint32_t i = 0; i < len; i++) m[i] = mb(id, i);
            msg_q_code_e e = msg_queue_push(q, m, len); vp_trace("push %u -> %d", len, e);
            if (e == MSG_Q_CODE_SUCCESS) { lens[t++ % 40] = len; id++; uint32_t u = msg_queue_available_pop_bytes(q); VP_CHECK(u > used + len && u - used - len < 64 && u <= cap, "msgq.used", "used %u -> %u after push of %u", used, u, len); used = u; vp_count("large_pushed", len >= 65536); }
            else VP_CHECK(e == MSG_Q_CODE_FULL && (uint64_t)len + 64 > free0, "msgq.push-refused", "push of %u refused (%d) with %u free", len, e, free0);
        } else if (t != h) {
            uint32_t want = lens[h % 40]; uint32_t bs = vp_chance(1, 3) ? want : vp_chance(1, 2) ? want + 1 + (uint32_t)vp_below(100000) : vp_chance(1, 2) ? (want | 0xffff) + 1 : (uint32_t)vp_below(want);
            uint32_t bs0 = bs; memset(o, 0x5a, (size_t)want + 40); uint32_t nx = msg_queue_next_msg_size(q); VP_CHECK(nx == want, "msgq.next-size", "next size %u, model %u", nx, want);
            msg_q_code_e e = msg_queue_pop(q, o, &bs); vp_trace("pop %u into %u -> %d", want, bs0, e);
            if (bs0 < want) { VP_CHECK(e == MSG_Q_CODE_BUF_NOT_ENOUGH && bs == want, "msgq.pop-small", "pop into %u of %u gives %d, size %u", bs0, want, e, bs); continue; }
            VP_CHECK(e == MSG_Q_CODE_SUCCESS && bs == want, "msgq.pop-status", "pop of %u into %u gives %d, size %u", want, bs0, e, bs);
            for (uint32_t i = 0; i < want; i++) if (o[i] != mb(tid, i)) vp_fail("msgq.content", "message %llu byte %u/%u differs", (unsigned long long)tid, i, want);
            VP_CHECK(o[want] == 0x5a, "msgq.overrun", "pop wrote past the message");
            h++; tid++; uint32_t u = msg_queue_available_pop_bytes(q); VP_CHECK(u < used && used - u > want && used - u - want < 64, "msgq.used", "used %u -> %u after pop of %u", used, u, want); used = u;
        }
        VP_CHECK(msg_queue_available_push_bytes(q) == cap - used, "msgq.free", "free bytes %u, model %u", msg_queue_available_push_bytes(q), cap - used); vp_beat();
    }
    free(m); free(o); msg_queue_destroy(&q);
    /* many small fixed messages, a few very large ones */
    bool many = vp_chance(1, 2); uint32_t es = many ? 1 + (uint32_t)vp_below(5) : 60000 + (uint32_t)vp_below(100000), req = many ? 65530 + (uint32_t)vp_below(200000) : 3 + (uint32_t)vp_below(10);
    fixed_msg_queue f = fixed_msg_queue_create(es, req); VP_CHECK(f != NULL, "fmq.create", "creation refused for %u x %u", es, req);
    uint32_t fc = fixed_msg_queue_available_push_amount(f); uint64_t low = ((uint64_t)es * req - 64) / 2 / es; VP_CHECK(fc <= req && fc >= low, "fmq.capacity", "requested %u of %u bytes, capacity %u", req, es, fc);
    uint8_t* b = malloc(es + 1); uint64_t in = 0, out = 0;
    for (int round = 0; round < 3; round++) {
        uint64_t target = round == 1 ? in + vp_below(fc) : UINT64_MAX;
        for (;;) { if (in >= target) break; for (uint32_t i = 0; i < es; i++) b[i] = mb(in, i); bool ok = fixed_msg_queue_push(f, b); VP_CHECK(ok == (in - out < fc), "fmq.push", "push with %llu of %u gives %d", (unsigned long long)(in - out), fc, ok); if (!ok) break; in++;
            if (in % 509 == 0 || in - out + 3 > fc) { VP_CHECK(fixed_msg_queue_available_pop_amount(f) == in - out && fixed_msg_queue_available_push_amount(f) == fc - (in - out), "fmq.count", "amounts %u/%u, model %llu of %u", fixed_msg_queue_available_pop_amount(f), fixed_msg_queue_available_push_amount(f), (unsigned long long)(in - out), fc); VP_CHECK(fixed_msg_queue_is_full(f) == (in - out == fc) && !fixed_msg_queue_is_empty(f), "fmq.flags", "flags wrong at %llu of %u", (unsigned long long)(in - out), fc); } }
        uint64_t keep = round == 2 ? 0 : vp_below(fc);
        while (in - out > keep) { b[es] = 0x5a; bool ok = fixed_msg_queue_pop(f, b); VP_CHECK(ok && b[es] == 0x5a, "fmq.pop", "pop with %llu queued gives %d", (unsigned long long)(in - out), ok); for (uint32_t i = 0; i < es; i++) if (b[i] != mb(out, i)) vp_fail("fmq.content", "message %llu byte %u/%u differs", (unsigned long long)out, i, es); out++;
            if (out % 509 == 0) VP_CHECK(fixed_msg_queue_available_pop_amount(f) == in - out, "fmq.count", "amount %u, model %llu", fixed_msg_queue_available_pop_amount(f), (unsigned long long)(in - out)); }
        vp_beat();
    }
    VP_CHECK(fixed_msg_queue_is_empty(f) && !fixed_msg_queue_pop(f, b), "fmq.pop", "drained queue is not empty");
    if (in > 65536) vp_count("fixed_many", 1); else vp_count("fixed_large", 1);
    free(b); fixed_msg_queue_destroy(&f); vp_count("scale_queues", 1); vp_case_mix(sz); vp_case_mix(es * 31 + req); vp_nontrivial();
}
const vp_mode_t vp_modes[] = {{"variable", mode_var}, {"fixed", mode_fixed}, {"scale", mode_scale}, {0}};
