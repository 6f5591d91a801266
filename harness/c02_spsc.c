/* C02: one producer thread, one consumer thread, no lock. Content is a function of the stream
 * position / message number, so every read identifies exactly what it must be. */
#include "vp.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
void vpc_set(uint64_t seed, unsigned intensity) __attribute__((weak));
uint64_t vpc_hits(void) __attribute__((weak));

static uint64_t salt;
static inline uint8_t f(uint64_t p) { uint64_t x = (p + salt) * 0x9E3779B97F4A7C15ull; return (uint8_t)(x >> 37); }
typedef struct {
    int kind; ring_buffer_handle a; ring_handle b; msg_queue q; fixed_msg_queue fq;
    uint64_t cap, total, es, maxmsg; int style_p, style_c;
    vp_rng_t rp, rc;
    uint64_t full, empty, again, small, retries; /* observations */
    uint64_t seen_p, seen_c;
    volatile uint64_t produced, consumed; volatile int stop;
} ctx_t;
static ctx_t C; static bool cross; static bool bulk; /* bulk: transfers of 4 KB to 300 KB */
static pthread_barrier_t bar;

static void idle(vp_rng_t* r, int style) {
    uint64_t v = vp_rng_next(r) >> 20;
    if (style == 0) { if (v % 64 == 0) sched_yield(); }
    else if (style == 1) { if (v % 8 == 0) sched_yield(); else { volatile unsigned n = (unsigned)v % 300; while (n) n = n - 1; } }
    else if (v % 200 == 0) { struct timespec ts = {0, (long)(v % 50000)}; nanosleep(&ts, 0); }
}
/* deterministic length of message number k */
static uint32_t mlen(uint64_t k) { uint64_t x = (k + salt) * 0xD1342543DE82EF95ull; x ^= x >> 31; return (uint32_t)(1 + x % C.maxmsg); }
static uint8_t mbyte(uint64_t k, uint32_t i) { return f(k * 131 + i * 7u + (k >> 3)); }

static void* producer(void* arg) {
    (void)arg; ctx_t* c = &C; uint8_t* buf = malloc(c->cap + 64 + c->maxmsg + c->es);
    uint64_t pos = 0, lastroom = 0; bool have_last = false; unsigned spins = 0;
    pthread_barrier_wait(&bar);
    while (pos < c->total && !c->stop) {
        bool ok = false;
        if (c->kind <= 1) {
            uint64_t room = c->kind ? ring_buf_available_write(c->b) : RingBuffer_available_write(c->a);
            VP_CHECK(room <= c->cap, "spsc.room", "writable %llu exceeds capacity %llu", (unsigned long long)room, (unsigned long long)c->cap);
            if (have_last) VP_CHECK(room >= lastroom, "spsc.room-shrank", "writable shrank %llu -> %llu without a write", (unsigned long long)lastroom, (unsigned long long)room);
            uint64_t n = 1 + vp_rng_below(&c->rp, c->cap + 2); if (!bulk && vp_rng_below(&c->rp, 3)) n = 1 + n % 7;
            if (n > c->total - pos) n = c->total - pos;
            for (uint64_t i = 0; i < n; i++) buf[i] = f(pos + i);
            uint64_t w = c->kind ? ring_buf_write(c->b, buf, n) : RingBuffer_write(c->a, buf, (uint32_t)n);
            VP_CHECK(w <= n && (!c->kind || w == 0 || w == n), "spsc.write-amount", "write(%llu) returned %llu", (unsigned long long)n, (unsigned long long)w);
            VP_CHECK(w >= (n < room ? n : (c->kind ? 0 : room)), "spsc.write-refused", "write(%llu) with %llu room took %llu", (unsigned long long)n, (unsigned long long)room, (unsigned long long)w);
            if (w < n) c->full++;
            /* what was left unwritten cannot shrink: room seen before, minus what we wrote */
            have_last = true; lastroom = room - (w < room ? w : room);
            pos += w; ok = w != 0;
        } else if (c->kind == 2) {
            uint32_t n = mlen(pos);
            for (uint32_t i = 0; i < n; i++) buf[i] = mbyte(pos, i);
            uint64_t room = msg_queue_available_push_bytes(c->q);
            VP_CHECK(room <= c->cap, "spsc.room", "push room %llu exceeds capacity %llu", (unsigned long long)room, (unsigned long long)c->cap);
            msg_q_code_e e = msg_queue_push(c->q, buf, n);
            VP_CHECK(e == MSG_Q_CODE_SUCCESS || e == MSG_Q_CODE_FULL, "spsc.push-status", "push status %d", e);
            VP_CHECK(e == MSG_Q_CODE_SUCCESS || room < n + 64u, "spsc.push-refused", "push of %u refused with %llu free", n, (unsigned long long)room);
            ok = e == MSG_Q_CODE_SUCCESS; if (!ok) c->full++; pos += ok;
        } else {
            for (uint64_t i = 0; i < c->es; i++) buf[i] = mbyte(pos, (uint32_t)i);
            uint32_t room = fixed_msg_queue_available_push_amount(c->fq);
            VP_CHECK(room <= c->cap, "spsc.room", "push amount %u exceeds capacity %llu", room, (unsigned long long)c->cap);
            ok = fixed_msg_queue_push(c->fq, buf);
            VP_CHECK(ok || !room, "spsc.push-refused", "push refused with room for %u", room);
            if (!ok) c->full++;
            pos += ok;
        }
        __atomic_store_n(&c->produced, pos, __ATOMIC_RELEASE);
        c->seen_p = vp_mix(c->seen_p, ok);
        if (ok) { spins = 0; idle(&c->rp, c->style_p); } else if (++spins > 50) { sched_yield(); if (spins > 3000) { struct timespec ts = {0, 20000}; nanosleep(&ts, 0); } }
        if (!(pos & 1023)) vp_beat();
    }
    free(buf); return NULL;
}
static void* consumer(void* arg) {
    (void)arg; ctx_t* c = &C; uint64_t cap = c->cap + 64 + c->maxmsg + c->es; uint8_t* buf = malloc(cap);
    uint64_t pos = 0, lastavail = 0; unsigned spins = 0;
    pthread_barrier_wait(&bar);
    while (pos < c->total) {
        bool ok = false;
        if (c->kind <= 1) {
            uint64_t prod0 = __atomic_load_n(&c->produced, __ATOMIC_ACQUIRE);
            uint64_t av = c->kind ? ring_buf_available_read(c->b) : RingBuffer_available_read(c->a);
            VP_CHECK(av <= c->cap, "spsc.avail", "readable %llu exceeds capacity %llu", (unsigned long long)av, (unsigned long long)c->cap);
            VP_CHECK(av >= lastavail, "spsc.avail-shrank", "readable shrank %llu -> %llu without a read", (unsigned long long)lastavail, (unsigned long long)av);
            VP_CHECK(prod0 <= pos || av >= prod0 - pos, "spsc.avail-lost", "accepted %llu bytes, taken %llu, but only %llu readable", (unsigned long long)prod0, (unsigned long long)pos, (unsigned long long)av);
            uint64_t n = 1 + vp_rng_below(&c->rc, c->cap + 2); if (!bulk && vp_rng_below(&c->rc, 3)) n = 1 + n % 9;
            if (bulk && av && vp_rng_below(&c->rc, 4)) n = av; /* all there is: the largest copy */
            int how = (int)vp_rng_below(&c->rc, bulk ? 16 : 8);
            memset(buf, 0, n < cap ? n : cap);
            uint64_t r = how == 0 ? (c->kind ? ring_buf_peek(c->b, buf, n) : RingBuffer_peek(c->a, buf, (uint32_t)n))
                       : how == 1 ? (c->kind ? ring_buf_discard(c->b, n) : RingBuffer_discard(c->a, (uint32_t)n))
                                  : (c->kind ? ring_buf_read(c->b, buf, n) : RingBuffer_read(c->a, buf, (uint32_t)n));
            VP_CHECK(r <= n && (!c->kind || !r || r == n), "spsc.read-amount", "read(%llu) returned %llu", (unsigned long long)n, (unsigned long long)r);
            VP_CHECK(r >= (n < av ? n : c->kind ? 0 : av), "spsc.read-refused", "read(%llu) with %llu readable gave %llu", (unsigned long long)n, (unsigned long long)av, (unsigned long long)r);
            VP_CHECK(pos + r <= c->total, "spsc.phantom", "more bytes came out than went in");
            if (how != 1) for (uint64_t i = 0; i < r; i++)
                VP_CHECK(buf[i] == f(pos + i), "spsc.content", "kind %d stream byte %llu is %02x, expected %02x (read of %llu, capacity %llu)", c->kind, (unsigned long long)(pos + i), buf[i], f(pos + i), (unsigned long long)r, (unsigned long long)c->cap);
            if (how != 0) { pos += r; lastavail = av > r ? av - r : 0; } else lastavail = av;
            ok = r != 0; if (!ok) c->empty++;
        } else if (c->kind == 2) {
            uint32_t want = mlen(pos);
            uint64_t prod0 = __atomic_load_n(&c->produced, __ATOMIC_ACQUIRE);
            uint32_t nx = msg_queue_next_msg_size(c->q);
            VP_CHECK(nx == 0 || nx == want, "spsc.next-size", "next size %u, expected %u (message %llu)", nx, want, (unsigned long long)pos);
            VP_CHECK(nx || prod0 <= pos, "spsc.next-size-lost", "%llu pushed, %llu popped but next size is 0", (unsigned long long)prod0, (unsigned long long)pos);
            uint32_t bs = vp_rng_below(&c->rc, 5) ? want + (uint32_t)vp_rng_below(&c->rc, 9) : (uint32_t)vp_rng_below(&c->rc, want + 1), bs0 = bs;
            memset(buf, 0xEE, want + 32);
            msg_q_code_e e = msg_queue_pop(c->q, buf, &bs);
            switch (e) {
            case MSG_Q_CODE_SUCCESS:
                VP_CHECK(bs0 >= want, "spsc.pop-overflow", "message of %u popped into %u bytes", want, bs0);
                for (uint32_t i = 0; i < want; i++)
                    VP_CHECK(buf[i] == mbyte(pos, i), "spsc.msg-content", "message %llu byte %u/%u wrong", (unsigned long long)pos, i, want);
                VP_CHECK(buf[want] == 0xEE, "spsc.msg-overrun", "pop wrote past the message");
                pos++; ok = true; break;
            case MSG_Q_CODE_EMPTY: VP_CHECK(prod0 <= pos, "spsc.pop-lost", "empty although %llu pushed, %llu popped", (unsigned long long)prod0, (unsigned long long)pos); c->empty++; break;
            case MSG_Q_CODE_AGAIN: VP_CHECK(prod0 <= pos, "spsc.pop-again", "'again' although the message was fully pushed"); c->again++; break;
            case MSG_Q_CODE_BUF_NOT_ENOUGH:
                VP_CHECK(bs0 < want && bs == want, "spsc.pop-size", "reports size %u for message of %u (buffer %u)", bs, want, bs0); c->small++; ok = true; break;
            default: vp_fail("spsc.pop-status", "pop status %d", e);
            }
            VP_CHECK(pos <= c->total, "spsc.phantom", "more messages out than in");
        } else {
            uint64_t prod0 = __atomic_load_n(&c->produced, __ATOMIC_ACQUIRE);
            uint32_t av = fixed_msg_queue_available_pop_amount(c->fq);
            VP_CHECK(av <= c->cap + 1, "spsc.avail", "pop amount %u exceeds capacity %llu", av, (unsigned long long)c->cap);
            VP_CHECK(prod0 <= pos || av >= prod0 - pos, "spsc.avail-lost", "%llu pushed %llu popped, %u available", (unsigned long long)prod0, (unsigned long long)pos, av);
            memset(buf, 0xEE, c->es + 8);
            ok = fixed_msg_queue_pop(c->fq, buf);
            VP_CHECK(ok || !av, "spsc.pop-refused", "pop refused with %u available", av);
            if (ok) {
                for (uint64_t i = 0; i < c->es; i++) VP_CHECK(buf[i] == mbyte(pos, (uint32_t)i), "spsc.msg-content", "message %llu byte %llu/%llu wrong", (unsigned long long)pos, (unsigned long long)i, (unsigned long long)c->es);
                VP_CHECK(buf[c->es] == 0xEE, "spsc.msg-overrun", "pop wrote past the message");
                pos++;
            } else c->empty++;
        }
        __atomic_store_n(&c->consumed, pos, __ATOMIC_RELEASE);
        c->seen_c = vp_mix(c->seen_c, ok);
        if (ok) { spins = 0; idle(&c->rc, c->style_c); } else if (++spins > 50) { sched_yield(); if (spins > 3000) { struct timespec ts = {0, 20000}; nanosleep(&ts, 0); } }
    }
    free(buf); return NULL;
}
/* bring the running 32-bit positions close to 2^32 by real transfers, so that the concurrent run passes it */
static void advance(ctx_t* c) {
    static uint8_t big[70000]; uint64_t at = 0, d, aim; uint32_t n; d = c->kind == 3 ? 1 + vp_below(20 * c->es) : 1 + vp_below(3000); aim = (1ull << 32) - d;
    for (uint64_t k = 0; at < aim; k++) { uint64_t want = aim - at;
        if (c->kind == 0) { n = (uint32_t)(want < c->cap ? want : c->cap); VP_CHECK(RingBuffer_write(c->a, big, n) == n && RingBuffer_discard(c->a, n) == n, "spsc.advance", "a transfer of %u bytes through an empty ring of %llu", n, (unsigned long long)c->cap); at += n; }
        else if (c->kind == 2) { uint64_t room = msg_queue_available_push_bytes(c->q); n = (uint32_t)(room - 64); if (n > want) { if (want < 70) break; n = (uint32_t)want - 64; } VP_CHECK(msg_queue_push(c->q, big, n) == MSG_Q_CODE_SUCCESS, "spsc.advance", "push of %u", n); at += room - msg_queue_available_push_bytes(c->q); uint32_t m = sizeof big; VP_CHECK(msg_queue_pop(c->q, big, &m) == MSG_Q_CODE_SUCCESS && m == n, "spsc.advance", "pop of %u", n); }
        else { VP_CHECK(fixed_msg_queue_push(c->fq, big) && fixed_msg_queue_pop(c->fq, big), "spsc.advance", "push and pop"); at += c->es; }
        if (!(k & 0xff)) vp_beat(); }
    vp_count("positions_advanced", 1);
}
static void run_kind(int kind) {
    memset(&C, 0, sizeof C); ctx_t* c = &C; c->kind = kind; salt = vp_rand();
    uint64_t sz = vp_chance(1, 2) ? 4 + vp_below(60) : 32 + vp_below(vp_chance(1, 3) ? 5000 : 500);
    c->style_p = (int)vp_below(3); c->style_c = (int)vp_below(3);
    vp_rng_init(&c->rp, vp_rand(), 1); vp_rng_init(&c->rc, vp_rand(), 2);
    bool noisy = vpc_set != NULL && vp_chance(3, 4);
    unsigned noise = noisy ? 3 + (unsigned)vp_below(40) : 0;
    uint64_t budget = noisy ? 500 + vp_below(1500) : 4000 + vp_below(30000);
    if (bulk) { sz = vp_chance(1, 2) ? 4200 + vp_below(30000) : 30000 + vp_below(300000); budget = sz * (2 + vp_below(6)); }
    if (cross) { sz = 65536; budget = 4000; }
    c->es = 1; c->maxmsg = 1;
    switch (kind) {
    case 0: c->a = RingBuffer_create((uint32_t)sz); c->cap = RingBuffer_real_capacity(c->a); c->total = budget * 4; break;
    case 1: c->b = ring_buf_create((size_t)sz); c->cap = sz - 1; c->total = budget * 4; break;
    case 2: sz += 60; c->q = msg_queue_create((uint32_t)sz); c->cap = msg_queue_available_push_bytes(c->q);
        c->maxmsg = 1 + vp_below(c->cap - 8); if (!bulk && c->maxmsg > 300) c->maxmsg = 300; c->total = bulk ? 20 + vp_below(200) : budget; break;
    default: c->es = cross ? vp_between(12000, 16384) : bulk ? (vp_chance(1, 2) ? 8 : 1000 + vp_below(70000)) : vp_chance(1, 2) ? 1 + vp_below(64) : 8;
        c->fq = fixed_msg_queue_create((uint32_t)c->es, cross ? 4 : (uint32_t)(60 / c->es + 3 + vp_below(40)));
        c->cap = fixed_msg_queue_available_push_amount(c->fq); c->total = budget;
        if (cross) c->total = 300; else if (bulk && c->es > 8) c->total = 100 + vp_below(400); else if (bulk) c->total = 20000;
        if (!c->cap) { fixed_msg_queue_destroy(&c->fq); return; }
        break;
    }
    if (cross) advance(c);
    if (vpc_set) vpc_set(vp_rand(), noise);
    vp_trace("kind=%d cap=%llu es=%llu maxmsg=%llu total=%llu styles=%d/%d noise=%u", kind, (unsigned long long)c->cap, (unsigned long long)c->es, (unsigned long long)c->maxmsg, (unsigned long long)c->total, c->style_p, c->style_c, noise);
    pthread_barrier_init(&bar, 0, 2);
    pthread_t p, q; pthread_create(&p, 0, producer, 0); pthread_create(&q, 0, consumer, 0);
    pthread_join(p, 0); pthread_join(q, 0);
    if (vpc_set) vpc_set(1, 0);
    pthread_barrier_destroy(&bar);
    uint64_t left = kind == 0 ? RingBuffer_available_read(c->a) : kind == 1 ? ring_buf_available_read(c->b) : kind == 2 ? msg_queue_available_pop_bytes(c->q) : fixed_msg_queue_available_pop_amount(c->fq);
    VP_CHECK(left == 0, "spsc.phantom", "%llu left over after everything accepted was taken", (unsigned long long)left);
    RingBuffer_destroy(&c->a); ring_buf_destroy(&c->b); if (c->q) msg_queue_destroy(&c->q); fixed_msg_queue_destroy(&c->fq);
    vp_count(kind == 0 ? "RingBuffer_bytes" : kind == 1 ? "ring_buf_bytes" : kind == 2 ? "variable_messages" : "fixed_messages", c->total);
    vp_count("met_full", c->full); vp_count("met_empty", c->empty); vp_count("met_half_written", c->again); vp_count("met_small_buffer", c->small);
    vp_seen(vp_mix(c->seen_p, 1)); vp_seen(vp_mix(c->seen_c, 2)); /* distinct ok/blocked patterns per side */
    vp_case_mix(c->seen_p); vp_case_mix(c->seen_c);
    if (c->full && c->empty) vp_nontrivial();
    if (vp_want_sample()) vp_sample("kind %d capacity %llu: %llu transferred; producer blocked %llu times, consumer %llu, half-written seen %llu, noise %u%%",
        kind, (unsigned long long)c->cap, (unsigned long long)c->total, (unsigned long long)c->full, (unsigned long long)c->empty, (unsigned long long)c->again, noise);
}
static void mode_all(void) { run_kind((int)(vp_case & 3)); }
static void mode_bulk(void) { bulk = true; run_kind((int)(vp_case & 3)); vp_count("bulk_runs", 1); }
static void mode_cross(void) { static const int k[] = { 0, 2, 3 }; cross = true; run_kind(k[vp_case % 3]); cross = false; }
const vp_mode_t vp_modes[] = {{"cross", mode_cross}, {"spsc", mode_all}, {"bulk", mode_bulk}, {0}};
