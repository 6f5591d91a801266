/* C01: both byte rings against a stream model: byte at stream position p is f(p). */
#include "vp.h"
#include <sys/mman.h>
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"

static uint64_t salt;
static inline uint8_t f(uint64_t p) { uint64_t x = (p + salt) * 0x9E3779B97F4A7C15ull; return (uint8_t)(x >> 37); }
static void fill(uint8_t* b, uint64_t pos, size_t n) { for (size_t i = 0; i < n; i++) b[i] = f(pos + i); }

typedef struct {
    int kind; /* 0 RingBuffer, 1 ring_buf */
    ring_buffer_handle a; ring_handle b; void* mem; size_t memsz; uint64_t cap, in, out;
} ring_t;
static uint64_t av_r(ring_t* r) { return r->kind ? ring_buf_available_read(r->b) : RingBuffer_available_read(r->a); }
static uint64_t av_w(ring_t* r) { return r->kind ? ring_buf_available_write(r->b) : RingBuffer_available_write(r->a); }

static void check_state(ring_t* r, const char* after) {
    uint64_t rd = av_r(r), wr = av_w(r), lvl = r->in - r->out;
    VP_CHECK(rd == lvl, "ring.readable", "kind %d after %s: readable %llu, model %llu (cap %llu)", r->kind, after, (unsigned long long)rd, (unsigned long long)lvl, (unsigned long long)r->cap);
    VP_CHECK(wr == r->cap - lvl, "ring.writable", "kind %d after %s: writable %llu, model %llu", r->kind, after, (unsigned long long)wr, (unsigned long long)(r->cap - lvl));
    if (!r->kind) {
        VP_CHECK(RingBuffer_is_empty(r->a) == (lvl == 0), "ring.is_empty", "is_empty wrong at level %llu", (unsigned long long)lvl);
        VP_CHECK(RingBuffer_is_full(r->a) == (lvl == r->cap), "ring.is_full", "is_full wrong at level %llu cap %llu", (unsigned long long)lvl, (unsigned long long)r->cap);
        VP_CHECK(RingBuffer_real_capacity(r->a) == r->cap, "ring.capacity", "capacity changed");
        VP_CHECK((uint32_t)(RingBuffer_current_write_position(r->a) - RingBuffer_current_read_position(r->a)) == (uint32_t)lvl, "ring.positions", "after %s the positions are %u and %u, level %llu", after,
            RingBuffer_current_write_position(r->a), RingBuffer_current_read_position(r->a), (unsigned long long)lvl);
    }
}
static uint64_t expect_n(ring_t* r, uint64_t n, uint64_t room) { return r->kind ? (n <= room ? n : 0) : (n < room ? n : room); }
static uint64_t pick_len(ring_t* r, uint64_t room) {
    switch (vp_below(12)) {
    case 0: return 0;
    case 1: return room;
    case 2: return room + 1;
    case 3: return room ? room - 1 : 1;
    case 4: return r->cap;
    case 5: return r->cap + 1 + vp_below(5);
    case 6: return r->kind ? (vp_chance(1, 2) ? SIZE_MAX - vp_below(3) : (uint64_t)UINT32_MAX) : UINT32_MAX - vp_below(3);
    case 7: case 8: return 1 + vp_below(4);
    default: return vp_below(r->cap + 1);
    }
}
static void do_write(ring_t* r, uint64_t n) {
    uint64_t room = r->cap - (r->in - r->out), want = expect_n(r, n, room);
    size_t have = (size_t)(r->kind ? (n <= room ? n : 1) : (n < room ? n : room)); /* never more than may be touched */
    uint8_t* src = malloc(have ? have : 1); fill(src, r->in, have);
    vp_trace("write n=%llu level=%llu", (unsigned long long)n, (unsigned long long)(r->in - r->out));
    uint64_t got = r->kind ? ring_buf_write(r->b, src, (size_t)n) : RingBuffer_write(r->a, src, (uint32_t)n);
    VP_CHECK(got == want, "ring.write-amount", "kind %d write(%llu) with room %llu accepted %llu, expected %llu", r->kind, (unsigned long long)n, (unsigned long long)room, (unsigned long long)got, (unsigned long long)want);
    for (size_t i = 0; i < have; i++) if (src[i] != f(r->in + i)) vp_fail("ring.source-modified", "write changed the caller's buffer");
    free(src); r->in += got; check_state(r, "write");
    vp_count("bytes_in", got);
}
static void do_read(ring_t* r, uint64_t n, int how) { /* 0 read 1 peek 2 discard */
    uint64_t lvl = r->in - r->out, want = expect_n(r, n, lvl);
    size_t have = (size_t)(n < lvl ? n : lvl); if (r->kind && n > lvl) have = 1;
    uint8_t* dst = malloc(have ? have : 1); memset(dst, 0xA5, have ? have : 1);
    vp_trace("%s n=%llu level=%llu", how == 0 ? "read" : how == 1 ? "peek" : "discard", (unsigned long long)n, (unsigned long long)lvl);
    uint64_t got = how == 2 ? (r->kind ? ring_buf_discard(r->b, (size_t)n) : RingBuffer_discard(r->a, (uint32_t)n))
                 : how == 1 ? (r->kind ? ring_buf_peek(r->b, dst, (size_t)n) : RingBuffer_peek(r->a, dst, (uint32_t)n))
                            : (r->kind ? ring_buf_read(r->b, dst, (size_t)n) : RingBuffer_read(r->a, dst, (uint32_t)n));
    VP_CHECK(got == want, "ring.read-amount", "kind %d %d(%llu) with %llu readable gave %llu, expected %llu", r->kind, how, (unsigned long long)n, (unsigned long long)lvl, (unsigned long long)got, (unsigned long long)want);
    if (how != 2) for (size_t i = 0; i < got; i++)
        VP_CHECK(dst[i] == f(r->out + i), "ring.content", "kind %d byte %zu of %llu wrong (stream pos %llu cap %llu)", r->kind, i, (unsigned long long)got, (unsigned long long)(r->out + i), (unsigned long long)r->cap);
    free(dst); if (how != 1) r->out += got;
    check_state(r, "read");
    if (how == 0) vp_count("bytes_out", got);
}
static void mix_level(ring_t* r, int op) {
    uint64_t lvl = r->in - r->out, c = r->cap;
    vp_seen(vp_mix(vp_mix(c < 64 ? c : 64 + (uint64_t)__builtin_clzll(c), lvl * 16 / (c ? c : 1)), (uint64_t)(op * 2 + r->kind) * 1000 + (r->in % c) * 16 / c));
}
static void clear(ring_t* r) { vp_trace("clear"); if (r->kind) ring_buf_clear(r->b); else RingBuffer_clear(r->a); r->out = r->in; check_state(r, "clear"); }

static bool make(ring_t* r, int kind, uint64_t req, bool with_mem) {
    memset(r, 0, sizeof *r); r->kind = kind;
    vp_trace("create kind=%d req=%llu mem=%d", kind, (unsigned long long)req, with_mem);
    if (with_mem) {
        size_t sz = (size_t)req; r->mem = malloc(sz ? sz : 1); r->memsz = sz;
        memset(r->mem, 0xEE, sz);
        if (kind) r->b = ring_buf_create_with_mem(r->mem, sz); else r->a = RingBuffer_create_with_mem(r->mem, (uint32_t)sz);
    } else if (kind) r->b = ring_buf_create((size_t)req); else r->a = RingBuffer_create((uint32_t)req);
    if (!r->a && !r->b) {
        VP_CHECK(with_mem ? req < 64 : req < 3, "ring.create", "creation refused for size %llu", (unsigned long long)req);
        free(r->mem); r->mem = NULL; return false;
    }
    r->cap = av_w(r);
    if (!with_mem && kind) VP_CHECK(r->cap == req - 1, "ring.capacity", "ring of %llu holds %llu", (unsigned long long)req, (unsigned long long)r->cap);
    if (!with_mem && !kind) VP_CHECK(r->cap >= req && r->cap < 2 * req && !(r->cap & (r->cap - 1)), "ring.capacity", "RingBuffer %llu got capacity %llu", (unsigned long long)req, (unsigned long long)r->cap);
    if (with_mem) VP_CHECK(r->cap < req && r->cap >= 1 && (kind ? r->cap + 128 >= req : r->cap * 2 + 128 > req), "ring.capacity", "memory of %llu gives capacity %llu", (unsigned long long)req, (unsigned long long)r->cap);
    VP_CHECK(av_r(r) == 0, "ring.fresh", "fresh ring not empty");
    return true;
}
static void unmake(ring_t* r) {
    if (r->kind) { ring_buf_destroy(&r->b); VP_CHECK(!r->b, "ring.destroy", "handle not cleared"); ring_buf_destroy(&r->b); ring_buf_destroy(NULL); }
    else { RingBuffer_destroy(&r->a); VP_CHECK(!r->a, "ring.destroy", "handle not cleared"); RingBuffer_destroy(&r->a); RingBuffer_destroy(NULL); }
    free(r->mem); r->mem = NULL;
}
static void ops(ring_t* r, unsigned n) {
    bool wrapped = false, fullhit = false, partial = false; uint64_t in0 = r->in;
    unsigned bias = (unsigned)vp_below(3);
    for (unsigned i = 0; i < n; i++) {
        uint64_t lvl = r->in - r->out; int op = (int)vp_below(10 + bias);
        uint64_t start = r->in % (r->cap + (uint64_t)r->kind);
        if (op < 4) { uint64_t l = pick_len(r, r->cap - lvl); partial |= l > r->cap - lvl; do_write(r, l); mix_level(r, 0); }
        else if (op < 7) { uint64_t l = pick_len(r, lvl); partial |= l > lvl; do_read(r, l, 0); mix_level(r, 1); }
        else if (op < 8) { do_read(r, pick_len(r, lvl), 1); mix_level(r, 2); }
        else if (op < 9) { do_read(r, pick_len(r, lvl), 2); mix_level(r, 3); }
        else if (op < 10 && vp_chance(1, 6)) clear(r);
        else { do_write(r, 1 + vp_below(r->cap)); mix_level(r, 0); }
        if (r->in % (r->cap + (uint64_t)r->kind) < start) wrapped = true;
        if (r->in - r->out == r->cap) fullhit = true;
        vp_case_mix((uint64_t)op * 1000003 + (r->in - r->out));
    }
    /* drain completely: all bytes come out */
    while (r->in != r->out) do_read(r, r->kind ? 1 + vp_below(r->in - r->out) : 1 + vp_below(r->cap), 0);
    if (wrapped) vp_count("cases_wrapped", 1);
    if (fullhit) vp_count("cases_filled", 1);
    if (partial) vp_count("cases_overlong", 1);
    if (wrapped && r->in - in0 > 0) vp_nontrivial();
}
static void mode_fifo(void) {
    salt = vp_rand(); ring_t r;
    int kind = (int)(vp_case & 1); bool wm = vp_chance(1, 3);
    uint64_t req = vp_chance(3, 4) ? vp_below(80) : vp_chance(3, 4) ? vp_below(700) : vp_below(9000);
    if (vp_chance(1, 6)) req = 1ull << vp_below(13);
    if (wm && vp_chance(3, 4)) req += 24 + vp_below(24);
    if (vp_chance(1, 40)) req = vp_chance(1, 2) ? 1 + (1ull << (13 + vp_below(7))) - vp_below(3) : vp_below(200000);
    vp_case_mix(req * 4 + (uint64_t)kind * 2 + wm);
    if (vp_chance(1, 20)) {
        uint8_t b[4] = {1, 2, 3, 4};
        VP_CHECK(RingBuffer_write(NULL, b, 4) == 0 && RingBuffer_read(NULL, b, 4) == 0 && RingBuffer_peek(NULL, b, 4) == 0 && RingBuffer_discard(NULL, 4) == 0, "ring.null", "a missing ring transferred bytes");
        RingBuffer_clear(NULL); VP_CHECK(!RingBuffer_create_with_mem(NULL, 4096) && !ring_buf_create_with_mem(NULL, 4096), "ring.null", "ring made of no memory");
        VP_CHECK(!ring_buf_create(SIZE_MAX - vp_below(300)) && !RingBuffer_create(0x80000001u + (uint32_t)vp_below(0x7ffffffe)), "ring.create", "ring with a capacity beyond the address space made");
    }
    if (!make(&r, kind, req, wm)) { vp_count("creations_refused", 1); return; }
    ops(&r, 20 + (unsigned)vp_below(120));
    if (vp_want_sample()) vp_sample("kind=%s requested=%llu caller-memory=%d capacity=%llu, %llu bytes streamed through", kind ? "ring_buf" : "RingBuffer", (unsigned long long)req, wm, (unsigned long long)r.cap, (unsigned long long)r.in);
    unmake(&r);
}
/* every (start offset, transfer length) pair of a small ring, every op */
static void mode_exhaust(void) {
    salt = vp_case * 77; int kind = (int)(vp_case & 1); uint64_t req = 3 + vp_case / 2;
    ring_t r; if (!make(&r, kind, req, false)) return;
    uint64_t phys = r.cap + (uint64_t)kind;
    for (uint64_t start = 0; start < phys; start++)
        for (uint64_t lvl = 0; lvl <= r.cap; lvl++)
            for (uint64_t n = 1; n <= r.cap + 1; n++) {
                /* move the empty ring so that its read offset is `start`, level `lvl` */
                while (r.in != r.out) do_read(&r, r.in - r.out, 2);
                while (r.out % phys != start) { do_write(&r, 1); do_read(&r, 1, 2); }
                if (lvl) do_write(&r, lvl);
                int how = (int)((start + lvl + n) % 3);
                do_read(&r, n, 1);
                if (how == 0) do_write(&r, n); else do_read(&r, n, how == 1 ? 0 : 2);
                while (r.in != r.out) do_read(&r, r.kind ? 1 : 1 + n % 3, 0);
                vp_count("exhaustive_points", 1);
            }
    vp_case_mix(req * 2 + (uint64_t)kind); vp_nontrivial();
    unmake(&r);
}
/* cross the 32-bit position overflow with the real API (4 GiB through the ring) */
static void mode_overflow(void) {
    salt = vp_rand(); ring_t r;
    static const unsigned logs[] = {12, 16, 20, 8, 23, 14};
    uint64_t req = 1ull << logs[vp_case % 6];
    if (!make(&r, 0, req, vp_chance(1, 2) && req > 64)) return;
    uint64_t target = (1ull << 32) - 1 - vp_below(r.cap * 2);
    char* junk = calloc(1, r.cap);
    uint64_t n = 0;
    while (r.in + r.cap <= target) {
        if (RingBuffer_write(r.a, junk, (uint32_t)r.cap) != r.cap) vp_fail("ring.write-amount", "full-ring write refused on empty ring at position %llu", (unsigned long long)r.in);
        r.in += r.cap;
        if (RingBuffer_discard(r.a, (uint32_t)r.cap) != r.cap) vp_fail("ring.read-amount", "full-ring discard refused at %llu", (unsigned long long)r.out);
        r.out += r.cap;
        if (!(++n & 0xffff)) vp_beat();
    }
    free(junk);
    check_state(&r, "advance");
    uint64_t before = r.in;
    unsigned k = 0;
    while (r.in < (1ull << 32) + 3 * r.cap && k++ < 3000) {
        uint64_t lvl = r.in - r.out; int op = (int)vp_below(6);
        if (op < 3) do_write(&r, 1 + vp_below(r.cap)); else do_read(&r, lvl ? 1 + vp_below(lvl) : 1, op == 3 ? 1 : op == 4 ? 2 : 0);
        if (before < (1ull << 32) && r.in >= (1ull << 32)) { vp_count("overflow_crossed", 1); before = r.in; }
    }
    while (r.in != r.out) do_read(&r, r.cap, 0);
    vp_case_mix(req); vp_case_mix(target); vp_nontrivial();
    unmake(&r);
}
/* rings beyond 2 and 4 GiB. The stream repeats every 4097 pages, so that source and target are small files mapped many times over. */
#define PERIOD (4097ull * 4096)
static uint8_t* repeated(uint64_t bytes, int* fd) {
    *fd = memfd_create("c01", 0); if (*fd < 0 || ftruncate(*fd, (off_t)PERIOD)) vp_error("memfd");
    uint64_t n = bytes / PERIOD + 2; uint8_t* p = mmap(NULL, n * PERIOD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) vp_error("mmap");
    for (uint64_t i = 0; i < n; i++) if (mmap(p + i * PERIOD, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, *fd, 0) == MAP_FAILED) vp_error("mmap");
    return p;
}
static void m_scale(void) {
    salt = vp_rand(); ring_t r; int kind = (int)(vp_case & 1); uint64_t req = kind ? (1ull << 32) + 4096 * vp_below(5000) + vp_below(4096) : 0x80000000u; int fs, fd;
    if (!make(&r, kind, req, false)) vp_error("no memory for a ring of %llu bytes", (unsigned long long)req);
    uint8_t* src = repeated(r.cap, &fs), *dst = repeated(r.cap, &fd), *ref = malloc(PERIOD); for (uint64_t i = 0; i < PERIOD; i++) src[i] = ref[i] = f(i);
    for (int i = 0; i < 6; i++) {
        uint64_t n, lvl = r.in - r.out, room = r.cap - lvl; n = i == 0 ? vp_below(r.cap) : i == 1 || i == 4 ? room : vp_below(room + 1);
        vp_beat(); vp_trace("write %llu at level %llu", (unsigned long long)n, (unsigned long long)lvl);
        uint64_t got = kind ? ring_buf_write(r.b, src + r.in % PERIOD, n) : RingBuffer_write(r.a, src + r.in % PERIOD, (uint32_t)n); VP_CHECK(got == n, "ring.write-amount", "kind %d write(%llu) accepted %llu", kind, (unsigned long long)n, (unsigned long long)got);
        r.in += n; check_state(&r, "write"); lvl += n; vp_beat();
        if (lvl == r.cap) { VP_CHECK((kind ? ring_buf_write(r.b, src, 1) : RingBuffer_write(r.a, src, 1)) == 0, "ring.write-amount", "a full ring accepted a byte"); vp_count("cases_filled", 1); }
        uint64_t k = vp_chance(1, 2) ? lvl : vp_below(lvl + 1); int how = (int)vp_below(5); if (i == 0) how = 4; vp_trace("%s %llu of %llu", how == 4 ? "discard" : how == 3 ? "peek" : "read", (unsigned long long)k, (unsigned long long)lvl);
        for (uint64_t j = 0; j < PERIOD; j += 4096) dst[j] ^= 0x5a;
        if (how == 4) got = kind ? ring_buf_discard(r.b, k) : RingBuffer_discard(r.a, (uint32_t)k); else { uint8_t* d = dst + r.out % PERIOD;
            got = how == 3 ? (kind ? ring_buf_peek(r.b, d, k) : RingBuffer_peek(r.a, d, (uint32_t)k)) : (kind ? ring_buf_read(r.b, d, k) : RingBuffer_read(r.a, d, (uint32_t)k)); }
        VP_CHECK(got == k, "ring.read-amount", "kind %d took %llu of %llu", kind, (unsigned long long)got, (unsigned long long)k);
        if (how != 4) { uint64_t a = r.out % PERIOD, m = k < PERIOD ? k : PERIOD; for (uint64_t j = 0; j < m; j++) if (dst[(a + j) % PERIOD] != ref[(a + j) % PERIOD]) vp_fail("ring.content", "kind %d: byte %llu of %llu read from stream position %llu is wrong (cap %llu)", kind, (unsigned long long)j, (unsigned long long)k, (unsigned long long)r.out, (unsigned long long)r.cap); }
        if (how != 3) r.out += k; check_state(&r, "read"); vp_count("huge_transfers", 1); vp_case_mix(n ^ k);
    }
    munmap(src, (r.cap / PERIOD + 2) * PERIOD); munmap(dst, (r.cap / PERIOD + 2) * PERIOD); close(fs); close(fd); free(ref); vp_nontrivial(); unmake(&r);
}
const vp_mode_t vp_modes[] = {{"fifo", mode_fifo}, {"exhaust", mode_exhaust}, {"overflow", mode_overflow}, {"scale", m_scale}, {0}};
