/* C11: tracking allocator. */
#include "vp.h"
#include <malloc.h>
#include <signal.h>
#include <sys/wait.h>
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
void vps_set(uint64_t seed, unsigned intensity) __attribute__((weak));
#define MAXB 400
typedef struct { uint8_t* p; size_t n, rep; uint64_t pat; int line; const char* file; const char* func; bool seen; } blk_t;
static blk_t b[MAXB]; static int nb; static bool tracked;
static uint8_t pb(uint64_t s, size_t i) { uint64_t x = (s + i * 0x9E3779B97F4A7C15ull) * 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 37); }
static void fill(uint8_t* p, size_t n, uint64_t s) { for (size_t i = 0; i < n; i++) p[i] = pb(s, i); }
static void intact(const blk_t* x, size_t n, const char* when) { for (size_t i = 0; i < n; i++) VP_CHECK(x->p[i] == pb(x->pat, i), "alloc.content", "%s: byte %zu of a live block of %zu changed", when, i, x->n); }
static const char* files[] = { NULL, "a.c", "/some/where/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/path/file.c", "",
    "0123456789012345678901234567890123456789012345678901234567890/x.c", "/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123/x.c", "/home/user/project/src/module/part/x.c" };
static const char* funcs[] = { NULL, "fn", "a_function_with_a_rather_long_name_indeed_it_is", "" };
static size_t rep_n;
static void report(void* p, size_t n, char* file, char* func, int line, void* ud) {
    VP_CHECK(ud == &rep_n, "track.report", "report got foreign user data");
    for (int i = 0; i < nb; i++) if (b[i].p == p) {
        VP_CHECK(!b[i].seen, "track.report", "a block reported twice"); b[i].seen = true; rep_n++;
        VP_CHECK(n == b[i].rep, "track.report", "block of %zu bytes reported with %zu", b[i].rep, n);
        VP_CHECK(line == b[i].line, "track.report", "line %d reported, allocated at %d", line, b[i].line);
        size_t fl = b[i].file ? strlen(b[i].file) : 0, ul = b[i].func ? strlen(b[i].func) : 0;
        VP_CHECK(strlen(file) <= fl && (strlen(file) == fl || (fl > 100 && strlen(file) >= 100)) && !strncmp(file, b[i].file ? b[i].file : "", strlen(file)), "track.report", "file '%s' reported for '%s'", file, b[i].file ? b[i].file : "");
        VP_CHECK(strlen(func) <= ul && (strlen(func) == ul || (ul > 28 && strlen(func) >= 28)) && !strncmp(func, b[i].func ? b[i].func : "", strlen(func)), "track.report", "function '%s' reported for '%s'", func, b[i].func ? b[i].func : "");
        return; }
    vp_fail("track.report", "reported a block of %zu bytes that is not outstanding", n);
}
static void account(const char* op) {
    if (!tracked) { VP_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "track.off", "tracker reports blocks while off"); return; }
    for (int i = 0; i < nb; i++) b[i].seen = false; rep_n = 0; size_t sum = 0; for (int i = 0; i < nb; i++) sum += b[i].rep;
    size_t got = allocation_tracker_expect_no_allocations(report, &rep_n);
    VP_CHECK(got == sum, "track.bytes", "after %s: %zu bytes reported outstanding, %zu are", op, got, sum);
    VP_CHECK(rep_n == (size_t)nb, "track.blocks", "after %s: %zu blocks reported outstanding, %d are", op, rep_n, nb);
    vp_count("accountings", 1);
}
static void disjoint(uint8_t* p, size_t n) { for (int i = 0; i < nb; i++) VP_CHECK(p + n <= b[i].p || b[i].p + b[i].n <= p, "alloc.overlap", "new block overlaps a live one"); }
static void add(uint8_t* p, size_t n, size_t rep, const char* f, const char* u, int line) {
    VP_CHECK(p, "alloc.null", "allocation of %zu failed", n); disjoint(p, n);
    b[nb] = (blk_t){ p, n, rep, vp_rand(), line, f, u, false };
    if (tracked) { size_t s = allocation_tracker_ptr_size(99, p); VP_CHECK(s == rep, "track.size", "size %zu recorded for a block of %zu", s, rep); }
    fill(p, n, b[nb].pat); nb++;
}
static void m_history(void) {
    nb = 0; tracked = vp_chance(3, 5); if (tracked) { allocation_tracker_init(); if (vp_chance(1, 4)) allocation_tracker_init(); }
    int ops = (int)vp_between(10, 200); uint64_t h = tracked; int re = 0;
    vp_trace("tracked %d", tracked);
    for (int o = 0; o < ops; o++) {
        unsigned w = (unsigned)vp_below(100); const char* op; size_t n = vp_chance(1, 10) ? 0 : vp_chance(1, 8) ? (size_t)vp_between(1000, 20000) : (size_t)vp_between(1, 200);
        bool tr = vp_chance(1, 2); const char* f = tr ? files[vp_below(sizeof files / sizeof files[0])] : NULL; const char* u = tr ? funcs[vp_below(4)] : NULL; int line = tr ? (int)vp_below(5000) : -1;
        if (nb >= MAXB - 2) w = 90;
        if (w < 20) { op = "malloc"; vp_trace("malloc %zu", n); add(tr ? lcu_malloc_trace(n, f, u, line) : lcu_malloc(n), n, n, f, u, line); }
        else if (w < 38) { op = "calloc"; size_t c = vp_between(1, 9), s = n / c; vp_trace("calloc %zu x %zu", c, s); uint8_t* p = tr ? lcu_calloc_trace(c, s, f, u, line) : lcu_calloc(c, s); VP_CHECK(p, "alloc.null", "calloc failed"); for (size_t i = 0; i < c * s; i++) VP_CHECK(!p[i], "alloc.zero", "byte %zu of a zeroed block is %d", i, p[i]); add(p, c * s, c * s, f, u, line); }
        else if (w < 48) { op = "strdup"; char* s = malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = (char)vp_between(1, 255); s[n] = 0; vp_trace("strdup %zu", n); uint8_t* p = (uint8_t*)(tr ? lcu_strdup_trace(s, f, u, line) : lcu_strdup(s)); VP_CHECK(p && !memcmp(p, s, n + 1), "alloc.dup", "strdup differs"); add(p, n + 1, n + 1, f, u, line); free(s); }
        else if (w < 58) { op = "strndup"; size_t lim = vp_below(n + 20); size_t take = lim < n ? lim : n; char* s = malloc(lim <= n ? (lim ? lim : 1) : n + 1); for (size_t i = 0; i < take; i++) s[i] = (char)vp_between(1, 255); if (lim > n) s[n] = 0; vp_trace("strndup %zu/%zu", n, lim); /* need not be terminated within the limit */
            uint8_t* p = (uint8_t*)(tr ? lcu_strndup_trace(s, lim, f, u, line) : lcu_strndup(s, lim)); VP_CHECK(p && !memcmp(p, s, take) && !p[take], "alloc.dup", "strndup differs"); add(p, take + 1, take + 1, f, u, line); free(s); }
        else if (w < 74) { op = "realloc"; re++;
            if (!nb || vp_chance(1, 5)) { if (!n) n = 1; vp_trace("realloc NULL -> %zu", n); uint8_t* p = tr ? lcu_realloc_trace(NULL, n, f, u, line) : lcu_realloc(NULL, n); VP_CHECK(p, "alloc.null", "realloc failed"); size_t rep = tracked ? allocation_tracker_ptr_size(99, p) : n; VP_CHECK(rep >= n, "track.size", "realloc of %zu recorded with %zu", n, rep); add(p, n, rep, f, u, line); }
            else { int k = (int)vp_below((uint64_t)nb); blk_t old = b[k]; intact(&old, old.n, "before realloc"); vp_trace("realloc %zu -> %zu", old.n, n);
                if (!n) { VP_CHECK(!lcu_realloc(old.p, 0), "alloc.realloc", "realloc to 0 returned a block"); b[k] = b[--nb]; }
                else { b[k] = b[--nb]; uint8_t* p = tr ? lcu_realloc_trace(old.p, n, f, u, line) : lcu_realloc(old.p, n); VP_CHECK(p, "alloc.null", "realloc failed"); size_t keep = old.n < n ? old.n : n;
                    for (size_t i = 0; i < keep; i++) VP_CHECK(p[i] == pb(old.pat, i), "alloc.realloc", "byte %zu of %zu lost in reallocation to %zu", i, old.n, n);
                    size_t rep = tracked ? allocation_tracker_ptr_size(99, p) : n; VP_CHECK(rep >= n, "track.size", "realloc to %zu recorded with %zu", n, rep);
                    if (p == old.p) { f = old.file; u = old.func; line = old.line; } add(p, n, rep, f, u, line); } } }
        else if (w < 96 && nb) { op = "free"; int k = (int)vp_below((uint64_t)nb); vp_trace("free %zu", b[k].n); intact(&b[k], b[k].n, "at free"); if (vp_chance(1, 3)) { void* q = b[k].p; lcu_free_and_reset(&q); VP_CHECK(!q, "alloc.reset", "pointer not reset"); } else lcu_free(b[k].p); b[k] = b[--nb]; }
        else { op = "edge"; lcu_free(NULL); void* z = NULL; lcu_free_and_reset(&z); lcu_free_and_reset(NULL); volatile size_t huge = SIZE_MAX - vp_below(40); volatile size_t half = SIZE_MAX / 4 + 2 + vp_below(10);
            VP_CHECK(!lcu_malloc(huge) && !lcu_realloc(NULL, huge) && !lcu_calloc(half, 4 + vp_below(5) * 4) && !lcu_calloc(huge, 2), "alloc.overflow", "a request beyond the address space was served"); VP_CHECK(lcu_realloc(NULL, 0) == NULL, "alloc.realloc", "realloc(NULL, 0)"); vp_count("overflowing_requests", 1);
            if (nb) { blk_t* o = &b[vp_below((uint64_t)nb)]; VP_CHECK(!lcu_realloc(o->p, huge) && !lcu_realloc(o->p, (size_t)1 << 60), "alloc.overflow", "a reallocation beyond the address space was served"); intact(o, o->n, "after a refused reallocation"); if (tracked) VP_CHECK(allocation_tracker_ptr_size(99, o->p) == o->rep, "track.size", "refused reallocation changed the recorded size"); vp_count("refused_reallocations", 1); } }
        if (vp_chance(1, 4)) account(op); if (vp_chance(1, 8)) for (int i = 0; i < nb; i++) intact(&b[i], b[i].n, "in between");
        h = vp_mix(h, w * 512 + (unsigned)nb); vp_seen(vp_mix(w / 8, (uint64_t)nb));
    }
    account("history");
    while (nb) { nb--; intact(&b[nb], b[nb].n, "at the end"); lcu_free(b[nb].p); if (nb % 16 == 0) account("free"); }
    account("everything freed");
    if (tracked) { if (vp_chance(1, 4)) allocation_tracker_reset(); allocation_tracker_uninit(); if (vp_chance(1, 4)) allocation_tracker_uninit(); }
    vp_count("operations", (uint64_t)ops); vp_count(tracked ? "tracked_cases" : "untracked_cases", 1); vp_case_mix(h); if (re) vp_nontrivial();
    if (vp_want_sample()) vp_sample("%d operations, %d reallocations, tracking %s", ops, re, tracked ? "on" : "off");
}
/* misuse must be noticed at release: each in a child of its own */
typedef struct { int kind; size_t n; int off; uint8_t x; } mis_t;
static void misuse(void* a) {
    mis_t* m = a; struct { char pad[64]; } st; (void)st;
    allocation_tracker_init();
    uint8_t* other = lcu_malloc(24); uint8_t* p = m->kind == 5 ? (uint8_t*)lcu_strdup("some text here") : lcu_malloc(m->n);
    volatile uint8_t* v = p; size_t n = m->kind == 5 ? 15 : m->n;
    switch (m->kind) {
    case 0: case 5: v[n + (size_t)m->off] ^= m->x; lcu_free(p); break;             /* just behind */
    case 1: v[-1 - m->off] ^= m->x; lcu_free(p); break;                            /* just before */
    case 2: lcu_free(p); lcu_free(p); break;                                       /* twice */
    case 3: lcu_free((char*)&st + 16); break;                                      /* not its own */
    case 4: lcu_free(p + 1 + (size_t)m->off); break;                               /* inside */
    case 6: v[n] ^= m->x; { uint8_t* q = lcu_realloc(p, n + 5000); (void)q; } break; /* released by reallocation */
    case 7: lcu_free(p); lcu_free(other); { uint8_t* q = malloc(n); lcu_free(q); } break; /* from elsewhere */
    case 8: allocation_tracker_notify_free(7, p); break;                           /* released by another allocator */
    case 9: allocation_tracker_ptr_size(7, p); break;
    default: { lcu_free(p); uint8_t* q = lcu_malloc(m->n); lcu_free(q); lcu_free(other); _exit(allocation_tracker_expect_no_allocations(NULL, NULL) ? 9 : 7); } /* correct use */
    }
    _exit(3);
}
static void m_misuse(void) {
    mis_t m = { (int)vp_below(11), (size_t)vp_between(1, 100), (int)vp_below(8), (uint8_t)vp_between(1, 255) };
    vp_trace("misuse %d size %zu offset %d", m.kind, m.n, m.off);
    int s = vp_fork(misuse, &m);
    static const char* names[] = { "write-behind", "write-before", "double-free", "stack-free", "inner-free", "write-behind-strdup", "write-behind-realloc", "foreign-free", "foreign-allocator", "foreign-size", "correct" };
    if (m.kind == 10) VP_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 7, "track.false-accusation", "correct use ended with status %x", s);
    else VP_CHECK(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT, "track.undetected", "%s (size %zu, offset %d) went on undetected, status %x", names[m.kind], m.n, m.off, s);
    char c[64]; snprintf(c, sizeof c, "misuse_%s", names[m.kind]); vp_count(c, 1);
    vp_case_mix(vp_mix((uint64_t)m.kind * 1000 + m.n, (uint64_t)m.off)); vp_nontrivial(); vp_seen((uint64_t)m.kind * 64 + (uint64_t)m.off);
}
/* many threads, one of them asking for the accounts */
typedef struct { uint64_t seed; int ops; void* live[32]; size_t n[32]; } thr_t;
static void* volatile xchg[16]; static volatile bool stop_rep;
static uint8_t* held[20]; static size_t held_n[20]; static int held_seen[20];
static void* worker(void* a) {
    thr_t* t = a; vp_rng_t r; vp_rng_init(&r, t->seed, 3);
    for (int i = 0; i < t->ops; i++) {
        int k = (int)vp_rng_below(&r, 32);
        if (!t->live[k]) { size_t n = 1 + vp_rng_below(&r, 100); void* p = vp_rng_below(&r, 2) ? lcu_malloc(n) : lcu_calloc(1, n); VP_CHECK(p, "alloc.null", "failed"); memset(p, (int)(n & 0xff), n); t->live[k] = p; t->n[k] = n; }
        else if (vp_rng_below(&r, 6) == 0) { size_t n = 1 + vp_rng_below(&r, 300); uint8_t* p = lcu_realloc(t->live[k], n); for (size_t j = 0; j < n && j < t->n[k]; j++) VP_CHECK(p[j] == (uint8_t)t->n[k], "alloc.realloc", "content lost in concurrent reallocation"); memset(p, (int)(n & 0xff), n); t->live[k] = p; t->n[k] = n; }
        else { uint8_t* p = t->live[k]; for (size_t j = 0; j < t->n[k]; j++) VP_CHECK(p[j] == (uint8_t)t->n[k], "alloc.content", "content changed in concurrent use");
            if (vp_rng_below(&r, 3) == 0) { void* o = __atomic_exchange_n(&xchg[vp_rng_below(&r, 16)], (void*)p, __ATOMIC_ACQ_REL); if (o) lcu_free(o); } else lcu_free(p); t->live[k] = NULL; }
    }
    return 0;
}
static uint64_t reports, reported;
static void rep2(void* p, size_t n, char* f, char* u, int l, void* ud) { (void)f; (void)u; (void)l; (void)ud; reported++;
    VP_CHECK(p, "track.report", "a half-recorded block was reported");
    for (int i = 0; i < 20; i++) if (held[i] == p) { held_seen[i]++; VP_CHECK(n == held_n[i], "track.report", "block of %zu reported with %zu", held_n[i], n); } }
static void* reporter(void* a) { (void)a; while (!stop_rep) { memset(held_seen, 0, sizeof held_seen); size_t s = allocation_tracker_expect_no_allocations(rep2, NULL), least = 0; for (int i = 0; i < 20; i++) { least += held_n[i]; VP_CHECK(held_seen[i] == 1, "track.report", "an outstanding block was reported %d times while others allocated", held_seen[i]); } VP_CHECK(s >= least, "track.bytes", "%zu bytes reported, at least %zu outstanding", s, least); reports++; struct timespec ts = {0, 100000}; nanosleep(&ts, 0); } return 0; }
static void m_threads(void) {
    if (vps_set) vps_set(vp_rand(), (unsigned)vp_between(2, 20));
    allocation_tracker_init(); for (int i = 0; i < 20; i++) { held_n[i] = vp_between(1, 60); held[i] = lcu_malloc(held_n[i]); }
    memset((void*)xchg, 0, sizeof xchg); stop_rep = false; reports = reported = 0;
    int T = (int)vp_between(2, 6); thr_t* t = calloc(6, sizeof *t); pthread_t th[6], rt; pthread_create(&rt, 0, reporter, 0);
    for (int i = 0; i < T; i++) { t[i].seed = vp_rand(); t[i].ops = (int)vp_between(200, 3000); pthread_create(&th[i], 0, worker, &t[i]); }
    for (int i = 0; i < T; i++) pthread_join(th[i], 0);
    stop_rep = true; pthread_join(rt, 0);
    size_t sum = 0; nb = 0; for (int i = 0; i < 20; i++) { sum += held_n[i]; }
    for (int i = 0; i < 16; i++) if (xchg[i]) sum += allocation_tracker_ptr_size(99, xchg[i]);
    for (int i = 0; i < T; i++) for (int k = 0; k < 32; k++) if (t[i].live[k]) sum += allocation_tracker_ptr_size(99, t[i].live[k]);
    size_t got = allocation_tracker_expect_no_allocations(rep2, NULL); VP_CHECK(got == sum, "track.bytes", "after concurrent use %zu bytes reported outstanding, %zu are", got, sum);
    uint64_t h = sum;
    for (int i = 0; i < 20; i++) lcu_free(held[i]); for (int i = 0; i < 16; i++) lcu_free(xchg[i]); for (int i = 0; i < T; i++) for (int k = 0; k < 32; k++) lcu_free(t[i].live[k]);
    got = allocation_tracker_expect_no_allocations(rep2, NULL); VP_CHECK(got == 0, "track.bytes", "everything freed but %zu bytes reported", got);
    allocation_tracker_uninit(); free(t); memset(held, 0, sizeof held);
    vp_count("concurrent_reports", reports); vp_count("blocks_reported", reported); vp_case_mix(h); if (reports > 2) vp_nontrivial();
}
/* more than 2^16 tracked blocks at once, and blocks larger than 2^32 bytes */
static uint8_t** sc_p; static uint32_t* sc_n; static size_t sc_cnt, sc_seen, sc_sum;
static void sc_report(void* p, size_t n, char* file, char* func, int line, void* ud) { VP_CHECK(ud == &sc_cnt && (size_t)line < sc_cnt && sc_p[line] == p && sc_n[line] == n, "track.report", "block %p of %zu bytes at line %d reported, not outstanding like that (%p, %u)", p, n, line, (void*)((size_t)line < sc_cnt ? sc_p[line] : NULL), (size_t)line < sc_cnt ? sc_n[line] : 0); VP_CHECK(!strcmp(file, "x.c") && !strcmp(func, "f"), "track.report", "'%s' '%s'", file, func); VP_CHECK(n, "track.report", "no size"); sc_seen++; sc_sum += n; }
static void m_scale(void) {
    size_t N = 66000 + vp_below(70000); sc_p = calloc(N, sizeof *sc_p); sc_n = calloc(N, sizeof *sc_n); size_t sum = 0, live = 0; allocation_tracker_init(); sc_cnt = N;
    for (size_t i = 0; i < N; i++) { sc_n[i] = 1 + (uint32_t)vp_below(60); sc_p[i] = lcu_malloc_trace(sc_n[i], "x.c", "f", (int)i); VP_CHECK(sc_p[i], "alloc.null", "allocation %zu failed", i); memset(sc_p[i], (int)i, sc_n[i]); sum += sc_n[i]; live++; if (!(i & 0xfff)) vp_beat(); }
    sc_seen = sc_sum = 0; size_t got = allocation_tracker_expect_no_allocations(sc_report, &sc_cnt); VP_CHECK(got == sum && sc_seen == live && sc_sum == sum, "track.bytes", "%zu bytes in %zu blocks reported, %zu in %zu outstanding", got, sc_seen, sum, live); vp_beat();
    for (size_t i = 0; i < N; i++) { if (i % 3 == 1) continue; for (uint32_t k = 0; k < sc_n[i]; k++) VP_CHECK(sc_p[i][k] == (uint8_t)i, "alloc.content", "block %zu changed", i); if (i % 3 == 0) { lcu_free(sc_p[i]); sum -= sc_n[i]; live--; sc_p[i] = NULL; sc_n[i] = 0; } else { uint32_t m = 1 + (uint32_t)vp_below(90); uint8_t* p = lcu_realloc_trace(sc_p[i], m, "x.c", "f", (int)i); VP_CHECK(p, "alloc.null", "realloc failed"); size_t rec = allocation_tracker_ptr_size(99, p); VP_CHECK(rec >= m, "track.size", "realloc to %u recorded with %zu", m, rec); sum += rec; sum -= sc_n[i]; for (uint32_t k = 0; k < m && k < sc_n[i]; k++) VP_CHECK(p[k] == (uint8_t)i, "alloc.realloc", "content lost"); memset(p, (int)i, rec); sc_p[i] = p; sc_n[i] = (uint32_t)rec; } if (!(i & 0xfff)) vp_beat(); }
    sc_seen = sc_sum = 0; got = allocation_tracker_expect_no_allocations(sc_report, &sc_cnt); VP_CHECK(got == sum && sc_seen == live && sc_sum == sum, "track.bytes", "%zu bytes in %zu blocks reported, %zu in %zu outstanding", got, sc_seen, sum, live); vp_beat();
    /* large blocks, recycled: zeroed by calloc, moved whole by realloc; limits beyond any text */
    for (int k = 0; k < 12; k++) { size_t c = 1 + vp_below(3000), z = 1 + vp_below(3000); if (vp_chance(1, 2)) { c = 1; z = 100000 + vp_below(400000); } uint8_t* q = lcu_malloc(c * z); VP_CHECK(q, "alloc.null", "malloc"); memset(q, 0xa7, c * z); lcu_free(q); q = lcu_calloc(c, z); VP_CHECK(q, "alloc.null", "calloc"); for (size_t i = 0; i < c * z; i++) if (q[i]) vp_fail("alloc.calloc", "byte %zu of %zu x %zu is %02x", i, c, z, q[i]);
        for (size_t i = 0; i < c * z; i++) q[i] = (uint8_t)(i * 31 >> 3); size_t nz = c * z + 1 + vp_below(2000000); q = lcu_realloc(q, nz); VP_CHECK(q, "alloc.null", "realloc"); for (size_t i = 0; i < c * z; i++) if (q[i] != (uint8_t)(i * 31 >> 3)) vp_fail("alloc.realloc", "byte %zu of %zu lost growing to %zu", i, c * z, nz); memset(q, 1, nz); lcu_free(q); vp_beat(); }
    { size_t l = 1 + vp_below(200000); char* t = malloc(l + 1); memset(t, 'w', l); t[l] = 0; for (int k = 18; k <= 64; k++) { size_t lim = k == 64 ? SIZE_MAX : (size_t)1 << k; char* d = lcu_strndup(t, lim); VP_CHECK(d && !strcmp(d, t), "alloc.dup", "strndup of %zu characters with limit 2^%d kept %zu", l, k, d ? strlen(d) : 0); lcu_free(d); } char* d = lcu_strdup(t); VP_CHECK(d && !strcmp(d, t), "alloc.dup", "strdup of %zu characters", l); lcu_free(d); free(t); }
    size_t big = ((size_t)1 << 32) + vp_below(5000); mallopt(M_PERTURB, 0); uint8_t* h = lcu_malloc_trace(big, "x.c", "f", 0); mallopt(M_PERTURB, 165); if (h) { size_t s = allocation_tracker_ptr_size(99, h); VP_CHECK(s == big, "track.size", "size %zu recorded for a block of %zu", s, big); VP_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == sum + big, "track.bytes", "%zu bytes reported, %zu outstanding", allocation_tracker_expect_no_allocations(NULL, NULL), sum + big); h[0] = h[big - 1] = 1; mallopt(M_PERTURB, 0); lcu_free(h); mallopt(M_PERTURB, 165); vp_count("huge_blocks", 1); }
    for (size_t i = 0; i < N; i++) { lcu_free(sc_p[i]); if (!(i & 0xfff)) vp_beat(); } VP_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "track.zero", "bytes outstanding after everything was freed");
    allocation_tracker_uninit(); free(sc_p); free(sc_n); vp_count("blocks_at_once", N); vp_case_mix(vp_mix(N, sum)); vp_nontrivial();
}
const vp_mode_t vp_modes[] = { {"history", m_history}, {"misuse", m_misuse}, {"threads", m_threads}, {"scale", m_scale}, {0} };
