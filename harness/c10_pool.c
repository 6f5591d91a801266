/* C10: fixed memory pool: no overlap, everything comes back. */
#include "vp.h"
#include "mem/mplite.h"
void vps_set(uint64_t seed, unsigned intensity) __attribute__((weak));
#define MAXB 3000
typedef struct { uint8_t* p; int n; int round; uint64_t pat; } blk_t;
static blk_t b[MAXB]; static int nb;
static mplite_t H; static uint8_t* pool; static int psize; static int depth; static bool locked; static uint64_t acquired;
static int atom_(void) { return mplite_roundup(&H, 1); }
static uint8_t pb(uint64_t s, int i) { uint64_t x = (s + (uint64_t)i * 0x9E3779B97F4A7C15ull) * 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 37); }
static void fill(uint8_t* p, int n, uint64_t s) { for (int i = 0; i < n; i++) p[i] = pb(s, i); }
static void intact(const blk_t* x, int n, const char* when) { for (int i = 0; i < n; i++) VP_CHECK(x->p[i] == pb(x->pat, i), "pool.content", "%s: byte %d of a live block of %d bytes changed", when, i, x->n); }
static int acq(void* a) { VP_CHECK(a == &depth && depth == 0, "pool.lock", "lock acquired while held"); depth++; acquired++; return 0; }
static int rel(void* a) { VP_CHECK(a == &depth && depth == 1, "pool.lock", "lock released while not held"); depth--; return 0; }
static void place(uint8_t* p, int n, const char* op) {
    VP_CHECK(p >= pool && p + n <= pool + psize, "pool.bounds", "%s: block [%ld,+%d) lies outside the pool of %d", op, (long)(p - pool), n, psize);
    VP_CHECK((p - pool) % atom_() == 0, "pool.align", "%s: block at offset %ld is not aligned to %d", op, (long)(p - pool), atom_());
    for (int i = 0; i < nb; i++) VP_CHECK(p + n <= b[i].p || b[i].p + b[i].n <= p, "pool.overlap", "%s: new block [%ld,+%d) overlaps live block [%ld,+%d)", op, (long)(p - pool), n, (long)(b[i].p - pool), b[i].n);
}
static char stat_line[8][256]; static int stat_n;
static int puts_fn(const char* s) { if (stat_n < 8) snprintf(stat_line[stat_n++], 256, "%s", s); return 0; }
/* the statistics as the pool prints them (the fields behind them are its own business) */
static struct { unsigned nAlloc, totalAlloc, totalExcess, currentOut, currentCount, maxOut, maxCount, maxRequest; } S;
static void refresh(void) {
    static const char* const head[8] = { "Total number of calls to malloc: %u", "Total of all malloc calls - includes internal fragmentation: %u", "Total internal fragmentation: %u", "Current checkout, including internal fragmentation: %u", "Current number of distinct checkouts: %u", "Maximum instantaneous currentOut: %u", "Maximum instantaneous currentCount: %u", "Largest allocation (exclusive of internal frag): %u" };
    unsigned* f[8] = { &S.nAlloc, &S.totalAlloc, &S.totalExcess, &S.currentOut, &S.currentCount, &S.maxOut, &S.maxCount, &S.maxRequest };
    stat_n = 0; mplite_print_stats(&H, puts_fn); VP_CHECK(stat_n == 8, "pool.stats", "print_stats printed %d lines", stat_n);
    for (int i = 0; i < 8; i++) VP_CHECK(sscanf(stat_line[i], head[i], f[i]) == 1, "pool.stats", "statistics line %d reads '%s'", i, stat_line[i]);
    const mplite_t* none = NULL; VP_CHECK((unsigned)mplite_alloc_count(&H) == S.nAlloc && (unsigned)mplite_alloc_count(none) == 0, "pool.stats", "alloc_count says %u, the statistics %u", (unsigned)mplite_alloc_count(&H), S.nAlloc);
}
static uint32_t req_ok, req_any; /* largest request served, largest request made */
static uint64_t acq0;
#define L0() (acq0 = acquired)
#define L1(op) do { if (locked) { VP_CHECK(depth == 0, "pool.lock", op " returned with the lock held"); VP_CHECK(acquired > acq0, "pool.lock", op " did not take the lock"); } } while (0)
static int total0, max0; static uint64_t n_ok, sum_round, sum_excess; static uint32_t peak_out, peak_cnt;
static void stats(const char* op) {
    refresh();
    uint32_t out = 0; for (int i = 0; i < nb; i++) out += (uint32_t)b[i].round;
    if (out > peak_out) peak_out = out; if ((uint32_t)nb > peak_cnt) peak_cnt = (uint32_t)nb;
    VP_CHECK(S.currentCount == (uint32_t)nb, "pool.stats", "after %s: %u checkouts counted, %d live", op, S.currentCount, nb);
    VP_CHECK(S.currentOut == out, "pool.stats", "after %s: %u bytes counted as out, live blocks take %u", op, S.currentOut, out);
    L0(); int f = mplite_freemem(&H); L1("mplite_freemem");
    VP_CHECK(f + (int)out == total0, "pool.stats", "after %s: free %d + out %u != pool's %d", op, f, out, total0);
    VP_CHECK(S.nAlloc == (uint32_t)n_ok && S.totalAlloc == (uint32_t)sum_round && S.totalExcess == (uint32_t)sum_excess, "pool.stats", "after %s: totals %llu/%llu/%llu, expected %llu/%llu/%llu", op, (unsigned long long)S.nAlloc, (unsigned long long)S.totalAlloc, (unsigned long long)S.totalExcess, (unsigned long long)n_ok, (unsigned long long)sum_round, (unsigned long long)sum_excess);
    VP_CHECK(S.maxCount == peak_cnt && S.maxOut >= peak_out, "pool.stats", "after %s: peaks %u/%u, expected %u/%u", op, S.maxCount, S.maxOut, peak_cnt, peak_out);
    VP_CHECK(S.maxRequest >= req_ok && S.maxRequest <= req_any, "pool.stats", "after %s: largest request reported as %u; the largest served was %u, the largest made %u", op, S.maxRequest, req_ok, req_any);
}
static int lasting;
static void m_history(void) {
    depth = 0; acquired = 0; nb = 0; n_ok = sum_round = sum_excess = 0; peak_out = peak_cnt = 0; req_ok = req_any = 0;
    locked = vp_chance(1, 2); psize = vp_chance(1, 6) ? (int)vp_between(1, 300) : vp_chance(1, 10) ? (int)vp_between(20000, 200000) : (int)vp_between(100, 8000);
    if (vp_chance(1, 5)) psize = (1 << vp_between(4, 14)) + (int)vp_below(3) - 1;
    int mins[] = {1, 2, 4, 8, 16, 32, 64, 128, 1024, 3, 9, 100}; int min = mins[vp_below(12)];
    if (vp_chance(1, 60)) min = 1 << 30;
    pool = malloc((size_t)psize); memset(pool, 0xCD, (size_t)psize);
    mplite_lock_t lk = { &depth, acq, rel };
    VP_CHECK(mplite_init(&H, pool, psize, min, locked ? &lk : NULL) == MPLITE_OK, "pool.init", "refused %d/%d", psize, min);
    VP_CHECK(mplite_init(NULL, pool, psize, min, NULL) != MPLITE_OK, "pool.init", "NULL handle accepted");
    if (vp_chance(1, 10)) { mplite_t d; VP_CHECK(mplite_init(&d, NULL, psize, min, NULL) && mplite_init(&d, pool, 0, min, NULL) && mplite_init(&d, pool, -5, min, NULL) && mplite_init(&d, pool, psize, 0, NULL) && mplite_init(&d, pool, psize, 0x7fffffff, NULL), "pool.init", "invalid parameters accepted"); }
    VP_CHECK(atom_() >= min && atom_() >= 8, "pool.init", "smallest block %d below the minimum %d", atom_(), min);
    total0 = mplite_freemem(&H); max0 = mplite_maxmem(&H);
    VP_CHECK(total0 >= 0 && total0 <= psize && max0 <= total0, "pool.init", "fresh pool of %d reports free %d, largest %d", psize, total0, max0);
    VP_CHECK(psize < atom_() + 1 || max0 > 0, "pool.init", "fresh pool of %d cannot serve anything", psize);
    vp_trace("pool %d min %d atom %d free %d largest %d", psize, min, atom_(), total0, max0);
    int ops = lasting ? (int)vp_between(66000, 100000) : (int)vp_between(10, 250); uint64_t h = 0; int rounds = (int)vp_between(1, 3), failed = 0, moved = 0; int bias = (int)vp_below(3);
    for (int r = 0; r < rounds; r++) {
        for (int o = 0; o < ops; o++) {
            unsigned w = (unsigned)vp_below(100); const char* op = "";
            int n = vp_chance(1, 3) ? 1 + (int)vp_below((uint64_t)atom_()) : vp_chance(1, 4) ? atom_() << vp_below(6) : 1 + (int)vp_below((uint64_t)(psize / (vp_chance(1, 2) ? 4 : 20) + 1));
            if (vp_chance(1, 25)) n = vp_chance(1, 2) ? max0 : max0 + 1; if (vp_chance(1, 100)) n = (int)(0x3fffffffu + vp_below(0x40000001u)); if (n <= 0) n = 1;
            unsigned lim = bias == 0 ? 40 : bias == 1 ? 55 : 65;
            if (w < lim && nb < MAXB) {
                bool cal = vp_chance(1, 4); op = cal ? "calloc" : "malloc"; vp_trace("%s %d", op, n);
                int big = mplite_maxmem(&H), fr = mplite_freemem(&H), ro = mplite_roundup(&H, n);
                if ((uint32_t)n > req_any) req_any = (uint32_t)n; L0(); uint8_t* p = cal ? mplite_calloc(&H, n) : mplite_malloc(&H, n); L1("malloc"); if (p && (uint32_t)n > req_ok) req_ok = (uint32_t)n;
                VP_CHECK((p != NULL) == (n <= big), "pool.serve", "%s of %d answered %p, largest available block was %d", op, n, (void*)p, big);
                if (p) { place(p, n, op); if (cal) for (int i = 0; i < n; i++) VP_CHECK(p[i] == 0, "pool.calloc", "byte %d of a zeroed block is %d", i, p[i]);
                    VP_CHECK(ro >= n && ro >= atom_() && (ro == atom_() || ro / 2 < n), "pool.roundup", "roundup(%d) = %d", n, ro);
                    b[nb] = (blk_t){p, n, ro, vp_rand()}; fill(p, n, b[nb].pat); nb++; n_ok++; sum_round += (uint64_t)ro; sum_excess += (uint64_t)(ro - n); }
                else { failed++; VP_CHECK(mplite_maxmem(&H) == big && mplite_freemem(&H) == fr, "pool.fail", "a failed request changed the pool"); }
            } else if (w < 88 && nb) {
                op = "free"; int k = vp_chance(1, 4) ? 0 : vp_chance(1, 4) ? nb - 1 : (int)vp_below((uint64_t)nb); vp_trace("free #%d (%d)", k, b[k].n);
                intact(&b[k], b[k].n, "at free"); L0(); mplite_free(&H, b[k].p); L1("free"); memmove(&b[k], &b[k + 1], sizeof *b * (size_t)(nb - k - 1)); nb--;
            } else if (w < 96 && nb) {
                op = "realloc"; int k = (int)vp_below((uint64_t)nb); int want = 1 << vp_below(16); blk_t old = b[k]; vp_trace("realloc #%d %d -> %d", k, old.n, want);
                intact(&old, old.n, "before realloc"); int big = mplite_maxmem(&H);
                if ((uint32_t)want > req_any) req_any = (uint32_t)want; uint8_t* p = mplite_realloc(&H, old.p, want);
                int rs = mplite_resize(&H, old.p, 1); (void)rs;
                if (want <= old.round) { VP_CHECK(p == old.p, "pool.realloc", "shrinking answered %p", (void*)p); b[k].n = want; if (want > old.n) { intact(&old, old.n, "after realloc"); fill(p, want, b[k].pat); } }
                else { VP_CHECK((p != NULL) == (want <= big), "pool.realloc", "growing to %d answered %p, largest available %d", want, (void*)p, big);
                    if (p) { b[k].n = 0; place(p, want, op); for (int i = 0; i < old.n; i++) VP_CHECK(p[i] == pb(old.pat, i), "pool.realloc", "byte %d of %d lost in reallocation to %d", i, old.n, want);
                        int ro = mplite_roundup(&H, want); b[k] = (blk_t){p, want, ro, vp_rand()}; fill(p, want, b[k].pat); n_ok++; sum_round += (uint64_t)ro; sum_excess += (uint64_t)(ro - want); moved++; if ((uint32_t)want > req_ok) req_ok = (uint32_t)want; refresh(); if (S.currentOut + (uint32_t)old.round > peak_out) peak_out = S.maxOut; if (peak_cnt < (uint32_t)nb + 1) peak_cnt = (uint32_t)nb + 1; }
                    else { intact(&old, old.n, "after a failed realloc"); failed++; } }
                if (vp_chance(1, 3)) VP_CHECK(!mplite_realloc(&H, b[k].p, want + 3 > 4 ? 3 : 5) && mplite_resize(&H, b[k].p, b[k].round) == MPLITE_OK && mplite_resize(&H, b[k].p, b[k].round * 2) != MPLITE_OK, "pool.realloc", "resize answers wrong");
            } else { op = "invalid"; VP_CHECK(!mplite_malloc(&H, 0) && !mplite_malloc(&H, -7) && !mplite_malloc(NULL, 8) && !mplite_calloc(&H, 0) && !mplite_realloc(&H, NULL, 8) && !mplite_malloc(&H, 0x7fffffff), "pool.invalid", "invalid request served"); mplite_free(&H, NULL); mplite_free(NULL, pool); }
            stats(op); if (o % 16 == 0) for (int i = 0; i < nb; i++) intact(&b[i], b[i].n, "in between");
            h = vp_mix(h, w * 4096 + (unsigned)nb); vp_seen(vp_mix((uint64_t)mplite_maxmem(&H), (uint64_t)nb));
        }
        /* give everything back in some order */
        vp_trace("free all %d", nb); int order = (int)vp_below(3);
        while (nb) { int k = order == 0 ? nb - 1 : order == 1 ? 0 : (int)vp_below((uint64_t)nb); intact(&b[k], b[k].n, "at the final free"); mplite_free(&H, b[k].p); memmove(&b[k], &b[k + 1], sizeof *b * (size_t)(nb - k - 1)); nb--; }
        stats("free all");
        VP_CHECK(mplite_maxmem(&H) == max0, "pool.coalesce", "with everything freed the largest block is %d, it was %d when fresh", mplite_maxmem(&H), max0);
        VP_CHECK(mplite_freemem(&H) == total0, "pool.coalesce", "with everything freed %d bytes are free, it were %d", mplite_freemem(&H), total0);
        if (max0) { uint8_t* p = mplite_malloc(&H, max0); VP_CHECK(p, "pool.coalesce", "with everything freed the largest request of %d fails", max0); place(p, max0, "largest"); memset(p, 0x77, (size_t)max0); mplite_free(&H, p); n_ok++; if ((uint32_t)max0 > req_ok) req_ok = (uint32_t)max0; if (req_ok > req_any) req_any = req_ok; sum_round += (uint64_t)max0; if ((uint32_t)max0 > peak_out) peak_out = (uint32_t)max0; if (!peak_cnt) peak_cnt = 1; }
        vp_count("drained", 1);
    }
    free(pool);
    vp_count("allocations", n_ok); vp_count("requests_refused", (uint64_t)failed); vp_count("blocks_moved", (uint64_t)moved);
    vp_case_mix(vp_mix(h, (uint64_t)psize)); if (failed && peak_cnt > 4) vp_nontrivial();
    if (vp_want_sample()) vp_sample("pool of %d, smallest block %d, %d rounds of %d operations, %d refused, %u live at most", psize, atom_(), rounds, ops, failed, peak_cnt);
}
/* several threads, lock supplied */
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static int macq(void* a) { return pthread_mutex_lock(a); }
static int mrel(void* a) { return pthread_mutex_unlock(a); }
typedef struct { uint64_t seed; int ops; uint64_t ok, no; } thr_t;
static void* worker(void* a) {
    thr_t* t = a; vp_rng_t r; vp_rng_init(&r, t->seed, 3); blk_t mine[24]; int n = 0;
    for (int i = 0; i < t->ops; i++) {
        if (n < 24 && vp_rng_below(&r, 2)) { int sz = 1 + (int)vp_rng_below(&r, vp_rng_below(&r, 10) ? 80 : 800); uint8_t* p = vp_rng_below(&r, 2) ? mplite_malloc(&H, sz) : mplite_calloc(&H, sz);
            if (p) { VP_CHECK(p >= pool && p + sz <= pool + psize, "pool.bounds", "outside"); mine[n] = (blk_t){p, sz, 0, vp_rng_next(&r)}; fill(p, sz, mine[n].pat); n++; t->ok++; } else t->no++; }
        else if (n) { int k = (int)vp_rng_below(&r, (uint64_t)n); intact(&mine[k], mine[k].n, "concurrent use");
            if (vp_rng_below(&r, 5) == 0) { int want = 8 << vp_rng_below(&r, 8); uint8_t* p = mplite_realloc(&H, mine[k].p, want); if (p) { int keep = mine[k].n < want ? mine[k].n : want; blk_t x = {p, keep, 0, mine[k].pat}; intact(&x, keep, "concurrent realloc"); mine[k].p = p; mine[k].n = want; fill(p, want, mine[k].pat); } else intact(&mine[k], mine[k].n, "failed concurrent realloc"); }
            else { mplite_free(&H, mine[k].p); mine[k] = mine[--n]; } }
        if (vp_rng_below(&r, 30) == 0) { int m = mplite_maxmem(&H), f = mplite_freemem(&H); VP_CHECK(m >= 0 && f >= 0 && f <= total0, "pool.stats", "free %d of %d", f, total0); }
    }
    while (n) { n--; intact(&mine[n], mine[n].n, "at the end"); mplite_free(&H, mine[n].p); }
    return 0;
}
static void m_concurrent(void) {
    locked = false; psize = (int)vp_between(2000, 20000); pool = malloc((size_t)psize); mplite_lock_t lk = { &mx, macq, mrel };
    if (vps_set) vps_set(vp_rand(), (unsigned)vp_between(2, 30));
    mplite_init(&H, pool, psize, 8 << vp_below(3), &lk); total0 = mplite_freemem(&H); max0 = mplite_maxmem(&H);
    int T = (int)vp_between(2, 6); thr_t t[6]; pthread_t th[6]; uint64_t ok = 0, no = 0, h = 0;
    for (int i = 0; i < T; i++) { t[i] = (thr_t){ vp_rand(), (int)vp_between(100, 2500), 0, 0 }; pthread_create(&th[i], 0, worker, &t[i]); }
    for (int i = 0; i < T; i++) { pthread_join(th[i], 0); ok += t[i].ok; no += t[i].no; h = vp_mix(h, t[i].ok); }
    VP_CHECK(mplite_maxmem(&H) == max0 && mplite_freemem(&H) == total0, "pool.coalesce", "after concurrent use and freeing everything: largest %d (fresh %d), free %d (fresh %d)", mplite_maxmem(&H), max0, mplite_freemem(&H), total0);
    refresh(); VP_CHECK(S.currentCount == 0 && S.currentOut == 0, "pool.stats", "after freeing everything: %u checkouts, %u bytes", S.currentCount, S.currentOut);
    free(pool); vp_count("concurrent_allocations", ok); vp_count("concurrent_refused", no); vp_case_mix(h); if (no) vp_nontrivial();
}
/* pools up to 2 GiB and pools of more than 2^16 smallest blocks */
#include <sys/mman.h>
static void m_scale(void) {
    bool many = vp_chance(1, 2); int min = many ? 16 : 1 << vp_between(10, 16); psize = many ? 17 * (int)vp_between(66000, 150000) : vp_chance(1, 2) ? 0x7fffffff - (int)vp_below(5000) : (int)vp_between(1 << 24, 0x7fffffff); nb = 0;
    pool = mmap(NULL, (size_t)psize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (pool == MAP_FAILED) vp_error("no mapping of %d", psize); vp_trace("pool %d min %d", psize, min);
    VP_CHECK(mplite_init(&H, pool, psize, min, NULL) == MPLITE_OK, "pool.init", "refused %d/%d", psize, min); int atom = atom_(); total0 = mplite_freemem(&H); max0 = mplite_maxmem(&H);
    VP_CHECK(total0 > psize / 2 && total0 <= psize && max0 > psize / 4 && max0 <= total0, "pool.init", "fresh pool of %d reports free %d, largest %d", psize, total0, max0);
    size_t cap = (size_t)(total0 / atom); uint8_t** at = malloc(cap * sizeof *at); int* len = malloc(cap * sizeof *len); uint8_t* used = calloc(cap, 1); size_t n = 0; int64_t out = 0; int rounds = many ? 1 : 3; uint64_t refused = 0, done = 0, sum = 0, exc = 0;
    for (int r = 0; r < rounds; r++) {
        for (int fails = 0; n < cap && fails < 4;) { int want = many ? 1 + (int)vp_below(vp_chance(1, 50) ? 200 : (uint64_t)atom) : vp_chance(1, 40) ? max0 : 1 + (int)vp_below((uint64_t)1 << vp_between(4, 29)); int big = mplite_maxmem(&H); uint8_t* p = mplite_malloc(&H, want);
            VP_CHECK((p != NULL) == (want <= big), "pool.serve", "request of %d answered %p, largest available block was %d", want, (void*)p, big); if (!p) { fails++; refused++; continue; }
            int full = atom; while (full < want) full *= 2; VP_CHECK(p >= pool && full <= psize && p - pool <= psize - full && (p - pool) % atom == 0, "pool.bounds", "block of %d at offset %ld of a pool of %d", want, (long)(p - pool), psize);
            size_t a = (size_t)(p - pool) / (size_t)atom; VP_CHECK(a + (size_t)(full / atom) <= cap, "pool.bounds", "block of %d reaches past the %zu blocks", want, cap); for (size_t k = 0; k < (size_t)(full / atom); k++) { VP_CHECK(!used[a + k], "pool.overlap", "block of %d at offset %ld overlaps a live block", want, (long)(p - pool)); used[a + k] = 1; }
            p[0] = (uint8_t)n; p[want - 1] = (uint8_t)n; at[n] = p; len[n] = want; n++; out += full; done++; sum += (uint64_t)full; exc += (uint64_t)(full - want); if (!(n & 1023)) { vp_beat(); if (many) continue; } if (!many || n % 5000 == 0) VP_CHECK(mplite_freemem(&H) + out == total0, "pool.stats", "free %d + out %lld != %d", mplite_freemem(&H), (long long)out, total0); }
        refresh(); VP_CHECK(S.currentCount == n && (int64_t)S.currentOut == out, "pool.stats", "%u checkouts of %u bytes counted, %zu of %lld live", S.currentCount, S.currentOut, n, (long long)out); vp_count("blocks_at_once", n);
        VP_CHECK(S.nAlloc == (uint32_t)done && S.totalAlloc == (uint32_t)sum && S.totalExcess == (uint32_t)exc, "pool.stats", "%llu calls served %llu bytes, %llu of them excess; reported %llu/%llu/%llu", (unsigned long long)done, (unsigned long long)sum, (unsigned long long)exc, (unsigned long long)S.nAlloc, (unsigned long long)S.totalAlloc, (unsigned long long)S.totalExcess);
        for (int i = 0; i < 60; i++) { int w = i < 31 ? (int)((1u << i) + vp_below(3) - 1) : (int)vp_below(1u << vp_between(4, 30)); if (w < 1 || w > MPLITE_MAX_ALLOC_SIZE) continue; int64_t f = atom; while (f < w) f *= 2; VP_CHECK(mplite_roundup(&H, w) == f, "pool.roundup", "roundup(%d) is %d, blocks are of %d bytes and powers of two of it", w, mplite_roundup(&H, w), atom); vp_count("large_roundups", 1); }
        for (size_t left = r + 1 < rounds ? n / 2 : 0; n > left;) { size_t k = vp_below(n); VP_CHECK(at[k][0] == at[k][len[k] - 1] || len[k] == 1, "pool.content", "a live block of %d changed", len[k]); int full = atom; while (full < len[k]) full *= 2; size_t a = (size_t)(at[k] - pool) / (size_t)atom; memset(used + a, 0, (size_t)(full / atom));
            mplite_free(&H, at[k]); out -= full; n--; at[k] = at[n]; len[k] = len[n]; if (!(n & 1023)) vp_beat(); } }
    refresh(); VP_CHECK(mplite_maxmem(&H) == max0 && mplite_freemem(&H) == total0 && S.currentCount == 0 && S.currentOut == 0, "pool.coalesce", "everything given back: largest %d (fresh %d), free %d (fresh %d)", mplite_maxmem(&H), max0, mplite_freemem(&H), total0);
    uint8_t* p = mplite_malloc(&H, max0); VP_CHECK(p && !mplite_malloc(&H, max0 / 2 + 1) == (mplite_maxmem(&H) < max0 / 2 + 1), "pool.coalesce", "the largest request of %d fails", max0); mplite_free(&H, p);
    munmap(pool, (size_t)psize); free(at); free(len); free(used); vp_count("large_pools", 1); vp_case_mix(vp_mix((uint64_t)psize, done)); if (refused) vp_nontrivial();
}
static void m_long(void) { lasting = 1; m_history(); vp_count("long_lives", 1); }
const vp_mode_t vp_modes[] = { {"long", m_long}, {"history", m_history}, {"concurrent", m_concurrent}, {"scale", m_scale}, {0} };
