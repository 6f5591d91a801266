/* C20: many threads logging at once while the configuration changes: whole lines, exactly once, per-thread order, same on both targets. */
#include "vp.h"
#include "lcu.h"
#include "log/xlog.h"
#include "time/time_util.h"
#include <sys/syscall.h>
#include <fcntl.h>
#pragma weak vps_set
#define MAXT 8
#define MAXN 600
typedef struct { int id, n; uint64_t seed; int tid; } thr_t;
static thr_t th[MAXT]; static int nt; static pthread_barrier_t bar; static int stop, done;
/* what the callback was given, in arrival order */
typedef struct { char* t; size_t n; } rec_t; static rec_t* cbs; static int ncb, capcb; static pthread_mutex_t cbm = PTHREAD_MUTEX_INITIALIZER; static int cb_slow; static unsigned inside, overlap;
typedef struct { int own, gone; } who_t; static who_t* whos[4000]; static int nwho; static unsigned foreign, late; /* each callback is installed with its own data; the data is retired once another has been installed */
static void cb(LogLevel l, void* m, size_t n, void* u);
static void cb1(LogLevel l, void* m, size_t n, void* u);
static void record(void* m, size_t n, void* u, int own) { const who_t* w = u; if (!w || __atomic_load_n(&w->own, __ATOMIC_RELAXED) != own) __atomic_add_fetch(&foreign, 1, __ATOMIC_RELAXED); else if (__atomic_load_n(&w->gone, __ATOMIC_RELAXED)) __atomic_add_fetch(&late, 1, __ATOMIC_RELAXED); if (__atomic_add_fetch(&inside, 1, __ATOMIC_RELAXED) > 1) __atomic_add_fetch(&overlap, 1, __ATOMIC_RELAXED); char* c = malloc(n); memcpy(c, m, n);
    if (cb_slow == 1) sched_yield(); else if (cb_slow == 2) { struct timespec ts = { 0, 2000 }; nanosleep(&ts, 0); }
    pthread_mutex_lock(&cbm); if (ncb == capcb) { capcb = capcb ? capcb * 2 : 1024; cbs = realloc(cbs, sizeof *cbs * (size_t)capcb); } cbs[ncb].t = c; cbs[ncb++].n = n; pthread_mutex_unlock(&cbm); __atomic_sub_fetch(&inside, 1, __ATOMIC_RELAXED); }
static void cb(LogLevel l, void* m, size_t n, void* u) { (void)l; record(m, n, u, 0); }
static void cb1(LogLevel l, void* m, size_t n, void* u) { (void)l; record(m, n, u, 1); }
static void install(int own) { if (nwho == 4000) return; who_t* w = malloc(sizeof *w); w->own = own; w->gone = 0; xlog_set_user_callback(own ? cb1 : cb, w); if (nwho) __atomic_store_n(&whos[nwho - 1]->gone, 1, __ATOMIC_RELAXED); whos[nwho++] = w; }
static size_t payload(char* o, int id, int seq) { vp_rng_t r; vp_rng_init(&r, (uint64_t)id * 7919 + 1, (uint64_t)seq); size_t n = vp_rng_below(&r, 4) == 0 ? 430 + vp_rng_below(&r, 700) : vp_rng_below(&r, 60); for (size_t i = 0; i < n; i++) o[i] = (char)('a' + vp_rng_below(&r, 26)); o[n] = 0; return n; }
static void* logger(void* a) {
    thr_t* t = a; static __thread char p[1400]; vp_rng_t r; vp_rng_init(&r, t->seed, (uint64_t)t->id); t->tid = (int)syscall(SYS_gettid); pthread_barrier_wait(&bar);
    for (int i = 0; i < t->n; i++) { payload(p, t->id, i); if (vp_rng_below(&r, 3)) LOGE("<<%d:%d:%s>>", t->id, i, p); else TLOGE("TT", "<<%d:%d:%s>>", t->id, i, p); if (vp_rng_below(&r, 20) == 0) sched_yield(); if (vp_rng_below(&r, 40) == 0) { char b[64]; time_util_get_time_str_current(b, 3); } if (vp_rng_below(&r, 30) == 0) LOGV("never"); if (vp_rng_below(&r, 30) == 0) (void)(xlog_get_target() + xlog_get_format() + (int)xlog_get_min_level()); }
    __atomic_add_fetch(&done, 1, __ATOMIC_RELEASE); return NULL; }
static int keep_cb, changes; static uint64_t nchanges;
static const char TAG1[] = "Tag1", TAG2[] = "AnotherTag2"; 
static void* changer(void* a) {
    vp_rng_t r; vp_rng_init(&r, *(uint64_t*)a, 5); pthread_barrier_wait(&bar);
    while (!__atomic_load_n(&stop, __ATOMIC_ACQUIRE)) { switch (vp_rng_below(&r, 8)) { case 7: install((int)vp_rng_below(&r, 2)); vp_count("callbacks_exchanged", 1); break;
        case 0: xlog_set_format((int)vp_rng_below(&r, 8) * 2); break; case 1: xlog_set_timezone((int)vp_rng_below(&r, 24) - 12); break; case 2: xlog_set_min_level((LogLevel)(2 + vp_rng_below(&r, 4))); break;
        case 3: xlog_set_default_tag((char*)(vp_rng_below(&r, 2) ? TAG1 : TAG2)); break; case 4: xlog_set_flush_mode((LogFlushMode)vp_rng_below(&r, 2)); break;
        case 5: xlog_set_target(LOG_TARGET_CONSOLE | (keep_cb || vp_rng_below(&r, 2) ? LOG_TARGET_USER_CALLBACK : 0)); break; default: xlog_auto_level_up(vp_rng_below(&r, 2) ? LOG_LEVEL_ERROR : LOG_LEVEL_OFF); break; }
        nchanges++; struct timespec ts = { 0, (long)vp_rng_below(&r, 30000) }; if (vp_rng_below(&r, 2)) nanosleep(&ts, 0); else sched_yield(); }
    return NULL; }
static bool digits(const char* s, int n) { for (int i = 0; i < n; i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
/* one record, header checked: returns the id and number */
static void parse(const char* where, const char* l, size_t n, int* id, int* seq) {
    const char* s = l, *e = l + n; const char* m = memmem(l, n, "<<", 2); VP_CHECK(m, "line", "%s: a line without a record: \"%.*s\"", where, (int)(n < 150 ? n : 150), l);
    VP_CHECK(n >= 4 && e[-1] == '>' && e[-2] == '>', "line", "%s: a line without its end: \"%.*s\"", where, (int)(n < 150 ? n : 150), l); VP_CHECK(!memmem(m + 2, (size_t)(e - m - 2), "<<", 2), "line", "%s: two records in one line: \"%.*s\"", where, (int)(n < 200 ? n : 200), l);
    int used = -1; VP_CHECK(sscanf(m, "<<%d:%d:%n", id, seq, &used) == 2 && used > 0 && *id >= 0 && *id < nt && *seq >= 0 && *seq < th[*id].n, "line", "%s: record \"%.60s\"", where, m);
    static char p[1400]; size_t k = payload(p, *id, *seq); VP_CHECK((size_t)(e - 2 - (m + used)) == k && !memcmp(m + used, p, k), "text", "%s: the text of record %d of thread %d is not what was logged: \"%.100s\", expected \"%.100s\"", where, *seq, *id, m + used, p);
    if (s == m) { vp_count("bare_records", 1); return; }
    if (m - s >= 18 && digits(s, 2) && s[2] == '-') { VP_CHECK(digits(s + 3, 2) && s[5] == ' ' && digits(s + 6, 2) && s[8] == ':' && digits(s + 9, 2) && s[11] == ':' && digits(s + 12, 2) && s[14] == '.' && digits(s + 15, 3), "header", "%s: time \"%.18s\"", where, s); s += 18; vp_count("times", 1); }
    if (*s == ' ') { VP_CHECK(!strncmp(s, " E/", 3), "header", "%s: level in \"%.30s\"", where, s); s += 3; if (!strncmp(s, "TT      ", 8)) s += 8; else if (!strncmp(s, "Tag1    ", 8)) s += 8; else if (!strncmp(s, "AnotherTag2", 11)) s += 11; else vp_fail("header", "%s: tag in \"%.30s\"", where, s); vp_count("tags", 1); }
    if (*s == '(') { char w[12]; snprintf(w, sizeof w, th[*id].tid > 99999 ? "(%05d)" : "(%5d)", th[*id].tid % 100000); VP_CHECK(!strncmp(s, w, 7), "header", "%s: thread number \"%.7s\" on a record of thread %s", where, s, w); s += 7; vp_count("thread_numbers", 1); }
    VP_CHECK(s[0] == ':' && s[1] == ' ' && s + 2 == m, "header", "%s: header \"%.*s\"", where, (int)(m - l), l);
}
static void one_round(int fd, const char* path) {
    nt = (int)vp_between(2, MAXT); int total = 0; stop = done = 0; ncb = 0; overlap = 0; cb_slow = (int)vp_below(3); keep_cb = vp_chance(1, 2); changes = vp_chance(3, 4);
    foreign = late = 0; nwho = 0; install((int)vp_below(2)); xlog_set_target(LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK); xlog_set_min_level(LOG_LEVEL_DEBUG); xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_default_tag((char*)TAG1); xlog_set_format((int)vp_below(8) * 2); if (!changes) keep_cb = 1;
    fflush(stdout); if (ftruncate(fd, 0)) vp_error("ftruncate"); lseek(fd, 0, SEEK_SET);
    pthread_t p[MAXT], c; uint64_t cs = vp_rand(); pthread_barrier_init(&bar, NULL, (unsigned)(nt + changes)); if (vps_set) vps_set(vp_rand(), vp_chance(2, 3) ? (unsigned)vp_below(12) : 0);
    for (int i = 0; i < nt; i++) { th[i] = (thr_t){ .id = i, .n = (int)vp_between(20, cb_slow == 2 ? 80 : 400), .seed = vp_rand() }; total += th[i].n; pthread_create(&p[i], 0, logger, &th[i]); }
    if (changes) pthread_create(&c, 0, changer, &cs);
    for (int i = 0; i < nt; i++) pthread_join(p[i], 0);
    __atomic_store_n(&stop, 1, __ATOMIC_RELEASE); if (changes) pthread_join(c, 0);
    if (vps_set) vps_set(0, 0);
    fflush(stdout); pthread_barrier_destroy(&bar);
    /* console */
    int rfd = open(path, O_RDONLY); off_t sz = lseek(rfd, 0, SEEK_END); char* b = malloc((size_t)sz + 1); if (pread(rfd, b, (size_t)sz, 0) != sz) vp_error("pread"); close(rfd); b[sz] = 0;
    static uint8_t seen[MAXT][MAXN]; static uint8_t seenc[MAXT][MAXN]; static int place[MAXT][MAXN]; int cpos = -1; memset(seen, 0, sizeof seen); memset(seenc, 0, sizeof seenc); int last[MAXT], id, seq, lines = 0, sw = 0, prev = -1; for (int i = 0; i < MAXT; i++) last[i] = -1; uint64_t h = 0;
    for (char* q = b; q < b + sz;) { char* nl = memchr(q, '\n', (size_t)(b + sz - q)); VP_CHECK(nl, "line", "the console ends inside a line"); parse("console", q, (size_t)(nl - q), &id, &seq); VP_CHECK(!seen[id][seq], "once", "console: record %d of thread %d twice", seq, id); seen[id][seq] = 1; place[id][seq] = lines; VP_CHECK(seq > last[id], "order", "console: thread %d's record %d after %d", id, seq, last[id]); last[id] = seq; lines++; if (id != prev) sw++; prev = id; h = vp_mix(h, (uint64_t)id); q = nl + 1; }
    VP_CHECK(lines == total, "lost", "console shows %d of %d records", lines, total);
    for (int i = 0; i < MAXT; i++) last[i] = -1;
    for (int k = 0; k < ncb; k++) { VP_CHECK(cbs[k].n >= 1 && cbs[k].t[cbs[k].n - 1] == 0 && strlen(cbs[k].t) == cbs[k].n - 1, "callback.size", "callback size %zu for a text of %zu", cbs[k].n, strnlen(cbs[k].t, cbs[k].n)); parse("callback", cbs[k].t, cbs[k].n - 1, &id, &seq); VP_CHECK(!seenc[id][seq], "once", "callback: record %d of thread %d twice", seq, id); seenc[id][seq] = 1; VP_CHECK(seq > last[id], "order", "callback: thread %d record %d after %d", id, seq, last[id]); last[id] = seq; free(cbs[k].t);
        VP_CHECK(seen[id][seq] && place[id][seq] > cpos, "callback.order", "the callback got record %d of thread %d before a record that precedes it on the console", seq, id); cpos = place[id][seq]; }
    VP_CHECK(overlap == 0, "callback.overlap", "%u calls of the callback began while another was running", overlap);
    if (keep_cb) VP_CHECK(ncb == total, "lost", "the callback got %d of %d records", ncb, total);
    VP_CHECK(!foreign, "callback.data", "%u calls of a callback got another one's data", foreign); VP_CHECK(!late, "callback.late", "%u calls of a callback after another one had been installed", late); xlog_set_user_callback(NULL, NULL); for (int i = 0; i < nwho; i++) free(whos[i]); nwho = 0;
    free(b); vp_count("records", (uint64_t)total); vp_count("callback_records", (uint64_t)ncb); vp_count("switches_between_threads", (uint64_t)sw); vp_count("configuration_changes", nchanges); nchanges = 0; vp_seen(h); vp_case_mix(h); if (sw > nt * 2) vp_nontrivial();
}
static void m_log(void) {
    char path[300]; snprintf(path, sizeof path, "%s/console", vp_scratch()); fflush(stdout); int keep = dup(1), fd = open(path, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(fd, 1);
    int rounds = (int)vp_between(1, 3); for (int i = 0; i < rounds; i++) { bool g = vp_chance(1, 2); if (g) lcu_global_init(); else { time_util_global_init(); xlog_global_init(); } if (vp_chance(1, 3)) xlog_global_init(); one_round(fd, path); if (g) lcu_global_cleanup(); else { xlog_global_cleanup(); time_util_global_cleanup(); } vp_count("rounds", 1); vp_beat(); }
    xlog_set_target(LOG_TARGET_CONSOLE); xlog_set_user_callback(NULL, NULL); fflush(stdout); dup2(keep, 1); close(keep); close(fd); if (vp_want_sample()) vp_sample("%d rounds, last with %d threads", rounds, nt);
}
const vp_mode_t vp_modes[] = { {"log", m_log}, {0} };
