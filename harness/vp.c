#include "vp.h"
#include <stdarg.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#ifdef VP_TRACK /* everything, the harness too, allocates through the library's tracking functions */
static __attribute__((constructor)) void vp_track_on(void) { allocation_tracker_init(); }
#undef asprintf
int vp_asprintf(char** p, const char* f, ...) { va_list v; char* t; va_start(v, f); int n = vasprintf(&t, f, v); va_end(v); if (n < 0) return n; *p = malloc((size_t)n + 1); if (!*p) return -1; memcpy(*p, t, (size_t)n + 1); (free)(t); return n; }
#endif

uint64_t vp_case, vp_seed;
bool vp_thorough, vp_replaying;
vp_rng_t vp_rng;

/* shared with the driver through a file so it survives a crash */
#define TRACE_CAP (1u << 15)
typedef struct {
    uint64_t magic, cur_case, running, trace_pos;
    char fail_key[256];
    char fail_msg[4096];
    char trace[TRACE_CAP];
} vp_state_t;
static vp_state_t vp_state_local, *st = &vp_state_local;
static const char *out_path, *mode_name;
static char scratch[PATH_MAX];
static pid_t main_pid;
static volatile uint64_t beats;
static pthread_mutex_t mon = PTHREAD_MUTEX_INITIALIZER;

/* ---------- rng ---------- */
static uint64_t sm(uint64_t* x) { uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void vp_rng_init(vp_rng_t* r, uint64_t s1, uint64_t s2) { uint64_t x = s1 * 0xD1342543DE82EF95ull + s2; r->a = sm(&x); r->b = sm(&x) | 1; }
uint64_t vp_rng_next(vp_rng_t* r) { uint64_t s1 = r->a, s0 = r->b; uint64_t res = s0 + s1; r->a = s0;
    s1 ^= s1 << 23; r->b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return res; }
uint64_t vp_rng_below(vp_rng_t* r, uint64_t n) { return n ? (vp_rng_next(r) >> 11) % n : 0; }
uint64_t vp_hash(const void* p, size_t n, uint64_t h) { const unsigned char* s = p; h ^= 0xcbf29ce484222325ull;
    while (n--) { h ^= *s++; h *= 0x100000001b3ull; } return h ^ (h >> 29); }
uint64_t vp_mix(uint64_t h, uint64_t v) { uint64_t x = h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2)); return sm(&x); }
uint64_t vp_now_ns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec; }

/* ---------- hash sets and counters ---------- */
typedef struct { uint64_t* v; size_t cap, n; } set_t;
static set_t seen_set, case_set;
static void set_add(set_t* s, uint64_t h) {
    if (!h) h = 1;
    if (s->n * 2 >= s->cap) {
        size_t oc = s->cap; uint64_t* ov = s->v;
        if (oc > (1u << 23)) return;
        s->cap = oc ? oc * 2 : 1024; s->v = calloc(s->cap, 8); s->n = 0;
        for (size_t i = 0; i < oc; i++) if (ov[i]) set_add(s, ov[i]);
        free(ov);
    }
    size_t i = (h * 0x9E3779B97F4A7C15ull) & (s->cap - 1);
    while (s->v[i]) { if (s->v[i] == h) return; i = (i + 1) & (s->cap - 1); }
    s->v[i] = h; s->n++;
}
#define MAXC 160
static struct { const char* name; uint64_t n; } counters[MAXC];
void vp_count(const char* name, uint64_t n) {
    pthread_mutex_lock(&mon);
    for (int i = 0; i < MAXC; i++) {
        if (!counters[i].name) { static char names[16384]; static size_t o; size_t l = strlen(name) + 1; if (o + l > sizeof names) break; memcpy(names + o, name, l); counters[i].name = names + o; o += l; counters[i].n = n; break; }
        if (!strcmp(counters[i].name, name)) { counters[i].n += n; break; }
    }
    pthread_mutex_unlock(&mon);
}
void vp_seen(uint64_t h) { pthread_mutex_lock(&mon); set_add(&seen_set, h); pthread_mutex_unlock(&mon); }
static uint64_t case_hash; static bool case_nt;
static uint64_t total_cases, nontrivial_cases;
void vp_case_mix(uint64_t h) { case_hash = vp_mix(case_hash, h); }
void vp_nontrivial(void) { case_nt = true; }
#define MAXS 4
static char* samples[MAXS]; static int n_samples;
bool vp_want_sample(void) { return n_samples < MAXS && (vp_case % 7) == 3; }
void vp_sample(const char* fmt, ...) {
    if (n_samples >= MAXS) return;
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    samples[n_samples++] = strdup(b);
}
void vp_beat(void) { __atomic_add_fetch(&beats, 1, __ATOMIC_RELAXED); }

/* ---------- trace, failure ---------- */
void vp_trace(const char* fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
    if (n < 0) return; if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    pthread_mutex_lock(&mon);
    for (int i = 0; i < n; i++) st->trace[(st->trace_pos++) % TRACE_CAP] = b[i];
    pthread_mutex_unlock(&mon);
    if (vp_replaying) { ssize_t w = write(2, b, (size_t)n); (void)w; }
}
static void finish(const char* status);
void vp_fail(const char* key, const char* fmt, ...) {
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    static volatile int once;
    if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) { for (;;) pause(); }
    snprintf(st->fail_key, sizeof st->fail_key, "%s", key);
    snprintf(st->fail_msg, sizeof st->fail_msg, "%s", b);
    dprintf(2, "VP-FAIL key=%s mode=%s case=%llu: %s\n", key, mode_name ? mode_name : "?", (unsigned long long)vp_case, b);
    _exit(97);
}
void vp_error(const char* fmt, ...) {
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    dprintf(2, "VP-ERROR mode=%s case=%llu: %s\n", mode_name ? mode_name : "?", (unsigned long long)vp_case, b);
    _exit(96);
}

/* ---------- process observation ---------- */
int vp_count_fds(void) { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n - 3; }
int vp_count_threads(void) { int n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n - 2; }

static __thread bool is_monitor;
static volatile int monitor_tid;
/* fingerprint of all threads' activity except the caller; *busy = some runnable */
static uint64_t activity(bool* busy, char* desc, size_t cap) {
    uint64_t h = 1; *busy = false; size_t off = 0; if (cap) desc[0] = 0;
    int me = (int)gettid();
    DIR* d = opendir("/proc/self/task"); if (!d) { *busy = true; return 0; }
    struct dirent* e;
    while ((e = readdir(d))) {
        int tid = atoi(e->d_name); if (!tid || tid == me || tid == __atomic_load_n(&monitor_tid, __ATOMIC_RELAXED)) continue;
        char p[96], b[2048]; snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
        int fd = open(p, O_RDONLY); if (fd < 0) { *busy = true; continue; }
        ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) { *busy = true; continue; } b[n] = 0;
        char* s = strstr(b, "State:"); char state = s ? s[7] : '?';
        char* v = strstr(b, "voluntary_ctxt_switches:"); unsigned long long vc = v ? strtoull(v + 24, 0, 10) : 0;
        char* nv = strstr(b, "nonvoluntary_ctxt_switches:"); unsigned long long nvc = nv ? strtoull(nv + 27, 0, 10) : 0;
        if (state != 'S') *busy = true;
        h = vp_mix(h, (uint64_t)tid); h = vp_mix(h, vc); h = vp_mix(h, nvc);
        if (off < cap) off += (size_t)snprintf(desc + off, cap - off, "%d:%c/%llu ", tid, state, vc);
    }
    closedir(d);
    return h;
}
static bool at_rest(unsigned secs) {
    bool b1; char d[8]; uint64_t h = activity(&b1, d, 0);
    if (b1) return false;
    for (unsigned i = 0; i < secs * 10; i++) {
        struct timespec ts = {0, 100000000}; nanosleep(&ts, 0);
        bool b2; if (activity(&b2, d, 0) != h || b2) return false;
    }
    return true;
}
/* asleep at (nearly) every look, for secs seconds: what is left only polls (a runnable or disk-bound thread would show) */
static bool only_polling(unsigned secs) {
    unsigned awake = 0, n = secs * 20; char d[8]; bool b;
    for (unsigned i = 0; i < n; i++) { activity(&b, d, 0); if (b && ++awake > n / 20) return false; struct timespec ts = {0, 50000000}; nanosleep(&ts, 0); }
    return true;
}
static volatile int children; /* a child works for us: blocked is not stuck */
static double cpu_s(void) { struct rusage r; getrusage(RUSAGE_SELF, &r);
    return (double)r.ru_utime.tv_sec + (double)r.ru_stime.tv_sec + 1e-6 * (double)(r.ru_utime.tv_usec + r.ru_stime.tv_usec); }
#define REST_AFTER_S 15
#define WALL_MAX_S 240
#define CPU_MAX_S 60
void vp_await(bool (*cond)(void*), void* arg, const char* key, const char* what) {
    uint64_t t0 = vp_now_ns(); unsigned us = 20;
    while (!cond(arg)) {
        struct timespec ts = {0, (long)us * 1000}; nanosleep(&ts, 0); if (us < 2000) us *= 2;
        uint64_t el = (vp_now_ns() - t0) / 1000000000ull;
        if (el >= REST_AFTER_S) {
            if (at_rest(3) && !cond(arg)) vp_fail(key, "%s: process at rest without it", what);
            if (el >= WALL_MAX_S && !cond(arg)) vp_fail(key, "%s: not within %d s", what, WALL_MAX_S);
        }
    }
}
static volatile bool wd_stop;
static void* watchdog(void* arg) {
    (void)arg; is_monitor = true; __atomic_store_n(&monitor_tid, (int)gettid(), __ATOMIC_RELAXED);
    sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, 0);
    uint64_t last = ~0ull, t0 = vp_now_ns(); double c0 = cpu_s();
    while (!__atomic_load_n(&wd_stop, __ATOMIC_RELAXED)) {
        struct timespec ts = {0, 200000000}; nanosleep(&ts, 0);
        uint64_t b = __atomic_load_n(&beats, __ATOMIC_RELAXED);
        if (b != last) { last = b; t0 = vp_now_ns(); c0 = cpu_s(); continue; }
        uint64_t el = (vp_now_ns() - t0) / 1000000000ull;
        char d[600]; bool busy;
        if (el >= REST_AFTER_S + 5 && !__atomic_load_n(&children, __ATOMIC_RELAXED)) {
            if (at_rest(4) && __atomic_load_n(&beats, __ATOMIC_RELAXED) == last) {
                activity(&busy, d, sizeof d);
                vp_fail("deadlock", "no progress, every thread blocked for good: %s", d);
            }
            if (el >= 30 && only_polling(20) && __atomic_load_n(&beats, __ATOMIC_RELAXED) == last && !__atomic_load_n(&children, __ATOMIC_RELAXED)) { activity(&busy, d, sizeof d); vp_fail("deadlock", "no progress in %llu s, threads asleep but for polling: %s", (unsigned long long)((vp_now_ns() - t0) / 1000000000ull), d); }
            if (cpu_s() - c0 > CPU_MAX_S) vp_fail("livelock", "no progress in %d s of CPU time", CPU_MAX_S);
            if (el >= WALL_MAX_S) { activity(&busy, d, sizeof d); vp_fail("hang", "no progress in %d s: %s", WALL_MAX_S, d); }
        }
    }
    return NULL;
}

const char* vp_scratch(void) {
    if (!scratch[0]) {
        const char* base = getenv("VP_TMP"); if (!base) base = "/tmp";
        snprintf(scratch, sizeof scratch, "%s/vps.XXXXXX", base);
        if (!mkdtemp(scratch)) vp_error("mkdtemp %s: %s", scratch, strerror(errno));
    }
    return scratch;
}

int vp_fork_log(void (*fn)(void*), void* arg, char* err, size_t errcap) {
    int pfd[2] = {-1, -1};
    if (err && pipe(pfd)) vp_error("pipe");
    fflush(stdout); fflush(stderr); __atomic_add_fetch(&children, 1, __ATOMIC_RELAXED);
    pid_t p = fork();
    if (p < 0) vp_error("fork: %s", strerror(errno));
    if (!p) {
        int n = open("/dev/null", O_RDWR);
        dup2(n, 1); dup2(err ? pfd[1] : n, 2);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm(100);
        fn(arg);
        _exit(0);
    }
    if (err) {
        close(pfd[1]); size_t off = 0; char b[1024]; ssize_t n;
        while ((n = read(pfd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR))
            for (ssize_t i = 0; i < n; i++) if (off + 1 < errcap) err[off++] = b[i];
        err[off] = 0; close(pfd[0]);
    }
    int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
    __atomic_sub_fetch(&children, 1, __ATOMIC_RELAXED);
    vp_beat();
    return s;
}
int vp_fork(void (*fn)(void*), void* arg) { return vp_fork_log(fn, arg, NULL, 0); }

static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void finish(const char* status) {
    char p[PATH_MAX]; snprintf(p, sizeof p, "%s.json", out_path);
    FILE* f = fopen(p, "w"); if (!f) _exit(96);
    fprintf(f, "{\"status\":\"%s\",\"cases\":%llu,\"nontrivial\":%llu,\"counters\":{", status,
        (unsigned long long)total_cases, (unsigned long long)nontrivial_cases);
    for (int i = 0; i < MAXC && counters[i].name; i++) { if (i) fputc(',', f); jstr(f, counters[i].name); fprintf(f, ":%llu", (unsigned long long)counters[i].n); }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < n_samples; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
    fprintf(f, "]}\n"); fclose(f);
    snprintf(p, sizeof p, "%s.cases", out_path); f = fopen(p, "wb");
    if (f) { for (size_t i = 0; i < case_set.cap; i++) if (case_set.v[i]) fwrite(&case_set.v[i], 8, 1, f); fclose(f); }
    snprintf(p, sizeof p, "%s.seen", out_path); f = fopen(p, "wb");
    if (f) { for (size_t i = 0; i < seen_set.cap; i++) if (seen_set.v[i]) fwrite(&seen_set.v[i], 8, 1, f); fclose(f); }
}

__attribute__((weak)) void vp_harness_init(void) {}
__attribute__((weak)) void vp_harness_done(void) {}

int main(int argc, char** argv) {
    uint64_t from = 0, to = 1; const char* mode = NULL;
    main_pid = getpid();
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--mode")) mode = argv[++i];
        else if (!strcmp(argv[i], "--seed")) vp_seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--to")) to = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--out")) out_path = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) vp_thorough = true;
        else if (!strcmp(argv[i], "--verbose")) vp_replaying = true;
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 96; }
    }
    const vp_mode_t* m = NULL;
    for (const vp_mode_t* k = vp_modes; k->name; k++) if (mode && !strcmp(k->name, mode)) m = k;
    if (!m || !out_path) { fprintf(stderr, "usage: --mode M --out O [--seed --from --to]\n"); return 96; }
    mode_name = m->name;
    char p[PATH_MAX]; snprintf(p, sizeof p, "%s.state", out_path);
    int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof *st)) { perror(p); return 96; }
    void* mm = mmap(0, sizeof *st, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    if (mm == MAP_FAILED) { perror("mmap"); return 96; }
    st = mm; st->magic = 0x56504d4f4e;
    uint64_t mh = vp_hash(m->name, strlen(m->name), 0);
    signal(SIGPIPE, SIG_IGN);
    vp_harness_init();
    pthread_t wd; pthread_create(&wd, 0, watchdog, 0);
    for (vp_case = from; vp_case < to; vp_case++) {
        vp_rng_init(&vp_rng, vp_seed * 0x9E3779B97F4A7C15ull ^ mh, vp_case);
        st->cur_case = vp_case; st->running = 1; st->trace_pos = 0;
        case_hash = 0; case_nt = false;
        m->fn();
        st->running = 0; total_cases++;
        vp_beat();
        if (case_nt) { nontrivial_cases++; set_add(&case_set, case_hash ? case_hash : 1); }
    }
    vp_harness_done();
    __atomic_store_n(&wd_stop, true, __ATOMIC_RELAXED); pthread_join(wd, 0);
    finish("ok");
    if (scratch[0] && getpid() == main_pid) rmdir(scratch);
    return 0;
}

#ifdef __SANITIZE_THREAD__
/* --param tsan-distinguish-volatile=1: accesses to objects declared volatile are left out of race detection (they are flags, and taken for atomic) */
/* but a change of one (read, compute, write) is not: delays before the write let updates made meanwhile get lost */
void vps_point(void) __attribute__((weak));
static void vol_write(void) { static __thread int in; if (in || !vps_point) return; in = 1; int e = errno; vps_point(); errno = e; in = 0; }
#define VOL(n) void __tsan_volatile_read##n(void* p) { (void)p; } void __tsan_volatile_write##n(void* p) { (void)p; vol_write(); }
VOL(1) VOL(2) VOL(4) VOL(8) VOL(16)
void __tsan_unaligned_volatile_read4(void* p) { (void)p; }
#endif
