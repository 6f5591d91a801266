/* C21: the file logger: what it accepted against what its pieces hold, over re-creation, rotation, full queues, frozen and turned-back clocks. */
#include "vp.h"
#include "wrap_clock.h"
#include "lcu.h"
#include "log/file_logger.h"
#include "log/slog.h"
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <semaphore.h>
#pragma weak vps_set
#define MAXM 160000
typedef struct { char* t; size_t n; int thr; bool ok; uint64_t s, e; bool found; } msg_t;
static msg_t ms[MAXM]; static int nm; static uint64_t ticket;
/* clock: forward always, frozen, or turned back */
static int64_t ck_ms; static int ck_mode; static pthread_mutex_t ckm = PTHREAD_MUTEX_INITIALIZER; static vp_rng_t ckr; static int dawdle;
static long slow_ns; /* every look at the clock, which the logger takes when it begins a piece, takes this long: a slow disk */
static void next_ck(struct timeval* tv) { if (slow_ns) { struct timespec ts = { slow_ns / 1000000000, slow_ns % 1000000000 }; nanosleep(&ts, 0); vp_beat(); } pthread_mutex_lock(&ckm); switch (ck_mode) { case 0: ck_ms += 1 + (int64_t)vp_rng_below(&ckr, 5); break; case 1: break; default: ck_ms += (int64_t)vp_rng_below(&ckr, 7) - 3; break; } tv->tv_sec = (time_t)(ck_ms / 1000); tv->tv_usec = (long)(ck_ms % 1000) * 1000; int d = dawdle; pthread_mutex_unlock(&ckm); if (d) { struct timespec ts = { 0, d }; nanosleep(&ts, 0); } }
static pthread_mutex_t ulock = PTHREAD_MUTEX_INITIALIZER; static int acquired; static int acq(void* a) { (void)a; int r = pthread_mutex_lock(&ulock); acquired++; return r; } static int rel(void* a) { (void)a; return pthread_mutex_unlock(&ulock); }
typedef struct { file_logger_handle h; int first, n; int pace; } wr_t;
static void log_one(file_logger_handle h, msg_t* m) { char* c = malloc(m->n ? m->n : 1); memcpy(c, m->t, m->n); m->s = __atomic_add_fetch(&ticket, 1, __ATOMIC_SEQ_CST); int r = file_logger_log(h, c, m->n); m->e = __atomic_add_fetch(&ticket, 1, __ATOMIC_SEQ_CST); m->ok = r == 0; memset(c, '#', m->n); free(c); }
static void* writer(void* a) { wr_t* w = a; for (int i = 0; i < w->n; i++) { log_one(w->h, &ms[w->first + i]); if (w->pace && i % w->pace == 0) { struct timespec ts = { 0, 20000 }; nanosleep(&ts, 0); } } return NULL; }
/* ---- pieces ---- */
typedef struct { char name[120]; char* b; size_t n; int logger; int order; } piece_t; static piece_t pc[4000]; static int npc; static char lost[100];
static int by_name(const void* a, const void* b) { return strcmp(((const piece_t*)a)->name, ((const piece_t*)b)->name); }
static int by_order(const void* a, const void* b) { return ((const piece_t*)a)->order - ((const piece_t*)b)->order; }
static char* slurp(const char* p, size_t* n) { int fd = open(p, O_RDONLY); if (fd < 0) return NULL; struct stat st; fstat(fd, &st); char* b = malloc((size_t)st.st_size + 1); *n = (size_t)read(fd, b, (size_t)st.st_size); b[*n] = 0; close(fd); return b; }
/* take in the pieces that appeared since the last logger; earlier ones must be untouched */
static void take(const char* dir, const char* prefix, int logger) {
    DIR* d = opendir(dir); if (!d) return; struct dirent* e; int old = npc; char p[600]; for (int i = 0; i < old; i++) { snprintf(p, sizeof p, "%s/%s", dir, pc[i].name); size_t n; char* b = slurp(p, &n); VP_CHECK(b && n == pc[i].n && !memcmp(b, pc[i].b, n), "earlier.piece", "piece %s of an earlier logger %s", pc[i].name, b ? "was changed" : "is gone"); free(b); }
    while ((e = readdir(d))) { if (e->d_name[0] == '.') continue; if (!strcmp(e->d_name, lost)) continue; bool known = false; for (int i = 0; i < old && !known; i++) known = !strcmp(pc[i].name, e->d_name); if (known) continue;
        VP_CHECK(!strncmp(e->d_name, prefix, strlen(prefix)) && strlen(e->d_name) > 4 && !strcmp(e->d_name + strlen(e->d_name) - 4, ".log"), "piece.name", "a file named %s appeared (prefix %s)", e->d_name, prefix); if (npc == 4000) vp_error("too many pieces"); snprintf(p, sizeof p, "%s/%s", dir, e->d_name); piece_t* q = &pc[npc++]; snprintf(q->name, sizeof q->name, "%s", e->d_name); q->b = slurp(p, &q->n); q->logger = logger; }
    closedir(d); }
static size_t text_len(const msg_t* m) { return strnlen(m->t, m->n); }
static int id_at(const char* s) { int id; return sscanf(s, "#%d#", &id) == 1 && id >= 0 && id < nm ? id : -1; }
static void verify(int from, int to, int first_piece, size_t max, bool forward, bool threads) {
    /* put this logger's pieces in order: by the first record's number if one thread logged, else by name */
    for (int i = first_piece; i < npc; i++) { VP_CHECK(pc[i].n, "piece.empty", "piece %s is empty", pc[i].name); pc[i].order = id_at(pc[i].b); VP_CHECK(pc[i].order >= from && pc[i].order < to, "piece.start", "piece %s does not begin with a record of this logger: \"%.60s\"", pc[i].name, pc[i].b); }
    if (threads) qsort(pc + first_piece, (size_t)(npc - first_piece), sizeof *pc, by_name); else qsort(pc + first_piece, (size_t)(npc - first_piece), sizeof *pc, by_order);
    if (!threads && forward) for (int i = first_piece + 1; i < npc; i++) VP_CHECK(strcmp(pc[i - 1].name, pc[i].name) < 0, "piece.order", "with the clock going forward piece %s was begun before %s", pc[i - 1].name, pc[i].name);
    int next = from; uint64_t maxs = 0; int maxid = -1; int last[8]; for (int i = 0; i < 8; i++) last[i] = -1; int found = 0;
    for (int i = first_piece; i < npc; i++) { char* s = pc[i].b, *end = s + pc[i].n; size_t lastlen = 0; while (s < end) {
            int id = id_at(s); VP_CHECK(id >= from && id < to, "record", "piece %s, byte %zd: no record begins here: \"%.60s\"", pc[i].name, s - pc[i].b, s); msg_t* m = &ms[id]; size_t L = text_len(m); VP_CHECK((size_t)(end - s) >= L + 1 && !memcmp(s, m->t, L) && s[L] == '\n', "record.text", "piece %s: record %d is not whole: %zd of %zu bytes left, \"%.60s\"", pc[i].name, id, end - s, L + 1, s);
            VP_CHECK(!m->found, "once", "record %d was written twice", id); m->found = true; VP_CHECK(m->ok, "refused.written", "record %d was refused, but written", id);
            if (!threads) { VP_CHECK(id >= next, "order", "record %d after a later one", id); next = id + 1; } else { VP_CHECK(id > last[m->thr], "order", "thread %d: record %d after %d", m->thr, id, last[m->thr]); last[m->thr] = id; VP_CHECK(m->e > maxs, "order", "record %d, accepted before record %d was offered, stands behind it", id, maxid); if (m->s > maxs) { maxs = m->s; maxid = id; } }
            s += L + 1; lastlen = L + 1; found++; }
        if (max) { if (i < npc - 1) { VP_CHECK(pc[i].n >= max, "piece.short", "piece %s was closed with %zu of %zu bytes", pc[i].name, pc[i].n, max); vp_count("full_pieces", 1); } VP_CHECK(pc[i].n - lastlen < max, "piece.long", "piece %s has %zu bytes, %zu before its last record; the limit is %zu", pc[i].name, pc[i].n, pc[i].n - lastlen, max); } }
    if (!max) VP_CHECK(npc - first_piece <= 1, "piece.count", "%d pieces without a size limit", npc - first_piece);
    for (int i = from; i < to; i++) if (ms[i].ok && ms[i].n && !ms[i].found) vp_fail("lost", "record %d of %d-%d (%zu bytes) was accepted but is in no piece", i, from, to - 1, ms[i].n);
    vp_count("written", (uint64_t)found); vp_count("pieces", (uint64_t)(npc - first_piece));
}
static void wipe(const char* dir) { DIR* d = opendir(dir); if (!d) return; struct dirent* e; char p[600]; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { snprintf(p, sizeof p, "%s/%s", dir, e->d_name); if (unlink(p)) { wipe(p); rmdir(p); } } closedir(d); }
static int thr_base; static bool thr_back(void* a) { (void)a; return vp_count_threads() <= thr_base; }
static void m_flog(void) {
    static char cwd[300]; if (!cwd[0]) { if (!getcwd(cwd, sizeof cwd)) vp_error("cwd"); slog_set_min_level(LOG_LEVEL_OFF); } char root[280]; snprintf(root, sizeof root, "%s/fl", vp_scratch()); wipe(root); mkdir(root, 0700); if (chdir(root)) vp_error("chdir");
    static const char* paths[] = { "log", "log/", "./log", "a/b/c", "a\\b\\c", "x/log//" }; static const char* real[] = { "log", "log", "log", "a/b/c", "a/b/c", "x/log" }; int pi = (int)vp_below(6); char path[300], dir[400]; bool absol = vp_chance(1, 4) && strlen(root) < 110; snprintf(path, sizeof path, absol ? "%s/%s" : "%2$s", root, paths[pi]); if (absol && pi == 2) snprintf(path, sizeof path, "%s/log", root); snprintf(dir, sizeof dir, "%s/%s", root, real[pi]);
    static const char* prefixes[] = { "lcu_", "", "a", "a-rather-long-prefix-of-31-chars" }; const char* prefix = prefixes[vp_below(4)]; char pfx[32]; snprintf(pfx, sizeof pfx, "%s", prefix); snprintf(lost, sizeof lost, "%s_lost.log", pfx);
    bool pre = vp_chance(1, 2); if (pre) { char c[800]; strcpy(c, dir); for (char* q = c + strlen(root) + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(c, 0700); *q = '/'; } mkdir(c, 0700); }
    for (int i = 0; i < npc; i++) free(pc[i].b); npc = 0; for (int i = 0; i < nm; i++) free(ms[i].t); nm = 0; ticket = 0;
    vp_rng_init(&ckr, vp_rand(), 1); ck_mode = (int)vp_below(3); ck_ms = 1000000000000ll + (int64_t)vp_below(900000000000ull); vck_next = next_ck; vck_on = true;
    size_t hugeb = 0; int loggers = (int)vp_between(1, 3), refused = 0, accepted = 0, big = 0; uint64_t h = 1; static char lostwant[4 << 20]; size_t nlost = 0; bool lost_known = pre;
    for (int L = 0; L < loggers; L++) {
        int nt = vp_chance(1, 3) ? (int)vp_between(2, 4) : 1; if (nt > 1) ck_mode = 0; bool lk = nt > 1 || vp_chance(1, 2), best = vp_chance(1, 2); size_t max = vp_chance(1, 3) ? 0 : vp_chance(1, 8) ? vp_below(64) : vp_chance(1, 2) ? 64 + vp_below(200) : 500 + vp_below(6000), q = vp_chance(1, 2) ? vp_between(2, 6) : vp_chance(1, 3) ? vp_between(64, 1024) : vp_between(8, 64);
        dawdle = vp_chance(1, 3) ? (int)vp_below(300000) : 0; if (dawdle && max && max < 200) dawdle /= 8;
        file_logger_cfg cfg; memset(&cfg, 0, sizeof cfg); strcpy(cfg.log_folder_path, path); strcpy(cfg.log_file_name_prefix, pfx); cfg.one_piece_file_max_len = max; cfg.log_queue_size = q; cfg.is_try_my_best_to_keep_log = best; if (lk) { cfg.lock.acquire = acq; cfg.lock.release = rel; }
        int per = (int)vp_between(1, nt > 1 ? 120 : 300), first = nm; wr_t w[4]; pthread_t t[4];
        int lenkind = (int)vp_below(4); bool edging = vp_chance(1, 4); int edgek = (int)vp_between(11, 13); for (int k = 0; k < nt; k++) { w[k] = (wr_t){ NULL, nm, per, vp_chance(1, 3) ? (int)vp_between(1, 20) : 0 }; for (int i = 0; i < per && nm < MAXM; i++) { msg_t* m = &ms[nm]; size_t n = lenkind == 3 && hugeb < 1500000 && vp_chance(1, 60) ? vp_between(60000, 140000) : lenkind == 0 ? vp_below(40) : vp_chance(1, 25) ? vp_below(9000) : vp_chance(1, 20) ? 2030 + vp_below(40) : vp_below(300); size_t total = 0; if (edging && vp_chance(1, 5) && edgek < 17) { /* a record that fills the logger's copy to the last byte, then one a little longer */ if (vp_chance(1, 2)) total = ((size_t)1 << edgek) - vp_below(3); else { total = ((size_t)1 << edgek) + 1 + vp_below(24); edgek++; } hugeb += total; vp_count("edge_records", 1); } if (n > 50000) { hugeb += n; vp_count("huge_records", 1); } char hd[24]; size_t hl = (size_t)sprintf(hd, "#%d#", nm); if (total) n = total - hl; m->t = malloc(hl + n + 1); memcpy(m->t, hd, hl); for (size_t j = 0; j < n; j++) m->t[hl + j] = (char)(nt == 1 && vp_chance(1, 80) ? '\n' : vp_chance(1, 50) ? '%' : (' ' + 4 + (int)vp_below(90))); m->t[hl + n] = 0; m->n = hl + n + (vp_chance(1, 2) ? 1 : 0); if (total) m->n = total; if (nt == 1 && vp_chance(1, 60)) m->n = 0; m->thr = k; m->ok = m->found = false; nm++; } w[k].n = nm - w[k].first; }
        int fds = vp_count_fds(); thr_base = vp_count_threads(); vpm_begin(); if (vps_set) vps_set(vp_rand(), vp_chance(1, 2) ? (unsigned)vp_below(30) : 0); acquired = 0;
        file_logger_handle fl = file_logger_init(&cfg); VP_CHECK(fl, "init", "folder \"%s\" queue %zu piece %zu: no logger", path, q, max); if (max < 64) max = 0; /* documented: too small a limit means no limit */
        for (int k = 0; k < nt; k++) w[k].h = fl;
        if (nt == 1) writer(&w[0]); else { for (int k = 0; k < nt; k++) pthread_create(&t[k], 0, writer, &w[k]); for (int k = 0; k < nt; k++) pthread_join(t[k], 0); vp_count("threaded_loggers", 1); }
        if (lk) VP_CHECK(acquired >= nm - first, "lock", "%d records, the given lock was taken %d times", nm - first, acquired);
        if (vp_chance(1, 4)) { struct timespec ts = { 0, (long)vp_below(3000000) }; nanosleep(&ts, 0); } else vp_count("stopped_at_once", 1);
        int r = file_logger_deinit(&fl); VP_CHECK(r == 0 && !fl, "deinit", "returned %d, handle %p", r, (void*)fl); VP_CHECK(file_logger_deinit(&fl) != 0, "deinit", "stopping a stopped logger succeeded"); { char dd[200]; vpm_dump(dd, sizeof dd); VP_CHECK(vpm_live() == 0, "leak", "%ld blocks left: %s", vpm_live(), dd); } vpm_end(); if (vps_set) vps_set(0, 0);
        vp_await(thr_back, NULL, "threads", "the logger's thread to end"); VP_CHECK(vp_count_fds() == fds, "descriptors", "%d descriptors, %d before", vp_count_fds(), fds);
        int fp = npc; take(dir, pfx, L); verify(first, nm, fp, max, ck_mode == 0, nt > 1);
        for (int i = first; i < nm; i++) { if (ms[i].ok) accepted++; else { refused++; if (best && nt == 1) { size_t l = text_len(&ms[i]); memcpy(lostwant + nlost, ms[i].t, l); nlost += l; memcpy(lostwant + nlost, "\n\n", 2); nlost += 2; } else if (best) lost_known = false; } if (ms[i].n > 2048) big++; h = vp_mix(h, ms[i].n * 2 + ms[i].ok); }
        vp_seen(vp_mix(vp_mix((uint64_t)(npc - fp), (uint64_t)ck_mode * 16 + (uint64_t)nt), vp_mix((uint64_t)refused, q))); vp_count("loggers", 1); if (ck_mode == 1) vp_count("frozen_clock", 1); if (ck_mode == 2) vp_count("clock_turned_back", 1); if (npc - fp > 1) vp_count("rotated", 1);
    }
    if (lost_known) { char p[600]; snprintf(p, sizeof p, "%s/%s", dir, lost); size_t n = 0; char* b = slurp(p, &n); VP_CHECK(n == nlost && (!n || !memcmp(b, lostwant, n)), "kept", "the file of refused records holds %zu bytes, expected %zu", n, nlost); free(b); if (n) vp_count("kept_refused", 1); }
    vck_on = false; if (chdir(cwd)) vp_error("chdir"); vp_count("accepted", (uint64_t)accepted); vp_count("refused", (uint64_t)refused); vp_count("large_records", (uint64_t)big); vp_case_mix(h); if (accepted > 20) vp_nontrivial(); if (vp_want_sample()) vp_sample("%d loggers, %d accepted, %d refused, %d pieces", loggers, accepted, refused, npc);
}
static void m_config(void) { /* refused configurations leave nothing behind */
    slog_set_min_level(LOG_LEVEL_OFF); char root[280]; snprintf(root, sizeof root, "%s/cf", vp_scratch()); mkdir(root, 0700); int fds = vp_count_fds(); thr_base = vp_count_threads(); vpm_begin(); file_logger_cfg c; file_logger_handle h; VP_CHECK(!file_logger_init(NULL), "config", "NULL configuration accepted");
    memset(&c, 0, sizeof c); c.log_queue_size = 8; VP_CHECK(!file_logger_init(&c), "config", "empty folder accepted"); strcpy(c.log_folder_path, "x"); VP_CHECK(!file_logger_init(&c), "config", "one-character folder accepted"); strcpy(c.log_folder_path, root); c.log_queue_size = 1; VP_CHECK(!file_logger_init(&c), "config", "queue of 1 accepted"); c.log_queue_size = 0; VP_CHECK(!file_logger_init(&c), "config", "queue of 0 accepted");
    for (int n = 120; n <= 127; n++) for (int slash = 0; slash < 2; slash++) { memset(&c, 0, sizeof c); c.log_queue_size = 8; snprintf(c.log_folder_path, sizeof c.log_folder_path, "%s/", root); size_t l = strlen(c.log_folder_path); memset(c.log_folder_path + l, 'd', (size_t)n - l); if (slash) c.log_folder_path[n - 1] = '/'; char want[160]; snprintf(want, sizeof want, "%s", c.log_folder_path); h = file_logger_init(&c); if (n < 127 || slash) VP_CHECK(h, "config", "a folder path of %d characters was refused", n);
        if (h) { char m[] = "one"; VP_CHECK(file_logger_log(h, m, 4) == 0, "config", "not accepted"); file_logger_deinit(&h); struct stat st; VP_CHECK(stat(want, &st) == 0 && S_ISDIR(st.st_mode), "config.folder", "the log went elsewhere than %s", want); wipe(want); rmdir(want); vp_count("long_folders", 1); } else vp_count("folder_refused", 1); DIR* d = opendir(root); struct dirent* e; while ((e = readdir(d))) VP_CHECK(e->d_name[0] == '.', "config.folder", "path of %d characters: a folder %s was made", n, e->d_name); closedir(d); }
    /* a record no queue can carry: refused, and the logger goes on */
    { char* z = mmap(NULL, (1ull << 32) + 8192, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); VP_CHECK(z != MAP_FAILED, "harness", "mmap"); static const size_t sizes[] = { 1ull << 31, (1ull << 31) + 1, 3ull << 30, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 10, (1ull << 32) + 5000 };
      for (int best = 0; best < 2; best++) { memset(&c, 0, sizeof c); c.log_queue_size = 8; c.is_try_my_best_to_keep_log = best; snprintf(c.log_folder_path, sizeof c.log_folder_path, "%s/", root); snprintf(c.log_file_name_prefix, sizeof c.log_file_name_prefix, "huge%d", best); h = file_logger_init(&c); VP_CHECK(h, "config", "refused");
        for (int i = 0; i < 7; i++) { VP_CHECK(file_logger_log(h, z, sizes[i]) != 0, "refuse", "a record of %zu bytes was accepted", sizes[i]); char m[] = "small"; VP_CHECK(file_logger_log(h, m, 6) == 0, "refuse", "the next record was not accepted"); vp_count("unqueueable", 1); struct timespec ts = { 0, 1000000 }; nanosleep(&ts, 0); }
        file_logger_deinit(&h); }
      munmap(z, (1ull << 32) + 8192); }
    h = NULL; VP_CHECK(file_logger_deinit(&h) != 0 && file_logger_deinit(NULL) != 0, "config", "stopping nothing succeeded"); VP_CHECK(vpm_live() == 0, "leak", "%ld blocks left by refused configurations", vpm_live()); vpm_end(); vp_await(thr_back, NULL, "threads", "threads to end"); VP_CHECK(vp_count_fds() == fds, "descriptors", "descriptors left"); vp_nontrivial(); vp_case_mix(1); }
/* the folder cannot be made for a while: what is logged once it can be made is written whole, in order, once */
static void m_obstacle(void) {
    slog_set_min_level(LOG_LEVEL_OFF); char root[280], p[400], t[400]; snprintf(root, sizeof root, "%s/ob", vp_scratch()); mkdir(root, 0700); wipe(root); snprintf(p, sizeof p, "%s/log", root); if (strlen(p) > 120) vp_error("scratch path too long");
    int fd = open(p, O_WRONLY | O_CREAT, 0600); if (fd < 0) vp_error("obstacle"); close(fd); int fds = vp_count_fds(); thr_base = vp_count_threads(); int early = 1 + (int)vp_below(20), late = 1 + (int)vp_below(200); bool same = vp_chance(1, 2);
    file_logger_cfg c; memset(&c, 0, sizeof c); strcpy(c.log_folder_path, p); strcpy(c.log_file_name_prefix, "o"); c.log_queue_size = 1024; c.one_piece_file_max_len = same ? 0 : 64 + vp_below(600);
    vpm_begin(); file_logger_handle h = file_logger_init(&c); VP_CHECK(h, "obstacle", "no logger"); char* hist = malloc(64 * 1024); size_t hn = 0, from = 0;
    for (int i = 0; i < early + late; i++) { if (i == early) { struct timespec ts = { 0, (long)vp_below(3000000) }; nanosleep(&ts, 0); if (unlink(p)) vp_error("unlink"); from = hn; } int n = snprintf(t, sizeof t, "#%d#%0*d", i, 1 + (int)vp_below(60), i); int r = file_logger_log(h, t, (size_t)n); VP_CHECK(r == 0, "obstacle.accept", "record %d was not accepted (%d)", i, r); memcpy(hist + hn, t, (size_t)n); hn += (size_t)n; hist[hn++] = '\n'; }
    VP_CHECK(file_logger_deinit(&h) == 0 && !h, "deinit", "not stopped");
    struct dirent** de = NULL; int k = scandir(p, &de, NULL, alphasort); char* got = malloc(256 * 1024); size_t gn = 0; typedef struct { int id; char* b; size_t n; } pp; pp q[600]; int nq = 0;
    for (int i = 0; i < k; i++) { if (de[i]->d_name[0] != '.' && nq < 600) { char f[700]; snprintf(f, sizeof f, "%s/%s", p, de[i]->d_name); q[nq].b = slurp(f, &q[nq].n); if (!q[nq].b || sscanf(q[nq].b, "#%d#", &q[nq].id) != 1) vp_fail("obstacle.piece", "piece %s begins with no record", de[i]->d_name); nq++; } (free)(de[i]); } (free)(de);
    while (nq) { int b = 0; for (int i = 1; i < nq; i++) if (q[i].id < q[b].id) b = i; VP_CHECK(gn + q[b].n < 256 * 1024, "obstacle.more", "more was written than accepted"); memcpy(got + gn, q[b].b, q[b].n); gn += q[b].n; free(q[b].b); q[b] = q[--nq]; }
    /* what stands in the pieces is a suffix of what was accepted, and holds at least everything logged after the way was free */
    VP_CHECK(gn >= hn - from && gn <= hn && !memcmp(got, hist + hn - gn, gn) && (gn == hn || hist[hn - gn - 1] == '\n'), "obstacle.lost", "%d records while the folder could not be made, %d after: %zu bytes written, at least %zu expected", early, late, gn, hn - from);
    free(got); free(hist); VP_CHECK(vpm_live() == 0, "leak", "%ld blocks left", vpm_live()); vpm_end(); vp_await(thr_back, NULL, "threads", "threads to end"); VP_CHECK(vp_count_fds() == fds, "descriptors", "%d descriptors, %d before", vp_count_fds(), fds); wipe(root);
    vp_count("obstacles", 1); if (gn < hn) vp_count("dropped_while_blocked", 1); vp_case_mix((uint64_t)early * 1000 + (uint64_t)late); vp_nontrivial(); }
/* stopped with seconds of work still queued: all of it is written first */
static void m_slow(void) {
    slog_set_min_level(LOG_LEVEL_OFF); char root[280], t[200]; snprintf(root, sizeof root, "%s/sl", vp_scratch()); mkdir(root, 0700); wipe(root); int fds = vp_count_fds(); thr_base = vp_count_threads(); int n = 40 + (int)vp_below(60); int64_t total = (int64_t)vp_between(3000, 6000);
    ck_mode = 0; ck_ms = 1500000000000ll; vp_rng_init(&ckr, vp_rand(), 1); vck_next = next_ck; vck_on = true; slow_ns = (long)(total * 1000000 / n); dawdle = 0;
    file_logger_cfg c; memset(&c, 0, sizeof c); strcpy(c.log_folder_path, root); strcpy(c.log_file_name_prefix, "s"); c.log_queue_size = 64; c.one_piece_file_max_len = 64; vpm_begin(); file_logger_handle h = file_logger_init(&c); VP_CHECK(h, "slow", "no logger"); int64_t t0 = (int64_t)(vp_now_ns() / 1000000);
    for (int i = 0; i < n; i++) { int k = snprintf(t, sizeof t, "#%d#%080d", i, i); VP_CHECK(file_logger_log(h, t, (size_t)k) == 0, "slow.accept", "record %d was not accepted", i); }
    VP_CHECK(file_logger_deinit(&h) == 0 && !h, "deinit", "not stopped"); int64_t took = (int64_t)(vp_now_ns() / 1000000) - t0; slow_ns = 0; vck_on = false; VP_CHECK(vpm_live() == 0, "leak", "%ld blocks left", vpm_live()); vpm_end();
    vp_await(thr_back, NULL, "threads", "threads to end"); VP_CHECK(vp_count_fds() == fds, "descriptors", "%d descriptors, %d before", vp_count_fds(), fds);
    struct dirent** de = NULL; int k = scandir(root, &de, NULL, alphasort), id = 0; for (int i = 0; i < k; i++) { if (de[i]->d_name[0] != '.') { char f[700]; size_t m; snprintf(f, sizeof f, "%s/%s", root, de[i]->d_name); char* b = slurp(f, &m); int l = snprintf(t, sizeof t, "#%d#%080d\n", id, id); VP_CHECK(b && m == (size_t)l && !memcmp(b, t, m), "slow.lost", "piece %d of %d holds %zu bytes, \"%.30s\"; record %d belongs there", i - 1, k - 2, m, b ? b : "", id); free(b); id++; } (free)(de[i]); } (free)(de);
    VP_CHECK(id == n, "slow.lost", "%d records were accepted, the logger was stopped while its disk needed %lld ms for them, and %d are written", n, (long long)total, id); wipe(root);
    vp_count("slow_records", (uint64_t)n); if (took > 2500) vp_count("slow_stops", 1); vp_case_mix((uint64_t)n * 100000 + (uint64_t)total); vp_nontrivial(); if (vp_want_sample()) vp_sample("%d records on a disk that needs %lld ms for them, stopped at once", n, (long long)total); }
/* one logger for a long time: more than 2^16 records, pieces of up to some megabytes, or more than a thousand pieces begun at one moment */
static void m_long(void) {
    slog_set_min_level(LOG_LEVEL_OFF); char root[280], dir[400]; snprintf(root, sizeof root, "%s/fl", vp_scratch()); wipe(root); mkdir(root, 0700); snprintf(dir, sizeof dir, "%s/long", root); for (int i = 0; i < npc; i++) free(pc[i].b); npc = 0; for (int i = 0; i < nm; i++) free(ms[i].t); nm = 0; ticket = 0; strcpy(lost, "l_lost.log");
    bool many = vp_case % 2; vp_rng_init(&ckr, vp_rand(), 1); ck_mode = many ? 1 : 0; ck_ms = 1000000000000ll + (int64_t)vp_below(900000000000ull); vck_next = next_ck; vck_on = true; dawdle = 0;
    size_t max = many ? 64 : vp_chance(1, 4) ? 0 : vp_chance(1, 3) ? 65536 + vp_below(70000) : (vp_between(100, 3000) << 10) + vp_below(1000); int n = many ? (int)vp_between(1050, 1250) : (int)vp_between(66000, 90000);
    for (; nm < n; nm++) { msg_t* m = &ms[nm]; size_t k = many ? vp_between(64, 120) : vp_between(1, 120); char hd[24]; size_t hl = (size_t)sprintf(hd, "#%d#", nm); m->t = malloc(hl + k + 1); memcpy(m->t, hd, hl); memset(m->t + hl, 'a' + nm % 26, k); m->t[hl + k] = 0; m->n = hl + k; m->thr = 0; m->ok = m->found = false; }
    file_logger_cfg cfg; memset(&cfg, 0, sizeof cfg); snprintf(cfg.log_folder_path, sizeof cfg.log_folder_path, "%s", dir); strcpy(cfg.log_file_name_prefix, "l_"); cfg.one_piece_file_max_len = max; cfg.log_queue_size = vp_chance(1, 2) ? 64 : 4096; file_logger_handle fl = file_logger_init(&cfg); VP_CHECK(fl, "init", "no logger in \"%s\"", dir); int refused = 0;
    for (int i = 0; i < nm; i++) { for (int t = 0; t < 2000; t++) { log_one(fl, &ms[i]); if (ms[i].ok || t == 1999) break; refused++; struct timespec ts = { 0, 200000 }; nanosleep(&ts, 0); } if (!(i & 0x1ff)) vp_beat(); VP_CHECK(ms[i].ok, "refused", "record %d refused for good by a logger whose queue has been emptied", i); }
    VP_CHECK(file_logger_deinit(&fl) == 0 && !fl, "deinit", "refused"); vp_beat(); take(dir, "l_", 0); vp_beat(); verify(0, nm, 0, max, ck_mode == 0, false); vck_on = false;
    vp_count("long_lives", 1); if (many) vp_count("pieces_of_one_moment", (uint64_t)npc); else vp_count("records_of_one_logger", (uint64_t)nm); vp_seen(vp_mix((uint64_t)npc, (uint64_t)refused)); vp_case_mix(vp_mix((uint64_t)nm, max)); vp_nontrivial(); if (vp_want_sample()) vp_sample("%d records, %d pieces of %zu, %d refusals met", nm, npc, max, refused); wipe(root);
}
const vp_mode_t vp_modes[] = { {"long", m_long}, {"slow", m_slow}, {"obstacle", m_obstacle}, {"flog", m_flog}, {"config", m_config}, {0} };
