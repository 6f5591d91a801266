/* C25: documented concurrent use under the race detector. The threads of a case share nothing of the harness but what the library hands over,
 * so that the only ordering the detector sees is the library's (and the locks its user gave it). */
#include "vp.h"
#include "lcu.h"
#include "data/hashmap.h"
#include "mem/mplite.h"
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "ring/autocover_buffer.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
#include "thread/thpool.h"
#include "file/ini_parser.h"
#include "log/xlog.h"
void slog_set_min_level(LogLevel); /* slog.h and xlog.h name the same macros */
#include "log/file_logger.h"
#include "time/time_util.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
#include "mem/strings.h"
#include "mem/str_params.h"
#include "net/url_encoder_decoder.h"
#include "data/base64.h"
#include "data/list.h"
#include "data/array.h"
#include "mem/stringbuilder.h"
#include "file/ini_reader.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#pragma weak vps_set
/* a thread: its own generator and its own tallies, read after it was joined */
typedef struct { int id, ops; vp_rng_t r; uint64_t a, b, c, h; void* x; pthread_t t; } thr_t;
static thr_t T[12]; static pthread_barrier_t bar; static void (*body)(thr_t*);
#define below(n) vp_rng_below(&t->r, (uint64_t)(n))
static void nap(thr_t* t, int in) { if (below(in) == 0) { if (below(2)) sched_yield(); else { struct timespec ts = { 0, (long)below(30000) }; nanosleep(&ts, 0); } } }
static void* go(void* p) { pthread_barrier_wait(&bar); body(p); return 0; }
static void start(int n, void (*f)(thr_t*), int ops) { body = f; pthread_barrier_init(&bar, 0, (unsigned)n + 1); if (vps_set) vps_set(vp_rand(), vp_chance(1, 3) ? 0 : (unsigned)vp_below(20));
    for (int i = 0; i < n; i++) { T[i] = (thr_t){ .id = i, .ops = ops }; vp_rng_init(&T[i].r, vp_rand(), (uint64_t)i); pthread_create(&T[i].t, 0, go, &T[i]); } pthread_barrier_wait(&bar); }
static void finish(int n, const char* what, const char* la, const char* lb, const char* lc) { char c[64]; uint64_t a = 0, b = 0, k = 0, h = 0; for (int i = 0; i < n; i++) { pthread_join(T[i].t, 0); a += T[i].a; b += T[i].b; k += T[i].c; h = vp_mix(h, T[i].h + T[i].a); } if (vps_set) vps_set(0, 0); pthread_barrier_destroy(&bar);
    snprintf(c, sizeof c, "%s_%s", what, la); vp_count(c, a); snprintf(c, sizeof c, "%s_%s", what, lb); vp_count(c, b); snprintf(c, sizeof c, "%s_%s", what, lc); vp_count(c, k); vp_seen(h); vp_case_mix(vp_mix(h, vp_case)); if (a) vp_nontrivial(); }
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static int acq(void* a) { return pthread_mutex_lock(a); } static int rel(void* a) { return pthread_mutex_unlock(a); }
/* ---- hash map ---- */
static hashmap_t* M; static int kh(const void* k) { return *(const int*)k * 31; } static bool keq(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
static int span; static void kfree(void* p) { *(int*)p = -1; free(p); }
static bool visit(void* k, void* v, void* u) { thr_t* t = u; t->h += (uint64_t)(*(int*)k + *(int*)v); t->c++; return below(20) != 0; }
static void map_body(thr_t* t) { for (int i = 0; i < t->ops; i++) { int k = (int)below(span), w = (int)below(40); if (w < 18) { int* kp = malloc(sizeof *kp), *v = malloc(sizeof *v); *kp = k; *v = k * 2; if (hashmap_put(M, kp, v)) kfree(kp); t->a++; } else if (w < 28) t->b += hashmap_get(M, &k) != 0; else if (w < 36) hashmap_remove(M, &k); else if (w < 38) t->h += hashmap_size(M); else if (w == 38) hashmap_foreach(M, visit, t); else if (below(10) == 0) hashmap_clear(M); nap(t, 50); } }
static void m_map(void) { hashmap_lock_t lk = { &mx, acq, rel }; span = vp_chance(1, 2) ? 10 : 400; M = hashmap_create(vp_chance(1, 2) ? 1 : vp_below(60), kh, kfree, kfree, keq, &lk); int n = (int)vp_between(2, 6); start(n, map_body, (int)vp_between(50, 600)); finish(n, "map", "puts", "hits", "visited"); hashmap_free(M); }
/* ---- memory pool ---- */
static mplite_t H;
static void pool_body(thr_t* t) { uint8_t* p[16]; int sz[16], n = 0; for (int i = 0; i < t->ops; i++) { if (n < 16 && below(2)) { int s = 1 + (int)below(below(8) ? 60 : 500); uint8_t* q = below(2) ? mplite_malloc(&H, s) : mplite_calloc(&H, s); if (q) { memset(q, t->id, (size_t)s); p[n] = q; sz[n++] = s; t->a++; } else t->b++; }
    else if (n) { int k = (int)below(n); t->h += p[k][sz[k] - 1]; if (below(4) == 0) { int s = 8 << below(7); uint8_t* q = mplite_realloc(&H, p[k], s); if (q) { p[k] = q; sz[k] = s; memset(q, t->id, (size_t)s); } } else { mplite_free(&H, p[k]); p[k] = p[--n]; sz[k] = sz[n]; } } if (below(20) == 0) { t->h += (uint64_t)(mplite_maxmem(&H) + mplite_freemem(&H)); t->c++; } nap(t, 60); }
    while (n) mplite_free(&H, p[--n]); }
static void m_pool(void) { int sz = (int)vp_between(2000, 20000); void* b = malloc((size_t)sz); mplite_lock_t lk = { &mx, acq, rel }; mplite_init(&H, b, sz, 8 << vp_below(3), &lk); int n = (int)vp_between(2, 6); start(n, pool_body, (int)vp_between(50, 800)); finish(n, "pool", "allocations", "refused", "statistics"); free(b); }
/* ---- auto-covering buffer ---- */
static auto_cover_buf_handle B; static uint32_t bcap;
static uint32_t written; /* relaxed: tells the reader where to look, orders nothing */
static void cover_body(thr_t* t) { char b[300]; for (int i = 0; i < t->ops; i++) { uint32_t n = 1 + (uint32_t)below(bcap < 300 ? bcap : 300); if (t->id % 2 == 0) { memset(b, t->id, n); if (auto_cover_buf_write(B, b, n) > 0) { t->a++; __atomic_fetch_add(&written, n, __ATOMIC_RELAXED); } }
    else { uint32_t w = __atomic_load_n(&written, __ATOMIC_RELAXED), back = (uint32_t)below(bcap + 1); uint32_t pos = back < w ? w - back : 0; int av = auto_cover_buf_available_read(B, pos); if (av > 0) { int r = auto_cover_buf_read(B, pos, b, (uint32_t)av < n ? (uint32_t)av : n); if (r > 0) { t->b++; t->h += (uint64_t)b[r - 1]; } } else if (av == AUTO_COVER_BUF_ERR_DATA_COVERED) t->c++; } nap(t, 40); } }
static void m_cover(void) { written = 0; auto_cover_buf_lock_t lk = { &mx, acq, rel }; bcap = (uint32_t)vp_between(8, 800); B = auto_cover_buf_create(bcap, &lk); int n = (int)vp_between(2, 6); start(n, cover_body, (int)vp_between(100, 800)); finish(n, "cover", "writes", "reads", "overtaken"); auto_cover_buf_destroy(&B); }
/* ---- one producer, one consumer ---- */
static ring_buffer_handle R1; static ring_handle R2; static msg_queue R3; static fixed_msg_queue R4; static int rkind;
static void ring_body(thr_t* t) { char b[64]; uint32_t n; for (int i = 0; i < t->ops; i++) { n = 1 + (uint32_t)below(40); if (t->id == 0) { memset(b, i, sizeof b); switch (rkind) { case 0: n = RingBuffer_write(R1, b, n); break; case 1: n = (uint32_t)ring_buf_write(R2, b, n); break; case 2: n = msg_queue_push(R3, b, n) == MSG_Q_CODE_SUCCESS; break; default: n = fixed_msg_queue_push(R4, b); } if (n) t->a++; else t->c++; }
    else { switch (rkind) { case 0: switch (below(5)) { case 0: n = RingBuffer_peek(R1, b, n); if (n) t->h += (uint64_t)b[n - 1]; n = 0; break; case 1: n = RingBuffer_discard(R1, n); break; case 2: n = RingBuffer_is_empty(R1) ? 0 : RingBuffer_read(R1, b, n); break; default: n = RingBuffer_read(R1, b, n); } break;
        case 1: switch (below(4)) { case 0: n = (uint32_t)ring_buf_available_read(R2); if (n > 40) n = 40; n = (uint32_t)ring_buf_read(R2, b, n); break; case 1: n = (uint32_t)ring_buf_discard(R2, n); break; default: n = (uint32_t)ring_buf_read(R2, b, n); } break;
        case 2: n = sizeof b; if (below(2) && msg_queue_next_msg_size(R3) == 0) n = 0; else if (msg_queue_pop(R3, b, &n) != MSG_Q_CODE_SUCCESS) n = 0; break; default: n = fixed_msg_queue_pop(R4, b) ? 24 : 0; } if (n) { t->b++; t->h += (uint64_t)b[n - 1]; } else t->c++; } if (below(60) == 0) sched_yield(); } }
static void m_rings(void) { rkind = (int)vp_below(4); uint32_t cap = 64 + (uint32_t)vp_below(300); R1 = RingBuffer_create(cap); R2 = ring_buf_create(cap); R3 = msg_queue_create(cap + 64); R4 = fixed_msg_queue_create(24, 4 + cap / 24); start(2, ring_body, (int)vp_between(500, 4000)); static const char* nm[] = { "RingBuffer", "ring_buf", "msg_queue", "fixed_msg_queue" }; finish(2, nm[rkind], "writes", "reads", "waits"); RingBuffer_destroy(&R1); ring_buf_destroy(&R2); msg_queue_destroy(&R3); fixed_msg_queue_destroy(&R4); }
/* ---- queue handlers: pushes serialised, content handed over, everything readable once destroyed ---- */
static msg_queue_handler Q; static fixed_msg_queue_handler F; static struct { uint64_t got, sum; int st; } seen; static char* shared[4096]; static size_t pushed; static int hk;
static void status(msg_q_handler_status_e s, void* u) { (void)u; seen.st += (int)s + 1; }
static int on_q(queue_msg_t* m, void* u) { (void)u; seen.got++; for (int i = 0; i < m->obj_len; i++) seen.sum += (uint64_t)((char*)m)[offsetof(queue_msg_t, obj) + (size_t)i]; if (m->arg1 >= 0) { seen.sum += (uint64_t)*shared[m->arg1]; *shared[m->arg1] = 9; } return 0; }
static int on_f(fixed_msg_t* m, void* u) { (void)u; seen.got++; for (size_t i = 0; i < (size_t)m->obj.data_len; i++) seen.sum += (uint64_t)m->obj.data[i]; if (m->arg1 >= 0) { seen.sum += (uint64_t)*shared[m->arg1]; *shared[m->arg1] = 9; } return 0; }
static void push_body(thr_t* t) { static __thread union { queue_msg_t q; char raw[sizeof(queue_msg_t) + 6000]; } u; static __thread fixed_msg_t f; for (int i = 0; i < t->ops; i++) { size_t n = below(10) ? below(100) : below(hk ? 100 : 6000); char* own = malloc(1); *own = (char)i; bool ok; pthread_mutex_lock(&mx); int slot = pushed < 4096 ? (int)pushed : -1; if (slot >= 0) shared[slot] = own;
    if (hk == 0) { u.q.what = i; u.q.arg1 = slot; u.q.obj_len = (int)n; memset((char*)&u + offsetof(queue_msg_t, obj), i, n); ok = msg_queue_handler_push(Q, &u.q) == MSG_Q_CODE_SUCCESS; if (below(8) == 0) t->h += msg_queue_handler_available_push_bytes(Q) + msg_queue_handler_available_pop_bytes(Q); } else { if (n > sizeof f.obj.data) n = sizeof f.obj.data; f.what = i; f.arg1 = slot; f.obj.data_len = (int)n; memset(f.obj.data, i, n); ok = fixed_msg_queue_handler_push(F, &f) == MSG_Q_CODE_SUCCESS; if (below(8) == 0) t->h += fixed_msg_queue_handler_available_push_amount(F) + (fixed_msg_queue_handler_is_full(F) ? 1 : 0); if (ok && below(40) == 0) { fixed_msg_queue_handler_clear(F); t->c++; } }
    if (ok && slot >= 0) pushed++; else if (slot >= 0) shared[slot] = NULL; pthread_mutex_unlock(&mx); if (ok) t->a++; else t->b++; if (!ok || slot < 0) free(own); nap(t, 20); } }
static bool drained(void* a) { (void)a; return hk ? fixed_msg_queue_handler_is_empty(F) : msg_queue_handler_available_pop_bytes(Q) == 0; }
static void m_handler(void) { hk = (int)vp_below(2); memset(&seen, 0, sizeof seen); pushed = 0; memset(shared, 0, sizeof shared); msg_queue_handler_init_param_t p = { .fn_handle_msg = on_q, .fn_on_status_changed = status }; fixed_msg_queue_handler_init_param_t fp = { .fn_handle_msg = on_f, .fn_on_status_changed = status };
    uint32_t cap = vp_chance(1, 2) ? 20000 : 200000; if (hk) F = fixed_msg_queue_handler_create(vp_chance(1, 2) ? 6 : 200, &fp); else Q = msg_queue_handler_create(cap, &p); if (!(hk ? (void*)F : (void*)Q)) vp_fail("create", "no handler"); int n = (int)vp_between(1, 4); start(n, push_body, (int)vp_between(30, 400)); bool drain = vp_chance(1, 2); finish(n, hk ? "fixed_handler" : "handler", "pushes", "refused", "clears");
    if (drain) vp_await(drained, 0, "handler.drain", "the queue to empty"); msg_queue_handler_destroy(&Q); fixed_msg_queue_handler_destroy(&F); vp_count("handler_dispatched", seen.got); for (size_t i = 0; i < pushed; i++) { if (shared[i]) { seen.sum += (uint64_t)*shared[i]; free(shared[i]); } } vp_seen(vp_mix(seen.got, seen.sum)); }
/* ---- thread pool: what the submitter wrote is the job's, what the job wrote is the waiter's ---- */
static threadpool P; typedef struct { int in, out; bool again; } job_t; static job_t jobs[12][500];
static void job(void* a) { job_t* j = a; j->out = j->in * 3 + 1; if (j->again) { j->again = false; j->in++; thpool_add_work(P, job, j); } }
static void tp_body(thr_t* t) { int base = 0; for (int i = 0; i < t->ops && i < 500; i++) { job_t* j = &jobs[t->id][i]; j->in = i; j->out = 0; j->again = below(10) == 0; if (thpool_add_work(P, job, j)) continue; t->a++; if (below(40) == 0) { thpool_wait(P); for (int k = base; k <= i; k++) { VP_CHECK(jobs[t->id][k].out == jobs[t->id][k].in * 3 + 1, "thpool.result", "a job's result is not there after waiting"); t->b++; } base = i + 1; } if (below(30) == 0) t->c += thpool_num_threads_working(P) > 0; nap(t, 60); } }
static void m_thpool(void) {
    /* many workers leave together */
    for (int i = 0; i < 4; i++) { int nt = (int)vp_between(2, 16); if (vps_set) vps_set(vp_rand(), (unsigned)vp_between(10, 90)); P = thpool_init(nt); VP_CHECK(P, "thpool.init", "refused"); job_t j[20]; int k = (int)vp_below(20); for (int q = 0; q < k; q++) { j[q] = (job_t){ .in = q }; thpool_add_work(P, job, &j[q]); } if (vp_chance(1, 2)) sched_yield(); if (k) thpool_wait(P); thpool_destroy(P); vp_beat(); for (int q = 0; q < k; q++) VP_CHECK(j[q].out == j[q].in * 3 + 1, "thpool.result", "a job waited for has no result"); vp_count("thpool_pools", 1); }
    P = thpool_init((int)vp_between(1, 6)); int n = (int)vp_between(1, 4); start(n, tp_body, (int)vp_between(20, 400)); bool w = vp_chance(2, 3); finish(n, "thpool", "jobs", "results", "busy"); if (w) { thpool_wait(P); for (int i = 0; i < n; i++) for (int k = 0; k < T[i].ops && k < 500; k++) VP_CHECK(jobs[i][k].out, "thpool.result", "a job's result is not there after waiting"); } thpool_destroy(P); for (int i = 0; i < n; i++) for (int k = 0; k < 500; k++) T[0].h += (uint64_t)jobs[i][k].out; }
/* ---- tracking allocator ---- */
static void* xchg[8]; static size_t tracked; static void rep(void* p, size_t n, char* f, char* fn, int l, void* u) { (void)p; (void)f; (void)fn; (void)l; (void)u; tracked += n; }
static void track_body(thr_t* t) { char* p[16]; memset(p, 0, sizeof p); size_t n[16]; for (int i = 0; i < t->ops; i++) { int k = (int)below(16); if (!p[k]) { n[k] = 1 + below(200); switch (below(3)) { case 0: p[k] = lcu_malloc(n[k]); break; case 1: p[k] = lcu_calloc(1, n[k]); break; default: p[k] = lcu_strdup("some text"); n[k] = 10; } memset(p[k], k, n[k]); t->a++; } else if (below(5) == 0) { n[k] = 1 + below(300); p[k] = lcu_realloc(p[k], n[k]); memset(p[k], k, n[k]); t->b++; } else if (below(4) == 0) { int x = (int)below(8); pthread_mutex_lock(&mx); void* o = xchg[x]; xchg[x] = p[k]; pthread_mutex_unlock(&mx); p[k] = NULL; lcu_free(o); t->c++; } else { t->h += (uint64_t)p[k][0]; lcu_free(p[k]); p[k] = NULL; } if (t->id == 0 && below(100) == 0) allocation_tracker_expect_no_allocations((report_leak_mem_fn)(void*)rep, NULL); nap(t, 100); } for (int k = 0; k < 16; k++) lcu_free(p[k]); }
static void m_track(void) { allocation_tracker_init(); int n = (int)vp_between(2, 6); start(n, track_body, (int)vp_between(100, 1000)); finish(n, "track", "allocations", "reallocations", "exchanged"); for (int i = 0; i < 8; i++) { lcu_free(xchg[i]); xchg[i] = NULL; } VP_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "track.rest", "something is left"); allocation_tracker_uninit(); }
/* ---- log: many threads, the settings the log protects being changed ---- */
static uint64_t cbn, cbs_; static void on_log(LogLevel l, void* m, size_t n, void* u) { (void)l; (void)u; cbn++; for (size_t i = 0; i < n; i += 7) cbs_ += ((uint8_t*)m)[i]; }
static bool changing; static int ntl;
static void log_body(thr_t* t) { char p[1500]; if (changing && t->id == ntl - 1) { for (int i = 0; i < t->ops; i++) { switch (below(6)) { case 0: xlog_set_timezone((int)below(24) - 12); break; case 1: xlog_set_default_tag(below(2) ? "Tag1" : "AnotherTag2"); break; case 2: xlog_set_flush_mode((LogFlushMode)below(2)); break; case 3: xlog_set_format((int)below(8) * 2); break; case 4: xlog_auto_level_up(below(2) ? LOG_LEVEL_ERROR : LOG_LEVEL_OFF); break; default: xlog_set_user_callback(on_log, &changing); } t->c++; nap(t, 3); } return; }
    for (int i = 0; i < t->ops; i++) { size_t n = below(5) ? below(80) : 400 + below(1000); memset(p, 'a' + t->id, n); p[n] = 0; switch (below(5)) { case 0: TLOGE("TT", "%d %s", i, p); break; case 1: LOGE_TRACE("%d %s", i, p); break; case 2: LOGE_HEX(p, n > 100 ? 100 : n); t->b++; break; default: LOGE("%d %s", i, p); } t->a++; nap(t, 40); } }
static void m_log(void) { static bool once; if (!once) { once = true; if (!freopen("/dev/null", "w", stdout)) vp_error("stdout"); } int r = lcu_global_init(); VP_CHECK(r == 0, "log.init", "init %d", r); cbn = 0; xlog_set_user_callback(on_log, NULL); xlog_set_target(LOG_TARGET_USER_CALLBACK | (vp_chance(1, 2) ? LOG_TARGET_CONSOLE : 0)); xlog_set_min_level(LOG_LEVEL_DEBUG); xlog_set_format((int)vp_below(8) * 2); changing = vp_chance(2, 3); ntl = (int)vp_between(2, 6); start(ntl, log_body, (int)vp_between(20, 200)); finish(ntl, "log", "messages", "dumps", "settings"); uint64_t made = 0; for (int i = 0; i < ntl; i++) made += T[i].a; VP_CHECK(cbn >= made, "log.lost", "%llu messages, %llu arrived", (unsigned long long)made, (unsigned long long)cbn); lcu_global_cleanup(); }
/* ---- time and the stateless helpers ---- */
static void time_body(thr_t* t) { for (int i = 0; i < t->ops; i++) { char s[TIME_STR_SIZE]; struct timeval tv = { (time_t)(1600000000 + (int64_t)below(4)), (suseconds_t)below(1000000) }; int z = (int)below(3) * 4 - 4; switch (below(9)) { case 0: time_util_get_time_str(&tv, s, z); t->a++; break; case 1: time_util_get_time_str_current(s, z); t->a++; break; case 2: time_util_get_time_str_for_file_name(&tv, s, z); t->a++; break; case 3: time_util_get_time_str_for_file_name_current(s, z); t->a++; break;
        case 4: { struct tm tm; time_t sec = tv.tv_sec; time_util_fast_second2date(&sec, &tm, z); s[0] = (char)tm.tm_mday; t->b++; break; } case 5: { uint64_t ms; time_util_current_ms(&ms); time_util_query_performance_ms(&ms); s[0] = (char)ms; t->b++; break; }
        case 6: { char b[200], o[200], q[20] = "a b&c%\x80z"; lcu_base64_encode(b, q, strlen(q) + 1); lcu_base64_decode(o, b); lcu_url_encode(b, sizeof b, q, strlen(q)); lcu_url_decode(o, sizeof o, b, strlen(b), NULL); time_t now = 1600000000; time_rfc1123(&now, b, sizeof b); time_rfc2822_utc(&now, b, sizeof b); s[0] = o[0]; t->b++; break; }
        default: t->c++; { char o[100]; strlcpy(o, "abc", sizeof o); str_params_ptr p = str_params_create_str("a=b;c=d", ";"); if (p) { str_params_get_str(p, "a", o, sizeof o); str_params_destroy(p); } ini_parser_handle ip = ini_parser_parse_str("[s]\nk = v\n"); if (ip) { ini_parser_get_string(ip, "s", "k", o, sizeof o); ini_parser_destroy(&ip); } s[0] = o[0]; } } t->h += (uint64_t)s[0]; nap(t, 50); } }
static void m_time(void) { VP_CHECK(lcu_global_init() == 0, "time.init", "init"); int n = (int)vp_between(2, 6); start(n, time_body, (int)vp_between(50, 800)); finish(n, "time", "strings", "conversions", "helpers"); lcu_global_cleanup(); }
/* ---- file logger with its lock ---- */
static file_logger_handle L;
static void fl_body(thr_t* t) { static __thread char b[5000]; for (int i = 0; i < t->ops; i++) { size_t n = 1 + (below(10) ? below(200) : below(4900)); memset(b, 'a' + t->id, n); if (file_logger_log(L, b, n) == 0) { t->a++; t->h += n; } else t->b++; nap(t, 10); } }
static void m_flog(void) { char dir[200]; snprintf(dir, sizeof dir, "%s/fl", vp_scratch()); mkdir(dir, 0700); file_logger_cfg c; memset(&c, 0, sizeof c); strcpy(c.log_folder_path, dir); strcpy(c.log_file_name_prefix, "p"); c.log_queue_size = vp_chance(1, 2) ? 8 : 200; c.is_try_my_best_to_keep_log = vp_chance(1, 2); c.one_piece_file_max_len = vp_chance(1, 2) ? 0 : 3000; c.lock.arg = &mx; c.lock.acquire = acq; c.lock.release = rel; L = file_logger_init(&c); VP_CHECK(L, "flog.init", "no logger"); int n = (int)vp_between(2, 5); start(n, fl_body, (int)vp_between(10, 100)); finish(n, "file_logger", "accepted", "refused", "none"); file_logger_deinit(&L);
    DIR* d = opendir(dir); struct dirent* e; char p[600]; while ((e = readdir(d))) if (e->d_name[0] != '.') { snprintf(p, sizeof p, "%s/%s", dir, e->d_name); unlink(p); } closedir(d); rmdir(dir); }
#include "c25_own.h"
void vp_harness_init(void) { slog_set_min_level(LOG_LEVEL_OFF); xlog_set_target(0); }
const vp_mode_t vp_modes[] = { {"map", m_map}, {"pool", m_pool}, {"cover", m_cover}, {"rings", m_rings}, {"handler", m_handler}, {"thpool", m_thpool}, {"track", m_track}, {"log", m_log}, {"time", m_time}, {"flog", m_flog}, {"own", m_own}, {0} };
