/* C22: every allocation failing at every position: each operation either has its whole effect or reports failure and has none, and works once memory is back. */
#include "vp.h"
#include "lcu.h"
#include "data/list.h"
#include "data/hashmap.h"
#include "data/array.h"
#include "mem/allocator.h"
#include "mem/stringbuilder.h"
#include "mem/strings.h"
#include "mem/str_params.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "ring/autocover_buffer.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
#include "thread/thpool.h"
#include "thread/portable_thread.h"
#include "file/ini_parser.h"
#include "file/file_util.h"
#include "log/file_logger.h"
#include "log/slog.h"
#include "log/xlog.h"
#include "time/time_util.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
extern volatile bool vpm_paused, vpc_mutex_fails;
static vp_rng_t R; static uint64_t outcome;
#define rnd(n) vp_rng_below(&R, (n))
/* ---- the plan of failures ---- */
static int pk; static long pn; static uint64_t ps;
static void arm(void) { switch (pk) { case 0: vpm_fail_at(-1); break; case 1: vpm_fail_at(pn); break; case 2: vpm_fail_from(pn); break; default: vpm_fail_mask(ps, (unsigned)pn); } vpm_paused = false; }
static long mark, sites; static int nrefused;
#define PAUSED(x) do { bool was_ = vpm_paused; vpm_paused = true; x; vpm_paused = was_; } while (0)
#define TRY() (mark = vpm_failed())
static void refused(const char* what) { long f = vpm_failed(); VP_CHECK(f > mark, "spurious", "%s failed although no allocation failed", what); nrefused++; outcome = vp_mix(outcome, (uint64_t)sites * 2 + 1); vp_count("refused_operations", 1); }
/* do expr; if it failed, an allocation must have failed, and with memory it must succeed */
#define MAKE(what, expr, ok) do { TRY(); expr; if (!(ok)) { refused(what); PAUSED(expr); VP_CHECK(ok, "later", "%s still fails with memory available", what); vp_count("succeeded_later", 1); } } while (0)
static void done(void) { sites = vpm_calls(); vpm_paused = true; }
/* ---- containers ---- */
static int cell[512]; static int nfreed; static void fcb(void* p) { (void)p; nfreed++; }
static void sc_list(void) {
    int m[200], n = 0, ops = 3 + (int)rnd(30), removed = 0; list_t* l; nfreed = 0; arm(); MAKE("list_new", l = list_new(fcb), l);
    for (int i = 0; i < ops; i++) { int k = (int)rnd(4), v = i; bool ok; bool again = rnd(2); TRY();
        switch (k) { case 0: ok = list_append(l, &cell[v]); break; case 1: ok = list_prepend(l, &cell[v]); break;
        case 2: { if (!n) { ok = true; v = -1; break; } size_t at = rnd((uint64_t)n); list_node_t* nd = list_begin(l); for (size_t j = 0; j < at; j++) nd = list_next(nd); ok = list_insert_after(l, nd, &cell[v]); if (!ok) { refused("list_insert_after"); if (again) { PAUSED(ok = list_insert_after(l, nd, &cell[v])); VP_CHECK(ok, "later", "list_insert_after"); } } if (ok) { memmove(m + at + 2, m + at + 1, sizeof(int) * ((size_t)n - at - 1)); m[at + 1] = v; n++; } v = -1; ok = true; break; }
        default: if (n) { size_t at = rnd((uint64_t)n); VP_CHECK(list_remove(l, &cell[m[at]]), "list.remove", "removing an element failed"); memmove(m + at, m + at + 1, sizeof(int) * ((size_t)n - at - 1)); n--; removed++; } ok = true; v = -1; }
        if (!ok) { refused("list insertion"); if (again) { PAUSED(ok = k ? list_prepend(l, &cell[v]) : list_append(l, &cell[v])); VP_CHECK(ok, "later", "list insertion"); } }
        if (ok && v >= 0) { if (k == 0) m[n++] = v; else { memmove(m + 1, m, sizeof(int) * (size_t)n); m[0] = v; n++; } }
        int j = 0; for (list_node_t* nd = list_begin(l); nd; nd = list_next(nd), j++) VP_CHECK(j < n && list_node(nd) == &cell[m[j]], "list.content", "element %d of %d is wrong after operation %d", j, n, i); VP_CHECK(j == n && list_length(l) == (size_t)n, "list.content", "%d elements (length %zu), expected %d", j, list_length(l), n); VP_CHECK(!n || (list_front(l) == &cell[m[0]] && list_back(l) == &cell[m[n - 1]]), "list.content", "first or last element is wrong"); }
    done(); VP_CHECK(list_append(l, &cell[400]), "later", "list_append"); n++; list_free(l); VP_CHECK(nfreed == n + removed, "list.freed", "%d elements freed, expected %d", nfreed, n + removed); }
static int khash(const void* k) { return *(const int*)k % 7; } static bool keq(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
static int lockd; static int acq(void* a) { (void)a; lockd++; return 0; } static int rel(void* a) { (void)a; lockd--; return 0; }
static void sc_map(void) {
    static int val[64]; memset(val, 0, sizeof val); size_t n = 0; int ops = 5 + (int)rnd(60), span = rnd(2) ? 8 : 60; size_t cap = rnd(3) ? 1 : rnd(40); hashmap_lock_t lk = { 0, acq, rel }; lockd = 0; hashmap_t* h; arm(); MAKE("hashmap_create", h = hashmap_create(cap, khash, free, free, keq, rnd(2) ? &lk : NULL), h);
    for (int i = 0; i < ops; i++) { int k = (int)rnd((uint64_t)span); int* kp, *vp; if (rnd(4)) { PAUSED(kp = malloc(sizeof *kp); vp = malloc(sizeof *vp)); *kp = k; *vp = i + 1; bool again = rnd(2); errno = 0; TRY(); void* old = hashmap_put(h, kp, vp); bool oom = !old && errno == ENOMEM; if (oom) { refused("hashmap_put"); VP_CHECK(!val[k], "map.put", "replacing a value failed"); VP_CHECK(hashmap_size(h) == n && !hashmap_get(h, &k), "map.content", "a refused key is in the map"); if (again) { PAUSED(errno = 0; old = hashmap_put(h, kp, vp)); VP_CHECK(!old && errno != ENOMEM, "later", "hashmap_put"); oom = false; vp_count("succeeded_later", 1); } }
            if (oom) { free(kp); free(vp); } else { VP_CHECK((old != NULL) == (val[k] != 0), "map.put", "key %d: put returned %p", k, old); if (old) free(kp); else n++; val[k] = i + 1; } }
        else { void* old = hashmap_remove(h, &k); VP_CHECK((old != NULL) == (val[k] != 0), "map.remove", "key %d: remove returned %p", k, old); if (val[k]) n--; val[k] = 0; }
        VP_CHECK(lockd == 0, "map.lock", "the lock is held %d times after operation %d", lockd, i); VP_CHECK(hashmap_size(h) == n, "map.content", "size %zu, expected %zu", hashmap_size(h), n); }
    for (int k = 0; k < 64; k++) { int* v = hashmap_get(h, &k); VP_CHECK(v ? *v == val[k] : val[k] == 0, "map.content", "key %d holds %d, expected %d", k, v ? *v : 0, val[k]); }
    done(); hashmap_free(h); }
static void sc_array(void) {
    size_t es = 1 + rnd(24); int n = 0, ops = 10 + (int)rnd(120); static uint8_t m[200][24]; size_t cap = rnd(30); bool dflt = rnd(3) == 0; array_t* a; arm(); MAKE("array_new", a = dflt ? array_new(es) : array_new_with_init_capacity(es, cap), a);
    for (int i = 0; i < ops; i++) { uint8_t e[24]; for (size_t j = 0; j < es; j++) e[j] = (uint8_t)rnd(256); bool again = rnd(2); TRY(); bool ok = array_append_ptr(a, e); if (!ok) { refused("array_append"); VP_CHECK(array_length(a) == (size_t)n, "array.content", "a refused append changed the length"); if (again) { PAUSED(ok = array_append_ptr(a, e)); VP_CHECK(ok, "later", "array_append"); } } if (ok) memcpy(m[n++], e, es);
        if (i % 16 == 0 || !ok) for (int j = 0; j < n; j++) VP_CHECK(!memcmp(array_at(a, (size_t)j), m[j], es), "array.content", "element %d of %d changed", j, n); VP_CHECK(array_length(a) == (size_t)n, "array.content", "length %zu, expected %d", array_length(a), n); }
    done(); array_free(a); }
static void sc_sb(void) {
    static char m[40000]; size_t n = 0; m[0] = 0; int ops = 4 + (int)rnd(20); size_t init = rnd(40); stringbuilder_t* sb; arm(); MAKE("stringbuilder_create", sb = stringbuilder_create(init), sb);
    for (int i = 0; i < ops; i++) { char t[1100]; size_t l = 1 + (rnd(3) ? rnd(20) : rnd(1000)); for (size_t j = 0; j < l; j++) t[j] = (char)('a' + rnd(26)); t[l] = 0; int k = (int)rnd(4), r = 0; size_t cut = 1 + rnd(l); bool again = rnd(2);
        for (int round = 0; round < 2; round++) { if (!round) TRY(); else vpm_paused = true; switch (k) { case 0: r = stringbuilder_appendstr(sb, t); break; case 1: r = stringbuilder_appendchar(sb, t[0]); break; case 2: r = stringbuilder_appendf(sb, "<%s>%d", t, i); break; default: r = stringbuilder_appendnstr(sb, t, cut); } vpm_paused = false; if (r && !round) { refused("stringbuilder append"); if (again) continue; } VP_CHECK(!round || r == 0, "later", "stringbuilder append returned %d", r); break; }
        if (r == 0) { if (k == 1) { t[1] = 0; l = 1; } if (k == 3) t[cut] = 0; n += (size_t)(k == 2 ? sprintf(m + n, "<%s>%d", t, i) : sprintf(m + n, "%s", t)); }
        VP_CHECK(stringbuilder_len(sb) == n && !strcmp(stringbuilder_to_string(sb), m), "sb.content", "after append %d (%s) the builder holds %zu characters, expected %zu", i, r ? "refused" : "done", stringbuilder_len(sb), n); }
    done(); stringbuilder_destroy(&sb); VP_CHECK(!sb, "handle", "handle not cleared"); }
/* ---- rings ---- */
static void sc_rings(void) {
    uint32_t cap = 4 + (uint32_t)rnd(300); char w[8] = "abcdefg", r[8]; arm();
    ring_buffer_handle a; MAKE("RingBuffer_create", a = RingBuffer_create(cap), a); memset(r, 0, 8); VP_CHECK(RingBuffer_write(a, w, 4) == 4 && RingBuffer_read(a, r, 4) == 4 && !memcmp(w, r, 4), "ring.use", "RingBuffer"); RingBuffer_destroy(&a);
    ring_handle b; MAKE("ring_buf_create", b = ring_buf_create(cap + 2), b); memset(r, 0, 8); VP_CHECK(ring_buf_write(b, w, 5) == 5 && ring_buf_read(b, r, 5) == 5 && !memcmp(w, r, 5), "ring.use", "ring_buf"); ring_buf_destroy(&b);
    msg_queue c; MAKE("msg_queue_create", c = msg_queue_create(cap + 64), c); uint32_t n = 8; memset(r, 0, 8); VP_CHECK(msg_queue_push(c, w, 7) == 0 && msg_queue_pop(c, r, &n) == 0 && n == 7 && !memcmp(w, r, 7), "ring.use", "msg_queue"); msg_queue_destroy(&c);
    fixed_msg_queue d; MAKE("fixed_msg_queue_create", d = fixed_msg_queue_create(8, 2 + cap), d); memset(r, 0, 8); VP_CHECK(fixed_msg_queue_push(d, w) && fixed_msg_queue_pop(d, r) && !memcmp(w, r, 8), "ring.use", "fixed_msg_queue"); fixed_msg_queue_destroy(&d);
    auto_cover_buf_handle e; MAKE("auto_cover_buf_create", e = auto_cover_buf_create(cap, NULL), e); memset(r, 0, 8); VP_CHECK(auto_cover_buf_write(e, w, 3) == 3 && auto_cover_buf_read(e, 0, r, 3) == 3 && !memcmp(w, r, 3), "ring.use", "auto_cover_buf"); auto_cover_buf_destroy(&e);
    done(); VP_CHECK(!a && !b && !c && !d && !e, "handle", "handle not cleared"); }
/* ---- queue handlers ---- */
static int got_n, want_n; static struct { int what, len; uint64_t h; } sent[300]; static bool got_bad;
static uint64_t txt(const char* p, int n) { return vp_hash(p, (size_t)n, 9); }
static int on_msg(queue_msg_t* q, void* u) { (void)u; int i = __atomic_load_n(&got_n, __ATOMIC_SEQ_CST); if (i >= 300 || q->what != sent[i].what || q->obj_len != sent[i].len || txt(q->obj, q->obj_len) != sent[i].h) got_bad = true; __atomic_add_fetch(&got_n, 1, __ATOMIC_SEQ_CST); return 0; }
static int on_fmsg(fixed_msg_t* q, void* u) { (void)u; int i = __atomic_load_n(&got_n, __ATOMIC_SEQ_CST); if (i >= 300 || q->what != sent[i].what || q->obj.data_len != sent[i].len || txt(q->obj.data, q->obj.data_len) != sent[i].h) got_bad = true; __atomic_add_fetch(&got_n, 1, __ATOMIC_SEQ_CST); return 0; }
static bool all_got(void* a) { (void)a; return __atomic_load_n(&got_n, __ATOMIC_SEQ_CST) >= want_n; }
static void sc_handler(void) {
    msg_queue_handler_init_param_t ip = { .user_data = NULL, .fn_handle_msg = on_msg, .fn_on_status_changed = NULL }; got_n = want_n = 0; got_bad = false; int ops = 2 + (int)rnd(12); bool abrupt = rnd(4) == 0; msg_queue_handler h; int thr = vp_count_threads(); arm(); TRY(); h = msg_queue_handler_create(131072, &ip); if (!h) { refused("msg_queue_handler_create"); VP_CHECK(vpm_live() == 0, "leak", "a refused creation left %ld blocks", vpm_live()); PAUSED(h = msg_queue_handler_create(131072, &ip)); VP_CHECK(h, "later", "msg_queue_handler_create"); } (void)thr;
    static union { queue_msg_t q; char raw[sizeof(queue_msg_t) + 20000]; } u;
    for (int i = 0; i < ops; i++) { int len = rnd(3) ? (int)rnd(300) : (int)rnd(20000); u.q.what = i + 1; u.q.arg1 = u.q.arg2 = 0; u.q.obj_len = len; for (int j = 0; j < len; j++) ((char*)&u)[offsetof(queue_msg_t, obj) + (size_t)j] = (char)(i + j); sent[want_n].what = i + 1; sent[want_n].len = len; sent[want_n].h = txt(u.q.obj, len); msg_q_code_e r = msg_queue_handler_push(h, &u.q); VP_CHECK(r == MSG_Q_CODE_SUCCESS || r == MSG_Q_CODE_FULL, "handler.push", "push %d returned %d", i, (int)r); if (r == MSG_Q_CODE_SUCCESS) want_n++; }
    if (abrupt && pk) { struct timespec ts = { 0, 300000 }; nanosleep(&ts, 0); msg_queue_handler_destroy(&h); done(); vp_count("destroyed_without_memory", 1); }
    else { if (pk == 1 || pk == 0) { vp_await(all_got, NULL, "handler.lost", "every accepted message to arrive after one failed allocation"); done(); } else { done(); vp_await(all_got, NULL, "handler.lost", "every accepted message to arrive once memory is back"); } VP_CHECK(got_n == want_n, "handler.twice", "%d messages arrived, %d were accepted", got_n, want_n); msg_queue_handler_destroy(&h); }
    VP_CHECK(!got_bad, "handler.content", "a message arrived out of order or changed"); VP_CHECK(!h, "handle", "handle not cleared"); }
static void sc_fixed(void) {
    fixed_msg_queue_handler_init_param_t ip = { .user_data = NULL, .fn_handle_msg = on_fmsg, .fn_on_status_changed = NULL }; got_n = want_n = 0; got_bad = false; int ops = 2 + (int)rnd(12); fixed_msg_queue_handler h; arm(); TRY(); h = fixed_msg_queue_handler_create(16, &ip); if (!h) { refused("fixed_msg_queue_handler_create"); VP_CHECK(vpm_live() == 0, "leak", "a refused creation left %ld blocks", vpm_live()); PAUSED(h = fixed_msg_queue_handler_create(16, &ip)); VP_CHECK(h, "later", "fixed_msg_queue_handler_create"); }
    static fixed_msg_t q; for (int i = 0; i < ops; i++) { int len = (int)rnd(1025); q.what = i + 1; q.obj.data_len = len; for (int j = 0; j < len; j++) q.obj.data[j] = (char)(i * 3 + j); sent[want_n].what = i + 1; sent[want_n].len = len; sent[want_n].h = txt(q.obj.data, len); msg_q_code_e r = fixed_msg_queue_handler_push(h, &q); VP_CHECK(r == MSG_Q_CODE_SUCCESS || r == MSG_Q_CODE_FULL, "handler.push", "push %d returned %d", i, (int)r); if (r == MSG_Q_CODE_SUCCESS) want_n++; }
    vp_await(all_got, NULL, "handler.lost", "every accepted message to arrive"); VP_CHECK(got_n == want_n && !got_bad, "handler.content", "%d messages arrived, %d were accepted", got_n, want_n); done(); fixed_msg_queue_handler_destroy(&h); VP_CHECK(!h, "handle", "handle not cleared"); }
static int ran[300]; static void task(void* a) { __atomic_add_fetch((int*)a, 1, __ATOMIC_SEQ_CST); }
static void sc_thpool(void) {
    int th = 1 + (int)rnd(4), ops = 1 + (int)rnd(20); bool want[300]; memset(ran, 0, sizeof ran); arm(); threadpool p; TRY(); p = thpool_init(th); if (!p) { refused("thpool_init"); VP_CHECK(vpm_live() == 0, "leak", "a refused pool left %ld blocks", vpm_live()); PAUSED(p = thpool_init(th)); VP_CHECK(p, "later", "thpool_init"); }
    for (int i = 0; i < ops; i++) { bool again = rnd(2); TRY(); int r = thpool_add_work(p, task, &ran[i]); if (r) { refused("thpool_add_work"); if (again) { PAUSED(r = thpool_add_work(p, task, &ran[i])); VP_CHECK(!r, "later", "thpool_add_work returned %d", r); } } want[i] = !r; }
    thpool_wait(p); for (int i = 0; i < ops; i++) VP_CHECK(ran[i] == want[i], "thpool.ran", "task %d (%s) ran %d times", i, want[i] ? "accepted" : "refused", ran[i]); done(); thpool_destroy(p); for (int i = 0; i < ops; i++) VP_CHECK(ran[i] == want[i], "thpool.ran", "task %d ran %d times", i, ran[i]); }
/* ---- strings ---- */
static void sc_strings(void) {
    char o[200], pt[4], rp[12], want[4000]; size_t n = rnd(150); for (size_t i = 0; i < n; i++) o[i] = (char)('a' + rnd(3)); o[n] = 0; size_t pl = 1 + rnd(2), rl = rnd(10); for (size_t i = 0; i < pl; i++) pt[i] = (char)('a' + rnd(3)); pt[pl] = 0; for (size_t i = 0; i < rl; i++) rp[i] = (char)('x' + rnd(2)); rp[rl] = 0;
    size_t w = 0; for (char* c = o;;) { char* q = strstr(c, pt); if (!q) { strcpy(want + w, c); break; } memcpy(want + w, c, (size_t)(q - c)); w += (size_t)(q - c); memcpy(want + w, rp, rl); w += rl; c = q + pl; }
    arm(); char* r; MAKE("strreplace", r = strreplace(o, pt, rp), r); VP_CHECK(!strcmp(r, want), "str.replace", "wrong text"); free(r);
    char* s; MAKE("lcu_strdup", s = lcu_strdup(o), s); VP_CHECK(!strcmp(s, o), "alloc.content", "lcu_strdup"); lcu_free(s); size_t k = rnd(n + 5); MAKE("lcu_strndup", s = lcu_strndup(o, k), s); VP_CHECK(strlen(s) == (k < n ? k : n) && !memcmp(s, o, strlen(s)), "alloc.content", "lcu_strndup"); lcu_free(s);
    char* m; MAKE("lcu_malloc", m = lcu_malloc(n + 1), m); memcpy(m, o, n + 1); char* c; MAKE("lcu_calloc", c = lcu_calloc(3, n + 1), c); for (size_t i = 0; i < 3 * (n + 1); i++) VP_CHECK(!c[i], "alloc.content", "lcu_calloc not zeroed"); lcu_free(c);
    for (int i = 0; i < 3; i++) { size_t to = n + 1 + rnd(4000); TRY(); char* m2 = lcu_realloc(m, to); if (!m2) { refused("lcu_realloc"); VP_CHECK(!memcmp(m, o, n + 1), "alloc.content", "a refused realloc changed the block"); PAUSED(m2 = lcu_realloc(m, to)); VP_CHECK(m2, "later", "lcu_realloc"); } m = m2; VP_CHECK(!memcmp(m, o, n + 1), "alloc.content", "lcu_realloc lost the content"); }
    done(); lcu_free(m); }
typedef struct { char k[8], v[40]; bool on; } kv_t; static kv_t kvs[10];
static void chk_params(str_params_ptr p) { char b[64]; for (int i = 0; i < 10; i++) { VP_CHECK(str_params_has_key(p, kvs[i].k) == kvs[i].on, "params.content", "key %s is %s", kvs[i].k, kvs[i].on ? "gone" : "there"); if (kvs[i].on) { VP_CHECK(str_params_get_str(p, kvs[i].k, b, sizeof b) >= 0 && !strcmp(b, kvs[i].v), "params.content", "key %s holds \"%s\", expected \"%s\"", kvs[i].k, b, kvs[i].v); } } }
static void sc_params(void) {
    char text[600]; size_t o = 0; text[0] = 0; for (int i = 0; i < 10; i++) { sprintf(kvs[i].k, "k%d", i); kvs[i].on = rnd(2); if (kvs[i].on) { for (int twice = rnd(3) == 0; twice >= 0; twice--) { sprintf(kvs[i].v, "%d-%d", i, (int)rnd(1000)); if (rnd(6) == 0) kvs[i].v[0] = 0; o += (size_t)sprintf(text + o, "%s%s=%s", o ? ";" : "", kvs[i].k, kvs[i].v); } } }
    arm(); str_params_ptr p; bool empty = rnd(4) == 0; if (empty) { for (int i = 0; i < 10; i++) kvs[i].on = false; MAKE("str_params_create", p = str_params_create(NULL), p); } else { TRY(); p = str_params_create_str(";", text); if (!p) { refused("str_params_create_str"); VP_CHECK(vpm_live() == 0, "leak", "a refused parse left %ld blocks", vpm_live()); PAUSED(p = str_params_create_str(";", text)); VP_CHECK(p, "later", "str_params_create_str"); } } chk_params(p);
    int ops = 2 + (int)rnd(15); for (int i = 0; i < ops; i++) { kv_t* e = &kvs[rnd(10)]; int num = (int)rnd(100000); char v[40]; int k = (int)rnd(3), r; bool again = rnd(2); if (k == 2) { str_params_del(p, e->k); e->on = false; continue; } TRY(); sprintf(v, k ? "t%d" : "%d", num); r = k ? str_params_add_str(p, e->k, v) : str_params_add_int(p, e->k, num); if (r) { refused("str_params_add"); VP_CHECK(r == -ENOMEM, "params.code", "a failed addition returned %d", r); chk_params(p); if (again) { PAUSED(r = k ? str_params_add_str(p, e->k, v) : str_params_add_int(p, e->k, num)); VP_CHECK(!r, "later", "str_params_add returned %d", r); } } if (!r) { strcpy(e->v, v); e->on = true; } }
    chk_params(p); char* s; MAKE("str_params_to_str", s = str_params_to_str(p), s); size_t len = 0; int on = 0; for (int i = 0; i < 10; i++) if (kvs[i].on) { len += strlen(kvs[i].k) + 1 + strlen(kvs[i].v); on++; } VP_CHECK(strlen(s) == len + (on ? (size_t)on - 1 : 0), "params.print", "\"%s\" is %zu characters, expected %zu", s, strlen(s), len + (on ? (size_t)on - 1 : 0)); free(s);
    done(); chk_params(p); str_params_destroy(p); }
/* ---- INI ---- */
static bool ison[4][6], sec[4]; static char iv[4][6][20]; static char isn[4][8] = { "alpha", "Beta", "gamma", "Delta" }, ikn[6][8] = { "a", "bb", "Ccc", "dddd", "e_e", "F" };
static void chk_ini(ini_parser_handle p) { char b[300]; for (int s = 0; s < 4; s++) { ini_parser_code_e hs = ini_parser_has_section(p, isn[s]); VP_CHECK((hs == INI_PARSER_CODE_SUCCEED) == sec[s], "ini.content", "section %s: %d, expected to be %s", isn[s], (int)hs, sec[s] ? "there" : "absent"); for (int k = 0; k < 6; k++) { ini_parser_code_e r = ini_parser_get_string(p, isn[s], ikn[k], b, sizeof b); VP_CHECK((r == INI_PARSER_CODE_SUCCEED) == ison[s][k] && (!ison[s][k] || !strcmp(b, iv[s][k])), "ini.content", "%s.%s: %d \"%s\", expected %s\"%s\"", isn[s], ikn[k], (int)r, r ? "" : b, ison[s][k] ? "" : "absent, last ", iv[s][k]); } } }
static void sc_ini(void) {
    char text[1500]; size_t o = 0; text[0] = 0; memset(ison, 0, sizeof ison); memset(sec, 0, sizeof sec); char path[300]; snprintf(path, sizeof path, "%s/i.ini", vp_scratch()); for (int s = 0; s < 4; s++) if (rnd(2)) { bool any = false; for (int k = 0; k < 6; k++) if (rnd(2)) { if (!any) o += (size_t)sprintf(text + o, "[%s]\n", isn[s]); any = true; sprintf(iv[s][k], "v%d", (int)rnd(10000)); o += (size_t)sprintf(text + o, "%s = %s\n", ikn[k], iv[s][k]); ison[s][k] = true; } sec[s] = any; }
    int how = (int)rnd(3); if (how == 2 && o >= 6) { int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (write(fd, text, o) != (ssize_t)o) vp_error("write"); close(fd); } else if (how == 2) how = 1; if (how == 0) { memset(ison, 0, sizeof ison); memset(sec, 0, sizeof sec); }
    arm(); ini_parser_handle p; TRY(); p = how == 0 ? ini_parser_create() : how == 1 ? ini_parser_parse_str(text) : ini_parser_parse_file(path); if (!p) { refused("ini parse"); VP_CHECK(vpm_live() == 0, "leak", "a refused parse left %ld blocks", vpm_live()); PAUSED(p = how == 0 ? ini_parser_create() : how == 1 ? ini_parser_parse_str(text) : ini_parser_parse_file(path)); VP_CHECK(p, "later", "ini parse"); } chk_ini(p);
    int ops = 3 + (int)rnd(14); for (int i = 0; i < ops; i++) { int s = (int)rnd(4), k = (int)rnd(6), w = (int)rnd(8); if (w == 0) { ini_parser_code_e r = ini_parser_delete_section(p, isn[s]); VP_CHECK((r == 0) == sec[s], "ini.delete", "delete_section returned %d", (int)r); sec[s] = false; memset(ison[s], 0, sizeof ison[s]); continue; } if (w == 1) { ini_parser_code_e r = ini_parser_delete_by_section_key(p, isn[s], ikn[k]); VP_CHECK((r == 0) == ison[s][k], "ini.delete", "delete key returned %d", (int)r); ison[s][k] = false; continue; }
        char v[20]; sprintf(v, "n%d", (int)rnd(100000)); bool again = rnd(2); TRY(); ini_parser_code_e r = ini_parser_put_string(p, isn[s], ikn[k], v); if (r) { refused("ini_parser_put_string"); chk_ini(p); if (again) { PAUSED(r = ini_parser_put_string(p, isn[s], ikn[k], v)); VP_CHECK(!r, "later", "put returned %d", (int)r); } } if (!r) { sec[s] = ison[s][k] = true; strcpy(iv[s][k], v); } }
    chk_ini(p); bool any = false; for (int s = 0; s < 4; s++) any |= sec[s]; char* d, *d2; MAKE("ini_parser_dump", d = ini_parser_dump(p), d); static char mem[60000]; size_t ms = sizeof mem; ini_parser_code_e r; if (any) { MAKE("ini_parser_dump_to_mem", (ms = sizeof mem, r = ini_parser_dump_to_mem(p, mem, &ms)), r == 0); VP_CHECK(!strcmp(mem, d), "ini.dump", "the two dumps differ");
        unlink(path); int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (write(fd, "earlier=1\n", 10) != 10) vp_error("write"); close(fd); TRY(); r = ini_parser_save(p, path); if (r) { refused("ini_parser_save"); struct stat st; VP_CHECK(!stat(path, &st) && st.st_size == 10, "ini.save", "a refused save changed the file to %ld bytes", (long)st.st_size); PAUSED(r = ini_parser_save(p, path)); VP_CHECK(!r, "later", "save returned %d", (int)r); } struct stat st; VP_CHECK(!stat(path, &st) && (size_t)st.st_size == strlen(d), "ini.save", "saved %ld bytes, expected %zu", (long)st.st_size, strlen(d));
        ini_parser_handle q; MAKE("ini_parser_parse_str", q = ini_parser_parse_str(d), q); MAKE("ini_parser_dump", d2 = ini_parser_dump(q), d2); bool emptysec = false; for (int s = 0; s < 4; s++) if (sec[s]) { bool e = true; for (int k = 0; k < 6; k++) e &= !ison[s][k]; emptysec |= e; } VP_CHECK(emptysec || !strcmp(d, d2), "ini.dump", "a reparsed dump differs"); free(d2); ini_parser_destroy(&q); }
    free(d); done(); chk_ini(p); ini_parser_destroy(&p); VP_CHECK(!p, "handle", "handle not cleared"); }
/* ---- files ---- */
static char ftext[40000]; static size_t fpos, flen; static bool fbad; static int fline;
static int on_line(int no, char* t, void* u) { (void)u; if (no != fline) fbad = true; size_t l = strlen(t); if (fpos + l > flen || memcmp(ftext + fpos, t, l) || ftext[fpos + l] != '\n') fbad = true; fpos += l + 1; fline++; return 0; }
static void sc_files(void) {
    flen = 0; int lines = 1 + (int)rnd(8); for (int i = 0; i < lines; i++) { size_t l = 1 + (rnd(2) ? rnd(100) : rnd(4500)); for (size_t j = 0; j < l; j++) ftext[flen++] = (char)('!' + rnd(90)); ftext[flen++] = '\n'; } char path[300]; snprintf(path, sizeof path, "%s/t.txt", vp_scratch()); int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (write(fd, ftext, flen) != (ssize_t)flen) vp_error("write"); close(fd);
    arm(); char* b = (char*)1; int n = 0; TRY(); int r = file_util_read_all(path, &b, &n); if (r) { refused("file_util_read_all"); VP_CHECK(!b, "file.out", "a refused read left the pointer at %p", (void*)b); PAUSED(r = file_util_read_all(path, &b, &n)); VP_CHECK(!r, "later", "read_all returned %d", r); } VP_CHECK((size_t)n == flen && !memcmp(b, ftext, flen) && !b[flen], "file.content", "read_all gave %d bytes of %zu", n, flen); free(b);
    fpos = 0; fbad = false; fline = 0; TRY(); r = file_util_read_txt(path, on_line, NULL); VP_CHECK(!fbad, "file.lines", "a wrong line was handed over"); if (r) { refused("file_util_read_txt"); VP_CHECK(r == -2, "file.code", "read_txt returned %d", r); fpos = 0; fline = 0; PAUSED(r = file_util_read_txt(path, on_line, NULL)); VP_CHECK(!r, "later", "read_txt returned %d", r); } VP_CHECK(!fbad && fline == lines && fpos == flen, "file.lines", "%d of %d lines", fline, lines); done(); }
/* ---- logs ---- */
static char lw[400000]; static size_t lwn;
static void wipe(const char* dir) { DIR* d = opendir(dir); if (!d) return; struct dirent* e; char p[700]; while ((e = readdir(d))) if (e->d_name[0] != '.') { snprintf(p, sizeof p, "%s/%s", dir, e->d_name); unlink(p); } closedir(d); }
static void sc_flog(void) {
    char dir[300]; snprintf(dir, sizeof dir, "%s/fl", vp_scratch()); mkdir(dir, 0700); wipe(dir); lwn = 0; file_logger_cfg c; memset(&c, 0, sizeof c); if (strlen(dir) > 120) vp_error("scratch path too long"); strcpy(c.log_folder_path, dir); strcpy(c.log_file_name_prefix, "p"); c.log_queue_size = 1024; c.is_try_my_best_to_keep_log = rnd(3) == 0; int ops = 1 + (int)rnd(10); static char t[30000]; static char kept[400000]; size_t kn = 0;
    arm(); file_logger_handle f; file_logger_cfg c0 = c; TRY(); f = file_logger_init(&c); if (!f) { refused("file_logger_init"); VP_CHECK(vpm_live() == 0, "leak", "a refused logger left %ld blocks", vpm_live()); if (rnd(2)) c = c0; PAUSED(f = file_logger_init(&c)); VP_CHECK(f, "later", "file_logger_init"); }
    for (int i = 0; i < ops; i++) { size_t l = 1 + (rnd(2) ? rnd(200) : rnd(20000)); for (size_t j = 0; j < l; j++) t[j] = (char)('a' + (i + (int)j) % 26); TRY(); int r = file_logger_log(f, t, l); if (r) { refused("file_logger_log"); if (c.is_try_my_best_to_keep_log) { memcpy(kept + kn, t, l); kn += l; kept[kn++] = '\n'; kept[kn++] = '\n'; } if (rnd(2)) { PAUSED(r = file_logger_log(f, t, l)); VP_CHECK(!r, "later", "file_logger_log returned %d", r); } } if (!r) { memcpy(lw + lwn, t, l); lwn += l; lw[lwn++] = '\n'; } }
    done(); file_logger_deinit(&f); VP_CHECK(!f, "handle", "handle not cleared"); DIR* d = opendir(dir); struct dirent* e; int files = 0; while ((e = readdir(d))) if (e->d_name[0] != '.') { bool lost = !strcmp(e->d_name, "p_lost.log"); char p[600]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); static char b[400001]; int fd = open(p, O_RDONLY); size_t n = (size_t)read(fd, b, sizeof b); close(fd); if (lost) VP_CHECK(n == kn && !memcmp(b, kept, n), "flog.kept", "%zu bytes kept of refused records, expected %zu", n, kn); else { files++; VP_CHECK(n == lwn && !memcmp(b, lw, n), "flog.content", "%zu bytes written, %zu accepted", n, lwn); } } closedir(d); VP_CHECK(files == (lwn ? 1 : 0), "flog.content", "%d files", files); wipe(dir); }
static char xgot[16000]; static size_t xn; static int xcalls; static void on_log(LogLevel l, void* m, size_t n, void* u) { (void)l; (void)u; xcalls++; xn = n < sizeof xgot ? n : sizeof xgot; memcpy(xgot, m, xn); }
static void say(const char* t) { __xlog_internal_print(LOG_LEVEL_INFO, "T", NULL, 0, "%s", t); }
static void sc_xlog(void) {
    /* what a start-up that meets no failure holds on to */
    static long ref = -1; if (ref < 0) { PAUSED(long b = vpm_live(); if (lcu_global_init()) vp_error("global init"); ref = vpm_live() - b; lcu_global_cleanup()); }
    long before = vpm_live(); arm(); int r; int how = (int)rnd(2); TRY(); r = how ? lcu_global_init() : xlog_global_init(); if (r) { refused("global init"); VP_CHECK(vpm_live() == 0, "leak", "a refused global init left %ld blocks", vpm_live()); PAUSED(r = how ? lcu_global_init() : xlog_global_init()); VP_CHECK(!r, "later", "global init returned %d", r); }
    if (how) VP_CHECK(xlog_global_init() > 0 && vpm_live() - before == ref, "later", "start-up has succeeded, but holds %ld blocks where one that meets no failure holds %ld", vpm_live() - before, ref);
    xlog_set_target(LOG_TARGET_USER_CALLBACK); xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_user_callback(on_log, NULL); static const int fm[] = { 0, 2, 4, 8, 14 }; xlog_set_format(fm[rnd(5)]); int ops = 2 + (int)rnd(10); static char t[9000];
    for (int i = 0; i < ops; i++) { size_t l = 5 + (rnd(3) ? 900 + rnd(200) : rnd(8000)); for (size_t j = 0; j < l; j++) t[j] = (char)('a' + (j * 7 + (size_t)i) % 26); t[l] = 0; xcalls = 0; TRY(); say(t); if (!xcalls) { refused("a log message"); if (rnd(2)) { PAUSED(say(t)); VP_CHECK(xcalls == 1, "later", "the message is still not logged"); } } VP_CHECK(xcalls <= 1, "xlog.twice", "%d messages for one", xcalls); if (xcalls) VP_CHECK(xn >= l && memmem(xgot, xn, t, l), "xlog.content", "a message of %zu characters was logged as %zu bytes", l, xn); }
    char s[TIME_STR_SIZE]; time_util_get_time_str_current(s, 0); VP_CHECK(strlen(s) > 15, "time.use", "time is \"%s\"", s); done(); xlog_set_target(0); if (how) VP_CHECK(lcu_global_cleanup() == 0, "global.cleanup", "cleanup failed"); else VP_CHECK(xlog_global_cleanup() == 0, "global.cleanup", "cleanup failed"); }
static void* nop(void* a) { return a; }
static void sc_prim(void) {
    portable_mutex_t m = (void*)1; portable_rwlock_t w = (void*)1; portable_sem_t s = (void*)1; portable_thread_t t = NULL; int r; void* ret = NULL; arm();
    TRY(); r = portable_mutex_init(&m, NULL); if (r) { refused("portable_mutex_init"); VP_CHECK(!m && portable_mutex_lock(&m) != 0, "prim", "a refused mutex can be locked"); PAUSED(r = portable_mutex_init(&m, NULL)); VP_CHECK(!r, "later", "mutex"); }
    TRY(); r = portable_rwlock_init(&w, NULL); if (r) { refused("portable_rwlock_init"); VP_CHECK(!w, "prim", "a refused lock has a handle"); PAUSED(r = portable_rwlock_init(&w, NULL)); VP_CHECK(!r, "later", "rwlock"); }
    TRY(); r = portable_sem_init(&s, 0, 1); if (r) { refused("portable_sem_init"); VP_CHECK(!s && portable_sem_post(&s) != 0, "prim", "a refused semaphore can be posted"); PAUSED(r = portable_sem_init(&s, 0, 1)); VP_CHECK(!r, "later", "sem"); }
    TRY(); r = portable_thread_create(&t, NULL, nop, &cell[3]); if (r) { refused("portable_thread_create"); VP_CHECK(!t, "prim", "a refused thread has a handle"); PAUSED(r = portable_thread_create(&t, NULL, nop, &cell[3])); VP_CHECK(!r, "later", "thread"); }
    VP_CHECK(portable_thread_join(t, &ret) == 0 && ret == &cell[3], "prim", "join"); VP_CHECK(portable_mutex_lock(&m) == 0 && portable_mutex_unlock(&m) == 0 && portable_rwlock_wrlock(&w) == 0 && portable_rwlock_unlock(&w) == 0 && portable_sem_wait(&s) == 0, "prim", "use"); done(); portable_mutex_destroy(&m); portable_rwlock_destroy(&w); portable_sem_destroy(&s); }
/* ---- driver ---- */
static const struct { const char* n; void (*f)(void); int weight; } SC[] = { {"list", sc_list, 3}, {"map", sc_map, 3}, {"array", sc_array, 2}, {"builder", sc_sb, 2}, {"rings", sc_rings, 1}, {"handler", sc_handler, 2}, {"fixed_handler", sc_fixed, 1}, {"thread_pool", sc_thpool, 1}, {"strings", sc_strings, 2}, {"params", sc_params, 3}, {"ini", sc_ini, 3}, {"files", sc_files, 2}, {"file_logger", sc_flog, 2}, {"log", sc_xlog, 2}, {"primitives", sc_prim, 1} };
#define NSC (int)(sizeof SC / sizeof *SC)
static int base_thr; static bool thr_back(void* a) { (void)a; return vp_count_threads() <= base_thr; }
static long run(int s, uint64_t seed, int k, long n, uint64_t mask) {
    char cnt[64]; pk = k; pn = n; ps = mask; outcome = 1; nrefused = 0; vp_rng_init(&R, seed, (uint64_t)s); vpm_paused = true; int fds = vp_count_fds(); base_thr = vp_count_threads(); vpc_mutex_fails = SC[s].f != sc_thpool; vpm_begin(); vp_trace("%s plan %d/%ld", SC[s].n, k, n); SC[s].f(); vpm_paused = true;
    if (vpm_live()) { char d[400]; vpm_dump(d, sizeof d); vp_fail("leak", "%s: %ld blocks left: %s (failures injected: %ld)", SC[s].n, vpm_live(), d, vpm_failed()); } long f = vpm_failed(); vpm_end(); vpm_fail_off(); vp_await(thr_back, NULL, "threads", "threads to end"); VP_CHECK(vp_count_fds() == fds, "descriptors", "%s: %d descriptors, %d before", SC[s].n, vp_count_fds(), fds);
    VP_CHECK(k || !nrefused, "spurious", "%s: operations fail without injected failures", SC[s].n); vp_count("runs", 1); vp_count("injected", (uint64_t)f); snprintf(cnt, sizeof cnt, "injected_%s", SC[s].n); vp_count(cnt, (uint64_t)f); vp_seen(vp_mix(outcome, (uint64_t)s)); return sites; }
static void m_oom(void) {
    static bool once; if (!once) { once = true; slog_set_min_level(LOG_LEVEL_OFF); if (!freopen("/dev/null", "w", stdout)) vp_error("stdout"); xlog_set_target(0); int fd = open("/dev/null", O_WRONLY); if (!getenv("VP_STDERR")) { FILE* q = fdopen(fd, "w"); if (q) stderr = q; } time_util_zone_offset_seconds_to_utc(); }
    int s = (int)(vp_case % NSC); uint64_t seed = vp_rand(); long n = run(s, seed, 0, 0, 0); VP_CHECK(n > 0, "sites", "no allocation seen in %s", SC[s].n); long lim = 60; vp_case_mix(vp_mix(seed, (uint64_t)s));
    if (n <= lim) for (long i = 1; i <= n; i++) { run(s, seed, 1, i, 0); vp_beat(); } else { vp_count("sampled_cases", 1); for (int i = 0; i < lim; i++) { run(s, seed, 1, 1 + (long)vp_below((uint64_t)n), 0); vp_beat(); } }
    for (int i = 0; i < 4; i++) { run(s, seed, 2, 1 + (long)vp_below((uint64_t)n), 0); vp_beat(); } for (int i = 0; i < 3; i++) { run(s, seed, 3, 50 + (long)vp_below(600), vp_rand()); vp_beat(); }
    vp_count("positions", (uint64_t)(n < lim ? n : lim)); vp_nontrivial(); if (vp_want_sample()) vp_sample("%s: %ld allocations", SC[s].n, n); }
const vp_mode_t vp_modes[] = { {"oom", m_oom}, {0} };
