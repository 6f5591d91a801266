/* C26: any sequence of creating, using and destroying objects leaves nothing behind; invalid creation is refused without effect */
#ifdef VP_MEMCHK
#include "mem/mem_debug.h" /* this program is then one that has its memory checked, as the header asks */
#endif
#include "vp.h"
#include "wrap_locks.h"
#include "lcu.h"
#include "data/list.h"
#include "data/hashmap.h"
#include "data/array.h"
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "mem/stringbuilder.h"
#include "mem/strings.h"
#include "mem/str_params.h"
#include "mem/mplite.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "ring/autocover_buffer.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
#include "thread/thpool.h"
#include "thread/portable_thread.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "log/file_logger.h"
#include "log/slog.h"
#include "log/xlog.h"
#include "time/time_util.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#define B vp_below
static void let_go(void* p) { free(p); } /* as a function, whatever free is here */
typedef struct { int kind; void* p; void* x; size_t n; int m; } obj_t;
static int depth; /* of the callers' locks */ static volatile long locks_taken, locks_given;
static int acq(void* a) { pthread_mutex_lock((pthread_mutex_t*)a); __atomic_add_fetch(&locks_taken, 1, __ATOMIC_RELAXED); return 0; }
static int rel(void* a) { __atomic_add_fetch(&locks_given, 1, __ATOMIC_RELAXED); pthread_mutex_unlock((pthread_mutex_t*)a); return 0; }
static pthread_mutex_t ulock[4] = { PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER };
static bool free_locks(void) { for (int i = 0; i < 4; i++) { if (pthread_mutex_trylock(&ulock[i])) return false; pthread_mutex_unlock(&ulock[i]); } return true; }
static char dir[300]; static long serial;
static const char* path(const char* ext) { static char b[400]; snprintf(b, sizeof b, "%s/f%ld%s", dir, serial++, ext); return b; }
static void fill(void* p, size_t n) { memset(p, (int)B(256), n); }
static char bytes[70000];
#define GONE(what, h) VP_CHECK(!(h), "handle", "%s: the handle is still set after it was destroyed", what)
/* ---- rings ---- */
static void mk_ring(obj_t* o) { if (B(2)) { uint32_t n = 4 + (uint32_t)B(5000); VP_CHECK(o->p = RingBuffer_create(n), "create", "RingBuffer_create(%u)", n); o->x = NULL; } else { size_t n = 40 + B(5000); o->x = malloc(n); VP_CHECK(o->p = RingBuffer_create_with_mem(o->x, (uint32_t)n), "create", "RingBuffer_create_with_mem(%zu)", n); } }
static void us_ring(obj_t* o) { uint32_t n = 1 + (uint32_t)B(6000); switch (B(4)) { case 0: RingBuffer_write(o->p, bytes, n); break; case 1: RingBuffer_read(o->p, bytes, n); break; case 2: RingBuffer_peek(o->p, bytes, n); break; default: if (B(2)) RingBuffer_clear(o->p); else RingBuffer_discard(o->p, n); } }
static void rm_ring(obj_t* o) { ring_buffer_handle h = o->p; RingBuffer_destroy(&h); GONE("RingBuffer", h); RingBuffer_destroy(&h); free(o->x); }
static void mk_rb(obj_t* o) { if (B(2)) { size_t n = 3 + B(5000); VP_CHECK(o->p = ring_buf_create(n), "create", "ring_buf_create(%zu)", n); o->x = NULL; } else { size_t n = 64 + B(5000); o->x = malloc(n); VP_CHECK(o->p = ring_buf_create_with_mem(o->x, n), "create", "ring_buf_create_with_mem(%zu)", n); } }
static void us_rb(obj_t* o) { size_t n = 1 + B(3000); switch (B(4)) { case 0: ring_buf_write(o->p, bytes, n); break; case 1: ring_buf_read(o->p, bytes, n); break; case 2: ring_buf_peek(o->p, bytes, n); break; default: if (B(2)) ring_buf_clear(o->p); else ring_buf_discard(o->p, n); } }
static void rm_rb(obj_t* o) { ring_handle h = o->p; ring_buf_destroy(&h); GONE("ring_buf", h); ring_buf_destroy(&h); free(o->x); }
static void mk_mq(obj_t* o) { uint32_t n = 64 + (uint32_t)B(5000); VP_CHECK(o->p = msg_queue_create(n), "create", "msg_queue_create(%u)", n); }
static void us_mq(obj_t* o) { uint32_t n = 1 + (uint32_t)B(600); if (B(3)) msg_queue_push(o->p, bytes, n); else if (B(6)) msg_queue_pop(o->p, bytes, &n); else msg_queue_clear(o->p); }
static void rm_mq(obj_t* o) { msg_queue h = o->p; msg_queue_destroy(&h); GONE("msg_queue", h); msg_queue_destroy(&h); }
static void mk_fq(obj_t* o) { uint32_t a = 8 + (uint32_t)B(60), b = 8 + (uint32_t)B(60); VP_CHECK(o->p = fixed_msg_queue_create(a, b), "create", "fixed_msg_queue_create(%u, %u)", a, b); }
static void us_fq(obj_t* o) { if (B(3)) fixed_msg_queue_push(o->p, bytes); else if (B(6)) fixed_msg_queue_pop(o->p, bytes); else fixed_msg_queue_clear(o->p); }
static void rm_fq(obj_t* o) { fixed_msg_queue h = o->p; fixed_msg_queue_destroy(&h); GONE("fixed_msg_queue", h); fixed_msg_queue_destroy(&h); }
static void mk_ac(obj_t* o) { auto_cover_buf_lock_t lk = { &ulock[0], acq, rel }; uint32_t n = 4 + (uint32_t)B(3000); VP_CHECK(o->p = auto_cover_buf_create(n, B(2) ? &lk : NULL), "create", "auto_cover_buf_create(%u)", n); o->n = 0; o->m = 1; while ((uint32_t)o->m < n) o->m *= 2; }
static void us_ac(obj_t* o) { if (B(2)) { uint32_t n = 1 + (uint32_t)B((uint64_t)o->m); auto_cover_buf_write(o->p, bytes, n); o->n += n; } else { uint32_t at = (uint32_t)B(o->n + 10); if (B(2)) auto_cover_buf_read(o->p, at, bytes, 1 + (uint32_t)B(500)); else auto_cover_buf_available_read(o->p, at); } }
static void rm_ac(obj_t* o) { auto_cover_buf_handle h = o->p; auto_cover_buf_destroy(&h); GONE("auto_cover_buf", h); auto_cover_buf_destroy(&h); }
/* ---- handlers ---- */
static int on_msg(queue_msg_t* m, void* u) { (void)u; if (m->what == 2) { struct timespec t = { 0, 200000 }; nanosleep(&t, NULL); } return m->what == 3 ? 7 : 0; }
static int on_fmsg(fixed_msg_t* m, void* u) { (void)u; return m->what == 3 ? 7 : 0; }
static void on_st(msg_q_handler_status_e s, void* u) { (void)s; (void)u; }
static void mk_h(obj_t* o) { msg_queue_handler_init_param_t p = { o, on_msg, B(2) ? on_st : NULL }; uint32_t n = 200 + (uint32_t)B(30000); VP_CHECK(o->p = msg_queue_handler_create(n, &p), "create", "msg_queue_handler_create(%u)", n); }
static void us_h(obj_t* o) { static char raw[sizeof(queue_msg_t) + 9000]; queue_msg_t* m = (queue_msg_t*)raw; m->what = B(40) ? (int)B(3) : 3; m->arg1 = m->arg2 = 1; m->obj_len = (int)B(B(5) ? 60 : 9000); if (B(25)) msg_queue_handler_push(o->p, m); else { msg_queue_handler_available_push_bytes(o->p); msg_queue_handler_available_pop_bytes(o->p); } }
static void rm_h(obj_t* o) { msg_queue_handler h = o->p; msg_queue_handler_destroy(&h); GONE("msg_queue_handler", h); msg_queue_handler_destroy(&h); }
static void mk_fh(obj_t* o) { fixed_msg_queue_handler_init_param_t p = { o, on_fmsg, B(2) ? on_st : NULL }; uint32_t n = 2 + (uint32_t)B(30); VP_CHECK(o->p = fixed_msg_queue_handler_create(n, &p), "create", "fixed_msg_queue_handler_create(%u)", n); }
static void us_fh(obj_t* o) { static fixed_msg_t m; m.what = B(40) ? 1 : 3; m.obj.data_len = 5; if (B(12)) fixed_msg_queue_handler_push(o->p, &m); else fixed_msg_queue_handler_clear(o->p); }
static void rm_fh(obj_t* o) { fixed_msg_queue_handler h = o->p; fixed_msg_queue_handler_destroy(&h); GONE("fixed_msg_queue_handler", h); fixed_msg_queue_handler_destroy(&h); }
/* ---- thread pool ---- */
static void task(void* a) { if ((intptr_t)a) { struct timespec t = { 0, (intptr_t)a }; nanosleep(&t, NULL); } }
static void mk_tp(obj_t* o) { int n = (int)B(6); VP_CHECK(o->p = thpool_init(n), "create", "thpool_init(%d)", n); o->n = (size_t)n; o->m = 0; }
static void us_tp(obj_t* o) { switch (B(7)) { case 0: if (o->n && !o->m) thpool_wait(o->p); break; case 1: if (o->n && !B(8)) { thpool_pause(o->p); o->m = 1; } break; case 2: if (o->m) { thpool_resume(o->p); o->m = 0; } break; default: VP_CHECK(thpool_add_work(o->p, task, (void*)(intptr_t)(B(3) ? 0 : 1 + B(100000))) == 0, "use", "thpool_add_work"); } }
static void rm_tp(obj_t* o) { thpool_destroy(o->p); thpool_destroy(NULL); }
/* ---- containers ---- */
static int kh(const void* k) { return *(const int*)k; } static bool ke(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
static void mk_map(obj_t* o) { hashmap_lock_t lk = { &ulock[1], acq, rel }; size_t n = B(200); VP_CHECK(o->p = hashmap_create(n, kh, let_go, let_go, ke, B(2) ? &lk : NULL), "create", "hashmap_create(%zu)", n); }
static bool it_map(void* k, void* v, void* c) { (void)k; (void)v; (void)c; return B(20); }
static void us_map(obj_t* o) { int k = (int)B(40); switch (B(8)) { case 0: hashmap_remove(o->p, &k); break; case 1: hashmap_get(o->p, &k); break; case 2: if (!B(4)) hashmap_clear(o->p); else hashmap_foreach(o->p, it_map, NULL); break;
    default: for (int i = 1 + (int)B(9); i > 0; i--) { int* kp = malloc(sizeof *kp), *vp = malloc(8); *kp = (int)B(400); *vp = 1; if (hashmap_put(o->p, kp, vp)) free(kp); } } }
static void rm_map(obj_t* o) { hashmap_free(o->p); }
static void mk_list(obj_t* o) { VP_CHECK(o->p = list_new(let_go), "create", "list_new"); }
static bool it_list(void* d, void* c) { (void)d; (void)c; return B(10); }
static void us_list(obj_t* o) { switch (B(6)) { case 0: if (!list_is_empty(o->p)) list_remove(o->p, B(2) ? list_front(o->p) : list_back(o->p)); break; case 1: list_prepend(o->p, malloc(5)); break; case 2: if (!list_is_empty(o->p)) list_insert_after(o->p, B(2) ? list_begin(o->p) : list_back_node(o->p), malloc(6)); break; case 3: if (!B(4)) list_clear(o->p); else list_foreach(o->p, it_list, NULL); break; default: list_append(o->p, malloc(7)); } }
static void rm_list(obj_t* o) { list_free(o->p); list_free(NULL); }
static void mk_arr(obj_t* o) { size_t n = 4 + B(60), c = B(50); VP_CHECK(o->p = B(2) ? array_new(n) : array_new_with_init_capacity(n, c), "create", "array_new(%zu)", n); }
static void us_arr(obj_t* o) { for (int i = 1 + (int)B(12); i > 0; i--) VP_CHECK(array_append_ptr(o->p, bytes), "use", "array_append_ptr"); }
static void rm_arr(obj_t* o) { array_free(o->p); array_free(NULL); }
static void mk_sb(obj_t* o) { size_t n = B(300); VP_CHECK(o->p = stringbuilder_create(n), "create", "stringbuilder_create(%zu)", n); }
static void us_sb(obj_t* o) { bytes[30] = 0; switch (B(6)) { case 0: stringbuilder_appendf(o->p, "%d %s %0*d", 5, "text", (int)B(900), 1); break; case 1: stringbuilder_appendchar(o->p, 'c'); break; case 2: stringbuilder_clear(o->p); break; case 3: stringbuilder_appendnstr(o->p, "abcdefghij", B(11)); break; default: stringbuilder_appendstr(o->p, "some words "); } }
static void rm_sb(obj_t* o) { stringbuilder_t* h = o->p; stringbuilder_destroy(&h); GONE("stringbuilder", h); stringbuilder_destroy(&h); stringbuilder_destroy(NULL); }
static void mk_pm(obj_t* o) { if (B(2)) VP_CHECK(o->p = str_params_create(B(2) ? ";" : NULL), "create", "str_params_create"); else VP_CHECK(o->p = str_params_create_str(B(2) ? ";" : ",;", B(3) ? "a=1;b=2;c;d=;a=3;=5;;x=y=z" : ""), "create", "str_params_create_str"); }
static void us_pm(obj_t* o) { char k[8], v[40]; int i; float f; snprintf(k, sizeof k, "%c", 'a' + (int)B(8)); switch (B(9)) { case 0: str_params_del(o->p, k); break; case 1: str_params_get_str(o->p, k, v, 1 + B(39)); break; case 2: str_params_get_int(o->p, k, &i); break; case 3: str_params_get_float(o->p, k, &f); break; case 4: { char* s = str_params_to_str(o->p); free(s); break; } case 5: str_params_add_int(o->p, k, 5); break; case 6: str_params_add_double(o->p, k, 2.5); break; default: str_params_add_str(o->p, k, "value"); } }
static void rm_pm(obj_t* o) { str_params_destroy(o->p); str_params_destroy(NULL); }
static void put(const char* f, const char* t, size_t n) { FILE* q = fopen(f, "w"); if (!q || fwrite(t, 1, n, q) != n) vp_error("scratch file"); fclose(q); }
static const char* INI = "[one]\na=1\nb = two ; note\n[two]\nc=3\nd=\n[one]\ne=5\n";
static void mk_ini(obj_t* o) { switch (B(3)) { case 0: o->p = ini_parser_create(); break; case 1: o->p = ini_parser_parse_str(INI); break; default: { const char* f = path(".ini"); put(f, INI, strlen(INI)); o->p = ini_parser_parse_file(f); unlink(f); } } VP_CHECK(o->p, "create", "ini_parser"); }
static int it_ini(const char* s, const char* n, const char* v, const void* u) { (void)s; (void)n; (void)v; (void)u; return 1; }
static void us_ini(obj_t* o) { char s[8], k[8], v[64]; int i; snprintf(s, sizeof s, "%s", B(2) ? "one" : "new"); snprintf(k, sizeof k, "%c", 'a' + (int)B(6)); switch (B(9)) { case 0: ini_parser_delete_by_section_key(o->p, s, k); break; case 1: ini_parser_delete_section(o->p, s); break; case 2: ini_parser_get_string(o->p, s, k, v, sizeof v); break; case 3: ini_parser_get_int(o->p, s, k, &i); break;
    case 4: { char* d = ini_parser_dump(o->p); free(d); break; } case 5: { const char* f = path(".ini"); ini_parser_save(o->p, f); unlink(f); break; } case 6: ini_parser_foreach(o->p, it_ini, NULL); break; default: ini_parser_put_string(o->p, s, k, "value"); } }
static void rm_ini(obj_t* o) { ini_parser_handle h = o->p; VP_CHECK(ini_parser_destroy(&h) == INI_PARSER_CODE_SUCCEED, "destroy", "ini_parser_destroy fails"); GONE("ini_parser", h); ini_parser_destroy(&h); ini_parser_destroy(NULL); }
static void mk_mp(obj_t* o) { mplite_t* h = malloc(sizeof *h); size_t n = 300 + B(9000); o->x = malloc(n); mplite_lock_t lk = { &ulock[2], acq, rel }; VP_CHECK(mplite_init(h, o->x, (int)n, 1 + (int)B(100), B(2) ? &lk : NULL) == MPLITE_OK, "create", "mplite_init"); o->p = h; }
static void us_mp(obj_t* o) { void* p[12]; int n = (int)B(12); for (int i = 0; i < n; i++) p[i] = B(4) ? mplite_malloc(o->p, (int)B(700)) : mplite_calloc(o->p, (int)B(300)); for (int i = 0; i < n; i++) { if (p[i] && B(2)) { void* q = mplite_realloc(o->p, p[i], 1 + (int)B(600)); if (q) p[i] = q; } mplite_free(o->p, p[i]); } }
static void rm_mp(obj_t* o) { free(o->x); free(o->p); }
/* ---- files and logs ---- */
static void mk_fl(obj_t* o) { static file_logger_cfg c; memset(&c, 0, sizeof c); if (strlen(dir) > 90) vp_error("scratch path too long"); snprintf(c.log_folder_path, sizeof c.log_folder_path, "%s/l%d%s", dir, (int)B(3), B(2) ? "/" : ""); if (B(4)) snprintf(c.log_file_name_prefix, sizeof c.log_file_name_prefix, "p%ld_", serial++); else snprintf(c.log_file_name_prefix, sizeof c.log_file_name_prefix, "q%ld", serial++);
    c.one_piece_file_max_len = B(3) ? 300 + B(3000) : 0; c.log_queue_size = 2 + B(20); c.is_try_my_best_to_keep_log = B(3) == 0; if (B(2)) { c.lock.arg = &ulock[3]; c.lock.acquire = acq; c.lock.release = rel; } VP_CHECK(o->p = file_logger_init(&c), "create", "file_logger_init"); }
static void us_fl(obj_t* o) { for (int i = 1 + (int)B(6); i > 0; i--) file_logger_log(o->p, bytes + 100, 1 + B(B(8) ? 300 : 5000)); }
static void rm_fl(obj_t* o) { file_logger_handle h = o->p; VP_CHECK(file_logger_deinit(&h) == 0, "destroy", "file_logger_deinit fails"); GONE("file_logger", h); file_logger_deinit(&h); file_logger_deinit(NULL); }
static int it_rd(void* u, const char* s, const char* n, const char* v) { (void)u; (void)s; (void)n; (void)v; return B(10) != 0; }
static int it_dir(file_info_t* i, void* u) { (void)i; (void)u; return B(30) ? 0 : 1; }
static void mk_none(obj_t* o) { o->p = o; o->x = NULL; }
static int it_line(int n, char* t, void* u) { (void)n; (void)t; (void)u; return B(10) ? 0 : 1; }
static void us_files(obj_t* o) { (void)o; static char f[400], d[500]; snprintf(f, sizeof f, "%s", path(".txt")); char* t = NULL; int len = 0; switch (B(7)) {
    case 0: put(f, bytes + 100, 1 + B(3000)); if (file_util_read_all(f, &t, &len) == 0) free(t); break;
    case 1: put(f, "[s]\na=b\nc=d\n[t]\nbad\n", 20); file_util_read_txt(f, it_line, NULL); break;
    case 2: VP_CHECK(file_util_read_all(f, &t, &len) != 0, "use", "text from a file that is not there"); break;
    case 3: put(f, "a=b\n[s]\nc=d\nbad\n", 16); ini_reader_parse(f, it_rd, NULL); break; case 4: file_iterator_foreach(dir, it_dir, NULL); break;
    case 5: snprintf(d, sizeof d, "%s.d/x/y", f); file_util_mkdirs(d); rmdir(d); for (int i = 0; i < 2; i++) { *strrchr(d, '/') = 0; rmdir(d); } break;
    default: file_util_get_size_by_path(f); file_util_read_txt(f, it_line, NULL); } unlink(f); }
static void us_str(obj_t* o) { (void)o; char* p; switch (B(5)) { case 0: p = strreplace("a-b-c-d", "-", B(2) ? "+++" : ""); free(p); break; default: { char s[TIME_STR_SIZE]; time_util_get_time_str_current(s, 0); } } }
static void rm_none(obj_t* o) { (void)o; }
static int redirects; 
static void mk_rd(obj_t* o) { char f[400]; snprintf(f, sizeof f, "%s", path(".out")); xlog_stdout2file(f); o->p = o; redirects++; if (!B(3)) { unlink(f); snprintf(f, sizeof f, "%s", path(".out")); xlog_stdout2file(f); } unlink(f); }
static void us_rd(obj_t* o) { (void)o; printf("line %d\n", (int)B(100)); if (!B(6)) { char bad[500]; snprintf(bad, sizeof bad, "%s/none/none", dir); xlog_stdout2file(bad); xlog_stdout2file(NULL); xlog_stdout2file(""); } }
static void rm_rd(obj_t* o) { (void)o; xlog_back2stdout(); xlog_back2stdout(); redirects--; }
static int tracked, never = 1;
static void mk_tr(obj_t* o) { allocation_tracker_init(); if (B(2)) allocation_tracker_init(); static void* slots[30]; memset(slots, 0, sizeof slots); o->p = o; o->x = slots; tracked++; }
static void us_tr(obj_t* o) { void** t = o->x; for (int i = 1 + (int)B(5); i > 0; i--) { int k = (int)B(30); if (t[k]) { if (B(3)) { lcu_free(t[k]); t[k] = NULL; } else if (B(3)) { void* q = lcu_realloc(t[k], 1 + B(400)); if (q) t[k] = q; } else lcu_free_and_reset(&t[k]); } else t[k] = B(3) ? lcu_malloc(B(300)) : B(2) ? lcu_calloc(1 + B(5), B(60)) : (void*)lcu_strdup("tracked"); } }
static void rm_tr(obj_t* o) { void** t = o->x; for (int k = 0; k < 30; k++) if (t[k]) lcu_free(t[k]); VP_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "use", "tracked blocks are reported although all were freed"); allocation_tracker_uninit(); allocation_tracker_uninit(); tracked--; }
/* ---- primitives ---- */
static void mk_mx(obj_t* o) { portable_mutex_t m = NULL; VP_CHECK(!portable_mutex_init(&m, NULL) && m, "create", "portable_mutex_init"); o->p = m; }
static void us_mx(obj_t* o) { portable_mutex_t m = o->p; VP_CHECK(!portable_mutex_lock(&m) && !portable_mutex_unlock(&m), "use", "portable_mutex"); }
static void rm_mx(obj_t* o) { portable_mutex_t m = o->p; VP_CHECK(!portable_mutex_destroy(&m), "destroy", "portable_mutex_destroy fails"); GONE("portable_mutex", m); portable_mutex_destroy(&m); portable_mutex_destroy(NULL); }
static void mk_rw(obj_t* o) { portable_rwlock_t m = NULL; VP_CHECK(!portable_rwlock_init(&m, NULL) && m, "create", "portable_rwlock_init"); o->p = m; }
static void us_rw(obj_t* o) { portable_rwlock_t m = o->p; VP_CHECK(!(B(2) ? portable_rwlock_rdlock(&m) : portable_rwlock_wrlock(&m)) && !portable_rwlock_unlock(&m), "use", "portable_rwlock"); }
static void rm_rw(obj_t* o) { portable_rwlock_t m = o->p; VP_CHECK(!portable_rwlock_destroy(&m), "destroy", "portable_rwlock_destroy fails"); GONE("portable_rwlock", m); portable_rwlock_destroy(&m); portable_rwlock_destroy(NULL); }
static void mk_sm(obj_t* o) { portable_sem_t m = NULL; VP_CHECK(!portable_sem_init(&m, 0, (unsigned)B(4)) && m, "create", "portable_sem_init"); o->p = m; }
static void us_sm(obj_t* o) { portable_sem_t m = o->p; VP_CHECK(!portable_sem_post(&m) && !portable_sem_wait(&m), "use", "portable_sem"); }
static void rm_sm(obj_t* o) { portable_sem_t m = o->p; VP_CHECK(!portable_sem_destroy(&m), "destroy", "portable_sem_destroy fails"); GONE("portable_sem", m); portable_sem_destroy(&m); portable_sem_destroy(NULL); }
static void* th(void* a) { if (a == (void*)1) { struct timespec t = { 0, 100000 }; nanosleep(&t, NULL); } return a; }
static void mk_th(obj_t* o) { portable_thread_t t = NULL; portable_thread_attr_t a = { "worker", 0, NULL }; VP_CHECK(!portable_thread_create(&t, B(2) ? &a : NULL, th, (void*)(intptr_t)B(2)) && t, "create", "portable_thread_create"); o->p = t; }
static void rm_th(obj_t* o) { void* r; VP_CHECK(!portable_thread_join(o->p, B(2) ? &r : NULL), "destroy", "portable_thread_join fails"); }
static void us_none(obj_t* o) { (void)o; }
static void mk_gl(obj_t* o) { VP_CHECK(lcu_global_init() == 0, "create", "lcu_global_init"); o->p = o; depth++; }
static void us_gl(obj_t* o) { (void)o; if (B(2)) { VP_CHECK(time_util_global_init() == 0, "create", "time_util_global_init of what is up"); VP_CHECK(xlog_global_init() == 1, "create", "xlog_global_init of what is up"); } LOGD("some text %d", (int)B(10)); char s[TIME_STR_SIZE]; struct timeval tv = { (time_t)B(2000000000), 0 }; time_util_get_time_str(&tv, s, (int)B(20) - 10); }
static void rm_gl(obj_t* o) { (void)o; VP_CHECK(lcu_global_cleanup() == 0, "destroy", "lcu_global_cleanup"); depth--; }
static const struct { const char* n; void (*mk)(obj_t*), (*us)(obj_t*), (*rm)(obj_t*); int* only; } K[] = {
    { "RingBuffer", mk_ring, us_ring, rm_ring, 0 }, { "ring_buf", mk_rb, us_rb, rm_rb, 0 }, { "msg_queue", mk_mq, us_mq, rm_mq, 0 }, { "fixed_msg_queue", mk_fq, us_fq, rm_fq, 0 }, { "auto_cover_buf", mk_ac, us_ac, rm_ac, 0 }, { "msg_queue_handler", mk_h, us_h, rm_h, 0 }, { "fixed_msg_queue_handler", mk_fh, us_fh, rm_fh, 0 }, { "thread_pool", mk_tp, us_tp, rm_tp, 0 },
    { "hashmap", mk_map, us_map, rm_map, 0 }, { "list", mk_list, us_list, rm_list, 0 }, { "array", mk_arr, us_arr, rm_arr, 0 }, { "stringbuilder", mk_sb, us_sb, rm_sb, 0 }, { "str_params", mk_pm, us_pm, rm_pm, 0 }, { "ini_parser", mk_ini, us_ini, rm_ini, 0 }, { "memory_pool", mk_mp, us_mp, rm_mp, 0 }, { "file_logger", mk_fl, us_fl, rm_fl, 0 },
    { "files", mk_none, us_files, rm_none, 0 }, { "strings", mk_none, us_str, rm_none, 0 }, { "redirection", mk_rd, us_rd, rm_rd, &redirects }, { "tracker", mk_tr, us_tr, rm_tr, &never }, { "mutex", mk_mx, us_mx, rm_mx, 0 }, { "rwlock", mk_rw, us_rw, rm_rw, 0 }, { "semaphore", mk_sm, us_sm, rm_sm, 0 }, { "thread", mk_th, us_none, rm_th, 0 }, { "global", mk_gl, us_gl, rm_gl, 0 } };
#define NK (int)(sizeof K / sizeof *K)
static int base_thr; static bool thr_back(void* a) { (void)a; return vp_count_threads() <= base_thr; }
static void once(void) {
    static bool did; if (did) return; did = true; slog_set_min_level(LOG_LEVEL_OFF); if (!freopen("/dev/null", "w", stdout)) vp_error("stdout"); xlog_set_target(0); xlog_set_min_level(LOG_LEVEL_VERBOSE); if (!getenv("VP_STDERR")) { FILE* q = fdopen(open("/dev/null", O_WRONLY), "w"); if (q) stderr = q; }
    snprintf(dir, sizeof dir, "%s/life", vp_scratch()); mkdir(dir, 0700); fill(bytes, sizeof bytes); time_util_zone_offset_seconds_to_utc(); printf("x"); fflush(stdout); file_iterator_foreach(dir, it_dir, NULL); }
static void settle(const char* after, int fds) {
    vp_await(thr_back, NULL, "threads", "threads to end"); char d[400]; VP_CHECK(vpk_owed() == 0, "threads", "%s: %ld threads were neither joined nor detached", after, vpk_owed());
    if (vpm_live()) { vpm_dump(d, sizeof d); vp_fail("leak", "%s: %ld blocks left: %s", after, vpm_live(), d); }
    if (vpk_live()) { vpk_dump(d, sizeof d); vp_fail("locks", "%s: %ld locks never destroyed: %s", after, vpk_live(), d); } if (vpk_bad()) vp_fail("locks", "%s: %s", after, vpk_bad());
    VP_CHECK(vp_count_fds() == fds, "descriptors", "%s: %d descriptors, %d before", after, vp_count_fds(), fds); VP_CHECK(locks_taken == locks_given && free_locks(), "callers_locks", "%s: the caller's locks were acquired %ld times, released %ld times", after, locks_taken, locks_given); }
static void m_life(void) {
    once(); int fds = vp_count_fds(); base_thr = vp_count_threads(); vps_set(vp_rand(), B(3) ? (unsigned)B(20) : 0); vpm_begin(); vpk_begin(); locks_taken = locks_given = 0; depth = 0; obj_t o[14]; int n = 0, most = 1 + (int)B(14), ops = 30 + (int)B(170), maxn = 0; uint64_t h = 1, made = 0; uint32_t mask = B(3) ? ~0u : (uint32_t)vp_rand() | 1u << B(NK);
    bool g = B(2); /* started for the whole case, so that the log and the clock have their locks while threads use them */
    if (g) { int k = 1 + (int)B(3); while (k--) mk_gl(&o[0]); } int extra = depth; char cnt[80]; obj_t tr; bool t = !B(3);
#ifdef VP_MEMCHK
    t = true;
#endif
    if (t) { mk_tr(&tr); vp_count("tracked_cases", 1); }
    for (int i = 0; i < ops; i++) {
        int what = (int)B(10); if (n < most && (what < 4 || !n)) { int k = (int)B(NK); if (!(mask >> k & 1)) continue; if (K[k].only && *K[k].only) continue; if (K[k].mk == mk_gl && !g) continue;
            o[n].kind = k; vp_trace("create %s", K[k].n); K[k].mk(&o[n]); n++; made++; if (n > maxn) maxn = n; snprintf(cnt, sizeof cnt, "made_%s", K[k].n); vp_count(cnt, 1); h = vp_mix(h, (uint64_t)k); }
        else if (n && what < 8) { int j = (int)B((uint64_t)n); vp_trace("use %s", K[o[j].kind].n); K[o[j].kind].us(&o[j]); vp_count("uses", 1); }
        else if (n) { int j = B(3) ? (int)B((uint64_t)n) : B(2) ? 0 : n - 1; vp_trace("destroy %s", K[o[j].kind].n); K[o[j].kind].rm(&o[j]); h = vp_mix(h, 100 + (uint64_t)o[j].kind); o[j] = o[--n]; vp_count("destroyed", 1); }
        if (t && !B(8)) us_tr(&tr); if (i % 16 == 0) vp_beat(); }
    while (n) { int j = (int)B((uint64_t)n); vp_trace("destroy %s", K[o[j].kind].n); K[o[j].kind].rm(&o[j]); o[j] = o[--n]; vp_count("destroyed", 1); vp_beat(); }
    if (t) rm_tr(&tr);
    while (extra--) rm_gl(&o[0]); VP_CHECK(depth == 0, "trouble", "depth"); if (!B(3)) { lcu_global_cleanup(); VP_CHECK(!lcu_global_init() && !lcu_global_cleanup(), "create", "global start-up after a surplus clean-up"); }
    vps_set(0, 0); vp_count("locks", (uint64_t)vpk_made()); vp_count("callers_locks", (uint64_t)locks_taken); settle("after everything was destroyed", fds); vpm_end(); vp_seen(h); vp_case_mix(h); if (made > 5) vp_nontrivial(); vp_count("most_at_once", maxn > 8 ? 1 : 0); if (vp_want_sample()) vp_sample("%d operations, up to %d objects at once, %ld locks made", ops, maxn, vpk_made()); }
/* the same object many times: residue that only adds up, and identifiers that run out */
static void m_again(void) {
    once(); int k = (int)(vp_case % NK), rounds = 20 + (int)B(30); obj_t o = { .kind = k }; if (K[k].mk == mk_tp || K[k].mk == mk_fl) rounds = 8; vps_set(vp_rand(), (unsigned)B(15));
#ifdef VP_MEMCHK
    obj_t tr; bool t = K[k].mk != mk_tr; if (t) mk_tr(&tr);
#endif
    bool g = K[k].mk == mk_gl || B(2);
    if (g) lcu_global_init(); int fds = vp_count_fds(); base_thr = vp_count_threads(); vpm_begin(); vpk_begin(); locks_taken = locks_given = 0; uint64_t h = (uint64_t)k; if (K[k].mk == mk_gl) { lcu_global_cleanup(); fds = vp_count_fds(); vpm_begin(); vpk_begin(); }
    for (int i = 0; i < rounds; i++) { int u = (int)B(12); K[k].mk(&o); for (int j = 0; j < u; j++) K[k].us(&o); K[k].rm(&o); settle(K[k].n, fds); h = vp_mix(h, (uint64_t)u);
#ifdef VP_MEMCHK
        if (t) { size_t left = allocation_tracker_expect_no_allocations(NULL, NULL); VP_CHECK(!left, "tracked", "%s: the tracker reports %zu bytes although it was destroyed", K[k].n, left); vp_count("tracked_rounds", 1); }
#endif
        vp_beat(); vp_count("rounds", 1); }
    if (g && K[k].mk != mk_gl) { vpm_end(); lcu_global_cleanup(); } vpm_end();
#ifdef VP_MEMCHK
    if (t) rm_tr(&tr);
#endif
    vps_set(0, 0); vp_seen(h); vp_case_mix(h); vp_nontrivial(); }
/* ---- invalid parameters ---- */
static void none(const char* what, bool refused) { VP_CHECK(refused, "accepted", "%s is not refused", what); vp_count("refused", 1); }
static void m_refuse(void) {
    once(); int fds = vp_count_fds(); base_thr = vp_count_threads(); vpm_begin(); vpk_begin(); char small[64] __attribute__((aligned(16))); memset(small, 0x5A, sizeof small); int k = (int)(vp_case % 16); char lbl[40]; snprintf(lbl, sizeof lbl, "invalid parameters, group %d", k); vp_trace("%s", lbl);
    switch (k) {
    case 0: none("RingBuffer_create(0)", !RingBuffer_create(0)); none("RingBuffer_create(1)", !RingBuffer_create(1)); none("RingBuffer_create(over 2^31)", !RingBuffer_create(0x80000001u + (uint32_t)B(0x7fffffff))); none("RingBuffer_create_with_mem(NULL)", !RingBuffer_create_with_mem(NULL, 10 + (uint32_t)B(5000))); none("RingBuffer_create_with_mem(small)", !RingBuffer_create_with_mem(small, (uint32_t)B(12))); RingBuffer_destroy(NULL); break;
    case 1: none("ring_buf_create(<3)", !ring_buf_create(B(3))); none("ring_buf_create_with_mem(NULL)", !ring_buf_create_with_mem(NULL, 10 + B(5000))); none("ring_buf_create_with_mem(small)", !ring_buf_create_with_mem(small, B(12))); none("ring_buf_create(huge)", !ring_buf_create(SIZE_MAX - B(60))); ring_buf_destroy(NULL); break;
    case 2: none("msg_queue_create(small)", !msg_queue_create((uint32_t)B(5))); msg_queue_destroy(NULL); none("push to nothing", msg_queue_push(NULL, small, 4) != MSG_Q_CODE_SUCCESS); { uint32_t n = 4; none("pop from nothing", msg_queue_pop(NULL, small, &n) != MSG_Q_CODE_SUCCESS); } break;
    case 3: none("fixed_msg_queue_create(0, n)", !fixed_msg_queue_create(0, 1 + (uint32_t)B(50))); none("fixed_msg_queue_create(n, 0)", !fixed_msg_queue_create(1 + (uint32_t)B(50), 0)); { uint32_t a = 1u << (1 + B(30)), b = (uint32_t)(UINT32_MAX / a) + 1 + (uint32_t)B(1000); none("fixed_msg_queue_create beyond 32 bits", !fixed_msg_queue_create(a + (uint32_t)B(2), b)); none("fixed_msg_queue_create beyond 32 bits", !fixed_msg_queue_create(b, a)); } fixed_msg_queue_destroy(NULL); break;
    case 4: none("auto_cover_buf_create(<2)", !auto_cover_buf_create((uint32_t)B(2), NULL)); auto_cover_buf_destroy(NULL); break;
    case 5: { msg_queue_handler_init_param_t p = { NULL, on_msg, on_st }, q = { NULL, NULL, on_st }; none("msg_queue_handler_create(small)", !msg_queue_handler_create((uint32_t)B(4), &p)); none("msg_queue_handler_create(NULL)", !msg_queue_handler_create(1000, NULL)); none("msg_queue_handler_create without a callback", !msg_queue_handler_create(1000, &q)); none("push to no handler", msg_queue_handler_push(NULL, (queue_msg_t*)small) != MSG_Q_CODE_SUCCESS); msg_queue_handler_destroy(NULL); break; }
    case 6: { fixed_msg_queue_handler_init_param_t p = { NULL, on_fmsg, on_st }, q = { NULL, NULL, on_st }; none("fixed_msg_queue_handler_create(small)", !fixed_msg_queue_handler_create((uint32_t)B(2), &p)); none("fixed_msg_queue_handler_create(NULL)", !fixed_msg_queue_handler_create(10, NULL)); none("fixed_msg_queue_handler_create without a callback", !fixed_msg_queue_handler_create(10, &q)); none("fixed_msg_queue_handler_create beyond 32 bits", !fixed_msg_queue_handler_create(0xf0000000u + (uint32_t)B(0xfffffff), &p)); fixed_msg_queue_handler_destroy(NULL); break; }
    case 7: { file_logger_cfg c; memset(&c, 0, sizeof c); c.log_queue_size = 8; strcpy(c.log_folder_path, "x"); none("file_logger_init(NULL)", !file_logger_init(NULL)); none("file_logger_init(short folder)", !file_logger_init(&c)); c.log_folder_path[0] = 0; none("file_logger_init(no folder)", !file_logger_init(&c)); snprintf(c.log_folder_path, sizeof c.log_folder_path, "%s/never", dir); c.log_queue_size = B(2); none("file_logger_init(small queue)", !file_logger_init(&c)); VP_CHECK(access(c.log_folder_path, F_OK), "accepted", "a refused logger created its folder");
        c.log_queue_size = 8; memset(c.log_folder_path, 'a', MAX_LOG_FOLDER_PATH_SIZE - 1); memcpy(c.log_folder_path, dir, strlen(dir)); c.log_folder_path[strlen(dir)] = '/'; c.log_folder_path[MAX_LOG_FOLDER_PATH_SIZE - 1] = 0; none("file_logger_init(folder without room for a slash)", !file_logger_init(&c)); VP_CHECK(file_logger_deinit(NULL) != 12345, "x", "x"); break; }
    case 8: { ini_parser_handle h = NULL; none("ini_parser_parse_file(NULL)", !ini_parser_parse_file(NULL)); none("ini_parser_parse_file(\"\")", !ini_parser_parse_file("")); none("ini_parser_parse_file(no file)", !ini_parser_parse_file(path(".ini"))); char f[400]; strcpy(f, path(".ini")); put(f, "[a", B(3)); none("ini_parser_parse_file(tiny file)", !ini_parser_parse_file(f)); unlink(f); none("malformed ini text", !ini_parser_parse_str("[a]\nx=1\n[unclosed\ny=2\n")); strcpy(f, path(".ini")); put(f, "[a]\nx=1\n[unclosed\ny", 19); none("malformed ini file", !ini_parser_parse_file(f)); unlink(f); none("ini_parser_destroy(NULL)", ini_parser_destroy(NULL) != INI_PARSER_CODE_SUCCEED || true); ini_parser_destroy(&h); break; }
    case 9: { mplite_t m; memset(&m, 0x33, sizeof m); none("mplite_init(NULL, ..)", mplite_init(NULL, small, 64, 8, NULL) != MPLITE_OK); none("mplite_init(.., NULL)", mplite_init(&m, NULL, 64, 8, NULL) != MPLITE_OK); none("mplite_init(no room)", mplite_init(&m, small, -(int)B(5), 8, NULL) != MPLITE_OK); none("mplite_init(min 0)", mplite_init(&m, small, 64, -(int)B(5), NULL) != MPLITE_OK); none("mplite_init(min too large)", mplite_init(&m, small, 64, MPLITE_MAX_ALLOC_SIZE + 1, NULL) != MPLITE_OK); for (size_t i = 0; i < sizeof m; i++) VP_CHECK(((char*)&m)[i] == 0x33, "accepted", "a refused mplite_init changed the handle"); break; }
    case 10: none("array beyond the address space", !array_new_with_init_capacity(2 + B(60), SIZE_MAX / 2 + 1 + B(1000))); none("array beyond the address space", !array_new_with_init_capacity(1ull << (1 + B(62)), 1ull << 63)); none("array beyond memory", !array_new_with_init_capacity(8, SIZE_MAX / 16)); array_free(NULL); break;
    case 11: none("string builder beyond memory", !stringbuilder_create(SIZE_MAX - B(100))); none("hash map beyond memory", !hashmap_create(SIZE_MAX / 8 + B(1000), kh, NULL, NULL, ke, NULL)); break;
    case 12: { threadpool t = thpool_init(-(int)B(5)); VP_CHECK(t, "create", "thpool_init of no threads"); none("thpool_add_work(NULL function)", thpool_add_work(t, NULL, NULL) != 0); thpool_destroy(t); break; }
    case 13: for (int i = 0; i < 3; i++) { portable_thread_t pt = (portable_thread_t)small; portable_thread_attr_t a = { "none", (size_t)1 << (45 + B(3)), NULL }; int r = portable_thread_create(&pt, &a, th, NULL); if (!r) { vp_count("endless_stacks", 1); portable_thread_join(pt, NULL); } else { VP_CHECK(!pt, "accepted", "a thread that could not be made left a handle"); vp_count("threads_not_made", 1); } }
        none("portable_mutex_init(NULL)", portable_mutex_init(NULL, NULL) != 0); none("portable_rwlock_init(NULL)", portable_rwlock_init(NULL, NULL) != 0); none("portable_sem_init(NULL)", portable_sem_init(NULL, 0, 0) != 0); { portable_sem_t s = NULL; none("portable_sem_init(value too large)", portable_sem_init(&s, 0, 0x80000000u + (unsigned)B(1000)) != 0); VP_CHECK(!s, "accepted", "a refused semaphore has a handle"); portable_thread_t t = NULL; none("portable_thread_create(NULL)", portable_thread_create(NULL, NULL, th, NULL) != 0); none("portable_thread_create(no function)", portable_thread_create(&t, NULL, NULL, NULL) != 0); VP_CHECK(!t, "accepted", "a refused thread has a handle"); } break;
    case 14: { char* t = NULL; int n = 0; none("text of a missing file", file_util_read_all(path(".none"), &t, &n) != 0 && !t); none("lines of a missing file", file_util_read_txt(path(".none"), it_line, NULL) != 0); none("iterating a missing folder", file_iterator_foreach((char*)path(".none"), it_dir, NULL) != 0); none("reading a missing ini", ini_reader_parse(path(".none"), it_rd, NULL) != 0); break; }
    default: { size_t big = 0x80000000ull + B(0x7fffffff); void* mem = mmap(NULL, big + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (mem == MAP_FAILED) { vp_count("no_address_space", 1); break; } ring_buffer_handle r = RingBuffer_create_with_mem(mem, (uint32_t)big); VP_CHECK(r, "create", "a ring over %zu bytes", big); size_t cap = RingBuffer_real_capacity(r); VP_CHECK(cap && (cap & (cap - 1)) == 0 && cap < big && cap * 2 + 200 >= big, "capacity", "a ring over %zu bytes holds %zu", big, cap); VP_CHECK(RingBuffer_write(r, bytes, 1000) == 1000 && RingBuffer_read(r, bytes, 2000) == 1000, "capacity", "a ring over %zu bytes does not pass data", big); RingBuffer_destroy(&r); munmap(mem, big + 4096); vp_count("huge_rings", 1); break; } }
    settle(lbl, fds); vpm_end(); vp_case_mix(vp_mix(vp_rand(), (uint64_t)k)); vp_nontrivial(); vp_seen((uint64_t)k); }
const vp_mode_t vp_modes[] = { {"life", m_life}, {"again", m_again}, {"refuse", m_refuse}, {0} };
