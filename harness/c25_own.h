/* C25 "own": threads that only use objects of their own. Nothing is shared but the library itself, so whatever orders or disturbs them is hidden in it:
 * a buffer kept between calls, a scanner that remembers its place, a setting of one object kept for all. Each result is known beforehand. */
#define OWN(c, k, what) VP_CHECK(c, "own." k, "thread %d, round %d: %s", t->id, i, what)
typedef struct { char s[8][24]; int n; } words_t;
static void own_words(thr_t* t, words_t* w) { w->n = 1 + (int)below(7); for (int k = 0; k < w->n; k++) { int l = 1 + (int)below(12); for (int j = 0; j < l; j++) w->s[k][j] = (char)('a' + (t->id * 4 + (int)below(4)) % 26); w->s[k][l] = 0; } }
static bool own_true(void* d, void* x) { int* p = x; p[0]++; p[1] += *(int*)d; return true; }
typedef struct { int n, bad, id; words_t* w; } own_ini_t;
static int own_pair(void* u, const char* s, const char* k, const char* v) { own_ini_t* o = u; char want[24]; snprintf(want, sizeof want, "k%d", o->n); if (strcmp(k, want) || strcmp(s, "sec") || strcmp(v, o->w->s[o->n])) o->bad++; o->n++; return 1; }
static int own_each(const char* s, const char* k, const char* v, const void* u) { own_ini_t* o = (own_ini_t*)(uintptr_t)u; (void)s; (void)k; for (int q = 0; q < o->w->n; q++) if (!strcmp(v, o->w->s[q])) { o->n++; return 0; } o->bad++; return 0; }
static int own_line(int n, char* x, void* u) { own_ini_t* o = u; (void)n; x[strcspn(x, "\r\n")] = 0; if (o->n >= o->w->n || strcmp(x, o->w->s[o->n])) o->bad++; o->n++; return 0; }
static int own_entry(file_info_t* f, void* u) { own_ini_t* o = u; if (f->name[0] != 'e' || f->p_stat->st_size != (off_t)(f->name[1] - '0') * 10 + o->id) o->bad++; o->n++; return 0; }
static void own_job(void* a) { __atomic_fetch_add((int*)a, 1, __ATOMIC_RELAXED); }
static int own_msg(queue_msg_t* m, void* u) { uint64_t* g = u; g[0]++; g[1] += (uint64_t)m->what; return 0; }
static int own_fix(fixed_msg_t* m, void* u) { uint64_t* g = u; g[0]++; g[1] += (uint64_t)m->what; return 0; }
static void own_st(msg_q_handler_status_e s, void* u) { (void)s; (void)u; }
static bool own_same(void* k, void* v, void* u) { int* p = u; p[0]++; if (*(int*)v != *(int*)k * 7) p[1]++; return true; }
static int own_stats(const char* s) { (void)s; return 0; }
static void own_joined(const words_t* w, const char* pre, const char* sep, char* out, size_t cap, bool keys) { size_t l = 0; l += (size_t)snprintf(out, cap, "%s", pre); for (int k = 0; k < w->n; k++) { if (keys) l += (size_t)snprintf(out + l, cap - l, "k%d=", k); l += (size_t)snprintf(out + l, cap - l, "%s%s", w->s[k], k + 1 < w->n ? sep : ""); } }
static void own_texts(thr_t* t, int i) {
    words_t w; own_words(t, &w); char in[400], out[900], hex[900], want[900]; char* rec[10]; size_t nr = 10;
    switch (below(7)) {
    case 0: own_joined(&w, "", ",", in, sizeof in, false); memset(rec, 0, sizeof rec); strsplit(rec, &nr, in, ","); OWN((int)nr == w.n, "split", "number of pieces"); for (int k = 0; k < w.n; k++) { OWN(!strcmp(rec[k], w.s[k]), "split", "a piece"); } break;
    case 1: { own_joined(&w, "", "--", in, sizeof in, false); own_joined(&w, "", "<=>", want, sizeof want, false); char* r = strreplace(in, "--", "<=>"); OWN(r && !strcmp(r, want), "replace", "text"); lcu_free(r); break; }
    case 2: strlcpy(in, w.s[0], sizeof in); strlcat(in, w.s[w.n - 1], 13); snprintf(want, sizeof want, "%.12s", w.s[0]); size_t wl = strlen(want); snprintf(want + wl, 13 - wl, "%s", w.s[w.n - 1]); OWN(!strcmp(in, want), "concat", in); snprintf(in, sizeof in, "  ..%s. ", w.s[0]); strtrim(in, " ."); OWN(!strcmp(in, w.s[0]), "trim", in); break;
    case 3: { size_t l = strlen(w.s[0]); str_char2hex(hex, sizeof hex, w.s[0], l); char* h = hex; bool ok = true; for (size_t k = 0; k < l; k++) { snprintf(out, sizeof out, "%02x", (unsigned char)w.s[0][k]); h = strstr(h, out); if (!h) { ok = false; break; } h += 2; } OWN(ok && strlen(hex) >= 2 * l, "hex", hex); break; }
    case 4: own_joined(&w, "\xe4\xbd\xa0", " \xc3\xa9", in, sizeof in, false); { size_t n = 1; for (int k = 0; k < w.n; k++) n += strlen(w.s[k]) + (k + 1 < w.n ? 2 : 0); OWN(strutf8len(in) == n, "utf8", "count"); } break;
    case 5: own_joined(&w, "", "\x01 &\xff", in, sizeof in, false); { size_t l = strlen(in); int e = lcu_base64_encode(out, in, l); int d = lcu_base64_decode(want, out); OWN(e > 0 && d >= (int)l && !memcmp(want, in, l), "base64", "decoded"); } break;
    default: own_joined(&w, "", "/ %&", in, sizeof in, false); lcu_url_encode(out, sizeof out, in, strlen(in)); OWN(!strchr(out, ' ') && !strchr(out, '/') && !strchr(out, '&'), "url", "encoded"); lcu_url_decode(want, sizeof want, out, strlen(out), NULL); OWN(!strcmp(want, in), "url", "decoded");
    } t->h = vp_mix(t->h, (uint64_t)w.s[0][0]); }
static void own_config(thr_t* t, int i) {
    words_t w; own_words(t, &w); char in[600], out[600], k[16];
    switch (below(4)) {
    case 0: { own_joined(&w, "", ";", in, sizeof in, true); str_params_ptr p = str_params_create_str(";", in); OWN(p, "params", "not parsed"); for (int q = 0; q < w.n; q++) { snprintf(k, sizeof k, "k%d", q); memset(out, 0, sizeof out); str_params_get_str(p, k, out, sizeof out); OWN(!strcmp(out, w.s[q]), "params", out); } str_params_add_int(p, "num", t->id * 1000 + i); int v = -1; str_params_get_int(p, "num", &v); OWN(v == t->id * 1000 + i, "params", "number"); str_params_add_double(p, "dbl", v + 0.5); double dv = 0; str_params_get_double(p, "dbl", &dv); OWN(dv == v + 0.5, "params", "double"); str_params_del(p, "dbl"); OWN(!str_params_has_key(p, "dbl"), "params", "deleted"); char* s = str_params_to_str(p); OWN(s && strstr(s, w.s[0]), "params", "printed"); lcu_free(s); str_params_destroy(p); break; }
    case 1: { own_joined(&w, "[sec]\n", "\n", in, sizeof in, true); ini_parser_handle p = ini_parser_parse_str(in); OWN(p, "ini", "not parsed"); for (int q = 0; q < w.n; q++) { snprintf(k, sizeof k, "k%d", q); memset(out, 0, sizeof out); OWN(ini_parser_get_string(p, "sec", k, out, sizeof out) == INI_PARSER_CODE_SUCCEED && !strcmp(out, w.s[q]), "ini", out); }
        own_ini_t o = { .w = &w }; ini_parser_foreach(p, own_each, &o); OWN(!o.bad && o.n, "ini", "visited"); ini_parser_put_string(p, "other", "x", w.s[0]); ini_parser_delete_by_section_key(p, "sec", "k0"); OWN(ini_parser_has_section_key(p, "sec", "k0") != INI_PARSER_CODE_SUCCEED && ini_parser_has_section(p, "other") == INI_PARSER_CODE_SUCCEED, "ini", "changed"); snprintf(in, sizeof in, "%d", t->id * 1000 + i); ini_parser_put_string(p, "num", "n", in); ini_parser_put_string(p, "num", "b", t->id & 1 ? "true" : "false"); int iv = -1; long lv = -1; double dv = -1; bool bv = !(t->id & 1); ini_parser_get_int(p, "num", "n", &iv); ini_parser_get_long(p, "num", "n", &lv); ini_parser_get_double(p, "num", "n", &dv); ini_parser_get_bool(p, "num", "b", &bv); OWN(iv == t->id * 1000 + i && lv == iv && dv == iv && bv == (t->id & 1), "ini", "numbers"); char mem[900]; size_t ml = sizeof mem; OWN(ini_parser_dump_to_mem(p, mem, &ml) == INI_PARSER_CODE_SUCCEED && strstr(mem, "other"), "ini", "dumped"); char* d = ini_parser_dump(p); OWN(d && strstr(d, "other") && strstr(d, w.s[0]), "ini", "dump"); lcu_free(d); ini_parser_destroy(&p); break; }
    case 2: { own_joined(&w, "; note\n[sec]\n", "\n", in, sizeof in, true); own_ini_t o = { .w = &w }; OWN(ini_reader_parse_string(in, own_pair, &o) == 0 && o.n == w.n && !o.bad, "reader", "pairs"); break; }
    default: { char path[300]; snprintf(path, sizeof path, "%s/own%d.ini", vp_scratch(), t->id); ini_parser_handle p = ini_parser_create(); for (int q = 0; q < w.n; q++) { snprintf(k, sizeof k, "k%d", q); ini_parser_put_string(p, "sec", k, w.s[q]); } OWN(ini_parser_save(p, path) == INI_PARSER_CODE_SUCCEED, "ini", "saved"); ini_parser_destroy(&p); p = ini_parser_parse_file(path); OWN(p, "ini", "read back"); snprintf(k, sizeof k, "k%d", w.n - 1); OWN(ini_parser_get_string(p, "sec", k, out, sizeof out) == INI_PARSER_CODE_SUCCEED && !strcmp(out, w.s[w.n - 1]), "ini", "value read back"); ini_parser_destroy(&p); unlink(path); }
    } }
static void own_data(thr_t* t, int i) {
    int v[64], n = 1 + (int)below(64), sum = 0, p[2] = { 0, 0 }; for (int k = 0; k < n; k++) sum += v[k] = t->id * 100 + k;
    switch (below(5)) {
    case 0: { list_t* l = list_new(NULL); for (int k = 0; k < n; k++) list_append(l, &v[k]); list_foreach(l, own_true, p); OWN(p[0] == n && p[1] == sum && (int)list_length(l) == n && list_back(l) == &v[n - 1], "list", "content"); OWN(list_remove(l, &v[0]) && !list_contains(l, &v[0]), "list", "removed"); list_free(l); break; }
    case 1: { hashmap_t* m = hashmap_create((int)below(20), kh, NULL, NULL, keq, NULL); int x[64]; for (int k = 0; k < n; k++) { x[k] = v[k] * 7; hashmap_put(m, &v[k], &x[k]); } hashmap_foreach(m, own_same, p); OWN(p[0] == n && !p[1] && (int)hashmap_size(m) == n && hashmap_get(m, &v[n / 2]) == &x[n / 2], "map", "content"); hashmap_remove(m, &v[0]); OWN(!hashmap_get(m, &v[0]), "map", "removed"); hashmap_free(m); break; }
    case 2: { array_t* a = array_new(sizeof(uint32_t)); for (int k = 0; k < n; k++) array_append_value(a, (uint32_t)v[k]); for (int k = 0; k < n; k++) OWN(*(uint32_t*)array_at(a, (size_t)k) == (uint32_t)v[k], "array", "element"); array_free(a); break; }
    case 3: { stringbuilder_t* s = stringbuilder_create(below(2) ? 0 : 16); char want[1200]; size_t l = 0; for (int k = 0; k < n; k++) { stringbuilder_appendf(s, "%d-%c;", v[k], 'a' + t->id); l += (size_t)snprintf(want + l, sizeof want - l, "%d-%c;", v[k], 'a' + t->id); } OWN(!strcmp(stringbuilder_to_string(s), want) && stringbuilder_len(s) == l, "builder", "text"); stringbuilder_destroy(&s); break; }
    default: { char* q[32]; int z[32]; for (int k = 0; k < 32; k++) { z[k] = 1 + (int)below(100); q[k] = below(2) ? lcu_malloc((size_t)z[k]) : lcu_calloc(1, (size_t)z[k]); memset(q[k], t->id + k, (size_t)z[k]); } for (int k = 0; k < 32; k += 2) { q[k] = lcu_realloc(q[k], (size_t)z[k] + 50); OWN(q[k][z[k] - 1] == (char)(t->id + k), "heap", "content"); } for (int k = 0; k < 32; k++) { OWN(q[k][0] == (char)(t->id + k), "heap", "content"); lcu_free(q[k]); } }
    } t->h = vp_mix(t->h, (uint64_t)sum); }
static void own_rings(thr_t* t, int i) {
    uint8_t in[64], out[64]; uint32_t n = 1 + (uint32_t)below(24); memset(in, 16 + t->id, sizeof in); memset(out, 0, sizeof out); in[0] = (uint8_t)i;
    switch (below(6)) {
    case 0: { ring_buffer_handle r = RingBuffer_create(24); for (int k = 0; k < 5; k++) { OWN(RingBuffer_write(r, in, n) == n && RingBuffer_peek(r, out, n) == n && RingBuffer_read(r, out, n) == n && !memcmp(in, out, n) && RingBuffer_is_empty(r), "RingBuffer", "bytes"); } RingBuffer_destroy(&r); break; }
    case 1: { uint8_t mem[256]; ring_handle r = below(2) ? ring_buf_create(32) : ring_buf_create_with_mem(mem, sizeof mem); OWN(r, "ring_buf", "made"); for (int k = 0; k < 5; k++) OWN(ring_buf_write(r, in, n) == n && ring_buf_read(r, out, n) == n && !memcmp(in, out, n), "ring_buf", "bytes"); ring_buf_destroy(&r); break; }
    case 2: { msg_queue q = msg_queue_create(200); for (int k = 0; k < 9; k++) { uint32_t c = sizeof out; OWN(msg_queue_push(q, in, n) == MSG_Q_CODE_SUCCESS && msg_queue_next_msg_size(q) == n && msg_queue_pop(q, out, &c) == MSG_Q_CODE_SUCCESS && c == n && !memcmp(in, out, n), "msg_queue", "message"); } msg_queue_destroy(&q); break; }
    case 3: { fixed_msg_queue q = fixed_msg_queue_create(20, 3); for (int k = 0; k < 7; k++) OWN(fixed_msg_queue_push(q, in) && fixed_msg_queue_pop(q, out) && !memcmp(in, out, 20) && fixed_msg_queue_is_empty(q), "fixed_msg_queue", "message"); fixed_msg_queue_destroy(&q); break; }
    case 4: { auto_cover_buf_handle b = auto_cover_buf_create(40, NULL); for (uint32_t k = 0; k < 6; k++) { OWN(auto_cover_buf_write(b, in, n) == (int)n && auto_cover_buf_read(b, k * n, out, n) == (int)n && !memcmp(in, out, n), "cover", "bytes"); } auto_cover_buf_destroy(&b); break; }
    default: { uint8_t* mem = malloc(8000); mplite_t h; OWN(mplite_init(&h, mem, 8000, 16, NULL) == MPLITE_OK, "pool", "made"); uint8_t* q[12]; for (int k = 0; k < 12; k++) { q[k] = mplite_malloc(&h, 20 + k * 9); OWN(q[k], "pool", "refused"); memset(q[k], t->id * 13 + k, (size_t)(20 + k * 9)); } for (int k = 0; k < 12; k++) { OWN(q[k][19 + k * 9] == (uint8_t)(t->id * 13 + k), "pool", "content"); mplite_free(&h, q[k]); } mplite_print_stats(&h, own_stats); free(mem); }
    } }
static void own_threads(thr_t* t, int i) {
    int n = 1 + (int)below(20); uint64_t got[2] = { 0, 0 }, want = 0;
    switch (below(3)) {
    case 0: { int done = 0; threadpool p = thpool_init(1 + (int)below(3)); OWN(p, "thpool", "made"); for (int k = 0; k < n; k++) thpool_add_work(p, own_job, &done); thpool_wait(p); OWN(__atomic_load_n(&done, __ATOMIC_RELAXED) == n, "thpool", "jobs done after waiting"); thpool_destroy(p); break; }
    case 1: { msg_queue_handler_init_param_t hp = { .fn_handle_msg = own_msg, .fn_on_status_changed = own_st, .user_data = got }; msg_queue_handler q = msg_queue_handler_create(8000, &hp); OWN(q, "handler", "made"); queue_msg_t m; memset(&m, 0, sizeof m); for (int k = 0; k < n; k++) { m.what = t->id * 50 + k; want += (uint64_t)m.what; OWN(msg_queue_handler_push(q, &m) == MSG_Q_CODE_SUCCESS, "handler", "pushed"); } while (msg_queue_handler_available_pop_bytes(q)) sched_yield(); msg_queue_handler_destroy(&q); OWN(got[0] == (uint64_t)n && got[1] == want, "handler", "dispatched"); break; }
    default: { fixed_msg_queue_handler_init_param_t hp = { .fn_handle_msg = own_fix, .fn_on_status_changed = own_st, .user_data = got }; fixed_msg_queue_handler q = fixed_msg_queue_handler_create(32, &hp); OWN(q, "handler", "made"); static __thread fixed_msg_t m; memset(&m, 0, sizeof m); for (int k = 0; k < n; k++) { m.what = t->id * 50 + k; want += (uint64_t)m.what; OWN(fixed_msg_queue_handler_push(q, &m) == MSG_Q_CODE_SUCCESS, "handler", "pushed"); } while (!fixed_msg_queue_handler_is_empty(q)) sched_yield(); fixed_msg_queue_handler_destroy(&q); OWN(got[0] == (uint64_t)n && got[1] == want, "handler", "dispatched"); }
    } t->c++; }
static void own_files(thr_t* t, int i) {
    char dir[300], f[340]; words_t w; own_words(t, &w); snprintf(dir, sizeof dir, "%s/o%d/a/b%d/", vp_scratch(), t->id, (int)below(3)); OWN(file_util_mkdirs(dir) == 0 && file_util_access(dir, 0) == 0, "files", "folders made");
    switch (below(4)) {
    case 0: { int n = 1 + (int)below(8); for (int k = 0; k < n; k++) { snprintf(f, sizeof f, "%s/e%d", dir, k); FILE* x = fopen(f, "w"); for (int b = 0; b < k * 10 + t->id; b++) fputc('x', x); fclose(x); } own_ini_t o = { .w = &w, .id = t->id }; OWN(file_iterator_foreach(dir, own_entry, &o) == 0 && o.n == n && !o.bad, "files", "entries"); for (int k = 0; k < n; k++) { snprintf(f, sizeof f, "%s/e%d", dir, k); unlink(f); } break; }
    case 1: { snprintf(f, sizeof f, "%s/t", dir); char in[400]; own_joined(&w, "", "\n", in, sizeof in, false); int fd = open(f, O_CREAT | O_TRUNC | O_RDWR, 0600); OWN(file_util_write(fd, in, strlen(in)) == (int)strlen(in), "files", "written"); close(fd); own_ini_t o = { .w = &w }; file_util_read_txt(f, own_line, &o); OWN(o.n == w.n && !o.bad, "files", "lines"); char* all = NULL; int al = 0; OWN(file_util_read_all(f, &all, &al) == 0 && al == (int)strlen(in) && !memcmp(all, in, strlen(in)) && file_util_get_size_by_path(f) == (long)strlen(in), "files", "content"); lcu_free(all); unlink(f); break; }
    case 2: { char p[64]; snprintf(p, sizeof p, "/x/y%d", t->id); file_util_append_slash_on_path_if_needed(p, sizeof p); OWN(p[strlen(p) - 1] == '/', "files", "path"); break; }
    default: { file_logger_cfg c; memset(&c, 0, sizeof c); snprintf(c.log_folder_path, sizeof c.log_folder_path, "%s", dir); snprintf(c.log_file_name_prefix, sizeof c.log_file_name_prefix, "l%d", t->id); bool tiny = below(4) == 0; c.one_piece_file_max_len = below(2) ? 0 : 64 + below(40); c.log_queue_size = tiny ? 2 : 64; c.is_try_my_best_to_keep_log = true; file_logger_handle l = file_logger_init(&c); OWN(l, "flog", "made"); size_t want = 0, is = 0; static __thread char big[3000]; if (tiny) { memset(big, 0x41 + t->id, sizeof big); OWN(file_logger_log(l, big, sizeof big) != 0, "flog", "a message larger than the queue"); want += sizeof big; } for (int k = 0; k < 10; k++) { file_logger_log(l, w.s[0], strlen(w.s[0])); want += strlen(w.s[0]); } file_logger_deinit(&l);
        DIR* d = opendir(dir); struct dirent* e; while ((e = readdir(d))) if (e->d_name[0] == 'l') { OWN(e->d_name[1] == '0' + t->id, "flog", "a file of another logger"); snprintf(f, sizeof f, "%.280s/%.50s", dir, e->d_name); struct stat st; stat(f, &st); is += (size_t)st.st_size; unlink(f); } closedir(d); OWN(is >= want, "flog", "bytes in its files"); }
    } t->b++; }
static void own_body(thr_t* t) { for (int i = 0; i < t->ops; i++) { int k = (int)below(40); if (k < 14) own_texts(t, i); else if (k < 22) own_config(t, i); else if (k < 29) own_data(t, i); else if (k < 36) own_rings(t, i); else if (k < 38) own_threads(t, i); else own_files(t, i); t->a++; nap(t, 60); } }
static void m_own(void) { vp_scratch(); VP_CHECK(lcu_global_init() == 0, "own.init", "init"); int n = (int)vp_between(2, 6); start(n, own_body, (int)vp_between(50, 400)); finish(n, "own", "rounds", "files", "threads"); lcu_global_cleanup(); }
