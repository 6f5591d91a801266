/* C17: file helpers and directory iteration against the file system itself. */
#include "vp.h"
#include "wrap_io.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include <ctype.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#undef fclose
static void at(char* o, const char* name) { snprintf(o, 400, "%s/%s", vp_scratch(), name); }
static void save(const char* path, const void* p, size_t n) { FILE* f = fopen(path, "wb"); if (!f) vp_error("cannot write %s", path); if (n) fwrite(p, 1, n, f); fclose(f); }
static char* load(const char* path, size_t* n) { FILE* f = fopen(path, "rb"); if (!f) { *n = 0; return NULL; } fseek(f, 0, SEEK_END); *n = (size_t)ftell(f); rewind(f); char* b = malloc(*n + 1); if (fread(b, 1, *n, f) != *n) vp_error("load"); fclose(f); return b; }
static size_t size_(void) { return vp_chance(1, 8) ? vp_below(4) : vp_chance(1, 6) ? vp_between(4090, 4100) : vp_chance(1, 12) ? vp_between(60000, 200000) : vp_below(3000); }
/* ---- whole contents in and out ---- */
typedef struct { int fd; const char* p; size_t n; vp_rng_t r; bool write; } peer_t;
static void* peer(void* a) { peer_t* q = a; size_t k = 0; while (k < q->n) { size_t c = 1 + vp_rng_below(&q->r, 5000); if (c > q->n - k) c = q->n - k; ssize_t w = q->write ? write(q->fd, q->p + k, c) : read(q->fd, (char*)q->p + k, c); if (w <= 0) break; k += (size_t)w; if (vp_rng_below(&q->r, 4) == 0) sched_yield(); } if (q->write) close(q->fd); return (void*)k; }
static void m_transfer(void) {
    char path[400]; at(path, "f"); size_t n = size_(); char* b = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) b[i] = (char)vp_rand(); int fds = vp_count_fds(); int kind = (int)vp_below(4); uint64_t h = vp_mix(n, (uint64_t)kind);
    if (kind <= 1) { /* file, possibly in two parts, possibly with partial transfers or one failure */
        unlink(path); int fd = open(path, O_RDWR | O_CREAT | (vp_chance(1, 3) ? O_APPEND : 0), 0600); size_t k = n ? vp_below(n + 1) : 0; bool f = kind == 1 && vp_chance(1, 2); long nth = f ? (long)vp_between(1, 6) : 0;
        if (kind == 1) vio_arm(vp_chance(3, 4) ? 60 : 0, nth, vp_chance(1, 2) ? ENOSPC : EIO);
        int a = file_util_write(fd, b, k), c = a == (int)k ? file_util_write(fd, b + k, n - k) : 0; long failed = vio_failed; vio_off(); size_t done = (size_t)(a + c), sz; char* got = load(path, &sz);
        VP_CHECK(a >= 0 && c >= 0 && done == sz, "file.write_count", "wrote %d and %d of %zu+%zu, the file holds %zu", a, c, k, n - k, sz); VP_CHECK(!memcmp(got, b, sz), "file.write_bytes", "written bytes differ");
        if (kind == 0 || !failed) VP_CHECK(done == n, "file.write_short", "%zu of %zu bytes written though nothing failed", done, n); else if (a + c < (int)n) vp_count("failures_reported", 1);
        free(got); vp_nontrivial(); h = vp_mix(h, (uint64_t)(done * 31 + k));
        size_t off = sz ? vp_below(sz + 1) : 0, want = vp_chance(1, 3) ? sz - off : vp_below(sz + 20), give = want < sz - off ? want : sz - off; char* r = malloc(want ? want : 1); memset(r, 0x5a, want); lseek(fd, (off_t)off, SEEK_SET);
        if (kind == 1) vio_arm(60, f ? (long)vp_between(1, 4) : 0, EIO); int got_n = file_util_read(fd, r, want); failed = vio_failed; vio_off();
        if (!failed) VP_CHECK(got_n == (int)give, "file.read_short", "read %d of %zu wanted, %zu there", got_n, want, give); VP_CHECK(got_n >= 0 && (size_t)got_n <= give && !memcmp(r, b + off, (size_t)got_n), "file.read_bytes", "read %d: bytes differ", got_n);
        for (size_t i = (size_t)got_n; i < want; i++) VP_CHECK(r[i] == 0x5a, "file.read_beyond", "bytes beyond the returned count were written"); VP_CHECK(lseek(fd, 0, SEEK_CUR) == (off_t)(off + (size_t)got_n), "file.read_position", "count and position differ");
        free(r); close(fd); VP_CHECK(file_util_write(-1, b, n) == 0 && file_util_read(-1, b, n) == 0, "file.badfd", "transfer on no file"); if (kind == 1) vp_count("partial_transfers", 1);
    } else { /* a slow peer on a pipe or socket: partial transfers by the system itself */
        int p[2]; if (kind == 2 ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) vp_error("pipe"); bool wr = vp_chance(1, 2); char* o = calloc(1, n + 1); peer_t q = { wr ? p[0] : p[1], wr ? o : b, n, {0}, !wr }; vp_rng_init(&q.r, vp_rand(), 1); pthread_t t; pthread_create(&t, 0, peer, &q);
        if (wr) { int a = file_util_write(p[1], b, n); VP_CHECK(a == (int)n, "stream.write", "wrote %d of %zu", a, n); close(p[1]); pthread_join(t, 0); close(p[0]); }
        else { size_t want = vp_chance(1, 2) ? n : n + vp_below(100); char* r = malloc(want ? want : 1); int a = file_util_read(p[0], r, want); VP_CHECK(a == (int)n, "stream.read", "read %d of %zu", a, n); memcpy(o, r, n); free(r); pthread_join(t, 0); close(p[0]); }
        VP_CHECK(!memcmp(o, b, n), "stream.bytes", "bytes differ"); free(o); vp_count("streams", 1); if (n > 65536) { vp_count("larger_than_the_pipe", 1); vp_nontrivial(); }
    }
    /* the same bytes through the file */
    save(path, b, n); char* all = (char*)1; int len = 77; bool fail = vp_chance(1, 6); if (fail) vio_arm(0, 1, EIO); int r = file_util_read_all(path, &all, &len); vio_off();
    if (fail && n) { VP_CHECK(r != 0 && !all, "readall.error", "a failed read gave %d and %p (%ld calls, %ld failed, %zu bytes)", r, (void*)all, vio_calls, vio_failed, n); vp_count("read_failures", 1); }
    else if (n) { VP_CHECK(r == 0 && all && len == (int)n && !memcmp(all, b, n) && all[n] == 0, "readall.bytes", "read_all of %zu bytes gave %d, length %d", n, r, len); free(all); vp_count("read_all", 1); }
    else { VP_CHECK(r != 0 && !all && len <= 0, "readall.empty", "empty file gave %d, length %d", r, len); }
    struct stat st; stat(path, &st); VP_CHECK(file_util_get_size_by_path(path) == (long)n && (size_t)st.st_size == n, "size.path", "size %ld, expected %zu", file_util_get_size_by_path(path), n);
    FILE* fs = fopen(path, vp_chance(1, 2) ? "rb" : "r+b"); fseek(fs, (long)vp_below(n + 1), SEEK_SET); long s = file_util_get_size_by_fs(fs), pos = ftell(fs); VP_CHECK(s == (long)n && pos == 0, "size.stream", "size %ld position %ld, expected %zu and 0", s, pos, n); fclose(fs);
    if (n) { fs = fopen(path, "w+b"); size_t half = vp_below(n + 1); fwrite(b, 1, half, fs); s = file_util_get_size_by_fs(fs); VP_CHECK(s == (long)half, "size.unflushed", "size %ld, %zu written", s, half); fclose(fs); }
    int m = (int)vp_below(8); VP_CHECK((file_util_access(path, m) == 0) == (access(path, m) == 0), "access", "mode %d differs", m); unlink(path); VP_CHECK(file_util_access(path, 0) != 0 && file_util_get_size_by_path(path) < 0 && file_util_read_all(path, &all, &len) != 0 && !all, "missing", "a missing file seems to exist");
    VP_CHECK(vp_count_fds() == fds, "files.fd", "file handles left behind"); vp_count("transfers", 1); vp_case_mix(vp_mix(h, vp_hash(b, n < 64 ? n : 64, 1))); vp_seen(vp_mix((uint64_t)kind, n / 512)); if (vp_want_sample()) vp_sample("%zu bytes, kind %d", n, kind); free(b);
}
/* ---- lines ---- */
typedef struct { char* b; size_t n, cap; int calls, stop, ret; } log_t;
static void line_log(log_t* l, int num, const char* t) { size_t k = strlen(t) + 24; if (l->n + k > l->cap) l->b = realloc(l->b, l->cap = (l->n + k) * 2); l->n += (size_t)sprintf(l->b + l->n, "%d:%s\n", num, t); l->calls++; }
static int on_line(int num, char* t, void* u) { log_t* l = u; line_log(l, num, t); if (vp_chance(1, 2)) memset(t, 'z', strlen(t)); return l->calls == l->stop ? l->ret : 0; }
static void m_lines(void) {
    static char t[300000]; size_t n = 0; int lines = (int)vp_below(vp_chance(1, 10) ? 200 : 12); static const size_t edges[] = { 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049, 4095, 4096, 8190, 20000 };
    for (int i = 0; i < lines; i++) { size_t len = vp_chance(1, 40) ? vp_between(32000, 140000) : vp_chance(1, 4) ? edges[vp_below(14)] : vp_chance(1, 6) ? vp_between(900, 3000) : vp_below(60); if (n + len + 10 > sizeof t) break; int ws = (int)vp_below(5); for (size_t k = 0; k < len; k++) t[n++] = ws == 0 ? " \t\v\f\r"[vp_below(5)] : ws == 1 && k < len / 2 ? ' ' : vp_chance(1, 40) ? (char)(128 + vp_below(128)) : (char)(32 + vp_below(95));
        if (i + 1 < lines || vp_chance(1, 2)) { const char* nl = vp_chance(1, 2) ? "\n" : vp_chance(1, 2) ? "\r\n" : vp_chance(1, 4) ? "\r\r\n" : "\n\n"; n += (size_t)sprintf(t + n, "%s", nl); } }
    char path[400]; at(path, "l"); save(path, t, n); log_t want = { .stop = vp_chance(1, 3) ? (int)vp_between(1, 12) : 0, .ret = vp_nonzero(vp_below(10)) }, got = want; int wr = 0, longs = 0;
    int num = 0; for (size_t i = 0; i < n && !wr; num++) { size_t b = i; while (i < n && t[i] != '\n') i++; size_t e = i++; if (e - b > 1023) longs++; if (e > b && t[e - 1] == '\r') e--; while (b < e && isspace((unsigned char)t[b])) b++; if (b == e) continue; char* s = strndup(t + b, e - b); line_log(&want, num, s); free(s); if (want.calls == want.stop) wr = want.ret; }
    int fds = vp_count_fds(); vp_trace("%zu bytes, %d lines, stop %d", n, num, want.stop); int r = file_util_read_txt(path, on_line, &got);
    size_t d = 0; while (d < got.n && d < want.n && got.b[d] == want.b[d]) d++; size_t s = d > 40 ? d - 40 : 0;
    VP_CHECK(got.n == want.n && d == got.n, "lines.text", "%d lines handed out, expected %d; near <<%.80s>> expected <<%.80s>>", got.calls, want.calls, got.n > s ? got.b + s : "", want.n > s ? want.b + s : "");
    VP_CHECK(r == wr, "lines.result", "result %d, expected %d", r, wr); VP_CHECK(vp_count_fds() == fds, "lines.fd", "a file handle was left behind");
    vp_count("lines", (uint64_t)want.calls); vp_count("long_lines", (uint64_t)longs); if (wr) vp_count("stopped", 1); if (want.calls > 2) vp_nontrivial(); vp_case_mix(vp_hash(t, n, 5)); vp_seen(vp_mix((uint64_t)want.calls, (uint64_t)longs)); if (vp_want_sample()) vp_sample("%zu bytes, %d lines, %d over 1023", n, want.calls, longs); free(want.b); free(got.b);
    /* the medium fails after some bytes: what was read before is handed out, and the failure is told */
    if (vp_chance(1, 2)) { log_t bad = {0}; vio_bad_at = (long)vp_below(n + 1); vio_bad_hits = 0; int br = file_util_read_txt(path, on_line, &bad); long ba = vio_bad_at; vio_bad_at = -1; VP_CHECK(vio_bad_hits > 0 && br != 0, "lines.read_error", "reading failed after %ld of %zu bytes, the result is %d", ba, n, br); if (ba > 4096) vp_count("late_read_errors", 1); vp_count("read_errors", 1); free(bad.b); VP_CHECK(vp_count_fds() == fds, "lines.fd", "a file handle was left behind after a failure"); }
    log_t none = {0}; VP_CHECK(file_util_read_txt("/nonexistent/x", on_line, &none) != 0 && !none.calls, "lines.missing", "a missing file"); VP_CHECK(file_util_read_txt(vp_scratch(), on_line, &none) != 0 && !none.calls, "lines.read_error", "lines of something that cannot be read were reported as read"); vp_count("read_errors", 1); VP_CHECK(vp_count_fds() == fds, "lines.fd", "a file handle was left behind after a failure");
}
/* ---- folders ---- */
static bool is_dir(const char* p) { struct stat s; return !stat(p, &s) && S_ISDIR(s.st_mode); }
static void rm_tree(const char* p) { char c[500]; if (strncmp(p, vp_scratch(), strlen(vp_scratch()))) vp_error("refusing"); snprintf(c, sizeof c, "/bin/rm -rf '%s'", p); if (system(c)) vp_error("rm"); }
static size_t make_path(char* o, size_t cap, const char* root, bool slash) { size_t n = (size_t)sprintf(o, "%s/", root); int depth = (int)vp_between(1, 9); size_t aim = vp_chance(1, 3) ? vp_between(240, 262) : 0;
    for (int i = 0; i < depth || n < aim; i++) { if (n + 20 > cap) break; const char* s = vp_chance(1, 6) ? "." : ""; if (*s) n += (size_t)sprintf(o + n, "./"); for (size_t k = aim && i >= depth ? (aim - n > 18 ? 17 : aim - n > 1 ? aim - n - 1 : 1) : vp_between(1, 6); k; k--) o[n++] = "abcXYZ09_ -+.~é"[vp_below(12)]; if (o[n - 1] == '.' || o[n - 1] == ' ') o[n - 1] = 'q'; o[n++] = '/'; if (vp_chance(1, 6)) o[n++] = '/'; if (vp_chance(1, 12)) { n += (size_t)sprintf(o + n, "../"); } }
    while (!slash && n && o[n - 1] == '/') n--; o[n] = 0; return n; }
static bool prefixes_ok(const char* p) { char b[600]; size_t k = 0; for (size_t i = 0; p[i]; i++) { b[k++] = p[i]; if (p[i] == '/') { b[k] = 0; if (!is_dir(b)) return false; } } return true; }
static void m_folders(void) {
    char root[400], p[700]; bool rel = vp_chance(1, 3); if (rel) { if (chdir(vp_scratch())) vp_error("cd"); snprintf(root, sizeof root, "%s", vp_chance(1, 2) ? "r" : "./r"); } else at(root, "r"); char abs_[400]; at(abs_, "r"); mkdir(abs_, 0755); int fds = vp_count_fds(); uint64_t h = 9;
    for (int round = 0; round < 5; round++) {
        bool slash = vp_chance(4, 5); size_t n = make_path(p, 500, root, slash); char* ex = malloc(n + 1); memcpy(ex, p, n + 1); vp_trace("mkdirs %zu %s", n, p); h = vp_hash(p, n, h);
        char dirpart[700]; strcpy(dirpart, p); char* last = strrchr(dirpart, '/'); last[1] = 0; bool had_last = !slash && access(p, 0) == 0;
        bool inject = vp_chance(1, 6); if (inject) vio_arm(0, (long)vp_between(1, 4), vp_chance(1, 2) ? ENOSPC : EACCES); int r = file_util_mkdirs(ex); bool failed = vio_failed > 0 && inject; vio_off(); free(ex);
        if (n >= 256) { VP_CHECK(r != 0 || prefixes_ok(p), "mkdirs.long", "%zu characters: reported success without the folders", n); vp_count("paths_too_long", 1); }
        else if (failed) { VP_CHECK(r != 0, "mkdirs.failure", "a failure of the file system was reported as success"); vp_count("mkdir_failures", 1); }
        else { VP_CHECK(r == 0 && is_dir(dirpart) && prefixes_ok(p), "mkdirs.create", "%s (%zu): result %d, folder %s", p, n, r, is_dir(dirpart) ? "there" : "missing"); if (!slash && !had_last && p[n - 1] != '.' && !strstr(p, "/..")) /* '..' may lead back to a part made on the way */ VP_CHECK(!is_dir(p), "mkdirs.last", "the last part without a slash became a folder: %s", p); vp_count("folders_made", 1); VP_CHECK(file_util_mkdirs(p) == 0, "mkdirs.again", "not repeatable"); if (n > 250) vp_count("paths_at_the_limit", 1);
            if (slash && n < 230 && vp_chance(1, 3)) { char f[800]; snprintf(f, sizeof f, "%sfile", p); save(f, "x", 1); char g[900]; snprintf(g, sizeof g, "%s/sub/", f); if (strlen(g) < 256) { VP_CHECK(file_util_mkdirs(g) != 0, "mkdirs.file", "a file in the way was reported as success"); vp_count("file_in_the_way", 1); } } }
    }
    VP_CHECK(file_util_mkdirs(NULL) != 0, "mkdirs.null", "NULL");
    /* slash */
    for (int k = 0; k < 20; k++) { size_t cap = vp_between(1, 40), len = vp_below(cap); char* b = malloc(cap); for (size_t i = 0; i < len; i++) b[i] = "ab/ .x"[vp_below(6)]; b[len] = 0; if (vp_chance(1, 4)) for (size_t i = len; i && vp_chance(2, 3); i--) b[i - 1] = ' '; bool bs = len && vp_chance(1, 5); if (bs) b[vp_below(len)] = '\\'; char o[64]; strcpy(o, b); bs = strchr(o, '\\') != NULL; size_t t = len; while (t && o[t - 1] == ' ') t--;
        int r = file_util_append_slash_on_path_if_needed(b, cap); char sl = bs ? '\\' : '/'; char w[64];
        if (!len || cap < 3 || !t) { VP_CHECK(r != 0 && !strcmp(b, o), "slash.refuse", "\"%s\" capacity %zu: %d \"%s\"", o, cap, r, b); }
        else if (o[t - 1] == sl) VP_CHECK(r == 0 && !strncmp(b, o, t) && strlen(b) >= t, "slash.there", "\"%s\": %d \"%s\"", o, r, b);
        else if (t + 1 < cap) { memcpy(w, o, t); w[t] = sl; w[t + 1] = 0; VP_CHECK(r == 0 && !strcmp(b, w), "slash.append", "\"%s\" capacity %zu: %d \"%s\"", o, cap, r, b); vp_count("slashes_appended", 1); }
        else { VP_CHECK(r != 0 && !strcmp(b, o), "slash.full", "\"%s\" fills its %zu bytes: %d \"%s\"", o, cap, r, b); vp_count("slashes_without_room", 1); } free(b); }
    VP_CHECK(vp_count_fds() == fds, "folders.fd", "file handles left behind"); vp_case_mix(h); vp_nontrivial(); vp_seen(h); if (vp_want_sample()) vp_sample("%s", p); rm_tree(abs_);
}
static pthread_barrier_t bar; typedef struct { char p[400]; int r; } mk_t;
static void* maker(void* a) { mk_t* m = a; pthread_barrier_wait(&bar); m->r = file_util_mkdirs(m->p); return NULL; }
static void m_together(void) { /* several callers create the same folders at once */
    char root[400]; at(root, "t"); mkdir(root, 0755); int nt = (int)vp_between(2, 8); vio_noise = true; long c0 = vio_collisions; uint64_t h = (uint64_t)nt;
    for (int round = 0; round < 12; round++) { mk_t m[8]; pthread_t t[8]; pthread_barrier_init(&bar, 0, (unsigned)nt); int depth = (int)vp_between(1, 12), fork_at = (int)vp_between(1, 14);
        for (int i = 0; i < nt; i++) { size_t n = (size_t)sprintf(m[i].p, "%s/%d/", root, round); for (int d = 0; d < depth; d++) n += (size_t)sprintf(m[i].p + n, "%c%d/", d >= fork_at ? 'a' + i % 2 : 'x', d); }
        for (int i = 0; i < nt; i++) pthread_create(&t[i], 0, maker, &m[i]); for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
        for (int i = 0; i < nt; i++) { VP_CHECK(m[i].r == 0, "mkdirs.together", "caller %d of %d failed with %d for %s", i, nt, m[i].r, m[i].p); VP_CHECK(is_dir(m[i].p), "mkdirs.together", "missing %s", m[i].p); } pthread_barrier_destroy(&bar); vp_count("created_together", 1); }
    long c = vio_collisions - c0; vp_count("collisions", (uint64_t)c); vio_noise = false; if (c) vp_nontrivial(); vp_seen(vp_mix(h, (uint64_t)c)); vp_case_mix(vp_mix(h, (uint64_t)vp_rand())); if (vp_want_sample()) vp_sample("%d callers, %ld collisions", nt, c); rm_tree(root);
}
/* ---- iteration ---- */
typedef struct { char name[260]; int kind; size_t size; int seen; } ent_t;
typedef struct { ent_t* e; int n, calls, stop; const char* dir; bool remove, nest; int sub; } it_t;
static int on_sub(file_info_t* i, void* u) { (void)i; ++*(int*)u; return 0; }
static int on_entry(file_info_t* i, void* u) { it_t* s = u; s->calls++; int k; for (k = 0; k < s->n; k++) if (!strcmp(s->e[k].name, i->name)) break;
    VP_CHECK(k < s->n && s->e[k].kind != 3, "iterate.stranger", "\"%s\" handed out", i->name); ent_t* e = &s->e[k]; VP_CHECK(!e->seen++, "iterate.twice", "\"%s\" handed out twice", i->name); VP_CHECK(!strcmp(i->dir, s->dir), "iterate.dir", "folder %s", i->dir);
    bool d = e->kind == 1 || e->kind == 4; VP_CHECK(i->type == (d ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE), "iterate.type", "\"%s\" has type %d", i->name, i->type); VP_CHECK(i->p_stat && S_ISDIR(i->p_stat->st_mode) == d && (e->kind != 0 || i->p_stat->st_size == (off_t)e->size), "iterate.stat", "status of \"%s\" is another's", i->name);
    if (s->nest && e->kind == 1) { char p[700]; snprintf(p, sizeof p, "%s/%s", s->dir, i->name); int c = 0; VP_CHECK(file_iterator_foreach(p, on_sub, &c) == 0 && c == (int)e->size, "iterate.nested", "%d entries in a sub-folder of %zu", c, e->size); s->sub++; }
    if (s->remove && (e->kind == 0 || e->kind == 2)) { char p[700]; snprintf(p, sizeof p, "%s/%s", s->dir, i->name); unlink(p); }
    return s->calls == s->stop ? vp_nonzero((uint64_t)s->calls) : 0; }
static void m_iterate(void) {
    char dir[400]; at(dir, "d"); mkdir(dir, 0755); int n = (int)vp_below(vp_chance(1, 8) ? 300 : 20); ent_t* e = calloc((size_t)n + 1, sizeof *e); int visible = 0, dangling = 0; uint64_t h = (uint64_t)n; bool cwd = vp_chance(1, 8);
    for (int i = 0; i < n; i++) { size_t l = vp_chance(1, 30) ? 255 : vp_chance(1, 4) ? vp_between(1, 3) : vp_between(1, 20); char p[700]; again: for (size_t k = 0; k < l; k++) e[i].name[k] = vp_chance(1, 5) ? '.' : "ab1 _%sn"[vp_below(8)]; e[i].name[l] = 0; if (!strcmp(e[i].name, ".") || !strcmp(e[i].name, "..")) goto again; for (int k = 0; k < i; k++) if (!strcmp(e[k].name, e[i].name)) { l = l < 200 ? l + 1 : l - 1; goto again; }
        snprintf(p, sizeof p, "%s/%s", dir, e[i].name); e[i].kind = (int)vp_below(vp_chance(1, 2) ? 2 : 6); h = vp_hash(e[i].name, l, h + (uint64_t)e[i].kind);
        switch (e[i].kind) { case 0: e[i].size = vp_below(300); save(p, dir, e[i].size > 100 ? 100 : e[i].size); if (e[i].size > 100) { if (truncate(p, (off_t)e[i].size)) vp_error("truncate"); } break;
            case 1: mkdir(p, 0755); e[i].size = vp_below(4); for (size_t k = 0; k < e[i].size; k++) { char q[720]; snprintf(q, sizeof q, "%s/%zu", p, k); save(q, "", 0); } break;
            case 2: if (symlink("/dev/null", p)) vp_error("link"); break; case 3: if (symlink(vp_chance(1, 2) ? "/nonexistent/target" : e[i].name, p)) vp_error("link"); dangling++; break; case 4: if (symlink("/proc", p)) vp_error("link"); break; case 5: mkfifo(p, 0600); break; }
        if (e[i].kind != 3) visible++; }
    if (cwd && chdir(dir)) vp_error("cd"); char* arg = strdup(cwd ? "." : dir); it_t s = { e, n, 0, 0, arg, vp_chance(1, 4), vp_chance(1, 2), 0 }; if (visible && vp_chance(1, 3)) s.stop = 1 + (int)vp_below((uint64_t)visible); int fds = vp_count_fds();
    vp_trace("%d entries, %d dangling, stop %d", n, dangling, s.stop); int r = file_iterator_foreach(arg, on_entry, &s);
    VP_CHECK(r == 0, "iterate.result", "result %d", r); VP_CHECK(s.calls == (s.stop ? s.stop : visible), "iterate.complete", "%d of %d entries handed out (%d dangling links beside them, stop after %d)", s.calls, visible, dangling, s.stop); VP_CHECK(vp_count_fds() == fds, "iterate.fd", "file handles left behind");
    free(arg); vp_count("entries", (uint64_t)s.calls); if (s.stop) vp_count("iterations_stopped", 1); if (dangling) vp_count("dangling_links", 1); vp_count("subfolders", (uint64_t)s.sub); if (n > 2) vp_nontrivial(); vp_case_mix(h); vp_seen(vp_mix((uint64_t)visible, (uint64_t)dangling)); if (vp_want_sample()) vp_sample("%d entries, %d visible, stop %d", n, visible, s.stop);
    if (chdir(vp_scratch())) vp_error("cd"); it_t z = { e, n, 0, 0, dir, 0, 0, 0 }; char f[400]; at(f, "plain"); save(f, "", 0); VP_CHECK(file_iterator_foreach(f, on_entry, &z) != 0 && !z.calls, "iterate.file", "iterating a file"); unlink(f); rm_tree(dir); VP_CHECK(file_iterator_foreach(dir, on_entry, &z) != 0 && !z.calls, "iterate.missing", "iterating nothing"); VP_CHECK(vp_count_fds() == fds, "iterate.fd", "file handles left behind by a failure"); free(e);
}
/* paths at the longest one the system takes: entries beyond it cannot be looked at, and must not be given another's status */
static int on_edge(file_info_t* i, void* u) { it_t* s = u; s->calls++; int k; for (k = 0; k < s->n; k++) if (!strcmp(s->e[k].name, i->name)) break;
    VP_CHECK(k < s->n, "iterate.stranger", "an unknown name handed out"); ent_t* e = &s->e[k]; VP_CHECK(!e->seen++, "iterate.twice", "\"%s\" handed out twice", i->name); bool d = e->kind == 1;
    VP_CHECK(i->type == (d ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE) && S_ISDIR(i->p_stat->st_mode) == d && (d || i->p_stat->st_size == (off_t)e->size), "iterate.stat", "in a folder of %zu characters, \"%s\" (%s, %zu bytes) has type %d and %ld bytes: another's", strlen(s->dir), i->name, d ? "folder" : "file", e->size, i->type, (long)i->p_stat->st_size); return 0; }
static void m_edge(void) {
    char root[400]; at(root, "deep"); mkdir(root, 0755); char* path = malloc(5000); size_t l = (size_t)sprintf(path, "%s", root), aim = 4095 - vp_between(2, 40); int fd = open(root, O_RDONLY | O_DIRECTORY);
    while (l < aim) { size_t c = aim - l - 1; if (aim - l == 0) break; if (c > 200) c = c - 200 < 2 ? 100 : 200; if (!c) break; char name[256]; memset(name, 'p', c); name[c] = 0; if (mkdirat(fd, name, 0755)) vp_error("mkdirat"); int f2 = openat(fd, name, O_RDONLY | O_DIRECTORY); if (f2 < 0) vp_error("openat"); close(fd); fd = f2; path[l++] = '/'; memcpy(path + l, name, c + 1); l += c; }
    ent_t e[40]; memset(e, 0, sizeof e); int n = 0, reach = 0; size_t room = 4095 - l - 1; /* longest reachable name */
    for (size_t k = 1; k <= 60 && n < 30; k++) if (k + 3 > room && k <= room + 12) { memset(e[n].name, 'q', k); e[n].kind = (int)vp_below(3) == 1; e[n].size = vp_below(400); if (e[n].kind) { if (mkdirat(fd, e[n].name, 0755)) vp_error("mkdirat"); } else { int f = openat(fd, e[n].name, O_CREAT | O_WRONLY, 0600); if (f < 0 || ftruncate(f, (off_t)e[n].size)) vp_error("create"); close(f); } if (k <= room) reach++; n++; }
    int fds = vp_count_fds(); it_t s = { e, n, 0, 0, path, 0, 0, 0 }; vp_trace("folder of %zu characters, %d entries, %d reachable", l, n, reach); int r = file_iterator_foreach(path, on_edge, &s); VP_CHECK(r == 0 && vp_count_fds() == fds, "iterate.result", "result %d for a folder of %zu characters", r, l);
    for (int k = 0; k < n; k++) VP_CHECK(e[k].seen || strlen(e[k].name) > room, "iterate.complete", "\"%s\" missing", e[k].name); if (n > reach) { vp_count("unreachable_entries", (uint64_t)(n - reach)); vp_nontrivial(); }
    for (int k = 0; k < n; k++) unlinkat(fd, e[k].name, e[k].kind ? AT_REMOVEDIR : 0); close(fd); free(path); rm_tree(root); vp_case_mix(aim); vp_case_mix((uint64_t)n);
}
static void m_huge(void) { /* sizes the length cannot express are refused, never given as negative or wrapped */
    char p[400]; at(p, "huge"); static const long sz[] = { (1l << 31), (1l << 31) + 5, (1l << 32) + 3 }; for (int i = 0; i < 3; i++) { int fd = open(p, O_CREAT | O_RDWR, 0600); if (ftruncate(fd, sz[i])) vp_error("truncate"); close(fd); VP_CHECK(file_util_get_size_by_path(p) == sz[i], "size.huge", "size of %ld", sz[i]); char* d = NULL; int len = 5; int r = file_util_read_all(p, &d, &len); VP_CHECK(r != 0 && !d, "readall.huge", "%ld bytes: result %d length %d", sz[i], r, len); free(d); vp_count("huge", 1); unlink(p); }
    char* d = (char*)1; int len; VP_CHECK(file_util_read_all(NULL, &d, &len) != 0 && !d && file_util_read_all("", &d, &len) != 0 && file_util_read_all("x", NULL, &len) != 0 && file_util_read_all("x", &d, NULL) != 0, "readall.args", "invalid arguments accepted"); VP_CHECK(file_util_get_size_by_fs(NULL) < 0, "size.null", "NULL"); d = NULL; VP_CHECK(file_util_read_all(vp_scratch(), &d, &len) != 0 && !d, "readall.dir", "a folder read as a file"); vp_case_mix(1); vp_nontrivial();
}
/* more than 2^16 lines, folders of thousands of entries, contents of tens of megabytes through partial transfers */
typedef struct { int n, last; } sl_t; static int sc_line(int num, char* x, void* u) { sl_t* s = u; VP_CHECK(num > s->last && num <= s->last + 2, "lines.number", "line %d handed out after %d", num, s->last); s->last = num; s->n++; char e[40]; snprintf(e, sizeof e, "line %d", num + 1); VP_CHECK(!strcmp(e, x), "lines.text", "line %d is '%.60s'", num, x); if (!(s->n & 0xfff)) vp_beat(); return 0; }
typedef struct { uint8_t* seen; int n, cnt; } se_t; static int sc_entry(file_info_t* i, void* u) { se_t* s = u; int k = -1; sscanf(i->name, "entry%d", &k); VP_CHECK(k >= 0 && k < s->n && !s->seen[k], "iterate.twice", "\"%s\" handed out again or unknown", i->name); s->seen[k] = 1; s->cnt++; if (!(s->cnt & 0xff)) vp_beat(); return 0; }
static void m_scale(void) {
    char p[500], q[600]; int fds = vp_count_fds(); at(p, "big"); int lines = (int)vp_between(66000, 120000); FILE* f = fopen(p, "wb"); if (!f) vp_error("open"); for (int i = 1; i <= lines; i++) { if (i % 3) fprintf(f, "line %d\n", i); else fputs("\n", f); } fclose(f); sl_t s = { 0, -1 }; vp_beat();
    VP_CHECK(file_util_read_txt(p, sc_line, &s) == 0 && s.n == lines - lines / 3, "lines.count", "%d of %d lines handed out", s.n, lines - lines / 3); unlink(p); vp_count("lines", (uint64_t)lines); vp_beat();
    size_t n = vp_between(9000000, 40000000); char* b = malloc(n); for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = (i + 1) * 0x9E3779B97F4A7C15ull; memcpy(b + i, &v, 8); } int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); vio_arm(vp_chance(1, 2) ? 60 : 0, 0, 0); int w = file_util_write(fd, b, n); vp_beat(); lseek(fd, 0, SEEK_SET); char* r = malloc(n); int g = file_util_read(fd, r, n); vio_off(); VP_CHECK(w == (int)n && g == (int)n && !memcmp(b, r, n), "file.read_bytes", "%d written, %d read of %zu", w, g, n); close(fd); vp_beat();
    char* all = NULL; int len = 0; VP_CHECK(file_util_read_all(p, &all, &len) == 0 && len == (int)n && !memcmp(all, b, n), "readall.bytes", "%d of %zu", len, n); free(all); free(b); free(r); unlink(p); vp_beat();
    at(p, "many"); mkdir(p, 0755); int ne = (int)vp_between(1500, 9000); for (int i = 0; i < ne; i++) { snprintf(q, sizeof q, "%s/entry%d", p, i); int e = open(q, O_CREAT | O_WRONLY, 0600); if (e < 0) vp_error("create"); close(e); if (!(i & 0xff)) vp_beat(); } se_t se = { calloc((size_t)ne, 1), ne, 0 }; VP_CHECK(file_iterator_foreach(p, sc_entry, &se) == 0 && se.cnt == ne, "iterate.complete", "%d of %d entries handed out", se.cnt, ne); free(se.seen); vp_count("entries", (uint64_t)ne);
    rm_tree(p); VP_CHECK(vp_count_fds() == fds, "files.fd", "file handles left behind"); vp_count("long_files", 1); vp_case_mix(vp_mix((uint64_t)lines, n)); vp_nontrivial();
}
const vp_mode_t vp_modes[] = { {"transfer", m_transfer}, {"lines", m_lines}, {"folders", m_folders}, {"together", m_together}, {"iterate", m_iterate}, {"edge", m_edge}, {"huge", m_huge}, {"scale", m_scale}, {0} };
