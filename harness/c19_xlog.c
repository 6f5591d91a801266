/* C19: the log's filter, header, text, targets and configuration, message by message, against a model; clock controlled, console captured. */
#include "vp.h"
#pragma weak vpm_begin
#pragma weak vpm_end
#pragma weak vpm_live
#pragma weak vpm_live_bytes
#include "wrap_clock.h"
#include "lcu.h"
#include "log/xlog.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-overflow"
static struct { int min, trig, target, format, tz, flush; char tag[24]; bool cb; void* ud; } M;
static int64_t now; static long nus;
static void next_now(struct timeval* tv) { tv->tv_sec = (time_t)now; tv->tv_usec = nus; }
/* ---- what each sink must hold ---- */
#define NS 4
static struct { char path[300]; char* want; size_t n, cap; } S[NS]; static int sink; static bool redirected;
static void s_add(int i, const char* t, size_t n) { if (S[i].n + n > S[i].cap) { S[i].cap = (S[i].n + n) * 2; S[i].want = realloc(S[i].want, S[i].cap); } memcpy(S[i].want + S[i].n, t, n); S[i].n += n; }
static size_t f_size(const char* p) { struct stat st; return stat(p, &st) ? (size_t)-1 : (size_t)st.st_size; }
static void s_check(int i) {
    size_t n = f_size(S[i].path); char* b = malloc(S[i].n + 1); int fd = open(S[i].path, O_RDONLY); ssize_t g = fd < 0 ? -1 : read(fd, b, S[i].n); if (fd >= 0) close(fd);
    size_t k = 0; while (g > 0 && k < (size_t)g && b[k] == S[i].want[k]) k++;
    VP_CHECK(n == S[i].n && g == (ssize_t)S[i].n && k == n, "console", "output %d holds %zu bytes, expected %zu; they differ at byte %zu: \"%.80s\", expected \"%.80s\"", i, n, S[i].n, k, g > 0 ? (b[g < (ssize_t)S[i].n ? g : (ssize_t)S[i].n] = 0, b + k) : "", S[i].want ? (s_add(i, "", 1), S[i].n--, S[i].want + k) : ""); free(b); }
/* ---- callback ---- */
static int cb_calls; static char* cb_text; static size_t cb_size; static LogLevel cb_level; static void* cb_ud;
static void cb(LogLevel level, void* msg, size_t size, void* ud) { cb_calls++; cb_level = level; cb_size = size; cb_ud = ud; free(cb_text); cb_text = malloc(size ? size : 1); memcpy(cb_text, msg, size); }
static size_t header(char* o, int level, const char* tag) {
    size_t n = 0; bool any = false; if (!M.format || !(M.target & (LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK))) return 0;
    if (M.format & LOG_FORMAT_WITH_TIMESTAMP) { struct tm e; time_t l = (time_t)(now + M.tz * 3600); gmtime_r(&l, &e); n += (size_t)sprintf(o + n, "%02d-%02d %02d:%02d:%02d.%03ld", e.tm_mon + 1, e.tm_mday, e.tm_hour, e.tm_min, e.tm_sec, nus / 1000); any = true; }
    if (M.format & LOG_FORMAT_WITH_TAG_LEVEL) { n += (size_t)sprintf(o + n, " %c/%-8.22s", "0VDIWE"[level], tag); any = true; }
    if (M.format & LOG_FORMAT_WITH_TID) { n += (size_t)sprintf(o + n, syscall(SYS_gettid) > 99999 ? "(%05d)" : "(%5d)", (int)(syscall(SYS_gettid) % 100000)) /* five places: the last digits of a longer number */; any = true; }
    if (any) { o[n++] = ':'; o[n++] = ' '; } o[n] = 0; return n; }
/* state before a message, then the verdict after it */
static size_t before; static bool lazy; /* lazy: nobody but the library flushes the console, so text is still buffered when it is redirected */
static void pre(void) { cb_calls = 0; if (!lazy) fflush(stdout); before = lazy ? S[sink].n : f_size(S[sink].path); if (vp_chance(1, 3)) { now += (int64_t)vp_below(4000); nus = (long)vp_below(1000000); } }
static char big[900000];
static void post(int level, const char* tag, const char* func, int line, const char* text, bool formattable) {
    size_t eager = f_size(S[sink].path); bool on = formattable && M.target != 0 && M.min != 0 && level >= M.min && level >= 1 && level < LOG_LEVEL_UNKNOWN; int lv = on && M.trig && level < M.trig ? M.trig : level;
    char* w = big; size_t n = 0; if (!tag) tag = M.tag;
    if (on) { n = header(w, lv, tag); if (func && line > 0) { size_t fl = strlen(func); if (fl > 440) { /* a long name may be shortened */ const char* seen = NULL; size_t sl = 0; char* fb = NULL;
                if (cb_calls) { seen = cb_text; sl = cb_size; } else if (M.target & LOG_TARGET_CONSOLE) { fflush(stdout); size_t e = f_size(S[sink].path); sl = e - before; fb = malloc(sl + 1); int fd = open(S[sink].path, O_RDONLY); if (pread(fd, fb, sl, (off_t)before) < 0) sl = 0; close(fd); fb[sl] = 0; seen = fb; }
                if (seen && sl > n) { size_t k = 0; while (n + 1 + k < sl && k < fl && seen[n + 1 + k] == func[k]) k++; if (k < fl) { VP_CHECK(k >= 440, "func", "only %zu characters of the function name were printed", k); fl = k; vp_count("names_shortened", 1); } } free(fb); }
            n += (size_t)sprintf(w + n, "(%.*s:%d) ", (int)fl, func, line); }
        size_t tl = strlen(text); memcpy(w + n, text, tl + 1); size_t hn = n; n += tl; vp_count("emitted", 1); if (n >= 509 && n <= 514) vp_count("at_the_buffer_limit", 1); if (n > 514) vp_count("beyond_the_buffer", 1); if (n > 32800) vp_count("very_long", 1); if (lv != level) vp_count("levels_raised", 1); vp_seen(vp_mix(vp_mix((uint64_t)M.format & 14, (uint64_t)M.target & 14), vp_mix((uint64_t)lv, (uint64_t)(tl < 3 ? tl : tl < 400 ? 3 : tl < 512 ? tl : 512) * 64 + hn))); }
    else vp_count("suppressed", 1);
    bool want_cb = on && (M.target & LOG_TARGET_USER_CALLBACK) && M.cb, want_con = on && (M.target & LOG_TARGET_CONSOLE);
    VP_CHECK(cb_calls == (want_cb ? 1 : 0), "callback.count", "the callback was called %d times for one %s message (level %d, minimum %d, target %d)", cb_calls, on ? "enabled" : "disabled", level, M.min, M.target);
    if (want_cb) { VP_CHECK(cb_size == n + 1 && !memcmp(cb_text, w, n + 1), "callback.text", "callback got %zu bytes \"%.100s\", expected %zu \"%.100s\"", cb_size, cb_text, n + 1, w); VP_CHECK((int)cb_level == lv && cb_ud == M.ud, "callback.level", "callback got level %d, expected %d", (int)cb_level, lv); vp_count("to_callback", 1); }
    if (want_con) { w[n] = '\n'; s_add(sink, w, n + 1); vp_count("to_console", 1); if (M.flush == LOG_FLUSH_MODE_EVERY) { VP_CHECK(eager == S[sink].n, "flush", "flush-every mode, but %zu of %zu bytes are out", eager, S[sink].n); vp_count("flushed_at_once", 1); } }
    if (!lazy || vp_chance(1, 12)) { fflush(stdout); VP_CHECK(f_size(S[sink].path) == S[sink].n, "console.size", "after a message of level %d (minimum %d, target %d): console holds %zu bytes, expected %zu", level, M.min, M.target, f_size(S[sink].path), S[sink].n); if (vp_chance(1, 4)) s_check(sink); }
    vp_count("messages", 1);
}
static void check_getters(void) { VP_CHECK((int)xlog_get_min_level() == M.min && xlog_get_target() == M.target && xlog_get_format() == M.format && (int)xlog_get_flush_mode() == M.flush, "config", "minimum %d target %d format %d flush %d, expected %d %d %d %d", (int)xlog_get_min_level(), xlog_get_target(), xlog_get_format(), (int)xlog_get_flush_mode(), M.min, M.target, M.format, M.flush); }
static char text[300000];
static void some_text(size_t lo) { size_t n; switch (vp_below(8)) { case 0: n = vp_below(4); break; case 1: case 2: case 3: { size_t h = lo; n = (h < 505 ? 505 - h : 0) + vp_below(14); break; } case 4: n = vp_below(5000); break; case 5: n = vp_chance(1, 30) ? 30000 + vp_below(200000) : vp_chance(1, 4) ? 15000 : 1023 + vp_below(3); break; default: n = vp_below(80); } for (size_t i = 0; i < n; i++) text[i] = vp_chance(1, 30) ? '%' : vp_chance(1, 60) ? '\n' : vp_chance(1, 40) ? (char)(0x80 + vp_below(128)) : (char)(' ' + vp_below(95)); text[n] = 0; }
static char* some_tag(char* b) { size_t n = vp_below(5) == 0 ? 20 + vp_below(6) : vp_chance(1, 20) ? vp_below(700) : vp_below(12); for (size_t i = 0; i < n; i++) b[i] = vp_chance(1, 20) ? '%' : (char)('A' + vp_below(50)); b[n] = 0; return b; }
static void m_history(void) {
    char dir[250]; snprintf(dir, sizeof dir, "%s", vp_scratch()); for (int i = 0; i < NS; i++) { snprintf(S[i].path, sizeof S[i].path, "%s/out%d", dir, i); unlink(S[i].path); S[i].n = 0; }
    fflush(stdout); int keep = dup(1), fd = open(S[0].path, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd); sink = 0; redirected = false; for (int i = 1; i < NS; i++) { fd = open(S[i].path, O_CREAT | O_WRONLY, 0600); close(fd); }
    int fds = vp_count_fds(); vck_next = next_now; vck_on = true; now = (int64_t)vp_below(4102444800ll); nus = (long)vp_below(1000000);
    lazy = vp_chance(1, 3);
    bool up = false; if (vp_chance(2, 3)) { VP_CHECK(xlog_global_init() == 0, "init", "first initialisation refused"); up = true; }
    char tag[800], func[2200]; uint64_t h = 1; int msgs = 0; xlog_set_user_callback(cb, &M); M.cb = true; M.ud = &M;
    for (int op = 0; op < 90; op++) {
        int c = (int)vp_below(26); h = vp_mix(h, (uint64_t)c); vp_trace("op %d", c);
        switch (c) {
        case 0: { int v = vp_chance(1, 5) ? (vp_chance(1, 2) ? 6 + (int)vp_below(100) : -1 - (int)vp_below(100)) : vp_chance(1, 12) ? 0 : (int)vp_between(1, 5); xlog_set_min_level((LogLevel)v); if (v >= 0 && v <= 5) M.min = v; break; }
        case 1: { int v = vp_chance(1, 5) ? -1 - (int)vp_below(100) : (int)vp_below(20) & (vp_chance(1, 8) ? 31 : 14); if (vp_chance(1, 3)) v = 12; xlog_set_target(v); if (v >= 0) M.target = v; break; }
        case 2: { int v = vp_chance(1, 6) ? -1 - (int)vp_below(100) : (int)vp_below(16) | (vp_chance(1, 10) ? 64 : 0); xlog_set_format(v); if (v >= 0) M.format = v; break; }
        case 3: { int v = (int)vp_between(0, 32) - 16; xlog_set_timezone(v); if (v >= -12 && v <= 12) M.tz = v; break; }
        case 4: { int v = (int)vp_below(2); xlog_set_flush_mode((LogFlushMode)v); M.flush = v; break; }
        case 5: if (vp_chance(1, 5)) xlog_set_default_tag(NULL); else { some_tag(tag); char* t = strdup(tag); xlog_set_default_tag(t); free(t); snprintf(M.tag, sizeof M.tag, "%.23s", tag); } break;
        case 6: { int v = vp_chance(1, 4) ? (vp_chance(1, 2) ? 6 + (int)vp_below(1000) : -1 - (int)vp_below(1000)) : vp_chance(1, 3) ? 0 : (int)vp_between(1, 5); xlog_auto_level_up((LogLevel)v); if (v >= 0 && v <= 5) M.trig = v; break; }
        case 7: if (vp_chance(1, 3)) { if (vp_chance(1, 2)) { xlog_set_user_callback(NULL, NULL); M.cb = false; } else { M.ud = vp_chance(1, 2) ? &sink : NULL; xlog_set_user_callback(cb, M.ud); M.cb = true; } } break;
        case 8: if (vp_chance(1, 2)) { bool again = up; int r = xlog_global_init(); VP_CHECK((r == 0) == !again, "init", "initialisation returned %d with the log %s", r, again ? "up" : "down"); up = true; if (again) vp_count("initialised_again", 1); } else { int r = xlog_global_cleanup(); VP_CHECK((r == 0) == up, "cleanup", "clean-up returned %d with the log %s", r, up ? "up" : "down"); up = false; vp_count("cleaned_up", 1); } break;
        case 9: if (lazy) vp_count("switched_unflushed", 1); if (vp_chance(1, 2)) { if (!lazy) fflush(stdout); if (vp_chance(1, 4)) { static const char* bad[] = { "/nonexistent/dir/file", "", "/" }; char p[40]; strcpy(p, bad[vp_below(3)]); LOG_STD2FILE(vp_chance(1, 10) ? NULL : p); vp_count("redirections_failed", 1); } else { sink = 1 + (int)vp_below(NS - 1); redirected = true; S[sink].n = 0; LOG_STD2FILE(S[sink].path); vp_count("redirected", 1); } } else { LOG_BACK2STD(); if (redirected) vp_count("restored", 1); sink = 0; redirected = false; } break;
        case 10: case 11: { size_t n = vp_chance(1, 3) ? 165 + vp_below(12) : vp_chance(1, 4) ? vp_below(4) : vp_chance(1, 12) ? vp_below(vp_chance(1, 6) ? 3000000 : 150000) : vp_below(700); char* b = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) b[i] = (char)vp_rand(); int lv = (int)vp_between(1, 5); bool dt = vp_chance(1, 3); char* t = strdup(some_tag(tag)); pre();
            switch (lv) { case 1: if (dt) LOGV_HEX(b, n); else TLOGV_HEX(t, b, n); break; case 2: if (dt) LOGD_HEX(b, n); else TLOGD_HEX(t, b, n); break; case 3: if (dt) LOGI_HEX(b, n); else TLOGI_HEX(t, b, n); break; case 4: if (dt) LOGW_HEX(b, n); else TLOGW_HEX(t, b, n); break; default: if (dt) LOGE_HEX(b, n); else TLOGE_HEX(t, b, n); break; }
            size_t o = 0, show = n; text[0] = 0; if (3 * n + 1 > 512) { o = (size_t)sprintf(text, "hex truncated(%zu):", n); show = (511 - o) / 3; vp_count("hex_truncated", 1); if (n > 65535) vp_count("hex_beyond_64k", 1); } for (size_t i = 0; i < show; i++) o += (size_t)sprintf(text + o, " %02x", (unsigned char)b[i]); vp_count("hex", 1);
            post(lv, dt ? NULL : t, NULL, 0, text, true); free(b); free(t); msgs++; break; }
        case 12: { /* text that cannot be formatted */ static const wchar_t w[] = { 0x7fffffff, 0 }; pre(); int lv = (int)vp_between(1, 5); __xlog_internal_print((LogLevel)lv, NULL, vp_chance(1, 2) ? "f" : NULL, 3, "%ls", w); post(lv, NULL, NULL, 0, "", false); vp_count("unformattable", 1); break; }
        case 13: case 14: { /* the macros with source position */ some_text(80); char* t = strdup(some_tag(tag)); int lv = (int)vp_between(1, 5), ln = 0; bool dt = vp_chance(1, 2); pre();
            switch (lv) {
            case 1: if (dt) { ln = __LINE__; LOGV_TRACE("%s", text); } else { ln = __LINE__; TLOGV_TRACE(t, "%s", text); } break;
            case 2: if (dt) { ln = __LINE__; LOGD_TRACE("%s", text); } else { ln = __LINE__; TLOGD_TRACE(t, "%s", text); } break;
            case 3: if (dt) { ln = __LINE__; LOGI_TRACE("%s", text); } else { ln = __LINE__; TLOGI_TRACE(t, "%s", text); } break;
            case 4: if (dt) { ln = __LINE__; LOGW_TRACE("%s", text); } else { ln = __LINE__; TLOGW_TRACE(t, "%s", text); } break;
            default: if (dt) { ln = __LINE__; LOGE_TRACE("%s", text); } else { ln = __LINE__; TLOGE_TRACE(t, "%s", text); } break; }
            post(lv, dt ? NULL : t, __func__, ln, text, true); free(t); msgs++; break; }
        case 15: case 16: case 17: { /* the macros, several formats */ some_text(20); char* t = strdup(some_tag(tag)); int lv = (int)vp_between(1, 5); bool dt = vp_chance(1, 2); int i = (int)vp_rand(); double d = (double)(int)vp_rand() / 7; unsigned long long u = vp_rand(); static char e[900000]; pre();
#define ALL(...) do { snprintf(e, sizeof e, __VA_ARGS__); switch (lv) { case 1: if (dt) LOGV(__VA_ARGS__); else TLOGV(t, __VA_ARGS__); break; case 2: if (dt) LOGD(__VA_ARGS__); else TLOGD(t, __VA_ARGS__); break; case 3: if (dt) LOGI(__VA_ARGS__); else TLOGI(t, __VA_ARGS__); break; case 4: if (dt) LOGW(__VA_ARGS__); else TLOGW(t, __VA_ARGS__); break; default: if (dt) LOGE(__VA_ARGS__); else TLOGE(t, __VA_ARGS__); break; } } while (0)
            switch (vp_below(5)) { case 0: ALL("%d and %s", i, text); break; case 1: ALL("%llu|%s|%.3f|%x", u, text, d, i); break; case 2: ALL("%c%%%-12.*s%5d", 'x', (int)vp_case % 400 + 1, text, i); break; case 3: ALL("plain"); break; default: ALL("%s%s", text, text + strlen(text) / 2); break; }
            post(lv, dt ? NULL : t, NULL, 0, e, true); free(t); msgs++; break; }
        case 18: { /* any level, the bare entry */ int lv = (int)vp_between(0, 14) - 4; some_text(40); pre(); __xlog_internal_print((LogLevel)lv, "bare", "fn", 7, "%s", text); post(lv, "bare", "fn", 7, text, true); vp_count("odd_levels", lv < 1 || lv > 5); msgs++; break; }
        default: { int lv = (int)vp_between(1, 5); char* f = NULL; if (vp_chance(4, 5)) { size_t n = vp_chance(1, 5) ? 380 + vp_below(120) : vp_chance(1, 8) ? vp_below(2000) : vp_below(40); for (size_t i = 0; i < n; i++) func[i] = (char)('a' + vp_below(26)); func[n] = 0; f = strdup(func); if (n > 420) vp_count("long_names", 1); } int line = vp_chance(1, 6) ? 0x7fffffff : vp_chance(1, 8) ? -(int)vp_below(50) : (int)vp_below(20000); char* t = vp_chance(1, 3) ? NULL : strdup(some_tag(tag));
            size_t at = (M.format & 2 ? 18 : 0) + (M.format & 4 ? 11 : 0) + (M.format & 8 ? 7 : 0) + 2 + (f && line > 0 ? strlen(f) + 8 : 0); some_text(at); char* tx = strdup(text); pre(); __xlog_internal_print((LogLevel)lv, t, f, line, "%s", tx); post(lv, t, f, line, tx, true); free(tx); free(f); free(t); msgs++; break; }
        }
        if (vp_chance(1, 3)) check_getters();
    }
    check_getters(); LOG_BACK2STD(); fflush(stdout); for (int i = 0; i < NS; i++) s_check(i); VP_CHECK(vp_count_fds() == fds, "descriptors", "%d descriptors, %d at the start", vp_count_fds(), fds);
    if (up) xlog_global_cleanup(); xlog_set_user_callback(NULL, NULL); vck_on = false; dup2(keep, 1); close(keep); vp_case_mix(h); if (msgs > 20) vp_nontrivial(); if (vp_want_sample()) vp_sample("%d messages among 90 operations", msgs);
}
static void to_defaults(void) { M.min = LOG_LEVEL_VERBOSE; M.trig = 0; M.target = LOG_TARGET_CONSOLE; M.format = LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL; M.tz = 8; M.flush = 0; strcpy(M.tag, "XLog"); M.cb = false; }
static void m_h(void) { static bool seen; if (!seen) { seen = true; to_defaults(); /* a fresh process has the documented defaults */ check_getters(); vp_count("defaults_checked", 1); }
    if (vp_chance(1, 3)) { to_defaults(); xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_target(M.target); xlog_set_format(M.format); xlog_set_timezone(8); xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO); xlog_set_default_tag("XLog"); }
    m_history(); }
/* library-wide initialisation is counted: the log stays as configured through it */
static void m_global(void) {
    int depth = 0; for (int i = 0; i < 30; i++) { if (vp_chance(depth < 4 ? 1 : 0, 2) || !depth) { lcu_global_init(); depth++; } else { lcu_global_cleanup(); depth--; } vp_seen((uint64_t)depth); vp_count("global_steps", 1); if (depth) { int r = xlog_global_init(); VP_CHECK(r != 0, "global", "with the library up (depth %d) the log was not initialised", depth); } } while (depth--) lcu_global_cleanup(); int r = xlog_global_cleanup(); VP_CHECK(r != 0, "global", "the log was still up after the last clean-up"); vp_nontrivial(); vp_case_mix(vp_rand()); }
/* texts of megabytes: whole on the callback and on the console */
static int giants, giant_other; static void gcb(LogLevel level, void* msg, size_t size, void* ud) { const char* s = msg; const char* t = ud; size_t n = strlen(t); giants++; if (level != LOG_LEVEL_WARN || size < n + 1 || s[size - 1] || strlen(s) != size - 1 || memcmp(s + size - 1 - n, t, n)) giant_other++; }
static void m_giant(void) {
    char p[300]; snprintf(p, sizeof p, "%s/giant", vp_scratch()); fflush(stdout); int keep = dup(1), fd = open(p, O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1);
    size_t n = vp_chance(1, 2) ? ((size_t)1 << vp_between(16, 24)) + vp_below(600) - 300 : vp_between(1000000, 20000000); char* t = malloc(n + 1); uint64_t s = vp_rand(); for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; t[i] = (char)(' ' + (s >> 33) % 95); } t[n] = 0;
    bool up = vp_chance(1, 2); if (up) xlog_global_init(); vck_next = next_now; vck_on = true; now = (int64_t)vp_below(4102444800ll); nus = 0; giants = giant_other = 0; xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_user_callback(gcb, t); xlog_set_target(LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK); int f = (int)vp_below(8) * 2; xlog_set_format(f); xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO);
    vpm_begin(); int k = (int)vp_between(1, 3); bool tr = vp_chance(1, 2); vp_beat(); for (int i = 0; i < k; i++) { if (tr) LOGW_TRACE("%s", t); else TLOGW("Giant", "%s", t); vp_beat(); }
    VP_CHECK(vpm_live() == 0, "giant.memory", "%ld bytes are still held after messages of %zu bytes", vpm_live_bytes(), n); vpm_end();
    VP_CHECK(giants == k && !giant_other, "giant.callback", "%d messages of %zu bytes: the callback was called %d times, %d of them with something else", k, n, giants, giant_other);
    fflush(stdout); char* b = malloc(n + 2048); off_t at = 0; for (int i = 0; i < k; i++) { size_t h = 0; bool ok = false; ssize_t g = pread(fd, b, n + 2048, at); for (; g > 0 && h < 200 && (size_t)g >= h + n + 1; h++) if (b[h + n] == '\n' && b[h] == t[0] && !memcmp(b + h, t, n)) { ok = true; break; } VP_CHECK(ok, "giant.console", "message %d of %d, %zu bytes: its text is not on the console", i + 1, k, n); at += (off_t)(h + n + 1); vp_beat(); } VP_CHECK(lseek(fd, 0, SEEK_END) == at, "giant.console", "the console holds %ld bytes, the messages take %ld", (long)lseek(fd, 0, SEEK_END), (long)at);
    free(b); vp_count("giant_messages", (uint64_t)k); if (up) xlog_global_cleanup(); xlog_set_user_callback(NULL, NULL); vck_on = false; dup2(keep, 1); close(keep); close(fd); unlink(p); free(t); vp_nontrivial(); vp_case_mix(vp_mix(n, (uint64_t)f)); vp_seen((uint64_t)f); if (vp_want_sample()) vp_sample("%d messages of %zu bytes, format %d", k, n, f); to_defaults(); }
const vp_mode_t vp_modes[] = { {"history", m_h}, {"global", m_global}, {"giant", m_giant}, {0} };
