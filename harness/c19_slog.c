/* C19: the simple logger: filter, text and redirection. */
#include "vp.h"
#define LOG_TAG "DefTag"
#include "log/slog.h"
#include <sys/stat.h>
#include <fcntl.h>
static char A[300], B[300], wa[200000], wb[200000], e[6000], text[5000]; static size_t na, nb; static bool in_b; static int min = LOG_LEVEL_VERBOSE;
static void expect(int lv, const char* s) { if (!min || lv < min) { vp_count("slog_suppressed", 1); return; } vp_count("slog_emitted", 1); size_t n = strlen(s); if (in_b) { memcpy(wb + nb, s, n); nb += n; } else { memcpy(wa + na, s, n); na += n; } }
static void look(const char* p, const char* w, size_t n) { fflush(stdout); static char b[200000]; int fd = open(p, O_RDONLY); ssize_t g = read(fd, b, sizeof b); close(fd); size_t k = 0; while (k < (size_t)g && k < n && b[k] == w[k]) k++; VP_CHECK(g == (ssize_t)n && k == n, "slog", "console holds %zd bytes, expected %zu; they differ at %zu: \"%.60s\" for \"%.60s\"", g, n, k, b + k, w + k); }
#define EACH(v, d, i, w, er) switch (lv) { case 1: v; break; case 2: d; break; case 3: i; break; case 4: w; break; default: er; }
static void m_slog(void) {
    snprintf(A, sizeof A, "%s/a", vp_scratch()); snprintf(B, sizeof B, "%s/b", vp_scratch()); na = nb = 0; in_b = false; int keep = dup(1), fd = open(A, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd); fd = open(B, O_CREAT | O_TRUNC | O_WRONLY, 0600); close(fd); int fds = vp_count_fds(); slog_set_min_level(LOG_LEVEL_VERBOSE); min = 1; uint64_t h = 0;
    for (int op = 0; op < 60; op++) { int lv = (int)vp_between(1, 5), c = (int)vp_below(9); size_t n = vp_chance(1, 4) ? vp_below(4000) : vp_below(60); for (size_t i = 0; i < n; i++) text[i] = (char)(' ' + vp_below(95)); text[n] = 0; char L = "0VDIWE"[lv]; int ln; h = vp_mix(h, (uint64_t)c * 8 + (uint64_t)lv);
        switch (c) {
        case 0: { int v = vp_chance(1, 4) ? (int)vp_between(0, 40) - 20 : (int)vp_below(6); slog_set_min_level((LogLevel)v); if (v >= 0 && v <= 5) min = v; VP_CHECK((int)slog_get_min_level() == min, "slog.level", "minimum %d, expected %d", (int)slog_get_min_level(), min); break; }
        case 1: case 2: EACH(LOGV("%s", text), LOGD("%s", text), LOGI("%s", text), LOGW("%s", text), LOGE("%s", text)) snprintf(e, sizeof e, "[%c/DefTag] %s\n", L, text); expect(lv, e); break;
        case 3: EACH(TLOGV("Tg", "%d%s", op, text), TLOGD("Tg", "%d%s", op, text), TLOGI("Tg", "%d%s", op, text), TLOGW("Tg", "%d%s", op, text), TLOGE("Tg", "%d%s", op, text)) snprintf(e, sizeof e, "[%c/Tg] %d%s\n", L, op, text); expect(lv, e); break;
        case 4: ln = __LINE__; EACH(LOGV_TRACE("%s", text), LOGD_TRACE("%s", text), LOGI_TRACE("%s", text), LOGW_TRACE("%s", text), LOGE_TRACE("%s", text)) snprintf(e, sizeof e, "[%c/DefTag](%s:%d) %s\n", L, __func__, ln, text); expect(lv, e); break;
        case 5: case 6: { size_t k = vp_chance(1, 2) ? 80 + vp_below(10) : vp_chance(1, 10) ? vp_below(200000) : vp_below(300); char* b = malloc(k ? k : 1); for (size_t i = 0; i < k; i++) b[i] = (char)vp_rand(); EACH(TLOGV_HEX("Hx", b, k), TLOGD_HEX("Hx", b, k), TLOGI_HEX("Hx", b, k), TLOGW_HEX("Hx", b, k), TLOGE_HEX("Hx", b, k)) size_t o = (size_t)sprintf(e, "[%c/Hx] ", L), s = k, t0 = o; if (3 * k + 1 > 256) { o += (size_t)sprintf(e + o, "hex truncated(%zu):", k); s = (255 - (o - t0)) / 3; vp_count("slog_hex_truncated", 1); } for (size_t i = 0; i < s; i++) o += (size_t)sprintf(e + o, " %02x", (unsigned char)b[i]); strcpy(e + o, "\n"); expect(lv, e); free(b); vp_count("slog_hex", 1); break; }
        case 7: if (vp_chance(1, 4)) { char p[] = "/nonexistent/x/y"; SLOG_STD2FILE(p); SLOG_STD2FILE(NULL); } else { SLOG_STD2FILE(B); in_b = true; nb = 0; vp_count("slog_redirected", 1); } break;
        default: SLOG_BACK2STD(); in_b = false; break; }
        if (vp_chance(1, 3)) look(in_b ? B : A, in_b ? wb : wa, in_b ? nb : na); vp_seen(vp_mix((uint64_t)c * 8 + (uint64_t)lv, (uint64_t)min * 2 + in_b)); }
    SLOG_BACK2STD(); look(A, wa, na); look(B, wb, nb); VP_CHECK(vp_count_fds() == fds, "slog.descriptors", "%d descriptors, %d at the start", vp_count_fds(), fds); fflush(stdout); dup2(keep, 1); close(keep); vp_nontrivial(); vp_case_mix(h); if (vp_want_sample()) vp_sample("60 operations");
}
const vp_mode_t vp_modes[] = { {"slog", m_slog}, {0} };
