/* C13: string helpers against reference meanings, exact-size buffers. */
#include "vp.h"
#include "mem/strings.h"
#include "mem/asprintf.h"
#include <stdarg.h>
#include <ctype.h>
static char* rnd(size_t n, const char* set) { char* s = malloc(n + 1); size_t k = strlen(set); for (size_t i = 0; i < n; i++) s[i] = k ? set[vp_below(k)] : (char)(1 + vp_below(255)); s[n] = 0; return s; }
static const char* sets[] = { "ab", "a", "abc ,;", "", " \t\r\nx", "0123456789" };
static int g_long;
static size_t len_(void) { if (g_long) return vp_chance(1, 4) ? vp_between(65530, 65545) : vp_between(60000, vp_chance(1, 3) ? 2000000 : 300000); if (vp_chance(1, 600)) return vp_between(4000, 70000); return vp_chance(1, 5) ? 0 : vp_chance(1, 8) ? vp_between(60, 700) : vp_below(24); }
static void t_copy(void) {
    size_t n = len_(); char* s = rnd(n, sets[vp_below(6)]); size_t cap = vp_chance(1, 3) ? n + vp_below(3) : vp_below(n + 12); char* d = malloc(cap ? cap : 1); char* dd = d; memset(d, 0x5a, cap ? cap : 1);
    size_t r = strlcpy(dd, s, cap); VP_CHECK(r == n, "strlcpy", "length %zu into %zu returned %zu", n, cap, r);
    if (cap) { size_t k = n < cap - 1 ? n : cap - 1; VP_CHECK(memcmp(d, s, k) == 0 && d[k] == 0, "strlcpy", "length %zu into %zu: content or terminator wrong", n, cap); for (size_t i = k + 1; i < cap; i++) VP_CHECK(d[i] == 0x5a, "strlcpy", "wrote at %zu beyond the terminator at %zu", i, k); }
    else VP_CHECK(d[0] == 0x5a, "strlcpy", "capacity 0 was written to");
    if (cap == n + 1) vp_count("exact_fit", 1); if (cap == n) vp_count("one_too_small", 1);
    free(d); free(s);
    /* strlcat: destination terminated inside, or full without a terminator */
    n = len_(); s = rnd(n, sets[vp_below(6)]); cap = g_long ? vp_between(60000, 400000) : vp_between(1, 60); bool full = vp_chance(1, 8); size_t a = full ? cap : vp_below(cap); char* pre = rnd(a, "xyz"); d = malloc(cap); memset(d, 0x5a, cap); memcpy(d, pre, a); if (!full) d[a] = 0;
    if (vp_chance(1, 3) && !full) { size_t room = cap - a - 1; free(s); n = room + vp_below(3) - (room ? 1 : 0); s = rnd(n, "q"); }
    r = strlcat(d, s, cap); VP_CHECK(r == (a < cap ? a : cap) + n, "strlcat", "%zu + %zu in %zu returned %zu", a, n, cap, r);
    if (full) { VP_CHECK(memcmp(d, pre, cap) == 0, "strlcat", "a full destination was changed"); vp_count("cat_full", 1); }
    else { size_t k = n < cap - a - 1 ? n : cap - a - 1; VP_CHECK(memcmp(d, pre, a) == 0 && memcmp(d + a, s, k) == 0 && d[a + k] == 0, "strlcat", "%zu + %zu in %zu: content wrong", a, n, cap); for (size_t i = a + k + 1; i < cap; i++) VP_CHECK(d[i] == 0x5a, "strlcat", "wrote beyond the terminator"); }
    free(d); free(s); free(pre); vp_count("copies", 2);
}
static void t_replace(void) {
    const char* set = sets[vp_below(3)]; size_t n = len_(); char* s = rnd(n, set); char* p = rnd(vp_chance(1, 12) ? 0 : vp_between(1, 3), set); char* q = rnd(vp_below(4) ? vp_below(9) : vp_below(vp_chance(1, 10) ? 700 : 60), vp_chance(1, 2) ? set : "Z");
    if (n > 4 && vp_chance(1, 4)) { /* a longer pattern, taken from the text (and perhaps nearly so) */ size_t k = 1 + vp_below(n > 400 ? vp_chance(1, 2) ? 20 : 400 : n), at = vp_below(n - k + 1); free(p); p = malloc(k + 1); memcpy(p, s + at, k); p[k] = 0; if (vp_chance(1, 4)) p[vp_below(k)] = 'Y'; else if (vp_chance(1, 3)) for (int i = 0; i < 3; i++) memcpy(s + vp_below(n - k + 1), p, k); vp_count("long_patterns", k > 3); } size_t pl = strlen(p), ql = strlen(q);
    char* s0 = strdup(s); char* want = malloc((n + 1) * (ql + 1) + 1); size_t w = 0, cnt = 0;
    for (size_t i = 0; i < n;) { if (pl && i + pl <= n && memcmp(s + i, p, pl) == 0) { memcpy(want + w, q, ql); w += ql; i += pl; cnt++; } else want[w++] = s[i++]; } want[w] = 0;
    vp_trace("replace '%s' by '%s' in '%.200s'", p, q, s);
    char* r = strreplace(s, p, q); VP_CHECK(r != NULL, "strreplace", "returned NULL"); VP_CHECK(strcmp(r, want) == 0, "strreplace", "replacing '%s' by '%s' in '%.100s' gave '%.100s', expected '%.100s'", p, q, s, r, want); VP_CHECK(!strcmp(s, s0), "strreplace", "the original changed");
    if (!pl) vp_count("replace_empty_pattern", 1); vp_count("replaced", cnt); vp_seen(vp_mix(cnt, vp_mix(pl, ql > pl ? 2 : ql == pl)));
    free(r); free(s); free(s0); free(p); free(q); free(want);
}
static void t_split(void) {
    size_t n = len_(); char* s = rnd(n, vp_chance(1, 2) ? "ab," : "a,;b "); const char* del = vp_chance(1, 4) ? ",;" : vp_chance(1, 5) ? "x" : vp_chance(1, 4) ? "|/:.-_#;+*~!%&=" "?,<>()[]{}\"'^" : vp_chance(1, 6) ? "zyxwvutsrqponmlkjihgfedc\xff\x80," : ","; if (vp_chance(1, 8)) for (size_t i = 0; i < n; i++) if (vp_chance(1, 5)) s[i] = (char)(vp_chance(1, 2) ? 0xff : 0x80); char* ref = strdup(s); size_t cap = vp_below(3) ? vp_below(12) : 0; if (vp_chance(1, 3)) cap = 400; if (g_long) cap = vp_chance(1, 3) ? vp_between(65530, 65545) : n / 2 + 2;
    char** got = malloc((cap ? cap : 1) * sizeof *got); size_t num = cap; vp_trace("split '%.200s' by '%s' into %zu", s, del, cap);
    strsplit(got, &num, s, del);
    size_t k = 0, i = 0; while (i < n) { while (i < n && strchr(del, ref[i])) i++; if (i >= n) break; size_t b = i; while (i < n && !strchr(del, ref[i])) i++; if (k < cap) { VP_CHECK(k < num, "strsplit", "only %zu pieces of '%.100s'", num, ref); VP_CHECK(got[k] == s + b && strlen(got[k]) == i - b && memcmp(got[k], ref + b, i - b) == 0, "strsplit", "piece %zu is '%.60s', expected '%.*s'", k, got[k], (int)(i - b), ref + b); } k++; }
    VP_CHECK(num == (k < cap ? k : cap), "strsplit", "%zu pieces reported, %zu exist, room for %zu", num, k, cap);
    if (k > cap) vp_count("split_limited", 1); vp_count("split_pieces", num); free(got); free(s); free(ref);
}
static void t_trim(void) {
    size_t n = len_(); const char* set = vp_chance(1, 2) ? " \tx" : "ab"; char* s = rnd(n, set); const char* cut = vp_chance(1, 3) ? " " : vp_chance(1, 2) ? " \t" : vp_chance(1, 3) ? "" : vp_chance(1, 3) ? "zyxwvutsrqponmlkjihgfedc\xff\x80 \t" : "a"; if (vp_chance(1, 8)) for (size_t i = 0; i < n; i++) if (i < n / 3 || i > n - n / 3) s[i] = (char)(vp_chance(1, 2) ? 0xff : 0x80); char* ref = strdup(s); vp_trace("trim '%.200s' of '%s'", s, cut);
    size_t a = 0, b = n; while (a < b && strchr(cut, ref[a]) ) a++; while (b > a && strchr(cut, ref[b - 1])) b--;
    strtrim(s, cut); VP_CHECK(strlen(s) == b - a && memcmp(s, ref + a, b - a) == 0, "strtrim", "trimming '%.100s' of '%s' gave '%.100s'", ref, cut, s);
    if (a == n && n) vp_count("trim_all", 1); vp_count("trims", 1); free(s); free(ref);
}
static void t_utf8(void) {
    char t[400]; size_t n = 0, cp = 0; int k = (int)vp_below(60);
    for (int i = 0; i < k; i++) { uint32_t c = vp_chance(1, 3) ? 1 + (uint32_t)vp_below(0x7f) : vp_chance(1, 2) ? 0x80 + (uint32_t)vp_below(0x700) : vp_chance(1, 2) ? 0x800 + (uint32_t)vp_below(0xf000) : 0x10000 + (uint32_t)vp_below(0xfffff);
        if (c < 0x80) t[n++] = (char)c; else if (c < 0x800) { t[n++] = (char)(0xc0 | c >> 6); t[n++] = (char)(0x80 | (c & 63)); } else if (c < 0x10000) { t[n++] = (char)(0xe0 | c >> 12); t[n++] = (char)(0x80 | (c >> 6 & 63)); t[n++] = (char)(0x80 | (c & 63)); } else { t[n++] = (char)(0xf0 | c >> 18); t[n++] = (char)(0x80 | (c >> 12 & 63)); t[n++] = (char)(0x80 | (c >> 6 & 63)); t[n++] = (char)(0x80 | (c & 63)); } cp++; }
    char* s = malloc(n + 1); memcpy(s, t, n); s[n] = 0; VP_CHECK(strutf8len(s) == cp, "utf8len", "%zu bytes with %zu characters counted %zu", n, cp, strutf8len(s)); VP_CHECK(strnutf8len(s, n + 5) == cp, "utf8len", "with a limit beyond the end counted %zu", strnutf8len(s, n + 5)); free(s);
    size_t lim = vp_below(n + 1); char* u = malloc(lim ? lim : 1); memcpy(u, t, lim); if (!lim) u[0] = 'x'; size_t want = 0; for (size_t i = 0; i < lim; i++) want += ((t[i] & 0xc0) != 0x80); /* unterminated: nothing beyond the limit may be read */
    if (lim) VP_CHECK(strnutf8len(u, lim) == want, "utf8len", "first %zu bytes counted %zu, expected %zu", lim, strnutf8len(u, lim), want); else VP_CHECK(strnutf8len(u, 0) == 0, "utf8len", "limit 0 counted");
    free(u); vp_count("utf8_texts", 1); vp_count("utf8_limited", lim < n);
}
static void t_hex(void) {
    size_t n = vp_chance(1, 6) ? vp_between(80, 1500) : vp_below(40); uint8_t* s = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) s[i] = (uint8_t)vp_rand();
    size_t cap = vp_chance(1, 3) ? 3 * n + 1 : vp_chance(1, 3) ? 3 * n + vp_below(4) : vp_chance(1, 2) ? 3 * n + 1 + vp_below(50) : vp_below(3 * n + 2); char* d = malloc(cap ? cap : 1);
    if (cap) memset(d, 0x5a, cap); size_t r = str_char2hex(d, cap, (char*)s, n); vp_trace("hex %zu into %zu -> %zu", n, cap, r);
    if (!cap) VP_CHECK(r == 0, "char2hex", "capacity 0 returned %zu", r);
    else { VP_CHECK(r < cap && strnlen(d, cap) == r, "char2hex", "%zu bytes into %zu: returned %zu, text is %zu long", n, cap, r, strnlen(d, cap));
        size_t k = 0; const char* p = d;
        if (cap >= 3 * n + 1) { VP_CHECK(r == 3 * n, "char2hex", "%zu bytes into %zu gave %zu characters", n, cap, r); vp_count("hex_complete", 1); if (cap == 3 * n + 1) vp_count("hex_exact_fit", 1); }
        else { char pre[64]; snprintf(pre, sizeof pre, "hex truncated(%zu):", n); size_t m = strlen(pre) < cap - 1 ? strlen(pre) : cap - 1; VP_CHECK(memcmp(d, pre, m) == 0, "char2hex", "truncation of %zu into %zu is not announced: %.40s", n, cap, d); p = d + m; vp_count("hex_truncated", 1); }
        for (; *p; p += 3, k++) { char x[8]; snprintf(x, sizeof x, " %02x", k < n ? s[k] : 0); VP_CHECK(k < n && !strncmp(p, x, 3), "char2hex", "position %zu shows '%.3s', the byte is %02x", k, p, k < n ? s[k] : 0); } }
    free(s); free(d);
}
static int vsc(const char* f, ...) { va_list ap; va_start(ap, f); int r = vscprintf(f, ap); /* the argument list stays usable */ char b[64]; int q = vsnprintf(b, sizeof b, f, ap); va_end(ap); VP_CHECK(r == q, "vscprintf", "measured %d, printed %d", r, q); return r; }
static void t_fmt(void) {
    size_t n = len_(); char* s = rnd(n, "abc"); int v = (int)vp_rand(); int want = snprintf(NULL, 0, "%s/%d/%5.2f/%c", s, v, 1.5, 'x');
    VP_CHECK(vsc("%s/%d/%5.2f/%c", s, v, 1.5, 'x') == want, "vscprintf", "wrong measure"); char* o = NULL; int r = asprintf(&o, "%s/%d", s, v); char* w = malloc(n + 20); int wn = sprintf(w, "%s/%d", s, v); VP_CHECK(r == wn && !strcmp(o, w), "asprintf", "wrong text"); free(o); free(w);
    char* u = strdup(s); STRING2UPPER(u); for (size_t i = 0; i <= n; i++) VP_CHECK(u[i] == toupper(s[i]), "upper", "position %zu", i); STRING2LOWER(u); VP_CHECK(!strcmp(u, s), "lower", "wrong"); free(u); free(s); vp_count("formatted", 1);
}
static void m_strings(void) {
    for (int i = 0; i < 6; i++) { t_copy(); t_replace(); t_split(); t_trim(); t_utf8(); t_hex(); t_fmt(); }
    vp_case_mix(vp_rand()); vp_nontrivial(); if (vp_want_sample()) vp_sample("6 rounds of every string helper with random texts and capacities");
}
/* texts of 60 KB to 2 MB: every counter and length passes 16 bits, and some results pass 32 MB */
static void m_scale(void) {
    g_long = 1;
    for (int i = 0; i < 2; i++) { t_copy(); t_replace(); t_split(); t_trim(); t_fmt(); }
    { size_t n = vp_between(66000, 400000), b = 0, cp = 0, lim; char* s = malloc(4 * n + 1); int kind = (int)vp_below(4);
      for (size_t i = 0; i < n; i++) { int w = kind ? kind : 1 + (int)vp_below(4); cp++; if (w == 1) s[b++] = (char)(1 + vp_below(127)); else { s[b++] = (char)(w == 2 ? 0xc3 : w == 3 ? 0xe4 : 0xf0); while (--w) s[b++] = (char)(0x80 + vp_below(64)); } }
      s[b] = 0; VP_CHECK(strutf8len(s) == cp, "utf8len", "%zu bytes with %zu characters counted %zu", b, cp, strutf8len(s)); lim = vp_between(b / 2, b); size_t want = 0; for (size_t i = 0; i < lim; i++) want += ((s[i] & 0xc0) != 0x80);
      VP_CHECK(strnutf8len(s, lim) == want, "utf8len", "first %zu bytes counted %zu, expected %zu", lim, strnutf8len(s, lim), want); VP_CHECK(strnutf8len(s, b) == cp && strnutf8len(s, (size_t)-1) == cp, "utf8len", "with a limit at or far beyond the end the count differs"); free(s); vp_count("utf8_long", 1); }
    { size_t n = vp_between(22000, 300000); uint8_t* s = malloc(n); for (size_t i = 0; i < n; i++) s[i] = (uint8_t)vp_rand(); size_t cap = 3 * n + 1 + vp_below(3); char* d = malloc(cap); size_t r = str_char2hex(d, cap, (char*)s, n);
      VP_CHECK(r == 3 * n && strlen(d) == r, "char2hex", "%zu bytes into %zu gave %zu characters", n, cap, r); for (size_t k = 0; k < n; k++) { char x[8]; snprintf(x, sizeof x, " %02x", s[k]); if (memcmp(d + 3 * k, x, 3)) VP_CHECK(0, "char2hex", "position %zu shows '%.3s', the byte is %02x", k, d + 3 * k, s[k]); }
      free(d); free(s); vp_count("hex_long", 1); }
    vp_case_mix(vp_rand()); vp_nontrivial(); if (vp_want_sample()) vp_sample("every string helper with texts of 60 KB to 2 MB");
}
const vp_mode_t vp_modes[] = { {"strings", m_strings}, {"scale", m_scale}, {0} };
