/* C09: growable array and string builder against plain buffers. */
#include "vp.h"
#include <stdarg.h>
#include "data/array.h"
#include "mem/stringbuilder.h"
static void m_array(void) {
    size_t es = vp_chance(1, 3) ? (size_t)vp_between(1, 4) : (size_t)vp_between(1, 70); bool byval = es <= 4 && vp_chance(2, 3);
    size_t cap0 = vp_chance(1, 2) ? 16 : (size_t)vp_below(vp_chance(1, 3) ? 600 : 10);
    array_t* a = cap0 == 16 && vp_chance(1, 2) ? array_new(es) : array_new_with_init_capacity(es, cap0);
    VP_CHECK(a, "array.new", "NULL"); VP_CHECK(array_length(a) == 0, "array.length", "new array has length %zu", array_length(a));
    size_t n = (size_t)vp_between(1, vp_chance(1, 20) ? 6000 : 150);
    uint8_t* model = malloc(n * es); uint64_t h = 0;
    vp_trace("element %zu init %zu appends %zu by value %d", es, cap0, n, byval);
    for (size_t i = 0; i < n; i++) {
        if (byval) { uint32_t v = (uint32_t)vp_rand(); memcpy(model + i * es, &v, es); VP_CHECK(array_append_value(a, v), "array.append", "refused at %zu", i); }
        else { uint8_t* e = malloc(es); for (size_t k = 0; k < es; k++) e[k] = model[i * es + k] = (uint8_t)vp_rand(); VP_CHECK(array_append_ptr(a, e), "array.append", "refused at %zu", i); memset(e, 0xEE, es); free(e); }
        VP_CHECK(array_length(a) == i + 1, "array.length", "length %zu after %zu appends", array_length(a), i + 1);
        size_t k = vp_chance(1, 2) ? i : (size_t)vp_below(i + 1);
        VP_CHECK(!memcmp(array_at(a, k), model + k * es, es), "array.content", "element %zu of %zu differs", k, i + 1);
        VP_CHECK(array_ptr(a) == array_at(a, 0) && (uint8_t*)array_at(a, k) == (uint8_t*)array_ptr(a) + k * es, "array.layout", "elements are not contiguous");
        if (vp_chance(1, 40)) { /* set in place */ uint8_t* p = array_at(a, k); for (size_t j = 0; j < es; j++) p[j] = model[k * es + j] = (uint8_t)vp_rand(); }
        if (vp_chance(1, 60) || i + 1 == n) VP_CHECK(!memcmp(array_ptr(a), model, (i + 1) * es), "array.content", "content differs after %zu appends", i + 1);
        h = vp_mix(h, k);
    }
    array_free(a); array_free(NULL); free(model);
    vp_count("array_appends", n); if (n > (cap0 > 4 ? cap0 : 4)) { vp_nontrivial(); vp_count("array_grown", 1); }
    vp_case_mix(vp_mix(vp_mix(h, es), n)); vp_seen(vp_mix(es, n));
    if (vp_want_sample()) vp_sample("array: element size %zu, initial capacity %zu, %zu appends", es, cap0, n);
}
static char* S; static size_t sl, scap;
static void m_app(const char* p, size_t n) { if (sl + n + 1 > scap) { scap = (sl + n + 1) * 2; S = realloc(S, scap); } memcpy(S + sl, p, n); sl += n; S[sl] = 0; }
static void sb_check(stringbuilder_t* sb, const char* op) {
    VP_CHECK(stringbuilder_len(sb) == sl, "sb.length", "after %s: length %zu, expected %zu", op, stringbuilder_len(sb), sl);
    const char* t = stringbuilder_to_string(sb);
    VP_CHECK(t && t[sl] == 0, "sb.terminated", "after %s: not terminated at %zu", op, sl);
    VP_CHECK(!memcmp(t, S, sl), "sb.content", "after %s: content differs", op);
}
static int lasting;
static void m_sb(void) {
    size_t init = vp_chance(1, 3) ? 0 : (size_t)vp_between(1, 40); stringbuilder_t* sb = stringbuilder_create(init); VP_CHECK(sb, "sb.create", "NULL");
    sl = 0; scap = 64; S = malloc(scap); S[0] = 0;
    sb_check(sb, "create"); int ops = lasting ? (int)vp_between(66000, 90000) : (int)vp_between(3, 80); uint64_t h = init; int grown = 0;
    for (int o = 0; o < ops; o++) {
        unsigned w = (unsigned)vp_below(100); int rc; const char* op;
        size_t n = vp_chance(1, 4) ? (size_t)vp_below(3) : vp_chance(1, 12) ? (size_t)vp_between(200, 5000) : (size_t)vp_between(1, 40);
        size_t room = 0; while (((size_t)(init < 2 ? 128 : init) << room) < sl + 1) room++; if (vp_chance(1, 3)) n = ((size_t)(init < 2 ? 128 : init) << room) - sl - 1 + vp_below(3) - 1; /* land on the edge of the buffer */
        if (n > 20000) n = 3;
        char* s = malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = (char)vp_between(1, 255); s[n] = 0;
        if (w < 25) { op = "appendstr"; vp_trace("appendstr %zu", n); rc = stringbuilder_appendstr(sb, s); VP_CHECK((rc == 0) == (n > 0), "sb.result", "appendstr of %zu characters answered %d", n, rc); m_app(s, n); }
        else if (w < 50) { op = "appendnstr"; size_t lim = vp_chance(1, 4) ? 0 : vp_chance(1, 3) ? n + vp_between(1, 200) : vp_chance(1, 8) ? SIZE_MAX - vp_below(3) : (size_t)vp_between(0, n);
            bool unterminated = lim && lim <= n; char* u = s; if (unterminated) { u = malloc(lim); memcpy(u, s, lim); } /* the text need not go on after the stated number */
            size_t take = !lim ? n : lim < n ? lim : n; vp_trace("appendnstr text %zu limit %zu", n, lim);
            rc = stringbuilder_appendnstr(sb, u, lim); if (unterminated) free(u);
            VP_CHECK((rc == 0) == (take > 0), "sb.result", "appendnstr of %zu characters answered %d", take, rc); m_app(s, take); if (lim > n) vp_count("sb_limit_beyond_text", 1); }
        else if (w < 65) { op = "appendchar"; char c = (char)vp_between(1, 255); vp_trace("appendchar"); rc = stringbuilder_appendchar(sb, c); VP_CHECK(rc == 0, "sb.result", "appendchar answered %d", rc); m_app(&c, 1); }
        else if (w < 85) { op = "appendf"; char* e = NULL; int k = (int)vp_rand(), en; double d = (double)(int64_t)vp_rand() / 1e7; vp_trace("appendf %zu", n);
            switch (vp_below(5)) {
            case 0: en = asprintf(&e, "%s", s); rc = stringbuilder_appendf(sb, "%s", s); break;
            case 1: en = asprintf(&e, "%d:%08x|%s", k, (unsigned)k, s); rc = stringbuilder_appendf(sb, "%d:%08x|%s", k, (unsigned)k, s); break;
            case 2: en = asprintf(&e, "%.3f%%%c%lld", d, 'a' + (k & 15), (long long)k * 1000003); rc = stringbuilder_appendf(sb, "%.3f%%%c%lld", d, 'a' + (k & 15), (long long)k * 1000003); break;
            case 3: en = asprintf(&e, "%*s", (int)n, "x"); rc = stringbuilder_appendf(sb, "%*s", (int)n, "x"); break;
            default: en = asprintf(&e, "%.*s%zu", (int)(n / 2), s, n); rc = stringbuilder_appendf(sb, "%.*s%zu", (int)(n / 2), s, n); break; }
            VP_CHECK((rc == 0) == (en > 0), "sb.result", "appendf of %d characters answered %d", en, rc); m_app(e, (size_t)en); free(e); }
        else if (w < 89) { op = "appendf-unformattable"; wchar_t bad[] = {0x7fffffff, 0}; vp_trace("appendf unformattable"); rc = stringbuilder_appendf(sb, "%ls", bad); VP_CHECK(rc != 0, "sb.result", "appendf of an unformattable text answered success"); vp_count("sb_unformattable", 1); }
        else if (w < 93) { op = "nulls"; VP_CHECK(stringbuilder_appendstr(sb, NULL) != 0 && stringbuilder_appendnstr(sb, NULL, 3) != 0 && stringbuilder_appendstr(NULL, "x") != 0 && stringbuilder_appendchar(NULL, 'c') != 0 && stringbuilder_clear(NULL) != 0, "sb.null", "NULL accepted"); }
        else { op = "clear"; vp_trace("clear"); VP_CHECK(stringbuilder_clear(sb) == 0, "sb.result", "clear failed"); sl = 0; S[0] = 0; vp_count("sb_clears", 1); }
        free(s);
        sb_check(sb, op); h = vp_mix(h, w * 65536 + sl); if (sl > 128) grown = 1;
        vp_seen(vp_mix(w / 8, sl > 300 ? 300 : sl));
    }
    stringbuilder_destroy(&sb); VP_CHECK(!sb, "sb.destroy", "handle not cleared"); stringbuilder_destroy(&sb); stringbuilder_destroy(NULL); free(S);
    vp_count("sb_operations", (uint64_t)ops); if (grown) { vp_nontrivial(); vp_count("sb_grown", 1); } vp_case_mix(h);
    if (vp_want_sample()) vp_sample("string builder: initial %zu, %d operations, final length %zu", init, ops, sl);
}
/* lengths beyond 2^16 elements and 2^24 characters */
static void m_scale(void) {
    { /* few large elements: the first storage and the grown ones exceed 2^16, 2^20 and 2^24 bytes */
        size_t es = 1 + vp_below(vp_chance(1, 2) ? 3000000 : 70000), ic = vp_below(12), cnt = ic + 3 + vp_below(10); uint8_t* e = malloc(es); array_t* a = array_new_with_init_capacity(es, ic); VP_CHECK(a, "array.create", "NULL");
        for (size_t i = 0; i < cnt; i++) { memset(e, (int)(i * 37 + 5), es); e[0] = (uint8_t)i; e[es - 1] = (uint8_t)(i + 100); VP_CHECK(array_append_ptr(a, e), "array.append", "element %zu of %zu bytes refused", i, es); vp_beat();
            for (size_t k = 0; k <= i; k++) { const uint8_t* g = array_at(a, k); bool ok = g[es - 1] == (uint8_t)(k + 100) && (es == 1 || g[0] == (uint8_t)k); for (size_t j = 1; ok && j + 1 < es; j += 1 + es / 64) ok = g[j] == (uint8_t)(k * 37 + 5); VP_CHECK(ok, "array.content", "element %zu of %zu bytes changed after %zu", k, es, i + 1); } }
        VP_CHECK(array_length(a) == cnt, "array.length", "%zu of %zu", array_length(a), cnt); array_free(a); free(e); }
    { /* limits far beyond the text */
        stringbuilder_t* sb = stringbuilder_create(0); VP_CHECK(sb, "sb.create", "NULL"); for (int k = 5; k < 64; k++) { VP_CHECK(stringbuilder_appendnstr(sb, "limit", (size_t)1 << k) == 0, "sb.result", "limit 2^%d refused", k); VP_CHECK(stringbuilder_len(sb) == (size_t)(k - 4) * 5, "sb.length", "length %zu after limit 2^%d", stringbuilder_len(sb), k); }
        VP_CHECK(stringbuilder_appendnstr(sb, "limit", SIZE_MAX) == 0 && stringbuilder_len(sb) == 300, "sb.result", "limit SIZE_MAX refused"); stringbuilder_destroy(&sb); }
    size_t N = 70000 + vp_below(3000000); array_t* a = vp_chance(1, 2) ? array_new(4) : array_new_with_init_capacity(4, vp_below(70000)); VP_CHECK(a, "array.create", "NULL"); uint32_t k = (uint32_t)vp_rand() | 1;
    for (size_t i = 0; i < N; i++) { VP_CHECK(array_append_value(a, (uint32_t)i * k), "array.append", "refused at %zu", i); if (!(i & 0xffff)) vp_beat(); }
    VP_CHECK(array_length(a) == N, "array.length", "%zu of %zu", array_length(a), N); for (size_t i = 0; i < N; i++) if (*(uint32_t*)array_at(a, i) != (uint32_t)i * k) vp_fail("array.content", "element %zu of %zu changed", i, N); VP_CHECK(!memcmp(array_ptr(a), array_at(a, 0), N * 4), "array.ptr", "array_ptr is not the elements"); array_free(a); vp_beat();
    size_t want = (1u << 24) + vp_below(1u << 22), n = 0; char* m = malloc(want + (2u << 20)); stringbuilder_t* sb = stringbuilder_create(vp_below(100)); VP_CHECK(sb, "sb.create", "NULL"); char* p = malloc((1u << 20) + 1); for (size_t i = 0; i < 1u << 20; i++) p[i] = (char)('!' + (i * 7 + k) % 90); p[1u << 20] = 0;
    while (n < want) { size_t l = vp_chance(1, 20) ? 1u << 20 : vp_below(60000); int w = (int)vp_below(3), rc; const char* s = p + (1u << 20) - l; vp_beat();
        rc = w == 0 ? stringbuilder_appendstr(sb, s) : w == 1 ? stringbuilder_appendf(sb, "%s", s) : stringbuilder_appendnstr(sb, s, l); if (l) VP_CHECK(rc == 0, "sb.result", "way %d, %zu characters: answered %d", w, l, rc); memcpy(m + n, s, l); n += l; VP_CHECK(stringbuilder_len(sb) == n, "sb.length", "%zu of %zu", stringbuilder_len(sb), n); }
    const char* t = stringbuilder_to_string(sb); VP_CHECK(!memcmp(t, m, n) && t[n] == 0, "sb.content", "the text of %zu characters changed", n); VP_CHECK(stringbuilder_clear(sb) == 0 && stringbuilder_len(sb) == 0 && !*stringbuilder_to_string(sb), "sb.clear", "not empty"); stringbuilder_destroy(&sb); free(m); free(p); vp_count("large_texts", 1); vp_case_mix(N); vp_nontrivial();
}
static void m_long(void) { lasting = 1; m_sb(); vp_count("long_lives", 1); }
const vp_mode_t vp_modes[] = { {"long", m_long}, {"array", m_array}, {"builder", m_sb}, {"scale", m_scale}, {0} };
