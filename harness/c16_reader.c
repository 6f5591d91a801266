/* C16: the streaming INI reader against a straightforward reading of the grammar. */
#include "vp.h"
#include "file/ini_reader.h"
#include <ctype.h>
typedef struct { char* b; size_t n, cap; int calls; uint64_t refuse; } log_t;
static void put(log_t* l, const char* s, size_t n) { if (l->n + n + 1 > l->cap) l->b = realloc(l->b, l->cap = (l->n + n + 1) * 2); memcpy(l->b + l->n, s, n); l->n += n; }
static void puts_(log_t* l, const char* s) { put(l, s, strlen(s) + 1); }
static int say(log_t* l, const char* s, const char* n, const char* v) { puts_(l, s); puts_(l, n); puts_(l, v ? v : "\1none"); put(l, "\n", 1); int k = l->calls++; return !(k < 64 && (l->refuse >> k & 1)); }
static int cb(void* u, const char* s, const char* n, const char* v) { VP_CHECK(s && n, "reader.null", "handler called with section %p name %p", (const void*)s, (const void*)n); return say(u, s, n, v) ? vp_nonzero(vp_below(10)) : 0; }
/* the grammar, line by line on copies */
static char* trim(char* s) { while (*s && isspace((unsigned char)*s)) s++; size_t n = strlen(s); while (n && isspace((unsigned char)s[n - 1])) s[--n] = 0; return s; }
static char* comment(char* s) { for (char* p = s; *p; p++) if (*p == ';' && p > s && isspace((unsigned char)p[-1])) return p; return NULL; } /* inline comment: ';' after white space */
static int ref(const char* t, size_t n, log_t* l) {
    char section[50] = "", prev[50] = ""; int line = 0, err = 0; size_t i = 0;
    while (i < n) {
        size_t b = i; while (i < n && t[i] != '\n') i++; size_t e = i; if (i < n) i++; line++;
        size_t len = e - b, keep = len > 199 ? 199 : len; bool over = false; for (size_t k = keep; k < len; k++) if (t[b + k] != '\r') over = true;
        char* raw = malloc(keep + 1); memcpy(raw, t + b, keep); raw[keep] = 0; char* s = raw; if (line == 1 && !strncmp(s, "\xef\xbb\xbf", 3)) s += 3;
        bool bom = s != raw; s = trim(s); bool indented = s > raw; (void)bom;
        if (over && *s && *s != ';' && *s != '#' && !err) err = line;
        if (!*s || *s == ';' || *s == '#') ;
        else if (*prev && indented) { char* c = comment(s); if (c) *c = 0; s = trim(s); if (!say(l, section, prev, s) && !err) err = line; }
        else if (*s == '[') { char* c = comment(s + 1); char* q = strchr(s + 1, ']'); if (q && (!c || q < c)) { *q = 0; snprintf(section, sizeof section, "%s", s + 1); prev[0] = 0; } else if (!err) err = line; }
        else { char* c = comment(s); char* q = s + strcspn(s, "=:"); if (!*q) q = NULL;
            if (q && (!c || q < c)) { *q = 0; char* v = q + 1; c = comment(v); if (c) *c = 0; v = trim(v); char* nm = trim(s); snprintf(prev, sizeof prev, "%s", nm); if (!say(l, section, nm, v) && !err) err = line; }
            else { if (c) *c = 0; s = trim(s); if (!say(l, section, s, NULL) && !err) err = line; } }
        free(raw);
    }
    return err;
}
typedef struct { const char* p; size_t n, i; } mem_t;
static char* mem_reader(char* s, int num, void* u) { /* fgets over memory that uses every byte it was given */
    mem_t* m = u; VP_CHECK(num >= 2, "reader.num", "asked for %d", num); if (m->i >= m->n) return NULL; memset(s, 0x7e, (size_t)num); int k = 0; while (k < num - 1 && m->i < m->n) { s[k++] = m->p[m->i++]; if (s[k - 1] == '\n') break; } s[k] = 0; return s; }
static void show(const log_t* a, char* o, size_t cap) { size_t k = 0; for (size_t i = 0; i < a->n && k + 5 < cap; i++) o[k++] = a->b[i] ? (a->b[i] < 32 && a->b[i] != '\n' ? '?' : a->b[i]) : '|'; o[k] = 0; }
static void same(const log_t* a, const log_t* b, int ra, int rb, const char* what) {
    size_t d = 0; while (d < a->n && d < b->n && a->b[d] == b->b[d]) d++;
    if (d < a->n || d < b->n) { size_t s = d > 60 ? d - 60 : 0; char x[400], y[400]; log_t p = { a->b + s, a->n - s < 300 ? a->n - s : 300 }, q = { b->b + s, b->n - s < 300 ? b->n - s : 300 }; show(&p, x, sizeof x); show(&q, y, sizeof y); vp_fail("reader.triples", "%s: calls differ (%d and %d calls) near: <<%s>> expected <<%s>>", what, a->calls, b->calls, x, y); }
    VP_CHECK(ra == rb, "reader.line", "%s: returned %d, expected %d", what, ra, rb);
}
static size_t gen(char* t, size_t cap) {
    size_t n = 0; int lines = (int)vp_between(0, vp_chance(1, 12) ? 80 : 14); int style = (int)vp_below(4);
    if (vp_chance(1, 6)) n += (size_t)sprintf(t + n, "\xef\xbb\xbf"); if (vp_chance(1, 30)) n += (size_t)sprintf(t + n, "\xef\xbb");
    static const char* ws[] = { "", " ", "\t", "  ", "\v", " \t", "\r" };
    for (int i = 0; i < lines && n + 3000 < cap; i++) {
        char w1[2200], w2[2200]; size_t a = vp_chance(1, 14) ? vp_between(45, 55) : vp_chance(1, 14) ? vp_between(185, 206) : vp_chance(1, 30) ? vp_between(390, 410) : vp_chance(1, 40) ? vp_between(700, 2000) : vp_below(8), b = vp_chance(1, 14) ? vp_between(180, 205) : vp_below(12);
        static const char set[] = "abcdefgh ijkXYZ0123;#[]=: \t\"'"; int lim = style == 0 ? 12 : style == 1 ? 20 : 30;
        for (size_t k = 0; k < a; k++) w1[k] = vp_chance(1, 60) ? (char)(128 + vp_below(128)) : set[vp_below((uint64_t)lim)]; w1[a] = 0; for (size_t k = 0; k < b; k++) w2[k] = set[vp_below((uint64_t)(style == 3 ? 30 : lim))]; w2[b] = 0;
        const char* nl = vp_chance(1, 2) ? "\n" : vp_chance(1, 3) ? "\r\n" : vp_chance(1, 12) ? "\r\r\n" : "\n"; if (i + 1 == lines && vp_chance(1, 2)) nl = "";
        if (vp_chance(1, 25)) { n += (size_t)sprintf(t + n, "\xef\xbb\xbf"); vp_count("marks_inside", 1); } /* a mark counts at the very start only */
        switch (vp_below(11)) {
        case 0: n += (size_t)sprintf(t + n, "%s[%s]%s%s", ws[vp_below(vp_chance(1, 4) ? 7 : 1)], w1, vp_chance(1, 4) ? " ; c" : "", nl); break;
        case 1: n += (size_t)sprintf(t + n, "%c%s%s", vp_chance(1, 2) ? ';' : '#', w1, nl); break;
        case 2: n += (size_t)sprintf(t + n, "%s%s%s", ws[1 + vp_below(6)], w1, nl); break; /* continuation */
        case 3: n += (size_t)sprintf(t + n, "%s%s", ws[vp_below(7)], nl); break;
        case 4: n += (size_t)sprintf(t + n, "%s%s", w1, nl); break;
        case 5: n += (size_t)sprintf(t + n, "[%s%s", w1, nl); break;
        default: n += (size_t)sprintf(t + n, "%s%s%s%c%s%s%s%s", ws[vp_below(vp_chance(1, 5) ? 7 : 1)], w1, ws[vp_below(7)], vp_chance(1, 3) ? ':' : '=', ws[vp_below(7)], w2, vp_chance(1, 5) ? " ;note" : "", nl);
        }
    }
    if (vp_chance(1, 3)) for (int k = 1 + (int)vp_below(4); k && n; k--) { size_t p = vp_below(n); t[p] = vp_chance(1, 3) ? '\n' : (char)(1 + vp_below(255)); }
    return n;
}
static int via_file(const char* t, size_t n, log_t* l, bool name) {
    char path[300]; snprintf(path, sizeof path, "%s/r.ini", vp_scratch()); FILE* f = fopen(path, "wb"); if (n) fwrite(t, 1, n, f); fclose(f); if (name) return ini_reader_parse(path, cb, l);
    f = fopen(path, "r"); int r = ini_reader_parse_file(f, cb, l); VP_CHECK(feof(f), "reader.file", "not read to the end"); fclose(f); return r;
}
static void m_grammar(void) {
    static char t[60000]; size_t n = gen(t, sizeof t); uint64_t refuse = vp_chance(1, 3) ? 1ull << vp_below(20) | (vp_chance(1, 2) ? 1ull << vp_below(40) : 0) : 0; t[n] = 0; n = strlen(t);
    vp_trace("%zu bytes: %.1800s", n, t); char* s = malloc(n + 1); memcpy(s, t, n + 1);
    log_t want = { .refuse = refuse }, got = { .refuse = refuse }; int rw = ref(t, n, &want);
    int r = ini_reader_parse_string(s, cb, &got); same(&got, &want, r, rw, "from memory"); VP_CHECK(!memcmp(s, t, n + 1), "reader.input", "input changed"); free(s);
    char* ex = malloc(n ? n : 1); memcpy(ex, t, n); mem_t m = { ex, n, 0 }; log_t g2 = { .refuse = refuse }; r = ini_reader_parse_stream(mem_reader, &m, cb, &g2); same(&g2, &want, r, rw, "from a reader"); free(ex); free(g2.b);
    int fds = vp_count_fds(); bool byname = vp_chance(1, 2); log_t g3 = { .refuse = refuse }; r = via_file(t, n, &g3, byname); same(&g3, &want, r, rw, byname ? "from a file name" : "from a stream"); free(g3.b); VP_CHECK(vp_count_fds() == fds, "reader.fd", "a file handle was left behind");
    uint64_t h = vp_hash(t, n, refuse); vp_case_mix(h); if (want.calls) vp_nontrivial(); vp_seen(vp_mix((uint64_t)want.calls, (uint64_t)rw)); vp_count("triples", (uint64_t)want.calls); vp_count("texts", 1); if (rw) vp_count("malformed_or_refused", 1); if (refuse) vp_count("refusals", 1);
    size_t ll = 0; for (size_t i = 0; i <= n; i++) { if (i == n || t[i] == '\n') { if (ll >= 195 && ll <= 199) vp_count("lines_at_the_limit", 1); if (ll > 199) vp_count("lines_too_long", 1); ll = 0; } else ll++; }
    for (size_t i = 0; i + 2 < want.n; i++) if (want.b[i] == 1) { vp_count("names_without_value", 1); break; }
    if (vp_want_sample()) vp_sample("%zu bytes, %d handler calls, result %d", n, want.calls, rw);
    free(want.b); free(got.b);
}
static void m_binary(void) { /* any bytes, NULs too: no step outside the buffers, the two file ways agree */
    static char t[70000]; size_t n; int kind = (int)vp_below(4);
    if (kind == 0) { n = vp_below(600); for (size_t i = 0; i < n; i++) t[i] = (char)vp_rand(); } else if (kind == 1) { n = vp_between(1000, 60000); char c = "a =[;\0\xef]\n\t"[vp_below(10)]; memset(t, c, n); for (int k = 0; k < 20; k++) t[vp_below(n)] = (char)vp_rand(); }
    else { n = gen(t, 60000); for (int k = (int)vp_below(6); k > 0 && n; k--) t[vp_below(n)] = 0; if (kind == 3) for (int k = (int)vp_below(60); k > 0 && n; k--) t[vp_below(n)] = (char)vp_rand(); }
    log_t a = {0}, b = {0}, c = {0}, d = {0}; int ra = via_file(t, n, &a, true), rb = via_file(t, n, &b, false); same(&a, &b, ra, rb, "file name and stream"); char* ex = malloc(n ? n : 1); memcpy(ex, t, n); mem_t m = { ex, n, 0 }; int rc = ini_reader_parse_stream(mem_reader, &m, cb, &c); same(&c, &a, rc, ra, "reader and file"); free(ex);
    char* s = malloc(n + 1); memcpy(s, t, n); s[n] = 0; int rd = ini_reader_parse_string(s, cb, &d); log_t w = {0}; int rw = ref(s, strlen(s), &w); same(&d, &w, rd, rw, "memory up to the terminator"); free(s);
    vp_case_mix(vp_hash(t, n, 3)); if (n > 10) vp_nontrivial(); vp_count("binary_inputs", 1); free(a.b); free(b.b); free(c.b); free(d.b); free(w.b);
}
static void m_misc(void) { char p[300]; snprintf(p, sizeof p, "%s/none", vp_scratch()); log_t l = {0}; VP_CHECK(ini_reader_parse(p, cb, &l) == -1 && !l.calls, "reader.open", "a missing file"); VP_CHECK(ini_reader_parse_string("", cb, &l) == 0 && !l.calls, "reader.empty", "empty text"); vp_case_mix(vp_case); vp_nontrivial(); }
/* line numbers beyond 2^16 and texts beyond 1 MB */
static void m_scale(void) {
    size_t lines = vp_between(66000, 140000); char* t = malloc(lines * 24 + 4000); size_t n = 0; size_t errat = vp_chance(3, 4) ? vp_between(65530, lines) : 0; int kinds = (int)vp_between(1, 5); char word[24];
    for (size_t i = 1; i <= lines; i++) { if (i == errat) { n += (size_t)sprintf(t + n, "[unclosed\n"); continue; } if (i % 5000 == 0) { n += (size_t)sprintf(t + n, "[s%zu]\n", i); continue; } snprintf(word, sizeof word, "%zu", i); switch (vp_below((uint64_t)kinds)) { case 0: n += (size_t)sprintf(t + n, "\n"); break; case 1: n += (size_t)sprintf(t + n, "k%s=%s\n", word, word); break; case 2: n += (size_t)sprintf(t + n, " more%s\n", word); break; case 3: n += (size_t)sprintf(t + n, "; %s\r\n", word); break; default: n += (size_t)sprintf(t + n, "n%s\n", word); } }
    t[n] = 0; log_t want = {0}, got = {0}; vp_beat(); int rw = ref(t, n, &want); VP_CHECK(!errat || rw > 0, "reader.ref", "no error expected"); vp_beat();
    int way = (int)vp_below(3), r; if (way == 0) r = ini_reader_parse_string(t, cb, &got); else if (way == 1) { mem_t m = { t, n, 0 }; r = ini_reader_parse_stream(mem_reader, &m, cb, &got); } else r = via_file(t, n, &got, vp_chance(1, 2)); vp_beat();
    same(&got, &want, r, rw, "long text"); vp_count("long_texts", 1); vp_count("triples", (uint64_t)want.calls); vp_case_mix(vp_mix(n, errat)); vp_nontrivial(); free(want.b); free(got.b); free(t);
}
const vp_mode_t vp_modes[] = { {"grammar", m_grammar}, {"binary", m_binary}, {"misc", m_misc}, {"scale", m_scale}, {0} };
