/* C14: key-value parameter strings against a plain map. */
#include "vp.h"
#include "mem/str_params.h"
#include "log/xlog.h"
#include <limits.h>
#include <math.h>
#define MAXK 900
/* whatever earlier calls of the program left in errno means nothing to the next operation */
static void stale(void) { static unsigned n; static const int e[] = { 0, ERANGE, ENOMEM, EINVAL }; errno = e[n++ * 7 / 3 % 4]; }
static struct { char* k; char* v; } m[MAXK]; static int nm; static char delim;
static int find(const char* k) { for (int i = 0; i < nm; i++) if (!strcmp(m[i].k, k)) return i; return -1; }
static void mput(const char* k, const char* v) { int i = find(k); if (i >= 0) { free(m[i].v); m[i].v = strdup(v); } else { m[nm].k = strdup(k); m[nm++].v = strdup(v); } }
static void mdel(const char* k) { int i = find(k); if (i >= 0) { free(m[i].k); free(m[i].v); m[i] = m[--nm]; } }
static void mclear(void) { while (nm) mdel(m[nm - 1].k); }
static void gen(char* o, size_t n, bool key) { const char* set = key ? "abcd._-K 9" : "xyz=0123456789 .:/'\"%s-+eE"; for (size_t i = 0; i < n; i++) { do o[i] = vp_chance(1, 20) ? (char)(1 + vp_below(255)) : set[vp_below(strlen(set))]; while (o[i] == delim || (key && o[i] == '=')); } o[n] = 0; }
static void rkey(char* k) { if (nm && vp_chance(1, 2)) { strcpy(k, m[vp_below((uint64_t)nm)].k);
        if (vp_chance(1, 5)) { size_t n = strlen(k); char x[4]; gen(x, 1, true); unsigned w = (unsigned)vp_below(6);
            if (w > 2 && n > 1) { /* another key with the same hash: neighbours (a, b) and (a + 1, b - 33) weigh the same */
                size_t i = vp_below(n - 1); for (size_t t = 0; t < n - 1; t++, i = (i + 1) % (n - 1)) { int a = (unsigned char)k[i] + 1, b = (unsigned char)k[i + 1] - 33; if (vp_chance(1, 2)) { a -= 2; b += 66; } if (a > 32 && a < 127 && b > 32 && b < 127 && a != delim && b != delim && a != '=' && b != '=') { k[i] = (char)a; k[i + 1] = (char)b; vp_count("colliding_keys", 1); break; } } return; }
            if (w == 0 && n < 300) { k[n] = x[0]; k[n + 1] = 0; } else if (w == 1 && n > 1) k[n - 1] = 0; else if (n) k[vp_below(n)] = x[0]; /* nearly an existing one */ }
        return; } gen(k, vp_chance(1, 15) ? vp_between(20, 300) : vp_between(1, 4), true); }
static void rval(char* v) { gen(v, vp_chance(1, 12) ? 0 : vp_chance(1, 20) ? vp_between(200, 5000) : vp_between(1, 12), false); }
/* the text's pairs by a straightforward reading: pieces between delimiters, first '=' splits, empty pieces and names are no pairs */
static void mparse(const char* s) {
    size_t n = strlen(s), i = 0; char* k = malloc(n + 1); char* v = malloc(n + 1);
    while (i < n) { size_t b = i; while (i < n && s[i] != delim) i++; size_t e = i; if (i < n) i++; if (e == b) continue;
        size_t q = b; while (q < e && s[q] != '=') q++; if (q == b) continue; memcpy(k, s + b, q - b); k[q - b] = 0; size_t vs = q < e ? q + 1 : e; memcpy(v, s + vs, e - vs); v[e - vs] = 0; mput(k, v); }
    free(k); free(v);
}
static void check_key(str_params_ptr p, const char* k) {
    int i = find(k); VP_CHECK(str_params_has_key(p, k) == (i >= 0), "params.has", "has_key(%.40s) disagrees, expected %d", k, i >= 0);
    char tmp[8] = "\x5a\x5a\x5a\x5a\x5a\x5a\x5a"; long l = 0x5a5a; int n = 0x5a5a; double d = 12345.5; float f = 12345.5f;
    if (i < 0) { VP_CHECK(str_params_get_str(p, k, tmp, 8) == -ENOENT && tmp[0] == 0x5a && str_params_get_long(p, k, &l) == -ENOENT && l == 0x5a5a && str_params_get_int(p, k, &n) == -ENOENT && n == 0x5a5a && str_params_get_double(p, k, &d) == -ENOENT && d == 12345.5 && str_params_get_float(p, k, &f) == -ENOENT && f == 12345.5f, "params.missing", "a missing key (%.40s) was answered", k); vp_count("missing_asked", 1); return; }
    const char* v = m[i].v; size_t vn = strlen(v);
    char* o = malloc(vn + 1); memset(o, 0x5a, vn + 1); VP_CHECK(str_params_get_str(p, k, o, vn + 1) >= 0 && !strcmp(o, v), "params.get_str", "value of %.40s is '%.80s', expected '%.80s'", k, o, v); free(o);
    if (vn) { o = malloc(vn); memset(o, 0x5a, vn); VP_CHECK(str_params_get_str(p, k, o, vn) == -ENOMEM && (unsigned char)o[0] == 0x5a, "params.get_str", "a buffer one too small for %.40s was accepted or written", k); free(o); }
    char* e; errno = 0; long wl = strtol(v, &e, 0); int er = errno; bool num = *v && !*e; stale(); int r = str_params_get_long(p, k, &l);
    if (!num) VP_CHECK(r == -EINVAL && l == 0x5a5a, "params.get_long", "'%.60s' is no integer, answered %d", v, r);
    else if (er == ERANGE) { VP_CHECK(r < 0 && l == 0x5a5a, "params.get_long", "'%.60s' is out of range, answered %d (%ld)", v, r, l); vp_count("out_of_range", 1); }
    else { VP_CHECK(r == 0 && l == wl, "params.get_long", "'%.60s' read as %ld (%d)", v, l, r); vp_count("integers_read", 1); }
    r = str_params_get_int(p, k, &n);
    if (!num || er == ERANGE || wl < INT_MIN || wl > INT_MAX) { VP_CHECK(r < 0 && n == 0x5a5a, "params.get_int", "'%.60s' is no int, answered %d (%d)", v, r, n); if (num) vp_count("out_of_range", 1); } else VP_CHECK(r == 0 && n == (int)wl, "params.get_int", "'%.60s' read as %d (%d)", v, n, r);
    double wd = strtod(v, &e); bool dn = *v && !*e; r = str_params_get_double(p, k, &d);
    if (!dn) VP_CHECK(r == -EINVAL && d == 12345.5, "params.get_double", "'%.60s' is no number, answered %d", v, r); else { VP_CHECK(r == 0 && (d == wd || (isnan(d) && isnan(wd))), "params.get_double", "'%.60s' read as %g (%d)", v, d, r); r = str_params_get_float(p, k, &f); VP_CHECK(r == 0 && (f == (float)wd || isnan(wd)), "params.get_float", "'%.60s' read as %g", v, (double)f); vp_count("floats_read", 1); }
}
static void check_all(str_params_ptr p, bool print) {
    for (int i = 0; i < nm; i++) if (nm < 40 || vp_chance(1, 10)) check_key(p, m[i].k);
    char k[400]; rkey(k); check_key(p, k);
    if (!print) return;
    char* s = str_params_to_str(p); VP_CHECK(s, "params.print", "no text"); size_t n = strlen(s), i = 0; int cnt = 0; char* seen = calloc(1, (size_t)nm + 1); bool odd = false;
    if (n) while (i <= n) { size_t b = i; while (i < n && s[i] != delim) i++; size_t e = i++, q = b; while (q < e && s[q] != '=') q++; VP_CHECK(q < e, "params.print", "piece '%.*s' has no '='", (int)(e - b), s + b);
        if (q == b) { odd = true; } char c = s[q]; s[q] = 0; int x = find(s + b); s[q] = c; VP_CHECK(x >= 0 && !seen[x], "params.print", "'%.*s' is %s", (int)(e - b < 60 ? e - b : 60), s + b, x < 0 ? "no entry" : "printed twice"); seen[x] = 1;
        VP_CHECK(strlen(m[x].v) == e - q - 1 && !memcmp(m[x].v, s + q + 1, e - q - 1), "params.print", "value of %.40s printed as '%.*s'", m[x].k, (int)(e - q - 1 < 60 ? e - q - 1 : 60), s + q + 1); cnt++; }
    VP_CHECK(cnt == nm, "params.print", "%d pairs printed, %d entries", cnt, nm);
    if (!odd) { char d[2] = { delim, 0 }; stale(); str_params_ptr q = str_params_create_str(d, s); VP_CHECK(q, "params.reparse", "printed text not parsed"); for (int x = 0; x < nm; x++) if (nm < 40 || vp_chance(1, 5)) check_key(q, m[x].k);
        char* s2 = str_params_to_str(q); VP_CHECK(s2 && strlen(s2) == n, "params.reparse", "parsing the printed text and printing again gives %zu characters instead of %zu", s2 ? strlen(s2) : 0, n); free(s2); str_params_destroy(q); vp_count("reparsed", 1); }
    free(seen); free(s);
}
static void m_params(void) {
    const char* ds[] = { NULL, ";", ",", "&", "\n", "|", " ", ";x" }; const char* dl = ds[vp_below(8)]; delim = dl ? dl[0] : ';'; nm = 0; uint64_t h = (uint64_t)delim;
    xlog_set_min_level(vp_chance(1, 10) ? LOG_LEVEL_VERBOSE : LOG_LEVEL_OFF);
    str_params_ptr p; char k[400], v[5100]; bool from = vp_chance(2, 3); int dup = 0;
    if (from) {
        int pieces = vp_chance(1, 10) ? (int)vp_between(50, 400) : (int)vp_below(14); char* t = malloc((size_t)pieces * 5600 + 8); size_t n = 0;
        for (int i = 0; i < pieces; i++) { unsigned w = (unsigned)vp_below(20); rkey(k); rval(v); if (find(k) >= 0) dup++;
            if (w == 0) k[0] = 0; if (w == 1) n += (size_t)sprintf(t + n, "%s", k); else if (w != 2) n += (size_t)sprintf(t + n, "%s=%s", k, v);
            if (k[0] && w != 2) mput(k, w == 1 ? "" : v); if (i + 1 < pieces || vp_chance(1, 3)) t[n++] = delim; if (vp_chance(1, 15)) t[n++] = delim; }
        t[n] = 0; char* s = malloc(n + 1); memcpy(s, t, n + 1); free(t); vp_trace("parse '%.1500s' by '%c'", s, delim); mclear(); mparse(s); h = vp_hash(s, n, h);
        stale(); p = str_params_create_str(dl, s); VP_CHECK(p, "params.parse", "not parsed"); free(s); vp_count("parsed", 1); vp_count("duplicates", (uint64_t)dup); if (nm > 40) vp_count("large_maps", 1);
    } else p = str_params_create(dl);
    check_all(p, true);
    int ops = (int)vp_below(vp_chance(1, 60) ? 3000 : 40);
    for (int o = 0; o < ops; o++) {
        rkey(k); unsigned w = (unsigned)vp_below(12); int r = 0;
        if (w < 4) { rval(v); vp_trace("add_str %.60s = %.60s", k, v); stale(); r = str_params_add_str(p, k, v); mput(k, v); }
        else if (w < 6) { long x = vp_chance(1, 3) ? (long)vp_rand() : vp_chance(1, 4) ? LONG_MIN : vp_chance(1, 4) ? LONG_MAX : vp_chance(1, 4) ? (long)INT_MAX + 1 : (long)vp_below(2000) - 1000; sprintf(v, "%ld", x); vp_trace("add_long %.60s = %ld", k, x); r = str_params_add_long(p, k, x); mput(k, v); }
        else if (w < 7) { int x = vp_chance(1, 3) ? INT_MIN : (int)vp_rand(); sprintf(v, "%d", x); vp_trace("add_int %.60s = %d", k, x); stale(); r = str_params_add_int(p, k, x); mput(k, v); }
        else if (w < 9) { double x = vp_chance(1, 4) ? ((double)vp_rand() - 9e18) / 1e7 : vp_chance(1, 4) ? 1.7976931348623157e308 : vp_chance(1, 4) ? ldexp(1.1 + vp_below(100), (int)vp_below(900)) : (double)vp_below(1000) / 16.0; if (vp_chance(1, 3)) x = -x; char* big = malloc(400); sprintf(big, "%.10f", x); bool fl = vp_chance(1, 3) && fabs(x) < 1e30; if (fl) sprintf(big, "%.10f", (double)(float)x); vp_trace("add_double %.60s = %s", k, big); r = fl ? str_params_add_float(p, k, (float)x) : str_params_add_double(p, k, x); mput(k, big);
            double y = 0; VP_CHECK(str_params_get_double(p, k, &y) == 0 && fabs(y - (fl ? (double)(float)x : x)) <= 1e-10 + fabs(x) * 1e-15, "params.add_double", "%.17g came back as %.17g", x, y); free(big); vp_count("floats_added", 1); }
        else { vp_trace("del %.60s", k); str_params_del(p, k); mdel(k); vp_count("deleted", 1); }
        VP_CHECK(r == 0, "params.add", "adding %.60s answered %d", k, r); check_key(p, k); vp_count("edits", 1); h = vp_mix(h, w * 1000 + (unsigned)nm); vp_seen(vp_mix((uint64_t)nm, w));
        if (vp_chance(1, ops > 40 ? 150 : 15)) check_all(p, true);
    }
    check_all(p, true); if (vp_chance(1, 10)) str_params_dump(p);
    vp_case_mix(h); if (nm > 2) vp_nontrivial(); if (vp_want_sample()) vp_sample("delimiter '%c', parsed %d, %d edits, %d entries at the end", delim, from, ops, nm);
    str_params_destroy(p); str_params_destroy(NULL); mclear();
}
/* more than 2^16 entries and values of more than 64 KiB */
static void m_scale(void) {
    delim = ';'; int N = (int)vp_between(66000, 70000); size_t cap = (size_t)N * 24 + 700000, n = 0; char* t = malloc(cap), k[40], v[40]; size_t bigl = vp_between(66000, 300000); int bigat = (int)vp_below((uint64_t)N); char* big = malloc(bigl + 1); memset(big, 'q', bigl); big[bigl] = 0; big[bigl / 2] = '=';
    for (int i = 0; i < N; i++) { if (i == bigat) n += (size_t)sprintf(t + n, "big=%s;", big); n += (size_t)sprintf(t + n, "k%d=%d;", i, i * 3 - 7); if (i % 1000 == 0) n += (size_t)sprintf(t + n, "k%d=%d;", i, i + 1); }
    { size_t kl = vp_between(66000, 300000); char* u = malloc(kl + 30); memset(u, 'n', kl); u[vp_below(kl)] = 'm'; u[kl] = 0; char* kk = strdup(u); strcpy(u + kl, "=7;a=8"); str_params_ptr q = str_params_create_str(NULL, u); VP_CHECK(q, "params.parse", "a name of %zu characters not parsed", kl); int y = 0; VP_CHECK(str_params_get_int(q, kk, &y) == 0 && y == 7 && str_params_get_int(q, "a", &y) == 0 && y == 8, "params.get", "the value of a name of %zu characters is lost", kl);
        VP_CHECK(str_params_add_str(q, kk, "9") == 0 && str_params_get_int(q, kk, &y) == 0 && y == 9, "params.add", "a name of %zu characters", kl); kk[kl - 1] = 'x'; VP_CHECK(!str_params_has_key(q, kk) && str_params_add_int(q, kk, 5) == 0, "params.has", "another name of %zu characters", kl); kk[kl - 1] = 'n'; VP_CHECK(str_params_get_int(q, kk, &y) != 0 || y == 9, "params.get", "names of %zu characters mixed up", kl); str_params_destroy(q); free(kk); free(u); vp_beat(); }
    str_params_ptr p = str_params_create_str(NULL, t); VP_CHECK(p, "params.parse", "%zu characters not parsed", n); vp_beat(); int x;
    for (int round = 0; round < 2; round++) {
        for (int i = 0; i < N; i++) { snprintf(k, sizeof k, "k%d", i); VP_CHECK(str_params_get_int(p, k, &x) == 0 && x == (i % 1000 ? i * 3 - 7 : i + 1), "params.get", "%s of %d entries lost or wrong", k, N); if (!(i & 0xfff)) vp_beat(); }
        char* o = malloc(bigl + 1); VP_CHECK(str_params_get_str(p, "big", o, bigl) == -ENOMEM && str_params_get_str(p, "big", o, bigl + 1) >= 0 && !strcmp(o, big), "params.get_str", "value of %zu characters", bigl); free(o);
        if (round) break; char* s = str_params_to_str(p); VP_CHECK(s, "params.print", "no text"); vp_beat(); size_t semis = 0, sl = strlen(s); for (size_t i = 0; i < sl; i++) semis += s[i] == ';'; VP_CHECK(semis == (size_t)N || semis == (size_t)N + 1, "params.print", "%zu delimiters for %d entries", semis, N + 1);
        str_params_destroy(p); p = str_params_create_str(";", s); VP_CHECK(p, "params.reparse", "printed text not parsed"); free(s); vp_beat(); }
    for (int i = 0; i < N; i += 2) { snprintf(k, sizeof k, "k%d", i); str_params_del(p, k); if (!(i & 0xffe)) vp_beat(); } for (int i = 0; i < N; i++) { snprintf(k, sizeof k, "k%d", i); VP_CHECK(str_params_has_key(p, k) == (i & 1), "params.del", "%s after deleting half", k); if (!(i & 0xfff)) vp_beat(); }
    (void)v; str_params_destroy(p); free(t); free(big); vp_count("entries_at_once", (uint64_t)N); vp_count("large_maps", 1); vp_case_mix(vp_mix((uint64_t)N, bigl)); vp_nontrivial();
}
const vp_mode_t vp_modes[] = { {"params", m_params}, {"scale", m_scale}, {0} };
