/* C15: the INI store against a plain ordered two-level map. */
#include "vp.h"
#include "file/ini_parser.h"
#include <limits.h>
#include <ctype.h>
#include <math.h>
#include <strings.h>
#include <sys/stat.h>
typedef struct { char* k; char* v; } ent_t;
typedef struct { char* name; ent_t* e; int n, cap; } sec_t;
static sec_t S[700]; static int ns;
static int fs(const char* s) { for (int i = 0; i < ns; i++) if (!strcasecmp(S[i].name, s)) return i; return -1; }
static int fk(int s, const char* k) { for (int i = 0; i < S[s].n; i++) if (!strcasecmp(S[s].e[i].k, k)) return i; return -1; }
static void mput(const char* s, const char* k, const char* v) {
    int i = fs(s); if (i < 0) { i = ns++; S[i] = (sec_t){ strdup(s), NULL, 0, 0 }; }
    int j = fk(i, k); if (j >= 0) { free(S[i].e[j].v); S[i].e[j].v = strdup(v); return; }
    if (S[i].n == S[i].cap) S[i].e = realloc(S[i].e, sizeof(ent_t) * (size_t)(S[i].cap = S[i].cap * 2 + 4)); S[i].e[S[i].n++] = (ent_t){ strdup(k), strdup(v) };
}
static void mdelk(int s, int k) { free(S[s].e[k].k); free(S[s].e[k].v); memmove(&S[s].e[k], &S[s].e[k + 1], sizeof(ent_t) * (size_t)(S[s].n - k - 1)); S[s].n--; }
static void mdels(int s) { while (S[s].n) mdelk(s, S[s].n - 1); free(S[s].e); free(S[s].name); memmove(&S[s], &S[s + 1], sizeof(sec_t) * (size_t)(ns - s - 1)); ns--; }
static void mclear(void) { while (ns) mdels(ns - 1); }
static int total(void) { int t = 0; for (int i = 0; i < ns; i++) t += S[i].n; return t; }
static bool text_ok(const char* s, bool name) { size_t n = strlen(s); if (!n) return !name; if (isspace((unsigned char)s[0]) || isspace((unsigned char)s[n - 1])) return false; for (size_t i = 0; i < n; i++) { if (s[i] == '\n' || s[i] == '\r' || (s[i] == ';' && i && isspace((unsigned char)s[i - 1]))) return false; if (name && strchr("=:]", s[i])) return false; } if (name && strchr("[;#\xef", s[0])) return false; return true; }
static bool value_ok(const char* s) { return text_ok(s, false) && s[0] != 0x3b; } /* a value that begins with a semicolon reads as a comment */
static bool representable(void) { for (int i = 0; i < ns; i++) { if (!text_ok(S[i].name, true) || strlen(S[i].name) > 49) return false; for (int j = 0; j < S[i].n; j++) if (!text_ok(S[i].e[j].k, true) || !value_ok(S[i].e[j].v) || strlen(S[i].e[j].k) + strlen(S[i].e[j].v) + 5 > 198) return false; } return true; }
static void flip(char* s) { for (; *s; s++) if (vp_chance(1, 3)) *s = (char)(islower((unsigned char)*s) ? toupper((unsigned char)*s) : tolower((unsigned char)*s)); }
static void word(char* o, size_t n) { static const char set[] = "abcABC12_.-x y"; for (size_t i = 0; i < n; i++) o[i] = (i == 0 || i + 1 == n) ? set[vp_below(12)] : set[vp_below(14)]; o[n] = 0; }
/* a name that differs from an existing one in one place only: a longer or shorter one, another first, middle or last character */
static void near(char* s, size_t max) { static const char set[] = "abcABC12_.-x"; size_t n = strlen(s); unsigned w = (unsigned)vp_below(4);
    if (w == 0 && n < max) { s[n] = set[vp_below(12)]; s[n + 1] = 0; } else if (w == 1 && n > 1) { s[n - 1] = 0; if (s[n - 2] == ' ') s[n - 2] = 'b'; } else s[w == 2 ? n - 1 : vp_below(n)] = set[vp_below(12)];
    vp_count("near_names", 1); }
static void rsec(char* s) { if (ns && vp_chance(1, 8)) { strcpy(s, S[vp_below((uint64_t)ns)].name); near(s, 63); } else if (ns && vp_chance(3, 4)) { strcpy(s, S[vp_below((uint64_t)ns)].name); flip(s); } else word(s, vp_chance(1, 8) ? vp_between(10, 63) : vp_between(1, 3)); }
static void rkey(char* k, const char* sec) { int i = fs(sec); if (i >= 0 && S[i].n && vp_chance(1, 10)) { strcpy(k, S[i].e[vp_below((uint64_t)S[i].n)].k); near(k, 255); } else if (i >= 0 && S[i].n && vp_chance(3, 5)) { strcpy(k, S[i].e[vp_below((uint64_t)S[i].n)].k); flip(k); } else word(k, vp_chance(1, 15) ? vp_between(50, 255) : vp_between(1, 4)); }
static void rval(char* v, bool plain) {
    unsigned w = (unsigned)vp_below(14);
    if (w == 0) v[0] = 0; else if (w == 1) sprintf(v, "%lld", (long long)vp_rand()); else if (w == 2) sprintf(v, "%d", (int)vp_rand()); else if (w == 3) sprintf(v, "0x%x", (unsigned)vp_rand()); else if (w == 4) sprintf(v, "%.6g", ((double)vp_rand() - 9e18) / 1e12);
    else if (w == 5) { static const char* ws[] = { "true", "TRUE", "false", "False", "yes", "YES", "no", "No", "0", "1", "4294967296", "maybe", "-1", "99999999999999999999", "2147483648", "-2147483649", "077", "12a", "1e400", "off" }; strcpy(v, ws[vp_below(20)]); }
    else if (w == 6 && !plain) { size_t n = vp_below(256); for (size_t i = 0; i < n; i++) v[i] = (char)(1 + vp_below(255)); v[n] = 0; }
    else if (w == 7) word(v, vp_between(100, plain ? 130 : 255)); else { word(v, vp_between(1, 20)); if (vp_chance(1, 3)) { size_t n = strlen(v); strcpy(v + n, vp_chance(1, 2) ? "=x:y" : "%s[a]#b"); } }
}
static ini_parser_handle P;
typedef struct { int s, k, seen, stop; int extra; bool ordered; } walk_t;
static int visit(const char* s, const char* k, const char* v, const void* u) {
    walk_t* w = (walk_t*)u; while (w->s < ns && w->k >= S[w->s].n) { w->s++; w->k = 0; }
    VP_CHECK(!(w->stop && w->seen >= w->stop), "ini.foreach_stop", "an entry is visited after the visitor asked to stop");
    VP_CHECK(w->s < ns, "ini.foreach", "more entries than %d are visited: [%.40s] %.40s", total(), s, k);
    VP_CHECK(!strcmp(s, S[w->s].name) && !strcmp(k, S[w->s].e[w->k].k) && !strcmp(v, S[w->s].e[w->k].v), "ini.foreach", "entry %d is [%.40s] %.40s = %.60s, expected [%.40s] %.40s = %.60s", w->seen, s, k, v, S[w->s].name, S[w->s].e[w->k].k, S[w->s].e[w->k].v);
    w->k++; w->seen++; return w->stop && w->seen >= w->stop ? vp_nonzero((uint64_t)w->stop * 7 + (uint64_t)ns) : 0;
}
static void walk(ini_parser_handle p, const char* what) {
    walk_t w = {0}; VP_CHECK(ini_parser_foreach(p, visit, &w) == INI_PARSER_CODE_SUCCEED, "ini.foreach", "refused"); VP_CHECK(w.seen == total(), "ini.foreach", "%s: %d of %d entries visited", what, w.seen, total());
    if (w.seen > 1 && p == P) { walk_t q = {0}; q.stop = 1 + (int)vp_below((uint64_t)total()); ini_parser_foreach(p, visit, &q); VP_CHECK(q.seen == q.stop, "ini.foreach_stop", "stop after %d, visited %d", q.stop, q.seen); vp_count("traversals_stopped", 1); }
}
static void get_all(const char* s, const char* k) {
    int i = fs(s), j = i < 0 ? -1 : fk(i, k);
    VP_CHECK(ini_parser_has_section(P, s) == (i < 0 ? INI_PARSER_CODE_NOT_FOUND_SECTION_KEY : INI_PARSER_CODE_SUCCEED), "ini.has", "has_section(%.40s), expected %d", s, i >= 0);
    VP_CHECK(ini_parser_has_section_key(P, s, k) == (j < 0 ? INI_PARSER_CODE_NOT_FOUND_SECTION_KEY : INI_PARSER_CODE_SUCCEED), "ini.has", "has [%.40s] %.40s, expected %d", s, k, j >= 0);
    char b[300]; memset(b, 0x5a, sizeof b); int n = 0; long l = 0; long long ll = 0; double d = 0; float f = 0; bool t = false;
    if (j < 0) { VP_CHECK(ini_parser_get_string(P, s, k, b, 300) == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY && b[0] == 0x5a && ini_parser_get_int(P, s, k, &n) == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY && ini_parser_get_bool(P, s, k, &t) == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "ini.missing", "missing [%.40s] %.40s was answered", s, k); vp_count("missing_asked", 1); return; }
    const char* v = S[i].e[j].v; size_t vn = strlen(v); char* o = malloc(vn + 1);
    VP_CHECK(ini_parser_get_string(P, s, k, o, vn + 1) == INI_PARSER_CODE_SUCCEED && !strcmp(o, v), "ini.get", "[%.40s] %.40s is '%.80s', expected '%.80s'", s, k, o, v); free(o);
    if (vn) { o = malloc(vn); o[0] = 0x5a; VP_CHECK(ini_parser_get_string(P, s, k, o, vn) == INI_PARSER_CODE_NO_ENOUGH_MEMORY && o[0] == 0x5a, "ini.get", "a buffer one too small for [%.40s] %.40s was accepted", s, k); free(o); }
    char* e; errno = 0; long long w = strtoll(v, &e, 0); bool num = *v && !*e && errno != ERANGE;
    int r = ini_parser_get_long_long(P, s, k, &ll); VP_CHECK(num ? r == 0 && ll == w : r != 0, "ini.get_number", "long long of '%.60s' is %lld (%d)", v, ll, r);
    r = ini_parser_get_long(P, s, k, &l); VP_CHECK(num ? r == 0 && l == (long)w : r != 0, "ini.get_number", "long of '%.60s' is %ld (%d)", v, l, r);
    r = ini_parser_get_int(P, s, k, &n); VP_CHECK(num && w >= INT_MIN && w <= INT_MAX ? r == 0 && n == (int)w : r != 0, "ini.get_number", "int of '%.60s' is %d (%d)", v, n, r);
    if (num) vp_count(w >= INT_MIN && w <= INT_MAX ? "ints_read" : "ints_out_of_range", 1);
    double wd = strtod(v, &e); bool fl = *v && !*e; r = ini_parser_get_double(P, s, k, &d); VP_CHECK(fl ? r == 0 && (d == wd || isnan(wd)) : r != 0, "ini.get_number", "double of '%.60s' is %g (%d)", v, d, r);
    r = ini_parser_get_float(P, s, k, &f); VP_CHECK(fl ? r == 0 && (f == strtof(v, NULL) || isnan(wd)) : r != 0, "ini.get_number", "float of '%.60s' is %g (%d)", v, (double)f, r);
    r = ini_parser_get_bool(P, s, k, &t); int wb = !strcasecmp(v, "true") || !strcasecmp(v, "yes") ? 1 : !strcasecmp(v, "false") || !strcasecmp(v, "no") ? 0 : num ? w != 0 : -1;
    if (wb >= 0) { VP_CHECK(r == 0 && t == wb, "ini.get_bool", "bool of '%.60s' is %d (%d)", v, t, r); vp_count("bools_read", 1); } else if (strncasecmp(v, "true", 4) && strncasecmp(v, "false", 5) && strncasecmp(v, "yes", 3) && strncasecmp(v, "no", 2)) VP_CHECK(r != 0, "ini.get_bool", "'%.60s' was read as bool %d", v, t);
}
static void reparsed(ini_parser_handle q, const char* how) { VP_CHECK(q, "ini.roundtrip", "%s: what was written is not parsed", how); walk(q, how); VP_CHECK(ini_parser_destroy(&q) == 0 && !q, "ini.destroy", "destroy"); vp_count("roundtrips", 1); }
static void persist(void) {
    char* d = ini_parser_dump(P); VP_CHECK(d, "ini.dump", "nothing dumped"); size_t n = strlen(d); bool rep = representable(); int fds = vp_count_fds();
    if (rep && total()) { vp_trace("dump %zu", n); ini_parser_handle q = ini_parser_parse_str(d); reparsed(q, "dump"); }
    else if (n) { ini_parser_handle q = ini_parser_parse_str(d); if (q) ini_parser_destroy(&q); vp_count("odd_dumps", 1); }
    /* into memory: too small is refused, what is accepted is the dump */
    size_t cap = n ? vp_below(n + 1) : 0; char* m = malloc(cap ? cap : 1); size_t c = cap; VP_CHECK(ini_parser_dump_to_mem(P, m, &c) != INI_PARSER_CODE_SUCCEED && c == cap, "ini.dump_mem", "dump of %zu + 1 bytes into %zu accepted", n, cap); free(m); vp_count("dump_too_small", 1);
    cap = n + 1; for (int tries = 0; n; tries++, cap += 200 + cap / 2) { m = malloc(cap); c = cap; int r = ini_parser_dump_to_mem(P, m, &c); if (r == INI_PARSER_CODE_SUCCEED) { VP_CHECK(c == n + 1 && !strcmp(m, d), "ini.dump_mem", "dump into %zu gives %zu bytes, expected %zu", cap, c, n + 1); free(m); break; } VP_CHECK(r == INI_PARSER_CODE_NO_ENOUGH_MEMORY && tries < 40, "ini.dump_mem", "dump into %zu bytes answered %d", cap, r); free(m); }
    char path[300]; snprintf(path, sizeof path, "%s/s.ini", vp_scratch());
    if (n) { VP_CHECK(ini_parser_save(P, path) == INI_PARSER_CODE_SUCCEED, "ini.save", "refused"); struct stat st; VP_CHECK(stat(path, &st) == 0 && (size_t)st.st_size == n, "ini.save", "saved %ld of %zu bytes", (long)st.st_size, n); if (rep && total()) reparsed(ini_parser_parse_file(path), "save"); }
    else VP_CHECK(1, "ini.save", "-");
    int r = ini_parser_save(P, "/dev/full"); VP_CHECK(r != INI_PARSER_CODE_SUCCEED, "ini.save_fail", "saving %zu bytes to a full device reported success", n); vp_count("saves_failed", 1);
    snprintf(path, sizeof path, "%s/no/such.ini", vp_scratch()); VP_CHECK(ini_parser_save(P, path) != INI_PARSER_CODE_SUCCEED && ini_parser_save(P, vp_scratch()) != INI_PARSER_CODE_SUCCEED && ini_parser_save(P, "") != INI_PARSER_CODE_SUCCEED && ini_parser_save(P, NULL) != INI_PARSER_CODE_SUCCEED, "ini.save_fail", "saving where no file can be reported success");
    VP_CHECK(vp_count_fds() == fds, "ini.fd", "dumping, saving and failing to save left %d file handles behind", vp_count_fds() - fds);
    free(d);
}
static int lasting;
static void m_store(void) {
    mclear(); char s[80], k[300], v[600]; uint64_t h = 0; bool parsed = vp_chance(2, 3); bool plain = vp_chance(2, 3);
    if (parsed) {
        int secs = (int)vp_between(1, vp_chance(1, 15) ? 60 : 5); char* t = malloc(400000); size_t n = 0; if (vp_chance(1, 6)) n += (size_t)sprintf(t, "\xef\xbb\xbf");
        for (int i = 0; i < secs; i++) {
            do rsec(s); while (strlen(s) > 49); n += (size_t)sprintf(t + n, "[%s]%s", s, vp_chance(1, 2) ? "\n" : "\r\n"); int ks = (int)vp_below(vp_chance(1, 15) ? 60 : 6);
            for (int j = 0; j < ks; j++) { unsigned w = (unsigned)vp_below(12); do rkey(k, s); while (strlen(k) > 60); do rval(v, true); while (!value_ok(v) || strlen(v) > 120);
                if (w == 0) n += (size_t)sprintf(t + n, "; %s = %s\n", k, v); else if (w == 1) n += (size_t)sprintf(t + n, "\n  \n# x\n"); else if (w == 2) { n += (size_t)sprintf(t + n, "%s\n", k); mput(s, k, ""); }
                else { n += (size_t)sprintf(t + n, "%s%s%c%s%s%s%s", k, vp_chance(1, 2) ? " " : "", vp_chance(1, 3) ? ':' : '=', vp_chance(1, 2) ? "\t" : "", v, vp_chance(1, 6) ? " ;c" : "", vp_chance(1, 2) ? "\n" : "\r\n"); mput(s, k, v); } } }
        t[n] = 0; h = vp_hash(t, n, 1); vp_trace("parse %zu bytes: %.1500s", n, t); char* x = malloc(n + 1); memcpy(x, t, n + 1);
        if (vp_chance(1, 4) && n >= 6) { char path[300]; snprintf(path, sizeof path, "%s/i.ini", vp_scratch()); FILE* f = fopen(path, "wb"); fwrite(t, 1, n, f); fclose(f); P = ini_parser_parse_file(path); } else P = ini_parser_parse_str(x);
        VP_CHECK(P, "ini.parse", "well-formed text was not parsed"); free(x); free(t); vp_count("parsed", 1); vp_count("entries_parsed", (uint64_t)total());
    } else { P = ini_parser_create(); VP_CHECK(P, "ini.create", "NULL"); }
    walk(P, "after parsing"); int ops = lasting ? (int)vp_between(2000, 6000) : (int)vp_below(60); int ndel = 0;
    for (int o = 0; o < ops; o++) {
        unsigned w = (unsigned)vp_below(20); rsec(s); rkey(k, s);
        if (w < 9) { rval(v, plain); const char* vv = vp_chance(1, 25) ? NULL : v; if (plain && vv && !value_ok(v)) { vv = "p"; } if (plain && strlen(k) > 60) k[60] = 'z', k[61] = 0; if (plain && strlen(s) > 49) s[49] = 0; if (plain && (isspace((unsigned char)k[strlen(k) - 1]) || isspace((unsigned char)s[strlen(s) - 1]))) continue;
            vp_trace("put [%.63s] %.60s = %.60s", s, k, vv ? vv : "(null)"); VP_CHECK(ini_parser_put_string(P, s, k, vv) == INI_PARSER_CODE_SUCCEED, "ini.put", "[%.40s] %.40s refused", s, k); mput(s, k, vv ? vv : ""); vp_count("puts", 1); }
        else if (w < 12) { int i = fs(s), j = i < 0 ? -1 : fk(i, k); vp_trace("delete [%.63s] %.60s", s, k); int r = ini_parser_delete_by_section_key(P, s, k); VP_CHECK((r == INI_PARSER_CODE_SUCCEED) == (j >= 0) && (j >= 0 || r == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY), "ini.delete", "deleting [%.40s] %.40s answered %d, present %d", s, k, r, j >= 0); if (j >= 0) { mdelk(i, j); vp_count("keys_deleted", 1); } }
        else if (w < 14) { int i = fs(s); vp_trace("delete section [%.63s]", s); int r = ini_parser_delete_section(P, s); VP_CHECK((r == INI_PARSER_CODE_SUCCEED) == (i >= 0) && (i >= 0 || r == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY), "ini.delete", "deleting section %.40s answered %d, present %d", s, r, i >= 0); if (i >= 0) { mdels(i); ndel++; vp_count("sections_deleted", 1); }
            if (vp_chance(1, 2)) get_all(s, k); }
        else if (w == 14) { /* refused without effect */
            char big[600]; memset(big, 'q', sizeof big); big[64 + vp_below(300)] = 0; int r; switch (vp_below(5)) { case 0: r = ini_parser_put_string(P, big, k, "v"); break; case 1: big[strlen(big)] = 'q'; big[256 + vp_below(200)] = 0; r = ini_parser_put_string(P, s, big, "v"); break; case 2: big[strlen(big)] = 'q'; big[256 + vp_below(200)] = 0; r = ini_parser_put_string(P, s, k, big); break; case 3: r = ini_parser_put_string(P, vp_chance(1, 2) ? NULL : "", k, "v"); break; default: r = ini_parser_put_string(P, s, vp_chance(1, 2) ? NULL : "", "v"); }
            VP_CHECK(r != INI_PARSER_CODE_SUCCEED, "ini.refuse", "a name or value that does not fit was accepted"); VP_CHECK(ini_parser_put_string(NULL, s, k, "v") == INI_PARSER_CODE_INVALID_PARAM && ini_parser_get_string(NULL, s, k, v, 5) == INI_PARSER_CODE_INVALID_PARAM && ini_parser_foreach(P, NULL, NULL) == INI_PARSER_CODE_INVALID_PARAM && !ini_parser_dump(NULL) && ini_parser_delete_section(P, NULL) == INI_PARSER_CODE_INVALID_PARAM, "ini.refuse", "invalid call accepted"); vp_count("puts_refused", 1); }
        else if (w == 15) walk(P, "in between"); else if (w == 16 && vp_chance(1, 3)) persist(); else get_all(s, k);
        if (w < 9) get_all(s, k); vp_count("operations", 1); h = vp_mix(h, w * 1000 + (unsigned)total()); vp_seen(vp_mix((uint64_t)ns, (uint64_t)total()));
    }
    walk(P, "at the end"); for (int i = 0; i < ns; i++) for (int j = 0; j < S[i].n; j++) if (total() < 40 || vp_chance(1, 8)) { strcpy(s, S[i].name); strcpy(k, S[i].e[j].k); flip(s); flip(k); get_all(s, k); }
    persist(); walk(P, "after persisting"); vp_case_mix(h); if (total() > 2) vp_nontrivial(); if (vp_want_sample()) vp_sample("%s, %d operations, %d sections deleted, %d sections with %d entries at the end", parsed ? "parsed" : "empty", ops, ndel, ns, total());
    VP_CHECK(ini_parser_destroy(&P) == INI_PARSER_CODE_SUCCEED && !P && ini_parser_destroy(&P) == INI_PARSER_CODE_INVALID_PARAM && ini_parser_destroy(NULL) == INI_PARSER_CODE_INVALID_PARAM, "ini.destroy", "destroy");
    mclear();
}
static void m_misc(void) {
    char path[300]; snprintf(path, sizeof path, "%s/none.ini", vp_scratch()); int fds = vp_count_fds();
    VP_CHECK(!ini_parser_parse_file(path) && !ini_parser_parse_file(NULL) && !ini_parser_parse_file("") && !ini_parser_parse_file(vp_scratch()), "ini.parse_file", "a file that is none was parsed");
    FILE* f = fopen(path, "wb"); fputs("[s]\na=1\n[broken\nb=2\n", f); fclose(f); for (size_t k = 0; k < 7; k++) { f = fopen(path, "wb"); fwrite("[s]a=1" + vp_below(3), 1, k > 4 ? k - 2 : k, f); fclose(f); ini_parser_handle t = ini_parser_parse_file(path); ini_parser_destroy(&t); VP_CHECK(vp_count_fds() == fds, "ini.fd", "parsing a file of %zu bytes left file handles behind", k); }
    f = fopen(path, "wb"); fputs("[s]\na=1\n[broken\nb=2\n", f); fclose(f); VP_CHECK(!ini_parser_parse_file(path) && !ini_parser_parse_str("[s]\na=1\n[broken\nb=2\n"), "ini.parse_error", "a malformed text was accepted"); VP_CHECK(vp_count_fds() == fds, "ini.fd", "parsing left file handles behind");
    VP_CHECK(ini_parser_is_file_path("/a/b.ini") && ini_parser_is_file_path("x") && !ini_parser_is_file_path("") && !ini_parser_is_file_path(NULL) && !ini_parser_is_file_path("a=b\nc=d") && !ini_parser_is_file_path("  [a] b=c") && !ini_parser_is_file_path("# x"), "ini.is_path", "wrong answer");
    for (int k = 0; k < 2000; k++) { static const char pc[] = "  \t#[]ab/.=\n"; char q[12]; size_t m = 1 + vp_below(10); for (size_t i = 0; i < m; i++) q[i] = pc[vp_below(sizeof pc - 1 - !vp_chance(1, 6))]; q[m] = 0; size_t i = strspn(q, " \t"); bool want = !strchr(q, '\n') && q[i] != '#' && q[i] != '['; VP_CHECK(ini_parser_is_file_path(q) == want, "ini.is_path", "\"%s\" taken for %s", q, want ? "a text" : "a path"); }
    ini_parser_handle p = ini_parser_parse_str(NULL); char b[100]; size_t n = 100; VP_CHECK(p && ini_parser_dump_to_mem(p, NULL, &n) == INI_PARSER_CODE_INVALID_PARAM && ini_parser_dump_to_mem(p, b, NULL) == INI_PARSER_CODE_INVALID_PARAM, "ini.refuse", "invalid call accepted"); char* d = ini_parser_dump(p); VP_CHECK(d && !*d, "ini.dump", "an empty store dumps something"); free(d); ini_parser_destroy(&p); vp_case_mix(vp_case); vp_nontrivial(); vp_count("misc", 1);
}
/* many sections, many keys, and line numbers beyond 2^16 */
typedef struct { int ns, nk, seen; } scw_t;
static int sc_visit(const char* s, const char* k, const char* v, const void* u) { scw_t* w = (scw_t*)u; char a[40], b[40], c[40]; int i = w->seen / w->nk, j = w->seen % w->nk; snprintf(a, sizeof a, "sec%d", i); snprintf(b, sizeof b, "key%d", j); snprintf(c, sizeof c, "%d", i * 7 + j); VP_CHECK(!strcmp(a, s) && !strcmp(b, k) && !strcmp(c, v), "ini.foreach", "entry %d is [%.40s] %.40s = %.40s, expected [%s] %s = %s", w->seen, s, k, v, a, b, c); w->seen++; if (!(w->seen & 0xff)) vp_beat(); return 0; }
static void m_scale(void) {
    scw_t w = { 1, 1, 0 }; bool wide = vp_chance(1, 2); w.ns = wide ? (int)vp_between(300, 1500) : (int)vp_between(1, 3); w.nk = wide ? (int)vp_between(1, 4) : (int)vp_between(300, vp_chance(1, 2) ? 6000 : 2000); int pad = vp_chance(1, 2) ? (int)vp_between(66000, 90000) : 0; bool bad = vp_chance(1, 4);
    char* t = malloc((size_t)w.ns * (size_t)w.nk * 40 + (size_t)w.ns * 20 + (size_t)pad * 2 + 100); size_t n = 0; for (int i = 0; i < w.ns; i++) { n += (size_t)sprintf(t + n, "[sec%d]\n", i); for (int j = 0; j < w.nk; j++) n += (size_t)sprintf(t + n, "key%d = %d\n", j, i * 7 + j); if (i == 0) for (int k = 0; k < pad; k++) t[n++] = '\n'; } if (bad) n += (size_t)sprintf(t + n, "[unclosed\n"); t[n] = 0; vp_trace("%d sections of %d keys, %d empty lines, malformed end %d", w.ns, w.nk, pad, bad);
    char path[300]; snprintf(path, sizeof path, "%s/big.ini", vp_scratch()); FILE* f = fopen(path, "wb"); fwrite(t, 1, n, f); fclose(f); ini_parser_handle p = vp_chance(1, 2) ? ini_parser_parse_str(t) : ini_parser_parse_file(path);
    if (bad) VP_CHECK(!p, "ini.parse_error", "a malformed line %d was accepted", w.ns * (w.nk + 1) + pad + 1); else {
        VP_CHECK(p, "ini.parse", "well-formed text of %zu bytes was not parsed", n); ini_parser_foreach(p, sc_visit, &w); VP_CHECK(w.seen == w.ns * w.nk, "ini.foreach", "%d of %d entries visited", w.seen, w.ns * w.nk);
        VP_CHECK(ini_parser_save(p, path) == INI_PARSER_CODE_SUCCEED, "ini.save", "refused"); ini_parser_handle q = ini_parser_parse_file(path); VP_CHECK(q, "ini.roundtrip", "what was saved is not parsed"); w.seen = 0; ini_parser_foreach(q, sc_visit, &w); VP_CHECK(w.seen == w.ns * w.nk, "ini.roundtrip", "%d of %d entries after saving", w.seen, w.ns * w.nk); ini_parser_destroy(&q);
        char* d = ini_parser_dump(p); VP_CHECK(d, "ini.dump", "nothing dumped"); free(d); char s[40], k[40]; for (int c = 0; c < 300; c++) { int i = (int)vp_below((uint64_t)w.ns), j = (int)vp_below((uint64_t)w.nk), x; snprintf(s, sizeof s, "SEC%d", i); snprintf(k, sizeof k, "Key%d", j); VP_CHECK(ini_parser_get_int(p, s, k, &x) == 0 && x == i * 7 + j, "ini.get", "[%s] %s", s, k); snprintf(k, sizeof k, "key%d", w.nk + j); VP_CHECK(ini_parser_get_int(p, s, k, &x) != 0, "ini.get", "absent [%s] %s", s, k); vp_beat(); }
        vp_count("entries_at_once", (uint64_t)w.seen); ini_parser_destroy(&p); }
    free(t); unlink(path); vp_count("large_stores", 1); vp_case_mix(vp_mix(n, (uint64_t)w.ns * 31 + bad)); vp_nontrivial();
}
static void m_long(void) { lasting = 1; m_store(); vp_count("long_lives", 1); }
const vp_mode_t vp_modes[] = { {"long", m_long}, {"store", m_store}, {"misc", m_misc}, {"scale", m_scale}, {0} };
