/* C18: time conversion, cached and formatted, against the C library's calendar under a controlled clock. */
#include "vp.h"
#include "wrap_clock.h"
#include "lcu.h"
#include "time/time_util.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
#include <locale.h>
#pragma weak vps_set
#define END_9999 253402300799ll
static const char* DAY[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
static const char* MON[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
/* independent calendar: counts whole years and months */
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static void slow_date(int64_t t, struct tm* o) { static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int64_t d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; d--; } memset(o, 0, sizeof *o); o->tm_hour = (int)(s / 3600); o->tm_min = (int)(s / 60 % 60); o->tm_sec = (int)(s % 60); o->tm_wday = (int)(((d + 4) % 7 + 7) % 7);
    int64_t y = 1970; while (d < 0) { y--; d += leap(y) ? 366 : 365; } while (d >= 146097) { y += 400; d -= 146097; } while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; y++; } o->tm_yday = (int)d; int m = 0; while (d >= ml[m] + (m == 1 && leap(y))) { d -= ml[m] + (m == 1 && leap(y)); m++; } o->tm_year = (int)(y - 1900); o->tm_mon = m; o->tm_mday = (int)d + 1; }
static void check_date(int64_t t, int tz, bool slow) {
    struct tm g, e; memset(&g, 0x5a, sizeof g); time_t u = (time_t)t, loc = (time_t)(t + tz * 3600); int r = time_util_fast_second2date(&u, &g, tz); if (slow) slow_date((int64_t)loc, &e); else gmtime_r(&loc, &e);
    VP_CHECK(r == 0, "date.result", "result %d", r);
    VP_CHECK(g.tm_year == e.tm_year && g.tm_mon == e.tm_mon && g.tm_mday == e.tm_mday && g.tm_hour == e.tm_hour && g.tm_min == e.tm_min && g.tm_sec == e.tm_sec, "date.fields", "%lld zone %d: %d-%02d-%02d %02d:%02d:%02d, expected %d-%02d-%02d %02d:%02d:%02d", (long long)t, tz, g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec, e.tm_year + 1900, e.tm_mon + 1, e.tm_mday, e.tm_hour, e.tm_min, e.tm_sec);
    VP_CHECK(g.tm_wday == e.tm_wday && g.tm_yday == e.tm_yday && g.tm_isdst == 0, "date.day", "%lld zone %d: week day %d, day of year %d, dst %d; expected %d, %d, 0", (long long)t, tz, g.tm_wday, g.tm_yday, g.tm_isdst, e.tm_wday, e.tm_yday);
}
static void m_days(void) { /* every day of 1970-9999 in 64 cases */
    int64_t days = END_9999 / 86400 + 1, lo = days * (int64_t)(vp_case % 64) / 64, hi = days * (int64_t)(vp_case % 64 + 1) / 64;
    for (int64_t d = lo; d < hi; d++) { int tz = (int)vp_between(0, 24) - 12; int64_t b = d * 86400; check_date(b + (tz > 0 && d == days - 1 ? -tz * 3600 : 0), tz, false); check_date(b + (int64_t)vp_below(86400) - (tz > 0 && d == days - 1 ? tz * 3600 : 0), tz, (d & 63) == 0); int64_t edge = b - tz * 3600; if (edge > 0) { check_date(edge - 1, tz, false); check_date(edge, tz, false); } if ((d & 15) == 0) vp_beat(); }
    vp_count("days", (uint64_t)(hi - lo)); vp_case_mix(vp_case); vp_nontrivial(); vp_seen(vp_case); if (vp_want_sample()) vp_sample("days %lld-%lld", (long long)lo, (long long)hi);
}
static int64_t instant(void) { switch (vp_below(8)) { case 0: return (int64_t)vp_below(100000); case 1: return (int64_t)vp_between(2147483000, 2147484000); case 2: return (int64_t)vp_between(4294967000ll, 4294968000ll); case 3: return (int64_t)vp_below(END_9999 / 86400) * 86400 + (int64_t)vp_below(3) - 1 + (vp_chance(1, 2) ? 86400 : 1); case 4: { static const int64_t k[] = { 951782400, 4107542400ll, 4107456000ll, 1709164800, 1735689600, 946684800, 13574563200ll }; return k[vp_below(7)] + (int64_t)vp_below(172800) - 86400; } default: return (int64_t)vp_below(vp_chance(1, 2) ? 4102444800ll : END_9999 - 86400); } }
static void stamp(char* o, int64_t t, long us, int tz, bool file) { struct tm e; time_t l = (time_t)(t + tz * 3600); gmtime_r(&l, &e); sprintf(o, file ? "%02d%02d%02d%02d%02d.%03ld" : "%02d-%02d %02d:%02d:%02d.%03ld", e.tm_mon + 1, e.tm_mday, e.tm_hour, e.tm_min, e.tm_sec, us / 1000); }
static long usec(void) { switch (vp_below(5)) { case 0: return 0; case 1: return 999999; case 2: return (long)vp_below(1000) * 1000 + (long)vp_below(2) * 999; default: return (long)vp_below(1000000); } }
static void m_text(void) {
    for (int i = 0; i < 50; i++) {
        int64_t t = instant(); long us = usec(); int tz = (int)vp_between(0, 24) - 12; check_date(t, tz, true); char want[40]; char* b = malloc(TIME_STR_SIZE); struct timeval tv = { (time_t)t, us }; bool f = vp_chance(1, 2); memset(b, 0x5a, TIME_STR_SIZE); stamp(want, t, us, tz, f);
        int r = f ? time_util_get_time_str_for_file_name(&tv, b, tz) : time_util_get_time_str(&tv, b, tz); VP_CHECK(!strcmp(b, want), "stamp.text", "%lld.%06ld zone %d: \"%.24s\", expected \"%s\"", (long long)t, us, tz, b, want); VP_CHECK(r == (int)strlen(want), "stamp.length", "length %d of \"%s\"", r, b); VP_CHECK(tv.tv_sec == (time_t)t && tv.tv_usec == us, "stamp.input", "argument changed"); free(b);
        /* RFC texts */
        int64_t q = vp_chance(1, 10) ? END_9999 + (int64_t)vp_below(1ull << vp_between(1, 62)) : t; struct tm e; time_t qt = (time_t)q; bool ok = gmtime_r(&qt, &e) != NULL && q <= END_9999; int kind = (int)vp_below(3); size_t need = kind == 0 ? TIME_RFC1123_STR_SIZE : kind == 1 ? TIME_RFC2822_STR_SIZE : TIME_RFC2822_UTC_STR_SIZE, cap = vp_chance(1, 2) ? need : vp_chance(1, 2) ? vp_below(need) : need + vp_below(30); char* o = malloc(cap ? cap : 1); memset(o, 0x5a, cap ? cap : 1);
        if (gmtime_r(&qt, &e)) snprintf(want, sizeof want, "%s, %02d %s %04d %02d:%02d:%02d %s", DAY[e.tm_wday], e.tm_mday, MON[e.tm_mon], e.tm_year + 1900, e.tm_hour, e.tm_min, e.tm_sec, kind == 0 ? "GMT" : kind == 1 ? "+0000" : "UTC");
        r = kind == 0 ? time_rfc1123(&qt, o, cap) : kind == 1 ? time_rfc2822(&qt, o, cap) : time_rfc2822_utc(&qt, o, cap);
        if (cap < need) { VP_CHECK(r != 0, "rfc.small", "%zu bytes accepted", cap); for (size_t k = 0; k < cap; k++) VP_CHECK(o[k] == 0x5a, "rfc.small", "refused but written"); vp_count("rfc_too_small", 1); }
        else if (ok) { VP_CHECK(r == 0 && !strcmp(o, want), "rfc.text", "kind %d of %lld: %d \"%.40s\", expected \"%s\"", kind, (long long)q, r, o, want); vp_count("rfc_texts", 1); }
        else { VP_CHECK(r != 0 || !strcmp(o, want), "rfc.beyond", "kind %d of %lld: success with \"%.40s\"", kind, (long long)q, o); vp_count("rfc_beyond_9999", 1); }
        free(o); vp_case_mix(vp_mix((uint64_t)t, (uint64_t)us * 32 + (uint64_t)(tz + 12))); vp_seen(vp_mix((uint64_t)(t % 86400 / 3600), (uint64_t)(tz + 12))); vp_count("stamps", 1);
    }
    char x[64]; time_t z = 5; VP_CHECK(time_rfc1123(&z, NULL, 40) != 0 && time_rfc2822(&z, NULL, 40) != 0 && time_rfc2822_utc(&z, NULL, 40) != 0, "rfc.null", "NULL accepted"); (void)x; vp_nontrivial(); if (vp_want_sample()) vp_sample("50 instants");
}
/* ---- the cached current time under a clock that jumps ---- */
static int64_t base; static int nvals; static __thread vp_rng_t trng; static __thread int64_t cur; static __thread long cus; static __thread bool use_cur;
static void next_any(struct timeval* tv) { if (!use_cur) { tv->tv_sec = (time_t)(base + (int64_t)vp_rng_below(&trng, (uint64_t)nvals)); tv->tv_usec = (long)vp_rng_below(&trng, 3) ? (long)vp_rng_below(&trng, 1000000) : (long)vp_rng_below(&trng, 2) * 5000; } else { tv->tv_sec = (time_t)cur; tv->tv_usec = cus; } }
static void ask_current(int tz, bool file, char* b) {
    char want[40]; memset(b, 0x5a, TIME_STR_SIZE); uint64_t n = vck_asked; int r = file ? time_util_get_time_str_for_file_name_current(b, tz) : time_util_get_time_str_current(b, tz);
    VP_CHECK(vck_asked > n, "current.clock", "the clock was not asked"); stamp(want, vck_told.tv_sec, vck_told.tv_usec, tz, file); VP_CHECK(!strcmp(b, want), "current.text", "clock %lld.%06ld zone %d: \"%.24s\", expected \"%s\"", (long long)vck_told.tv_sec, (long)vck_told.tv_usec, tz, b, want); VP_CHECK(r == (int)strlen(want), "current.length", "length %d of \"%s\"", r, want); }
static void m_clock(void) {
    vck_next = next_any; vck_on = true; use_cur = true; bool inited = vp_chance(3, 4); if (inited) lcu_global_init(); cur = vp_chance(1, 4) ? 0 : instant(); cus = usec(); int tz = 0, hits = 0; uint64_t h = 1; char* b = malloc(TIME_STR_SIZE);
    for (int i = 0; i < 120; i++) {
        int64_t old = cur; switch (vp_below(12)) { case 0: cur++; break; case 1: cur += (int64_t)vp_below(100000); break; case 2: if (cur > 0) cur--; break; case 3: cur = cur > 86400 ? cur - (int64_t)vp_below(86400) : 0; break; case 4: if (vp_chance(1, 3)) cur = instant(); break; case 5: if (vp_chance(1, 4)) cur = 0; break; case 6: tz = (int)vp_between(0, 24) - 12; break; default: break; }
        if (vp_chance(1, 2)) cus = usec(); else if (vp_chance(1, 2)) cus = (cus + (long)vp_below(20000)) % 1000000; if (cur == old) hits++; ask_current(tz, vp_chance(1, 3), b);
        if (vp_chance(1, 3)) { uint64_t ms = 0, pm = 0; time_util_current_ms(&ms); VP_CHECK(ms == (uint64_t)cur * 1000 + (uint64_t)cus / 1000, "current.ms", "%llu ms for %lld.%06ld", (unsigned long long)ms, (long long)cur, cus); time_util_query_performance_ms(&pm); }
        if (vp_chance(1, 40)) { if (inited) lcu_global_cleanup(); else lcu_global_init(); inited = !inited; vp_count("reinitialised", 1); }
        h = vp_mix(h, (uint64_t)cur * 3 + (uint64_t)cus + (uint64_t)tz); vp_seen(vp_mix((uint64_t)(cur - old), (uint64_t)(tz + 12))); vp_count("clock_readings", 1); if (cur < old) vp_count("clock_back", 1); if (!cur) vp_count("clock_at_zero", 1);
    }
    free(b); if (inited) lcu_global_cleanup(); vck_on = false; use_cur = false; vp_count("same_second", (uint64_t)hits); vp_nontrivial(); vp_case_mix(h); if (vp_want_sample()) vp_sample("120 readings, %d within one second", hits);
}
typedef struct { int n; uint64_t seed; int id; } thr_t; static pthread_barrier_t bar;
static void* reader(void* a) { thr_t* t = a; vp_rng_init(&trng, t->seed, (uint64_t)t->id); char* b = malloc(TIME_STR_SIZE); pthread_barrier_wait(&bar); for (int i = 0; i < t->n; i++) ask_current((int)vp_rng_below(&trng, 3) * 4 - 4, vp_rng_below(&trng, 3) == 0, b); free(b); return NULL; }
static void m_threads(void) { lcu_global_init(); vck_next = next_any; base = instant(); if (base < 100000) base += 100000; nvals = (int)vp_between(1, 3); vck_on = true; int nt = (int)vp_between(2, 8); thr_t a[8]; pthread_t t[8]; pthread_barrier_init(&bar, 0, (unsigned)nt); if (vps_set) vps_set(vp_rand(), vp_chance(1, 2) ? (unsigned)vp_below(8) : 0);
    for (int i = 0; i < nt; i++) { a[i] = (thr_t){ 400, vp_rand(), i }; pthread_create(&t[i], 0, reader, &a[i]); } for (int i = 0; i < nt; i++) pthread_join(t[i], 0); vck_on = false; lcu_global_cleanup(); pthread_barrier_destroy(&bar); vp_count("concurrent_readings", (uint64_t)nt * 400); vp_nontrivial(); vp_case_mix(vp_mix((uint64_t)base, (uint64_t)nt)); vp_seen(vp_mix((uint64_t)nt, (uint64_t)nvals)); if (vp_want_sample()) vp_sample("%d threads, %d seconds in turn", nt, nvals); }
/* ---- zone offset ---- */
static void m_zone(void) {
    static const char* Z[] = { "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "<+14>-14", "<-12>12", "LHST-10:30LHDT-11,M10.1.0,M4.1.0/2", "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "<-0330>3:30<-0230>,M3.2.0,M11.1.0", "Asia/Shanghai", "Europe/Dublin", "Asia/Kathmandu", "America/St_Johns", "LMT-5:30:21", "<-0344>3:44:56", "ODD1:02:03EVEN0:01:02,M3.2.0,M11.1.0" };
    const char* z = Z[vp_case % 16]; setenv("TZ", z, 1); tzset(); vck_next = next_any; use_cur = true; vck_on = true; cus = 0; uint64_t h = vp_case; int trans = 0;
    for (int i = 0; i < 300; i++) { cur = instant(); if (vp_chance(2, 3)) { /* look for a change of the offset and stand around it */ struct tm x; time_t lo = (time_t)(vp_below(3000000000u)), hi = lo + 86400 * 190; localtime_r(&lo, &x); long o = x.tm_gmtoff; localtime_r(&hi, &x); if (x.tm_gmtoff != o) { while (hi - lo > 1) { time_t m = lo + (hi - lo) / 2; localtime_r(&m, &x); if (x.tm_gmtoff == o) lo = m; else hi = m; } cur = (int64_t)hi + (int64_t)vp_below(60000) - 30000; if (cur < 0) cur = 0; trans++; } }
        int got = time_util_zone_offset_seconds_to_utc(); struct tm x; time_t c = (time_t)cur; localtime_r(&c, &x); VP_CHECK(got == (int)x.tm_gmtoff, "zone.offset", "%s at %lld: %d, expected %ld", z, (long long)cur, got, x.tm_gmtoff); h = vp_mix(h, (uint64_t)cur); vp_seen(vp_mix((uint64_t)got, vp_case % 16)); }
    vck_on = false; use_cur = false; setenv("TZ", "UTC", 1); tzset(); vp_count("offsets", 300); vp_count("near_offset_changes", (uint64_t)trans); vp_nontrivial(); vp_case_mix(h); if (vp_want_sample()) vp_sample("%s, %d near a change", z, trans);
}
static void m_locale(void) { /* RFC texts are English whatever the process locale */
    char c[600]; snprintf(c, sizeof c, "localedef -i de_DE -f UTF-8 %s/de_DE.UTF-8 >/dev/null 2>&1", vp_scratch()); if (system(c)) { } setenv("LOCPATH", vp_scratch(), 1); if (setlocale(LC_ALL, "de_DE.UTF-8")) { vp_count("foreign_locale", 1); m_text(); setlocale(LC_ALL, "C"); } else vp_count("foreign_locale_unavailable", 1); unsetenv("LOCPATH"); vp_nontrivial(); vp_case_mix(7); }
const vp_mode_t vp_modes[] = { {"days", m_days}, {"text", m_text}, {"clock", m_clock}, {"threads", m_threads}, {"zone", m_zone}, {"locale", m_locale}, {0} };
