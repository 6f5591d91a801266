/* C11: a program that includes mem_debug.h: its own calls are traced under their place in the source */
#include "mem/mem_debug.h"
#include "vp.h"
#include <ctype.h>
#include <fcntl.h>
#include <unistd.h>
#ifndef _USE_LCU_MEM_CHECK
#error the header does not trace
#endif
const char* cxx_file(void); int cxx_made(void); int cxx_gone(void); void* cxx_new(int kind, size_t n, int* line, const char** func); void cxx_delete(int kind, void* p);
#define MAXB 60
typedef struct { uint8_t* p; uint8_t* base; size_t n, rep; const char* file; const char* func; int line, cxx, seen; uint8_t fill; } blk_t;
static blk_t b[MAXB]; static int nb, n_seen;
static void report(void* p, size_t n, char* file, char* func, int line, void* ud) {
    VP_CHECK(ud == b, "macro.report", "report got foreign user data");
    for (int i = 0; i < nb; i++) if (b[i].base == p) { VP_CHECK(!b[i].seen, "macro.report", "a block is reported twice"); b[i].seen = 1; n_seen++;
        VP_CHECK(n == b[i].rep, "macro.size", "a block of %zu bytes from line %d is reported with %zu", b[i].rep, b[i].line, n);
        VP_CHECK(line == b[i].line, "macro.place", "allocated at line %d, reported at %d", b[i].line, line);
        size_t fl = strlen(file); VP_CHECK(fl && !strncmp(file, b[i].file, fl) && (fl >= 100 || fl == strlen(b[i].file)), "macro.place", "allocated in '%s', reported in '%s'", b[i].file, file);
        size_t ul = strlen(func); VP_CHECK(ul && !strncmp(func, b[i].func, ul) && (ul >= 28 || ul == strlen(b[i].func)), "macro.place", "allocated in %s, reported in %s", b[i].func, func);
        return; }
    vp_fail("macro.report", "a block of %zu bytes that is not outstanding is reported", n);
}
static void account(const char* after) {
    size_t sum = 0; for (int i = 0; i < nb; i++) { sum += b[i].rep; b[i].seen = 0; } n_seen = 0;
    size_t got = allocation_tracker_expect_no_allocations(report, b);
    VP_CHECK(got == sum && n_seen == nb, "macro.bytes", "after %s: %d blocks with %zu bytes reported, %d with %zu are outstanding", after, n_seen, got, nb, sum); vp_count("macro_accounts", 1); }
static bool word(const char* t, const char* w) { for (const char* p = t; (p = strstr(p, w)); p++) if ((p == t || !isalnum((unsigned char)p[-1])) && !isalnum((unsigned char)p[strlen(w)])) return true; return false; }
/* the closing check tells of every block that was forgotten: where it was allocated and how large it is */
static void told(void) {
    static void* kept[1 << 16]; static unsigned n_kept; for (int i = 0; i < nb; i++) kept[n_kept++ % (1 << 16)] = b[i].p;      /* not for the leak checker */
    static char t[200000]; char f[400]; snprintf(f, sizeof f, "%s/told", vp_scratch()); fflush(stderr); fflush(stdout); int keep = dup(1), keep2 = dup(2), fd = open(f, O_CREAT | O_TRUNC | O_RDWR, 0600); if (keep < 0 || keep2 < 0 || fd < 0) vp_error("scratch file");
    dup2(fd, 1); dup2(fd, 2); MEM_CHECK_DEINIT(); fflush(stderr); fflush(stdout); dup2(keep, 1); dup2(keep2, 2); close(keep); close(keep2); ssize_t n = pread(fd, t, sizeof t - 1, 0); close(fd); unlink(f); t[n > 0 ? n : 0] = 0;
    for (int i = 0; i < nb; i++) { char l[20], z[20]; bool found = false; snprintf(l, sizeof l, "%d", b[i].line); snprintf(z, sizeof z, "%zu", b[i].rep);
        for (char* at = t; *at && !found; ) { char* e = strchrnul(at, '\n'); char k = *e; *e = 0; found = word(at, l) && word(at, z) && strstr(at, b[i].func); *e = k; at = e + (k != 0); }
        VP_CHECK(found, "macro.told", "a forgotten block of %zu bytes from %s:%d is not told of in: %.400s", b[i].rep, b[i].func, b[i].line, t); vp_count("macro_forgotten", 1); } }
static void m_macros(void) {
    vpm_begin(); MEM_CHECK_INIT(); nb = 0; int ops = 20 + (int)vp_below(100), made = cxx_made(), gone = cxx_gone(); uint64_t h = 1;
    for (int o = 0; o < ops; o++) {
        int w = (int)vp_below(16); size_t n = 1 + vp_below(vp_chance(1, 6) ? 5000 : 60); const char* op = "?";
        if (nb == MAXB || (w >= 10 && nb)) { int k = (int)vp_below((uint64_t)nb); blk_t x = b[k]; op = x.cxx >= 0 ? "delete" : "free"; vp_trace("%s", op);
            if (x.cxx < 1) for (size_t i = 0; i < x.n; i++) VP_CHECK(x.p[i] == x.fill, "macro.content", "byte %zu of a block of %zu changed", i, x.n);
            b[k] = b[--nb]; if (x.cxx >= 0) cxx_delete(x.cxx, x.p); else free(x.p); }
        else if (w < 10) { blk_t* x = &b[nb]; memset(x, 0, sizeof *x); x->cxx = -1; x->file = __FILE__; x->func = __func__; x->n = x->rep = n; x->fill = (uint8_t)vp_between(1, 255); bool set = true;
            switch (w) {
            case 0: op = "malloc"; x->line = __LINE__; x->p = malloc(n); break;
            case 1: op = "calloc"; x->line = __LINE__; x->p = calloc(n, 3); x->n = x->rep = 3 * n; for (size_t i = 0; i < 3 * n; i++) VP_CHECK(x->p[i] == 0, "macro.content", "calloc is not zero"); break;
            case 2: { char* s = alloca(n + 1); memset(s, x->fill, n); s[n] = 0; op = "strdup"; x->line = __LINE__; x->p = (uint8_t*)strdup(s); x->rep = n + 1; VP_CHECK(!strcmp((char*)x->p, s), "macro.content", "strdup"); set = false; } break;
            case 3: { char* s = alloca(n + 1); memset(s, x->fill, n); s[n] = 0; size_t lim = vp_below(n + 5); op = "strndup"; x->line = __LINE__; x->p = (uint8_t*)strndup(s, lim); if (lim > n) lim = n; x->n = lim; x->rep = lim + 1; VP_CHECK(strlen((char*)x->p) == lim && !strncmp((char*)x->p, s, lim), "macro.content", "strndup"); set = false; } break;
            case 4: if (nb && b[0].cxx < 0) { op = "realloc"; blk_t old = b[0]; b[0] = b[--nb]; x = &b[nb]; *x = old; x->line = __LINE__; uint8_t* q = realloc(old.p, n);
                      size_t keep = old.n < n ? old.n : n; for (size_t i = 0; i < keep; i++) VP_CHECK(q[i] == old.fill, "macro.content", "realloc lost byte %zu", i);
                      x->rep = allocation_tracker_ptr_size(99, q); if (q == old.p) x->line = old.line; VP_CHECK(x->rep >= n, "macro.size", "realloc to %zu gives %zu", n, x->rep); x->p = q; x->n = n; x->file = __FILE__; x->func = __func__; break; }
                    /* fall through */
            case 5: op = "realloc of nothing"; x->line = __LINE__; x->p = realloc(NULL, n); x->rep = x->p ? allocation_tracker_ptr_size(99, x->p) : 0; VP_CHECK(x->rep >= n, "macro.size", "realloc of nothing to %zu gives %zu", n, x->rep); break;
            default: x->cxx = w - 6; op = "new"; if (w == 9) n = 1 + n % 20; x->p = cxx_new(x->cxx, n, &x->line, &x->func); x->file = cxx_file(); x->rep = x->cxx == 0 ? n : x->cxx == 1 ? 8 : x->cxx == 2 ? 24 : 8 + 24 * n; set = x->cxx == 0; vp_count("macro_news", 1); }
            VP_CHECK(x->p, "macro.null", "%s fails", op); vp_trace("%s %zu", op, n); x->base = x->p - (x->cxx == 3 ? 8 : 0); if (set) memset(x->p, x->fill, x->n); nb++; }
        if (vp_chance(1, 3)) account(op); h = vp_mix(h, (uint64_t)w * 64 + (uint64_t)nb); vp_count("macro_operations", 1);
    }
    account("all");
    if (nb && vp_chance(1, 6)) told(); else while (nb) { blk_t x = b[--nb]; if (x.cxx >= 0) cxx_delete(x.cxx, x.p); else free(x.p); }
    bool forgotten = nb > 0; if (!forgotten) { cxx_delete(1, NULL); cxx_delete(0, NULL); free(NULL); account("everything was freed"); }
    if (!forgotten) VP_CHECK(cxx_made() - made == cxx_gone() - gone, "macro.objects", "objects constructed and destroyed differ");
    if (!forgotten) { MEM_CHECK_DEINIT(); char d[400]; if (vpm_live()) { vpm_dump(d, sizeof d); vp_fail("macro.residue", "%ld blocks left after the memory check: %s", vpm_live(), d); } } vpm_end(); vp_case_mix(h); vp_nontrivial(); vp_seen(h);
}
const vp_mode_t vp_modes[] = { {"macros", m_macros}, {0} };
