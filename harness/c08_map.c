/* C08: hash map against an ordinary map; lock callbacks. */
#include "vp.h"
#include "data/hashmap.h"
#include "data/hash_functions.h"
void vps_set(uint64_t seed, unsigned intensity) __attribute__((weak));
#define UNI 6000
typedef struct { uint32_t magic; int id; char* text; int freed; } key_t_;
typedef struct { uint32_t magic; int freed; int due; } val_t;
static key_t_* mk[UNI]; static val_t* mv[UNI]; static bool present[UNI]; static int count;
static bool kfree, vfree; static int hmode; static uint64_t hsalt; static int depth; static bool locked_mode; static uint64_t acquired;
static long kfrees, vfrees, kdue, vdue;

static int h_fn(const void* k) {
    const key_t_* x = k; VP_CHECK(x->magic == 0x6B657931u, "map.key", "hash function got a key that does not exist any more");
    switch (hmode) { case 0: return 0; case 1: return x->id; case 2: return x->id & 3; case 3: return (int)vp_mix(hsalt, (uint64_t)x->id); case 4: return hash_function_string(x->text); case 5: return x->id << 20; case 6: return -x->id; default: return hash_function_integer((void*)(intptr_t)x->id); }
}
static bool eq_fn(const void* a, const void* b) {
    const key_t_ *x = a, *y = b; VP_CHECK(x->magic == 0x6B657931u && y->magic == 0x6B657931u, "map.key", "equality function got a key that does not exist any more");
    if (locked_mode) VP_CHECK(depth == 1, "map.lock", "keys of the map compared without the lock");
    return x->id == y->id;
}
static void kill_key(key_t_* k) { k->magic = 0xdead; free(k->text); free(k); }
static void kf(void* k) { key_t_* x = k; VP_CHECK(x && x->magic == 0x6B657931u, "map.key-destructor", "key destroyed twice or not a key"); kfrees++; kill_key(x); }
static void vf(void* v) { val_t* x = v; VP_CHECK(x && x->magic == 0x76616C31u && !x->freed, "map.value-destructor", "value destroyed twice or not a value"); x->freed = 1; vfrees++; VP_CHECK(x->due, "map.value-destructor", "destructor ran for a value that stays"); x->magic = 0xdead; free(x); }
static int acq(void* a) { VP_CHECK(a == &depth, "map.lock", "lock called with a foreign argument"); VP_CHECK(depth == 0, "map.lock", "lock acquired again while held"); depth++; acquired++; return 0; }
static int rel(void* a) { VP_CHECK(a == &depth, "map.lock", "lock called with a foreign argument"); VP_CHECK(depth == 1, "map.lock", "lock released while not held"); depth--; return 0; }
static key_t_* new_key(int id) { key_t_* k = malloc(sizeof *k); char b[32]; int n = snprintf(b, sizeof b, "key-%d", id); k->magic = 0x6B657931u; k->id = id; k->text = malloc((size_t)n + 1); memcpy(k->text, b, (size_t)n + 1); k->freed = 0; return k; }
static val_t* new_val(void) { val_t* v = malloc(sizeof *v); *v = (val_t){0x76616C31u, 0, 0}; return v; }
static hashmap_t* M;
static uint64_t ops_locked;
#define LOCKED_BEGIN() uint64_t a0_ = acquired
#define LOCKED_END(what) do { if (locked_mode) { VP_CHECK(depth == 0, "map.lock", what " returned with the lock held"); VP_CHECK(acquired > a0_, "map.lock", what " did not take the lock"); ops_locked++; } } while (0)
static void drop(int id) { /* the map disposes of entry id */
    if (kfree) kdue++; 
    if (vfree && mv[id]) { vdue++; mv[id]->due = 1; }
}
static void after_drop(int id) { if (!kfree) kill_key(mk[id]); if (!vfree && mv[id]) free(mv[id]); mk[id] = NULL; mv[id] = NULL; present[id] = false; count--; }
static void dtors(const char* op) { VP_CHECK(kfrees == kdue, "map.key-destructor", "after %s: %ld keys destroyed, %ld due", op, kfrees, kdue); VP_CHECK(vfrees == vdue, "map.value-destructor", "after %s: %ld values destroyed, %ld due", op, vfrees, vdue); }
typedef struct { int stop_at, visited; unsigned char* seen; bool remove; int removed; int rlist[64]; } it_t;
static bool visit(void* key, void* value, void* ctx) {
    it_t* t = ctx; key_t_* k = key;
    VP_CHECK(k && k->magic == 0x6B657931u && k->id >= 0 && k->id < UNI, "map.iterate", "iteration passed a key that does not exist");
    int id = k->id;
    if (locked_mode) VP_CHECK(depth == 1, "map.lock", "iteration without the lock");
    VP_CHECK(present[id] && mk[id] == k && mv[id] == value, "map.iterate", "iteration passed a pair the map does not hold (key %d)", id);
    VP_CHECK(!t->seen[id], "map.iterate", "key %d visited twice", id);
    t->seen[id] = 1; t->visited++;
    VP_CHECK(!t->stop_at || t->visited <= t->stop_at, "map.iterate-stop", "visitor called again after it returned false");
    if (t->remove && t->visited % 3 == 0 && t->removed < 64) { drop(id); t->rlist[t->removed++] = id; bool hv = mv[id] != NULL; void* r = hashmap_remove(M, k); VP_CHECK((r != NULL) == hv, "map.remove", "remove of the visited key answered %p", r); }
    return t->visited != t->stop_at;
}
static void full_check(const char* op) {
    it_t t = {0}; t.seen = calloc(UNI, 1);
    LOCKED_BEGIN(); hashmap_foreach(M, visit, &t); LOCKED_END("foreach");
    VP_CHECK(t.visited == count, "map.iterate", "after %s: iteration visited %d of %d entries", op, t.visited, count);
    free(t.seen);
}
static int lasting;
static void m_history(void) {
    memset(mk, 0, sizeof mk); memset(mv, 0, sizeof mv); memset(present, 0, sizeof present); count = 0; kfrees = vfrees = kdue = vdue = 0; depth = 0; acquired = 0;
    kfree = vp_chance(2, 3); vfree = vp_chance(2, 3); hmode = (int)vp_below(8); hsalt = vp_rand(); locked_mode = vp_chance(1, 2);
    int uni = (int)vp_between(1, vp_chance(1, 3) ? 12 : 150), ops = (int)vp_between(10, 300); bool big = vp_chance(1, 40);
    if (lasting) { big = false; ops = (int)vp_between(66000, 150000); uni = (int)vp_between(1, 60); }
    if (big) { uni = hmode == 0 ? 400 : UNI; ops = hmode == 0 ? 800 : 9000; }
    size_t cap0 = vp_chance(1, 3) ? 0 : (size_t)vp_below(vp_chance(1, 5) ? 2000 : 40);
    hashmap_lock_t lk = { &depth, acq, rel };
    M = hashmap_create(cap0, h_fn, kfree ? kf : NULL, vfree ? vf : NULL, eq_fn, locked_mode ? &lk : NULL);
    VP_CHECK(M, "map.create", "NULL");
    memset(&lk, 0x5a, sizeof lk); /* the map keeps its own copy */
    vp_trace("hash %d universe %d cap %zu kfree %d vfree %d lock %d", hmode, uni, cap0, kfree, vfree, locked_mode);
    uint64_t h = 0; int maxc = 0, replaced = 0, removed = 0;
    for (int o = 0; o < ops; o++) {
        int id = (int)vp_below((uint64_t)uni); unsigned w = (unsigned)vp_below(100); if (big && w >= 80 && vp_chance(19, 20)) w = (unsigned)vp_below(70);
        const char* op;
        if (w < 38 + (big ? 12 : 0)) { op = "put";
            key_t_* k = present[id] && vp_chance(1, 4) ? mk[id] : new_key(id); bool same_k = present[id] && k == mk[id];
            val_t* v = vp_chance(1, 12) ? NULL : present[id] && mv[id] && vp_chance(1, 6) ? mv[id] : new_val(); bool same_v = present[id] && v && v == mv[id];
            vp_trace("put %d%s%s%s", id, present[id] ? " (replace)" : "", same_v ? " same value" : "", v ? "" : " NULL");
            val_t* old = present[id] ? mv[id] : NULL; bool was = present[id];
            if (was && old && !same_v && vfree) { old->due = 1; vdue++; }
            LOCKED_BEGIN(); void* r = hashmap_put(M, k, v); LOCKED_END("put");
            VP_CHECK(r == (was ? (void*)old : NULL), "map.put", "put of %s key returned %p, old value %p", was ? "an existing" : "a new", r, (void*)old);
            if (was) { replaced++; if (!same_k) kill_key(k); if (old && !same_v && !vfree) free(old); mv[id] = v; if (same_v) vp_count("put_same_value", 1); }
            else { present[id] = true; mk[id] = k; mv[id] = v; count++; }
        } else if (w < 58) { op = "get"; key_t_* k = new_key(id); vp_trace("get %d", id);
            LOCKED_BEGIN(); void* r = hashmap_get(M, k); LOCKED_END("get");
            VP_CHECK(r == (present[id] ? (void*)mv[id] : NULL), "map.get", "get of key %d returned %p, the map holds %p", id, r, (void*)mv[id]); kill_key(k);
            if (!present[id]) vp_count("get_absent", 1);
        } else if (w < 80) { op = "remove"; bool was = present[id]; key_t_* k = was && vp_chance(1, 4) ? mk[id] : new_key(id); bool own = was && k == mk[id]; vp_trace("remove %d%s", id, was ? "" : " (absent)");
            val_t* old = mv[id]; if (was) drop(id);
            LOCKED_BEGIN(); void* r = hashmap_remove(M, k); LOCKED_END("remove");
            VP_CHECK(r == (was ? (void*)old : NULL), "map.remove", "remove of key %d returned %p, the map held %p", id, r, (void*)old);
            if (!own) kill_key(k);
            if (was) { after_drop(id); removed++; }
        } else if (w < 86) { op = "iterate"; full_check("history");
        } else if (w < 92) { op = "iterate-stop"; if (count) { it_t t = {0}; t.seen = calloc(UNI, 1); t.stop_at = (int)vp_between(1, count); vp_trace("foreach stop at %d of %d", t.stop_at, count);
                LOCKED_BEGIN(); hashmap_foreach(M, visit, &t); LOCKED_END("foreach");
                VP_CHECK(t.visited == t.stop_at, "map.iterate-stop", "iteration told to stop at %d visited %d of %d", t.stop_at, t.visited, count); free(t.seen); vp_count("iterations_stopped", 1); }
        } else if (w < 95) { op = "size"; 
        } else if (w < 97) { op = "iterate-remove"; if (!locked_mode) { it_t t = {0}; t.seen = calloc(UNI, 1); t.remove = true; int c0 = count; vp_trace("foreach removing");
                hashmap_foreach(M, visit, &t); VP_CHECK(t.visited == c0, "map.iterate", "iteration that removes visited entries visited %d of %d", t.visited, c0);
                for (int i = 0; i < t.removed; i++) after_drop(t.rlist[i]);
                free(t.seen); vp_count("removed_while_iterating", (uint64_t)t.removed); }
        } else if (w < 98) { op = "clear"; vp_trace("clear"); for (int i = 0; i < uni; i++) if (present[i]) drop(i);
            LOCKED_BEGIN(); hashmap_clear(M); LOCKED_END("clear");
            for (int i = 0; i < uni; i++) if (present[i]) after_drop(i); vp_count("clears", 1);
        } else { op = "null"; VP_CHECK(!hashmap_get(NULL, NULL) && !hashmap_remove(NULL, NULL) && !hashmap_put(NULL, NULL, NULL), "map.null", "NULL map accepted"); hashmap_clear(NULL); hashmap_foreach(NULL, visit, NULL); hashmap_free(NULL); }
        { LOCKED_BEGIN(); size_t s = hashmap_size(M); LOCKED_END("size"); VP_CHECK(s == (size_t)count, "map.size", "after %s: size %zu, map holds %d", op, s, count); }
        dtors(op);
        h = vp_mix(h, w * 4096 + (unsigned)count); if (count > maxc) maxc = count; vp_seen(vp_mix(w / 10, vp_mix((uint64_t)hmode, (uint64_t)(count > 64 ? 64 : count))));
    }
    full_check("history");
    for (int i = 0; i < uni; i++) if (present[i]) { key_t_* k = new_key(i); VP_CHECK(hashmap_get(M, k) == mv[i], "map.get", "key %d lost or wrong at the end", i); kill_key(k); }
    for (int i = 0; i < uni; i++) if (present[i]) drop(i);
    hashmap_free(M);
    VP_CHECK(depth == 0, "map.lock", "free left the lock held");
    dtors("free");
    for (int i = 0; i < uni; i++) if (present[i]) after_drop(i);
    if (maxc > (int)cap0 + 8) vp_count("grown", 1);
    if (maxc > 1000) vp_count("large_maps", 1);
    vp_count("operations", (uint64_t)ops); vp_count("replaced", (uint64_t)replaced); vp_count("removed", (uint64_t)removed); vp_count("operations_locked", ops_locked); ops_locked = 0;
    vp_case_mix(h); if (replaced && removed) vp_nontrivial();
    if (vp_want_sample()) vp_sample("%d operations, hash kind %d, %d keys, at most %d held, initial %zu, lock %d", ops, hmode, uni, maxc, cap0, locked_mode);
}
/* several threads on one map with a mutex for its lock */
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static volatile int holder; 
static int macq(void* a) { pthread_mutex_lock(a); VP_CHECK(holder == 0, "map.lock", "two holders"); holder = 1; return 0; }
static int mrel(void* a) { VP_CHECK(holder == 1, "map.lock", "released while not held"); holder = 0; pthread_mutex_unlock(a); return 0; }
static int ci_hash(const void* k) { return (int)((intptr_t)k % 97); }
static bool ci_eq(const void* a, const void* b) { return a == b; }
typedef struct { int me; uint64_t seed; int ops; int own; void* cur[64]; uint64_t puts; } cthr_t;
static bool cvisit(void* k, void* v, void* c) { (void)k; uint64_t* s = c; VP_CHECK(v != NULL && ((uintptr_t)v >> 56) == 0x11, "map.concurrent", "iteration saw a value never put"); (*s)++; if (*s % 5 == 0) sched_yield(); return *s < 300; }
static void* cthread(void* a) {
    cthr_t* t = a; vp_rng_t r; vp_rng_init(&r, t->seed, 5);
    for (int i = 0; i < t->ops; i++) {
        unsigned w = (unsigned)vp_rng_below(&r, 100); int s = (int)vp_rng_below(&r, (uint64_t)t->own);
        void* k = (void*)(intptr_t)(1 + t->me * 100000 + s);
        if (w < 45) { void* v = (void*)(0x1100000000000000ull | (uint64_t)t->me << 40 | (uint64_t)i << 8 | (uint64_t)s); void* o = hashmap_put(M, k, v);
            VP_CHECK(o == t->cur[s], "map.concurrent", "thread %d: put on its own key returned %p, last put %p", t->me, o, t->cur[s]); t->cur[s] = v; t->puts++; }
        else if (w < 70) { void* o = hashmap_get(M, k); VP_CHECK(o == t->cur[s], "map.concurrent", "thread %d: get of its own key returned %p, last put %p", t->me, o, t->cur[s]); }
        else if (w < 92) { void* o = hashmap_remove(M, k); VP_CHECK(o == t->cur[s], "map.concurrent", "thread %d: remove of its own key returned %p, last put %p", t->me, o, t->cur[s]); t->cur[s] = NULL; }
        else if (w < 96) { uint64_t c = 0; hashmap_foreach(M, cvisit, &c); }
        else { size_t s2 = hashmap_size(M); VP_CHECK(s2 <= 8 * 64, "map.concurrent", "size %zu", s2); }
    }
    return 0;
}
static void m_concurrent(void) {
    locked_mode = false; int T = (int)vp_between(2, 6); cthr_t* t = calloc(8, sizeof *t); pthread_t th[8];
    if (vps_set) vps_set(vp_rand(), (unsigned)vp_between(2, 30));
    hashmap_lock_t lk = { &mx, macq, mrel }; holder = 0;
    M = hashmap_create((size_t)vp_below(4), ci_hash, NULL, NULL, ci_eq, &lk);
    for (int i = 0; i < T; i++) { t[i].me = i; t[i].seed = vp_rand(); t[i].ops = (int)vp_between(50, 1500); t[i].own = (int)vp_between(1, 64); pthread_create(&th[i], 0, cthread, &t[i]); }
    size_t live = 0; uint64_t h = 0, puts = 0;
    for (int i = 0; i < T; i++) { pthread_join(th[i], 0); for (int s = 0; s < 64; s++) live += t[i].cur[s] != NULL; h = vp_mix(h, t[i].puts); puts += t[i].puts; }
    VP_CHECK(hashmap_size(M) == live, "map.concurrent", "size %zu after concurrent use, %zu entries live", hashmap_size(M), live);
    uint64_t c = 0; hashmap_foreach(M, cvisit, &c); VP_CHECK(c == (live < 300 ? live : 300), "map.concurrent", "iteration visits %llu of %zu", (unsigned long long)c, live);
    for (int i = 0; i < T; i++) for (int s = 0; s < 64; s++) VP_CHECK(hashmap_get(M, (void*)(intptr_t)(1 + i * 100000 + s)) == t[i].cur[s], "map.concurrent", "entry lost or wrong after concurrent use");
    hashmap_free(M); free(t); vp_count("concurrent_puts", puts); vp_case_mix(h); vp_nontrivial();
}
/* one object is both the key and the value (a set of records that carry their key); the map frees it through one of its two destructors */
typedef struct { uint32_t magic; int id; } rec_t;
static long rec_frees, rec_due; static int rec_hash(const void* k) { const rec_t* r = k; VP_CHECK(r->magic == 0x5EC0DD5u, "map.key", "hash function got a record that does not exist any more"); return r->id % 7; }
static bool rec_eq(const void* a, const void* b) { const rec_t *x = a, *y = b; VP_CHECK(x->magic == 0x5EC0DD5u && y->magic == 0x5EC0DD5u, "map.key", "equality function got a record that does not exist any more"); return x->id == y->id; }
static void rec_free(void* p) { rec_t* r = p; VP_CHECK(r && r->magic == 0x5EC0DD5u, "map.value-destructor", "record destroyed twice or not a record"); r->magic = 0; rec_frees++; free(r); }
static bool rec_visit(void* k, void* v, void* c) { VP_CHECK(k == v, "map.iterate", "record passed with another value"); ((int*)c)[((rec_t*)k)->id]++; return true; }
static void m_records(void) {
    rec_t* held[60] = {0}; int n = 0, uni = (int)vp_between(1, 60), ops = (int)vp_between(10, 200); bool by_value = vp_chance(1, 2); rec_frees = rec_due = 0; uint64_t h = 0; int removed = 0;
    M = hashmap_create((size_t)vp_below(20), rec_hash, by_value ? NULL : rec_free, by_value ? rec_free : NULL, rec_eq, NULL); VP_CHECK(M, "map.create", "NULL");
    vp_trace("records freed as %s", by_value ? "value" : "key");
    for (int o = 0; o < ops; o++) { int id = (int)vp_below((uint64_t)uni); rec_t q = {0x5EC0DD5u, id}; unsigned w = (unsigned)vp_below(100);
        if (w < 45) { vp_trace("put %d", id); if (!held[id]) { rec_t* r = malloc(sizeof *r); *r = q; VP_CHECK(!hashmap_put(M, r, r), "map.put", "put of a new record returned a value"); held[id] = r; n++; }
                      else VP_CHECK(hashmap_put(M, held[id], held[id]) == held[id], "map.put", "put of the record already held did not return it"); }
        else if (w < 65) { vp_trace("get %d", id); VP_CHECK(hashmap_get(M, &q) == held[id], "map.get", "record %d lost or wrong", id); }
        else if (w < 92) { vp_trace("remove %d", id); rec_t* was = held[id]; VP_CHECK(hashmap_remove(M, &q) == was, "map.remove", "remove of record %d", id); if (was) { held[id] = NULL; n--; rec_due++; removed++; } }
        else if (w < 97) { int seen[60] = {0}; hashmap_foreach(M, rec_visit, seen); for (int i = 0; i < uni; i++) VP_CHECK(seen[i] == (held[i] != NULL), "map.iterate", "record %d visited %d times", i, seen[i]); }
        else { vp_trace("clear"); hashmap_clear(M); rec_due += n; n = 0; memset(held, 0, sizeof held); }
        VP_CHECK(hashmap_size(M) == (size_t)n, "map.size", "size %zu, map holds %d", hashmap_size(M), n);
        VP_CHECK(rec_frees == rec_due, "map.value-destructor", "%ld records destroyed, %ld due", rec_frees, rec_due); h = vp_mix(h, w * 64 + (unsigned)n); }
    hashmap_free(M); rec_due += n; VP_CHECK(rec_frees == rec_due, "map.value-destructor", "after free: %ld records destroyed, %ld due", rec_frees, rec_due);
    vp_count("records_removed", (uint64_t)removed); vp_case_mix(h); if (removed) vp_nontrivial();
}
/* more than 2^16 entries: growth through every size, with plain and with poor hashes */
static int sc_mask; static int sc_hash(const void* k) { uint32_t v = (uint32_t)(uintptr_t)k; return (int)(sc_mask ? v & (uint32_t)sc_mask : v * 2654435761u); } static bool sc_eq(const void* a, const void* b) { return a == b; }
static long sc_vfree; static void sc_vf(void* v) { (void)v; sc_vfree++; }
typedef struct { uint8_t* seen; size_t n, cnt; uintptr_t off; } scit_t;
static bool sc_it(void* k, void* v, void* u) { scit_t* s = u; uintptr_t i = (uintptr_t)k - 1; VP_CHECK(i < s->n && (uintptr_t)v == (i ^ 0x5555) + s->off, "map.content", "key %lu has value %lu", (unsigned long)i, (unsigned long)(uintptr_t)v); VP_CHECK(!s->seen[i], "map.twice", "key %lu visited twice", (unsigned long)i); s->seen[i] = 1; s->cnt++; if (!(s->cnt & 0xfff)) vp_beat(); return true; }
static void m_scale(void) {
    size_t N = vp_case % 3 == 1 ? 400000 + vp_below(1000000) : 66000 + vp_below(80000); sc_mask = vp_case % 3 == 2 ? 0x3fff : 0; if (sc_mask) N = 66000; sc_vfree = 0; hashmap_t* h = hashmap_create(vp_chance(1, 2) ? 0 : vp_below(5000), sc_hash, NULL, sc_vf, sc_eq, NULL); VP_CHECK(h, "map.create", "NULL");
    for (size_t i = 0; i < N; i++) { VP_CHECK(!hashmap_put(h, (void*)(i + 1), (void*)((i ^ 0x5555) + 1)), "map.put", "new key %zu replaced something", i); if (!(i & 0xfff)) { vp_beat(); VP_CHECK(hashmap_size(h) == i + 1, "map.size", "%zu after %zu", hashmap_size(h), i + 1); } }
    VP_CHECK(hashmap_size(h) == N, "map.size", "%zu of %zu", hashmap_size(h), N); for (size_t i = 0; i < N; i++) { VP_CHECK((uintptr_t)hashmap_get(h, (void*)(i + 1)) == (i ^ 0x5555) + 1, "map.get", "key %zu of %zu lost or wrong", i, N); if (!(i & 0xfff)) vp_beat(); }
    VP_CHECK(!hashmap_get(h, (void*)(N + 1)) && !hashmap_remove(h, (void*)(N + 77)), "map.absent", "an absent key is present");
    scit_t s = { calloc(N, 1), N, 0, 1 }; hashmap_foreach(h, sc_it, &s); VP_CHECK(s.cnt == N, "map.foreach", "visited %zu of %zu", s.cnt, N);
    size_t gone = 0; for (size_t i = 0; i < N; i += 1 + (i & 1)) { (void)hashmap_remove(h, (void*)(i + 1)); gone++; if (!(i & 0xfff)) vp_beat(); } VP_CHECK(hashmap_size(h) == N - gone && sc_vfree == (long)gone, "map.remove", "%zu left of %zu after removing %zu; %ld values freed", hashmap_size(h), N, gone, sc_vfree);
    memset(s.seen, 0, N); s.cnt = 0; hashmap_foreach(h, sc_it, &s); VP_CHECK(s.cnt == N - gone, "map.foreach", "visited %zu of %zu", s.cnt, N - gone);
    if (vp_chance(1, 2)) { hashmap_clear(h); VP_CHECK(hashmap_size(h) == 0 && sc_vfree == (long)N, "map.clear", "%zu left, %ld values freed", hashmap_size(h), sc_vfree); } hashmap_free(h); VP_CHECK(sc_vfree == (long)N, "map.free", "%ld of %zu values freed", sc_vfree, N); free(s.seen); vp_count("large_maps", 1); vp_case_mix(N); vp_nontrivial();
}
static void m_long(void) { lasting = 1; m_history(); vp_count("long_lives", 1); }
const vp_mode_t vp_modes[] = { {"long", m_long}, {"history", m_history}, {"concurrent", m_concurrent}, {"records", m_records}, {"scale", m_scale}, {0} };
