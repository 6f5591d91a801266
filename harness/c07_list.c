/* C07: linked list against an ordinary sequence. */
#include "vp.h"
#include "data/list.h"
#define ITEMS 40
#define MAXN 4000
typedef struct { uint32_t magic; int id; long due, freed; } item_t;
static item_t* items[ITEMS];
typedef struct { item_t* it; uint64_t node; } mnode_t;
static mnode_t m[MAXN]; static int n; static uint64_t next_node;
static list_t* L; static bool has_free;
/* a caller's allocator that may fail and keeps its own account (the constructor taking it is not in the header) */
#include "mem/allocator.h"
list_t* list_new_internal(list_free_cb callback, const allocator_t* zeroed_allocator) __attribute__((weak));
static bool own_alloc; static unsigned fail_pct; static long blocks, own_base; static int refused_last;
static void* own_get(size_t k) { refused_last = 0; if (vp_below(100) < fail_pct) { refused_last = 1; return NULL; } void* q = malloc(k); if (q) memset(q, 0, k); blocks++; return q; }
static void own_put(void* q) { VP_CHECK(q, "list.allocator", "NULL given back to the allocator"); blocks--; free(q); }
static const allocator_t own = { own_get, own_put };
static bool grown(bool ok, int at, item_t* it);

static void on_free(void* d) {
    item_t* it = d;
    VP_CHECK(it && it->magic == 0x17E311u, "list.destructor", "destructor called with something that is not an element");
    it->freed++;
    VP_CHECK(it->freed <= it->due, "list.destructor", "destructor ran for element %d, which stays in the list or was destroyed already", it->id);
}
static void m_insert(int at, item_t* it) { memmove(m + at + 1, m + at, sizeof *m * (size_t)(n - at)); m[at].it = it; m[at].node = ++next_node; n++; }
static void m_remove(int at) { if (has_free) m[at].it->due++; memmove(m + at, m + at + 1, sizeof *m * (size_t)(n - at - 1)); n--; }
static bool grown(bool ok, int at, item_t* it) { if (own_alloc && refused_last) { refused_last = 0; vp_count("refused_insertions", 1); return !ok; } if (ok) m_insert(at, it); return ok; }
static int m_find(item_t* it) { for (int i = 0; i < n; i++) if (m[i].it == it) return i; return -1; }

static void verify(const char* op, bool deep) {
    VP_CHECK(list_length(L) == (size_t)n, "list.length", "after %s: length %zu, sequence has %d", op, list_length(L), n);
    VP_CHECK(list_is_empty(L) == (n == 0), "list.empty", "after %s: is_empty %d with %d elements", op, list_is_empty(L), n);
    VP_CHECK(list_front(L) == (n ? (void*)m[0].it : NULL), "list.front", "after %s: wrong front", op);
    VP_CHECK(list_back(L) == (n ? (void*)m[n - 1].it : NULL), "list.back", "after %s: wrong back", op);
    list_node_t* bn = list_back_node(L);
    VP_CHECK(n ? (bn && list_node(bn) == m[n - 1].it && list_next(bn) == list_end(L)) : !bn, "list.back", "after %s: wrong back node", op);
    for (int i = 0; i < ITEMS; i++) VP_CHECK(items[i]->freed == items[i]->due, "list.destructor", "after %s: destructor ran %ld times for element %d, %ld due", op, items[i]->freed, i, items[i]->due);
    if (!deep) return;
    int i = 0;
    for (list_node_t* x = list_begin(L); x != list_end(L); x = list_next(x), i++) {
        VP_CHECK(i < n, "list.sequence", "after %s: iteration goes on past %d elements", op, n);
        VP_CHECK(list_node(x) == m[i].it, "list.sequence", "after %s: element %d differs", op, i);
    }
    VP_CHECK(i == n, "list.sequence", "after %s: iteration ends after %d of %d", op, i, n);
    int k = (int)vp_below(ITEMS);
    VP_CHECK(list_contains(L, items[k]) == (m_find(items[k]) >= 0), "list.contains", "after %s: contains wrong", op);
}
/* traversal with a plan: what to do at which visited element */
typedef struct { int stop_at; int remove_mod; int prepend_mod; int append_mod; int clear_at; int visited; int pos_min; uint64_t last_orig; int ret_stop; bool bad; uint64_t orig_max; uint64_t seen_nodes[MAXN]; int removed, added; } plan_t;
static bool visit(void* data, void* ctx) {
    plan_t* p = ctx; item_t* it = data;
    VP_CHECK(it && it->magic == 0x17E311u, "list.foreach", "traversal passed something that is not an element");
    /* which model node is this? the first one of the original sequence not seen yet, or one appended meanwhile */
    int at = -1;
    for (int i = 0; i < n; i++) if (m[i].node > p->last_orig && m[i].node <= p->orig_max) { at = i; break; }
    if (at < 0) { /* all original elements seen: only something appended during the traversal may come */
        int j = -1; for (int i = n - 1; i >= 0; i--) if (m[i].it == it && m[i].node > p->orig_max) { j = i; break; }
        VP_CHECK(j >= 0 && p->added, "list.foreach", "traversal visited element %d again", it->id);
        p->visited++; VP_CHECK(p->visited < 4 * MAXN, "list.foreach", "traversal does not end");
        return true;
    }
    VP_CHECK(m[at].it == it, "list.foreach", "traversal visited element %d where %d was due", it->id, m[at].it->id);
    /* nodes are numbered in order of position for the traversal, see m_foreach */
    p->last_orig = m[at].node; p->visited++;
    if (p->stop_at == p->visited) { p->ret_stop = 1; return false; }
    if (p->remove_mod && p->visited % p->remove_mod == 0) {
        int f = m_find(it); 
        m_remove(f); p->removed++;
        bool ok = list_remove(L, it);
        VP_CHECK(ok, "list.remove", "removing the visited element answered false");
    }
    if (p->prepend_mod && p->visited % p->prepend_mod == 0 && n < MAXN - 2) {
        item_t* x = items[vp_below(ITEMS)]; m_insert(0, x); VP_CHECK(list_prepend(L, x), "list.prepend", "refused"); p->added++;
        m[0].node = UINT64_MAX; /* must not be visited */
    }
    if (p->append_mod && p->visited % p->append_mod == 0 && n < MAXN - 2 && p->added < 20) {
        item_t* x = items[vp_below(ITEMS)]; m_insert(n, x); VP_CHECK(list_append(L, x), "list.append", "refused"); p->added++;
    }
    return true;
}
static void foreach_op(void) {
    plan_t p; memset(&p, 0, offsetof(plan_t, seen_nodes)); p.removed = p.added = 0;
    uint64_t base = next_node; for (int i = 0; i < n; i++) m[i].node = ++next_node; /* renumber by position */
    p.last_orig = base; p.orig_max = next_node;
    int n0 = n;
    switch (vp_below(6)) {
    case 0: break;
    case 1: p.stop_at = (int)vp_between(1, n0 + 1); break;
    case 2: p.remove_mod = (int)vp_between(1, 4); break;
    case 3: p.prepend_mod = (int)vp_between(1, 4); if (vp_chance(1, 2)) p.remove_mod = 2; break;
    case 4: p.append_mod = (int)vp_between(1, 4); break;
    default: p.remove_mod = (int)vp_between(1, 3); p.stop_at = (int)vp_between(1, n0 + 1); break;
    }
    vp_trace("foreach stop %d remove %d prepend %d append %d of %d", p.stop_at, p.remove_mod, p.prepend_mod, p.append_mod, n0);
    item_t* expect = p.stop_at && p.stop_at <= n0 ? m[p.stop_at - 1].it : NULL;
    list_node_t* r = list_foreach(L, visit, &p);
    if (expect) {
        VP_CHECK(p.ret_stop && p.visited == p.stop_at, "list.foreach", "traversal told to stop at %d visited %d", p.stop_at, p.visited);
        VP_CHECK(r && list_node(r) == expect, "list.foreach", "stopped traversal does not return the element it stopped at");
        vp_count("foreach_stopped", 1);
    } else {
        VP_CHECK(p.visited >= n0, "list.foreach", "traversal visited %d of %d", p.visited, n0);
        VP_CHECK(r == NULL, "list.foreach", "complete traversal returns an element");
    }
    if (p.removed) vp_count("foreach_removed_visited", 1);
    for (int i = 0; i < n; i++) if (m[i].node == UINT64_MAX) m[i].node = 0;
    verify("foreach", true);
}
static int lasting;
static void m_history(void) {
    n = 0; next_node = 0; has_free = vp_chance(3, 4);
    for (int i = 0; i < ITEMS; i++) { items[i] = malloc(sizeof(item_t)); *items[i] = (item_t){0x17E311u, i, 0, 0}; }
    own_alloc = list_new_internal && vp_chance(1, 3); fail_pct = 0; blocks = 0; refused_last = 0;
    if (own_alloc) { if (vp_chance(1, 4)) { fail_pct = 100; VP_CHECK(!list_new_internal(on_free, &own) && blocks == 0, "list.new", "made without memory"); fail_pct = 0; } L = list_new_internal(has_free ? on_free : NULL, &own); refused_last = 0; own_base = blocks; vp_count("own_allocator", 1); }
    else L = list_new(has_free ? on_free : NULL);
    VP_CHECK(L, "list.new", "NULL");
    int ops = (int)vp_between(5, 120), universe = (int)vp_between(1, ITEMS), big = vp_chance(1, 60);
    if (big) ops = 1500;
    if (lasting) { ops = (int)vp_between(66000, 90000); big = false; }
    uint64_t h = 0; int maxn = 0;
    for (int o = 0; o < ops; o++) {
        item_t* it = items[vp_below((uint64_t)universe)];
        fail_pct = own_alloc && vp_chance(1, 2) ? 30 : 0; unsigned w = (unsigned)vp_below(100); if (w >= 74) fail_pct = 0; if (big && w > 30 && vp_chance(9, 10)) w = (unsigned)vp_below(48);
        const char* op = "";
        if (n >= MAXN - 4) w = 97;
        if (w < 18) { op = "append"; vp_trace("append %d", it->id); VP_CHECK(grown(list_append(L, it), n, it), "list.append", "refused, or accepted without memory"); }
        else if (w < 34) { op = "prepend"; vp_trace("prepend %d", it->id); VP_CHECK(grown(list_prepend(L, it), 0, it), "list.prepend", "refused, or accepted without memory"); }
        else if (w < 50) { op = "insert_after"; if (!n) { VP_CHECK(!list_insert_after(L, NULL, it), "list.insert", "accepted without a node"); }
            else { int at = vp_chance(1, 3) ? n - 1 : (int)vp_below((uint64_t)n); list_node_t* x = list_begin(L); for (int i = 0; i < at; i++) x = list_next(x);
                vp_trace("insert %d after %d", it->id, at); VP_CHECK(grown(list_insert_after(L, x, it), at + 1, it), "list.insert", "refused, or accepted without memory"); } }
        else if (w < 74) { op = "remove"; int sel = (int)vp_below(4); if (n && sel == 0) it = m[0].it; else if (n && sel == 1) it = m[n - 1].it; else if (n && sel == 2) it = m[vp_below((uint64_t)n)].it;
            int at = m_find(it); vp_trace("remove %d (at %d)", it->id, at); if (at >= 0) m_remove(at);
            bool ok = list_remove(L, it); VP_CHECK(ok == (at >= 0), "list.remove", "remove answered %d, element %s", ok, at >= 0 ? "was there" : "was not there"); if (at < 0) vp_count("remove_absent", 1); }
        else if (w < 92) { op = "foreach"; foreach_op(); }
        else if (w < 96) { op = "nulls"; VP_CHECK(!list_append(L, NULL) && !list_prepend(L, NULL) && !list_remove(L, NULL) && !list_contains(L, NULL), "list.null", "NULL element accepted");
            VP_CHECK(!list_append(NULL, it) && !list_remove(NULL, it) && list_length(NULL) == 0 && !list_foreach(NULL, visit, NULL), "list.null", "NULL list accepted"); list_clear(NULL); list_free(NULL); }
        else { op = "clear"; vp_trace("clear"); while (n) m_remove(n - 1); list_clear(L); vp_count("clears", 1); }
        refused_last = 0; if (own_alloc) VP_CHECK(blocks <= n + own_base, "list.allocator", "after %s: %ld blocks held for %d elements and the list", op, blocks, n);
        verify(op, lasting ? o % 200 == 0 : !big || o % 50 == 0); if (!(o & 0xfff)) vp_beat();
        h = vp_mix(h, w * 4096 + (unsigned)n); if (n > maxn) maxn = n;
        vp_seen(vp_mix((uint64_t)w / 16, (uint64_t)(n > 100 ? 100 : n)));
    }
    if (maxn > 500) vp_count("long_lists", 1);
    vp_trace("free with %d", n);
    int left = n; while (n) m_remove(n - 1);
    list_free(L); if (own_alloc) VP_CHECK(blocks == 0, "list.allocator", "%ld blocks still held after list_free", blocks);
    for (int i = 0; i < ITEMS; i++) VP_CHECK(items[i]->freed == items[i]->due, "list.destructor", "after free: destructor ran %ld times for element %d, %ld due", items[i]->freed, i, items[i]->due);
    vp_count("freed_at_end", (uint64_t)left);
    for (int i = 0; i < ITEMS; i++) free(items[i]);
    vp_case_mix(h); if (maxn >= 3) vp_nontrivial();
    vp_count("operations", (uint64_t)ops);
    if (vp_want_sample()) vp_sample("%d operations, at most %d elements, %d distinct, destructor %d", ops, maxn, universe, has_free);
}
/* lengths beyond 2^16 */
static int sc_freed; static void sc_free(void* d) { (void)d; sc_freed++; }
typedef struct { uintptr_t* want; int i, n; int rm; list_t* l; } sc_t;
static bool sc_visit(void* d, void* u) { sc_t* s = u; VP_CHECK(s->i < s->n && (uintptr_t)d == s->want[s->i], "list.order", "element %d of %d is %lu", s->i, s->n, (unsigned long)(uintptr_t)d); s->i++; if (!(s->i & 0xfff)) vp_beat(); if (s->rm && s->i % 3 == 0) VP_CHECK(list_remove(s->l, d), "list.remove", "element under the traversal not found"); return true; }
static void m_scale(void) {
    int N = 66000 + (int)vp_below(9000); list_t* l = list_new(sc_free); sc_freed = 0; uintptr_t* w = malloc(sizeof *w * (size_t)N), a = (uintptr_t)N, b = (uintptr_t)N; uintptr_t* all = calloc((size_t)(2 * N + 2), sizeof *all); size_t lo = (size_t)N, hi = (size_t)N;
    for (int i = 0; i < N; i++) { if (vp_chance(1, 2)) { all[hi++] = b; VP_CHECK(list_append(l, (void*)b++), "list.append", "refused at %d", i); } else { all[--lo] = --a; VP_CHECK(list_prepend(l, (void*)a), "list.prepend", "refused at %d", i); }
        VP_CHECK(list_length(l) == (size_t)i + 1 && !list_is_empty(l), "list.length", "length %zu after %d additions", (size_t)list_length(l), i + 1); if (!(i & 0xfff)) vp_beat(); }
    VP_CHECK((uintptr_t)list_front(l) == all[lo] && (uintptr_t)list_back(l) == all[hi - 1], "list.ends", "front or back is wrong"); memcpy(w, all + lo, sizeof *w * (size_t)N);
    sc_t s = { w, 0, N, 0, l }; list_foreach(l, sc_visit, &s); VP_CHECK(s.i == N, "list.foreach", "visited %d of %d", s.i, N);
    VP_CHECK(list_contains(l, (void*)w[N - 1]) && !list_contains(l, (void*)(b + 5)), "list.contains", "wrong");
    int i = 0; for (list_node_t* x = list_begin(l); x != list_end(l); x = list_next(x), i++) VP_CHECK((uintptr_t)list_node(x) == w[i], "list.order", "node %d is wrong", i); VP_CHECK(i == N, "list.nodes", "%d nodes of %d", i, N);
    int k = 300; for (int j = 0; j < k; j++) { VP_CHECK(list_remove(l, (void*)w[N - 1 - j]), "list.remove", "not found"); } VP_CHECK(list_length(l) == (size_t)(N - k) && sc_freed == k && (uintptr_t)list_back(l) == w[N - 1 - k], "list.remove", "length %zu, %d freed", (size_t)list_length(l), sc_freed); vp_beat();
    list_clear(l); VP_CHECK(list_length(l) == 0 && list_is_empty(l) && sc_freed == N && !list_contains(l, (void*)w[0]), "list.clear", "%d of %d freed", sc_freed, N); list_append(l, (void*)w[0]); VP_CHECK(list_front(l) == list_back(l) && list_length(l) == 1, "list.clear", "not usable"); list_free(l); VP_CHECK(sc_freed == N + 1, "list.free", "%d freed of %d", sc_freed, N + 1);
    free(w); free(all); vp_count("long_lists", 1); vp_case_mix((uint64_t)N); vp_nontrivial();
}
static void m_long(void) { lasting = 1; m_history(); vp_count("long_lives", 1); }
const vp_mode_t vp_modes[] = { {"long", m_long}, {"history", m_history}, {"scale", m_scale}, {0} };
