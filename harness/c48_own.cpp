#include "ztc.hpp"
#include <algorithm>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_unit.h>
}
using namespace vt;
// A callback may use the very object it was called for.
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
void vt_init() { Quiet q; scratch(); if (!freopen("/dev/null", "w", stdout)) harness_error("freopen"); }
static Rng *R; static unsigned depth, budget;
static bool spend(unsigned den = 3) { if (!budget || !R->chance(1, den)) return false; budget--; return true; }
#define K(k) ((void *)(intptr_t)(k))

// ---- tables: keys are small integers, the model is a map
static zt_table *T; static std::map<int, int> TM; static bool keyless; static unsigned asks;
struct Walk { std::map<int, unsigned> seen; std::set<int> start, gone; int stop = -1, rc = 0; unsigned n = 0; bool ro; };
static void t_get() { int k = 1 + R->below(40); auto it = TM.find(k); void *v = zt_table_get(T, K(k), sizeof(int)); VT_CHECK(v == (it == TM.end() ? NULL : K(it->second)), "table-get", "within a callback key %d gives %p, want %d", k, v, it == TM.end() ? 0 : it->second); ev("table.get"); }
static int t_count(void *k, size_t, void *v, size_t, void *p) { auto it = TM.find((int)(intptr_t)k); VT_CHECK(it != TM.end() && K(it->second) == v, "table-inner", "a nested traversal shows key %d", (int)(intptr_t)k); ++*(unsigned *)p; if (R->chance(1, 10)) t_get(); return 0; }
static unsigned long t_hash(const void *k, size_t l, void *cd) { VT_CHECK(cd == &TM, "cdata", "hash function got the wrong data"); if (T && asks < 2 && spend(6)) { asks++; t_get(); asks--; ev("table.hash.asks"); } return keyless ? (unsigned long)(intptr_t)k % 3 : (unsigned long)(intptr_t)k * 2654435761ul; }
static int t_cmp(const void *a, size_t, const void *b, size_t, void *cd) { VT_CHECK(cd == &TM, "cdata", "compare function got the wrong data"); if (T && asks < 2 && spend(6)) { asks++; t_get(); asks--; ev("table.compare.asks"); } return a == b; }
static int t_walk(void *key, size_t kl, void *v, size_t, void *p) {
    Walk &w = *(Walk *)p; int k = (int)(intptr_t)key; w.n++; VT_CHECK(kl == sizeof(int) && TM.count(k) && K(TM[k]) == v, "table-item", "traversal delivers key %d value %p which is not in the table", k, v); VT_CHECK(++w.seen[k] == 1, "table-again", "traversal delivers key %d again", k);
    if (spend()) t_get();
    if (!w.ro) {
        if (spend(4)) { op("  callback: delete %d", k); void *d = zt_table_del(T, key, kl); VT_CHECK(d == v, "table-del", "deleting the delivered key %d gives %p", k, d); TM.erase(k); w.gone.insert(k); ev("table.delete"); }
        if (spend(4)) { int n = 41 + R->below(60); if (!TM.count(n) && !w.gone.count(n)) { op("  callback: insert %d", n); VT_CHECK(zt_table_set(T, K(n), sizeof(int), K(n + 7), 0) == 0, "table-set", "insertion failed"); TM[n] = n + 7; ev("table.insert"); } }
        if (spend(5) && !TM.empty()) { int n = TM.begin()->first; VT_CHECK(zt_table_set(T, K(n), sizeof(int), K(1), 0) == 1, "table-set", "insertion of a key that is present is not refused"); ev("table.refused"); }
        if (spend(6) && depth < 2) { depth++; Walk in; in.ro = true; for (auto &x : TM) in.start.insert(x.first); int rc = zt_table_for_each(T, t_walk, &in); VT_CHECK(rc == 0 && in.n == TM.size(), "table-inner", "a nested traversal delivers %u of %zu", in.n, TM.size()); depth--; ev("table.nested"); }
        if (spend(8)) { zt_table *c = zt_table_init((char *)"copy", zt_table_hash_int, zt_table_compare_int, 10, 0, NULL); int any = zt_table_copy(T, c); VT_CHECK(any == !TM.empty(), "table-copy", "copying within a callback gives %d", any); for (auto &x : TM) VT_CHECK(zt_table_get(c, K(x.first), sizeof(int)) == K(x.second), "table-copy", "key %d missing from a copy", x.first); zt_table_destroy(c); ev("table.copy"); }
    }
    if (w.stop >= 0 && (int)w.n > w.stop) { ev("table.stop"); return w.rc; }
    return 0;
}
static void c_table(Rng &r) {
    T = NULL; TM.clear(); keyless = r.chance(1, 2); asks = 0; zt_table *t = zt_table_init((char *)"own", t_hash, t_cmp, 1 + r.below(60), 0, &TM); T = t;
    for (unsigned i = 0, n = r.below(30); i < n; i++) { int k = 1 + r.below(40), had = TM.count(k); int rc = zt_table_set(t, K(k), sizeof(int), K(100 + i), 0); VT_CHECK(rc == had, "table-set", "inserting %d gives %d", k, rc); if (!had) TM[k] = 100 + i; }
    for (unsigned s = 0; s < 4; s++) { if (r.chance(1, 3)) { int k = 1 + r.below(40); auto it = TM.find(k); void *v = zt_table_del(t, K(k), sizeof(int)); VT_CHECK(v == (it == TM.end() ? NULL : K(it->second)), "table-del", "deleting %d", k); if (it != TM.end()) TM.erase(it); }
        Walk w; w.ro = r.chance(1, 4); for (auto &x : TM) w.start.insert(x.first); if (r.chance(1, 4)) { w.stop = r.below(8); w.rc = r.chance(1, 2) ? -1 - (int)r.below(9) : 1 + (int)r.below(9); } op("traverse %zu", TM.size()); int rc = zt_table_for_each(t, t_walk, &w); bool stopped = w.stop >= 0 && (int)w.n > w.stop; VT_CHECK(rc == (stopped ? w.rc : 0), "table-rc", "the traversal gives %d", rc); if (!stopped) for (int k : w.start) VT_CHECK(w.seen[k] == 1, "table-lost", "the traversal did not deliver key %d", k); else VT_CHECK((int)w.n == w.stop + 1, "table-stop", "the traversal went on after a stop");
        unsigned n = 0; zt_table_for_each(t, t_count, &n); VT_CHECK(n == TM.size(), "table-size", "%u items, want %zu", n, TM.size()); mix(n); evaluations(1); }
    for (auto &x : TM) mix(x.first * 1000 + x.second); T = NULL; zt_table_destroy(t); TM.clear();
}
// ---- sets of small integers
static zt_set *S; static std::set<int> SM;
static int s_match(const void *a, size_t, const void *b, size_t, void *cd) { VT_CHECK(cd == &SM, "cdata", "match function got the wrong data"); if (S && asks < 2 && spend(8)) { asks++; int k = 1 + R->below(30); VT_CHECK(!!zt_set_is_member(S, K(k), sizeof(int)) == SM.count(k), "set-member", "within a match function: membership of %d", k); VT_CHECK(zt_set_size(S) == SM.size(), "set-size", "size %zu within a match function, want %zu", (size_t)zt_set_size(S), SM.size()); asks--; ev("set.match.asks"); } return a == b; }
static int s_plain(void *d, void *p) { VT_CHECK(SM.count((int)(intptr_t)d), "set-inner", "a nested traversal shows %d", (int)(intptr_t)d); ++*(unsigned *)p; return 0; }
static int s_walk(void *d, void *p) {
    Walk &w = *(Walk *)p; int k = (int)(intptr_t)d; w.n++; VT_CHECK(SM.count(k), "set-item", "traversal delivers %d", k); VT_CHECK(++w.seen[k] == 1, "set-again", "traversal delivers %d again", k); VT_CHECK(zt_set_size(S) == SM.size(), "set-size", "size %zu within a callback", (size_t)zt_set_size(S));
    if (spend()) { int q = 1 + R->below(30); VT_CHECK(!!zt_set_is_member(S, K(q), sizeof(int)) == SM.count(q), "set-member", "membership of %d within a callback", q); ev("set.member"); }
    if (spend(4)) { int q = 31 + R->below(60), had = SM.count(q); int rc = zt_set_insert(S, K(q), sizeof(int)); VT_CHECK(rc == had, "set-insert", "insertion within a callback gives %d", rc); SM.insert(q); ev("set.insert"); }
    if (spend(5)) { unsigned n = 0; zt_set_for_each(S, s_plain, &n); VT_CHECK(n == SM.size(), "set-inner", "a nested traversal delivers %u of %zu", n, SM.size()); ev("set.nested"); }
    if (spend(6)) { zt_set *o = zt_set_init(zt_table_compare_int, NULL, NULL); unsigned n = 0; if (R->chance(1, 2)) zt_set_union(o, S, S); else zt_set_intersection(o, S, S); n = zt_set_size(o); VT_CHECK(n == SM.size(), "set-algebra", "the union or intersection of the set with itself has %u of %zu", n, SM.size()); VT_CHECK(zt_set_is_subset(S, o) && zt_set_is_equal(S, o), "set-algebra", "a set's union with itself differs from it"); zt_set_destroy(o); ev("set.algebra"); }
    if (w.stop >= 0 && (int)w.n > w.stop) return w.rc; return 0;
}
static void c_set(Rng &r) {
    SM.clear(); S = NULL; asks = 0; zt_set *s = zt_set_init(s_match, NULL, &SM); S = s; for (unsigned i = 0, n = r.below(20); i < n; i++) { int k = 1 + r.below(30), had = SM.count(k); VT_CHECK(zt_set_insert(s, K(k), sizeof(int)) == had, "set-insert", "inserting %d", k); SM.insert(k); }
    for (unsigned t = 0; t < 3; t++) { Walk w; for (int x : SM) w.start.insert(x); if (r.chance(1, 4)) { w.stop = r.below(8); w.rc = 1 + r.below(9); } int rc = zt_set_for_each(s, s_walk, &w); bool stopped = w.stop >= 0 && (int)w.n > w.stop; VT_CHECK(rc == (stopped ? w.rc : 0), "set-rc", "the traversal gives %d", rc); if (!stopped) for (int k : w.start) VT_CHECK(w.seen[k] == 1, "set-lost", "the traversal did not deliver %d", k); mix(w.n); evaluations(1); }
    for (int k = 1; k < 100; k++) VT_CHECK(!!zt_set_is_member(s, K(k), sizeof(int)) == SM.count(k), "set-member", "membership of %d", k); for (int k : SM) mix(k); S = NULL; zt_set_destroy(s); SM.clear();
}
// ---- nested pools: free callbacks go on using the pool
struct EP { zt_ez_mempool *p; int parent; bool alive, first_gone; }; struct EC { int pool; bool first; unsigned freed; };
static std::vector<EP> E; static std::map<void *, EC> C; static std::vector<int> busy; static unsigned echunks;
static void e_free(void *d);
static void e_chunk(int p, bool first) { if (echunks > 200) return; echunks++; void *d; size_t n = 1 + R->below(40); if (R->chance(1, 2)) d = zt_ez_mempool_alloc(E[p].p, n, e_free); else { d = malloc(n); VT_CHECK(zt_ez_mempool_add_buffer(E[p].p, d, n, e_free) == 0, "ez-add", "a buffer is not taken"); } memset(d, 1, n); Quiet q; C[d] = {p, first, 0}; }
static int e_pool(int parent) { zt_ez_mempool *p = zt_ez_mempool_init(parent < 0 ? NULL : E[parent].p); { Quiet q; E.push_back({p, parent, true, false}); } e_chunk((int)E.size() - 1, true); return (int)E.size() - 1; }
static bool is_busy(int p) { for (int b : busy) for (int x = b; x >= 0; x = E[x].parent) if (x == p) return true; return false; }
static void e_act(int p) {
    switch (R->below(6)) { case 0: case 1: op("  add to %d", p); e_chunk(p, false); ev(busy.empty() ? "ez.add" : "ez.cb.add"); break;
    case 2: { char *s = zt_ez_mempool_strdup(E[p].p, "some text"); VT_CHECK(!strcmp(s, "some text"), "ez-strdup", "copied text differs"); ev(busy.empty() ? "ez.strdup" : "ez.cb.strdup"); break; }
    case 3: if (E.size() < 40) { op("  sub-pool of %d", p); e_pool(p); ev(busy.empty() ? "ez.sub" : "ez.cb.sub"); } break;
    default: { std::vector<int> c; for (size_t i = 0; i < E.size(); i++) if (E[i].alive && !E[i].first_gone && E[i].parent >= 0 && !is_busy((int)i)) { bool ok = true; for (int x = E[i].parent; x >= 0; x = E[x].parent) ok &= E[x].alive; if (ok) c.push_back((int)i); } if (c.empty()) break; int x = R->pick(c); op("  destroy %d", x); zt_ez_mempool_destroy(E[x].p); ev(busy.empty() ? "ez.destroy" : "ez.cb.destroy"); VT_CHECK(E[x].first_gone, "ez-destroy", "destroying a pool left its first chunk"); break; } }
}
static void e_free(void *d) {
    auto it = C.find(d); VT_CHECK(it != C.end(), "ez-unknown", "an unknown chunk was freed"); EC &c = it->second; VT_CHECK(c.freed++ == 0, "ez-twice", "a chunk was freed twice"); int p = c.pool; bool first = c.first; { Quiet q; C.erase(it); busy.push_back(p); } mix(p * 2 + first); if (first) E[p].first_gone = true; else if (!E[p].first_gone && spend(2)) e_act(p);
    if (E[p].parent >= 0 && spend(5)) { op("  add to %d, whose sub-pool goes", E[p].parent); e_chunk(E[p].parent, false); ev("ez.cb.parent"); }
    // another pool that is not being destroyed
    if (spend(5)) { std::vector<int> o; { Quiet q; for (size_t i = 0; i < E.size(); i++) if (!E[i].first_gone && !is_busy((int)i)) o.push_back((int)i); } if (!o.empty()) e_act(R->pick(o)); { Quiet q; std::vector<int>().swap(o); } }
    { Quiet q; busy.pop_back(); } free(d); ev("ez.freed");
}
static void c_ez(Rng &r) {
    { Quiet q; E.clear(); E.reserve(64); C.clear(); busy.clear(); busy.reserve(64); } echunks = 0; int root = e_pool(-1); std::vector<int> all = {root};
    for (unsigned i = 0, n = r.below(25); i < n; i++) { std::vector<int> o; for (size_t k = 0; k < E.size(); k++) if (!E[k].first_gone) o.push_back((int)k); e_act(r.pick(o)); }
    op("destroy all"); zt_ez_mempool_destroy(E[root].p); VT_CHECK(C.empty(), "ez-lost", "%zu chunks were never freed", C.size()); mix(echunks); evaluations(1); Quiet q; std::vector<EP>().swap(E); std::vector<int>().swap(busy);
}
// ---- pointer arrays
static zt_ptr_array *A; static std::multiset<void *> AM; static void am_add(void *x) { Quiet q; AM.insert(x); } static void am_del(void *x) { Quiet q; AM.erase(AM.find(x)); } static unsigned afreed;
static void a_same() { VT_CHECK((size_t)A->count == AM.size(), "array-count", "%d members, want %zu", A->count, AM.size()); std::multiset<void *> m; for (int i = 0; i < A->count; i++) m.insert(zt_ptr_array_get_idx(A, i)); VT_CHECK(m == AM, "array-members", "the members differ"); VT_CHECK(zt_ptr_array_get_idx(A, A->count) == NULL, "array-end", "a member behind the end"); }
static void a_free(void *d) {
    afreed++; int keep = *(int *)d; free(d); mix(keep); a_same(); ev("array.freed");
    if (spend(3)) { int *n = (int *)malloc(sizeof(int)); *n = afreed; VT_CHECK(zt_ptr_array_add(A, n) == 0, "array-add", "addition failed"); am_add(n); a_same(); ev("array.cb.add"); }
    if (spend(3) && depth < 3 && A->count) { depth++; void *x = zt_ptr_array_get_idx(A, R->below(A->count)); am_del(x); VT_CHECK(zt_ptr_array_del(A, x) == 0, "array-del", "removal failed"); depth--; a_same(); ev("array.cb.del"); }
}
static void c_array(Rng &r) {
    AM.clear(); afreed = 0; A = zt_ptr_array_init(NULL, a_free); VT_CHECK(A, "array-init", "no array");
    for (unsigned i = 0, n = 2 + r.below(60); i < n; i++) if (r.chance(2, 3) || !A->count) { int *x = (int *)malloc(sizeof(int)); *x = i; VT_CHECK(zt_ptr_array_add(A, x) == 0, "array-add", "addition failed"); am_add(x); } else { void *x = zt_ptr_array_get_idx(A, r.below(A->count)); am_del(x); VT_CHECK(zt_ptr_array_del(A, x) == 0, "array-del", "removal failed"); a_same(); evaluations(1); }
    while (A->count) { void *x = zt_ptr_array_get_idx(A, -1); am_del(x); zt_ptr_array_del(A, x); } zt_ptr_array_free(A, 1); AM.clear();
}
// ---- trees: the order asks the tree
struct N { zt_rbt_node node; int key; }; static zt_rbt *tree; static std::map<int, N *> NM; static bool in_remove;
static int n_plain(zt_rbt_node *a, zt_rbt_node *b) { int x = zt_rbt_data(a, N, node)->key, y = zt_rbt_data(b, N, node)->key; return x < y ? -1 : x > y; }
static void n_ask() { N q; q.key = R->below(60); auto it = NM.find(q.key); zt_rbt_node *n = zt_rbt_find(&tree, &q.node, n_plain); VT_CHECK(n == (it == NM.end() ? NULL : &it->second->node), "tree-find", "key %d within the order function", q.key); auto lb = NM.lower_bound(q.key); n = zt_rbt_nfind(&tree, &q.node, n_plain); VT_CHECK(n == (lb == NM.end() ? NULL : &lb->second->node), "tree-nfind", "next of %d within the order function", q.key); if (R->chance(1, 4)) { auto i = NM.begin(); zt_rbt_for_each(&tree, n) { VT_CHECK(i != NM.end() && n == &i->second->node, "tree-walk", "traversal within the order function"); ++i; } VT_CHECK(i == NM.end(), "tree-walk", "traversal within the order function ends early"); } ev("tree.ask"); }
static int n_cmp(zt_rbt_node *a, zt_rbt_node *b) { if (spend(4)) n_ask(); return n_plain(a, b); }
static void c_tree(Rng &r) {
    tree = NULL; NM.clear(); std::vector<N *> all;
    for (unsigned i = 0, n = 5 + r.below(60); i < n; i++) { int k = r.below(60); auto it = NM.find(k); N q; q.key = k; mix(k); switch (r.below(4)) { case 0: case 1: { N *x = (N *)malloc(sizeof *x); x->key = k; zt_rbt_node *g = zt_rbt_insert(&tree, &x->node, n_cmp); VT_CHECK(g == (it == NM.end() ? NULL : &it->second->node), "tree-insert", "inserting %d", k); if (g) free(x); else NM[k] = x; break; }
        case 2: { zt_rbt_node *g = zt_rbt_find(&tree, &q.node, n_cmp); VT_CHECK(g == (it == NM.end() ? NULL : &it->second->node), "tree-find", "finding %d", k); if (g && r.chance(1, 2)) { zt_rbt_remove(&tree, g); free(it->second); NM.erase(it); } break; }
        default: if (!NM.empty() && r.chance(1, 3)) { zt_rbt_node *x, *nx; unsigned seen = 0; size_t want = NM.size(); zt_rbt_for_each_safe(&tree, x, nx) { N *e = zt_rbt_data(x, N, node); seen++; if (spend(3)) n_ask(); if (spend(3)) { zt_rbt_remove(&tree, x); NM.erase(e->key); free(e); ev("tree.walk.remove"); } } VT_CHECK(seen == want, "tree-walk", "a traversal that removes delivers %u of %zu", seen, want); } } evaluations(1); }
    while (!NM.empty()) { auto it = NM.begin(); zt_rbt_remove(&tree, &it->second->node); free(it->second); NM.erase(it); } VT_CHECK(tree == NULL, "tree-empty", "an emptied tree has a root"); (void)in_remove;
}
// ---- pools: the page release test looks at, and tidies, its pool
static zt_mem_pool *P; static std::map<char *, int> PM; static size_t psz; static unsigned ptests;
static void p_same() { for (auto &x : PM) for (size_t i = 0; i < psz; i++) VT_CHECK(x.first[i] == (char)x.second, "pool-content", "an element changed"); }
static int p_test(size_t pages, size_t free_pages, size_t, int, void *cd) {
    VT_CHECK(cd == &PM, "cdata", "release test got the wrong data"); ptests++; zt_mem_pool_stats st; VT_CHECK(zt_mem_pool_get_stats(P, &st) == ZT_PASS && st.pages == pages && st.free_pages == free_pages, "pool-stats", "within the release test the statistics show %zu/%zu pages, it was given %zu/%zu", (size_t)st.pages, (size_t)st.free_pages, pages, free_pages); ev("pool.stats");
    if (spend(3)) { zt_mem_pool_release_free_pages(P); p_same(); ev("pool.tidy"); return 0; }
    if (spend(3) && PM.size() < 300) { char *x = (char *)zt_mem_pool_alloc(P); VT_CHECK(x, "pool-alloc", "allocation failed"); { Quiet q; VT_CHECK(!PM.count(x), "pool-live", "a live element was handed out"); PM[x] = ptests; } memset(x, ptests, psz); p_same(); ev("pool.alloc"); return 0; }
    return R->chance(1, 2);
}
static void c_pool(Rng &r) {
    PM.clear(); ptests = 0; psz = 1 + r.below(200); P = zt_mem_pool_init((char *)"own", r.below(10), psz, p_test, &PM, 0); VT_CHECK(P, "pool-init", "no pool"); unsigned up = 1 + r.below(3);
    for (unsigned i = 0, n = 20 + r.below(300); i < n; i++) { if (r.chance(1, 60)) up = 1 + r.below(3); if (PM.empty() || r.chance(up, 4)) { char *x = (char *)zt_mem_pool_alloc(P); VT_CHECK(x && !PM.count(x), "pool-live", "a live element was handed out"); memset(x, i, psz); mix(i); Quiet q; PM[x] = i; } else { auto it = PM.begin(); std::advance(it, r.below(PM.size())); void *x = it->first; { Quiet q; PM.erase(it); } zt_mem_pool_release(&x); } if (i % 16 == 0) p_same(); evaluations(1); }
    p_same(); budget = 0; while (!PM.empty()) { void *x = PM.begin()->first; { Quiet q; PM.erase(PM.begin()); } zt_mem_pool_release(&x); } VT_CHECK(zt_mem_pool_destroy(&P) == 0, "pool-destroy", "an unused pool cannot be destroyed");
}
// ---- test runs: a test registers further tests
static struct zt_unit *U; static std::vector<struct zt_unit_suite *> US; static std::vector<unsigned> UR; static std::vector<bool> UF; static std::vector<int> Usuite; static std::vector<struct zt_unit_test *> UT; static int ucur;
static void u_add(int s);
static void u_test(struct zt_unit_test *t, void *) {
    int id = -1; for (size_t i = 0; i < UT.size(); i++) if (UT[i] == t) id = (int)i; VT_CHECK(id >= 0, "unit-unknown", "an unknown test runs"); UR[id]++; mix(id * 2 + UF[id]); ucur = Usuite[id]; Quiet q;
    if (spend(3) && UT.size() < 30) { op("  test %d registers a test in its own suite", id); u_add(ucur); ev("unit.test"); }
    if (spend(5) && US.size() < 6) { op("  test %d registers a suite", id); US.push_back(zt_unit_register_suite_(U, "late", NULL, NULL, NULL, zt_unit_try_cpp)); u_add((int)US.size() - 1); ev("unit.suite"); }
    if (spend(5) && UT.size() < 30 && (size_t)ucur + 1 < US.size()) { u_add((int)US.size() - 1); ev("unit.later"); }
    ZT_UNIT_ASSERT(t, !UF[id]);
}
static void u_add(int s) { struct zt_unit_test *t = zt_unit_register_test(US[s], "t", u_test); UT.push_back(t); UR.push_back(0); UF.push_back(R->chance(1, 4)); Usuite.push_back(s); }
static void c_unit(Rng &r) {
    Quiet all; U = zt_unit_init(); { US.clear(); UR.clear(); UF.clear(); Usuite.clear(); UT.clear(); }
    { Quiet q; for (unsigned i = 0, n = 1 + r.below(3); i < n; i++) { US.push_back(zt_unit_register_suite_(U, "s", NULL, NULL, NULL, zt_unit_try_cpp)); for (unsigned k = 0, m = r.below(4); k < m; k++) u_add(i); } zt_unit_run(U); }
    unsigned fails = 0; for (size_t i = 0; i < UT.size(); i++) { VT_CHECK(UR[i] == 1, "unit-runs", "test %zu of %zu, registered %s, ran %u times", i, UT.size(), "before or during the run", UR[i]); VT_CHECK((UT[i]->success == 1) == !UF[i], "unit-verdict", "test %zu has the wrong verdict", i); fails += UF[i]; evaluations(1); }
    VT_CHECK((unsigned)U->tests == UT.size() && (unsigned)U->failures == fails && (unsigned)U->successes == UT.size() - fails && (size_t)U->suite_count == US.size(), "unit-totals", "totals %d tests %d failures %d suites, want %zu, %u, %zu", U->tests, U->failures, U->suite_count, UT.size(), fails, US.size()); mix(UT.size());
    Quiet q; zt_unit_release(&U); UT.clear(); US.clear();
}
// ---- options: an option names further options, which the same parser processes
static std::vector<std::string> got; static std::vector<std::vector<std::string>> files; static zt_opt_def_t defs[5];
static int o_err(int code, char *fmt, ...) { got.push_back("error " + std::to_string(code)); (void)fmt; return 0; }
static void o_run(const std::vector<std::string> &a, zt_opt_error err) { std::vector<char *> v; for (auto &s : a) v.push_back(strdup(s.c_str())); v.push_back(NULL); int ac = (int)a.size(); int rc = zt_opt_process_args(&ac, v.data(), defs, NULL, err); got.push_back("end " + std::to_string(rc) + " at " + std::to_string(ac)); for (auto p : v) free(p); }
static int o_cb(int argn, int defn, int *, char **argv, zt_opt_def_t *def, zt_opt_error err) {
    int c = 0; char w = def[defn].sopt; if (w == 'a' || w == 'b') { got.push_back(std::string(1, w)); return 0; } char *v = zt_opt_get_value(argn, defn, argv, def, &c, err); got.push_back(std::string(1, w) + (v ? v : "?")); if (w != 'f' || !v) return c;
    size_t f = strtoul(v, NULL, 10); if (f < files.size()) { o_run(files[f], err); ev("opts.nested"); } return c;
}
static void o_model(const std::vector<std::string> &a, std::vector<std::string> &out) {
    size_t i; for (i = 1; i < a.size(); i++) { const std::string &s = a[i]; if (s[0] != '-') break;
        auto val = [&](char w, bool have, std::string v) { bool took = false; if (!have) { if (i + 1 < a.size()) { v = a[i + 1]; have = took = true; } } if (!have) { out.push_back("error " + std::to_string(EINVAL)); out.push_back(std::string(1, w) + "?"); return; } out.push_back(std::string(1, w) + v); if (w == 'f') { size_t f = strtoul(v.c_str(), NULL, 10); if (f < files.size()) o_model(files[f], out); } if (took) i++; };
        if (s[1] == '-') { size_t e = s.find('='); std::string n = s.substr(2, e == std::string::npos ? e : e - 2); val(n[0], e != std::string::npos, e == std::string::npos ? "" : s.substr(e + 1)); continue; }
        for (size_t p = 1; p < s.size(); p++) { if (s[p] == 'a' || s[p] == 'b') { out.push_back(std::string(1, s[p])); continue; } bool have = p + 1 < s.size(); val(s[p], have, have ? s.substr(s[p + 1] == '=' ? p + 2 : p + 1) : ""); break; } }
    out.push_back("end 0 at " + std::to_string(i));
}
static void c_opts(Rng &r) {
    memset(defs, 0, sizeof defs); const char so[] = "abvf"; const char *lo[] = {NULL, NULL, "value", "file"}; for (int i = 0; i < 4; i++) { defs[i].sopt = so[i]; defs[i].lopt = (char *)lo[i]; defs[i].cb = o_cb; defs[i].help = (char *)"help"; }
    files.clear(); unsigned nf = 1 + r.below(4); for (unsigned f = 0; f < nf; f++) { std::vector<std::string> a = {"prog"}; for (unsigned i = 0, n = r.below(7); i < n; i++) { std::string cl = r.str(r.below(3), "ab"), fn = std::to_string(f + (f ? 0 : 0) >= 1 ? r.below(f) : 99), v = r.chance(1, 3) ? "ab" : r.chance(1, 2) ? "a" : "fv"; bool wf = r.chance(1, 2); std::string w = wf ? "f" : "v", x = wf ? fn : v; switch (r.below(6)) { case 0: if (cl.empty()) cl = "a"; a.push_back("-" + cl); break; case 1: case 2: a.push_back("-" + cl + w + x); break; case 3: a.push_back("-" + cl + w + "=" + x); break; case 4: a.push_back("-" + cl + w); a.push_back(x); break; default: a.push_back(std::string(wf ? "--file=" : "--value=") + x); } } if (r.chance(1, 6)) a.push_back("-v"); if (r.chance(1, 4)) a.push_back("stop"); files.push_back(a); }
    got.clear(); std::vector<std::string> want; o_model(files.back(), want); o_run(files.back(), o_err); for (size_t i = 0; i < got.size() || i < want.size(); i++) { VT_CHECK(i < got.size() && i < want.size() && got[i] == want[i], "opts", "event %zu is '%s', want '%s'", i, i < got.size() ? got[i].c_str() : "nothing", i < want.size() ? want[i].c_str() : "nothing"); evaluations(1); mix(got[i]); }
    got.clear(); got.shrink_to_fit(); files.clear(); files.shrink_to_fit();
}
// ---- collector traversal
struct G { zt_gc_collectable_t mark; int id; }; static std::map<int, G *> GM; static zt_gc_t *gc; struct GV { std::map<int, unsigned> seen; bool ro; };
static void g_mark(struct zt_gc *, void *, void *) {} static void g_release(struct zt_gc *, void *, void **v) { G *g = (G *)*v; GM.erase(g->id); free(g); }
static void g_each(void *value, void *data, int) { GV &v = *(GV *)data; G *g = (G *)value; VT_CHECK(GM.count(g->id) && GM[g->id] == g, "gc-item", "traversal delivers an unknown value"); VT_CHECK(++v.seen[g->id] == 1, "gc-again", "traversal delivers value %d again", g->id); if (v.ro) return; if (spend(4)) { GV in; in.ro = true; zt_gc_for_each(gc, g_each, &in); VT_CHECK(in.seen.size() == GM.size(), "gc-inner", "a nested traversal delivers %zu of %zu", in.seen.size(), GM.size()); ev("gc.nested"); } if (spend(3)) { zt_gc_unregister(gc, g); GM.erase(g->id); free(g); ev("gc.unregister"); } }
static void c_gc(Rng &r) {
    GM.clear(); gc = zt_gc_init(NULL, g_mark, g_release, 1 + r.below(5), 100000); for (int i = 0, n = r.below(30); i < n; i++) { G *g = (G *)malloc(sizeof *g); g->id = i; zt_gc_prepare(gc, g); GM[i] = g; zt_gc_register(gc, g); zt_gc_protect(gc, g); if (r.chance(1, 10)) zt_gc_collect(gc, 1); }
    for (int i = 0; i < 3; i++) { GV v; v.ro = false; size_t want = GM.size(); zt_gc_for_each(gc, g_each, &v); VT_CHECK(v.seen.size() == want, "gc-lost", "a traversal delivers %zu of %zu values", v.seen.size(), want); mix(want); evaluations(1); if (r.chance(1, 2)) zt_gc_collect(gc, 1); }
    zt_gc_destroy(gc); VT_CHECK(GM.empty(), "gc-left", "%zu values were not released", GM.size());
}
static const struct { const char *n; void (*f)(Rng &); } CASES[] = {{"table", c_table}, {"set", c_set}, {"ez", c_ez}, {"array", c_array}, {"tree", c_tree}, {"pool", c_pool}, {"unit", c_unit}, {"opts", c_opts}, {"gc", c_gc}};
void vt_case(Rng &r, uint64_t idx) { auto &c = CASES[idx % (sizeof CASES / sizeof *CASES)]; R = &r; depth = 0; budget = r.chance(1, 8) ? 0 : 1 + r.below(60); op("%s", c.n); mix(idx % 16); nontrivial(budget > 0); c.f(r); }
