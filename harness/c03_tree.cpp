#include "ztc.hpp"
#include <math.h>
using namespace vt;
const bool vt_leakcheck = false;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
struct N { long pad1; zt_rbt_node node; long key; int id; unsigned guard; };
#define NODE(p) ((N *)((char *)(p) - offsetof(N, node)))
static int g_cmpmode; static uint64_t g_cmps;
static int cmp(zt_rbt_node *a, zt_rbt_node *b) { g_cmps++; long x = NODE(a)->key, y = NODE(b)->key; int c = x < y ? -1 : x > y; switch (g_cmpmode) { case 1: return -c; case 2: return c * 1000; case 3: return c < 0 ? -2147483647 - 1 : c > 0 ? 2147483647 : 0; default: return c; } }
struct Less { bool operator()(long a, long b) const { return g_cmpmode == 1 ? a > b : a < b; } };
typedef std::map<long, N *, Less> M;
static int walk(zt_rbt_node *n, zt_rbt_node *parent, int depth, int &maxd, size_t &cnt) {   // returns black height
    if (!n) { if (depth > maxd) maxd = depth; return 1; }
    if (depth > 200) fail("shape-cycle", "tree deeper than 200 levels");
    if (zt_rbt_parent(n) != parent) fail("parent-link", "node %ld has a wrong parent link", NODE(n)->key);
    bool red = zt_rbt_colour(n) == zt_rbt::zt_rbt_red;
    if (red) for (zt_rbt_node *c : {zt_rbt_left(n), zt_rbt_right(n)}) if (c && zt_rbt_colour(c) == zt_rbt::zt_rbt_red) fail("red-red", "red node %ld has a red child", NODE(n)->key);
    cnt++;
    int l = walk(zt_rbt_left(n), n, depth + 1, maxd, cnt), r = walk(zt_rbt_right(n), n, depth + 1, maxd, cnt);
    if (l != r) fail("black-height", "node %ld: black heights %d and %d", NODE(n)->key, l, r);
    return l + !red;
}
static void invariants(zt_rbt *head, M &m) {
    int maxd = 0; size_t cnt = 0; if (head && zt_rbt_colour(head) != zt_rbt::zt_rbt_black) fail("root-red", "root is red");
    walk(head, NULL, 0, maxd, cnt);
    VT_CHECK(cnt == m.size(), "count", "tree holds %zu nodes, model %zu", cnt, m.size());
    VT_CHECK(maxd <= 2 * log2((double)cnt + 1) + 1e-9, "height", "height %d with %zu nodes", maxd, cnt);
    ev("invariant.walks");
}
static void order(zt_rbt **head, M &m) {
    zt_rbt_node *x; auto it = m.begin(); size_t n = 0;
    zt_rbt_for_each(head, x) { VT_CHECK(it != m.end() && NODE(x) == it->second, "traverse", "traversal position %zu is key %ld, expected %ld", n, NODE(x)->key, it == m.end() ? -1 : it->first); ++it; n++; }
    VT_CHECK(it == m.end(), "traverse-short", "traversal ended after %zu of %zu", n, m.size()); ev("traversals");
    zt_rbt_node *mn = zt_rbt_min(head), *mx = zt_rbt_max(head);
    VT_CHECK(m.empty() ? !mn && !mx : NODE(mn) == m.begin()->second && NODE(mx) == m.rbegin()->second, "minmax", "minimum or maximum wrong with %zu nodes", m.size());
}
void vt_case(Rng &r, uint64_t idx) {
    g_cmpmode = r.below(4); int big = r.chance(1, 12); size_t nn = big ? 200 + r.below(1500) : 1 + r.below(40);
    long span = r.chance(1, 4) ? 1 + r.below(nn) : r.chance(1, 2) ? (long)nn * 2 : 1000000007; std::vector<N> ns(nn); std::vector<bool> in(nn);
    int shape = r.below(5);
    for (size_t i = 0; i < nn; i++) { std::string junk = r.bytes(sizeof(N)); memcpy(&ns[i], junk.data(), sizeof(N));   // nodes start with arbitrary bytes
        ns[i].key = shape == 0 ? (long)i : shape == 1 ? (long)(nn - i) : (long)r.below(span); ns[i].id = i; ns[i].guard = 0xfeedface; }
    zt_rbt *head = NULL; M m; size_t nops = big ? nn * 2 : 1 + r.below(120); int insbias = 30 + r.below(50); size_t cursor = 0;
    op("nodes=%zu shape=%d cmp=%d", nn, shape, g_cmpmode); mix(nn); mix(shape * 10 + g_cmpmode);
    zt_rbt_node *x, *nx;
    for (size_t o = 0; o < nops; o++) {
        int c = r.below(100); size_t i = shape < 2 && r.chance(2, 3) ? cursor++ % nn : r.below(nn); N *n = &ns[i]; mix(c * 100000 + i);
        if (o == nops / 2 && big) insbias = 100 - insbias;
        if (c < insbias) {
            if (in[i]) continue;
            zt_rbt_node *res = zt_rbt_insert(&head, &n->node, cmp); auto f = m.find(n->key); op("insert %ld -> %s", n->key, res ? "resident" : "ok");
            if (f != m.end()) { VT_CHECK(res == &f->second->node, "insert-dup", "inserting equal key %ld returned %p, resident is %p", n->key, (void *)res, (void *)&f->second->node); ev("insert.equal"); }
            else { VT_CHECK(!res, "insert-new", "inserting new key %ld returned a node", n->key); m[n->key] = n; in[i] = true; ev("insert.new"); }
        } else if (c < 85) {
            if (!in[i]) { if (m.empty()) continue; auto f = m.lower_bound(n->key); if (f == m.end()) f = m.begin(); n = f->second; i = n->id; }
            int kids = !!zt_rbt_left(&n->node) + !!zt_rbt_right(&n->node);
            zt_rbt_node *res = zt_rbt_remove(&head, &n->node); op("remove %ld", n->key); VT_CHECK(res == &n->node, "remove-rc", "remove returned a different node"); m.erase(n->key); in[i] = false; ev(kids == 2 ? "remove.two_children" : kids ? "remove.one_child" : "remove.leaf");
            std::string junk = r.bytes(sizeof(zt_rbt_node)); memcpy(&n->node, junk.data(), sizeof(zt_rbt_node));     // the tree must not look at it again
        } else {
            N q; memset(&q, 0, sizeof q); q.key = r.chance(1, 2) ? n->key + r.range(-2, 2) : (long)r.below(span + 2) - 1;
            zt_rbt_node *f = zt_rbt_find(&head, &q.node, cmp); auto e = m.find(q.key); VT_CHECK(f == (e == m.end() ? NULL : &e->second->node), "find", "find %ld", q.key); ev(f ? "find.hit" : "find.miss");
            zt_rbt_node *g = zt_rbt_nfind(&head, &q.node, cmp); auto l = m.lower_bound(q.key); VT_CHECK(g == (l == m.end() ? NULL : &l->second->node), "nfind", "find-at-or-above %ld returned %ld", q.key, g ? NODE(g)->key : -1); ev("nfind");
        }
        if (!big || o % 97 == 0) { invariants(head, m); order(&head, m); }
    }
    invariants(head, m); order(&head, m);
    // deletion-safe traversal removing a random subset
    auto it = m.begin(); unsigned den = 1 + r.below(3); M left;
    zt_rbt_for_each_safe(&head, x, nx) { VT_CHECK(it != m.end() && NODE(x) == it->second, "safe-traverse", "deletion-safe traversal lost its place"); N *n = NODE(x); if (r.below(den) == 0) { zt_rbt_remove(&head, x); memset(x, 0xa5, sizeof *x); ev("remove.during_traversal"); } else left[n->key] = n; ++it; }
    VT_CHECK(it == m.end(), "safe-traverse-short", "deletion-safe traversal ended early"); m.swap(left);
    invariants(head, m); order(&head, m);
    for (auto &n : ns) VT_CHECK(n.guard == 0xfeedface && n.id == &n - &ns[0], "payload", "a node's payload was overwritten");
    ev("comparisons", g_cmps); g_cmps = 0; nontrivial(nops > 3);
}
