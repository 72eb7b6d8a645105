#include "ztc.hpp"
#include <algorithm>
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
typedef std::vector<uintptr_t> V;
static V seq(zt_llist l, size_t max) { V v; std::set<zt_pair *> seen; for (; l; l = zt_llist_tail(l)) { VT_CHECK(v.size() <= max && seen.insert(l).second, "cycle", "list is circular or too long"); v.push_back((uintptr_t)zt_llist_head(l)); } return v; }
static std::set<zt_pair *> cells(zt_llist l) { std::set<zt_pair *> s; for (; l; l = zt_llist_tail(l)) s.insert(l); return s; }
static int g_mode; static bool g_bad; static std::set<uintptr_t> *g_vals;
// predicate: "does a belong after b" (non-strict => stable); only the high part of a value is the key, the low part is its identity
static int after_ge(void *a, void *b) { if (!g_vals->count((uintptr_t)a) || !g_vals->count((uintptr_t)b)) fail("cmp-args", "predicate called with a value that is not in the list"); return ((uintptr_t)a >> 16) >= ((uintptr_t)b >> 16); }
static int after_gt(void *a, void *b) { return ((uintptr_t)a >> 16) > ((uintptr_t)b >> 16); }
static int after_big(void *a, void *b) { return after_ge(a, b) ? -7 : 0; }
static bool klt(uintptr_t a, uintptr_t b) { return (a >> 16) < (b >> 16); }
struct L { zt_llist l; V v; };
static void same(L &x, const char *w) { V g = seq(x.l, x.v.size()); VT_CHECK(g == x.v, "sequence", "after %s: list has %zu values, expected %zu (or differs)", w, g.size(), x.v.size()); }
void vt_case(Rng &r, uint64_t) {
    size_t n = 1 + r.below(4); std::vector<L> ls(n); for (auto &l : ls) l.l = NULL; std::set<uintptr_t> vals; g_vals = &vals; uintptr_t uid = 1; unsigned span = 1 + r.below(r.chance(1, 2) ? 4 : 1000);
    size_t nops = 1 + r.below(80); op("lists=%zu ops=%zu", n, nops); bool bigger = r.chance(1, 10);
    for (size_t o = 0; o < nops; o++) {
        L &x = r.pick(ls); int c = r.below(17); mix(c); mix(x.v.size());
        auto nv = [&] { uintptr_t v = (r.below(span) << 16) | (uid++ & 0xffff); vals.insert(v); return v; };
        switch (c) {
        case 0: case 1: { uintptr_t v = nv(); zt_llist q = zt_llist_push((void *)v, &x.l); x.v.insert(x.v.begin(), v); VT_CHECK(q == x.l, "push-rc", "push returns the new list"); op("push"); ev("push"); break; }
        case 2: { uintptr_t v = nv(); zt_llist old = x.l; x.l = zt_llist_cons((void *)v, x.l); VT_CHECK(zt_llist_tail(x.l) == old, "cons", "cons tail"); x.v.insert(x.v.begin(), v); op("cons"); ev("cons"); break; }
        case 3: { size_t k = r.below(bigger ? 300 : 20); while (k--) { uintptr_t v = nv(); zt_llist_push((void *)v, &x.l); x.v.insert(x.v.begin(), v); } op("push many"); break; }
        case 4: { void *p = zt_llist_pop(&x.l); VT_CHECK(x.v.empty() ? p == NULL && x.l == NULL : (uintptr_t)p == x.v[0], "pop", "popped the wrong item"); ev(x.v.empty() ? "pop.empty" : "pop"); if (!x.v.empty()) x.v.erase(x.v.begin()); op("pop"); break; }
        case 5: { zt_llist q = zt_llist_ppop(&x.l); if (x.v.empty()) { VT_CHECK(!q && !x.l, "ppop-empty", "cell from an empty list"); break; } VT_CHECK((uintptr_t)zt_llist_head(q) == x.v[0], "ppop", "popped the wrong cell"); uintptr_t v = x.v[0]; x.v.erase(x.v.begin()); L &y = r.pick(ls); zt_llist rc = zt_llist_ppush(q, &y.l); VT_CHECK(rc == y.l && y.l == q, "ppush", "pushed cell is not the head"); y.v.insert(y.v.begin(), v); op("ppop/ppush"); ev("cell.move"); break; }
        case 6: if (!x.v.empty()) { size_t k = r.chance(1, 3) ? x.v.size() - 1 : r.below(x.v.size()); VT_CHECK((uintptr_t)zt_llist_nth(x.l, k) == x.v[k], "nth", "element %zu of %zu", k, x.v.size()); ev("nth"); op("nth %zu", k);
            zt_llist t = zt_llist_nthtail(x.l, k); V want(x.v.begin() + k + 1, x.v.end()); VT_CHECK(seq(t, x.v.size()) == want, "nthtail", "tail %zu of %zu", k, x.v.size()); } break;
        case 7: { auto before = cells(x.l); x.l = zt_llist_nreverse(x.l); std::reverse(x.v.begin(), x.v.end()); VT_CHECK(cells(x.l) == before, "nreverse-cells", "in-place reversal did not reuse the cells"); op("nreverse"); ev("nreverse"); break; }
        case 8: { L y; y.l = zt_llist_reverse(x.l); y.v = x.v; std::reverse(y.v.begin(), y.v.end()); same(y, "reverse copy"); same(x, "reverse (original)"); auto a = cells(x.l); for (auto p : cells(y.l)) VT_CHECK(!a.count(p), "reverse-shares", "reversed copy shares cells"); zt_llist_free(y.l); ev("reverse"); op("reverse"); break; }
        case 9: case 10: { L y; auto before = cells(x.l); y.l = zt_llist_split(x.l); V all = x.v; if (x.v.empty()) { VT_CHECK(!y.l, "split-empty", "split of nothing"); break; }
            V a = seq(x.l, all.size()), b = seq(y.l, all.size()), cat = a; cat.insert(cat.end(), b.begin(), b.end());
            VT_CHECK(cat == all, "split", "halves of %zu values have %zu and %zu", all.size(), a.size(), b.size()); VT_CHECK(a.size() >= b.size() && a.size() - b.size() <= 1, "split-balance", "halves of %zu values have %zu and %zu", all.size(), a.size(), b.size());
            ev(all.size() == 1 ? "split.single" : "split"); x.v = a; y.v = b; op("split %zu", all.size());
            L &z = r.pick(ls); if (&z != &x && z.v.empty()) { z = y; } else { zt_llist_free(y.l); } break; }
        case 11: case 12: { L &y = r.pick(ls); if (&y == &x) break;   // merge needs sorted inputs
            auto k1 = cells(x.l), k2 = cells(y.l); k1.insert(k2.begin(), k2.end());
            bool st = r.chance(1, 2); auto cmp = st ? (r.chance(1, 2) ? after_ge : after_big) : after_gt;
            x.l = zt_llist_sort(x.l, cmp); y.l = zt_llist_sort(y.l, cmp); V a = seq(x.l, x.v.size()), b = seq(y.l, y.v.size());
            auto chk = [&](V got, V orig, const char *w) { V s = orig; if (st) { std::stable_sort(s.begin(), s.end(), klt); VT_CHECK(got == s, "sort", "%s of %zu values is not the stable order", w, orig.size()); } else { VT_CHECK(std::is_sorted(got.begin(), got.end(), klt), "sort-order", "%s of %zu values not ordered", w, orig.size()); std::sort(s.begin(), s.end()); V g = got; std::sort(g.begin(), g.end()); VT_CHECK(g == s, "sort-values", "%s lost or invented values", w); } };
            chk(a, x.v, "sort"); chk(b, y.v, "sort"); V both = a; both.insert(both.end(), b.begin(), b.end());
            x.l = zt_llist_nmerge(x.l, y.l, cmp); y.l = NULL; V m = seq(x.l, both.size()); chk(m, both, "merge"); VT_CHECK(cells(x.l) == k1, "merge-cells", "sorting/merging did not reuse exactly the cells"); x.v = m; y.v.clear(); ev("merge"); op("sort+merge %zu", m.size()); break; }
        case 13: case 14: { auto before = cells(x.l); V orig = x.v; bool st = r.chance(1, 2); x.l = zt_llist_sort(x.l, st ? after_ge : after_gt); x.v = seq(x.l, orig.size()); V s = orig; std::stable_sort(s.begin(), s.end(), klt);
            if (st) VT_CHECK(x.v == s, "sort", "sorting %zu values", orig.size()); else { VT_CHECK(std::is_sorted(x.v.begin(), x.v.end(), klt), "sort-order", "sorting %zu values", orig.size()); V g = x.v; std::sort(g.begin(), g.end()); std::sort(s.begin(), s.end()); VT_CHECK(g == s, "sort-values", "sort lost or invented values"); }
            VT_CHECK(cells(x.l) == before, "sort-cells", "sort did not reuse the cells"); ev("sort"); op("sort"); break; }
        default: if (r.chance(1, 6)) { zt_llist_free(x.l); x.l = NULL; x.v.clear(); ev("free"); op("free"); }
        }
        for (auto &l : ls) same(l, "step");
    }
    for (auto &l : ls) zt_llist_free(l.l);
    nontrivial(nops > 2);
}
