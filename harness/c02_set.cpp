#include "ztc.hpp"
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() { zt_set *s = zt_set_init(zt_table_compare_int, NULL, NULL); zt_set_destroy(s); }
struct Elt { std::string s; uintptr_t i; size_t len; int cls; };   // cls: equality class
struct It { std::vector<void *> seen; size_t stop_at = (size_t)-1; int val = 0; void *magic; };
static int iter(void *d, void *p) { It *it = (It *)p; it->seen.push_back(d); return it->seen.size() == it->stop_at ? it->val : 0; }
static std::vector<void *> *g_destroyed;
static void destroy_cb(void *d) { g_destroyed->push_back(d); }
static unsigned g_marker;
static int custom_match(const void *a, size_t, const void *b, size_t, void *cd) {
    if (cd != &g_marker) fail("cdata", "match callback called with wrong user data");
    return ((uintptr_t)a % 16) == ((uintptr_t)b % 16);   // equivalence unrelated to the bytes' identity
}
bool vt_probe(const std::string &n) {
    if (n == "remove") {
        zt_set *s = zt_set_init(zt_table_compare_int, NULL, NULL);
        for (uintptr_t i = 1; i <= 3; i++) zt_set_insert(s, (void *)i, sizeof(void *));
        void *d = (void *)2; zt_set_remove(s, &d);
        bool gone = !zt_set_is_member(s, (void *)2, sizeof(void *));
        It it; zt_set_for_each(s, iter, &it);
        VT_CHECK(gone && d == (void *)2 && it.seen.size() == 2 && zt_set_size(s) == 2, "remove-broken", "after removing 2 from {1,2,3}: member=%d handed back %p, %zu elements iterated, count %ld", !gone, d, it.seen.size(), (long)zt_set_size(s));
        zt_set_destroy(s); return true;
    }
    return false;
}
struct St { zt_set *s; std::map<int, void *> m; bool dest; };
void vt_case(Rng &r, uint64_t) {
    int kind = r.below(5);  // 0 int, 1 string by content, 2 binary, 3 case-insensitive, 4 custom
    size_t ne = 1 + r.below(r.chance(1, 8) ? 150 : 20); std::vector<Elt> el(ne); std::map<std::string, int> cls;
    int ilen = r.chance(2, 3) ? 8 : r.chance(1, 2) ? 4 : 2;
    for (auto &e : el) { std::string c;
        switch (kind) { case 0: e.len = ilen; e.i = r.chance(1, 2) ? r.below(16) : r.u64(); if (ilen < 8) e.i &= ((uintptr_t)1 << (8 * ilen)) - 1; c = std::string((char *)&e.i, 8); break;
            case 1: e.s = r.str(r.below(r.chance(1, 2) ? 4 : 24), "abc"); e.len = e.s.size(); c = e.s; break;
            case 2: e.s = r.bytes(r.below(r.chance(1, 2) ? 3 : 24)); for (auto &ch : e.s) if (r.chance(1, 2)) ch = r.below(2); e.len = e.s.size(); c = e.s; break;
            case 3: e.s = r.str(r.below(5), "aAbB"); e.len = e.s.size(); c = e.s; for (auto &ch : c) ch = tolower(ch); break;
            default: e.i = r.below(r.chance(1, 2) ? 40 : 1000); e.len = 1 + r.below(8); c = std::string(1, (char)(e.i % 16)); }
        e.cls = cls.emplace(c, cls.size()).first->second; }
    auto ptr = [&](const Elt &e) -> void * { return kind == 0 || kind == 4 ? (void *)e.i : (void *)e.s.c_str(); };
    auto match = kind == 0 ? zt_table_compare_int : kind == 1 ? zt_table_compare_string : kind == 2 ? zt_table_compare_buff : kind == 3 ? zt_table_compare_string_case : custom_match;
    int n = 2 + r.below(4); std::vector<St> ss(n); std::vector<void *> destroyed; g_destroyed = &destroyed;
    for (auto &s : ss) { s.dest = r.chance(1, 3); s.s = zt_set_init(match, s.dest ? destroy_cb : NULL, kind == 4 ? &g_marker : NULL); VT_CHECK(s.s, "init", "no set"); }
    op("kind=%d elements=%zu classes=%zu sets=%d", kind, ne, cls.size(), n); mix(kind); mix(ne);
    auto contents = [&](St &s, std::vector<void *> want_only = {}) {
        It it; int rc = zt_set_for_each(s.s, iter, &it); VT_CHECK(rc == 0, "iter-rc", "full iteration returned %d", rc); ev("iter.full");
        VT_CHECK(zt_set_size(s.s) == (long)s.m.size(), "size", "element count %ld, model %zu", (long)zt_set_size(s.s), s.m.size());
        VT_CHECK(it.seen.size() == s.m.size(), "iter-count", "iteration visited %zu of %zu members", it.seen.size(), s.m.size());
        std::multiset<void *> a(it.seen.begin(), it.seen.end()), b; for (auto &e : s.m) b.insert(e.second);
        VT_CHECK(a == b, "iter-members", "iteration visited something other than the members");
        for (auto &e : el) { Elt cp = e; int want = s.m.count(e.cls); int got = zt_set_is_member(s.s, ptr(cp), cp.len);
            VT_CHECK(!!got == want, "member", "membership of element %s (class %d) reported %d, should be %d", kind == 0 || kind == 4 ? std::to_string(e.i).c_str() : esc(e.s).c_str(), e.cls, got, want); }
    };
    size_t nops = 1 + r.below(60);
    for (size_t o = 0; o < nops; o++) {
        St &s = r.pick(ss); int c = r.below(20); mix(c);
        if (c < 11) { int burst = r.chance(1, 4) ? 1 + r.below(ne) : 1; while (burst--) {
            const Elt &e = r.pick(el); int rc = zt_set_insert(s.s, ptr(e), e.len); bool had = s.m.count(e.cls); mix(e.cls);
            VT_CHECK(had ? rc == 1 : rc == 0, "insert-rc", "inserting %s member returned %d", had ? "a present" : "an absent", rc); ev(had ? "insert.present" : "insert.new");
            if (!had) s.m[e.cls] = ptr(e); } op("insert -> %zu", s.m.size());
            contents(s);
        } else if (c < 15) {   // algebra into a result set: fresh, or already populated
            St &a = r.pick(ss), &b = r.pick(ss); St res; res.dest = false; res.s = zt_set_init(match, NULL, kind == 4 ? &g_marker : NULL);
            if (r.chance(1, 3)) for (int i = 0; i < 3; i++) { const Elt &e = r.pick(el); if (zt_set_insert(res.s, ptr(e), e.len) == 0) res.m[e.cls] = ptr(e); }
            int k = r.below(3); int rc; std::map<int, void *> add;
            for (auto &x : a.m) { bool inb = b.m.count(x.first); if (k == 0 || (k == 1) == inb) add.insert(x); }
            if (k == 0) for (auto &x : b.m) add.insert(x);
            rc = k == 0 ? zt_set_union(res.s, a.s, b.s) : k == 1 ? zt_set_intersection(res.s, a.s, b.s) : zt_set_difference(res.s, a.s, b.s);
            static const char *nm[] = {"union", "intersection", "difference"}; op("%s of %zu and %zu", nm[k], a.m.size(), b.m.size()); ev(nm[k]);
            VT_CHECK(rc == 0, "algebra-rc", "%s returned %d", nm[k], rc);
            std::set<int> got, want; std::map<void *, int> cl; for (auto &e : el) cl[ptr(e)] = e.cls;
            for (auto &x : add) want.insert(x.first); for (auto &x : res.m) want.insert(x.first);
            It it; zt_set_for_each(res.s, iter, &it); res.m.clear();   // which of two equal elements represents them is unspecified
            for (void *p : it.seen) { VT_CHECK(cl.count(p), "algebra-foreign", "%s produced an element from nowhere", nm[k]); VT_CHECK(got.insert(cl[p]).second, "algebra-dup", "%s produced an element twice", nm[k]); res.m[cl[p]] = p; }
            VT_CHECK(got == want, "algebra-result", "%s of sets with %zu and %zu members has %zu members, should have %zu", nm[k], a.m.size(), b.m.size(), got.size(), want.size());
            contents(res); contents(a); contents(b); zt_set_destroy(res.s);
        } else if (c < 18) { St &b = r.pick(ss); bool sub = true; for (auto &x : s.m) if (!b.m.count(x.first)) sub = false; bool eq = sub && s.m.size() == b.m.size();
            VT_CHECK(!!zt_set_is_subset(s.s, b.s) == sub, "subset", "subset of %zu in %zu reported %d", s.m.size(), b.m.size(), !sub); ev(sub ? "subset.true" : "subset.false");
            VT_CHECK(!!zt_set_is_equal(s.s, b.s) == eq, "equal", "equality of sets of %zu and %zu reported %d", s.m.size(), b.m.size(), !eq); ev(eq ? "equal.true" : "equal.false"); op("subset/equal");
            contents(s); contents(b);
        } else if (s.m.size()) { It it; it.stop_at = 1 + r.below(s.m.size()); it.val = 1 + r.below(9); int rc = zt_set_for_each(s.s, iter, &it); VT_CHECK(rc == it.val && it.seen.size() == it.stop_at, "iter-stop", "stop at %zu with %d: visited %zu returned %d", it.stop_at, it.val, it.seen.size(), rc); ev("iter.stopped"); op("stop"); }
    }
    for (auto &s : ss) { destroyed.clear(); zt_set_destroy(s.s); std::multiset<void *> a(destroyed.begin(), destroyed.end()), b; if (s.dest) for (auto &e : s.m) b.insert(e.second); VT_CHECK(a == b, "destroy", "destroy callback ran for %zu elements, expected %zu", a.size(), b.size()); }
}
