#include "ztc.hpp"
extern "C" {
#include <libzt/zt_gc.h>
}
#include <algorithm>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
void vt_init() {}
struct Obj { zt_gc_collectable_t mark; int id; Obj *ref[4]; };
struct M { Obj *o; int ref[4]; bool reg, prot, live; unsigned released; };    // model of object id
static std::vector<M> V; static int pinned = -1; static bool destroying, in_gc, no_release, reenter; static void *priv; static unsigned marks, releases; static Rng *R;
static std::vector<bool> reach() { std::vector<bool> r(V.size()); std::vector<int> st; for (size_t i = 0; i < V.size(); i++) if (V[i].live && V[i].reg && (V[i].prot || (int)i == pinned)) { r[i] = true; st.push_back(i); } while (!st.empty()) { int x = st.back(); st.pop_back(); for (int k : V[x].ref) if (k >= 0 && !r[k]) { r[k] = true; st.push_back(k); } } return r; }
static void mark_fn(zt_gc_t *gc, void *pd, void *v) { Obj *o = (Obj *)v; marks++; VT_CHECK(pd == priv, "mark-private", "mark called with the wrong private data"); int id = o->id; VT_CHECK(id >= 0 && (size_t)id < V.size() && V[id].o == o && V[id].live, "mark-dead", "mark called for a value that was released"); VT_CHECK(V[id].reg, "mark-unregistered", "mark called for an unregistered value");
    for (int k = 0; k < 4; k++) if (o->ref[k]) { VT_CHECK(V[V[id].ref[k]].live, "dangling", "a traversed value refers to released value %d", V[id].ref[k]); zt_gc_mark(gc, o->ref[k]); } }
static void release_fn(zt_gc_t *gc, void *pd, void **pv) { Obj *o = (Obj *)*pv; VT_CHECK(pd == priv, "release-private", "release called with the wrong private data"); VT_CHECK(o->id >= 0 && (size_t)o->id < V.size() && V[o->id].o == o, "release-unknown", "an unknown value was released"); M &m = V[o->id]; VT_CHECK(m.live && m.released == 0, "release-twice", "value %d released again", o->id); VT_CHECK(m.reg, "release-unregistered", "unregistered value %d released", o->id); VT_CHECK(!no_release, "release-disabled", "value %d released while collection is disabled", o->id); VT_CHECK(in_gc, "release-when", "value released outside a collection");
    if (!destroying) { VT_CHECK(!m.prot, "release-protected", "protected value %d released", o->id); auto r = reach(); VT_CHECK(!r[o->id], "release-live", "value %d released while reachable", o->id); }
    int me = o->id; m.live = false; m.released++; releases++; if (R->chance(1, 2)) { zt_gc_unregister(gc, o); ev("release.unregisters"); } memset(o, 0xa5, sizeof *o); free(o); *pv = NULL; ev("release");
    // a release callback is a user of the collector like any other
    if (reenter) { unsigned k = R->below(12); if (k < 2) { auto r = reach(); std::vector<int> c; for (size_t i = 0; i < V.size(); i++) if ((int)i != me && (int)i != pinned && V[i].live && V[i].reg && (destroying || !r[i])) c.push_back(i); if (c.empty()) return; int x = R->pick(c); for (size_t i = 0; i < V.size(); i++) if (V[i].live && V[i].reg) for (int q = 0; q < 4; q++) if (V[i].ref[q] == x) { V[i].ref[q] = -1; V[i].o->ref[q] = NULL; } if (V[x].prot) zt_gc_unprotect(gc, V[x].o); V[x].reg = V[x].prot = false; zt_gc_unregister(gc, V[x].o); VT_CHECK(V[x].live && !V[x].released, "release-unregistered", "a value was released by its own unregistration"); V[x].live = false; memset(V[x].o, 0xa5, sizeof(Obj)); free(V[x].o); ev("release.unregisters.other"); return; }
        if (destroying) return;
        auto r = reach(); std::vector<int> live; for (size_t i = 0; i < V.size(); i++) if (r[i]) live.push_back(i);
        if (k == 2 && V.size() < 390) { Obj *n = (Obj *)malloc(sizeof(Obj)); memset(n, 0x5a, sizeof *n); n->id = V.size(); for (auto &x : n->ref) x = NULL; M nm; nm.o = n; for (int &q : nm.ref) q = -1; nm.prot = nm.live = nm.reg = true; nm.released = 0; V.push_back(nm); zt_gc_prepare(gc, n); zt_gc_register(gc, n); zt_gc_protect(gc, n); VT_CHECK(V[n->id].live, "release-new", "a value was released by its own registration"); ev("release.registers"); }
        else if (k == 3 && !live.empty()) { int x = R->pick(live); V[x].prot = true; zt_gc_protect(gc, V[x].o); ev("release.protects"); }
        else if (k == 4 && !live.empty()) { int x = R->pick(live), y = R->pick(live), q = R->below(4); if (V[y].ref[q] >= 0) return; V[y].ref[q] = x; V[y].o->ref[q] = V[x].o; zt_gc_mark(gc, V[x].o); ev("release.stores"); }
        else if (k == 5) { zt_gc_collect(gc, R->below(2)); ev("release.collects"); }
        else if (k == 6) { zt_gc_disable(gc); zt_gc_enable(gc); ev("release.toggles"); } } }
struct Visit { std::set<int> seen; unsigned n = 0; bool bad = false; };
static void each(void *value, void *data, int ty) { Visit *v = (Visit *)data; v->n++; v->seen.insert(((Obj *)value)->id); if (ty < 0 || ty > 2) v->bad = true; }
void vt_case(Rng &r, uint64_t) {
    R = &r; V.clear(); V.reserve(400); pinned = -1; destroying = no_release = false; in_gc = true; marks = releases = 0; reenter = r.chance(1, 2); int pd; priv = &pd; int mps = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 1 + r.below(4) : 1 + r.below(40), abs_ = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 1 + r.below(5) : 1 + r.below(50);
    zt_gc_t *gc = zt_gc_init(&pd, mark_fn, release_fn, mps, abs_); VT_CHECK(gc, "init", "no collector"); op("gc marks %d allocs %d", mps, abs_); mix(mps * 100 + abs_); int disabled = 0;
    auto setd = [&] { no_release = disabled > 0; };
    auto fresh = [&] { Obj *o = (Obj *)malloc(sizeof(Obj)); memset(o, (int)r.u64(), sizeof *o); o->id = V.size(); for (auto &x : o->ref) x = NULL; zt_gc_prepare(gc, o); M m; m.o = o; for (int &k : m.ref) k = -1; m.reg = m.prot = false; m.live = true; m.released = 0; V.push_back(m); return (int)V.size() - 1; };
    auto store = [&](int y, int k, int x) { V[y].ref[k] = x; V[y].o->ref[k] = x < 0 ? NULL : V[x].o; if (x >= 0) zt_gc_mark(gc, V[x].o); };
    auto reachable = [&] { auto rr = reach(); std::vector<int> v; for (size_t i = 0; i < V.size(); i++) if (rr[i]) v.push_back(i); return v; };
    auto check_all = [&] { size_t want = 0; Visit v; zt_gc_for_each(gc, each, &v); for (auto &m : V) want += m.live && m.reg; VT_CHECK(v.n == want && v.seen.size() == want && !v.bad, "for_each", "traversal visited %u values (%zu distinct), %zu are registered", v.n, v.seen.size(), want); ev("for_each"); };
    unsigned steps = 10 + r.below(120), style = r.below(3);
    for (unsigned s = 0; s < steps; s++) {
        unsigned k = r.below(24); auto rv = reachable(); mix(k);
        if (rv.empty() || k == 0) { int x = fresh(); V[x].reg = true; V[x].prot = true; zt_gc_protect(gc, V[x].o); op("new root %d", x); ev("protect.new"); continue; }
        int y = r.pick(rv), slot = r.below(4);
        if (k < 8) { int x = fresh(); V[x].reg = true; pinned = x; unsigned m0 = marks, r0 = releases; op("register %d into %d.%d", x, y, slot); bool before = r.chance(1, 5); (void)before; zt_gc_register(gc, V[x].o); VT_CHECK(V[x].live, "release-new", "a value was released by its own registration"); if (!disabled && marks > m0) ev(releases > r0 ? "incremental.complete" : "incremental"); if (r.chance(1, 8)) { V[x].prot = true; zt_gc_protect(gc, V[x].o); ev("protect.registered"); } else { if (r.chance(5, 6)) store(y, slot, x); } pinned = -1; ev("register"); }
        else if (k < 13) { int x = r.pick(rv); if (style == 1 && x < y) std::swap(x, y); op("store %d.%d = %d", y, slot, x); store(y, slot, x); ev("store"); }
        else if (k < 16) { op("clear %d.%d", y, slot); store(y, slot, -1); ev("clear"); }
        else if (k == 16) { op("protect %d", y); ev(V[y].prot ? "protect.again" : "protect.existing"); V[y].prot = true; zt_gc_protect(gc, V[y].o); }
        else if (k == 17) { std::vector<int> ps; for (int i : rv) if (V[i].prot) ps.push_back(i); if (ps.size() < 2 && r.chance(1, 2)) continue; int x = r.pick(ps); if (r.chance(1, 6)) { for (int q = 0; q < 4; q++) store(y, q, r.chance(1, 2) ? x : -1); } op("unprotect %d", x); V[x].prot = false; zt_gc_unprotect(gc, V[x].o); if (r.chance(1, 3)) { auto r2 = reachable(); if (std::find(r2.begin(), r2.end(), x) != r2.end()) { op("mark %d", x); zt_gc_mark(gc, V[x].o); } } ev("unprotect"); }
        else if (k == 18) { // move the root: protect an inner value and drop the path to it
            op("reroot %d", y); V[y].prot = true; zt_gc_protect(gc, V[y].o); for (size_t i = 0; i < V.size(); i++) if (V[i].live && V[i].reg) for (int q = 0; q < 4; q++) if (V[i].ref[q] == y && (int)i != y) store(i, q, -1); if (r.chance(1, 2)) for (int i : rv) if (V[i].prot && i != y && r.chance(1, 2)) { V[i].prot = false; zt_gc_unprotect(gc, V[i].o); } ev("reroot"); }
        else if (k == 19) { std::vector<int> c; for (size_t i = 0; i < V.size(); i++) if (V[i].live && V[i].reg && !V[i].prot) { bool in = false; for (auto &m : V) if (m.live && m.reg) for (int q : m.ref) in |= q == (int)i; if (!in) c.push_back(i); }
            // make one: drop every reference to a value, wherever it is held
            int x = -1; if (!c.empty() && r.chance(1, 2)) x = r.pick(c); else if (!V[y].prot || r.chance(1, 3)) { x = y; for (size_t i = 0; i < V.size(); i++) if (V[i].live && V[i].reg) for (int q = 0; q < 4; q++) if (V[i].ref[q] == x) store(i, q, -1); } if (x < 0) continue;
            if (V[x].prot) { V[x].prot = false; zt_gc_unprotect(gc, V[x].o); } op("unregister %d", x); V[x].reg = false; zt_gc_unregister(gc, V[x].o); VT_CHECK(V[x].live, "release-unregistered", "an unregistered value was released"); for (int q = 0; q < 4; q++) { V[x].ref[q] = -1; V[x].o->ref[q] = NULL; } ev("unregister");
            if (r.chance(1, 2)) { Obj *o = V[x].o; V[x].live = false; memset(o, 0xa5, sizeof *o); free(o); } }
        else if (k == 20) { std::vector<int> c; for (size_t i = 0; i < V.size(); i++) if (V[i].live && !V[i].reg) c.push_back(i); if (c.empty()) continue; int x = r.pick(c); op("re-register %d", x); V[x].reg = true; pinned = x; zt_gc_prepare(gc, V[x].o); zt_gc_register(gc, V[x].o); store(y, slot, x); pinned = -1; ev("reregister"); }
        else if (k == 21) { op("collect full"); unsigned r0 = releases; setd(); zt_gc_collect(gc, 1); ev(disabled ? "collect.disabled" : releases > r0 ? "collect.full.frees" : "collect.full"); }
        else if (k == 22) { op("collect"); zt_gc_collect(gc, 0); ev("collect.increment"); }
        else { if (disabled && r.chance(1, 2)) { disabled--; setd(); op("enable"); zt_gc_enable(gc); ev("enable"); } else if (disabled < 3) { zt_gc_disable(gc); disabled++; setd(); op("disable"); ev("disable"); } }
        if (r.chance(1, 12)) check_all();
        for (auto &m : V) if (m.live) for (int q = 0; q < 4; q++) VT_CHECK(m.o->ref[q] == (m.ref[q] < 0 ? NULL : V[m.ref[q]].o), "content", "a live value changed");
    }
    if (r.chance(1, 20)) { char *mm = NULL; size_t l = 0; FILE *o = stdout; stdout = open_memstream(&mm, &l); zt_gc_print_heap(gc); fclose(stdout); stdout = o; for (auto &m : V) if (m.live && m.reg) { char b[32]; snprintf(b, sizeof b, "%p", (void *)m.o); VT_CHECK(strstr(mm, b), "print", "value %s missing from the heap dump", b); } free(mm); ev("print"); }
    bool final_collect = r.chance(3, 4); size_t unreach = 0; if (final_collect) { while (disabled) { disabled--; setd(); zt_gc_enable(gc); } bool re = reenter; reenter = false; auto rr = reach(); for (size_t i = 0; i < V.size(); i++) unreach += V[i].live && V[i].reg && !rr[i]; for (int i = 0; i < 3; i++) zt_gc_collect(gc, 1); rr = reach(); for (size_t i = 0; i < V.size(); i++) if (V[i].reg && V[i].live) VT_CHECK(rr[i], "garbage", "unreachable value %zu survives three full collections", i); check_all(); ev("quiesce"); reenter = re; if (unreach) ev("quiesce.frees", unreach); }
    destroying = true; no_release = false; if (disabled) { char *mm = NULL; size_t l = 0; FILE *o = stdout; stdout = open_memstream(&mm, &l); zt_gc_destroy(gc); fclose(stdout); stdout = o; free(mm); ev("destroy.disabled"); } else zt_gc_destroy(gc);
    for (size_t i = 0; i < V.size(); i++) { if (V[i].reg) VT_CHECK(!V[i].live && V[i].released == 1, "destroy", "value %zu was released %u times", i, V[i].released); else if (V[i].live) { free(V[i].o); V[i].live = false; } }
    nontrivial(V.size() > 2); V = std::vector<M>();
}
