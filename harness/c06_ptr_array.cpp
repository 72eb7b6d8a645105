#include "ztc.hpp"
#include <algorithm>
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
static std::vector<void *> *g_freed;
static void freecb(void *p) { g_freed->push_back(p); free(p); }
struct A { zt_ptr_array *a; std::vector<void *> m; bool cb; };
static void same(A &x, const char *w) {
    VT_CHECK(zt_ptr_array_length(x.a) == (int)x.m.size(), "count", "after %s: count %d, expected %zu", w, (int)zt_ptr_array_length(x.a), x.m.size());
    for (size_t i = 0; i < x.m.size(); i++) VT_CHECK(zt_ptr_array_get_idx(x.a, i) == x.m[i], "element", "after %s: element %zu of %zu is %p, expected %p", w, i, x.m.size(), zt_ptr_array_get_idx(x.a, i), x.m[i]);
    VT_CHECK(zt_ptr_array_get_idx(x.a, -1) == (x.m.empty() ? NULL : x.m.back()), "last", "index -1 with %zu elements", x.m.size());
    ev("compares");
}
void vt_case(Rng &r, uint64_t) {
    std::vector<void *> freed, expect; g_freed = &freed; { Quiet q; freed.reserve(8192); }
    size_t n = 1 + r.below(3); std::vector<A> as(n); unsigned pool = 3 + r.below(8);   // without callback: values from a small set, so duplicates occur
    bool cb = r.chance(1, 2); bool heap = cb || r.chance(1, 3);
    for (auto &x : as) { x.cb = cb; x.a = zt_ptr_array_init(&x, cb ? freecb : NULL); VT_CHECK(x.a && zt_ptr_array_length(x.a) == 0, "init", "new array not empty"); }
    size_t nops = 1 + r.below(r.chance(1, 6) ? 300 : 60); op("arrays=%zu cb=%d heap=%d", n, cb, heap); mix(cb * 2 + heap);
    auto mk = [&]() -> void * { if (heap) { char *p = (char *)malloc(8); memset(p, 1, 8); return p; } return (void *)(uintptr_t)(1 + r.below(pool)); };
    for (size_t o = 0; o < nops; o++) {
        A &x = r.pick(as); int c = r.below(100); mix(c);
        if (c < 40) { size_t k = r.chance(1, 6) ? r.below(80) : 1; while (k--) { void *p = mk(); int rc = zt_ptr_array_add(x.a, p); VT_CHECK(rc == 0, "add-rc", "add returned %d", rc); x.m.push_back(p); } op("add -> %zu", x.m.size()); ev("add"); if (x.m.size() > 32) ev("grown"); }
        else if (c < 60) { bool present = !x.m.empty() && r.chance(4, 5); void *p = present ? r.pick(x.m) : (void *)(uintptr_t)(heap ? 8 : 1 + r.below(pool)); auto f = std::find(x.m.begin(), x.m.end(), p); present = f != x.m.end();
            size_t nf = freed.size(); int rc = zt_ptr_array_del(x.a, p); op("del present=%d", present);
            VT_CHECK(present ? rc == 0 : rc == -1, "del-rc", "removing %s pointer returned %d", present ? "a present" : "an absent", rc);
            if (present) { *f = x.m.back(); x.m.pop_back(); ev("del.hit"); if (cb) VT_CHECK(freed.size() == nf + 1 && freed.back() == p, "del-free", "callback ran %zu times for the removed pointer", freed.size() - nf); else { VT_CHECK(freed.size() == nf, "del-free-none", "callback ran"); if (heap) free(p); } }
            else { ev("del.miss"); VT_CHECK(freed.size() == nf, "del-miss-free", "callback ran for an absent pointer"); } }
        else if (c < 70) { if (heap) continue; int32_t s = r.chance(1, 4) ? r.range(-3, 40) : (int)r.below(x.m.size() + 1), d = r.chance(1, 4) ? r.range(-3, 40) : (int)r.below(x.m.size() + 1); if (r.chance(1, 30)) s = r.chance(1, 2) ? INT32_MAX : INT32_MIN;
            bool ok = s >= 0 && d >= 0 && s < (int)x.m.size() && d < (int)x.m.size(); int rc = zt_ptr_array_move_idx_to_idx(x.a, s, d); op("move %d -> %d = %d", s, d, rc);
            VT_CHECK(ok ? rc == 0 : rc == -1, "move-rc", "move %d to %d with %zu elements returned %d", s, d, x.m.size(), rc); if (ok) x.m[d] = x.m[s]; ev(ok ? "move" : "move.rejected"); }
        else if (c < 78) { static const int32_t odd[] = {-1, -5, INT32_MIN, INT32_MAX, INT32_MAX - 31}; int32_t e = r.chance(1, 3) ? odd[r.below(5)] : (int)r.below(100); int rc = zt_ptr_array_resize(x.a, e); op("resize %d = %d", e, rc);
            VT_CHECK(e >= 0 && e <= 100 ? rc == 0 : rc == -1, "resize-rc", "resize by %d returned %d", e, rc); ev(rc ? "resize.rejected" : "resize"); }
        else if (c < 84) { if (heap) continue; A &y = r.pick(as); if (x.m.size() + y.m.size() > 2000) continue; int rc = zt_ptr_array_cat(x.a, y.a); VT_CHECK(rc == 0, "cat-rc", "concatenation returned %d", rc); auto t = y.m; x.m.insert(x.m.end(), t.begin(), t.end()); op("cat%s", &x == &y ? " self" : ""); ev(&x == &y ? "cat.self" : "cat"); same(y, "cat (source)"); }
        else if (c < 90) { std::vector<char *> buf(x.m.size() + 1, (char *)0x77); buf.shrink_to_fit(); int rc = zt_ptr_array_copy_data(x.a, buf.data()); VT_CHECK(rc == 0, "copy-rc", "copy returned %d", rc); for (size_t i = 0; i < x.m.size(); i++) VT_CHECK(buf[i] == x.m[i], "copy", "copied element %zu", i); VT_CHECK(buf[x.m.size()] == (char *)0x77, "copy-over", "copy wrote past the elements"); ev("copy"); }
        else if (c < 97) { int32_t i = r.chance(1, 3) ? (int)x.m.size() + (int)r.below(40) : r.chance(1, 2) ? -2 - (int)r.below(50) : r.chance(1, 2) ? INT32_MAX : INT32_MIN; void *p = zt_ptr_array_get_idx(x.a, i); VT_CHECK(p == NULL, "get-range", "index %d of %zu elements gave %p", i, x.m.size(), p); ev("get.rejected"); op("get %d", i); }
        else { VT_CHECK(zt_ptr_array_add(x.a, NULL) == 0 && zt_ptr_array_del(x.a, NULL) == -1 && zt_ptr_array_cat(NULL, x.a) == -1 && zt_ptr_array_cat(x.a, NULL) == -1 && zt_ptr_array_resize(NULL, 1) == -1 && zt_ptr_array_copy_data(NULL, NULL) == -1 && zt_ptr_array_free(NULL, 1) == -1, "null", "null arguments"); ev("null.args"); }
        same(x, "step");
    }
    for (auto &x : as) { same(x, "end"); int fm = heap ? (cb || r.chance(1, 2)) : 0; size_t nf = freed.size(); std::vector<void *> want = x.m;
        int rc = zt_ptr_array_free(x.a, fm); VT_CHECK(rc == 0, "free-rc", "free returned %d", rc);
        if (cb && fm) { std::vector<void *> got(freed.begin() + nf, freed.end()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); VT_CHECK(got == want, "free-members", "callback ran for %zu members of %zu", got.size(), want.size()); }
        else { VT_CHECK(freed.size() == nf, "free-nocb", "callback ran unasked"); if (heap && !fm) for (void *p : x.m) free(p); } ev(fm ? "free.members" : "free"); }
    { Quiet q; std::vector<void *>().swap(freed); }
}
