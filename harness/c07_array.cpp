#include "ztc.hpp"
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
struct A { zt_array_t a; std::string m; size_t es; };
static void same(A &x, const char *w, Rng &r) {
    size_t n = x.m.size() / x.es; VT_CHECK(zt_array_length(x.a) == n && zt_array_size(x.a) == x.es, "dims", "after %s: length %zu size %zu, expected %zu and %zu", w, zt_array_length(x.a), zt_array_size(x.a), n, x.es);
    for (size_t i = 0; i < n; i++) { void *p = zt_array_get(x.a, i); VT_CHECK(memcmp(p, &x.m[i * x.es], x.es) == 0, "element", "after %s: element %zu of %zu (size %zu) is %s, expected %s", w, i, n, x.es, esc(p, x.es, 16).c_str(), esc(&x.m[i * x.es], x.es, 16).c_str()); }
    if (n) { VT_CHECK(memcmp(zt_array_data(x.a), x.m.data(), x.m.size()) == 0, "data", "after %s: data differs", w);
        size_t i = r.below(n); std::string e(x.es, 'z'); void *q = malloc(x.es); void *rc = zt_array_elem_copy(x.a, i, q); VT_CHECK(rc == q && memcmp(q, &x.m[i * x.es], x.es) == 0, "elem-copy", "element copy %zu", i); free(q); }
    ev("compares");
}
void vt_case(Rng &r, uint64_t) {
    static const size_t szs[] = {1, 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 100}; std::vector<A> as;
    size_t nops = 1 + r.below(40); op("ops=%zu", nops);
    auto add = [&] { A x; x.es = szs[r.below(13)]; int how = r.below(4); size_t n = r.chance(1, 5) ? 0 : r.below(r.chance(1, 5) ? 500 : 20); mix(how * 1000 + n); mix(x.es);
        if (how == 0) { x.a = zt_array_new(n, x.es); x.m.assign(n * x.es, 0); ev("new"); }
        else if (how == 1) { std::string d = r.bytes(n * x.es); char *b = (char *)malloc(d.size()); memcpy(b, d.data(), d.size()); x.a = zt_array_with(b, n, x.es, 1); memset(b, 0x33, d.size()); free(b); x.m = d; ev("with.copy"); }
        else if (how == 2) {
#ifdef CHECKED
            if (!n) n = 1;   // an empty block is not one to keep
#endif
            std::string d = r.bytes(n * x.es); char *b = (char *)malloc(d.size()); memcpy(b, d.data(), d.size()); x.a = zt_array_with(b, n, x.es, 0); x.m = d; VT_CHECK(zt_array_data(x.a) == b, "adopt", "adopted data moved"); ev("with.adopt"); }
        else { x.es = 1; std::string d = r.str(n, "abc \xff"); x.a = zt_array_with_cstr((char *)d.c_str()); x.m = d; ev("with.cstr"); }
        op("make how=%d n=%zu es=%zu", how, n, x.es); as.push_back(x); same(as.back(), "creation", r); };
    add();
    for (size_t o = 0; o < nops; o++) {
        size_t k = r.below(as.size()); int c = r.below(10); mix(c); A &x = as[k]; size_t n = x.m.size() / x.es;
        if (c < 4 && n) { size_t i = r.chance(1, 3) ? n - 1 : r.below(n); std::string e = r.bytes(x.es); char *b = (char *)malloc(x.es); memcpy(b, e.data(), x.es); void *rc = zt_array_put(x.a, i, b); VT_CHECK(rc == b, "put-rc", "put result"); memset(b, 0x44, x.es); free(b); x.m.replace(i * x.es, x.es, e); op("put %zu", i); ev("put"); }
        else if (c < 6) { size_t nn = 1 + (r.chance(1, 5) ? r.below(600) : r.below(24)); zt_array_resize(x.a, nn); x.m.resize(nn * x.es, 0); op("resize %zu -> %zu", n, nn); ev(n == 0 ? "resize.from_empty" : nn > n ? "resize.grow" : "resize.shrink"); }
        else if (c < 8 && as.size() < 5) { size_t nn = r.below(n * 2 + 2); A y; y.es = x.es; y.a = zt_array_copy(x.a, nn); y.m = x.m.substr(0, std::min(nn, n) * x.es); y.m.resize(nn * x.es, 0); VT_CHECK(nn == 0 || zt_array_data(y.a) != zt_array_data(x.a), "copy-shares", "copy shares storage"); same(y, "copy", r); as.push_back(y); op("copy %zu of %zu", nn, n); ev("copy"); }
        else if (c == 8) { if (as.size() < 5) add(); else { zt_array_free(&as[k].a); VT_CHECK(as[k].a == NULL, "free-ptr", "handle not cleared"); as.erase(as.begin() + k); ev("free"); } }
        else if (n) { // replace the data: the previous storage is the caller's to release
            char *old = zt_array_data(x.a); size_t nn = 1 + r.below(20); x.es = szs[r.below(13)]; std::string d = r.bytes(nn * x.es); int cp = r.below(2); char *b = (char *)malloc(d.size()); memcpy(b, d.data(), d.size()); free(old); zt_array_set_data(x.a, b, nn, x.es, cp); if (cp) { memset(b, 0x55, d.size()); free(b); } x.m = d; op("set_data %zu x %zu copy=%d", nn, x.es, cp); ev("set_data"); }
        else if (r.chance(1, 3)) { }
        for (auto &y : as) same(y, "step", r);
        if (r.chance(1, 10)) { A &y = r.pick(as); size_t len = y.m.size() / y.es; if (len > 1) { size_t sh = 1 + r.below(len - 1); size_t ol = zt_array_set_length(y.a, sh); VT_CHECK(ol == len && zt_array_length(y.a) == sh, "set-length", "set_length returned %zu", ol); size_t o2 = zt_array_set_length(y.a, len); VT_CHECK(o2 == sh, "set-length", "set_length returned %zu", o2); same(y, "set_length", r); ev("set_length"); } }
    }
    for (auto &x : as) { zt_array_free(&x.a); VT_CHECK(x.a == NULL, "free-ptr", "handle not cleared"); }
}
