#include "ztc.hpp"
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
struct B { zt_buf_t *b; std::string m; bool drained; };
static void same(B &x, const char *w, bool full) {
    VT_CHECK(zt_buf_length(x.b) == x.m.size(), "length", "after %s: length %zu, expected %zu", w, zt_buf_length(x.b), x.m.size());
    void *p = zt_buf_get(x.b);
    if (x.m.empty()) { VT_CHECK(p == NULL, "get-empty", "after %s: an empty buffer yields %p", w, p); return; }
    VT_CHECK(p != NULL, "get", "after %s: no data although %zu bytes are held", w, x.m.size());
    if (full) VT_CHECK(memcmp(p, x.m.data(), x.m.size()) == 0, "content", "after %s: content %s expected %s", w, esc(p, x.m.size()).c_str(), esc(x.m).c_str());
    ev("compares");
}
// the reported free space must really exist: filling exactly that much is legal, changes nothing else and stays inside the allocation
static void fill_unused(Rng &r, B &x) { size_t u = zt_buf_unused_sz(x.b); VT_CHECK(u < (1u << 24), "unused", "free space of %zu reported for %zu bytes", u, x.m.size()); if (u > 20000) return;
    std::string d = r.bytes(u); VT_CHECK(zt_buf_add(x.b, &d[0], u) == 0, "add-rc", "add within the free space failed"); x.m += d; VT_CHECK(zt_buf_unused_sz(x.b) == 0, "unused-after", "free space %zu after filling it", zt_buf_unused_sz(x.b)); ev("fill.unused"); }
void vt_case(Rng &r, uint64_t) {
    size_t n = 1 + r.below(3); std::vector<B> bs(n); for (auto &x : bs) { x.b = zt_buf_new(); x.drained = false; VT_CHECK(x.b != NULL, "new", "no buffer"); same(x, "new", true); VT_CHECK(zt_buf_unused_sz(x.b) == 0, "new-unused", "a new buffer claims free space"); }
    size_t nops = 1 + r.below(r.chance(1, 8) ? 200 : 40); bool big = r.chance(1, 10); size_t lim = big ? 40000 : 1500; op("buffers=%zu lim=%zu", n, lim);
    for (size_t o = 0; o < nops; o++) {
        B &x = r.pick(bs); int c = r.below(100); const char *w = "?"; 
        if (x.m.size() > 300000) { c = 60; }
        if (c < 30) { std::string d = r.bytes(r.size(lim)); std::string k = d; size_t u = zt_buf_unused_sz(x.b); w = "add"; op("add %zu (unused %zu)", d.size(), u); int rc = zt_buf_add(x.b, d.empty() ? (r.chance(1, 2) ? NULL : (void *)"") : &d[0], d.size());
            VT_CHECK(rc == 0, "add-rc", "add of %zu returned %d", d.size(), rc); VT_CHECK(d == k, "add-source", "add changed its source"); x.m += d; if (d.size() > u) ev(x.drained ? "grow.drained" : "grow"); else { ev("add.fits"); VT_CHECK(zt_buf_unused_sz(x.b) == u - d.size(), "unused", "free space %zu after adding %zu with %zu free", zt_buf_unused_sz(x.b), d.size(), u); } mix(d); }
        else if (c < 42) { size_t k = r.chance(1, 6) ? x.m.size() : r.chance(1, 12) ? x.m.size() + r.below(9) : r.chance(1, 20) ? (size_t)-1 : r.below(x.m.size() + 1); size_t before = x.m.size(); w = "drain"; op("drain %zu of %zu", k, before); size_t rc = zt_buf_drain(x.b, k);
            x.m.erase(0, std::min(k, x.m.size())); if (k) { VT_CHECK(rc == x.m.size(), "drain-rc", "draining %zu of %zu returned %zu, %zu remain", k, before, rc, x.m.size()); if (!x.m.empty()) x.drained = true; } ev(k == 0 ? "drain.zero" : k >= before ? "drain.all" : "drain.part");
            mix(k); }
        else if (c < 56) { size_t k = r.chance(1, 5) ? x.m.size() + r.below(20) : r.below(x.m.size() + 1); std::string out(k, '\x5a'); char dummy[4] = {1, 2, 3, 4}; w = "remove"; size_t want = std::min(k, x.m.size()); op("remove %zu of %zu", k, x.m.size()); char *exact = (char *)malloc(k ? k : 1); memset(exact, 0x5a, k ? k : 1);
            size_t rc = zt_buf_remove(x.b, k ? (void *)exact : (void *)dummy, k); VT_CHECK(rc == want, "remove-rc", "removing %zu of %zu returned %zu", k, x.m.size(), rc); VT_CHECK(memcmp(exact, x.m.data(), want) == 0, "remove-data", "removed bytes differ"); for (size_t i = want; i < k; i++) VT_CHECK(exact[i] == 0x5a, "remove-over", "wrote byte %zu beyond the %zu removed", i, want);
            free(exact); x.m.erase(0, want); if (!x.m.empty() && want) x.drained = true; ev(k > want ? "remove.over" : "remove"); mix(k); }
        else if (c < 64) { int rc; size_t k = r.size(lim); w = "reserve"; rc = zt_buf_reserve(x.b, k); op("reserve %zu = %d", k, rc); VT_CHECK(rc == 0 && zt_buf_unused_sz(x.b) >= k, "reserve", "reserve %zu returned %d with %zu free", k, rc, zt_buf_unused_sz(x.b)); ev("reserve"); mix(k); }
        else if (c < 70) { size_t k = r.size(lim); w = "expand"; int rc = zt_buf_expand(x.b, k); op("expand %zu = %d", k, rc); VT_CHECK(rc == 0 && zt_buf_unused_sz(x.b) >= k, "expand", "expand %zu returned %d with %zu free", k, rc, zt_buf_unused_sz(x.b)); ev("expand"); mix(k); }
        else if (c < 74) { if (!r.chance(1, 8)) continue; static const size_t huge[] = {(size_t)-1, (size_t)-1 - 5, (size_t)-1 / 2, (size_t)1 << 60}; size_t k = huge[r.below(4)]; size_t u = zt_buf_unused_sz(x.b); w = "impossible reserve"; int rc = r.chance(1, 2) ? zt_buf_reserve(x.b, k) : zt_buf_expand(x.b, k); op("reserve %zu = %d", k, rc); VT_CHECK(rc == -1, "huge", "reserving %zu bytes returned %d", k, rc); (void)u; ev("grow.impossible"); }
        else if (c < 82) { size_t nv = r.below(5); std::vector<std::string> d(nv + 1); std::vector<zt_iov_t> v(nv + 1); std::string all; for (size_t i = 0; i < nv; i++) { d[i] = r.bytes(r.size(lim / 2)); v[i].iov_len = d[i].size(); v[i].iov_data = (void *)d[i].data(); all += d[i]; }
            VT_CHECK(zt_buf_iov_len(v.data(), nv) == all.size(), "iov-len", "vector length %zu, expected %zu", zt_buf_iov_len(v.data(), nv), all.size()); w = "iov_add"; op("iov %zu parts %zu bytes", nv, all.size()); int rc = zt_buf_iov_add(x.b, v.data(), nv); VT_CHECK(rc == 0, "iov-rc", "iov_add returned %d", rc); x.m += all; ev("iov_add"); mix(all); }
        else if (c < 90) { B &y = r.pick(bs); if (&y == &x) continue; w = "add_buf"; op("add_buf %zu += %zu", x.m.size(), y.m.size()); int rc = zt_buf_add_buf(x.b, y.b); VT_CHECK(rc == 0, "addbuf-rc", "add_buf returned %d", rc); x.m += y.m; y.m.clear(); same(y, "add_buf (source)", true); ev("add_buf"); mix(77); }
        else if (c < 95) { w = "fill"; fill_unused(r, x); op("fill"); }
        else if (c < 97) { w = "renew"; zt_buf_free(x.b); x.b = zt_buf_new(); x.m.clear(); x.drained = false; op("renew"); ev("free"); }
        else if (!x.m.empty()) { w = "in-place write"; size_t i = r.below(x.m.size()); ((char *)zt_buf_get(x.b))[i] ^= 0x41; x.m[i] ^= 0x41; op("poke %zu", i); ev("poke"); }   // the returned pointer addresses all the held bytes
        same(x, w, x.m.size() < 5000 || r.chance(1, 4) || o + 1 == nops);
    }
    nontrivial(nops > 2);
    for (auto &x : bs) { same(x, "end", true); zt_buf_free(x.b); } zt_buf_free(NULL); ev("free");
}
