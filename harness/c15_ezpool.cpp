#include "ztc.hpp"
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
void vt_init() {}
struct Buf { char *p; size_t n; uint64_t pat; int dealloc; int pool; bool text; };   // dealloc 0: pool's own, 1/2: counting callbacks, 3: free()
struct Node { zt_ez_mempool *p; int parent; bool dead; };
static std::map<void *, int> freed[3]; static bool destroying; static unsigned nfreed, unknown;
static std::map<void *, int> *expected;   // data -> callback number
static void cb(int no, void *d) { if (!destroying) unknown++; auto it = expected->find(d); if (it == expected->end() || it->second != no) unknown++; freed[no][d]++; nfreed++; free(d); }
static void cb1(void *d) { cb(1, d); }
static void cb2(void *d) { cb(2, d); }
static char pat(const Buf &b, size_t i) { return b.text ? (char)('a' + (b.pat + i) % 26) : (char)((b.pat >> (i % 8 * 8)) + i); }
static void verify(const Buf &b) { for (size_t i = 0; i < b.n; i++) VT_CHECK(b.p[i] == (b.text && i + 1 == b.n ? 0 : pat(b, i)), "content", "byte %zu of a %zu-byte buffer changed", i, b.n); }
void vt_case(Rng &r, uint64_t) {
    std::vector<Node> N; std::vector<Buf> B; std::map<void *, int> exp; expected = &exp; destroying = false; nfreed = unknown = 0; for (auto &f : freed) f.clear();
    auto below = [&](int x, int root) { for (; x >= 0; x = N[x].parent) if (x == root) return true; return false; };
    auto destroy = [&](int x) { long before = live(); (void)before; size_t want = 0; std::vector<Buf> keep, gone; for (auto &b : B) (below(b.pool, x) ? gone : keep).push_back(b); for (auto &b : B) verify(b); for (auto &b : gone) want += b.dealloc == 1 || b.dealloc == 2; nfreed = 0; destroying = true; zt_ez_mempool_destroy(N[x].p); destroying = false;
        VT_CHECK(nfreed == want && !unknown, "dealloc-count", "%u buffers went through their deallocators, %zu expected (%u unexpected)", nfreed, want, unknown);
        for (auto &b : gone) if (b.dealloc == 1 || b.dealloc == 2) { VT_CHECK(freed[b.dealloc][b.p] == 1, "dealloc", "a buffer was released %d times through its deallocator", freed[b.dealloc][b.p]); freed[b.dealloc].erase(b.p); exp.erase(b.p); }
        unsigned k = 0; for (size_t i = 0; i < N.size(); i++) if (below(i, x) && !N[i].dead) { N[i].dead = true; k++; } B = keep; for (auto &b : B) verify(b); ev(k > 1 ? "destroy.tree" : "destroy.leaf"); if (N[x].parent >= 0) ev("destroy.subpool"); return k; };
    unsigned steps = 2 + r.below(50);
    for (unsigned s = 0; s < steps; s++) {
        std::vector<int> al; for (size_t i = 0; i < N.size(); i++) if (!N[i].dead) al.push_back(i);
        unsigned k = r.below(12); if (al.empty()) k = 0;
        if (k < 4) { int par = al.empty() || r.chance(1, 5) ? -1 : al[r.below(al.size())]; zt_ez_mempool *p = zt_ez_mempool_init(par < 0 ? NULL : N[par].p); VT_CHECK(p, "init", "no pool"); N.push_back(Node{p, par, false}); ev(par < 0 ? "root" : "subpool"); op("pool %zu under %d", N.size() - 1, par); mix(par + 5); continue; }
        int x = al[r.below(al.size())]; Buf b; b.pool = x; b.pat = r.u64(); b.text = false; b.dealloc = r.below(3);
        if (k < 7) { b.n = r.size(300); b.p = (char *)zt_ez_mempool_alloc(N[x].p, b.n, b.dealloc == 0 ? NULL : b.dealloc == 1 ? cb1 : cb2); VT_CHECK(b.p, "alloc", "no buffer of %zu bytes", b.n); VT_CHECK((uintptr_t)b.p % 8 == 0, "align", "misaligned buffer"); for (size_t i = 0; i < b.n; i++) VT_CHECK(b.p[i] == 0, "zero", "a fresh buffer is not zero filled"); for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b, i); ev("alloc"); op("alloc %zu in %d dealloc %d", b.n, x, b.dealloc); }
        else if (k < 9) { b.n = r.size(300); b.p = (char *)malloc(b.n ? b.n : 1); for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b, i); b.dealloc = r.below(4); int rc = zt_ez_mempool_add_buffer(N[x].p, b.p, b.n, b.dealloc == 0 ? NULL : b.dealloc == 1 ? cb1 : b.dealloc == 2 ? cb2 : free); VT_CHECK(rc == (b.n ? 0 : -1), "add", "adding %zu bytes returned %d", b.n, rc); if (rc) { free(b.p); ev("add.refused"); continue; } VT_CHECK(zt_ez_mempool_add_buffer(N[x].p, NULL, 5, NULL) == -1, "add-null", "a null buffer was accepted"); ev("add"); op("add %zu to %d dealloc %d", b.n, x, b.dealloc); }
        else if (k < 10) { size_t l = r.size(60); b.text = true; b.n = l + 1; b.dealloc = 0; std::string t(l, 0); for (size_t i = 0; i < l; i++) t[i] = pat(b, i); char *src = strdup(t.c_str()); b.p = zt_ez_mempool_strdup(N[x].p, src); VT_CHECK(b.p && b.p != src, "strdup", "no copy"); memset(src, '!', l); free(src); verify(b); ev(l ? "strdup" : "strdup.empty"); op("strdup %zu in %d", l, x); }
        else { op("destroy %d", x); destroy(x); mix(x + 1000); continue; }
        mix(b.n * 64 + x * 4 + b.dealloc); if (b.dealloc == 1 || b.dealloc == 2) exp[b.p] = b.dealloc; B.push_back(b);
    }
    nontrivial(N.size() > 1);
    for (;;) { std::vector<int> al; for (size_t i = 0; i < N.size(); i++) if (!N[i].dead && (N[i].parent < 0 || r.chance(1, 4))) al.push_back(i); bool any = false; for (auto &n : N) any |= !n.dead; if (!any) break; if (al.empty()) continue; destroy(al[r.below(al.size())]); }
    VT_CHECK(B.empty(), "model", "harness: buffers left");
}
