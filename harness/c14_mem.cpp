#include "ztc.hpp"
#include <sanitizer/asan_interface.h>
#include <algorithm>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
void vt_init() { zt_mem_pool *p = zt_mem_pool_init((char *)"warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&p); }   // the one exit registration happens here
static void *page_of(void *p, size_t *sz) { char nm[64]; void *b = NULL; *sz = 0; __asan_locate_address(p, nm, sizeof nm, &b, sz); return b; }
struct Block { char *p; size_t n; uint64_t pat; int pool; void *page; };
struct Pool { zt_mem_pool *p = NULL; std::string name; ssize_t elts; size_t size; int flags; bool cb = false; int policy = 0; std::map<void *, size_t> live; size_t nlive = 0; bool group = false; zt_mem_pool_stats st; };
static std::vector<Pool> P; static std::vector<Block> B; static zt_mem_pool_group *G;
static struct CB { unsigned calls = 0; size_t total, freep, cache; int flags; void *data; int ret; } cb;
static int cbdata[40]; static Rng *R;
static int release_test(size_t total, size_t freep, size_t cache, int flags, void *d) { cb.calls++; cb.total = total; cb.freep = freep; cb.cache = cache; cb.flags = flags; cb.data = d; cb.ret = R->below(2) ? (R->below(2) ? 7 : -1) : 0; return cb.ret; }
static zt_mem_pool_stats stats(Pool &q) { zt_mem_pool_stats s; memset(&s, 0x5a, sizeof s); VT_CHECK(zt_mem_pool_get_stats(q.p, &s) == 1, "stats", "statistics refused"); return s; }
static char pat(const Block &b, size_t i) { return (char)((b.pat >> (i % 8 * 8)) + i * 7); }
static void fill(Block &b) { for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b, i); }
static void verify(const Block &b) { for (size_t i = 0; i < b.n; i++) VT_CHECK(b.p[i] == pat(b, i), "content", "byte %zu of a live %zu-byte block changed", i, b.n); }
static void invariants(Pool &q) { zt_mem_pool_stats s = q.st = stats(q); size_t used = q.live.size();
    VT_CHECK(s.elt_size == q.size && s.requested_elts == (size_t)q.elts && s.flags == q.flags, "stats-config", "pool %s: element size %zu requested %zu flags %zd", q.name.c_str(), s.elt_size, s.requested_elts, s.flags);
    VT_CHECK(s.elts_per_page >= 1 && s.page_size >= s.elts_per_page * s.elt_size && s.actual_elts >= (size_t)q.elts && s.actual_elts == s.cached_pages * s.elts_per_page, "stats-shape", "pool %s: %zu per page of %zu bytes, actual %zu", q.name.c_str(), s.elts_per_page, s.page_size, s.actual_elts);
    VT_CHECK(s.page_allocs - s.page_frees == s.pages, "stats-balance", "pool %s: %zu pages, %zu allocated, %zu freed", q.name.c_str(), s.pages, s.page_allocs, s.page_frees);
    VT_CHECK(s.pages - s.free_pages == used, "stats-free-pages", "pool %s: %zu of %zu pages free, %zu hold live elements", q.name.c_str(), s.free_pages, s.pages, used);
    for (auto &k : q.live) VT_CHECK(k.second <= s.elts_per_page, "page-capacity", "%zu live elements in a page of %zu", k.second, s.elts_per_page); }
static std::string shown(const std::function<void()> &f) { char *m = NULL; size_t l = 0; FILE *o = stdout; stdout = open_memstream(&m, &l); f(); fclose(stdout); stdout = o; std::string s(m, l); free(m); return s; }
static long free_elts(Pool &q, int fl) { std::string s = shown([&] { zt_mem_pool_display(0, q.p, fl); }); size_t at = s.find("free elts: "); VT_CHECK(at != s.npos, "display", "no element count in the display"); VT_CHECK(s.find("\"" + q.name + "\"") != s.npos, "display", "the display names another pool");
    if (fl & DISPLAY_POOL_FREE_LIST) { size_t n = 0, p = 0; while ((p = s.find("elt: 0x", p)) != s.npos) { n++; p++; } VT_CHECK(n == (size_t)atol(s.c_str() + at + 11), "display-list", "%zu elements on the free list, %ld free", n, atol(s.c_str() + at + 11)); }
    if (fl & DISPLAY_POOL_PAGES) { size_t n = 0, p = 0; while ((p = s.find("page: 0x", p)) != s.npos) { n += !p || s[p - 1] != '_'; p++; } VT_CHECK(n == stats(q).pages, "display-pages", "%zu pages shown of %zu", n, stats(q).pages); }
    ev("display"); return atol(s.c_str() + at + 11); }
static void check_elts(Pool &q, int fl) { long f = free_elts(q, fl); zt_mem_pool_stats s = stats(q); VT_CHECK((size_t)f == s.pages * s.elts_per_page - q.nlive, "free-elts", "pool %s: %ld free, %zu x %zu pages, %zu live", q.name.c_str(), f, s.pages, s.elts_per_page, q.nlive); }
static void add_block(int pi, void *p, size_t need, zt_mem_pool_stats &before) { Pool &q = P[pi]; VT_CHECK(p != NULL, "alloc-null", "no element"); VT_CHECK((uintptr_t)p % (need >= sizeof(void *) ? sizeof(void *) : 1) == 0, "align", "a %zu-byte element at %p", need, p);
    size_t psz; void *pg = page_of(p, &psz); VT_CHECK(pg && (char *)p + q.size <= (char *)pg + psz, "outside", "the element does not lie in allocated memory"); VT_CHECK(!__asan_region_is_poisoned(p, q.size), "outside", "the element is not addressable");
    for (auto &b : B) VT_CHECK((char *)p + q.size <= b.p || b.p + b.n <= (char *)p, "overlap", "a new element overlaps a live one");
    bool full = q.nlive == before.pages * before.elts_per_page; q.live[pg]++; q.nlive++; invariants(q); VT_CHECK(q.st.pages == before.pages + full && q.st.page_allocs == before.page_allocs + full, "page-growth", "pool with %zu of %zu elements live went from %zu to %zu pages", q.nlive - 1, before.pages * before.elts_per_page, before.pages, q.st.pages); if (full) ev("page.new"); else ev("alloc.reuse");
    B.push_back(Block{(char *)p, q.size, R->u64(), pi, pg}); fill(B.back()); ev("alloc"); }
static void release(size_t bi) { Block b = B[bi]; verify(b); B.erase(B.begin() + bi); Pool &q = P[b.pool]; zt_mem_pool_stats before = stats(q); cb.calls = 0; void *d = b.p; zt_mem_pool_release(&d); ev("release"); q.nlive--; bool empt = --q.live[b.page] == 0; if (empt) q.live.erase(b.page); bool gone = false;
    if (q.cb) { VT_CHECK(cb.calls == (empt ? 1u : 0u), "release-test", "release test called %u times, page %s free", cb.calls, empt ? "entirely" : "not"); if (empt) { VT_CHECK(cb.data == &cbdata[b.pool] && cb.flags == q.flags && cb.total == before.pages && cb.freep == before.free_pages + 1 && cb.cache == before.cached_pages, "release-test-args", "release test told total %zu free %zu cache %zu flags %d; pool has %zu, %zu, %zu, %d", cb.total, cb.freep, cb.cache, cb.flags, before.pages, before.free_pages + 1, before.cached_pages, q.flags); gone = cb.ret != 0; ev(gone ? "test.yes" : "test.no"); } }
    else { gone = empt && !(q.flags & POOL_NEVER_FREE); if (empt) ev(gone ? "page.released" : "page.kept"); }
    invariants(q); VT_CHECK(q.st.pages == before.pages - gone && q.st.page_frees == before.page_frees + gone, "page-release", "a page %s: %zu pages became %zu, %zu frees became %zu", gone ? "had to go" : "had to stay", before.pages, q.st.pages, before.page_frees, q.st.page_frees); VT_CHECK(!!__asan_address_is_poisoned(b.page) == gone, "page-release-memory", "page memory %s", gone ? "not returned" : "returned"); }
static ssize_t gen_elts(Rng &r) { return r.chance(1, 4) ? 0 : r.chance(1, 6) ? (ssize_t)r.below(600) : (ssize_t)r.below(8); }
static size_t gen_size(Rng &r) { switch (r.below(7)) { case 0: return 1 + r.below(16); case 1: return 8 * (1 + r.below(20)); case 2: return 2020 + r.below(30); case 3: return 1 + r.below(6000); case 4: return 4000 + r.below(200); default: return 1 + r.below(300); } }
static void new_pool(Rng &r) { Pool q; q.name = "pool" + std::to_string(P.size()); q.elts = gen_elts(r); q.size = gen_size(r); if (q.size > 2000 && q.elts > 20) q.elts = 20; q.flags = r.chance(1, 3) ? POOL_NEVER_FREE : r.chance(1, 8) ? 2 : 0; q.cb = r.chance(1, 3); char *nm = strdup(q.name.c_str()); q.p = zt_mem_pool_init(nm, q.elts, q.size, q.cb ? release_test : NULL, &cbdata[P.size()], q.flags); memset(nm, 'x', strlen(nm)); free(nm); VT_CHECK(q.p, "init", "no pool"); P.push_back(q); invariants(P.back()); zt_mem_pool_stats &s = P.back().st; VT_CHECK(s.pages >= 1 && s.free_pages == s.pages && s.page_frees == 0, "init-stats", "new pool: %zu pages %zu free", s.pages, s.free_pages); ev("pool.new"); op("pool %s elts %zd size %zu flags %d cb %d", q.name.c_str(), q.elts, q.size, q.flags, q.cb); mix(q.size * 131 + q.elts * 7 + q.flags * 3 + q.cb); }
static bool destroy(size_t pi) { Pool &q = P[pi]; zt_mem_pool *was = q.p; std::string nm = q.name; int rc = zt_mem_pool_destroy(&q.p); if (q.nlive) { VT_CHECK(rc == -1 && q.p == was, "destroy-live", "a pool with %zu live elements was destroyed (%d)", q.nlive, rc); invariants(q); ev("destroy.refused"); return false; }
    VT_CHECK(rc == 0 && q.p == NULL, "destroy", "destroying an idle pool returned %d", rc); VT_CHECK(__asan_address_is_poisoned(was), "destroy-memory", "the pool itself was not returned"); VT_CHECK(zt_mem_pool_get((char *)nm.c_str()) == NULL, "destroy-registered", "a destroyed pool is still found by name"); ev("destroy"); return true; }
static std::vector<int> gpools; static void group_new(Rng &r) {
    size_t n = 1 + r.below(6); std::vector<zt_mem_pool_desc> d(n + 1); std::vector<std::string> names(n); gpools.clear(); std::set<size_t> sizes; bool sorted = r.chance(1, 2); std::vector<size_t> sz; for (size_t i = 0; i < n; i++) { size_t s = gen_size(r); while (sizes.count(s)) s++; sizes.insert(s); sz.push_back(s); } if (sorted) std::sort(sz.begin(), sz.end()); else ev("group.unsorted");
    for (size_t i = 0; i < n; i++) { Pool q; q.name = names[i] = "grp" + std::to_string(P.size()); q.elts = r.below(6); q.size = sz[i]; q.flags = r.below(2); q.cb = r.chance(1, 3); q.group = true; d[i].name = (char *)names[i].c_str(); d[i].elts = q.elts; d[i].size = q.size; d[i].release_test = q.cb ? release_test : NULL; d[i].cb_data = &cbdata[P.size()]; d[i].flags = q.flags; gpools.push_back(P.size()); P.push_back(q); mix(q.size); }
    memset(&d[n], 0, sizeof d[n]); bool term = r.chance(1, 2); if (term) ev("group.terminated"); G = zt_mem_pool_group_init(d.data(), n + term); VT_CHECK(G, "group", "no group"); for (int i : gpools) { P[i].p = zt_mem_pool_get((char *)P[i].name.c_str()); VT_CHECK(P[i].p, "group-pool", "pool %s of the group not found", P[i].name.c_str()); invariants(P[i]); } ev("group.new"); op("group of %zu%s%s", n, term ? " terminated" : "", sorted ? " sorted" : ""); }
void vt_case(Rng &r, uint64_t) {
    R = &r; P.clear(); B.clear(); P.reserve(40); G = NULL; unsigned npools = 1 + r.below(3); for (unsigned i = 0; i < npools; i++) new_pool(r); if (r.chance(1, 2)) group_new(r);
    zt_mem_heap *H = NULL; Block hb; std::string hn; if (r.chance(1, 3)) { hn = r.str(r.below(10), "abcdef"); hb.n = r.size(5000); hb.pat = r.u64(); H = zt_mem_heap_init(r.chance(1, 4) ? (hn = "*unknown*", (char *)NULL) : (char *)hn.c_str(), hb.n); VT_CHECK(H, "heap", "no heap"); hb.p = (char *)zt_mem_heap_get_data(H); size_t ps; char *pg = (char *)page_of(hb.p, &ps); VT_CHECK(pg && hb.p + hb.n <= pg + ps && (uintptr_t)hb.p % 8 == 0, "heap-space", "heap of %zu bytes lies outside its memory", hb.n); fill(hb); VT_CHECK(hn == zt_mem_heap_get_name(H) && !zt_mem_heap_get_name(NULL), "heap-name", "heap named %s", zt_mem_heap_get_name(H)); ev("heap"); }
    unsigned steps = 5 + r.below(80); bool drain = false;
    for (unsigned s = 0; s < steps; s++) {
        if (r.chance(1, 12)) drain = !drain;
        unsigned k = r.below(20); if (drain && k < 9 && r.chance(3, 4)) k = 12;
        if (k < 9) { unsigned n = r.chance(1, 8) ? r.below(120) : 1; size_t pi = r.below(P.size()); if (!P[pi].p) continue; if (P[pi].group && r.chance(1, 2)) { }
            if (P[pi].group) { size_t mx = 0; for (int i : gpools) mx = std::max(mx, P[i].size); size_t want = r.chance(1, 3) ? P[r.pick(gpools)].size + r.below(2) : r.chance(1, 8) ? 0 : 1 + r.below(mx); if (want > mx) want = mx; int best = -1; for (int i : gpools) if (P[i].size >= want && (best < 0 || P[i].size < P[best].size)) best = i; long fb = free_elts(P[best], 0); auto before = stats(P[best]); void *p = zt_mem_pool_group_alloc(G, want); auto af = stats(P[best]); long exp = fb - 1 + (long)((af.pages - before.pages) * af.elts_per_page), fa = free_elts(P[best], 0); VT_CHECK(fa == exp, "group-choice", "a request of %zu bytes was not served from the smallest fitting pool (%zu)", want, P[best].size); op("group alloc %zu", want); add_block(best, p, want, before); check_elts(P[best], 0); ev("group.alloc"); continue; }
            op("alloc x%u pool %zu", n, pi); mix(n * 16 + pi); while (n-- && B.size() < 400) { auto before = stats(P[pi]); void *p = zt_mem_pool_alloc(P[pi].p); add_block(pi, p, P[pi].size, before); } }
        else if (k < 16) { unsigned n = r.chance(1, 4) ? r.below(100) : 1; op("release x%u", n); mix(n * 16 + 9); while (n-- && !B.empty()) { bool newest = r.chance(1, 3); release(newest ? B.size() - 1 : r.below(B.size())); } }
        else if (k == 16) { size_t pi = r.below(P.size()); if (!P[pi].p) continue; op("release free pages %zu", pi); mix(pi + 77); auto b = stats(P[pi]); zt_mem_pool_release_free_pages(P[pi].p); invariants(P[pi]); VT_CHECK(P[pi].st.free_pages == 0 && P[pi].st.page_frees == b.page_frees + b.free_pages, "release-free", "%zu free pages left", P[pi].st.free_pages); ev("release_free_pages"); }
        else if (k == 17) { size_t pi = r.below(P.size()); if (!P[pi].p) continue; check_elts(P[pi], r.below(4)); }
        else if (k == 18) { for (auto &b : B) verify(b); if (H) verify(hb); for (auto &q : P) if (q.p) { VT_CHECK(zt_mem_pool_get((char *)q.name.c_str()) == q.p, "get", "pool %s not found by its name", q.name.c_str()); } VT_CHECK(!zt_mem_pool_get((char *)"poo") && !zt_mem_pool_get((char *)"pool") && !zt_mem_pool_get((char *)"") && !zt_mem_pool_get(NULL), "get-absent", "a pool nobody created was found"); ev("get"); }
        else if (r.chance(1, 3)) { size_t pi = r.below(P.size()); if (!P[pi].p || P[pi].group) continue; op("destroy %zu", pi); mix(pi + 99); destroy(pi); if (P.size() < 12 && r.chance(1, 2)) new_pool(r); }
    }
    if (r.chance(1, 3)) { size_t n = 0; for (auto &q : P) n += q.p != NULL; std::string s = shown([&] { if (G && r.chance(1, 2)) { n = gpools.size(); zt_mem_pool_group_display(1, G, 0); } else zt_mem_pools_display(0, r.below(4)); }); size_t c = 0, at = 0; while ((at = s.find("pool: \"", at)) != s.npos) { c++; at++; } VT_CHECK(c == n, "display-all", "%zu pools shown of %zu", c, n); }
    nontrivial(B.size() + steps > 8); for (auto &b : B) verify(b);
    if (G && r.chance(1, 2)) { bool any = false; for (int i : gpools) any |= P[i].nlive > 0; int rc = zt_mem_pool_group_destroy(G); G = NULL; VT_CHECK(rc == (any ? -1 : 0), "group-destroy", "destroying a group with%s live elements returned %d", any ? "" : "out", rc); for (int i : gpools) { if (P[i].nlive) invariants(P[i]); else { VT_CHECK(!zt_mem_pool_get((char *)P[i].name.c_str()), "group-destroy-pool", "an idle pool of a destroyed group remains"); P[i].p = NULL; } } ev(any ? "group.destroy.live" : "group.destroy"); }
    while (!B.empty()) release(r.below(B.size()));
    if (G) { VT_CHECK(zt_mem_pool_group_destroy(G) == 0, "group-destroy", "destroying an idle group failed"); for (int i : gpools) P[i].p = NULL; ev("group.destroy"); }
    for (size_t i = 0; i < P.size(); i++) if (P[i].p) VT_CHECK(destroy(i), "destroy", "refused");
    if (H) { verify(hb); zt_mem_heap_destroy(&H); VT_CHECK(!H, "heap-destroy", "the heap pointer was not cleared"); zt_mem_heap_destroy(NULL); }
    P = std::vector<Pool>(); B = std::vector<Block>(); gpools = std::vector<int>();
}
