// C34: element counts and sizes that cannot be represented or provided are refused, never truncated.
// Every request runs in a child whose allocator refuses more than 256 MB; what is handed out is used up to its ends.
#include "ztc.hpp"
#include <sys/wait.h>
#include <errno.h>
extern "C" {
#include <libzt/zt_ipv4_tbl.h>
}
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
static const size_t LIMIT = 256u << 20;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static size_t g_given; static bool g_capped;
static bool give(size_t n) { if (!g_capped) return true; if (n > LIMIT || g_given + n > LIMIT) { errno = ENOMEM; return false; } g_given += n; return true; }
void *__wrap_malloc(size_t n) { return give(n) ? __real_malloc(n) : NULL; }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > LIMIT / b) { errno = ENOMEM; return NULL; } return give(a * b) ? __real_calloc(a, b) : NULL; }
void *__wrap_realloc(void *p, size_t n) { return give(n) ? __real_realloc(p, n) : NULL; }
}
typedef unsigned __int128 u128;
static u128 product(size_t a, size_t b) { return (u128)a * b; }
static const char *show(u128 v) { static char b[8][64]; static int k; char *s = b[k++ & 7]; snprintf(s, 64, v >> 64 ? "2^64*%llu+%llu" : "%.0llu%llu", (unsigned long long)(v >> 64), (unsigned long long)v); return s; }
// a pair whose product is: small; too large to provide; or too large to represent, with a small remainder
static void pair(Rng &r, size_t &n, size_t &sz, size_t maxsz) {
    static const size_t S[] = {1, 2, 3, 4, 7, 8, 12, 16, 24, 31, 32, 48, 64, 100, 255, 256, 1000, 1024, 4096, 65536}; do sz = S[r.below(20)]; while (sz > maxsz);
    switch (r.below(5)) { case 0: n = 1 + r.below(300); break; case 1: n = (size_t)-1 - r.below(40); break; case 2: n = ((size_t)1 << (31 + r.below(33))) + r.below(5) - 2; break;
        default: { u128 k = 1 + r.below(sz > 1 ? (sz < 200 ? sz - 1 : 200) : 1); u128 v = (k << 64) / sz + r.below(6); n = (size_t)v; } }
    if (r.chance(1, 6)) std::swap(n, sz); if (!n) n = 1; if (!sz) sz = 1; if (sz > maxsz) sz = maxsz; }
static bool provided(u128 bytes) { return bytes <= LIMIT; }
// near the limit the overheads decide
static bool unclear(u128 bytes) { return bytes > LIMIT / 16 && bytes <= LIMIT; }
// the outcome of a request: it was served (then it was checked in the child), refused, or stopped by an assertion
static void settle(const char *what, u128 bytes, const std::function<int()> &f) {
    std::string err; Quiet q; int st = run_forked([&] { g_capped = true; _exit(f()); }, &err, nullptr, 60); std::string w = std::string(what) + " of " + show(bytes) + " bytes"; size_t at; std::string where; for (size_t x = 0, k = 0; k < 2 && (x = err.find("/src/libzt/", x)) != std::string::npos; x++, k++) where += err.substr(x + 11, err.find_first_of(" \n", x) - x - 11) + " ";
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { VT_CHECK(err.find("ssert") != std::string::npos, "silent", "%s: the process is stopped without a report: %s", w.c_str(), err.substr(0, 300).c_str()); VT_CHECK(!provided(bytes) || unclear(bytes), "refused", "%s: stopped although the memory is there: %s", w.c_str(), err.substr(0, 300).c_str()); ev("stopped"); return; }
    if (st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 41) harness_error("%s: %s", what, err.c_str());
    if (st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 40 && (at = err.find("VT-VIOLATION")) != std::string::npos) fail(what, "%s: %s", w.c_str(), err.substr(at, err.find('\n', at) - at).c_str());
    VT_CHECK(st != -1 && WIFEXITED(st) && WEXITSTATUS(st) <= 1, what, "%s: the process ends with %#x at %s: %s", w.c_str(), st, where.c_str(), err.substr(err.size() > 300 ? err.size() - 300 : 0).c_str());
    if (WEXITSTATUS(st) == 1) { VT_CHECK(!provided(bytes) || unclear(bytes), "refused", "%s is refused although the memory is there", w.c_str()); ev("refused"); } else { VT_CHECK(provided(bytes), "served", "%s is said to be served", w.c_str()); ev("served"); } }
static void fill(void *p, size_t n) { memset(p, 0x5a, n); }
static void arrays(Rng &r) {
    size_t n, sz; pair(r, n, sz, 65536); int how = (int)r.below(4); static const char *W[] = {"array-new", "array-copy", "array-resize", "array-with"}; if (how == 3) { sz = 1 + r.below(64); n = 1 + r.below(200); } op("%s: %zu elements of %zu bytes", W[how], n, sz); size_t first = r.below(3) ? 1 + r.below(5) : 0;
    settle(W[how], product(n, sz), [&]() -> int { zt_array_t a; std::vector<char> e(sz, 'e'), g(sz); if (how == 3) { std::vector<char> src(n * sz, 's'); a = zt_array_with(src.data(), n, sz, 1); } else if (how == 0) a = zt_array_new(n, sz); else { a = zt_array_new(first, sz); for (size_t i = 0; i < first; i++) zt_array_put(a, i, e.data()); if (how == 1) { zt_array_t b = a; a = zt_array_copy(b, n); zt_array_free(&b); } else zt_array_resize(a, n); }
        VT_CHECK(zt_array_length(a) == n && zt_array_size(a) == sz, "shape", "it has %zu elements of %zu bytes", zt_array_length(a), zt_array_size(a)); size_t at[] = {0, 1, 2, 3, n / 2, n - 1}; for (size_t i : at) if (i < n) { zt_array_put(a, i, e.data()); zt_array_elem_copy(a, i, g.data()); VT_CHECK(g == e, "element", "element %zu differs", i); } zt_array_free(&a); return 0; }); ev("array"); }
static void repeated(Rng &r) {
    size_t n, len; pair(r, n, len, 4096); if (n > (size_t)SSIZE_MAX) n = (size_t)SSIZE_MAX - r.below(9); std::string s = r.str(len, "abc"); op("%zu copies of %zu characters", n, len);
    settle("repeat", product(n, len) + 1, [&]() -> int { char *p = zt_cstr_dup(s.c_str(), 0, -1, (ssize_t)n); if (!p) return 1; size_t l = strlen(p); VT_CHECK(l == n * len, "length", "%zu characters", l); free(p); return 0; }); ev("repeat"); }
static void heaps(Rng &r) { size_t n = r.below(3) ? (size_t)-1 - r.below(200) : r.chance(1, 2) ? 1 + r.below(5000) : (size_t)1 << (32 + r.below(32)); char name[] = "heap"; op("heap of %zu bytes", n);
    settle("heap", (u128)n + 64, [&]() -> int { zt_mem_heap *h = zt_mem_heap_init(name, n); if (!h) return 1; fill(zt_mem_heap_get_data(h), n); zt_mem_heap_destroy(&h); return 0; }); ev("heap"); }
static void pools(Rng &r) { size_t n, sz; if (r.chance(1, 2)) { pair(r, n, sz, (size_t)-1); } else { n = 1 + r.below(40); sz = r.chance(1, 2) ? (size_t)-1 - r.below(300) : ((size_t)1 << (40 + r.below(24))) / n; if (r.chance(1, 3)) sz = (size_t)((((u128)1 << 64) + r.below(5000)) / n) + 1; } if (n > (size_t)SSIZE_MAX) n = (size_t)SSIZE_MAX; bool group = r.chance(1, 3); op("pool of %zu elements of %zu bytes", n, sz); char name[] = "pool";
    u128 bytes = product(n, sz) + (u128)n * 16; if (bytes > LIMIT / 4 && bytes < LIMIT * 2) return;   // the overhead decides
    settle(group ? "pool-group" : "pool", bytes, [&]() -> int { zt_mem_pool *p = NULL; zt_mem_pool_group *g = NULL; if (group) { zt_mem_pool_desc d[2]; memset(d, 0, sizeof d); d[0].name = name; d[0].elts = n; d[0].size = sz; g = zt_mem_pool_group_init(d, 1); if (!g) return 1; } else { p = zt_mem_pool_init(name, (ssize_t)n, sz, NULL, NULL, 0); if (!p) return 1; }
        std::vector<void *> v; size_t k = n < 6 ? n : 6; for (size_t i = 0; i < k; i++) { void *x = group ? zt_mem_pool_group_alloc(g, sz) : zt_mem_pool_alloc(p); VT_CHECK(x, "alloc", "element %zu cannot be had", i); fill(x, sz); v.push_back(x); } for (void *x : v) zt_mem_pool_release(&x); if (group) zt_mem_pool_group_destroy(g); else zt_mem_pool_destroy(&p); return 0; }); ev("pool"); }
static void chunks(Rng &r) { size_t n = r.below(3) ? (size_t)-1 - r.below(100) : r.chance(1, 2) ? 1 + r.below(5000) : (size_t)1 << (32 + r.below(32)); op("chunk of %zu bytes", n); settle("chunk", n, [&]() -> int { zt_ez_mempool *p = zt_ez_mempool_init(NULL); void *x = zt_ez_mempool_alloc(p, n, NULL); if (!x) return 1; fill(x, n); zt_ez_mempool_destroy(p); return 0; }); ev("chunk"); }
static void tables(Rng &r) { bool use = r.chance(1, 2); size_t hint; switch (r.below(4)) { case 0: hint = r.below(3000); break; case 1: hint = (size_t)-1 - r.below(9); break; case 2: hint = (size_t)(((u128)(1 + r.below(7)) << 64) / 8) + r.below(70); break; default: hint = ((size_t)1 << (27 + r.below(37))) + r.below(3); } char name[] = "table"; op("table for %zu entries%s", hint, use ? " exactly" : "");
    u128 bytes = (u128)hint * 8; bool may = hint < 100000;
    if (may) bytes = 1; settle("table", bytes <= LIMIT ? (may ? 1 : (u128)LIMIT + 1) : bytes, [&]() -> int { zt_table *t = zt_table_init(name, zt_table_hash_int, zt_table_compare_int, hint, use ? ZT_TABLE_SIZE_USE_HINT : 0, NULL); if (!t) return 1; static int d[300]; for (int i = 0; i < 300; i++) { d[i] = i * 7919; VT_CHECK(zt_table_set(t, &d[i], sizeof(int), &d[i], sizeof(int)) == 0, "set", "entry %d is refused", i); } for (int i = 0; i < 300; i++) VT_CHECK(zt_table_get(t, &d[i], sizeof(int)) == &d[i], "get", "entry %d is lost", i); zt_table_destroy(t); return 0; }); ev("table"); }
static void buffers(Rng &r) { size_t n = r.below(3) ? (size_t)-1 - r.below(5000) : r.chance(1, 2) ? r.below(5000) : (size_t)1 << (32 + r.below(32)), have = r.below(3000); bool res = r.chance(1, 2); op("buffer of %zu %s by %zu", have, res ? "with room reserved" : "extended", n); settle("buffer", (u128)have + n, [&]() -> int { zt_buf_t *b = zt_buf_new(); std::string s(have, 'x'); zt_buf_add(b, s.data(), have); if ((res ? zt_buf_reserve(b, n) : zt_buf_expand(b, n)) < 0) { VT_CHECK(zt_buf_length(b) == have && (!have || !memcmp(zt_buf_get(b), s.data(), have)), "content", "the content is damaged"); zt_buf_add(b, "y", 1); zt_buf_free(b); return 1; } VT_CHECK(zt_buf_unused_sz(b) >= n, "room", "there is room for %zu bytes", (size_t)zt_buf_unused_sz(b)); std::string t(n, 'z'); zt_buf_add(b, t.data(), n); VT_CHECK(zt_buf_length(b) == have + n, "length", "%zu bytes", (size_t)zt_buf_length(b)); zt_buf_free(b); return 0; }); ev("buffer"); }
static void streams(Rng &r) { size_t off = r.chance(1, 2) ? (size_t)-1 - r.below(40) : r.chance(1, 2) ? r.below(4000) : (size_t)1 << (32 + r.below(32)), n = 1 + r.below(60); op("write of %zu at %zu", n, off); settle("stream", (u128)off + n, [&]() -> int { zt_bstream_t bs = zt_bstream_new(); zt_array_t a = zt_array_new(8, 1); zt_bstream_set_array(bs, a, off); std::string s(n, 'w'), g(n, 0); if (zt_bstream_write(bs, &s[0], n, 1, 0) != 0) return 1; VT_CHECK(bs->offt == off + n, "offset", "the stream is at %zu", bs->offt); bs->offt = off; zt_bstream_read(bs, &g[0], n, 1, 0); VT_CHECK(g == s, "content", "other bytes are read back"); zt_bstream_free(&bs); return 0; }); ev("stream"); }
static void encoders(Rng &r) { static zt_base_definition_t *D[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; zt_base_definition_t *d = D[r.below(6)]; size_t n = r.chance(1, 3) ? 1 + r.below(5000) : r.chance(1, 2) ? (size_t)-1 - r.below(100) : ((size_t)1 << (40 + r.below(24))) - r.below(3); u128 full = (u128)((u128)n / d->igroups) * d->ogroups; op("space for %zu encoded", n); char dummy = 0; size_t o = (size_t)-1; int rc = zt_base_encode(d, &dummy, n, NULL, &o);
    if (rc == 0) VT_CHECK((u128)o >= full && (u128)o <= full + d->ogroups, "encode-size", "%zu bytes are said to encode to %zu, whole groups alone take %s", n, o, show(full)); else VT_CHECK(full + d->ogroups > (u128)(size_t)-1, "encode-size", "the size of %zu encoded bytes is refused", n); ev(rc ? "refused" : "served"); ev("encode"); }
static void pointers(Rng &r) { int32_t n = r.chance(1, 2) ? INT32_MAX - (int32_t)r.below(100) : r.chance(1, 2) ? (int32_t)(1u << (26 + r.below(5))) : 1 + (int32_t)r.below(4000); op("pointer array extended by %d", n); u128 b = ((u128)n + 32) * 8; if (b > LIMIT / 2 && b < LIMIT * 2) return; settle("pointers", b, [&]() -> int { zt_ptr_array *a = zt_ptr_array_init(NULL, NULL); static int e; for (int i = 0; i < 20; i++) zt_ptr_array_add(a, &e); int32_t size = a->size; if (zt_ptr_array_resize(a, n) < 0) { VT_CHECK(a->size == size && a->count == 20, "content", "a refused extension changes the array"); return 1; } VT_CHECK(a->size == size + n, "size", "%d slots", a->size); int32_t k = n < 5000 ? n : 5000; for (int32_t i = 0; i < k; i++) VT_CHECK(zt_ptr_array_add(a, &e) == 0, "add", "adding fails"); VT_CHECK(a->count == 20 + k, "count", "%d elements", a->count); zt_ptr_array_free(a, 0); return 0; }); ev("pointers"); }
static void plain(Rng &r) { struct T16 { char c[16]; }; struct T40 { char c[40]; }; size_t n, sz; pair(r, n, sz, 65536); int how = (int)r.below(8); if (how < 3) sz = 16; else if (how < 6) sz = 40; if (how < 6 && r.chance(1, 2)) n = (size_t)((((u128)(1 + r.below(sz - 1))) << 64) / sz) + r.below(6); static const char *W[] = {"malloc-16", "calloc-16", "realloc-16", "malloc-40", "calloc-40", "realloc-40", "mallocs", "callocs"}; op("%s: %zu elements of %zu bytes", W[how], n, sz);
    settle(W[how], product(n, sz), [&]() -> int { char *p; bool zero = false; switch (how) { case 0: p = (char *)zt_malloc(T16, n); break; case 1: p = (char *)zt_calloc(T16, n); zero = true; break; case 2: { T16 *q = zt_malloc(T16, 1); q->c[15] = 'k'; p = (char *)zt_realloc(T16, q, n); VT_CHECK(p[15] == 'k', "content", "the content is lost"); break; } case 3: p = (char *)zt_malloc(T40, n); break; case 4: p = (char *)zt_calloc(T40, n); zero = true; break; case 5: { T40 *q = zt_malloc(T40, 1); q->c[39] = 'k'; p = (char *)zt_realloc(T40, q, n); VT_CHECK(p[39] == 'k', "content", "the content is lost"); break; } case 6: p = (char *)zt_mallocs(sz, n); break; default: p = (char *)zt_callocs(sz, n); zero = true; }
        if (!p) return 1; if (zero) for (size_t i = 0; i < n * sz; i++) VT_CHECK(!p[i], "cleared", "byte %zu is %d", i, p[i]); fill(p, n * sz); p[(n - 1) * sz] = 1; zt_free(p); VT_CHECK(!p, "free", "the pointer is kept"); return 0; }); ev("plain"); }
static void addresses(Rng &r) { uint32_t n = r.chance(1, 2) ? 1 + (uint32_t)r.below(3000) : r.chance(1, 2) ? UINT32_MAX - (uint32_t)r.below(5) : (uint32_t)(1u << (26 + r.below(6))) + (uint32_t)r.below(3); op("address table of %u", n); settle("addresses", (u128)n * 8 + (n > 2000 ? 0 : 1), [&]() -> int { zt_ipv4_tbl *t = zt_ipv4_tbl_init(n); if (!t) return 1; char a[40]; for (int i = 0; i < 200; i++) { snprintf(a, sizeof a, "10.%d.%d.0/24", i, i * 7 % 256); VT_CHECK(zt_ipv4_tbl_add_frm_str(t, a), "add", "%s is refused", a); } for (int i = 0; i < 200; i++) { snprintf(a, sizeof a, "10.%d.%d.9", i, i * 7 % 256); VT_CHECK(zt_ipv4_tbl_search_from_str(t, a), "find", "%s is lost", a); } zt_ipv4_tbl_destroy(t); return 0; }); ev("addresses"); }
void vt_init() { zt_log_printf(zt_log_err, "warm"); }
void vt_case(Rng &r, uint64_t idx) { nontrivial(true); mix(r.s); evaluations(1); switch (idx % 12) { case 0: arrays(r); break; case 1: repeated(r); break; case 2: heaps(r); break; case 3: pools(r); break; case 4: chunks(r); break; case 5: tables(r); break; case 6: buffers(r); break; case 7: streams(r); break; case 8: for (int i = 0; i < 20; i++) { evaluations(1); encoders(r); } break; case 9: pointers(r); break; case 10: plain(r); break; default: addresses(r); } }
