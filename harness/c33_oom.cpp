// C33: every allocation a library operation makes is made to fail, once or from then on, in a child process of its own.
#include "ztc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_threads.h>
#include <libzt/zt_unit.h>
#include <libzt/zt_ipv4_tbl.h>
}
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
// ---- injection: counts the library's allocations while armed
static bool armed, persistent; static long countdown = -1, points; static volatile bool fired;
static bool deny() { if (!armed) return false; points++; if (countdown < 0) return false; if (countdown > 0) { countdown--; return false; } fired = true; if (!persistent) countdown = -1; errno = ENOMEM; return true; }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
void *__wrap_malloc(size_t n) { return deny() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return deny() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return deny() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return deny() ? NULL : __real_strdup(s); }
FILE *__wrap_fopen(const char *p, const char *m) { return deny() ? NULL : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return deny() ? NULL : __real_fopen(p, m); }
static int fmt_(char **s, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(NULL, 0, f, b); va_end(b); if (n >= 0) { *s = (char *)__real_malloc(n + 1); vsnprintf(*s, n + 1, f, ap); } return n; }
int __wrap_vasprintf(char **s, const char *f, va_list ap) { return deny() ? (*s = (char *)16, -1) : fmt_(s, f, ap); }
int __wrap___vasprintf_chk(char **s, int, const char *f, va_list ap) { return deny() ? (*s = (char *)16, -1) : fmt_(s, f, ap); }
int __wrap_asprintf(char **s, const char *f, ...) { va_list ap; if (deny()) return -1; va_start(ap, f); int r = fmt_(s, f, ap); va_end(ap); return r; }
int __wrap___asprintf_chk(char **s, int, const char *f, ...) { va_list ap; if (deny()) return -1; va_start(ap, f); int r = fmt_(s, f, ap); va_end(ap); return r; }
}
// L(expr): a library call under injection
#define L(...) ({ armed = true; auto l_ = (__VA_ARGS__); armed = false; l_; })
#define LV(...) do { armed = true; __VA_ARGS__; armed = false; } while (0)
#define OOM(key, ...) VT_CHECK(fired, key, __VA_ARGS__)         // a reported failure must have a cause
static std::string fixed(Rng &r, size_t n) { return r.str(n, "abcdefgh /.,%"); }
// ---- scenarios
static void s_table(Rng &r) { char name[] = "t"; static char keys[200][8]; static bool mk; if (!mk) { for (int i = 0; i < 200; i++) snprintf(keys[i], 8, "k%d", i); mk = true; }
    size_t hint = r.below(60); zt_table *t = L(zt_table_init(r.chance(1, 2) ? name : NULL, zt_table_hash_string, zt_table_compare_string, hint, r.chance(1, 2) ? ZT_TABLE_SIZE_USE_HINT : 0, NULL)); if (!t) { OOM("init", "no table"); return; }
    std::map<int, int *> m; static int vals[200]; unsigned n = r.below(1200); for (unsigned i = 0; i < n; i++) { int k = (int)r.below(200); if (r.chance(1, 5)) { int *v = (int *)L(zt_table_del(t, keys[k], strlen(keys[k]))); VT_CHECK(v == (m.count(k) ? m[k] : NULL), "del", "deleted the wrong value"); m.erase(k); } else { int *v = &vals[r.below(200)]; int rc = L(zt_table_set(t, keys[k], strlen(keys[k]), v, 4)); if (rc < 0) OOM("set", "a store fails"); else { VT_CHECK((rc != 0) == (m.count(k) != 0), "set-code", "store returns %d", rc); if (!rc) m[k] = v; } } }
    auto check = [&](zt_table *x) { for (int k = 0; k < 200; k++) { int *v = (int *)zt_table_get(x, keys[k], strlen(keys[k])); VT_CHECK(v == (m.count(k) ? m[k] : NULL), "content", "key %d maps to the wrong value after a failed store", k); } }; check(t);
    zt_table *u = L(zt_table_init(NULL, zt_table_hash_string, zt_table_compare_string, 3, 0, NULL)); if (u) { int rc = L(zt_table_copy(t, u)); if (rc < 0) OOM("copy", "copying fails"); else check(u); zt_table_destroy(u); } else OOM("init2", "no table"); check(t); zt_table_destroy(t); }
static void s_set(Rng &r) { static int e[300]; for (int i = 0; i < 300; i++) e[i] = i; auto mk = [&] { return L(zt_set_init(zt_table_compare_buff, NULL, NULL)); }; zt_set *a = mk(); if (!a) { OOM("init", "no set"); return; } zt_set *b = mk(); if (!b) { OOM("init", "no set"); zt_set_destroy(a); return; } zt_set *c = mk(); if (!c) { OOM("init", "no set"); zt_set_destroy(a); zt_set_destroy(b); return; }
    std::set<int> A, B; unsigned n = r.below(500); for (unsigned i = 0; i < n; i++) { int k = (int)r.below(300); bool to = r.chance(1, 2); std::set<int> &m = to ? A : B; int rc = L(zt_set_insert(to ? a : b, &e[k], 4)); if (rc < 0) OOM("insert", "inserting fails"); else { VT_CHECK((rc != 0) == (m.count(k) != 0), "insert-code", "inserting returns %d", rc); m.insert(k); } }
    auto check = [&](zt_set *s, const std::set<int> &m, const char *w) { VT_CHECK(zt_set_size(s) == m.size(), "size", "%s has %ld elements, want %zu", w, (long)zt_set_size(s), m.size()); for (int k = 0; k < 300; k++) VT_CHECK(!!zt_set_is_member(s, &e[k], 4) == !!m.count(k), "member", "%s: element %d", w, k); }; check(a, A, "a"); check(b, B, "b");
    std::set<int> W; int w = (int)r.below(3), rc; if (w == 0) { rc = L(zt_set_union(c, a, b)); W = A; W.insert(B.begin(), B.end()); } else if (w == 1) { rc = L(zt_set_intersection(c, a, b)); for (int k : A) if (B.count(k)) W.insert(k); } else { rc = L(zt_set_difference(c, a, b)); for (int k : A) if (!B.count(k)) W.insert(k); }
    if (rc < 0) { OOM("op", "a set operation fails"); long n2 = 0; for (int k = 0; k < 300; k++) if (zt_set_is_member(c, &e[k], 4)) { VT_CHECK(W.count(k), "op-invented", "a failed operation invents elements"); n2++; } VT_CHECK(n2 == (long)zt_set_size(c), "op-size", "the size is %ld, %ld are in", (long)zt_set_size(c), n2); } else check(c, W, "result"); check(a, A, "a"); zt_set_destroy(a); zt_set_destroy(b); zt_set_destroy(c); }
static void s_mem(Rng &r) { char name[] = "p"; ssize_t elts = r.range(0, 40); size_t size = r.chance(1, 3) ? 3000 + r.below(3000) : 1 + r.below(200); zt_mem_pool *p = L(zt_mem_pool_init(r.chance(1, 3) ? NULL : name, elts, size, NULL, NULL, r.chance(1, 2) ? POOL_NEVER_FREE : 0)); if (!p) { OOM("init", "no pool"); VT_CHECK(zt_mem_pool_get(name) == NULL, "registered", "a pool that failed is registered"); }
    else { std::vector<std::pair<unsigned char *, unsigned char>> v; unsigned n = r.below(200); for (unsigned i = 0; i < n; i++) if (v.empty() || r.chance(2, 3)) { unsigned char *x = (unsigned char *)L(zt_mem_pool_alloc(p)); if (!x) { OOM("alloc", "no element"); continue; } unsigned char c = (unsigned char)r.u64(); memset(x, c, size); v.push_back({x, c}); } else { size_t k = r.below(v.size()); void *x = v[k].first; v[k] = v.back(); v.pop_back(); LV(zt_mem_pool_release(&x)); }
        for (auto &x : v) for (size_t k = 0; k < size; k++) VT_CHECK(x.first[k] == x.second, "content", "an element changed"); zt_mem_pool_stats st; zt_mem_pool_get_stats(p, &st); VT_CHECK(st.pages == st.page_allocs - st.page_frees, "stats", "%zu pages, %zu allocated, %zu freed", st.pages, st.page_allocs, st.page_frees); for (auto &x : v) { void *q = x.first; zt_mem_pool_release(&q); } VT_CHECK(zt_mem_pool_destroy(&p) == 0, "destroy", "the pool can not be destroyed"); }
    zt_mem_heap *h = L(zt_mem_heap_init(r.chance(1, 3) ? NULL : name, r.below(5000))); if (!h) OOM("heap", "no heap"); else { VT_CHECK(zt_mem_heap_get_name(h) != NULL, "heap-name", "a heap without a name"); zt_mem_heap_destroy(&h); }
    zt_mem_pool_desc d[6]; memset(d, 0, sizeof d); unsigned k = 1 + (unsigned)r.below(5); static char gn[5][4] = {"g0", "g1", "g2", "g3", "g4"}; for (unsigned i = 0; i < k; i++) { d[i].name = gn[i]; d[i].elts = r.below(5); d[i].size = 16u << i; } zt_mem_pool_group *g = L(zt_mem_pool_group_init(d, 6)); if (!g) { OOM("group", "no group"); for (unsigned i = 0; i < k; i++) VT_CHECK(zt_mem_pool_get(gn[i]) == NULL, "group-left", "pool %u of a group that failed is left", i); }
    else { std::vector<void *> v; for (int i = 0; i < 60; i++) { size_t s = 1 + r.below(16u << (k - 1)); void *x = L(zt_mem_pool_group_alloc(g, s)); if (!x) OOM("group-alloc", "no element of %zu", s); else { memset(x, 1, s); v.push_back(x); } } for (void *x : v) zt_mem_pool_release(&x); VT_CHECK(zt_mem_pool_group_destroy(g) == 0, "group-destroy", "the group can not be destroyed"); }
    zt_mem_set *s = L(zt_mem_set_init(name)); if (!s) OOM("mem-set", "no set"); (void)s; }
static int freed; static void count_free(void *p) { freed++; free(p); }
static void s_ez(Rng &r) { zt_ez_mempool *p = L(zt_ez_mempool_init(NULL)); if (!p) { OOM("init", "no pool"); return; } std::vector<zt_ez_mempool *> ps{p}; int want = 0; freed = 0; for (unsigned n = r.below(60); n--;) { zt_ez_mempool *q = r.pick(ps); switch (r.below(4)) { case 0: { zt_ez_mempool *c = L(zt_ez_mempool_init(q)); if (c) ps.push_back(c); else OOM("sub", "no subpool"); break; } case 1: { size_t s = 1 + r.below(300); char *x = (char *)L(zt_ez_mempool_alloc(q, s, NULL)); if (x) memset(x, 1, s); else OOM("alloc", "no chunk"); break; } case 2: { std::string s = fixed(r, r.below(40)); char *x = L(zt_ez_mempool_strdup(q, s.c_str())); if (x) VT_CHECK(s == x, "dup", "wrong copy"); else OOM("dup", "no copy"); break; } default: { void *b = __real_malloc(9); if (L(zt_ez_mempool_add_buffer(q, b, 9, count_free)) == 0) want++; else { OOM("add", "a buffer is refused"); free(b); } } } } LV(zt_ez_mempool_destroy(p)); VT_CHECK(freed == want, "freed", "%d buffers released, want %d", freed, want); }
static void s_split(Rng &r) { std::string s = r.str(r.below(60), "ab,;"); for (int i = 0; i < 3; i++) { zt_ptr_array *a; int keep = (int)r.below(2), w = (int)r.below(3); a = w == 0 ? L(zt_cstr_split(s.c_str(), ",;")) : w == 1 ? L(zt_cstr_cut(s.c_str(), ',', keep)) : L(zt_cstr_tok(s.c_str(), ',', keep)); if (!a) { OOM("split", "no parts"); continue; } zt_ptr_array *b = w == 0 ? zt_cstr_split(s.c_str(), ",;") : w == 1 ? zt_cstr_cut(s.c_str(), ',', keep) : zt_cstr_tok(s.c_str(), ',', keep);
        VT_CHECK(a->count == b->count, "parts", "%d parts, want %d", a->count, b->count); for (int k = 0; k < a->count; k++) { char *x = (char *)zt_ptr_array_get_idx(a, k), *y = (char *)zt_ptr_array_get_idx(b, k); VT_CHECK(x && !strcmp(x, y), "part", "part %d is \"%s\", want \"%s\"", k, x ? x : "(null)", y); } zt_ptr_array_free(a, 1); zt_ptr_array_free(b, 1); } }
static void s_cstr(Rng &r) { std::string s = fixed(r, 1 + r.below(50)), t = fixed(r, r.below(30)); auto got = [&](char *x, const std::string &w, const char *k) { if (!x) { OOM(k, "no result"); return; } VT_CHECK(w == x, k, "%s gives \"%s\", want \"%s\"", k, esc(x).c_str(), esc(w).c_str()); free(x); };
    for (int i = 0; i < 4; i++) switch (r.below(7)) { case 0: got(L(zt_cstr_sub(s.c_str(), 0, -1)), s, "sub"); break; case 1: got(L(zt_cstr_dup(s.c_str(), 0, -1, 2)), s + s, "dup"); break; case 2: got(L(zt_cstr_cat(s.c_str(), 0, -1, t.c_str(), 0, -1)), s + t, "cat"); break; case 3: got(L(zt_cstr_catv(s.c_str(), 0, -1, t.c_str(), 0, -1, NULL)), s + t, "catv"); break; case 4: got(L(zt_cstr_reverse(s.c_str(), 0, -1)), std::string(s.rbegin(), s.rend()), "reverse"); break; case 5: { std::string w = s; std::replace(w.begin(), w.end(), 'a', 'z'); got(L(zt_cstr_map(s.c_str(), 0, -1, "a", "z")), w, "map"); break; } default: { char *x = L(zt_cstr_path_append(s.c_str(), t.c_str())), *y = zt_cstr_path_append(s.c_str(), t.c_str()); if (!x) { OOM("append", "no path"); } else VT_CHECK(!strcmp(x, y), "append", "wrong path"); free(x); free(y); } } }
static void s_buf(Rng &r) { zt_buf_t *b = L(zt_buf_new()), *c = L(zt_buf_new()); if (!b || !c) { OOM("new", "no buffer"); if (b) zt_buf_free(b); if (c) zt_buf_free(c); return; } std::string m, mc;
    for (unsigned n = r.below(30); n--;) { std::string s = r.bytes(r.chance(1, 4) ? r.below(5000) : r.below(600)); int rc; switch (r.below(6)) { case 0: rc = L(zt_buf_expand(b, s.size())); if (rc) OOM("expand", "growing fails"); break; case 1: rc = L(zt_buf_reserve(b, s.size())); if (rc < 0) OOM("reserve", "reserving fails"); break; case 2: { size_t k = r.below(m.size() + 1); zt_buf_drain(b, k); m.erase(0, k); break; } case 3: rc = L(zt_buf_add(c, (void *)s.data(), s.size())); if (rc < 0) OOM("add", "adding fails"); else mc += s; break; case 4: rc = L(zt_buf_add_buf(b, c)); if (rc < 0) OOM("addbuf", "adding fails"); else { m += mc; if (zt_buf_length(c) == 0) mc.clear(); } break; default: rc = L(zt_buf_add(b, (void *)s.data(), s.size())); if (rc < 0) OOM("add", "adding fails"); else m += s; }
        VT_CHECK(zt_buf_length(b) == m.size() && (m.empty() || !memcmp(zt_buf_get(b), m.data(), m.size())), "content", "the buffer holds %zu bytes, want %zu", zt_buf_length(b), m.size()); VT_CHECK(zt_buf_length(c) == mc.size() && (mc.empty() || !memcmp(zt_buf_get(c), mc.data(), mc.size())), "content2", "the other buffer holds %zu bytes, want %zu", zt_buf_length(c), mc.size()); }
    zt_buf_free(b); zt_buf_free(c); }
static void s_bstream(Rng &r) { zt_bstream_t b = L(zt_bstream_new()); if (!b) { OOM("new", "no stream"); return; } zt_array_t ar = NULL; if (r.chance(1, 2)) { ar = L(zt_array_new(8 + r.below(100), 1)); if (!ar) { OOM("array", "no array"); zt_bstream_free(&b); return; } LV(zt_bstream_set_array(b, ar, 0)); } else { std::string s = r.bytes(8 + r.below(100)); LV(zt_bstream_set_data(b, (char *)s.data(), (int)s.size(), 1)); } std::vector<uint32_t> v; zt_bstream_rewind(b); for (unsigned n = r.below(60); n--;) { v.push_back((uint32_t)r.u64()); LV(zt_bstream_write_uint32(b, v.back())); } if (r.chance(1, 2)) { zt_bstream_t c = L(zt_bstream_clone(b)); if (!c) OOM("clone", "no clone"); else zt_bstream_free(&c); } zt_bstream_rewind(b); for (uint32_t w : v) { uint32_t x = 0; zt_bstream_read_uint32(b, &x); VT_CHECK(x == w, "read", "read %x, want %x", x, w); } zt_bstream_free(&b); }
static void s_array(Rng &r) { size_t n = r.below(50), sz = 1 + r.below(20); std::string d = r.bytes(n * sz); zt_array_t a = L(zt_array_with((char *)d.data(), n, sz, 1)); if (!a) { OOM("with", "no array"); return; } LV(zt_array_resize(a, n + r.below(100))); VT_CHECK(!n || !memcmp(zt_array_data(a), d.data(), d.size()), "data", "resizing changed the elements"); zt_array_t b = L(zt_array_copy(a, zt_array_length(a))); if (!b) OOM("copy", "no copy"); else { VT_CHECK(!n || !memcmp(zt_array_data(b), d.data(), d.size()), "copy-data", "wrong copy"); zt_array_free(&b); } LV(zt_array_set_data(a, (char *)d.data(), n, sz, 1)); zt_array_free(&a); zt_ptr_array *p = L(zt_ptr_array_init(NULL, free)), *q = L(zt_ptr_array_init(NULL, NULL)); if (!p || !q) { OOM("init", "no array"); if (p) zt_ptr_array_free(p, 1); if (q) zt_ptr_array_free(q, 0); return; } std::vector<void *> m; for (unsigned k = r.below(200); k--;) { void *x = __real_malloc(1); if (L(zt_ptr_array_add(p, x)) < 0) { OOM("add", "adding fails"); free(x); } else m.push_back(x); } if (L(zt_ptr_array_cat(q, p)) < 0) OOM("cat", "concatenating fails"); else VT_CHECK(q->count == (int)m.size(), "cat-count", "%d of %zu", q->count, m.size()); VT_CHECK(p->count == (int)m.size(), "count", "%d elements, want %zu", p->count, m.size()); for (size_t k = 0; k < m.size(); k++) VT_CHECK(zt_ptr_array_get_idx(p, (int)k) == m[k], "element", "element %zu", k); zt_ptr_array_free(q, 0); zt_ptr_array_free(p, 1); }
static void s_llist(Rng &r) { zt_llist l = NULL; static int v[100]; unsigned n = r.below(40); for (unsigned i = 0; i < n; i++) LV(zt_llist_push(&v[i], &l)); zt_llist k = L(zt_llist_reverse(l)); unsigned c = 0; for (zt_pair *p = k; p; p = zt_llist_tail(p)) VT_CHECK(zt_llist_head(p) == &v[c++], "order", "wrong element"); VT_CHECK(c == n, "count", "%u of %u", c, n); zt_llist_free(l); zt_llist_free(k); }
static void s_base(Rng &r) { std::string s = r.bytes(r.below(200)); void *o = NULL, *p = NULL; size_t n = 0, m = 0; zt_base_definition_t *D[] = {zt_base64_rfc, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; zt_base_definition_t *d = D[r.below(5)]; int rc = L(zt_base_encode(d, s.data(), s.size(), &o, &n)); if (rc) { OOM("encode", "encoding fails"); free(o); return; } rc = L(zt_base_decode(d, o, n, &p, &m)); if (rc) OOM("decode", "decoding fails"); else VT_CHECK(m == s.size() && !memcmp(p, s.data(), m), "roundtrip", "wrong text"); free(o); free(p); }
static void s_format(Rng &r) { std::string s = fixed(r, r.below(2000)); char *x = L(zt_fmt_strprintf("%s-%d", s.c_str(), 42)); if (!x) { OOM("strprintf", "no text"); return; } VT_CHECK(s + "-42" == x, "text", "wrong text"); free(x); }
struct GO { zt_gc_collectable_t mark; GO *next; }; static int rel; static void g_mark(zt_gc_t *gc, void *, void *v) { GO *o = (GO *)v; if (o->next) zt_gc_mark(gc, o->next); } static void g_rel(zt_gc_t *, void *, void **pv) { rel++; free(*pv); *pv = NULL; }
static void s_gc(Rng &r) { zt_gc_t *gc = L(zt_gc_init(NULL, g_mark, g_rel, 1 + r.below(5), 1 + r.below(5))); if (!gc) { OOM("init", "no collector"); return; } unsigned n = r.below(30); rel = 0; GO *last = NULL; for (unsigned i = 0; i < n; i++) { GO *o = (GO *)__real_malloc(sizeof *o); o->next = last; zt_gc_prepare(gc, o); LV(zt_gc_register(gc, o)); if (r.chance(1, 4)) { zt_gc_protect(gc, o); } last = NULL; } LV(zt_gc_collect(gc, 1)); zt_gc_destroy(gc); VT_CHECK(rel == (int)n, "released", "%d of %u released", rel, n); }
static void s_uuid(Rng &r) { zt_uuid_t u, w; LV(zt_uuid4(&u)); char *s = NULL; ssize_t n = L(zt_uuid_tostr(&u, &s, r.chance(1, 2) ? zt_uuid_std_fmt : zt_uuid_short_fmt)); if (n < 0 || !s) { OOM("tostr", "no text"); free(s); return; } VT_CHECK((size_t)n >= strlen(s), "len", "length %zd", n); free(s); char v[] = "value"; LV(zt_uuid5(v, 5, UUID_NS_DNS, &w)); }
static void s_ipv4(Rng &r) { zt_ipv4_tbl *t = L(zt_ipv4_tbl_init(1u << r.below(8))); if (!t) { OOM("init", "no table"); return; } std::set<std::string> in; for (unsigned i = r.below(40); i--;) { char b[40]; snprintf(b, sizeof b, "10.%u.%u.0/24", (unsigned)r.below(20), (unsigned)r.below(256)); if (r.chance(1, 5)) snprintf(b, sizeof b, "%u.0.0.0/8", 20 + (unsigned)r.below(100)); zt_ipv4_node *n = L(zt_ipv4_tbl_add_frm_str(t, b)); if (n) in.insert(b); else OOM("add", "adding fails"); } for (auto &s : in) VT_CHECK(zt_ipv4_tbl_search_from_str(t, s.substr(0, s.find('/')).c_str()), "lost", "%s is not found", s.c_str()); for (auto &s : in) if (!L(zt_ipv4_tbl_search_from_str(t, s.substr(0, s.find('/')).c_str()))) OOM("search", "%s is not found", s.c_str()); VT_CHECK(!zt_ipv4_tbl_search_from_str(t, "200.1.2.3"), "invented", "an address that is in no network is found"); char *x = L(zt_ipv4_int2ip(r.u64())); if (!x) OOM("int2ip", "no text"); free(x); LV(zt_ipv4_tbl_destroy(t)); }
static void s_cfg(Rng &r) { std::string f = std::string(scratch()) + "/cfg"; std::map<std::string, long> ints; std::map<std::string, std::string> strs; std::string text; for (unsigned n = 1 + r.below(20); n--;) { std::string k = "v" + std::to_string(r.below(30)); if (ints.count(k) || strs.count(k)) continue; if (r.chance(1, 2)) { ints[k] = r.below(1000); text += k + " = " + std::to_string(ints[k]) + "\n"; } else { strs[k] = "text " + std::to_string(r.below(100)); text += k + " = '" + strs[k] + "'\n"; } } text = "[b]\n" + text + (strs.empty() ? "" : "r = b." + strs.begin()->first + "\n"); int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); (void)!write(fd, text.data(), text.size()); close(fd); char blk[] = "b"; auto check = [&](zt_cfg_ty *c) { for (auto &i : ints) { long v; VT_CHECK(zt_cfg_get(c, blk, (char *)i.first.c_str(), &v, zt_cfg_int) >= 0 && v == i.second, "int", "%s is wrong", i.first.c_str()); } for (auto &i : strs) { char *v = NULL; VT_CHECK(zt_cfg_get(c, blk, (char *)i.first.c_str(), &v, zt_cfg_string) >= 0 && v && i.second == v, "string", "%s is %s", i.first.c_str(), v ? v : "(null)"); } };
    zt_cfg_ty *c = L(zt_cfg_ini((char *)f.c_str(), 0)); if (!c) { OOM("ini", "no configuration"); return; } check(c); for (unsigned n = r.below(6); n--;) { std::string k = "v" + std::to_string(r.below(40)); if (r.chance(1, 2)) { long v = r.below(99); int rc = L(zt_cfg_set(c, blk, (char *)k.c_str(), &v, zt_cfg_int)); if (rc < 0) OOM("set", "setting fails"); else { strs.erase(k); ints[k] = v; } } else { std::string s = "new" + std::to_string(r.below(99)); char *p = (char *)s.c_str(); int rc = L(zt_cfg_set(c, blk, (char *)k.c_str(), &p, zt_cfg_string)); if (rc < 0) OOM("set", "setting fails"); else { ints.erase(k); strs[k] = s; } } check(c); } zt_cfg_close(c); }
static int quiet_error(int, char *, ...) { return 0; }
static void s_opts(Rng &r) { char *str = NULL; char **arr = NULL; long num = 0; static char so[] = "string", ao[] = "array", lo[] = "long", none[] = ""; (void)none; zt_opt_def_t d[] = {{'s', so, NULL, zt_opt_string, &str, so}, {'a', ao, NULL, zt_opt_string_array, &arr, ao}, {'l', lo, NULL, zt_opt_long, &num, lo}, {ZT_OPT_END()}}; std::vector<std::string> a{"prog"}; std::string ws; std::vector<std::string> wa; long wl = 0; bool sset = false; for (unsigned n = r.below(8); n--;) { switch (r.below(3)) { case 0: if (sset) break; sset = true; ws = "S" + std::to_string(r.below(100)); a.push_back("-s"); a.push_back(ws); break; case 1: wa.push_back("A" + std::to_string(r.below(100))); a.push_back("--array=" + wa.back()); break; default: wl = r.below(1000); a.push_back("-l" + std::to_string(wl)); } } std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(NULL); int argc = (int)a.size(); int rc = L(zt_opt_process_args(&argc, av.data(), d, NULL, quiet_error)); bool same = (sset ? str && ws == str : !str); for (size_t i = 0; i < wa.size() && same; i++) same = arr && arr[i] && wa[i] == arr[i]; same = same && num == wl; if (!same) OOM("value", "a value is lost (%d)", rc); VT_CHECK(same || rc < 0, "silent", "a value is lost and %d is returned", rc);
    free(str); if (arr) { for (char **p = arr; *p; p++) free(*p); free(arr); } char fm[] = "some %s %d"; char *e = L(zt_opt_error_str((int)r.below(3) ? EINVAL : 0, r.chance(1, 4) ? NULL : fm, "text", 7)); if (!e) OOM("error", "no error text"); else { VT_CHECK(strncmp(e, "error: { code: ", 15) == 0 && e[strlen(e) - 1] == '}', "error-text", "the error text is \"%s\"", esc(e).c_str()); free(e); } LV(zt_opt_error_default(EINVAL, fm, "text", 7)); }
static std::string slurp(const char *p) { std::string s; int fd = open(p, O_RDONLY); if (fd < 0) return s; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void s_log(Rng &r) { std::string f = std::string(scratch()) + "/log"; unlink(f.c_str()); zt_log_ty *l = L(zt_log_file((char *)f.c_str(), 0, r.chance(1, 2) ? ZT_LOG_RAW : ZT_LOG_WITH_LEVEL | ZT_LOG_WITH_PID | ZT_LOG_WITH_DATE)); if (!l) { OOM("file", "no logger"); return; } unsigned n = 0; for (unsigned k = r.below(6); k--;) { if (r.chance(1, 2)) LV(zt_log_lprintf(l, zt_log_err, "message %d", 5)); else LV(zt_log_lstrerror(l, zt_log_err, ENOENT, "failed %d", 5)); n++; } LV(zt_log_close(l)); std::string s = slurp(f.c_str()); size_t lines = std::count(s.begin(), s.end(), '\n'); VT_CHECK(lines == n || (fired && lines < n), "lines", "%zu messages in the log, %u were logged", lines, n); }
static void nothing_cb(void *) {}
static void s_threads(Rng &r) { int n = 1 + (int)r.below(4); zt_threadpool *p = L(zt_threadpool_init(n, n, (int)r.below(2), (int)r.below(2))); if (!p) { OOM("init", "no pool"); return; } static int item; unsigned m = r.below(10), in = 0; for (unsigned i = 0; i < m; i++) { if (L(zt_threadpool_insert_oput(p, &item)) == 0) in++; else OOM("insert", "inserting fails"); } unsigned out = 0; while (zt_threadpool_get_oput(p)) out++; VT_CHECK(in == out, "items", "%u items in, %u out", in, out); if (L(zt_threadpool_insert_iput(p, &item)) != 0) OOM("insert", "inserting fails"); LV(zt_threadpool_kill(p)); }
static void s_threads_raw(Rng &) { zt_threads_mutex *m = L(zt_threads_alloc_lock(0)); if (!m) OOM("lock", "no lock"); else { zt_threads_lock(0, m); zt_threads_unlock(0, m); zt_threads_free_lock(m, 0); } zt_threads_cond *c = L(zt_threads_cond_alloc(0)); if (!c) OOM("cond", "no condition"); else { zt_threads_cond_signal(c, 1); zt_threads_cond_free(c); } }
static void t_body(struct zt_unit_test *test) { ZT_UNIT_ASSERT(test, 1 == 1); } static void t_fail(struct zt_unit_test *test) { ZT_UNIT_ASSERT(test, 1 == 2); }
static void s_unit(Rng &r) { { std::string w = fixed(r, r.below(300)); char old[] = "old", *t = old; int n = L(zt_unit_printf(&t, "%s:%d", w.c_str(), 7)); if (n < 0) { OOM("message", "no message"); VT_CHECK(!t, "message-left", "there is no message, but a text is handed out"); } else { VT_CHECK(w + ":7" == t, "message", "another message"); free(t); } } struct zt_unit *u = L(zt_unit_init()); if (!u) { OOM("init", "no unit"); return; } unsigned n = r.below(5); struct zt_unit_suite *s = L(zt_unit_register_suite_(u, "suite", NULL, NULL, NULL, zt_unit_try_cpp)); if (!s) { OOM("suite", "no suite"); zt_unit_release(&u); return; } for (unsigned i = 0; i < n; i++) L(zt_unit_register_test(s, "test", r.chance(1, 2) ? t_fail : t_body)); int o = dup(1), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); LV(zt_unit_run(u)); fflush(stdout); dup2(o, 1); close(o); close(nul); zt_unit_release(&u); }
static void s_atexit(Rng &r) { for (unsigned n = r.below(5); n--;) LV(zt_atexit(nothing_cb, NULL)); }
static void s_prog(Rng &r) { putenv(r.chance(1, 2) ? (char *)"PATH" : (char *)"PATH=/usr/bin:/bin"); char nm[] = "sh"; char *p = L(zt_progpath(nm)); VT_CHECK(p, "path", "no path"); char *o = L(zt_os_progpath()); if (!o) OOM("os", "no path"); free(o); std::string long_ = "a/b"; L(zt_progpath((char *)long_.c_str())); }
struct Sc { const char *name; void (*fn)(Rng &); bool keeps; };  // keeps: leaves memory behind on purpose
static const Sc SC[] = {{"table", s_table}, {"set", s_set}, {"mem", s_mem, true}, {"ez_mempool", s_ez}, {"split", s_split}, {"cstr", s_cstr}, {"buf", s_buf}, {"bstream", s_bstream}, {"array", s_array}, {"llist", s_llist}, {"base", s_base}, {"format", s_format}, {"gc", s_gc}, {"uuid", s_uuid}, {"ipv4", s_ipv4}, {"cfg", s_cfg}, {"opts", s_opts}, {"log", s_log}, {"threads", s_threads, true}, {"locks", s_threads_raw}, {"unit", s_unit}, {"atexit", s_atexit, true}, {"progpath", s_prog}};
static const size_t NSC = sizeof SC / sizeof *SC;
struct Out { volatile int fired; volatile long points; volatile int done; }; static Out *out;
void vt_init() { Quiet q; out = (Out *)mmap(NULL, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); scratch(); zt_threads_use_pthreads(); }
static void child(const Sc &sc, uint64_t seed, long at, bool pers, bool warm) {
    signal(SIGPIPE, SIG_IGN); if (warm) { { Quiet q; zt_log_printf(zt_log_err, "warm"); fflush(stderr); } for (int i = 0; i < 1; i++) { Rng r(seed); sc.fn(r); } }
    long l0 = live(); countdown = at; persistent = pers; fired = false; points = 0; { Rng r(seed); sc.fn(r); } countdown = -1; armed = false; out->fired = fired; out->points = points; long l1 = live(); if (warm && !sc.keeps && l1 > l0) { fired = false; long a = live(); { Rng r(seed); sc.fn(r); } long b = live(); if (b - a < l1 - l0) fail("leak", "%ld heap block(s) are lost when allocation %ld fails", l1 - l0, at); }
    // and everything still works afterwards
    fired = false; { Rng r(seed); sc.fn(r); } out->done = 1; }
static void inject(const Sc &sc, uint64_t seed, long at, bool pers, bool warm) {
    out->fired = 0; out->points = 0; out->done = 0; std::string err; int st = run_forked([&] { child(sc, seed, at, pers, warm); }, &err, nullptr, 30); size_t p = err.find("SUMMARY:"); std::string tail; for (size_t x = 0, k = 0; k < 2 && (x = err.find("/src/libzt/", x)) != std::string::npos; x++, k++) tail += err.substr(x + 11, err.find_first_of(" \n", x) - x - 11) + " "; tail += err.substr(p != std::string::npos ? p : err.size() > 600 ? err.size() - 600 : 0); std::string w = std::string(sc.name) + ", allocation " + std::to_string(at) + (pers ? " and all after it" : "");
    if (st == -1) fail((std::string(sc.name) + "-stuck").c_str(), "%s: no end", w.c_str());
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && at >= 0) { VT_CHECK(err.find("ssert") != std::string::npos, (std::string(sc.name) + "-silent").c_str(), "%s: aborted without an assertion report: %s", w.c_str(), tail.c_str()); ev("fatal"); evaluations(1); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 41) harness_error("%s: %s", w.c_str(), tail.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40) { size_t k = err.find("VT-VIOLATION"), e = err.find('\n', k); std::string v = err.substr(k, e - k); size_t kk = v.find("key="), ke = v.find(' ', kk); fail((std::string(sc.name) + "-" + (kk == std::string::npos ? "?" : v.substr(kk + 4, ke - kk - 4))).c_str(), "%s: %s", w.c_str(), v.c_str()); }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { std::string k = std::string(sc.name) + (WIFEXITED(st) && WEXITSTATUS(st) == 99 ? "-corrupt" : "-crash"); fail(k.c_str(), "%s: the process ended with %#x: %s", w.c_str(), st, tail.c_str()); }
    VT_CHECK(out->done, (std::string(sc.name) + "-exit").c_str(), "%s: the process exits by itself", w.c_str()); if (out->fired) { ev("survived"); } evaluations(1); }
void vt_case(Rng &r, uint64_t idx) {
    Quiet q; const Sc &sc = SC[idx % NSC]; uint64_t seed = r.u64(); bool warm = !r.chance(1, 5); mix(idx); mix(seed); op("%s", sc.name); inject(sc, seed, -1, false, warm); long n = out->points; ev("points", (uint64_t)n); ev(sc.name); std::vector<long> at; if (n <= (thorough() ? 60 : 8)) for (long i = 0; i < n; i++) at.push_back(i); else { at = {0, 1, 2, n - 1}; for (int i = 0; i < (thorough() ? 40 : 4); i++) at.push_back((long)r.below(n)); }
    for (long i : at) { inject(sc, seed, i, false, warm); ev("inject"); if (r.chance(1, 4)) { inject(sc, seed, i, true, warm); ev("inject.persistent"); } }
    nontrivial(n > 0); }
