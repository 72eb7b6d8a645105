// What is given for a call may be overwritten and freed as soon as it returns; what is given out stays as it was until
// it is released. Every input below lives in a block of its own that is overwritten and freed at the end of the call
// (struct G), every result is read when it is made and again after all that followed.
#include "ztc.hpp"
#include <map>
#include <memory>
#include <algorithm>
#include <fcntl.h>
extern "C" {
#include <libzt/zt_opts.h>
#include <libzt/zt_unit.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_threads.h>
}
using namespace vt;
const bool vt_leakcheck = true;
static std::string DIR_;
void vt_init() { Quiet q; DIR_ = std::string(scratch()); zt_threads_use_pthreads(); zt_log_ty *l = zt_log_stderr(0); zt_log_set_level(l, zt_log_emerg); zt_log_logger(l); zt_progname("after", 0); time_t t = 0; localtime(&t); fflush(stdout); struct zt_unit *u = zt_unit_init(); zt_unit_release(&u); pthread_t th; pthread_create(&th, NULL, [](void *) -> void * { return NULL; }, NULL); pthread_join(th, NULL); }
bool vt_probe(const std::string &) { return false; }
alignas(16) static char slot[24][4096]; static uint32_t inuse; static bool same; // same: inputs follow each other at the same addresses
struct G { size_t n; int k; char *p; explicit G(const std::string &s) : n(s.size() + 1), k(take(n)), p(k < 0 ? (char *)malloc(n) : slot[k]) { memcpy(p, s.c_str(), n); } G(const void *d, size_t m) : n(m), k(take(n)), p(k < 0 ? (char *)malloc(m ? m : 1) : slot[k]) { memcpy(p, d, m); } G(const G &) = delete; ~G() { memset(p, 0xA5, n); if (k < 0) free(p); else inuse &= ~(1u << k); } operator char *() const { return p; }
    static int take(size_t n) { if (same && n <= sizeof slot[0]) for (int i = 0; i < 24; i++) if (!(inuse & 1u << i)) { inuse |= 1u << i; return i; } return -1; } };
struct Kept { const char *what; char *p; std::string want; void (*f)(void *); };
static std::vector<Kept> kept; struct KeptL { const char *what; zt_ptr_array *a; std::vector<std::string> want; int (*f)(zt_ptr_array *); }; static std::vector<KeptL> keptl;
static void keep(const char *what, char *p, void (*f)(void *) = free) { VT_CHECK(p, what, "%s: nothing comes out", what); kept.push_back({what, p, std::string(p), f}); evaluations(1); ev(what); }
static void keepn(const char *what, void *p, size_t n, void (*f)(void *) = free) { VT_CHECK(p, what, "%s: nothing comes out", what); kept.push_back({what, (char *)p, std::string((char *)p, n), f}); evaluations(1); ev(what); }
static void keepl(const char *what, zt_ptr_array *a, int (*f)(zt_ptr_array *)) { VT_CHECK(a, what, "%s: nothing comes out", what); KeptL k = {what, a, {}, f}; for (int i = 0; i < a->count; i++) k.want.push_back((char *)zt_ptr_array_get_idx(a, i)); keptl.push_back(k); evaluations(1); ev(what); }
static void look(bool end) { for (auto &k : kept) VT_CHECK(!memcmp(k.p, k.want.data(), k.want.size()), k.what, "%s: what came out was %s and is now %s", k.what, esc(k.want, 60).c_str(), esc(k.p, k.want.size(), 60).c_str());
    for (auto &k : keptl) { bool ok = k.a->count == (int)k.want.size(); for (size_t i = 0; ok && i < k.want.size(); i++) ok = k.want[i] == (char *)zt_ptr_array_get_idx(k.a, (int)i); VT_CHECK(ok, k.what, "%s: the list that came out has changed", k.what); }
    if (end) { for (auto &k : kept) if (k.f) k.f(k.p); for (auto &k : keptl) k.f(k.a); { std::vector<Kept>().swap(kept); std::vector<KeptL>().swap(keptl); } } }
static std::string word(Rng &r, size_t lo = 1) { return r.str(lo + r.below(r.chance(1, 8) ? 120 : 12), "abcdefXYZ019"); }
static std::string text(Rng &r) { return r.str(1 + r.below(r.chance(1, 6) ? 150 : 20), "abc,;/. xyz019-"); }
static void texts(Rng &r) {
    for (unsigned n = 2 + (unsigned)r.below(6); n; n--) { std::string s = text(r), t = text(r); ssize_t i = (ssize_t)r.below(s.size()), j = r.chance(1, 2) ? -1 : (ssize_t)r.below(s.size()); switch (r.below(14)) {
        case 0: keep("part", zt_cstr_sub(G(s), i, j)); break; case 1: keep("repeat", zt_cstr_dup(G(s), i, j, 1 + (ssize_t)r.below(4))); break; case 2: keep("join", zt_cstr_cat(G(s), i, j, G(t), 0, -1)); break; case 3: keep("joinv", zt_cstr_catv(G(s), (int)i, (int)j, (char *)G(t), 0, -1, (char *)G(s), 0, 0, NULL)); break; case 4: keep("backwards", zt_cstr_reverse(G(s), i, j)); break; case 5: keep("mapped", zt_cstr_map(G(s), i, j, G(std::string("abc")), G(std::string("ABC")))); break; case 6: keep("path", zt_cstr_path_append(G(s), G(t))); break;
        case 7: keepl("split", zt_cstr_split(G(s), G(std::string(",;"))), zt_cstr_split_free); break; case 8: keepl("cut", zt_cstr_cut(G(s), ',', (int)r.below(2)), zt_cstr_cut_free); break; case 9: keepl("tok", zt_cstr_tok(G(s), '/', (int)r.below(2)), zt_cstr_cut_free); break;
        case 10: keep("format", zt_fmt_strprintf(G(std::string("<%s|%d|%s>")), (char *)G(s), 7, (char *)G(t))); break; case 11: { char *m = NULL; if (zt_unit_printf(&m, G(std::string("%s:%s")), (char *)G(s), (char *)G(t)) >= 0) keep("message", m); break; } case 12: keep("error", zt_opt_error_str((int)r.below(40), G(std::string("bad %s")), (char *)G(s))); break;
        default: { std::vector<char> b(s.size() + t.size() + 8); zt_cstr_copy(G(s), i, j, b.data(), b.size()); std::string w(b.data()); char nm[8192]; zt_cstr_basename(nm, sizeof nm, G("d/" + w + ".so"), G(std::string(".so"))); std::string v = nm; zt_cstr_dirname(nm, sizeof nm, G(t)); VT_CHECK(w == b.data(), "copy", "a copy changes with its source"); mix(v); ev("copy"); } } mix(s); } }
static void codes(Rng &r) {
    zt_base_definition_t *const D[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; zt_base_definition_t *d = D[r.below(6)]; std::string in = r.bytes(1 + r.below(r.chance(1, 4) ? 300 : 24)); void *e = NULL, *o = NULL; size_t en = 0, on = 0; if (zt_base_encode(d, G(in.data(), in.size()), in.size(), &e, &en)) harness_error("encode"); std::string code((char *)e, en); keepn("encoded", e, en); if (zt_base_decode(d, G(code.data(), en), en, &o, &on)) harness_error("decode"); VT_CHECK(on == in.size() && !memcmp(o, in.data(), on), "decoded", "decoded to other bytes"); keepn("decoded", o, on); keep("address", zt_ipv4_int2ip((uint32_t)r.u64()));
    { zt_sha1_ctx c; zt_sha1_init(&c); std::string whole; uint8_t a[20], b[20]; for (unsigned n = (unsigned)r.below(6); n; n--) { std::string p = r.bytes(r.below(150)); zt_sha1_update(&c, (uint8_t *)G(p.data(), p.size()).p, p.size()); whole += p; } zt_sha1_finalize(&c, a); zt_sha1_data((void *)whole.data(), whole.size(), b); VT_CHECK(!memcmp(a, b, 20), "digest", "a digest depends on the pieces after they were given"); ev("digest"); zt_uuid_t u; memcpy(u.data.bytes, a, 16); char *s = NULL; zt_uuid_tostr(&u, &s, r.chance(1, 2) ? zt_uuid_std_fmt : zt_uuid_short_fmt); keep("uuid", s); zt_uuid_t v; static const zt_uuid_ns NS[] = {UUID_NS_DNS, UUID_NS_URL}; zt_uuid5(G(whole), whole.size(), NS[r.below(2)], &v); s = NULL; memset(&u, 0, sizeof u); zt_uuid_tostr(&v, &s, zt_uuid_std_fmt); keep("uuid", s); zt_uuid_fromstr(G(std::string(s)), &u, zt_uuid_std_fmt); VT_CHECK(!zt_uuid_cmp(&u, &v), "uuid", "read back as another"); }
    { uint32_t seed[8]; for (auto &x : seed) x = (uint32_t)r.u64(); size_t n = 1 + r.below(8); zt_random_state s, t; memset(&s, 0, sizeof s); memset(&t, 0, sizeof t); { G g(seed, n * 4); zt_random_initstate(&s, (uint32_t *)g.p, n); } zt_random_initstate(&t, seed, n); for (int k = (int)r.below(1300); k >= 0; k--) VT_CHECK(zt_random_uint32(&s) == zt_random_uint32(&t), "generator", "a generator depends on its seed after it was given"); ev("generator"); mix(seed[0]); } }
static int ran; static void body(struct zt_unit_test *test, void *) { ran++; ZT_UNIT_ASSERT(test, 1 == 1); }
static void names(Rng &r) {
    struct P { zt_mem_pool *p; std::string n; size_t size; }; std::vector<P> ps; std::vector<std::pair<zt_mem_heap *, std::string>> hs; std::vector<zt_table *> ts; zt_mem_pool_group *grp = NULL; std::vector<P> gs; int no = 0; auto nm = [&] { return word(r) + "-" + std::to_string(no++); };
    for (unsigned n = 3 + (unsigned)r.below(8); n; n--) switch (r.below(5)) {
        case 0: { std::string s = nm(); size_t z = 16 + 8 * r.below(20); ps.push_back({zt_mem_pool_init(G(s), 1 + (ssize_t)r.below(20), z, NULL, NULL, 0), s, z}); break; }
        case 1: { std::string s = nm(); hs.push_back({zt_mem_heap_init(G(s), 1 + r.below(100)), s}); break; }
        case 2: { std::string s = nm(); zt_table *t = zt_table_init(G(s), zt_table_hash_string, zt_table_compare_string, 1 + r.below(40), 0, NULL); static const char *k = "key"; zt_table_set(t, k, 3, k, 3); ts.push_back(t); break; }
        case 3: if (!grp) { size_t k = 1 + r.below(4); std::vector<zt_mem_pool_desc> d(k + 1); std::vector<std::unique_ptr<G>> own; memset(d.data(), 0, sizeof(d[0]) * d.size()); for (size_t i = 0; i < k; i++) { std::string s = nm(); own.emplace_back(new G(s)); d[i].name = own.back()->p; d[i].elts = 1 + r.below(8); d[i].size = 32 * (i + 1); gs.push_back({NULL, s, d[i].size}); } G desc(d.data(), sizeof(d[0]) * d.size()); grp = zt_mem_pool_group_init((zt_mem_pool_desc *)desc.p, k); VT_CHECK(grp, "group", "no group"); ev("group"); } break;
        default: if (!ps.empty() && r.chance(1, 2)) { size_t i = r.below(ps.size()); zt_mem_pool_destroy(&ps[i].p); VT_CHECK(!zt_mem_pool_get(G(ps[i].n)), "pool", "a destroyed pool is found by its name"); ps.erase(ps.begin() + (long)i); } else if (!hs.empty()) { size_t i = r.below(hs.size()); zt_mem_heap_destroy(&hs[i].first); hs.erase(hs.begin() + (long)i); } }
    for (auto &p : ps) { VT_CHECK(zt_mem_pool_get(G(p.n)) == p.p, "pool", "pool %s is not found by its name any more", p.n.c_str()); void *x = zt_mem_pool_alloc(p.p); memset(x, 1, p.size); zt_mem_pool_release(&x); ev("pool"); } for (auto &h : hs) { VT_CHECK(h.second == zt_mem_heap_get_name(h.first), "heap", "heap %s calls itself %s", h.second.c_str(), zt_mem_heap_get_name(h.first)); ev("heap"); }
    for (auto &g : gs) { zt_mem_pool *p = zt_mem_pool_get(G(g.n)); VT_CHECK(p, "group", "%s of the group is not found by its name any more", g.n.c_str()); void *x = zt_mem_pool_group_alloc(grp, g.size); VT_CHECK(x, "group", "no element of %zu bytes", g.size); memset(x, 2, g.size); zt_mem_pool_group_release(&x); } for (auto &t : ts) { VT_CHECK(zt_table_get(t, "key", 3), "table.name", "an entry is lost"); zt_table_destroy(t); ev("table.name"); } for (auto &p : ps) zt_mem_pool_destroy(&p.p); for (auto &h : hs) zt_mem_heap_destroy(&h.first); if (grp) zt_mem_pool_group_destroy(grp);
    if (r.chance(1, 4)) { struct zt_unit *u = zt_unit_init(); std::vector<std::string> sn, tn; struct zt_unit_suite *s = NULL; for (unsigned n = 1 + (unsigned)r.below(3); n; n--) { sn.push_back(nm()); s = zt_unit_register_suite(u, G(sn.back()), NULL, NULL, NULL); tn.push_back(nm()); zt_unit_register_test(s, G(tn.back()), body); } int o, nul; { Quiet q; fflush(stdout); o = dup(1); nul = open("/dev/null", O_WRONLY); dup2(nul, 1); } for (size_t i = 0; i < sn.size(); i++) { G a(std::string("prog")), b(sn[i] + (r.chance(1, 2) ? "." + tn[i] : "")); char *av[] = {a, b, NULL}; ran = 0; int rc = zt_unit_main(u, 2, av); if (rc != 0 || ran != 1) { fflush(stdout); dup2(o, 1); fail("unit", "test %s.%s asked for by name: %d, ran %d times", sn[i].c_str(), tn[i].c_str(), rc, ran); } } { Quiet q; fflush(stdout); dup2(o, 1); close(o); close(nul); } zt_unit_release(&u); ev("unit"); } evaluations(ps.size() + hs.size() + gs.size() + ts.size()); mix((uint64_t)no); }
static int sm(const void *a, size_t al, const void *b, size_t bl, void *) { return al == bl && !memcmp(a, b, al); } static int cnt(void *, void *p) { ++*(int *)p; return 0; } static int tcnt(void *, size_t, void *, size_t, void *p) { ++*(int *)p; return 0; }
static const char POOL[] = "abcdefghijklmnopqrstuvwxyz0123456789";
static void containers(Rng &r) {
    { size_t es = 1 + r.below(16), n = 1 + r.below(30); std::string m = r.bytes(es * n); zt_array_t a; if (r.chance(1, 4)) { m = text(r); es = 1; n = m.size(); a = zt_array_with_cstr(G(m)); } else a = zt_array_with(G(m.data(), m.size()), n, es, 1); for (unsigned k = (unsigned)r.below(5); k; k--) { std::string e = r.bytes(es); size_t at = r.below(n); zt_array_put(a, at, G(e.data(), es)); m.replace(at * es, es, e); } VT_CHECK(zt_array_length(a) == n && !memcmp(zt_array_data(a), m.data(), m.size()), "array", "an array changes with what it was made from"); zt_array_t b = zt_array_copy(a, n), c = zt_array_copy(a, n); std::string e = r.bytes(es); zt_array_put(a, r.below(n), G(e.data(), es)); VT_CHECK(!memcmp(zt_array_data(b), m.data(), m.size()), "array", "a copied array changes with the original"); if (r.chance(1, 2)) zt_array_resize(a, n + 50); zt_array_free(&a); VT_CHECK(!memcmp(zt_array_data(b), m.data(), m.size()), "array", "a copied array goes with the original"); memset(zt_array_data(b), 7, m.size()); VT_CHECK(!memcmp(zt_array_data(c), m.data(), m.size()), "array", "two copies of an array are one"); zt_array_free(&b); zt_array_free(&c); ev("array"); }
    { size_t n = 8 + r.below(60); std::string m = r.bytes(n), out(n, 0); zt_bstream_t s = zt_bstream_new(); zt_bstream_set_data(s, G(m.data(), n), (int)n, 1); zt_bstream_rewind(s); uint32_t v = 0; zt_bstream_read_uint32(s, &v); zt_bstream_t c = zt_bstream_clone(s); zt_bstream_rewind(s); zt_bstream_write_uint32(s, ~v); zt_bstream_write_uint32(s, v + 1); if (r.chance(1, 2)) { std::string o = r.bytes(n); zt_bstream_set_data(s, G(o.data(), n), (int)n, 1); zt_bstream_free(&s); } zt_bstream_read(c, &out[4], n - 4, 1, 0); VT_CHECK(!memcmp(&out[4], &m[4], n - 4), "stream", "a stream changes with the one it was cloned from"); zt_bstream_rewind(c); zt_bstream_read(c, &out[0], n, 1, 0); VT_CHECK(out == m, "stream", "a stream changes with the one it was cloned from"); zt_bstream_free(&c); if (s) zt_bstream_free(&s); ev("stream"); }
    { zt_buf_t *b = zt_buf_new(), *c = zt_buf_new(); std::string m; for (unsigned k = 1 + (unsigned)r.below(8); k; k--) { std::string x = r.bytes(r.below(r.chance(1, 3) ? 900 : 30)), y = r.bytes(r.below(30)); switch (r.below(3)) { case 0: zt_buf_add(b, G(x.data(), x.size()), x.size()); m += x; break; case 1: { zt_iov_t v[2]; G g(x.data(), x.size()), h(y.data(), y.size()); v[0].iov_data = g.p; v[0].iov_len = x.size(); v[1].iov_data = h.p; v[1].iov_len = y.size(); G arr(v, sizeof v); zt_buf_iov_add(b, (zt_iov_t *)arr.p, 2); m += x + y; break; } default: { zt_buf_t *d = zt_buf_new(); zt_buf_add(d, (void *)x.data(), x.size()); zt_buf_add_buf(b, d); m += x; if (r.chance(1, 2)) zt_buf_add(d, (void *)y.data(), y.size()); zt_buf_free(d); } } } VT_CHECK(zt_buf_length(b) == m.size() && (m.empty() || !memcmp(zt_buf_get(b), m.data(), m.size())), "buffer", "a buffer changes with what was added to it"); zt_buf_free(b); zt_buf_free(c); ev("buffer"); }
    { zt_ptr_array *a = zt_ptr_array_init(NULL, NULL), *b = zt_ptr_array_init(NULL, NULL); std::vector<char *> m; for (unsigned k = (unsigned)r.below(60); k; k--) { char *p = (char *)POOL + r.below(30); zt_ptr_array_add(a, p); m.push_back(p); } zt_ptr_array_cat(b, a); std::vector<char *> out(m.size() + 1); zt_ptr_array_copy_data(a, out.data()); while (a->count > 2) zt_ptr_array_del(a, zt_ptr_array_get_idx(a, 0)); zt_ptr_array_free(a, 0); bool ok = (size_t)b->count == m.size(); for (size_t i = 0; ok && i < m.size(); i++) ok = zt_ptr_array_get_idx(b, (int)i) == m[i] && out[i] == m[i]; VT_CHECK(ok, "pointers", "a joined array goes with the one it was joined from"); zt_ptr_array_free(b, 0); ev("pointers"); }
    { typedef int (*F)(zt_set *, const zt_set *, const zt_set *); static const F f[] = {zt_set_union, zt_set_intersection, zt_set_difference}; bool in[2][30] = {}; zt_set *s[3]; for (auto &x : s) x = zt_set_init(sm, NULL, NULL); for (int k = 0; k < 2; k++) for (unsigned n = (unsigned)r.below(30); n; n--) { int i = (int)r.below(30); in[k][i] = true; zt_set_insert(s[k], POOL + i, 1); } int o = (int)r.below(3), want = 0; f[o](s[2], s[0], s[1]); if (r.chance(1, 2)) zt_set_insert(s[0], POOL + 33, 1); zt_set_destroy(s[0]); zt_set_destroy(s[1]); for (int i = 0; i < 30; i++) { bool w = o == 0 ? in[0][i] || in[1][i] : o == 1 ? in[0][i] && in[1][i] : in[0][i] && !in[1][i]; want += w; VT_CHECK(!!zt_set_is_member(s[2], POOL + i, 1) == w, "set", "a set goes with those it was made from"); } int n = 0; zt_set_for_each(s[2], cnt, &n); VT_CHECK(n == want && (int)zt_set_size(s[2]) == want, "set", "%d members, %d expected", n, want); zt_set_destroy(s[2]); ev("set"); }
    { zt_table *t = zt_table_init((char *)"one", zt_table_hash_buff, sm, 1 + r.below(30), 0, NULL), *u = zt_table_init((char *)"two", zt_table_hash_buff, sm, 1 + r.below(30), 0, NULL); std::map<int, int> m; for (unsigned n = (unsigned)r.below(30); n; n--) { int k = (int)r.below(30), v = (int)r.below(30); if (m.count(k)) continue; m[k] = v; zt_table_set(t, POOL + k, 1, POOL + v, 1); } zt_table_copy(t, u); int dup = 0; for (auto &e : m) if (r.chance(1, 4)) { zt_table_del(t, POOL + e.first, 1); dup++; } zt_table_destroy(t); for (int k = 0; k < 30; k++) VT_CHECK(zt_table_get(u, POOL + k, 1) == (m.count(k) ? POOL + m[k] : NULL), "table", "a copied table goes with the original"); int n = 0; zt_table_for_each(u, tcnt, &n); VT_CHECK(n == (int)m.size(), "table", "%d entries, %zu expected", n, m.size()); zt_table_destroy(u); ev("table"); mix((uint64_t)dup); }
    { zt_llist l = NULL; std::vector<const char *> m; for (unsigned n = 1 + (unsigned)r.below(20); n; n--) { const char *p = POOL + r.below(30); m.push_back(p); zt_llist_push((void *)p, &l); } zt_llist k = zt_llist_reverse(l); zt_llist_free(l); size_t i = 0; for (zt_pair *p = k; p; p = zt_llist_tail(p)) VT_CHECK(i < m.size() && zt_llist_head(p) == m[i++], "list", "a reversed list goes with the original"); VT_CHECK(i == m.size(), "list", "%zu of %zu elements", i, m.size()); zt_llist_free(k); ev("list"); }
    { zt_ez_mempool *p = zt_ez_mempool_init(NULL), *c = zt_ez_mempool_init(p); std::vector<std::pair<char *, std::string>> m; for (unsigned n = 1 + (unsigned)r.below(10); n; n--) { std::string s = text(r); m.push_back({zt_ez_mempool_strdup(r.chance(1, 2) ? p : c, G(s)), s}); } for (auto &e : m) VT_CHECK(e.second == e.first, "strdup", "a text kept in a pool changes with its source"); zt_ez_mempool_destroy(p); ev("strdup"); }
    { uint32_t sz = 1u << r.below(8); zt_ipv4_tbl *t = zt_ipv4_tbl_init(sz); std::vector<std::string> m; for (unsigned n = 1 + (unsigned)r.below(12); n; n--) { std::string s = "10." + std::to_string(r.below(200)) + "." + std::to_string(r.below(200)) + "."; zt_ipv4_tbl_add_frm_str(t, G(s + "0/24")); m.push_back(s); } for (auto &s : m) VT_CHECK(zt_ipv4_tbl_search_from_str(t, G(s + std::to_string(r.below(256)))), "network", "a network goes with the text it was given as"); VT_CHECK(!zt_ipv4_tbl_search_from_str(t, G(std::string("11.1.1.1"))), "network", "a network nobody gave"); zt_ipv4_tbl_destroy(t); ev("network"); }
    evaluations(10); }
static void put(const std::string &f, const std::string &s) { Quiet q; FILE *o = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static std::string slurp(const std::string &f) { std::string s; char b[4096]; int fd = open(f.c_str(), O_RDONLY); ssize_t n; while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); if (fd >= 0) close(fd); return s; }
static void settings(Rng &r) {
    std::string f = DIR_ + "/after.ini", t; std::map<std::string, std::string> m; for (unsigned n = 1 + (unsigned)r.below(6); n; n--) { std::string b = "b" + std::to_string(r.below(2)), k = word(r), v = word(r); if (!m.count(b + "." + k)) { m[b + "." + k] = v; t += "[" + b + "]\n" + k + " = '" + v + "'\n"; } } put(f, t); zt_cfg_ty *c = zt_cfg_ini(G(f), 0); VT_CHECK(c, "settings", "not read"); put(f, "[b0]\nother = 'text'\n"); if (r.chance(1, 2)) unlink(f.c_str());
    struct H { std::string k; char *s; }; std::vector<H> out;
    for (unsigned n = 2 + (unsigned)r.below(12); n; n--) { std::string b = "b" + std::to_string(r.below(3)), k = word(r), v = word(r); if (r.chance(1, 2)) { auto it = m.begin(); std::advance(it, (long)r.below(m.size())); b = it->first.substr(0, 2); k = it->first.substr(3); } std::string full = b + "." + k; if (r.chance(1, 2)) { { G g(v); char *p = g; VT_CHECK(zt_cfg_set(c, G(b), G(k), &p, zt_cfg_string) >= 0, "settings", "not set"); } m[full] = v; out.erase(std::remove_if(out.begin(), out.end(), [&](const H &h) { return h.k == full; }), out.end()); ev("settings.set"); } else if (m.count(full)) { char *s = NULL; VT_CHECK(zt_cfg_get(c, G(b), G(k), &s, zt_cfg_string) >= 0 && s && m[full] == s, "settings", "%s is %s, %s expected", full.c_str(), s ? s : "absent", m[full].c_str()); out.push_back({full, s}); } }
    for (auto &h : out) { VT_CHECK(m[h.k] == h.s, "settings.got", "the value of %s was %s and is now %s", h.k.c_str(), m[h.k].c_str(), esc(h.s, m[h.k].size(), 60).c_str()); ev("settings.got"); } for (auto &e : m) { char *s = NULL; VT_CHECK(zt_cfg_get(c, G(e.first.substr(0, 2)), G(e.first.substr(3)), &s, zt_cfg_string) >= 0 && s && e.second == s, "settings", "%s is %s, %s expected", e.first.c_str(), s ? s : "absent", e.second.c_str()); } zt_cfg_close(c); ev("settings"); evaluations(m.size());
    // a log file: its path and its messages
    std::string lf = DIR_ + "/after.log", want; unlink(lf.c_str()); zt_log_ty *l = zt_log_file(G(lf), 0, ZT_LOG_RAW), *old = NULL; VT_CHECK(l, "log", "no logger"); bool cur = r.chance(1, 2); if (cur) old = zt_log_logger(l); for (unsigned n = 1 + (unsigned)r.below(4); n; n--) { std::string s = text(r); zt_log_lprintf(cur ? NULL : l, zt_log_err, G(std::string("say %s")), (char *)G(s)); want += "say " + s + "\n"; } if (cur) zt_log_logger(old); zt_log_close(l); VT_CHECK(slurp(lf) == want, "log", "the log holds %s, %s was logged", esc(slurp(lf), 80).c_str(), esc(want, 80).c_str()); unlink(lf.c_str()); ev("log"); mix(want); }
static void options(Rng &r) {
    std::string s, n1 = word(r), n2 = word(r) + "2", n3 = word(r) + "33"; while (n1.size() < 2) n1 += 'x'; char *str = NULL; char **arr = NULL; long num = 0; std::vector<std::string> wa; std::string ws; long wl = 0; std::vector<std::unique_ptr<G>> own; auto g = [&](const std::string &x) { own.emplace_back(new G(x)); return (char *)*own.back(); }; std::vector<char *> av; av.push_back(g("prog"));
    for (unsigned n = 1 + (unsigned)r.below(8); n; n--) switch (r.below(3)) { case 0: if (!ws.empty()) break; ws = word(r); if (r.chance(1, 2)) { av.push_back(g("-s")); av.push_back(g(ws)); } else av.push_back(g("--" + n1 + "=" + ws)); break; case 1: { std::string v = word(r); wa.push_back(v); if (r.chance(1, 2)) av.push_back(g("--" + n2 + "=" + v)); else { av.push_back(g("--" + n2)); av.push_back(g(v)); } break; } default: wl = (long)r.below(100000); av.push_back(g("-l" + std::to_string(wl))); }
    { zt_opt_def_t d[] = {{'s', g(n1), g("TEXT"), zt_opt_string, &str, g("help")}, {'a', g(n2), NULL, zt_opt_string_array, &arr, g("help")}, {'l', g(n3), NULL, zt_opt_long, &num, g("help")}, {ZT_OPT_END()}}; G def(d, sizeof d); int argc = (int)av.size(); av.push_back(NULL); G vec(av.data(), av.size() * sizeof(char *)); G cnt_(&argc, sizeof argc); int rc = zt_opt_process_args((int *)cnt_.p, (char **)vec.p, (zt_opt_def_t *)def.p, NULL, NULL); VT_CHECK(rc >= 0, "options", "refused: %d", rc); } own.clear();
    VT_CHECK(ws.empty() ? !str : str && ws == str, "options", "the option's value was %s and is now %s", ws.c_str(), str ? esc(str, ws.size(), 60).c_str() : "none"); VT_CHECK(num == wl, "options", "%ld, %ld expected", num, wl); for (size_t i = 0; i < wa.size(); i++) VT_CHECK(arr && arr[i] && wa[i] == arr[i], "options", "value %zu was %s and is now %s", i, wa[i].c_str(), arr && arr[i] ? esc(arr[i], wa[i].size(), 60).c_str() : "none"); VT_CHECK(wa.empty() || !arr[wa.size()], "options", "more values than given"); if (str) ev("options.text"); if (arr) ev("options.list"); free(str); if (arr) { for (char **p = arr; *p; p++) free(*p); free(arr); } evaluations(1);
    // where the program is and what it is called
    std::string p = "/some/dir/" + word(r); zt_progname(G(p), 0); VT_CHECK(p == zt_progname(NULL, 0), "program", "the program is called %s, %s was given", zt_progname(NULL, 0), p.c_str()); zt_progname(G("x" + p), STRIP_DIR); VT_CHECK(p.substr(10) == zt_progname(NULL, 0), "program", "the program is called %s, %s was given", zt_progname(NULL, 0), p.c_str()); ev("program"); if (r.chance(1, 3)) { std::string d = DIR_ + "/deep"; zt_mkdir(G(d + "/er"), 0700, zt_mkdir_create_parent); keep("basedir", zt_find_basedir(G(d + "/er/none/at/all"), G(std::string("er")))); ev("basedir"); }
    mix(p); mix(ws); }
static unsigned long ch(const void *k, size_t n, void *) { unsigned long h = 5; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)k)[i]; return h & 7; }
static void questions(Rng &r) { // each asked of blocks that come and go, and of a text that stays
    zt_table *t; std::vector<std::string> keys; keys.reserve(16); t = zt_table_init((char *)"q", r.chance(1, 2) ? ch : zt_table_hash_buff, sm, 1 + r.below(30), 0, NULL); zt_set *z = zt_set_init(sm, NULL, NULL); for (int i = 0; i < 16; i++) { keys.push_back(r.str(1 + r.below(3), "abc")); const std::string &k = keys.back(); zt_table_set(t, k.data(), k.size(), k.data(), k.size()); zt_set_insert(z, k.data(), k.size()); }
    for (unsigned n = 4 + (unsigned)r.below(10); n; n--) { size_t len = 1 + r.below(4); std::string s = r.str(len, "abc"), u = r.str(len, "abc"); bool in = false; for (auto &k : keys) in |= k == s; 
        VT_CHECK(!!zt_table_get(t, G(s.data(), len), len) == in && !!zt_set_is_member(z, G(s.data(), len), len) == in, "question", "%s is %s", s.c_str(), in ? "missing" : "found"); if (in && r.chance(1, 4)) { void *d = zt_table_del(t, G(s.data(), len), len); VT_CHECK(d && !memcmp(d, s.data(), len), "question", "another entry is deleted"); VT_CHECK(!zt_table_get(t, G(s.data(), len), len), "question", "a deleted entry is found"); for (auto &k : keys) if (k == s) { zt_table_set(t, k.data(), k.size(), k.data(), k.size()); break; } }
        VT_CHECK(zt_hash32_buff(G(s.data(), len).p, len, 0) == zt_hash32_buff((void *)s.data(), len, 0) && zt_hash32_cstr((uint8_t *)G(s).p, 0) == zt_hash32_cstr((const uint8_t *)s.c_str(), 0), "question", "another hash"); VT_CHECK(zt_cstr_find(G(s), 0, -1, G(u)) == zt_cstr_find(s.c_str(), 0, -1, u.c_str()) && zt_cstr_rfind(G(s), 0, -1, G(u)) == zt_cstr_rfind(s.c_str(), 0, -1, u.c_str()) && zt_cstr_any(G(s), 0, -1, G(u)) == zt_cstr_any(s.c_str(), 0, -1, u.c_str()) && zt_cstr_upto(G(s), 0, -1, G(u)) == zt_cstr_upto(s.c_str(), 0, -1, u.c_str()) && (zt_cstr_cmp(G(s), 0, -1, G(u), 0, -1) > 0) == (s > u) && zt_cstr_chr(G(s), 0, -1, u[0]) == zt_cstr_chr(s.c_str(), 0, -1, u[0]) && zt_cstr_rspn(G(s), G(u)) == zt_cstr_rspn(s.c_str(), u.c_str()) && zt_cstr_len(G(s), 0, -1) == len, "question", "a search in %s for %s gives another answer", s.c_str(), u.c_str());
        VT_CHECK(zt_table_hash_string(G(s), len, NULL) == zt_table_hash_string(s.c_str(), len, NULL) && !!zt_table_compare_string(G(s), len, G(u), len, NULL) == !!zt_table_compare_string(s.c_str(), len, u.c_str(), len, NULL) && !!zt_table_compare_buff(G(s.data(), len), len, G(u.data(), len), len, NULL) == !!zt_table_compare_buff(s.data(), len, u.data(), len, NULL), "question", "a key compares or hashes otherwise");
        uint8_t a[20], b[20]; zt_sha1_data(G(s.data(), len).p, len, a); zt_sha1_data((void *)s.data(), len, b); VT_CHECK(!memcmp(a, b, 20), "question", "another digest"); char hx[41]; zt_sha1_tostr(a, hx); uint8_t c[20]; zt_str_tosha1(G(std::string(hx)), c); VT_CHECK(!memcmp(a, c, 20), "question", "another digest read"); std::string ip = "10." + std::to_string(r.below(256)) + ".0." + std::to_string(r.below(256)); VT_CHECK(zt_ipv4_ip2int(G(ip)) == zt_ipv4_ip2int(ip.c_str()), "question", "another address"); std::string pt = DIR_ + (r.chance(1, 2) ? "" : "/nothing"); VT_CHECK((zt_path_exists(G(pt)) == 0) == (pt == DIR_) , "question", "existence of %s", pt.c_str()); VT_CHECK(zt_cstr_abspath(G(u)) == (u[0] == '/') && zt_cstr_abspath(G("/" + u)), "question", "absolute or not"); ev("question"); evaluations(12); mix(s); }
    zt_table_destroy(t); zt_set_destroy(z); }
static void *twice(void *p) { return (void *)((long)p * 2); }
static void callbacks(Rng &r) {
    // tables of callbacks are copied; definitions of a collector and a pool are taken when they are made
    struct zt_threads_lock_callbacks l = _zt_threads_lock_cbs; struct zt_threads_cond_callbacks c = _zt_threads_cond_cbs; struct zt_threads_cntrl_callbacks t = _zt_threads_cntrl_cbs; { G g(&l, sizeof l), h(&c, sizeof c), k(&t, sizeof t); VT_CHECK(zt_threads_set_lock_callbacks((struct zt_threads_lock_callbacks *)g.p) == 0 && zt_threads_set_cond_callbacks((struct zt_threads_cond_callbacks *)h.p) == 0 && zt_threads_set_cntrl_callbacks((struct zt_threads_cntrl_callbacks *)k.p) == 0, "callbacks", "refused"); }
    zt_threads_mutex *m = zt_threads_alloc_lock(0); zt_threads_cond *w = zt_threads_cond_alloc(0); VT_CHECK(m && w && zt_threads_lock(0, m) == 0 && zt_threads_cond_signal(w, 1) == 0, "callbacks", "no lock or no condition"); { struct timeval tv = {0, 1}; G g(&tv, sizeof tv); (void)zt_threads_cond_wait(w, m, (struct timeval *)g.p); } VT_CHECK(zt_threads_unlock(0, m) == 0, "callbacks", "not unlocked"); zt_threads_cond_free(w); zt_threads_free_lock(m, 0);
    if (r.chance(1, 4)) { zt_threads_thread *x = zt_threads_alloc_thread(); void *d = NULL; long v = (long)r.below(1000000); { pthread_attr_t a; pthread_attr_init(&a); G g(&a, sizeof a); VT_CHECK(x && zt_threads_start(x, r.chance(1, 2) ? (void *)g.p : NULL, twice, (void *)v) == 0, "callbacks", "no thread"); } VT_CHECK(zt_threads_join(x, &d) == 0 && (long)d == 2 * v, "callbacks", "the thread gives %ld, %ld expected", (long)d, 2 * v); free(x); ev("thread"); }
    { struct timeval a, b, d; a.tv_sec = (long)r.below(1000); a.tv_usec = (long)r.below(1000000); b = a; { G g(&a, sizeof a), h(&b, sizeof b); struct timeval *p = zt_add_time(&d, (struct timeval *)g.p, (struct timeval *)h.p); VT_CHECK(p == &d, "time", "another time"); } long us = 2 * (a.tv_sec * 1000000 + a.tv_usec); VT_CHECK(d.tv_sec * 1000000 + d.tv_usec == us, "time", "a time changes with its operands"); }
    ev("callbacks"); evaluations(2); mix(r.u64()); }
void vt_case(Rng &r, uint64_t idx) {
    nontrivial(true); same = r.chance(1, 2); static void (*const S[])(Rng &) = {texts, codes, names, containers, settings, options, callbacks, questions}; static const char *const nm[] = {"texts", "codes", "names", "containers", "settings", "options", "callbacks", "questions"};
    unsigned k = (unsigned)(idx % 8); op("%s", nm[k]); S[k](r); unsigned j = (unsigned)r.below(8); if (r.chance(1, 3)) { op("%s", nm[j]); S[j](r); } texts(r); look(false); if (r.chance(1, 4)) codes(r); look(true); }
