// Objects are built in an area of their own and everything a caller hands over for reading lies there too.  The area is then made
// read-only and asked many questions (a write ends in a fault that is attributed to the function asked), or, under the race detector,
// asked by several threads at once.  Everybody must get the same answers.
#define HAVE_INTTYPES_H 1
#include "ztc.hpp"
#include <inttypes.h>
#include <atomic>
#include <memory>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_opts.h>
uint64_t zt_hash64_buff(void *buf, size_t len, uint64_t init);
uint64_t zt_hash64_cstr(const uint8_t *buf, uint64_t init);
}
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
#ifdef TSAN
enum { NTH = 3 };
#else
enum { NTH = 1 };
#endif
struct D { uint64_t h = 1469598103934665603ULL; unsigned q = 0; void n(uint64_t x) { q++; for (int i = 0; i < 8; i++, x >>= 8) h = (h ^ (x & 255)) * 1099511628211ULL; } void b(const void *p, size_t l) { n(l); for (size_t i = 0; i < l; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ULL; } void s(const char *p) { if (p) b(p, strlen(p)); else n(77); } void t(char *p) { s(p); free(p); } };
// ---- the area
static char *area; static size_t fill; enum : size_t { AREA = 8u << 20 }; static __thread bool in_area; static bool arenas = true; static __thread const char *asked = "?"; static const char *scene = "?"; static std::atomic<bool> closed{false};
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
static bool ours(const void *p) { return (const char *)p >= area && (const char *)p < area + AREA; }
static void *take(size_t n) { size_t *h = (size_t *)(area + fill); fill += 16 + ((n + 15) & ~(size_t)15); if (fill > AREA) harness_error("area too small"); h[0] = n; memset(h + 2, 0xa5, n); return h + 2; }
void *__wrap_malloc(size_t n) { return in_area && n < AREA ? take(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!in_area || a > AREA || b > AREA) return __real_calloc(a, b); void *p = take(a * b); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) { if (!in_area && !ours(p)) return __real_realloc(p, n); void *q = __wrap_malloc(n); if (q && p) { size_t o = ours(p) ? ((size_t *)p)[-2] : 0; memcpy(q, p, o < n ? o : n); } return q; }
void __wrap_free(void *p) { if (!ours(p)) __real_free(p); }
char *__wrap_strdup(const char *s) { if (!in_area) return __real_strdup(s); char *q = (char *)take(strlen(s) + 1); return strcpy(q, s); }
}
struct In { bool was; In() : was(in_area) { in_area = arenas; } ~In() { in_area = was; } }; struct Out { bool was; Out() : was(in_area) { in_area = false; } ~Out() { in_area = was; } };
static char *given(const std::string &s) { In in; char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; } // something handed over for reading
template <class T> static T *room(size_t n = 1) { In in; T *p = (T *)calloc(n, sizeof(T)); return p; }
static struct sigaction old_segv;
static void on_segv(int sig, siginfo_t *si, void *u) { if (closed && ours(si->si_addr)) { fail("written", "%s: %s writes to what it was given for reading (at %zu of %zu)", scene, asked, (size_t)((char *)si->si_addr - area), fill); } if (old_segv.sa_flags & SA_SIGINFO && old_segv.sa_sigaction) old_segv.sa_sigaction(sig, si, u); else { signal(sig, SIG_DFL); raise(sig); } }
static int outfd;
void vt_init() { Quiet q; area = (char *)mmap(NULL, AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (area == MAP_FAILED) harness_error("mmap"); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, &old_segv);
    zt_log_ty *l = zt_log_stderr(0); zt_log_set_level(l, zt_log_emerg); zt_log_logger(l); fflush(stdout); outfd = open("/dev/null", O_WRONLY); if (outfd < 0 || dup2(outfd, 1) < 0) harness_error("stdout"); }
#define ASK(...) (asked = #__VA_ARGS__, __VA_ARGS__)
// ---- scenes: built in the area, asked, dropped
struct Scene { virtual ~Scene() {} virtual void build(Rng &r) = 0; virtual void look(Rng &r, D &d, int th) = 0; virtual void drop() {} };
struct Table : Scene {
    int kind; std::vector<char *> keys; std::vector<size_t> lens; zt_table *t = NULL; zt_table *to[NTH];
    zt_table *mk(size_t hint, unsigned fl) { return kind == 0 ? zt_table_init((char *)"own", zt_table_hash_string, zt_table_compare_string, hint, fl, NULL) : kind == 1 ? zt_table_init((char *)"own", zt_table_hash_buff, zt_table_compare_buff, hint, fl, NULL) : zt_table_init((char *)"int", zt_table_hash_int, zt_table_compare_int, hint, fl, NULL); }
    void *K(size_t i) { return kind == 2 ? (void *)(intptr_t)(i * 7919) : keys[i]; } size_t L(size_t i) { return kind == 2 ? sizeof(int) : lens[i]; }
    void build(Rng &r) override { kind = (int)r.below(3); unsigned n = 1 + (unsigned)r.below(60); for (unsigned i = 0; i < n * 2; i++) { std::string k = r.str(1 + r.below(5), "abAB01"); keys.push_back(given(k)); lens.push_back(k.size()); } size_t hint = r.below(80); unsigned fl = (unsigned)r.below(4); for (auto &x : to) x = mk(hint, fl); In in; t = mk(hint, fl); for (unsigned i = 0; i < n; i++) if (zt_table_set(t, K(i), L(i), (void *)(uintptr_t)(i + 1), 0) == 0 && r.chance(1, 6)) zt_table_del(t, K(i), L(i)); }
    void look(Rng &r, D &d, int th) override { for (int k = 0; k < 60; k++) { size_t i = r.below(keys.size()), j = r.below(keys.size()); switch (r.below(8)) { default: d.n((uintptr_t)ASK(zt_table_get(t, K(i), L(i)))); break; case 1: ASK(zt_table_for_each(t, [](void *k, size_t kl, void *v, size_t vl, void *p) { ((D *)p)->n((uintptr_t)v + kl + vl + (k != NULL)); return 0; }, &d)); break; case 2: d.n(ASK(zt_table_hash_string(keys[i], lens[i], NULL))); d.n(ASK(zt_table_hash_buff(keys[i], lens[i], NULL))); break; case 3: d.n(ASK(zt_table_compare_string(keys[i], lens[i], keys[j], lens[j], NULL))); d.n(ASK(zt_table_compare_string_case(keys[i], lens[i], keys[j], lens[j], NULL))); d.n(ASK(zt_table_compare_buff(keys[i], lens[i], keys[j], lens[j], NULL))); break; case 4: if (k < 30) break; d.n(ASK(zt_table_copy(t, to[th]))); d.n((uintptr_t)zt_table_get(to[th], K(j), L(j))); break; case 5: d.n(ASK(zt_table_set(to[th], K(i), L(i), (void *)(uintptr_t)77, 0))); d.n((uintptr_t)ASK(zt_table_del(to[th], K(i), L(i)))); break; } } }
    void drop() override { zt_table_destroy(t); for (auto x : to) zt_table_destroy(x); } };
static int sm(const void *a, size_t al, const void *b, size_t bl, void *) { return al == bl && !memcmp(a, b, al); }
struct Set : Scene {
    zt_set *s[3], *to[NTH][3]; char *el;
    void build(Rng &r) override { el = given("abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"); for (auto &x : to) for (auto &y : x) y = zt_set_init(sm, NULL, NULL); In in; for (auto &x : s) { x = zt_set_init(sm, NULL, NULL); for (unsigned i = 0, n = (unsigned)r.below(25); i < n; i++) zt_set_insert(x, el + r.below(40), 1 + r.below(3)); } }
    void look(Rng &r, D &d, int th) override { for (int k = 0; k < 50; k++) { zt_set *a = s[r.below(3)], *b = s[r.below(3)]; switch (r.below(6)) { default: d.n(ASK(zt_set_is_member(a, el + r.below(40), 1 + r.below(3)))); break; case 1: d.n(ASK(zt_set_is_subset(a, b))); break; case 2: d.n(ASK(zt_set_is_equal(a, b))); break; case 3: d.n(ASK(zt_set_for_each(a, [](void *v, void *p) { ((D *)p)->n(*(char *)v); return 0; }, &d))); d.n(zt_set_size(a)); break; } } d.n(ASK(zt_set_union(to[th][0], s[0], s[1]))); d.n(zt_set_size(to[th][0])); d.n(ASK(zt_set_intersection(to[th][1], s[1], s[2]))); d.n(zt_set_size(to[th][1])); d.n(ASK(zt_set_difference(to[th][2], s[2], s[0]))); d.n(zt_set_size(to[th][2])); d.n(ASK(zt_set_is_subset(to[th][0], s[2]))); }
    void drop() override { for (auto x : s) zt_set_destroy(x); for (auto &x : to) for (auto y : x) zt_set_destroy(y); } };
struct TN { zt_rbt_node n; int v; }; static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { int x = zt_rbt_data(a, TN, n)->v, y = zt_rbt_data(b, TN, n)->v; return x < y ? -1 : x > y; }
struct Tree : Scene {
    TN *N; zt_rbt **root; TN *q;
    void build(Rng &r) override { unsigned n = 1 + (unsigned)r.below(80); N = room<TN>(n); root = room<zt_rbt *>(); q = room<TN>(60); for (int i = 0; i < 60; i++) q[i].v = i * 3 % 90; for (unsigned i = 0; i < n; i++) { N[i].v = (int)r.below(90); if (!zt_rbt_insert(root, &N[i].n, tcmp) && r.chance(1, 5)) zt_rbt_remove(root, &N[i].n); } }
    void look(Rng &r, D &d, int) override { for (int k = 0; k < 60; k++) { TN *x = &q[r.below(60)]; zt_rbt_node *f; switch (r.below(6)) { default: f = ASK(zt_rbt_find(root, &x->n, tcmp)); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); if (f) { f = ASK(zt_rbt_next(f)); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); } break; case 1: f = ASK(zt_rbt_nfind(root, &x->n, tcmp)); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); break; case 2: f = ASK(zt_rbt_min(root)); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); f = ASK(zt_rbt_max(root)); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); break; case 3: asked = "zt_rbt_for_each"; if (*root) zt_rbt_for_each(root, f) d.n(zt_rbt_data(f, TN, n)->v); break; } } } };
struct LE { zt_elist_t l; int v; }; static int lcmp(void *a, void *b) { return (intptr_t)a / 4 > (intptr_t)b / 4; }
struct Lists : Scene {
    zt_elist_t *h, *none; zt_llist l = NULL; unsigned n;
    void build(Rng &r) override { h = room<zt_elist_t>(); none = room<zt_elist_t>(); zt_elist_reset(h); zt_elist_reset(none); n = (unsigned)r.below(30); LE *e = room<LE>(n + 1); for (unsigned i = 0; i < n; i++) { e[i].v = (int)r.below(100); if (r.chance(1, 2)) zt_elist_add(h, &e[i].l); else zt_elist_add_tail(h, &e[i].l); } In in; for (unsigned i = 0; i < n; i++) zt_llist_push((void *)(intptr_t)r.below(80), &l); }
    void look(Rng &r, D &d, int) override { for (int k = 0; k < 20; k++) { zt_elist_t *p, *nx; switch (r.below(5)) { case 0: asked = "zt_elist_for_each"; zt_elist_for_each(h, p) d.n(zt_elist_data(p, LE, l)->v); break; case 1: asked = "zt_elist_for_each_safe"; zt_elist_for_each_safe(h, p, nx) d.n(zt_elist_data(p, LE, l)->v); break; case 2: d.n(ASK(zt_elist_empty(h))); d.n(ASK(zt_elist_empty(none))); d.n(zt_elist_get_next(h) == zt_elist_get_prev(h)); break; case 3: if (n) { d.n((uintptr_t)ASK(zt_llist_nth(l, (int)r.below(n)))); zt_llist t = ASK(zt_llist_nthtail(l, (int)r.below(n))); d.n(t ? (uintptr_t)zt_llist_head(t) : 0); } break; case 4: { zt_llist c = ASK(zt_llist_reverse(l)); zt_llist x = ASK(zt_llist_cons((void *)5, l)); d.n((uintptr_t)zt_llist_head(x)); free(x); c = zt_llist_sort(c, lcmp); for (zt_llist y = c; y; y = zt_llist_tail(y)) d.n((uintptr_t)zt_llist_head(y)); zt_llist_free(c); break; } } } } };
struct Arrays : Scene {
    zt_ptr_array *p, *to[NTH]; zt_array_t a, b[NTH]; size_t es; char *src; uint32_t n;
    void build(Rng &r) override { for (auto &x : to) x = zt_ptr_array_init(NULL, NULL); es = 1 + r.below(9); for (auto &x : b) x = zt_array_new(4, es); In in; p = zt_ptr_array_init(NULL, NULL); n = (uint32_t)r.below(90); for (uint32_t i = 0; i < n; i++) zt_ptr_array_add(p, given(std::to_string(r.below(1000)))); a = zt_array_new(1 + r.below(30), es); for (size_t i = 0; i < zt_array_length(a); i++) zt_array_put(a, i, given(r.bytes(es))); src = given(r.bytes(es * 8)); }
    void look(Rng &r, D &d, int th) override { for (int k = 0; k < 40; k++) switch (r.below(7)) { case 0: if (n) d.s((char *)ASK(zt_ptr_array_get_idx(p, (int32_t)r.below(n)))); d.n(zt_ptr_array_length(p)); d.n(zt_ptr_array_is_full(p)); break; case 1: { std::vector<char *> o(n + 1); d.n(ASK(zt_ptr_array_copy_data(p, o.data()))); for (uint32_t i = 0; i < n; i++) d.s(o[i]); break; } case 2: if (zt_ptr_array_length(to[th]) < 500) d.n(ASK(zt_ptr_array_cat(to[th], p))); d.n(zt_ptr_array_length(to[th])); break; case 3: { size_t i = r.below(ASK(zt_array_length(a))); d.b(ASK(zt_array_get(a, i)), es); char o[16]; d.n(ASK(zt_array_elem_copy(a, i, o)) != NULL); d.b(o, es); d.n(ASK(zt_array_size(a))); break; } case 4: { zt_array_t c = ASK(zt_array_copy(a, r.below(zt_array_length(a) + 1))); d.n(zt_array_length(c)); if (zt_array_length(c)) d.b(zt_array_data(c), zt_array_length(c) * es); zt_array_free(&c); d.b(ASK(zt_array_data(a)), zt_array_length(a) * es); break; } case 5: d.n(ASK(zt_array_put(b[th], r.below(4), src)) != NULL); ASK(zt_array_set_data(b[th], src, 4, es, 1)); d.b(zt_array_data(b[th]), 4 * es); break; case 6: { zt_array_t c = ASK(zt_array_with(src, 8, es, 1)); d.b(zt_array_data(c), 8 * es); zt_array_free(&c); break; } } }
    void drop() override { for (auto x : to) zt_ptr_array_free(x, 0); for (auto &x : b) zt_array_free(&x); } };
struct Bytes : Scene {
    zt_buf_t *b, *to[NTH]; zt_bstream_t s; zt_array_t a; char *src, *text; size_t n; zt_iov_t *iov; zt_base_definition_t *def; char *enc; size_t encn; char *hex, *dig, *sha; zt_base_definition_t *defs[6];
    void build(Rng &r) override { for (auto &x : to) x = zt_buf_new(); zt_base_definition_t *D6[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; n = 1 + r.size(300); src = given(r.bytes(n)); text = given(r.str(n, "abc \t/.,0123")); hex = given(r.str(40, "0123456789abcdef")); sha = given(r.bytes(20)); dig = given(r.bytes(64)); def = room<zt_base_definition_t>(); memcpy((void *)def, (void *)D6[r.below(6)], sizeof *def); void *e = NULL; encn = 0; zt_base_encode(def, src, n, &e, &encn); enc = given(std::string((char *)e, encn)); free(e); iov = room<zt_iov_t>(3); for (int i = 0; i < 3; i++) { iov[i].iov_data = src + r.below(n); iov[i].iov_len = r.below(n - (size_t)((char *)iov[i].iov_data - src) + 1); } In in; b = zt_buf_new(); zt_buf_add(b, src, n); if (r.chance(1, 2)) zt_buf_drain(b, r.below(n)); s = zt_bstream_new(); for (int i = 0; i < 20; i++) zt_bstream_write_uint32(s, (uint32_t)r.u64()); zt_bstream_rewind(s); a = zt_array_with(src, n, 1, 1); }
    void look(Rng &r, D &d, int th) override { for (int k = 0; k < 40; k++) switch (r.below(12)) {
        case 0: d.b(ASK(zt_buf_get(b)), ASK(zt_buf_length(b))); d.n(ASK(zt_buf_unused_sz(b))); break;
        case 1: d.n(ASK(zt_buf_add(to[th], src, n))); d.n(ASK(zt_buf_iov_len(iov, 3))); d.n(ASK(zt_buf_iov_add(to[th], iov, 3))); d.b(zt_buf_get(to[th]), zt_buf_length(to[th])); zt_buf_drain(to[th], zt_buf_length(to[th])); break;
        case 2: { d.n(ASK(zt_bstream_is_empty(s))); zt_bstream_t c = ASK(zt_bstream_clone(s)); uint32_t v = 0; for (int i = 0; i < 20; i++) { zt_bstream_read_uint32(c, &v); d.n(v); } zt_bstream_free(&c); break; }
        case 3: { zt_bstream_t c = zt_bstream_new(); d.n(ASK(zt_bstream_write(c, src, n, 1, 0))); ASK(zt_bstream_set_data(c, src, (int)n, 1)); zt_bstream_rewind(c); char o; zt_bstream_read_byte(c, &o); d.n(o); zt_bstream_free(&c); break; }
        case 4: d.n(ASK(zt_array_length(a))); d.b(ASK(zt_array_data(a)), n); break;
        case 5: { void *e = NULL; size_t en = 0; d.n(ASK(zt_base_encode(def, src, n, &e, &en))); d.b(e, en); free(e); break; }
        case 6: { void *e = NULL; size_t en = 0; d.n(ASK(zt_base_decode(def, enc, encn, &e, &en))); d.b(e, en); free(e); e = NULL; en = 0; d.n(ASK(zt_base_decode(def, text, n, &e, &en))); free(e); break; }
        case 7: { uint8_t g[20]; char tx[41]; zt_sha1_ctx c; zt_sha1_init(&c); ASK(zt_sha1_update(&c, (uint8_t *)src, n)); zt_sha1_finalize(&c, g); d.b(g, 20); ASK(zt_sha1_data(src, n, g)); d.b(g, 20); d.s(ASK(zt_sha1_tostr((uint8_t *)sha, tx))); d.n(ASK(zt_str_tosha1(hex, g)) != NULL); d.b(g, 20); break; }
        case 8: d.n(ASK(zt_hash32_buff(src, n, 5))); d.n(ASK(zt_hash32_cstr((uint8_t *)text, 7))); d.n(ASK(zt_hash64_buff(src, n, 9))); d.n(ASK(zt_hash64_cstr((uint8_t *)text, 11))); break;
        case 9: { char o[700]; size_t m = ASK(zt_binary_to_hex(src, n, o, sizeof o)); d.b(o, m); memset(o, 0, 30); d.n(ASK(zt_hex_to_binary(hex, 40, o, sizeof o))); d.b(o, 20); break; }
        case 10: ASK(zt_hexdump_str(src, n, [](void *c, size_t ad, char *h, char *t) { D *x = (D *)c; x->n(ad); x->s(h); x->s(t); return h ? (int)strlen(h) : 0; }, &d)); break;
        case 11: { zt_random_state st; memset(&st, 0, sizeof st); ASK(zt_random_initstate(&st, (uint32_t *)dig, 8)); d.n(zt_random_uint32(&st)); break; } } }
    void drop() override { for (auto x : to) zt_buf_free(x); } };
struct Text : Scene {
    char *s, *t, *set, *f, *path, *trig, *delims; size_t sn;
    void build(Rng &r) override { std::string a = r.str(r.below(60), "abc ,/.\n\t"); sn = a.size(); s = given(a); t = given(r.str(r.below(6), "abc ,/")); set = given(r.str(1 + r.below(4), "abc,/ ")); delims = given(r.str(1 + r.below(3), ",/ ")); f = given("<%s|%-9.4s|%5d%%|%x>"); path = given(std::string(scratch()) + "/p/q/" + r.str(3, "rs")); trig = given("no-such-thing"); }
    void look(Rng &r, D &d, int th) override { for (int k = 0; k < 40; k++) { ssize_t i = sn ? (ssize_t)r.below(2 * sn) - (ssize_t)sn : 0, j = sn ? (ssize_t)r.below(2 * sn) - (ssize_t)sn : 0; switch (r.below(16)) {
        case 0: d.t(ASK(zt_cstr_sub(s, i, j))); d.t(ASK(zt_cstr_dup(s, i, j, 1 + (ssize_t)r.below(3)))); break;
        case 1: d.t(ASK(zt_cstr_cat(s, 0, -1, t, 0, -1))); d.t(ASK(zt_cstr_catv(s, 0, -1, t, 0, -1, NULL))); break;
        case 2: d.t(ASK(zt_cstr_reverse(s, i, j))); d.t(ASK(zt_cstr_map(s, 0, -1, "abc", "xyz"))); break;
        case 3: d.n(ASK(zt_cstr_pos(s, i))); d.n(ASK(zt_cstr_len(s, i, j))); d.n(ASK(zt_cstr_cmp(s, i, j, t, 0, -1))); break;
        case 4: d.n(ASK(zt_cstr_chr(s, 0, -1, ','))); d.n(ASK(zt_cstr_rchr(s, 0, -1, 'a'))); break;
        case 5: d.n(ASK(zt_cstr_upto(s, 0, -1, set))); d.n(ASK(zt_cstr_rupto(s, 0, -1, set))); d.n(ASK(zt_cstr_any(s, 0, -1, set))); d.n(ASK(zt_cstr_rany(s, 0, -1, set))); break;
        case 6: d.n(ASK(zt_cstr_find(s, 0, -1, t))); d.n(ASK(zt_cstr_rfind(s, 0, -1, t))); break;
        case 7: d.n(ASK(zt_cstr_rspn(s, set))); d.n(ASK(zt_cstr_rcspn(s, set))); d.n(ASK(zt_cstr_abspath(s))); break;
        case 8: { char o[80]; d.s(ASK(zt_cstr_basename(o, sizeof o, s, t))); d.s(ASK(zt_cstr_dirname(o, sizeof o, s))); break; }
        case 9: d.t(ASK(zt_cstr_path_append(s, t))); break;
        case 10: { char o[80]; memset(o, 0, sizeof o); d.n(ASK(zt_cstr_copy(s, 0, -1, o, sizeof o))); d.s(o); break; }
        case 11: { zt_ptr_array *p = ASK(zt_cstr_split(s, delims)); if (p) { for (int32_t q = 0; q < p->count; q++) d.s((char *)p->array[q]); zt_cstr_split_free(p); } break; }
        case 12: { zt_ptr_array *p = ASK(zt_cstr_cut(s, ',', (int)r.below(2))); if (p) { for (int32_t q = 0; q < p->count; q++) d.s((char *)p->array[q]); zt_cstr_cut_free(p); } p = ASK(zt_cstr_tok(s, ' ', 0)); if (p) { for (int32_t q = 0; q < p->count; q++) d.s((char *)p->array[q]); zt_cstr_split_free(p); } break; }
        case 13: { char o[300]; d.n(ASK(zt_fmt_sprintf(o, sizeof o, f, s, t, (int)i, (unsigned)j))); d.s(o); d.t(ASK(zt_fmt_strprintf(f, t, s, (int)j, 7u))); break; }
        case 14: d.n(ASK(zt_path_exists(path))); d.t(ASK(zt_find_basedir(path, trig))); if (th == 0 && k == 0) ASK(zt_mkdir(path, 0755, (zt_mkdir_flags)0)); break;
        case 15: { zt_ez_mempool *p = zt_ez_mempool_init(NULL); d.s(ASK(zt_ez_mempool_strdup(p, s))); zt_ez_mempool_destroy(p); break; } } } } };
struct Ids : Scene {
    zt_uuid_t *u; char *str[4], *cap[2]; char *bad, *name; char *net[12]; zt_ipv4_tbl *t; zt_ipv4_node *nd[4]; struct timeval *tv; struct time_result *tr; char *ips[4];
    void build(Rng &r) override { u = room<zt_uuid_t>(2); name = given(r.str(12, "abc")); zt_uuid5(name, 12, UUID_NS_DNS, &u[0]); zt_uuid5(name, 9, UUID_NS_URL, &u[1]); for (int i = 0; i < 4; i++) { char *s = NULL; zt_uuid_tostr(&u[0], &s, (zt_uuid_flags_t)i); str[i] = given(s); free(s); } bad = given("6ba7b810-9dad-11d1-80b4-00c04fd430cX"); for (int i = 0; i < 2; i++) { std::string c = str[i]; for (char &x : c) x = (char)toupper(x); cap[i] = given(c); } for (auto &x : net) { char b[40]; snprintf(b, sizeof b, "10.%u.%u.%u/%u", (unsigned)r.below(3), (unsigned)r.below(3), (unsigned)r.below(4), 8 + (unsigned)r.below(25)); x = given(b); } for (auto &x : ips) { char b[40]; snprintf(b, sizeof b, "10.%u.%u.%u", (unsigned)r.below(3), (unsigned)r.below(3), (unsigned)r.below(256)); x = given(b); } tv = room<struct timeval>(2); for (int i = 0; i < 2; i++) { tv[i].tv_sec = (long)r.below(1000); tv[i].tv_usec = (long)r.below(1000000); } tr = room<struct time_result>(); tr->usr_time = tv[0]; tr->sys_time = tv[1]; /* nodes of all tables share pools, which lookups use too */ t = zt_ipv4_tbl_init((uint32_t)1 << r.below(8)); for (int i = 0; i < 8; i++) zt_ipv4_tbl_add_frm_str(t, net[i]); for (auto &x : nd) x = zt_ipv4_node_str_init(net[r.below(12)]); }
    void look(Rng &r, D &d, int) override { for (int k = 0; k < 40; k++) switch (r.below(8)) {
        case 0: { int f = (int)r.below(4); char *s = NULL; d.n(ASK(zt_uuid_tostr(&u[r.below(2)], &s, (zt_uuid_flags_t)f))); d.t(s); char b[60]; size_t bn = sizeof b; d.n(ASK(zt_uuid_fillstr(&u[0], b, &bn, (zt_uuid_flags_t)f))); d.s(b); break; }
        case 1: { int f = (int)r.below(4); zt_uuid_t v; memset(&v, 0, sizeof v); d.n(ASK(zt_uuid_fromstr(str[f], &v, (zt_uuid_flags_t)f))); d.n(ASK(zt_uuid_cmp(&u[0], &v))); d.n(ASK(zt_uuid_cmp(&u[0], &u[1]))); d.n(ASK(zt_uuid_isvalid(str[f], (zt_uuid_flags_t)f))); d.n(ASK(zt_uuid_isvalid(bad, zt_uuid_std_fmt))); f = (int)r.below(2); d.n(ASK(zt_uuid_isvalid(cap[f], (zt_uuid_flags_t)f))); d.n(ASK(zt_uuid_fromstr(cap[f], &v, (zt_uuid_flags_t)f))); d.b(&v, 16); break; }
        case 2: { zt_uuid_t v; d.n(ASK(zt_uuid5(name, 12, (zt_uuid_ns)r.below(4), &v))); d.b(&v, 16); break; }
        case 3: { zt_ipv4_node *n = ASK(zt_ipv4_tbl_search_from_str(t, net[r.below(12)])); d.n(n ? n->addr->addr + n->addr->bitlen : 1); break; }
        case 4: { zt_ipv4_node *n = ASK(zt_ipv4_tbl_search_node(t, nd[r.below(4)])); d.n(n ? n->addr->addr + n->addr->bitlen : 1); d.n(ASK(ipv4_tbl_addr_cmp(nd[0]->addr, nd[1]->addr))); break; }
        case 5: { uint32_t a = 0; int bl = 0; d.n(ASK(zt_ipv4_str2net(net[r.below(12)], &a, &bl))); d.n(a); d.n(bl); d.n(ASK(zt_ipv4_ip2int(ips[r.below(4)])));
#ifndef TSAN
           zt_ipv4_addr *x = ASK(zt_ipv4_addr_frm_str(net[r.below(12)])); d.n(x ? x->mask : 0); if (x) zt_mem_pool_release((void **)&x); // (giving one back is not for several threads)
#endif
            break; }
        case 6: { struct timeval o; ASK(zt_add_time(&o, &tv[0], &tv[1])); d.n(o.tv_sec); d.n(o.tv_usec); ASK(zt_sub_time(&o, &tv[0], &tv[1])); d.n(o.tv_sec); d.n(o.tv_usec); ASK(zt_diff_time(&o, &tv[1], &tv[0])); d.n(o.tv_usec); d.n(ASK(zt_cmp_time(&tv[0], &tv[1])) > 0); break; }
        case 7: { float a, b, c; ASK(zt_time_result_to_elapsed(tr, &a, &b, &c)); d.b(&a, 4); d.b(&b, 4); d.b(&c, 4); break; } } }
    void drop() override { zt_ipv4_tbl_destroy(t); } };
static int no_err(int, char *, ...) { return -1; }
struct Settings : Scene {
    zt_cfg_ty *c; zt_opt_def_t *o; char *names[8], *blocks[3]; char *argv_[18]; char *help;
    void build(Rng &r) override { char f[300]; snprintf(f, sizeof f, "%s/c43.ini", scratch()); FILE *w = fopen(f, "w"); if (!w) harness_error("fopen"); for (int b = 0; b < 2; b++) { fprintf(w, "[block%d]\n", b); for (int i = 0; i < 6; i++) switch (r.below(5)) { case 0: fprintf(w, "v%d = %d\n", i, (int)r.u64()); break; case 1: fprintf(w, "v%d = %d.25\n", i, (int)r.below(1000)); break; case 2: fprintf(w, "v%d = \"text %u\"\n", i, (unsigned)r.below(1000)); break; case 3: fprintf(w, "v%d = %s\n", i, r.chance(1, 2) ? "true" : "no"); break; case 4: fprintf(w, "v%d = block0.v%u\n", i, (unsigned)r.below(6)); break; } } fclose(w); char *fn = given(f); { In in; c = zt_cfg_ini(fn, 0); } unlink(f); if (!c) harness_error("cfg"); for (int i = 0; i < 8; i++) names[i] = given("v" + std::to_string(i)); for (int i = 0; i < 3; i++) blocks[i] = given("block" + std::to_string(i));
        static const zt_opt_def_t T[] = {{'i', (char *)"int", (char *)"N", zt_opt_int, NULL, (char *)"an int"}, {'f', (char *)"flag", NULL, zt_opt_flag_int, NULL, (char *)"f"}, {'s', (char *)"str", (char *)"S", zt_opt_string, NULL, (char *)"s"}, {'b', (char *)"bool", (char *)"B", zt_opt_bool_int, NULL, (char *)"b"}, {'l', (char *)"long", (char *)"L", zt_opt_long, NULL, (char *)"l"}, {ZT_OPT_END()}}; o = room<zt_opt_def_t>(6); memcpy((void *)o, T, sizeof T); const char *A[] = {"prog", "-i", "12", "--int=7", "--str", "text", "-s", "x", "--bool=TRUE", "-b", "No", "-l=0x1F", "--long", "-4 ", "-ff", "--str=a=b", "--", "rest"}; for (int i = 0; i < 18; i++) argv_[i] = given(A[i]); for (int i = 0; i < 5; i++) { if (o[i].lopt) o[i].lopt = given(o[i].lopt); o[i].help = given(o[i].help); } help = given("what it does"); }
    void look(Rng &r, D &d, int th) override { for (int k = 0; k < 40; k++) { char *b = blocks[r.below(3)], *n = names[r.below(8)]; int rc; switch (r.below(6)) { case 0: { long v = 0; rc = ASK(zt_cfg_get_int(c, b, n, &v)); d.n(rc); if (rc >= 0) d.n(v); break; } case 1: { double v = 0; rc = ASK(zt_cfg_get_float(c, b, n, &v)); d.n(rc); if (rc >= 0) d.b(&v, 8); break; } case 2: { char *v = NULL; rc = ASK(zt_cfg_get_string(c, b, n, &v)); d.n(rc); if (rc >= 0) d.s(v); break; } case 3: { int v = 0; rc = ASK(zt_cfg_get_bool(c, b, n, &v)); d.n(rc); if (rc >= 0) d.n(v); break; }
        case 4: { zt_opt_def_t mine[6]; memcpy((void *)mine, (void *)o, sizeof mine); int iv = 0, fl = 0, bo = 0; long lo = 0; char *sv = NULL; mine[0].cb_data = &iv; mine[1].cb_data = &fl; mine[2].cb_data = &sv; mine[3].cb_data = &bo; mine[4].cb_data = &lo; char *av[19]; int ac = 1; av[0] = argv_[0]; static const int G[][2] = {{1, 2}, {3, 1}, {4, 2}, {6, 2}, {8, 1}, {9, 2}, {11, 1}, {12, 2}, {14, 1}, {15, 1}}; bool str = false; for (int q = 0; q < 4; q++) { const int *g = G[r.below(10)]; bool is = g[0] == 4 || g[0] == 6 || g[0] == 15; if (is && str) continue; str |= is; for (int i = 0; i < g[1]; i++) av[ac++] = argv_[g[0] + i]; } av[ac++] = argv_[16]; av[ac++] = argv_[17]; av[ac] = NULL; d.n(ASK(zt_opt_process_args(&ac, av, mine, NULL, no_err))); d.n(ac); d.n(iv); d.n(bo); d.n(lo); d.n(fl); d.s(sv); free(sv); break; }
        case 5: if (th == 0) { ASK(zt_opt_usage(argv_[0], help, o)); int used = 0; char *av[3] = {argv_[0], argv_[1], argv_[2]}; d.s(ASK(zt_opt_get_value(1, 0, av, o, &used, no_err))); ASK(zt_opt_validate_default(o, no_err)); } else d.s(argv_[2]); break; } } }
    void drop() override { zt_cfg_close(c); } };
struct GO { zt_gc_collectable_t m; GO *a; int id; };
struct Memory : Scene {
    zt_mem_pool *p; std::vector<void *> v; zt_mem_pool_group *g; zt_mem_heap *h; zt_gc_t *gc; GO *root; zt_log_ty *lg; char *nm;
    void build(Rng &r) override { nm = given("c43-pool"); In in; p = zt_mem_pool_init(nm, (ssize_t)r.below(20), 8 + r.below(90), NULL, NULL, 0); for (unsigned i = 0, n = (unsigned)r.below(40); i < n; i++) v.push_back(zt_mem_pool_alloc(p)); for (size_t i = 0; i < v.size(); i += 2) zt_mem_pool_release(&v[i]); zt_mem_pool_desc ds[2]; memset(ds, 0, sizeof ds); ds[0].name = (char *)"g0"; ds[0].elts = 4; ds[0].size = 16; ds[1].name = (char *)"g1"; ds[1].elts = 4; ds[1].size = 64; g = zt_mem_pool_group_init(ds, 2); h = zt_mem_heap_init((char *)"hp", 100); memset(zt_mem_heap_get_data(h), 1, 100);
        gc = zt_gc_init(NULL, [](zt_gc_t *g, void *, void *x) { GO *o = (GO *)x; if (o->a) zt_gc_mark(g, o->a); }, [](zt_gc_t *, void *, void **x) { *x = NULL; }, 1 + (int)r.below(4), 1 + (int)r.below(6)); root = (GO *)calloc(1, sizeof(GO)); zt_gc_prepare(gc, root); zt_gc_protect(gc, root); GO *tip = root; for (int i = 1; i < 20; i++) { GO *o = (GO *)calloc(1, sizeof(GO)); o->id = i; zt_gc_prepare(gc, o); zt_gc_register(gc, o); if (r.chance(1, 2)) { tip->a = o; zt_gc_mark(gc, o); tip = o; } } lg = zt_log_stderr(0); zt_log_set_level(lg, zt_log_err); }
    void look(Rng &r, D &d, int) override { for (int k = 0; k < 25; k++) switch (r.below(6)) { case 0: { zt_mem_pool_stats st; memset(&st, 0, sizeof st); d.n(ASK(zt_mem_pool_get_stats(p, &st))); d.n(st.actual_elts); d.n(st.pages); d.n(st.free_pages); d.n(st.page_allocs); break; } case 1: d.n(ASK(zt_mem_pool_get(nm)) == p); d.n(ASK(zt_mem_pool_get((char *)"none")) != NULL); break; case 2: ASK(zt_mem_pool_display(0, p, DISPLAY_POOL_ALL)); ASK(zt_mem_pool_group_display(2, g, DISPLAY_POOL_ALL)); ASK(zt_mem_pools_display(0, 0)); d.n(1); break; case 3: d.b(ASK(zt_mem_heap_get_data(h)), 100); d.s(ASK(zt_mem_heap_get_name(h))); break; case 4: ASK(zt_gc_for_each(gc, [](void *, void *x, int ty) { ((D *)x)->n(ty); }, &d)); break; case 5: d.n(ASK(zt_log_get_level(lg))); d.n(ASK(zt_log_get_opts(lg))); break; } }
    void drop() override { for (size_t i = 1; i < v.size(); i += 2) zt_mem_pool_release(&v[i]); zt_mem_pool_destroy(&p); zt_mem_pool_group_destroy(g); zt_mem_heap_destroy(&h); zt_gc_destroy(gc); zt_log_close(lg); } };
template <class T> static Scene *mk() { return new T; }
static const struct { const char *name; Scene *(*make)(); } SC[] = {{"table", mk<Table>}, {"set", mk<Set>}, {"tree", mk<Tree>}, {"lists", mk<Lists>}, {"arrays", mk<Arrays>}, {"bytes", mk<Bytes>}, {"text", mk<Text>}, {"ids", mk<Ids>}, {"settings", mk<Settings>}, {"memory", mk<Memory>}}; enum { NS = sizeof SC / sizeof *SC };
struct Th { Scene *s; uint64_t seed; int no; D d; std::atomic<int> *gate; }; static void *asker(void *p) { Th *t = (Th *)p; t->gate->fetch_sub(1); while (t->gate->load() > 0) sched_yield(); Rng r(t->seed); t->s->look(r, t->d, t->no); return NULL; }
void vt_case(Rng &r, uint64_t idx) {
    Quiet q; scene = SC[idx % NS].name; std::unique_ptr<Scene> s(SC[idx % NS].make()); fill = 0; arenas = NTH == 1; op("%s", scene); s->build(r); uint64_t seed = r.u64(); D d;
#ifdef TSAN
    Th t[NTH]; pthread_t id[NTH]; std::atomic<int> gate{NTH}; for (int i = 0; i < NTH; i++) { t[i] = {s.get(), seed, i, D(), &gate}; if (pthread_create(&id[i], NULL, asker, &t[i])) harness_error("pthread_create"); } for (auto i : id) pthread_join(i, NULL); d = t[0].d; for (int i = 1; i < NTH; i++) VT_CHECK(t[i].d.h == d.h, "answers", "%s: threads asking the same questions at once get different answers", scene); ev("together");
#else
    std::string before(area, fill); if (mprotect(area, AREA, PROT_READ)) harness_error("mprotect"); closed = true; { Rng a(seed); s->look(a, d, 0); } closed = false; if (mprotect(area, AREA, PROT_READ | PROT_WRITE)) harness_error("mprotect"); (void)before; ev("locked");
#endif
    ev(scene); ev("asked", d.q); evaluations(d.q); mix(d.h); nontrivial(d.q > 0); s->drop(); }
