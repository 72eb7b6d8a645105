#define HAVE_INTTYPES_H 1
#include "ztc.hpp"
#include <inttypes.h>
#include <atomic>
#include <memory>
#include <sys/wait.h>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_unit.h>
#include <libzt/zt_threads.h>
uint64_t zt_hash64_buff(void *buf, size_t len, uint64_t init);
uint64_t zt_hash64_cstr(const uint8_t *buf, uint64_t init);
}
using namespace vt;
// A callback may use the library: from inside every callback, now and then, a whole workload of another (or the same) kind is run,
// up to three deep.  Every digest must be what the same workload gives when nothing is nested.
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
static void nest();
#define USER_CONVERSION "K"
#include "kinds.inc"
// a user's conversion that formats into the same sink with the library
static size_t conv(int, void *value, zt_fmt_put_f put, void *cl, unsigned char flags[256], ssize_t width, ssize_t prec) { nest(); size_t n = zt_fmt_format(put, cl, "<%d %-*d>", *(int *)value, width > 0 ? (int)width : 1, 5); nest(); return n + zt_fmt_format(put, cl, "(%d%d%d %d %d)", flags['-'], flags['+'], flags['0'], (int)width, (int)prec); }
// test runs
struct UD { D *d; unsigned setups, teardowns; int mode; };
static void u_pass(struct zt_unit_test *t, void *p) { UD *u = (UD *)p; nest(); for (int i = 0; i <= u->mode; i++) ZT_UNIT_ASSERT(t, i >= 0); nest(); }
static void u_fail(struct zt_unit_test *t, void *p) { UD *u = (UD *)p; nest(); ZT_UNIT_ASSERT(t, u != NULL); ZT_UNIT_ASSERT(t, u->mode < 0); }
static void u_data(struct zt_unit_test *t, void *p) { UD *u = (UD *)p; unsigned s = u->setups; nest(); ZT_UNIT_ASSERT_EQUAL(t, s, u->setups); ZT_UNIT_ASSERT_EQUAL(t, u->teardowns + 1, u->setups); }
static void w_unit(Rng &r, D &d) {
    struct zt_unit *u = zt_unit_init(); UD ud = {&d, 0, 0, (int)r.below(4)}; struct zt_unit_suite *s = zt_unit_register_suite_(u, "own", [](void *p) { nest(); ((UD *)p)->setups++; }, [](void *p) { nest(); ((UD *)p)->teardowns++; }, &ud, zt_unit_try_cpp);
    std::vector<struct zt_unit_test *> T; for (unsigned i = 0, n = 1 + r.below(4); i < n; i++) switch (r.below(4)) { case 0: case 1: T.push_back(zt_unit_register_test(s, "pass", u_pass)); break; case 2: T.push_back(zt_unit_register_test(s, "fail", u_fail)); break; case 3: T.push_back(zt_unit_register_test(s, "data", u_data)); break; }
    d.n(zt_unit_run(u)); for (auto t : T) { d.n(t->success); d.n(t->assertions); d.n(t->exceptions); d.s(t->success ? NULL : t->error); } d.n(s->succeeded); d.n(s->failed); d.n(s->assertions); d.n(ud.setups); d.n(ud.teardowns); zt_unit_release(&u);
}
static const Kind OWN[] = {{"unit", w_unit}};
enum { NK = sizeof KINDS / sizeof *KINDS - 1, NALL = NK + 1 };
static const Kind &kind(int k) { return k < NK ? KINDS[k] : OWN[0]; }
static std::vector<int> order, planned; static std::vector<std::pair<int, int>> plan; static int made;
static void at_check() { if (order != planned) { fprintf(stderr, "%zu exit functions ran, %zu were registered, or in another order", order.size(), planned.size()); _exit(9); } }
struct Rec { int k, in, depth; uint64_t seed, digest; };
static std::vector<Rec> recs; static bool on; static unsigned depth, budget; static int inside[8]; static uint64_t wait_, span; static Rng *nr;
static uint64_t work(int k, uint64_t seed) { Rng r(seed); D d; inside[depth] = k; kind(k).w(r, d); return d.h; }
static void nest() {
    if (!on || depth >= 3 || !budget || --wait_) return;
    wait_ = 1 + nr->below(span); budget--; int in = inside[depth], k = nr->chance(1, 2) ? in : (int)nr->below(NALL); uint64_t s = nr->u64(); unsigned keep = th_no; depth++; th_no = depth; if (depth < 3 && nr->chance(1, 3)) wait_ = 1 + nr->below(10);
    uint64_t g = work(k, s); th_no = keep; depth--; recs.push_back({k, in, (int)depth + 1, s, g});
}
// objects that are held when the program is left serve the exit functions that use them, whenever those were registered
static struct { zt_table *t; zt_mem_pool *p, *q; zt_set *s; zt_ez_mempool *e; std::vector<void *> live; unsigned nt, ns; size_t sz; uint64_t seed; } H; static bool held;
#define HELD(c) do { if (!(c)) { fprintf(stderr, "in an exit function: %s\n", #c); _exit(9); } } while (0)
static void use_held() {
    if (held) return; held = true; Rng r(H.seed); for (unsigned i = 0; i < H.nt; i++) HELD(zt_table_get(H.t, (void *)(intptr_t)(i + 1), sizeof(int)) == (void *)(intptr_t)(i + 5)); for (unsigned i = 0; i < 5; i++) HELD(!zt_table_set(H.t, (void *)(intptr_t)(1000 + i), sizeof(int), (void *)1, 0)); HELD(zt_table_get(H.t, (void *)1003, sizeof(int)) == (void *)1); zt_table_destroy(H.t);
    for (size_t i = 0; i < H.live.size(); i++) for (size_t j = 0; j < H.sz; j++) HELD(((unsigned char *)H.live[i])[j] == (unsigned char)i); for (unsigned i = 0; i < 9; i++) { void *x = zt_mem_pool_alloc(H.p); HELD(x); memset(x, 1, H.sz); H.live.push_back(x); } for (auto x : H.live) zt_mem_pool_release(&x); HELD(zt_mem_pool_destroy(&H.p) == 0 && H.p == NULL); zt_mem_pool_stats st; HELD(zt_mem_pool_get_stats(H.q, &st) == ZT_PASS); HELD(zt_mem_pool_destroy(&H.q) == 0);
    HELD(zt_set_size(H.s) == H.ns); for (unsigned i = 0; i < 20; i++) HELD(!!zt_set_is_member(H.s, "abcdefghijklmnopqrstuvwxyz" + i, 1) == (i < H.ns)); HELD(zt_set_insert(H.s, "z", 1) >= 0 && zt_set_is_member(H.s, "z", 1)); zt_set_destroy(H.s); char *c = zt_ez_mempool_strdup(H.e, "late"); HELD(!strcmp(c, "late")); zt_ez_mempool_destroy(H.e);
    for (int i = 0; i < 3; i++) { int k = (int)r.below(NK); uint64_t w = r.u64(); depth = 0; HELD(work(k, w) == work(k, w)); }
}
static void hold(uint64_t seed) {
    Rng r(seed); H.seed = r.u64(); int when = (int)r.below(4); if (when & 1) atexit(use_held); if (when & 2) zt_atexit([](void *) { use_held(); }, NULL);
    H.t = zt_table_init((char *)"held", zt_table_hash_int, zt_table_compare_int, r.below(40), 0, NULL); H.nt = r.chance(1, 2) ? 0 : 1 + (unsigned)r.below(9); for (unsigned i = 0; i < H.nt; i++) zt_table_set(H.t, (void *)(intptr_t)(i + 1), sizeof(int), (void *)(intptr_t)(i + 5), 0);
    H.sz = 1 + r.below(80); H.p = zt_mem_pool_init((char *)"held", (ssize_t)r.below(20), H.sz, NULL, NULL, 0); H.q = zt_mem_pool_init((char *)"empty", (ssize_t)r.below(20), 8, r.chance(1, 2) ? always : NULL, NULL, 0); for (unsigned i = 0, n = r.chance(1, 2) ? 0 : 1 + (unsigned)r.below(200); i < n; i++) { void *x = zt_mem_pool_alloc(H.p); memset(x, (int)i, H.sz); H.live.push_back(x); } if (r.chance(1, 3)) { for (auto x : H.live) zt_mem_pool_release(&x); H.live.clear(); }
    H.s = zt_set_init(sm, NULL, NULL); H.ns = r.chance(1, 2) ? 0 : (unsigned)r.below(20); for (unsigned i = 0; i < H.ns; i++) zt_set_insert(H.s, "abcdefghijklmnopqrstuvwxyz" + i, 1); H.e = zt_ez_mempool_init(NULL); zt_ez_mempool_strdup(H.e, "early"); if (!when) zt_atexit([](void *) { use_held(); }, NULL); exit(0);
}
void vt_init() { if (const char *e = getenv("VT_HOLD")) { scratch(); zt_fmt_register('K', conv, 'i'); hold(strtoull(e, NULL, 10)); } Quiet q; atexit(at_check); scratch(); if (!freopen("/dev/null", "w", stdout)) harness_error("freopen"); zt_fmt_register('K', conv, 'i'); recs.reserve(4096); }
// exit functions that use the library and register further exit functions
static void at(void *p) { int id = (int)(intptr_t)p; order.push_back(id); on = true; wait_ = 1; budget = 1; depth = 0; inside[0] = id % NALL; nest(); on = false; for (auto &x : plan) if (x.first == id && made < 40) zt_atexit(at, (void *)(intptr_t)(1000 + made++ * 8 + x.second)); }

void vt_case(Rng &r, uint64_t idx) {
    int k = (int)(idx % NALL); uint64_t seed = r.u64(); Rng own(r.u64()); nr = &own; recs.clear(); span = strstr("opts pool time ez", kind(k).name) || r.chance(1, 3) ? 3 : r.chance(1, 2) ? 30 : 300; wait_ = 1 + r.below(span); budget = 1 + (unsigned)r.below(24); depth = 0; th_no = 0; op("%s, a nested run about every %u callbacks, at most %u", kind(k).name, (unsigned)span, budget);
    on = true; uint64_t got = work(k, seed); on = false; nontrivial(!recs.empty()); mix(got);
    uint64_t want = work(k, seed); VT_CHECK(got == want, "outer", "a %s workload whose callbacks ran %zu workloads of their own (first %s) gave %016" PRIx64 ", without them %016" PRIx64, kind(k).name, recs.size(), recs.empty() ? "none" : kind(recs[0].k).name, got, want);
    for (auto &x : recs) { evaluations(1); mix(x.digest); th_no = x.depth; uint64_t w = work(x.k, x.seed); th_no = 0; VT_CHECK(w == x.digest, "inner", "a %s workload run from a callback of a %s workload (depth %d) gave %016" PRIx64 ", by itself %016" PRIx64, kind(x.k).name, kind(x.in).name, x.depth, x.digest, w); { Quiet q; ev((std::string("in.") + kind(x.in).name).c_str()); if (x.k == x.in) ev((std::string("same.") + kind(x.in).name).c_str()); if (x.depth == 3) ev("depth.3"); } }
    recs.clear();
    if (idx % 40 == 11) { Quiet q; std::string err; unsigned n = 1 + r.below(4); uint64_t ps = r.u64(); int st = run_forked([&] { made = 0; Rng pr(ps); for (unsigned i = 0; i < n; i++) plan.push_back({(int)pr.below(n), (int)pr.below(8)}); std::vector<int> expect; std::vector<int> stack; for (unsigned i = 0; i < n; i++) stack.push_back((int)i); int m = 0; while (!stack.empty()) { int id = stack.back(); stack.pop_back(); expect.push_back(id); for (auto &x : plan) if (x.first == id && m < 40) stack.push_back(1000 + m++ * 8 + x.second); }
            planned = expect; for (unsigned i = 0; i < n; i++) zt_atexit(at, (void *)(intptr_t)i); exit(0); }, &err);
        VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "atexit", "exit functions that register exit functions: status %x %s", st, err.substr(0, 1500).c_str()); ev("atexit"); }
#ifndef MEMCHECK
    if (idx % 40 == 31) { Quiet q; std::string err; uint64_t hs = r.u64(); int st = run_forked([&] { char b[40]; snprintf(b, sizeof b, "%" PRIu64, hs); setenv("VT_HOLD", b, 1); execl("/proc/self/exe", "c38", "--from", "0", "--to", "0", (char *)NULL); _exit(8); }, &err);
        VT_CHECK(st == 0, "held", "objects held when the program is left, used by an exit function: status %x %s", st, err.substr(0, 1800).c_str()); ev("held"); }
#endif
}
