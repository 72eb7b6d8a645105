#define HAVE_INTTYPES_H 1
#include "ztc.hpp"
#include <inttypes.h>
#include <atomic>
#include <memory>
#include <sys/wait.h>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_opts.h>
uint64_t zt_hash64_buff(void *buf, size_t len, uint64_t init);
uint64_t zt_hash64_cstr(const uint8_t *buf, uint64_t init);
}
using namespace vt;
// the digest of a workload must not depend on what other threads do.  Nothing in the workloads may synchronise threads.
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
static inline void nest() {}
#include "kinds.inc"
enum { NK = sizeof KINDS / sizeof *KINDS, ATEXIT = NK - 1 };
struct Unit { int kind; uint64_t seed, digest; };
struct Thr { std::vector<Unit> u; unsigned no; pthread_barrier_t *bar; std::vector<std::string> ids; };
static void run(std::vector<Unit> &u) { for (auto &x : u) { Rng r(x.seed); D d; KINDS[x.kind].w(r, d); x.digest = d.h; } }
static void *body(void *p) { Thr *t = (Thr *)p; th_no = t->no; uuids[t->no] = &t->ids; pthread_barrier_wait(t->bar); run(t->u); return NULL; }
static std::atomic<uint64_t> started{0};
static void *watchdog(void *) { for (;;) { usleep(300000); uint64_t t = started.load(); if (t && now_ms() - t > 60000) fail("stuck", "threads working on objects of their own did not finish within a minute"); } return NULL; }
void vt_init() { Quiet q; scratch(); pthread_t t; pthread_create(&t, NULL, watchdog, NULL); pthread_detach(t); }

void vt_case(Rng &r, uint64_t idx) {
    Quiet q; unsigned nt = 2 + r.below(5); int style = (int)r.below(3); std::vector<Thr> T(nt); std::vector<int> ks; int k0 = (int)(idx % (NK - 1)), k1 = (int)r.below(NK - 1); unsigned per = style == 0 ? 2 + r.below(4) : 3 + r.below(8);
    for (unsigned i = 0; i < nt; i++) { T[i].no = i; for (unsigned j = 0; j < per; j++) { int k = style == 0 ? k0 : style == 1 ? (r.chance(1, 2) ? k0 : k1) : (int)r.below(NK - 1); T[i].u.push_back({k, r.chance(1, 3) && i && j < T[0].u.size() && style == 0 ? T[0].u[j].seed : r.u64(), 0}); } }
    op("%u threads, %u units each, %s %s%s%s", nt, per, style == 0 ? "all" : style == 1 ? "a mix of" : "any kind, first", KINDS[k0].name, style == 1 ? " and " : "", style == 1 ? KINDS[k1].name : "");
    pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, nt); std::vector<pthread_t> p(nt); started = now_ms(); for (unsigned i = 0; i < nt; i++) { T[i].bar = &bar; if (pthread_create(&p[i], NULL, body, &T[i])) harness_error("pthread_create"); } for (auto t : p) pthread_join(t, NULL); pthread_barrier_destroy(&bar); started = 0; for (auto &x : uuids) x = NULL;
    std::set<std::string> ids; size_t nid = 0; for (auto &t : T) for (auto &s : t.ids) { nid++; ids.insert(s); } VT_CHECK(ids.size() == nid, "uuid-repeated", "%zu random identifiers made by %u threads, %zu distinct", nid, nt, ids.size()); if (nid) ev("ids.distinct", nid);
    for (auto &t : T) { std::vector<Unit> u = t.u; th_no = t.no; run(u); for (size_t j = 0; j < u.size(); j++) { evaluations(1); mix(u[j].digest); ev(KINDS[u[j].kind].name); VT_CHECK(u[j].digest == t.u[j].digest, "interference", "a %s workload (thread %u, unit %zu) gave %016" PRIx64 " next to other threads and %016" PRIx64 " alone", KINDS[u[j].kind].name, t.no, j, t.u[j].digest, u[j].digest); } }
    th_no = 0; ev("threads", nt);
    if (idx % 16 == 5) { // registrations of exit functions from several threads, in a process of their own
        std::string err; int st = run_forked([&] { exits = 0; zt_atexit([](void *) { if (exits.load() != want_exits) { fprintf(stderr, "lost %u of %u", want_exits - exits.load(), want_exits); _exit(9); } }, NULL); want_exits = nt * 3 * 4; std::vector<Thr> A(nt); pthread_barrier_t b2; pthread_barrier_init(&b2, NULL, nt); std::vector<pthread_t> q2(nt); for (unsigned i = 0; i < nt; i++) { A[i].no = i; A[i].bar = &b2; for (int j = 0; j < 4; j++) A[i].u.push_back({ATEXIT, 1, 0}); if (pthread_create(&q2[i], NULL, body, &A[i])) _exit(8); } for (auto t : q2) pthread_join(t, NULL); exit(0); }, &err);
        VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, err.find("ThreadSanitizer") != std::string::npos ? "atexit-race" : "atexit", "exit functions registered by %u threads: status %x %s", nt, st, err.substr(0, 1500).c_str()); ev("atexit", nt); }
}
