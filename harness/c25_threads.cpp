#include "ztc.hpp"
#include <pthread.h>
#include <fcntl.h>
#include <atomic>
#include <memory>
#include <sys/resource.h>
#include <sys/wait.h>
extern "C" {
#include <libzt/zt_threads.h>
}
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
// ---- a case that does not end: every case takes milliseconds, the watchdog allows half a minute
static std::atomic<uint64_t> case_started{0}; static std::atomic<const char *> phase{""};
static void *watchdog(void *) { for (;;) { usleep(200000); uint64_t t = case_started.load(); if (t && now_ms() - t > 40000) fail("stuck", "no end after 40 s while %s", phase.load()); } return NULL; }
// ---- schedule perturbation through the library's own callback tables
static struct zt_threads_lock_callbacks LK; static struct zt_threads_cond_callbacks CK; static struct zt_threads_cntrl_callbacks TK; static unsigned perturb; static std::atomic<uint64_t> tick{1};
static void jitter(unsigned lim) { if (!perturb) return; uint64_t z = tick.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed); z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 29; switch (z % 8) { case 0: sched_yield(); break; case 1: if (perturb > 1) usleep((z >> 8) % lim); break; case 2: for (volatile unsigned i = 0; i < (z >> 8) % 300; i++) ; break; } }
static int p_lock(int m, zt_threads_mutex *l) { jitter(30); int r = LK.lock(m, l); jitter(20); return r; }
static int p_unlock(int m, zt_threads_mutex *l) { jitter(20); int r = LK.unlock(m, l); jitter(30); return r; }
static int p_signal(zt_threads_cond *c, int b) { jitter(20); return CK.signal(c, b); }
static int p_wait(zt_threads_cond *c, zt_threads_mutex *l, struct timeval *t) { if (perturb > 1) { jitter(200); } else jitter(30); return CK.wait(c, l, t); }
static std::atomic<int> start_count{0}; static int start_fails = -1; static std::atomic<int> joined{0};
static int p_start(zt_threads_thread *t, zt_threads_attr *a, void *(*f)(void *), void *arg) { int n = start_count.fetch_add(1); if (n == start_fails || start_fails == -2) return -1; return TK.start(t, a, f, arg); }
static int p_join(zt_threads_thread *t, void **d) { int r = TK.join(t, d); if (r == 0) joined++; return r; }
// ---- the pool's callbacks
struct Item { unsigned id; bool out, fin; unsigned children; Item *kids; std::atomic<int> in{0}, outn{0}, finn{0}; std::atomic<int> late{0}; };
static std::atomic<int> inits{0}, exits{0}, bad{0}; static std::atomic<long> seq{0}; static pthread_key_t key; static std::vector<unsigned> in_order, out_order; static bool record_order; static zt_threadpool *POOL; static std::atomic<long> processed{0};
static void on_thread_exit(void *) { exits++; }
static char INITDATA;
static void *cb_init(void *arg) { if (arg != POOL) bad++; pthread_setspecific(key, &INITDATA); inits++; return &INITDATA; }
static void *cb_in(void *init, void *data) { Item *i = (Item *)data; if (init != &INITDATA) bad++; if (!i) return NULL; i->in++; jitter(50); if (record_order) in_order.push_back(i->id); for (unsigned k = 0; k < i->children; k++) if (zt_threadpool_insert_iput(POOL, &i->kids[k])) bad++; processed++; return i->out ? i : NULL; }
static void *cb_out(void *init, void *data) { Item *i = (Item *)data; if (init != &INITDATA) bad++; i->outn++; jitter(50); if (record_order) out_order.push_back(i->id); return i->fin ? i : NULL; }
static void cb_fin(void *init, void *data) { Item *i = (Item *)data; if (init != &INITDATA) bad++; i->finn++; }
struct Prod { std::vector<Item *> in, out; pthread_barrier_t *bar; std::atomic<bool> *killing; };
static void *produce(void *p) { Prod *x = (Prod *)p; pthread_barrier_wait(x->bar); size_t n = x->in.size() > x->out.size() ? x->in.size() : x->out.size(); for (size_t k = 0; k < n; k++) { if (k < x->in.size()) { if (zt_threadpool_insert_iput(POOL, x->in[k])) bad++; if (x->killing->load()) x->in[k]->late = 1; } if (k < x->out.size()) { if (zt_threadpool_insert_oput(POOL, x->out[k])) bad++; if (x->killing->load()) x->out[k]->late = 1; } jitter(60); } return NULL; }
struct Reader { bool pipe; std::atomic<bool> *done; std::vector<Item *> got; long nulls = 0, bytes = 0; pthread_barrier_t *bar; bool early_null = false; std::atomic<bool> *killing; };
static void *readout(void *p) { Reader *x = (Reader *)p; pthread_barrier_wait(x->bar); for (;;) { bool last = x->done->load(); if (x->pipe) { char c; ssize_t n = read(zt_threadpool_oput_fd_reader(POOL), &c, 1); if (n == 1) { x->bytes++; bool k = x->killing->load(); Item *i = (Item *)zt_threadpool_get_oput(POOL); if (i) { i->outn++; x->got.push_back(i); } else { x->nulls++; if (!k && !x->killing->load()) x->early_null = true; } continue; } } else { Item *i = (Item *)zt_threadpool_get_oput(POOL); if (i) { i->outn++; x->got.push_back(i); continue; } } if (last) return NULL; sched_yield(); } }
void vt_init() { Quiet q; zt_threads_use_pthreads(); LK = _zt_threads_lock_cbs; CK = _zt_threads_cond_cbs; TK = _zt_threads_cntrl_cbs; pthread_key_create(&key, on_thread_exit); pthread_t t; pthread_create(&t, NULL, watchdog, NULL); pthread_detach(t); }
static void install(Rng &r) { zt_threads_use_pthreads(); perturb = (unsigned)r.below(3); struct zt_threads_lock_callbacks l = LK; struct zt_threads_cond_callbacks c = CK; struct zt_threads_cntrl_callbacks t = TK; if (perturb) { l.lock = p_lock; l.unlock = p_unlock; c.signal = p_signal; c.wait = p_wait; VT_CHECK(zt_threads_set_lock_callbacks(&l) == 0 && zt_threads_set_cond_callbacks(&c) == 0, "callbacks", "complete callback tables are refused"); ev(perturb > 1 ? "perturbed.sleep" : "perturbed"); } t.start = p_start; t.join = p_join; VT_CHECK(zt_threads_set_cntrl_callbacks(&t) == 0, "callbacks", "a complete callback table is refused"); }
static long drain(int fd) { long n = 0; char b[512]; fcntl(fd, F_SETFL, O_NONBLOCK); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) n += k; return n; }
static void destroy(zt_threadpool *p, long *left) { zt_threadpool_entry *e; *left = 0; while ((e = TAILQ_FIRST(&p->iput_queue))) { TAILQ_REMOVE(&p->iput_queue, e, next); free(e); ++*left; } while ((e = TAILQ_FIRST(&p->oput_queue))) { TAILQ_REMOVE(&p->oput_queue, e, next); free(e); ++*left; } for (int i = 0; i < p->min_threads; i++) { free(p->iput_threads[i]); if (p->oput_threads) free(p->oput_threads[i]); } free(p->iput_threads); free(p->oput_threads); zt_threads_free_lock(p->iput_mutex, 0); zt_threads_free_lock(p->oput_mutex, 0); zt_threads_cond_free(p->iput_cond); zt_threads_cond_free(p->oput_cond); for (int *f : {p->iput_fd_sigs, p->oput_fd_sigs}) for (int i = 0; i < 2; i++) if (f[i] >= 0) close(f[i]); free(p); }
static void pool(Rng &r) {
    install(r); int threads = 1 + (int)r.below(r.chance(1, 3) ? 1 : 6); bool pi = r.chance(1, 3), po = r.chance(1, 3); bool oloop = r.chance(2, 3); unsigned nread = r.chance(1, oloop ? 4 : 1) ? 1 + r.below(3) : 0; if (!oloop && !nread) nread = 1; bool rp = !oloop && po && r.chance(2, 3); bool finalize = r.chance(2, 3); unsigned np = (unsigned)r.below(5); bool during = np && r.chance(1, 4); bool failing = r.chance(1, 12); bool neverstart = !failing && r.chance(1, 40); start_count = 0; start_fails = failing ? (r.chance(1, 4) ? -2 : (int)r.below(threads * (oloop ? 2 : 1))) : -1;
    zt_threadpool_set_callbacks(NULL); struct zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb); cb.init = cb_init; cb.iput_worker = cb_in; cb.oput_worker = cb_out; if (finalize) cb.finalize = cb_fin; zt_threadpool_set_callbacks(&cb); if (!oloop) zt_threadpool_disable_oput_loop();
    op("%d threads%s%s%s, %u producers%s, %u readers%s%s, perturbation %u%s", threads, pi ? ", input pipe" : "", po ? ", output pipe" : "", oloop ? ", output workers" : "", np, during ? " during shutdown" : "", nread, rp ? " on the pipe" : "", finalize ? ", finalizer" : "", perturb, failing ? ", a thread fails to start" : "");
    unsigned nin = (unsigned)r.below(r.chance(1, 4) ? 200 : 12), nkid = 0, nout = r.chance(1, 4) ? (unsigned)r.below(10) : 0; if (!np) nin = nout = 0; std::vector<std::unique_ptr<Item[]>> store; std::vector<Item *> all; auto make = [&](unsigned n) { store.emplace_back(new Item[n]); for (unsigned i = 0; i < n; i++) { Item &t = store.back()[i]; t.id = (unsigned)all.size(); t.out = r.chance(1, 2); t.fin = r.chance(1, 2); t.children = 0; t.kids = NULL; all.push_back(&t); } return store.back().get(); };
    Item *ins = nin ? make(nin) : NULL, *outs = nout ? make(nout) : NULL; std::vector<Item *> direct; for (unsigned i = 0; i < nout; i++) direct.push_back(&outs[i]); if (!during) for (unsigned i = 0; i < nin; i++) if (r.chance(1, 8)) { ins[i].children = 1 + r.below(3); ins[i].kids = make(ins[i].children); nkid += ins[i].children; }
    inits = exits = bad = joined = 0; processed = 0; in_order.clear(); out_order.clear(); record_order = threads == 1 && np == 1 && !nkid && nread == 0 && !nout && !during && !failing; if (record_order) { in_order.reserve(nin); out_order.reserve(nin); }
    phase = "creating"; POOL = zt_threadpool_init(threads, threads + (int)r.below(3), pi, po); VT_CHECK(POOL, "init", "no pool"); int fds[4] = {zt_threadpool_iput_fd_reader(POOL), zt_threadpool_iput_fd_writer(POOL), zt_threadpool_oput_fd_reader(POOL), zt_threadpool_oput_fd_writer(POOL)}; for (int i = 0; i < 4; i++) VT_CHECK((i < 2 ? pi : po) ? fds[i] >= 0 && fcntl(fds[i], F_GETFD) >= 0 : fds[i] == -1, "pipes", "pipe descriptor %d is %d", i, fds[i]); if (rp) fcntl(fds[2], F_SETFL, O_NONBLOCK);
    int started = 0; if (!neverstart) { int rc = zt_threadpool_start(POOL); started = start_fails == -2 ? 0 : threads * (oloop ? 2 : 1) - failing; VT_CHECK(rc == (failing ? -1 : 0), "start", "starting returned %d%s", rc, failing ? " though a thread could not be started" : ""); } int istart = 0, ostart = 0; if (!neverstart) for (int i = 0; i < threads; i++) { istart += POOL->iput_threads && POOL->iput_threads[i]; ostart += POOL->oput_threads && POOL->oput_threads[i]; } VT_CHECK(istart + ostart == started, "started", "the pool holds %d threads, %d were started", istart + ostart, started);
    if (!istart) nkid = 0; // nobody inserts them
    std::atomic<bool> done{false}, killing{false}; pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, np + nread + 1); std::vector<Prod> P(np); std::vector<Reader> R(nread); std::vector<pthread_t> pt(np), rt(nread); for (unsigned i = 0; i < nin; i++) P[r.below(np)].in.push_back(&ins[i]); for (unsigned i = 0; i < nout; i++) P[r.below(np)].out.push_back(&outs[i]);
    for (unsigned i = 0; i < np; i++) { P[i].bar = &bar; P[i].killing = &killing; if (pthread_create(&pt[i], NULL, produce, &P[i])) harness_error("pthread_create"); } for (unsigned i = 0; i < nread; i++) { R[i].pipe = rp; R[i].done = &done; R[i].bar = &bar; R[i].killing = &killing; if (pthread_create(&rt[i], NULL, readout, &R[i])) harness_error("pthread_create"); }
    pthread_barrier_wait(&bar); phase = "producing"; if (!during) for (auto t : pt) pthread_join(t, NULL); else if (r.chance(1, 2)) usleep(r.below(300)); if (r.chance(1, 4)) usleep(r.below(400)); if (r.chance(1, 4) && istart) { phase = "waiting for the items to be processed"; if (!during) while (processed.load() < (long)(nin + nkid)) usleep(50); ev("kill.idle"); }
    phase = "shutting down"; killing = true; int rc = zt_threadpool_kill(POOL); VT_CHECK(rc == 0, "kill", "shutdown returned %d", rc); phase = "after the shutdown"; int ex = exits.load(), in = inits.load(), jn = joined.load();
    if (during) for (auto t : pt) pthread_join(t, NULL); done = true; for (auto t : rt) pthread_join(t, NULL); pthread_barrier_destroy(&bar);
    VT_CHECK(ex == started && in == started && jn == started, "threads", "%d threads were started, %d initialised, %d had ended and %d were joined when the shutdown returned", started, in, ex, jn); VT_CHECK(!bad.load(), "callback", "a callback got foreign data or an insertion failed");
    std::set<Item *> isdirect(direct.begin(), direct.end()); long outs_total = (long)nout, notdone = 0; for (Item *i : all) { evaluations(1); bool dir = isdirect.count(i), late = i->late.load(); int a = i->in.load(), b = i->outn.load(), f = i->finn.load(); VT_CHECK(a <= 1 && b <= 1 && f <= 1, "twice", "item %u was handed out %d times as input, %d times as output, finalized %d times", i->id, a, b, f); if (dir) VT_CHECK(a == 0, "crossed", "an output was handed to an input worker"); else { bool kid = i >= ins + nin || i < ins; (void)kid; if (istart && !late) VT_CHECK(a == 1, "lost", "item %u was never handed to an input worker", i->id); if (!istart) VT_CHECK(!a, "invented", "no input worker, yet processed"); }
        bool produced = dir || (a && i->out); if (a && i->out) outs_total++; if (!produced) VT_CHECK(!b && !f, "invented", "item %u has an output", i->id); else if ((ostart || nread) && !(dir && late)) { VT_CHECK(b == 1, "lost-output", "the result of item %u reached nobody", i->id); } VT_CHECK(!f || (finalize && i->fin && b), "finalized", "item %u was finalized", i->id); notdone += !b && produced; if (b && finalize && i->fin && !nread) VT_CHECK(f == 1, "not-finalized", "item %u was not finalized", i->id); if (a) ev("input.handled"); if (b) ev("output.handled"); if (f) ev("finalized"); if (late) ev("inserted.late"); }
    if (record_order && istart) { VT_CHECK(in_order.size() == nin, "order", "%zu inputs were handed out of %u", in_order.size(), nin); for (unsigned i = 0; i < nin; i++) VT_CHECK(in_order[i] == i, "order", "input %u was handed out as number %u", in_order[i], i); unsigned last = 0; for (unsigned o : out_order) { VT_CHECK(o >= last, "order", "outputs out of order"); last = o; } ev("order"); }
    long nulls = 0, bytes = 0; for (auto &x : R) { nulls += x.nulls; bytes += x.bytes; VT_CHECK(!x.early_null, "wakeup", "a wakeup without a result before the shutdown"); } if (pi) { long b = drain(fds[0]); VT_CHECK(b == (long)(nin + nkid) + 1, "pipe", "%ld wakeups for %u inputs and the shutdown", b, nin + nkid); ev("pipe.input"); } if (po) { long b = drain(fds[2]) + bytes; VT_CHECK(b == outs_total + 1, "pipe", "%ld wakeups for %ld outputs and the shutdown", b, outs_total); ev("pipe.output"); } if (rp) { VT_CHECK(nulls <= 1, "wakeup", "%ld wakeups without a result", nulls); ev("reader.pipe"); } else if (nread) ev("reader.poll");
    VT_CHECK(zt_threadpool_get_oput(POOL) == NULL || during || !(ostart || nread), "left", "an output was left behind"); long left; destroy(POOL, &left); if (istart && (ostart || nread) && !during) VT_CHECK(!left, "left", "%ld entries were left behind", left); ev("pool"); ev("threads.started", started); if (!np) ev("kill.empty"); if (during) ev("kill.during"); if (failing) ev("start.failed"); if (neverstart) ev("never.started"); if (nkid) ev("children"); start_fails = -1; }
// ---- the primitives
static void *guarded(void *p) { void **a = (void **)p; long *n = (long *)a[1]; for (int i = 0; i < 200; i++) { if (i % 4 == 3) { while (zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, a[0])) sched_yield(); } else if (zt_threads_lock(ZT_THREADS_LOCK_BLOCKING, a[0])) bad++; ++*n; if (i % 50 == 0) sched_yield(); if (zt_threads_unlock(0, a[0])) bad++; } return (void *)zt_threads_id(); }
static void *waiter(void *p) { void **a = (void **)p; long *n = (long *)a[1]; zt_threads_lock(0, a[0]); while (*n >= 0) zt_threads_cond_wait(a[2], a[0], NULL); --*n; zt_threads_unlock(0, a[0]); zt_threads_end(a); return NULL; }
static void *endless(void *p) { *(std::atomic<int> *)p = 1; for (;;) usleep(2000); return NULL; }
static void *brief(void *p) { *(std::atomic<int> *)p = 1; return NULL; }
static uint64_t now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ULL + t.tv_nsec / 1000; }
static void primitives(Rng &r) {
    zt_threads_use_pthreads(); perturb = 0; bad = 0; zt_threads_mutex *m = zt_threads_alloc_lock(0); zt_threads_cond *c = zt_threads_cond_alloc(0); VT_CHECK(m && c, "alloc", "no lock or condition"); long n = 0; void *a[3] = {m, &n, c}; unsigned k = 2 + r.below(4); std::vector<zt_threads_thread *> t(k);
    for (auto &x : t) { x = zt_threads_alloc_thread(); VT_CHECK(x && zt_threads_start(x, NULL, guarded, a) == 0, "start", "a thread could not be started"); } for (auto x : t) { void *d = NULL; VT_CHECK(zt_threads_join(x, &d) == 0 && (unsigned long)d == (unsigned long)*(pthread_t *)x, "join", "joining a thread did not give its result"); } VT_CHECK(n == (long)k * 200 && !bad, "exclusion", "%ld increments under the lock, want %ld", n, (long)k * 200);
    VT_CHECK(zt_threads_lock(0, m) == 0 && zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, m) != 0, "trylock", "a held lock was taken again"); struct timeval tv = {0, (long)r.below(r.chance(1, 6) ? 30000 : 3000)}; if (r.chance(1, 8)) tv.tv_usec = 999999, tv.tv_sec = -1; struct timeval g0, g1; gettimeofday(&g0, NULL); uint64_t t0 = now_us(); int rc = zt_threads_cond_wait(c, m, &tv); uint64_t t1 = now_us(); gettimeofday(&g1, NULL); VT_CHECK(rc == 1 || rc == 0, "timeout", "waiting returned %d", rc); long want = tv.tv_sec < 0 ? 0 : tv.tv_usec, took = (long)(t1 - t0), wall = (g1.tv_sec - g0.tv_sec) * 1000000L + g1.tv_usec - g0.tv_usec; VT_CHECK(rc == 0 || took >= want || wall >= want, "timeout", "a wait of %ld microseconds ended after %ld", want, took); phase = "stopping a thread";
    if (rc && want > 5000) ev("timeout.long"); VT_CHECK(zt_threads_unlock(0, m) == 0, "unlock", "unlocking failed"); if (rc) ev("timeout");
    n = 0; for (auto &x : t) zt_threads_start(x, NULL, waiter, a); if (r.chance(1, 2)) usleep(r.below(500)); zt_threads_lock(0, m); n = -1; VT_CHECK(zt_threads_cond_signal(c, 1) == 0, "broadcast", "broadcast failed"); zt_threads_unlock(0, m); phase = "waiting for a broadcast"; for (auto x : t) { void *d = NULL; VT_CHECK(zt_threads_join(x, &d) == 0 && d == a, "end", "a thread's end value is lost"); } VT_CHECK(n == -1 - (long)k, "broadcast", "%ld threads woke", -1 - n); for (auto x : t) free(x); zt_threads_cond_free(c); zt_threads_free_lock(m, 0); ev("primitives");
    if (r.chance(1, 2)) { std::atomic<int> st{0}; zt_threads_thread *x = zt_threads_alloc_thread(); VT_CHECK(x && zt_threads_start(x, NULL, endless, &st) == 0, "start", "a thread could not be started"); if (r.chance(1, 2)) while (!st.load()) usleep(100); VT_CHECK(zt_threads_kill(x) == 0, "thread-kill", "stopping a thread failed"); phase = "waiting for a stopped thread"; void *d = NULL; VT_CHECK(zt_threads_join(x, &d) == 0 && d == PTHREAD_CANCELED, "thread-kill", "a stopped thread ended by itself"); free(x); ev("thread.kill"); }
    if (r.chance(1, 2)) { static std::atomic<int> st; st = 0; zt_threads_thread *x = zt_threads_alloc_thread(); VT_CHECK(x && zt_threads_start(x, NULL, brief, &st) == 0, "start", "a thread could not be started"); VT_CHECK(zt_threads_detach(x) == 0, "detach", "detaching failed"); phase = "waiting for a detached thread"; while (!st.load()) usleep(100); free(x); ev("thread.detach"); }
    struct zt_threads_lock_callbacks l = LK; l.free = NULL; VT_CHECK(zt_threads_set_lock_callbacks(&l) == -1, "callbacks", "an incomplete lock table is accepted"); struct zt_threads_cond_callbacks cc = CK; cc.wait = NULL; VT_CHECK(zt_threads_set_cond_callbacks(&cc) == -1, "callbacks", "an incomplete condition table is accepted"); struct zt_threads_cntrl_callbacks tc = TK; tc.end = NULL; VT_CHECK(zt_threads_set_cntrl_callbacks(&tc) == -1, "callbacks", "an incomplete thread table is accepted"); VT_CHECK(_zt_threads_lock_cbs.free == LK.free && _zt_threads_cond_cbs.wait == CK.wait && _zt_threads_cntrl_cbs.end == TK.end, "callbacks", "a refused table was installed"); }
// ---- a started pool without work waits: its workers use no processor time
static long cpu_us() { struct rusage u; getrusage(RUSAGE_SELF, &u); return (u.ru_utime.tv_sec + u.ru_stime.tv_sec) * 1000000L + u.ru_utime.tv_usec + u.ru_stime.tv_usec; }
static void idle(Rng &r) {
    install(r); perturb = 0; start_count = 0; start_fails = -1; inits = exits = bad = joined = 0; processed = 0; record_order = false; int threads = 1 + (int)r.below(4); bool oloop = r.chance(2, 3), warm = r.chance(1, 2); zt_threadpool_set_callbacks(NULL); struct zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb); cb.init = cb_init; cb.iput_worker = cb_in; cb.oput_worker = cb_out; zt_threadpool_set_callbacks(&cb); if (!oloop) zt_threadpool_disable_oput_loop(); op("%d idle threads%s", threads, oloop ? ", output workers" : "");
    phase = "creating"; POOL = zt_threadpool_init(threads, threads, 0, 0); VT_CHECK(POOL && zt_threadpool_start(POOL) == 0, "init", "no pool"); Item it; it.id = 0; it.out = it.fin = false; it.children = 0; it.kids = NULL; if (warm) { VT_CHECK(zt_threadpool_insert_iput(POOL, &it) == 0, "insert", "an insertion failed"); phase = "waiting for the item"; while (!processed.load()) usleep(100); }
    phase = "idling"; usleep(10000); long used = 0; int busy = 0; for (int k = 0; k < 6; k++) { long a = cpu_us(); uint64_t t0 = now_us(); usleep(20000); uint64_t wall = now_us() - t0; used = cpu_us() - a; if (used * 2 < (long)wall) break; busy++; }
    VT_CHECK(busy < 6, "busy", "an idle pool of %d threads uses %ld microseconds of processor time in 20 milliseconds, again and again", threads, used); phase = "shutting down"; VT_CHECK(zt_threadpool_kill(POOL) == 0, "kill", "shutdown failed"); long left; destroy(POOL, &left); ev("idle"); }
static int count_fds() { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void nofds(Rng &r) { zt_threads_use_pthreads(); int room = (int)r.below(4); std::string err; int st = run_forked([&] { struct rlimit rl = {64, 64}; int next; while ((next = dup(2)) >= 0 && next < 63 - room) { } rl.rlim_cur = rl.rlim_max = 64; setrlimit(RLIMIT_NOFILE, &rl); for (int i = 64 - room; i < 64; i++) close(i); int before = count_fds(); bool in0 = fcntl(0, F_GETFD) >= 0; long heap = live(); zt_threadpool *p = zt_threadpool_init(2, 2, 1, 1); if (p) _exit(3); if (live() != heap) _exit(5); if (count_fds() != before || in0 != (fcntl(0, F_GETFD) >= 0)) _exit(4); _exit(0); }, &err); VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 3, "nofds", "a pool without its pipes (%#x) %s", st, err.c_str()); VT_CHECK(WEXITSTATUS(st) != 5, "nofds-heap", "a failed creation leaves blocks behind"); VT_CHECK(WEXITSTATUS(st) == 0, "nofds-leak", "a failed creation changes the open descriptors"); ev("pipe.failed"); }
void vt_case(Rng &r, uint64_t idx) { nontrivial(true); mix(r.s); static uint64_t runs; static long base; case_started = now_ms(); phase = "running"; if (idx % 10 == 9) primitives(r); else if (idx % 60 == 7) idle(r);
#if !defined TSAN && !defined MEMCHECK
    else if (idx % 50 == 25) nofds(r);
#endif
    else pool(r); case_started = 0;
    std::vector<unsigned>().swap(in_order); std::vector<unsigned>().swap(out_order);
#ifndef TSAN
    if (++runs % 50 == 0) { long l = live(); if (runs == 50) base = l; else VT_CHECK(l - base < 4, "leak", "%ld heap blocks more after %lu further cases", l - base, (unsigned long)runs - 50); ev("balance"); }
#endif
}
