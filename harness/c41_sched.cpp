// The pool and the threading layer over a backend of our own: a serialising scheduler that owns
// every interleaving, knows every lock's owner and every waiter, and sees a deadlock when no
// thread can go on.
#include "ztc.hpp"
#include <semaphore.h>
#include <atomic>
#include <memory>
#include <algorithm>
#include <fcntl.h>
extern "C" {
#include <libzt/zt_threads.h>
}
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
struct T; struct Mx { T *owner; int type; };
struct Cv { int type; };
enum St { RUN, LOCK, WAIT, JOIN, EVENT, DONE };
struct T { sem_t s; St st = RUN; Mx *mx = NULL; Cv *cv = NULL; T *who = NULL; std::function<bool()> *pred = NULL; bool signalled = false, signal_end = false; uint64_t prio = 0; pthread_t pt; bool joined = false, detached = false, started = false; void *ret = NULL; void *(*fn)(void *) = NULL; void *arg = NULL; int held = 0, depth = 0; unsigned id = 0; void **handle = NULL; };
static thread_local T *self; static T MAIN; static std::vector<T *> ts; static Rng *R; static int policy; static bool spurious; static uint64_t steps, sched_hash, lastprio; static std::set<uint64_t> change; static unsigned nspurious, blocked_lock;
static std::atomic<uint64_t> beat{0}; static std::atomic<bool> running{false};
static void *watchdog(void *) { uint64_t last = 0; int same = 0; for (;;) { usleep(500000); uint64_t b = beat.load(); same = running.load() && b == last ? same + 1 : 0; last = b; if (same > 120) fail("stuck", "a thread runs for ever without using the library's locks or waits"); } return NULL; }
static bool enabled(T *t) { switch (t->st) { case RUN: return true; case LOCK: return !t->mx->owner; case WAIT: return false; case JOIN: return t->who->st == DONE; case EVENT: return (*t->pred)(); case DONE: return false; } return false; }
static const char *stname(St s) { static const char *n[] = {"ready", "waiting for a lock", "waiting for a condition", "joining", "waiting for other items to be handled", "ended"}; return n[s]; }
static void pick_next() { // self's state is set; hand the baton on
    beat++; if (++steps > 300000) fail("livelock", "300000 steps without an end");
    T *me = self; if (spurious && R->chance(1, 12)) { std::vector<T *> w; for (T *t : ts) if (t->st == WAIT) w.push_back(t); if (!w.empty()) { T *t = R->pick(w); t->st = LOCK; nspurious++; } }
    std::vector<T *> e; for (T *t : ts) if (enabled(t)) e.push_back(t);
    if (e.empty()) { bool all = true; for (T *t : ts) all = all && t->st == DONE; if (all) harness_error("scheduler without threads"); std::string d; for (T *t : ts) if (t->st != DONE) d += " [thread " + std::to_string(t->id) + " is " + stname(t->st) + "]"; fail("deadlock", "nothing can go on:%s", d.c_str()); }
    T *n; if (change.count(steps)) me->prio = --lastprio;
    if (policy == 0 || steps % 4000 > 3500) n = R->pick(e); else if (policy == 1) { n = e[0]; for (T *t : e) if (t->prio > n->prio) n = t; } else { n = NULL; if (R->chance(3, 4)) for (T *t : e) if (t == me) n = t; if (!n) n = R->pick(e); }
    sched_hash = (sched_hash ^ n->id) * 1099511628211ULL; if (e.size() > 1) ev("choice");
    n->st = RUN; if (n == me) return; ev("switch"); bool gone = me->st == DONE; sem_post(&n->s); if (gone) return; while (sem_wait(&me->s)) { } }
static void point() { self->st = RUN; pick_next(); }
static void block(St s) { self->st = s; pick_next(); }
// ---- the backend
static int fail_start; static std::set<void *> locks, conds;
static void *b_alloc(int type) { Mx *m = new Mx{NULL, type}; locks.insert(m); return m; }
static Mx *lock_of(void *l, const char *what) { if (!locks.count(l)) fail("foreign", "%s with something the backend never made", what); return (Mx *)l; }
static Cv *cond_of(void *c, const char *what) { if (!conds.count(c)) fail("foreign", "%s with something the backend never made", what); return (Cv *)c; }
static void b_free(void *l, int) { Mx *m = lock_of(l, "free"); VT_CHECK(!m->owner, "free-held", "a held lock is destroyed"); for (T *t : ts) VT_CHECK(!(t->st == LOCK && t->mx == m), "free-wanted", "a lock somebody waits for is destroyed"); locks.erase(l); delete m; }
static void take(Mx *m) { if (m->owner) blocked_lock++; self->mx = m; while (m->owner) { block(LOCK); } m->owner = self; self->held++; }
static int b_lock(int mode, void *l) { Mx *m = lock_of(l, "locking"); VT_CHECK(m->owner != self, "self-lock", "a thread takes a lock it already holds"); point(); if (mode & ZT_THREADS_LOCK_NONBLOCKING) { if (m->owner) return EBUSY; m->owner = self; self->held++; return 0; } take(m); return 0; }
static int b_unlock(int, void *l) { Mx *m = lock_of(l, "unlocking"); VT_CHECK(m->owner == self, "unlock", "a thread releases a lock it does not hold"); m->owner = NULL; self->held--; point(); return 0; }
static void *b_calloc(int type) { Cv *c = new Cv{type}; conds.insert(c); return c; }
static void b_cfree(void *c) { cond_of(c, "free"); for (T *t : ts) VT_CHECK(!(t->st == WAIT && t->cv == c), "free-waiting", "a condition somebody waits for is destroyed"); conds.erase(c); delete (Cv *)c; }
static int b_signal(void *c, int broadcast) { cond_of(c, "signalling"); std::vector<T *> w; for (T *t : ts) if (t->st == WAIT && t->cv == c) w.push_back(t); if (w.empty()) ev("signal.nobody"); else if (broadcast) { for (T *t : w) t->st = LOCK; ev("signal.all"); } else { R->pick(w)->st = LOCK; ev("signal.one"); } point(); return 0; }
static int b_wait(void *c, void *l, struct timeval *tv) { cond_of(c, "waiting"); Mx *m = lock_of(l, "waiting"); VT_CHECK(m->owner == self, "wait", "a thread waits without holding the lock"); VT_CHECK(self->held == 1, "wait-holding", "a thread waits while holding another lock"); m->owner = NULL; self->held--; self->mx = m; self->cv = (Cv *)c; ev("wait"); if (tv && R->chance(1, 2)) { block(LOCK); m->owner = self; self->held++; return 1; } self->st = WAIT; pick_next(); m->owner = self; self->held++; return 0; } // resumed only by LOCK with the lock free
static void *b_thread() { return calloc(1, sizeof(T *)); }
static void ended(void *ret) { VT_CHECK(!self->held, "end-holding", "a thread ends holding a lock"); self->ret = ret; self->st = DONE; pick_next(); }
static void *enter(void *p) { self = (T *)p; while (sem_wait(&self->s)) { } void *r = self->fn(self->arg); if (self->st != DONE) ended(r); return NULL; }
static int starts;
static int b_start(void *h, void *, void *(*fn)(void *), void *arg) { VT_CHECK(h, "start", "a thread is started without an object"); if (starts++ == fail_start) return -1; T *t = new T; t->fn = fn; t->arg = arg; t->id = (unsigned)ts.size(); t->prio = 1000000 + R->below(1000000); t->handle = (void **)h; sem_init(&t->s, 0, 0); *(T **)h = t; ts.push_back(t); if (pthread_create(&t->pt, NULL, enter, t)) harness_error("pthread_create"); t->started = true; point(); return 0; }
static void b_end(void *arg) { ended(arg); pthread_exit(NULL); }
static int b_join(void *h, void **d) { T *t = *(T **)h; VT_CHECK(std::find(ts.begin(), ts.end(), t) != ts.end(), "foreign", "joining something that was never started"); VT_CHECK(!t->joined && !t->detached && t != self, "join", "a thread is joined twice or joins itself"); self->who = t; if (t->st != DONE) block(JOIN); else point(); t->joined = true; pthread_join(t->pt, NULL); if (d) *d = t->ret; return 0; }
static unsigned long b_id() { return self->id; }
static int b_detach(void *h) { (*(T **)h)->detached = true; pthread_detach((*(T **)h)->pt); return 0; }
static int b_kill(void *) { fail("cancel", "the pool cancels a thread"); }
static const struct zt_threads_lock_callbacks LK = {b_alloc, b_free, b_lock, b_unlock}; static const struct zt_threads_cond_callbacks CK = {b_calloc, b_cfree, b_signal, b_wait}; static const struct zt_threads_cntrl_callbacks TK = {b_start, b_end, b_kill, b_id, b_join, b_detach};
static void install() { struct zt_threads_lock_callbacks l = LK; struct zt_threads_cond_callbacks c = CK; struct zt_threads_cntrl_callbacks t = TK; VT_CHECK(zt_threads_set_lock_callbacks(&l) == 0 && zt_threads_set_cond_callbacks(&c) == 0 && zt_threads_set_cntrl_callbacks(&t) == 0, "install", "a complete backend is refused"); zt_threads_alloc_thread = b_thread; }
static void wait_for(std::function<bool()> p) { if (p()) return; self->pred = &p; block(EVENT); }
// ---- a pool's callbacks; one thread runs at a time, so plain variables do
struct Item { unsigned id, prod, no; bool out, fin, gin = false, gout = false, late = false; std::vector<Item *> kids, okids; int in = 0, outn = 0, finn = 0; };
static zt_threadpool *POOL; static unsigned gin_n, gin_want, gout_n, gout_want, running_in, running_out, inits; static std::vector<Item *> in_order, out_order; static char MARK; static std::vector<Item *> init_out; static std::set<T *> init_by; static bool killing;
static void free_of_locks(const char *w) { VT_CHECK(self->held == 0, "held", "%s is called while a lock of the pool is held", w); }
static void *cb_init(void *arg) { free_of_locks("init"); VT_CHECK(arg == POOL, "init", "init gets something else than its pool"); VT_CHECK(init_by.insert(self).second, "init-twice", "init is called twice by one thread"); inits++; if (!init_out.empty()) { Item *i = init_out.back(); init_out.pop_back(); VT_CHECK(zt_threadpool_insert_oput(POOL, i) == 0, "insert", "an insertion failed"); } point(); return &MARK; }
static void *cb_in(void *init, void *data) { free_of_locks("an input worker"); VT_CHECK(init == &MARK && init_by.count(self), "init", "an input worker gets something else than its thread's init result"); Item *i = (Item *)data; i->in++; in_order.push_back(i); running_in++; point(); for (Item *k : i->kids) VT_CHECK(zt_threadpool_insert_iput(POOL, k) == 0, "insert", "an insertion failed"); for (Item *k : i->okids) VT_CHECK(zt_threadpool_insert_oput(POOL, k) == 0, "insert", "an insertion failed"); if (i->gin) { gin_n++; if (gin_n < gin_want) ev("rendezvous.in"); wait_for([] { return gin_n >= gin_want; }); } point(); running_in--; return i->out ? i : NULL; }
static void *cb_out(void *init, void *data) { free_of_locks("an output worker"); VT_CHECK(init == &MARK && init_by.count(self), "init", "an output worker gets something else than its thread's init result"); Item *i = (Item *)data; i->outn++; out_order.push_back(i); running_out++; point(); if (i->gout) { gout_n++; if (gout_n < gout_want) ev("rendezvous.out"); wait_for([] { return gout_n >= gout_want; }); } point(); running_out--; return i->fin ? i : NULL; }
static void cb_fin(void *init, void *data) { free_of_locks("finalize"); VT_CHECK(init == &MARK, "init", "finalize gets something else than its thread's init result"); Item *i = (Item *)data; i->finn++; point(); }
struct Prod { std::vector<std::pair<Item *, bool>> q; };
static void *produce(void *p) { for (auto &x : ((Prod *)p)->q) { int rc = x.second ? zt_threadpool_insert_oput(POOL, x.first) : zt_threadpool_insert_iput(POOL, x.first); VT_CHECK(rc == 0, "insert", "an insertion failed"); if (killing) x.first->late = true; if (R->chance(1, 3)) point(); } return p; }
static void destroy(zt_threadpool *p, long *left) { zt_threadpool_entry *e; *left = 0; while ((e = TAILQ_FIRST(&p->iput_queue))) { TAILQ_REMOVE(&p->iput_queue, e, next); free(e); ++*left; } while ((e = TAILQ_FIRST(&p->oput_queue))) { TAILQ_REMOVE(&p->oput_queue, e, next); free(e); ++*left; } for (int i = 0; i < p->min_threads; i++) { free(p->iput_threads[i]); if (p->oput_threads) free(p->oput_threads[i]); } free(p->iput_threads); free(p->oput_threads); zt_threads_free_lock(p->iput_mutex, 0); zt_threads_free_lock(p->oput_mutex, 0); zt_threads_cond_free(p->iput_cond); zt_threads_cond_free(p->oput_cond); for (int *f : {p->iput_fd_sigs, p->oput_fd_sigs}) for (int i = 0; i < 2; i++) if (f[i] >= 0) close(f[i]); free(p); }
static long drain(int fd) { long n = 0; char b[512]; fcntl(fd, F_SETFL, O_NONBLOCK); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) n += k; return n; }
static void begin(Rng &r) { R = &r; self = &MAIN; MAIN.st = RUN; MAIN.held = 0; MAIN.prio = 1000000 + r.below(1000000); ts.clear(); ts.push_back(&MAIN); policy = (int)r.below(3); spurious = r.chance(1, 3); steps = 0; sched_hash = 1469598103934665603ULL; lastprio = 900000; change.clear(); if (policy == 1) { unsigned d = (unsigned)r.below(5); for (unsigned i = 0; i < d; i++) change.insert(1 + r.below(400)); } nspurious = blocked_lock = 0; fail_start = -1; starts = 0; running = true; }
static void finish() { running = false; for (size_t i = 1; i < ts.size(); i++) { T *t = ts[i]; VT_CHECK(t->st == DONE && (t->joined || t->detached), "left-thread", "a thread is left behind"); sem_destroy(&t->s); delete t; } ts.clear(); VT_CHECK(locks.empty() && conds.empty(), "left-lock", "%zu locks and %zu conditions are left behind", locks.size(), conds.size()); if (nspurious) ev("wait.spurious", nspurious); if (blocked_lock) ev("contended", blocked_lock); ev(policy == 0 ? "policy.random" : policy == 1 ? "policy.priority" : "policy.sticky"); also_distinct(sched_hash); }
static void pool(Rng &r) {
    begin(r); install(); int threads = 1 + (int)r.below(r.chance(1, 3) ? 1 : 4); bool pi = r.chance(1, 6), po = r.chance(1, 6), oloop = r.chance(3, 4), finalize = r.chance(2, 3), failing = r.chance(1, 12), during = r.chance(1, 5), wait_idle = !spurious && r.chance(1, 3), noin = r.chance(1, 20); unsigned np = (unsigned)r.below(4); if (!np) during = false;
    zt_threadpool_set_callbacks(NULL); struct zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb); cb.iput_worker = cb_in; cb.init = cb_init; if (r.chance(1, 2)) { zt_threadpool_set_callbacks(&cb); memset(&cb, 0, sizeof cb); ev("set.piecewise"); } cb.oput_worker = cb_out; if (finalize) cb.finalize = cb_fin; zt_threadpool_set_callbacks(&cb); if (!oloop) zt_threadpool_disable_oput_loop(); if (noin) zt_threadpool_disable_iput_loop(); if (noin && failing) failing = false; int per = (noin ? 0 : 1) + (oloop ? 1 : 0); if (!per) failing = false;
    if (failing) fail_start = (int)r.below(threads * per); std::vector<std::unique_ptr<Item>> store; auto make = [&]() { store.emplace_back(new Item); Item *i = store.back().get(); i->id = (unsigned)store.size() - 1; i->prod = i->no = 0; i->out = r.chance(1, 2); i->fin = r.chance(1, 2); return i; };
    bool gi = !failing && !noin && np && !during && threads > 1 && r.chance(1, 4), go = !failing && !noin && oloop && np && !during && threads > 1 && r.chance(1, 4); gin_n = gout_n = 0; gin_want = gi ? threads : 0; gout_want = go ? threads : 0; inits = 0; in_order.clear(); out_order.clear(); init_by.clear(); init_out.clear(); killing = false; running_in = running_out = 0;
    std::vector<Prod> P(np); unsigned nin = np ? (unsigned)r.below(r.chance(1, 6) ? 60 : 9) : 0, ndirect = np && r.chance(1, 4) ? (unsigned)r.below(6) : 0; std::set<Item *> direct; std::vector<Item *> ins; for (unsigned i = 0; i < nin; i++) { Item *it = make(); ins.push_back(it); if (!during && !noin && r.chance(1, 6)) { unsigned k = 1 + r.below(2); for (unsigned j = 0; j < k; j++) { Item *kid = make(); it->kids.push_back(kid); if (r.chance(1, 4)) { Item *g = make(); kid->kids.push_back(g); } } } if (oloop && !during && !noin && r.chance(1, 8)) { Item *o = make(); o->out = true; it->okids.push_back(o); direct.insert(o); } }
    if (gi) for (int i = 0; i < threads; i++) { Item *it = make(); it->gin = true; ins.push_back(it); } if (go) for (int i = 0; i < threads; i++) { Item *it = make(); it->gout = it->out = true; if (r.chance(1, 2)) { ins.push_back(it); } else { P[r.below(np)].q.push_back({it, true}); direct.insert(it); } }
    for (size_t i = ins.size(); i > 1; i--) std::swap(ins[i - 1], ins[r.below(i)]); for (Item *it : ins) P[r.below(np)].q.push_back({it, false}); for (unsigned i = 0; i < ndirect; i++) { Item *it = make(); direct.insert(it); auto &q = P[r.below(np)].q; q.insert(q.begin() + r.below(q.size() + 1), {it, true}); } for (unsigned p = 0; p < np; p++) for (unsigned k = 0; k < P[p].q.size(); k++) { P[p].q[k].first->prod = p + 1; P[p].q[k].first->no = k; }
    if (oloop && !during && !failing && r.chance(1, 5)) { unsigned k = 1 + r.below(2); for (unsigned i = 0; i < k && i < (unsigned)(threads * per); i++) { Item *it = make(); direct.insert(it); init_out.push_back(it); } }
    op("%d threads, %u producers%s, %zu items%s%s%s%s%s%s, policy %d%s", threads, np, during ? " during shutdown" : "", store.size(), oloop ? ", output workers" : "", noin ? ", no input workers" : "", gi ? ", inputs that need each other" : "", go ? ", outputs that need each other" : "", failing ? ", a thread fails to start" : "", wait_idle ? ", idle before the shutdown" : "", policy, spurious ? ", waits end early" : "");
    POOL = zt_threadpool_init(threads, threads, pi, po); VT_CHECK(POOL, "init", "no pool"); size_t first = ts.size(); int before = starts; VT_CHECK(zt_threadpool_start(POOL) == (failing ? -1 : 0), "start", "starting a pool gives the wrong answer"); VT_CHECK(starts - before == threads * per, "start", "%d threads were asked for, want %d", starts - before, threads * per); size_t nstarted = ts.size() - first; VT_CHECK(nstarted == (size_t)(threads * per - failing), "start", "%zu threads were started", nstarted);
    int istart = 0, ostart = 0; for (int i = 0; i < threads; i++) { istart += POOL->iput_threads[i] != NULL; ostart += POOL->oput_threads && POOL->oput_threads[i]; } std::vector<void *> ph(np); for (unsigned p = 0; p < np; p++) { ph[p] = zt_threads_alloc_thread(); VT_CHECK(ph[p] && zt_threads_start(ph[p], NULL, produce, &P[p]) == 0, "start", "starting a thread failed"); }
    auto joinp = [&] { for (unsigned p = 0; p < np; p++) { void *d = NULL; VT_CHECK(zt_threads_join(ph[p], &d) == 0 && d == &P[p], "join", "a thread's result is lost"); free(ph[p]); } }; if (!during) joinp(); else { unsigned k = (unsigned)r.below(30); for (unsigned i = 0; i < k; i++) point(); }
    if (wait_idle && !during && istart && (ostart || !oloop)) { zt_threadpool *p = POOL; wait_for([p] { size_t waiting = 0, alive = 0; for (size_t i = 1; i < ts.size(); i++) { T *t = ts[i]; if (t->st == DONE) continue; alive++; waiting += t->st == WAIT; } return alive == waiting && alive && p; }); for (auto &s : store) { Item *i = s.get(); bool dir = direct.count(i); VT_CHECK(dir || i->in == 1, "idle-lost", "every worker waits though item %u was not handled", i->id); if (oloop) VT_CHECK(i->outn == (dir || i->out), "idle-lost", "every worker waits though the result of item %u was not handled", i->id); } ev("idle.all"); }
    killing = true; VT_CHECK(zt_threadpool_kill(POOL) == 0, "kill", "the shutdown failed"); for (size_t i = first; i < first + nstarted; i++) VT_CHECK(ts[i]->st == DONE && ts[i]->joined, "kill", "a worker is left after the shutdown"); VT_CHECK(inits == nstarted, "init", "%u of %zu threads called init", inits, nstarted); VT_CHECK(!running_in && !running_out, "kill", "a callback still runs after the shutdown"); if (during) joinp(); killing = false;
    long got = 0; std::vector<Item *> read; if (!oloop || !ostart) for (Item *i; (i = (Item *)zt_threadpool_get_oput(POOL)); ) { i->outn++; read.push_back(i); got++; } else VT_CHECK(during || !zt_threadpool_get_oput(POOL), "left", "an output was left behind");
    long wakes_in = 0, wakes_out = 0; for (auto &s : store) { Item *i = s.get(); evaluations(1); bool dir = direct.count(i), in_init = std::find(init_out.begin(), init_out.end(), i) != init_out.end(); VT_CHECK(i->in <= 1 && i->outn <= 1 && i->finn <= 1, "twice", "item %u was handled %d times as input, %d times as output, finalized %d times", i->id, i->in, i->outn, i->finn); if (dir) VT_CHECK(!i->in, "crossed", "an output was handed to an input worker"); bool parentless = i->prod != 0; if (!dir) { if (istart && !i->late) VT_CHECK(i->in == 1, "lost", "item %u was never handled", i->id); if (!istart) VT_CHECK(!i->in, "invented", "an input was handled without workers"); } bool produced = dir ? !in_init : i->in && i->out; if (dir && !parentless && !in_init && !istart && (!i->outn)) produced = false; if (!produced) VT_CHECK(!i->outn && !i->finn, "invented", "item %u has an output", i->id); else if (!i->late || !dir) VT_CHECK(i->outn == 1, "lost-output", "the result of item %u reached nobody", i->id); bool byworker = std::find(read.begin(), read.end(), i) == read.end(); VT_CHECK(i->finn == (i->outn && byworker && finalize && i->fin), "finalized", "item %u was finalized %d times", i->id, i->finn); wakes_in += !dir && (parentless || istart); wakes_out += produced; if (i->in) ev("input.handled"); if (i->outn) ev("output.handled"); if (i->finn) ev("finalized"); if (i->late) ev("inserted.late"); }
    if (pi && istart) { long b = drain(zt_threadpool_iput_fd_reader(POOL)); VT_CHECK(b == wakes_in + 1, "pipe", "%ld wakeups for %ld inputs and the shutdown", b, wakes_in); ev("pipe.input"); } if (po) { long b = drain(zt_threadpool_oput_fd_reader(POOL)); VT_CHECK(b == wakes_out + 1, "pipe", "%ld wakeups for %ld outputs and the shutdown", b, wakes_out); ev("pipe.output"); }
    if (threads == 1) { std::map<unsigned, unsigned> last; for (Item *i : in_order) if (i->prod) { VT_CHECK(!last.count(i->prod) || last[i->prod] < i->no, "order", "inputs of one producer are handled out of order"); last[i->prod] = i->no; } ev("order"); if (!np || (np == 1 && !store.empty())) ev("order.single"); }
    long left; destroy(POOL, &left); if (istart && (!oloop || ostart) && !during) VT_CHECK(!left, "left", "%ld entries were left behind", left); ev("pool"); ev("threads.started", nstarted); if (gi) ev("group.in"); if (go) ev("group.out"); if (failing) ev("start.failed"); if (noin) ev("no.input.loop"); if (during) ev("kill.during"); if (!init_out.empty()) ev("init.unused"); finish(); }
// ---- loops of the user's own
static unsigned own_in, own_out; static std::vector<void *> own_got;
static void *loop_in(void *p) { VT_CHECK(p == POOL, "loop", "a loop gets something else than its pool"); own_in++; for (;;) { void *d = NULL; zt_threads_lock(0, POOL->iput_mutex); zt_threadpool_entry *e = TAILQ_FIRST(&POOL->iput_queue); if (!e) { int k = POOL->kill; if (!k) zt_threads_cond_wait(POOL->iput_cond, POOL->iput_mutex, NULL); zt_threads_unlock(0, POOL->iput_mutex); if (k) return NULL; continue; } TAILQ_REMOVE(&POOL->iput_queue, e, next); zt_threads_unlock(0, POOL->iput_mutex); d = e->data; free(e); own_got.push_back(d); VT_CHECK(zt_threadpool_insert_oput(POOL, d) == 0, "insert", "an insertion failed"); } }
static void *loop_out(void *p) { VT_CHECK(p == POOL, "loop", "a loop gets something else than its pool"); own_out++; zt_threads_end(p); return NULL; }
static void ownloops(Rng &r) { begin(r); install(); int threads = 1 + (int)r.below(4); bool oi = r.chance(2, 3), oo = !oi || r.chance(1, 2); op("%d threads, own %s%s loops", threads, oi ? "input" : "", oo ? "output" : ""); zt_threadpool_set_callbacks(NULL); struct zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb); if (oi) cb.iput_loop = loop_in; if (oo) cb.oput_loop = loop_out; zt_threadpool_set_callbacks(&cb); memset(&cb, 0, sizeof cb); cb.iput_worker = cb_in; cb.oput_worker = cb_out; cb.init = cb_init; zt_threadpool_set_callbacks(&cb); own_in = own_out = 0; own_got.clear(); init_by.clear(); init_out.clear(); inits = 0; in_order.clear(); out_order.clear(); std::vector<Item> items(r.below(12)); unsigned k = 0; for (auto &i : items) { i.id = i.no = k++; i.prod = 1; i.out = true; i.fin = false; } POOL = zt_threadpool_init(threads, threads, 0, 0); VT_CHECK(POOL && zt_threadpool_start(POOL) == 0, "start", "starting a pool failed"); for (auto &i : items) VT_CHECK(zt_threadpool_insert_iput(POOL, &i) == 0, "insert", "an insertion failed"); VT_CHECK(zt_threadpool_kill(POOL) == 0, "kill", "the shutdown failed"); VT_CHECK(own_in == (oi ? (unsigned)threads : 0) && own_out == (oo ? (unsigned)threads : 0), "loop", "%u input and %u output loops of the user ran", own_in, own_out); VT_CHECK(inits == (unsigned)threads * ((oi ? 0 : 1) + (oo ? 0 : 1)), "loop", "the built-in loops ran %u times", inits); size_t out = 0; for (void *d; (d = zt_threadpool_get_oput(POOL)); out++) ((Item *)d)->outn++; for (auto &i : items) VT_CHECK(i.outn == 1 && i.in == !oi, "loop-lost", "item %u was handed out %d times", i.id, i.outn); if (oi) VT_CHECK(own_got.size() == items.size(), "loop-lost", "a loop got %zu of %zu items", own_got.size(), items.size()); long left; destroy(POOL, &left); VT_CHECK(!left, "left", "%ld entries were left behind", left); zt_threadpool_set_callbacks(NULL); VT_CHECK(_zt_threads_lock_cbs.lock == b_lock, "install", "the backend changed"); ev(oi ? "own.input.loop" : "own.output.loop"); ev("own.loops"); finish(); }
// ---- routing
struct Call { std::string f; std::vector<uintptr_t> a; bool operator==(const Call &o) const { return f == o.f && a == o.a; } }; static std::vector<Call> calls; static uintptr_t answer;
#define REC(...) calls.push_back(Call{__VA_ARGS__})
static std::string nm(const char *n, int w) { return std::string(n) + (w ? "2" : "1"); }
template <int W> struct Rec { static void *alloc(int t) { REC(nm("alloc", W), {(uintptr_t)t}); return (void *)answer; } static void fre(void *l, int t) { REC(nm("free", W), {(uintptr_t)l, (uintptr_t)t}); } static int lock(int m, void *l) { REC(nm("lock", W), {(uintptr_t)m, (uintptr_t)l}); return (int)answer; } static int unlock(int m, void *l) { REC(nm("unlock", W), {(uintptr_t)m, (uintptr_t)l}); return (int)answer; } static void *calloc_(int t) { REC(nm("calloc", W), {(uintptr_t)t}); return (void *)answer; } static void cfree(void *c) { REC(nm("cfree", W), {(uintptr_t)c}); } static int signal(void *c, int b) { REC(nm("signal", W), {(uintptr_t)c, (uintptr_t)b}); return (int)answer; } static int wait(void *c, void *l, struct timeval *t) { REC(nm("wait", W), {(uintptr_t)c, (uintptr_t)l, (uintptr_t)t}); return (int)answer; } static int start(void *t, void *a, void *(*f)(void *), void *x) { REC(nm("start", W), {(uintptr_t)t, (uintptr_t)a, (uintptr_t)f, (uintptr_t)x}); return (int)answer; } static void end(void *a) { REC(nm("end", W), {(uintptr_t)a}); } static int kill(void *t) { REC(nm("kill", W), {(uintptr_t)t}); return (int)answer; } static unsigned long id() { REC(nm("id", W), {}); return answer; } static int join(void *t, void **d) { REC(nm("join", W), {(uintptr_t)t, (uintptr_t)d}); return (int)answer; } static int detach(void *t) { REC(nm("detach", W), {(uintptr_t)t}); return (int)answer; } };
template <int W> static void tables(struct zt_threads_lock_callbacks *l, struct zt_threads_cond_callbacks *c, struct zt_threads_cntrl_callbacks *t) { *l = {Rec<W>::alloc, Rec<W>::fre, Rec<W>::lock, Rec<W>::unlock}; *c = {Rec<W>::calloc_, Rec<W>::cfree, Rec<W>::signal, Rec<W>::wait}; *t = {Rec<W>::start, Rec<W>::end, Rec<W>::kill, Rec<W>::id, Rec<W>::join, Rec<W>::detach}; }
static void *nothing(void *p) { return p; }
static void routing(Rng &r) {
    struct M { int lk = 0, cv = 0, tc = 0; bool kill = false, id = false, join = false, detach = false; } m; // which backend each table belongs to (0: none)
    zt_threads_set_lock_callbacks(NULL); zt_threads_set_cond_callbacks(NULL); zt_threads_set_cntrl_callbacks(NULL); unsigned n = 6 + (unsigned)r.below(40); for (unsigned k = 0; k < n; k++) { evaluations(1); calls.clear(); answer = (uintptr_t)(int)(r.chance(1, 2) ? r.below(3) : r.u64() & 0x7fffffff); if (r.chance(1, 5)) answer = (uintptr_t)(intptr_t)-1; uintptr_t p1 = r.u64(), p2 = r.u64(), p3 = r.u64(), p4 = r.u64(); int i1 = (int)r.below(4);
        if (r.chance(1, 3)) { struct zt_threads_lock_callbacks l; struct zt_threads_cond_callbacks c; struct zt_threads_cntrl_callbacks t; int w = (int)r.below(2); if (w) tables<1>(&l, &c, &t); else tables<0>(&l, &c, &t); bool none = r.chance(1, 5), miss = !none && r.chance(1, 3); unsigned which = (unsigned)r.below(3), hole = (unsigned)r.below(4); int rc; if (which == 0) { if (miss) { if (hole == 0) l.alloc = NULL; else if (hole == 1) l.free = NULL; else if (hole == 2) l.lock = NULL; else l.unlock = NULL; } rc = zt_threads_set_lock_callbacks(none ? NULL : &l); if (!miss) m.lk = none ? 0 : w + 1; memset(&l, 0x5a, sizeof l); } else if (which == 1) { if (miss) { if (hole == 0) c.alloc = NULL; else if (hole == 1) c.free = NULL; else if (hole == 2) c.signal = NULL; else c.wait = NULL; } rc = zt_threads_set_cond_callbacks(none ? NULL : &c); if (!miss) m.cv = none ? 0 : w + 1; memset(&c, 0x5a, sizeof c); } else { bool a = r.chance(2, 3), b = r.chance(2, 3), d = r.chance(2, 3), e = r.chance(2, 3); if (!a) t.kill = NULL; if (!b) t.id = NULL; if (!d) t.join = NULL; if (!e) t.detach = NULL; if (miss) { if (hole & 1) t.start = NULL; else t.end = NULL; } rc = zt_threads_set_cntrl_callbacks(none ? NULL : &t); if (!miss) { m.tc = none ? 0 : w + 1; m.kill = a; m.id = b; m.join = d; m.detach = e; } memset(&t, 0x5a, sizeof t); } op("%s table %u of backend %d%s", none ? "remove" : "install", which, w, miss ? " incomplete" : ""); VT_CHECK(rc == (miss ? -1 : 0), "install", "%s backend table gives %d", none ? "removing a" : miss ? "an incomplete" : "a complete", rc); VT_CHECK(calls.empty(), "route", "installing a backend calls it"); ev(none ? "remove" : miss ? "refused" : "installed"); continue; }
        unsigned f = (unsigned)r.below(14); Call want; bool call = true, has = false; intptr_t got = 0; int owner = 0; void *(*fn)(void *) = nothing; struct timeval tv = {1, 2}; struct timeval *tp = r.chance(1, 2) ? &tv : NULL; void *d; void **dp = r.chance(1, 2) ? &d : NULL; op("call %u", f);
        switch (f) { case 0: got = (intptr_t)zt_threads_alloc_lock(i1); want = {"alloc", {(uintptr_t)i1}}; owner = m.lk; has = true; break; case 1: zt_threads_free_lock((void *)p1, i1); want = {"free", {p1, (uintptr_t)i1}}; owner = m.lk; break; case 2: got = zt_threads_lock(i1, (void *)p1); want = {"lock", {(uintptr_t)i1, p1}}; owner = m.lk; has = true; break; case 3: got = zt_threads_unlock(i1, (void *)p1); want = {"unlock", {(uintptr_t)i1, p1}}; owner = m.lk; has = true; break; case 4: got = (intptr_t)zt_threads_cond_alloc(i1); want = {"calloc", {(uintptr_t)i1}}; owner = m.cv; has = true; break; case 5: zt_threads_cond_free((void *)p1); want = {"cfree", {p1}}; owner = m.cv; break; case 6: got = zt_threads_cond_signal((void *)p1, i1 & 1); want = {"signal", {p1, (uintptr_t)(i1 & 1)}}; owner = m.cv; has = true; break; case 7: got = zt_threads_cond_wait((void *)p1, (void *)p2, tp); want = {"wait", {p1, p2, (uintptr_t)tp}}; owner = m.cv; has = true; break; case 8: got = zt_threads_start((void *)p1, (void *)p2, fn, (void *)p3); want = {"start", {p1, p2, (uintptr_t)fn, p3}}; owner = m.tc; has = true; break; case 9: zt_threads_end((void *)p1); want = {"end", {p1}}; owner = m.tc; break; case 10: got = zt_threads_kill((void *)p1); want = {"kill", {p1}}; owner = m.tc; call = m.kill; has = true; break; case 11: got = (intptr_t)zt_threads_id(); want = {"id", {}}; owner = m.tc; call = m.id; has = true; break; case 12: got = zt_threads_join((void *)p1, dp); want = {"join", {p1, (uintptr_t)dp}}; owner = m.tc; call = m.join; has = true; break; default: got = zt_threads_detach((void *)p1); want = {"detach", {p1}}; owner = m.tc; call = m.detach; has = true; break; } (void)p4;
        if (!owner || !call) { VT_CHECK(calls.empty(), "route-none", "without a backend %s is called", calls.empty() ? "" : calls[0].f.c_str()); if (f == 0 || f == 4) VT_CHECK(got == 0, "route-none", "without a backend there is a lock or condition"); if (f == 2 || f == 3 || f == 6 || f == 7) VT_CHECK(got == 0, "route-none", "without a backend locking or waiting fails with %ld", (long)got); ev(owner ? "call.optional" : "call.none"); continue; }
        want.f += owner == 2 ? "2" : "1"; VT_CHECK(calls.size() == 1, "route", "%zu calls for one of %s", calls.size(), want.f.c_str()); VT_CHECK(calls[0] == want, "route", "%s is called for %s, or with other arguments", calls[0].f.c_str(), want.f.c_str()); if (has) { intptr_t w = f == 0 || f == 4 || f == 11 ? (intptr_t)answer : (intptr_t)(int)answer; VT_CHECK(got == w, "route-answer", "%s answered %ld, the caller got %ld", want.f.c_str(), (long)w, (long)got); } ev("call.routed"); }
    if (r.chance(1, 2)) { zt_threads_set_lock_callbacks(NULL); zt_threads_set_cond_callbacks(NULL); zt_threads_set_cntrl_callbacks(NULL); calls.clear(); bool po = r.chance(1, 2); zt_threadpool_set_callbacks(NULL); zt_threadpool *p = zt_threadpool_init(1, 1, 0, po); VT_CHECK(p, "bare", "no pool without a backend"); uintptr_t head = 1, tail = 1; unsigned n = (unsigned)r.below(40); for (unsigned k = 0; k < n; k++) { if (r.chance(1, 2)) { VT_CHECK(zt_threadpool_insert_oput(p, (void *)tail) == 0, "bare", "an insertion failed"); tail++; } else { uintptr_t g = (uintptr_t)zt_threadpool_get_oput(p); VT_CHECK(g == (head < tail ? head : 0), "bare-order", "the queue gives %lu, want %lu", (unsigned long)g, (unsigned long)(head < tail ? head : 0)); if (g) head++; } } VT_CHECK(zt_threadpool_kill(p) == 0, "bare", "the shutdown failed"); if (po) { long b = drain(zt_threadpool_oput_fd_reader(p)); VT_CHECK(b == (long)(tail - 1) + 1, "pipe", "%ld wakeups for %lu outputs and the shutdown", b, (unsigned long)(tail - 1)); } long left; destroy(p, &left); VT_CHECK(left == (long)(tail - head) && calls.empty(), "bare", "%ld of %lu outputs are left", left, (unsigned long)(tail - head)); ev("pool.bare"); } }
void vt_init() { Quiet q; sem_init(&MAIN.s, 0, 0); pthread_t t; pthread_create(&t, NULL, watchdog, NULL); pthread_detach(t); }
void vt_case(Rng &r, uint64_t idx) { nontrivial(true); mix(r.s); static uint64_t runs; static long base; if (idx % 8 == 7) routing(r); else if (idx % 16 == 3) ownloops(r); else pool(r); std::vector<Item *>().swap(in_order); std::vector<Item *>().swap(out_order); std::vector<Item *>().swap(init_out); std::vector<void *>().swap(own_got); std::vector<Call>().swap(calls); init_by.clear(); change.clear(); std::vector<T *>().swap(ts); if (++runs % 50 == 0) { long l = live(); if (runs == 50) base = l; else VT_CHECK(l - base < 16, "leak", "%ld heap blocks more after %lu further cases", l - base, (unsigned long)runs - 50); ev("balance"); } }
