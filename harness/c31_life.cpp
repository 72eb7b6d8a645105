// C31: exit functions, pid files, daemonising - observed in real child processes.
#include "ztc.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <limits.h>
#include <errno.h>
#include <signal.h>
extern "C" {
#include <libzt/zt_daemon.h>
}
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
// ---- what the library's system calls meet
static bool inlib; static int write_fault, close_fault, fork_fault = -1, forks; static bool fired; static long fake_closes; static bool faking;
extern "C" { ssize_t __real_write(int, const void *, size_t); int __real_close(int); pid_t __real_fork(void); unsigned __real_sleep(unsigned); int __real_getrlimit(int, struct rlimit *); int __real_getrlimit64(int, struct rlimit64 *);
ssize_t __wrap_write(int fd, const void *p, size_t n) { if (inlib && write_fault) { int f = write_fault; if (f == 1) { write_fault = 0; errno = EINTR; return -1; } fired = true; if (f == 2) { errno = ENOSPC; return -1; } if (f == 3) { write_fault = 2; return n > 1 ? __real_write(fd, p, n / 2) : 0; } if (f == 4) { write_fault = 0; fired = false; errno = EINTR; return -1; } errno = EIO; return -1; } return __real_write(fd, p, n); }
int __wrap_close(int fd) { if (faking) { fake_closes++; return 0; } int r = __real_close(fd); if (inlib && close_fault) { close_fault = 0; fired = true; errno = EIO; return -1; } return r; }
pid_t __wrap_fork(void) { if (inlib && forks++ == fork_fault) { errno = EAGAIN; return -1; } return __real_fork(); }
unsigned __wrap_sleep(unsigned n) { if (inlib) { usleep(1000); return 0; } return __real_sleep(n); }
int __wrap_getrlimit(int w, struct rlimit *r) { if (faking && w == RLIMIT_NOFILE) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; } return __real_getrlimit(w, r); }
int __wrap_getrlimit64(int w, struct rlimit64 *r) { return __wrap_getrlimit(w, (struct rlimit *)r); } }
// ---- exit functions
struct Shared { volatile int n; int id[4096]; volatile int bad; };
static Shared *sh;
struct CB { int id; std::vector<int> kids; bool null; /* registered with a null argument; runs as -2 */ };
static std::vector<CB> *cbs; static bool exiting;
static void on_exit_fn(void *data);
static void on_exit_null(void *data) { if (data) { sh->bad = 1; return; } if (sh->n < 4096) { sh->id[sh->n] = -2; sh->n = sh->n + 1; } }
static void enlist(int k) { if ((*cbs)[k].null) zt_atexit(on_exit_null, NULL); else zt_atexit(on_exit_fn, &(*cbs)[k]); }
static void on_exit_fn(void *data) { CB *c = (CB *)data; if (c < &(*cbs)[0] || c >= &(*cbs)[0] + cbs->size()) { sh->bad = 1; return; } if (sh->n < 4096) { sh->id[sh->n] = c->id; sh->n = sh->n + 1; } for (int k : c->kids) enlist(k); }
static int libc_cb; static void libc_fn() { if (sh->n < 4096) { sh->id[sh->n] = -1; sh->n = sh->n + 1; } if (libc_cb >= 0) enlist(libc_cb); }
static void exits(Rng &r) {
    Quiet q; std::vector<CB> v; unsigned roots = (unsigned)r.below(r.chance(1, 10) ? 120 : 8); for (unsigned i = 0; i < roots; i++) v.push_back({(int)i, {}, false}); for (size_t i = 0; i < v.size() && v.size() < 300; i++) if (r.chance(1, 4)) { unsigned k = 1 + (unsigned)r.below(3); while (k--) { v[i].kids.push_back((int)v.size()); v.push_back({(int)v.size(), {}, false}); } } bool late = r.chance(1, 4); libc_cb = -1; if (late) { libc_cb = (int)v.size(); v.push_back({libc_cb, {}, false}); if (r.chance(1, 2)) { v[libc_cb].kids.push_back((int)v.size()); v.push_back({(int)v.size(), {}, false}); } } bool libc = late || r.chance(1, 8); int code = (int)r.below(256), how = (int)r.below(3);
    bool nulls = false; if (r.chance(1, 3)) for (CB &c : v) if (c.kids.empty() && r.chance(1, 3)) c.null = nulls = true;
    // the same function and argument may be registered more than once
    std::vector<int> order; for (unsigned i = 0; i < roots; i++) order.push_back((int)i); if (roots && r.chance(1, 4)) order.push_back((int)r.below(roots));
    std::vector<int> want; std::vector<int> st; auto runall = [&] { while (!st.empty()) { int c = st.back(); st.pop_back(); want.push_back(v[c].null ? -2 : c); for (int k : v[c].kids) st.push_back(k); if (want.size() > 4000) harness_error("order"); } }; for (int o : order) st.push_back(o); runall(); if (libc) { want.push_back(-1); if (late) { st.push_back(libc_cb); runall(); } }
    cbs = &v; sh->n = 0; sh->bad = 0; op("%zu exit functions%s%s", order.size(), libc ? ", a libc one" : "", late ? " that registers one" : ""); std::string err;
    int status = run_forked([&] { if (libc) atexit(libc_fn); for (size_t i = 0; i < order.size(); i++) enlist(order[i]); if (how == 0) { zt_log_printf(zt_log_debug, "x"); } exit(code); }, &err); VT_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == code, "exit-code", "the process ended with %#x, want %d: %s", status, code, err.substr(0, 300).c_str());
    VT_CHECK(!sh->bad, "data", "an exit function got a foreign argument"); size_t n = (size_t)sh->n; for (size_t i = 0; i < want.size() || i < n; i++) VT_CHECK(i < want.size() && i < n && want[i] == sh->id[i], "order", "exit function %d ran as number %zu, want %d (%zu ran, want %zu)", i < n ? sh->id[i] : -9, i, i < want.size() ? want[i] : -9, n, want.size()); ev("exit"); ev("exit.functions", n + 1); if (v.size() > roots) ev("exit.nested"); if (late) ev("exit.late"); if (order.size() > roots) ev("exit.twice"); if (!roots) ev("exit.none"); if (nulls) ev("exit.null");
}
// ---- pid files
static std::string readfile(const std::string &p) { std::string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static int fds() { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void pidfile(Rng &r) {
    std::string root = std::string(scratch()) + "/p", p, err; mkdir(root.c_str(), 0755); bool good = true, existing = false; unsigned mode = 0644, um = r.chance(1, 2) ? 022 : r.chance(1, 2) ? 0 : r.chance(1, 2) ? 077 : 027; const char *what = ""; std::string target;
    switch (r.below(9)) { case 0: p = root + "/missing/x.pid"; good = false; what = "missing directory"; break; case 1: p = root; good = false; what = "a directory"; break; case 2: { p = root + "/old"; int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); std::string junk = r.str(r.below(300), "0123456789\nabc"); (void)!__real_write(fd, junk.data(), junk.size()); close(fd); static const unsigned M[] = {0600, 0644, 0444, 0755}; mode = M[r.below(4)]; chmod(p.c_str(), mode); existing = true; what = "existing"; break; } case 3: { target = root + "/tgt"; p = root + "/link"; unlink(p.c_str()); unlink(target.c_str()); (void)!symlink("tgt", p.c_str()); what = "link"; break; } case 4: p = "/dev/full"; good = false; what = "full device"; break; case 5: p = root + "/" + std::string(300, 'n'); good = false; what = "overlong"; break; case 6: p = "rel.pid"; what = "relative"; break; default: p = root + "/" + r.str(1 + r.below(20), "ab .%sn"); if (p.find_last_not_of('.') == root.size()) p += "x"; what = "new"; } bool null = r.chance(1, 40);
    if (!existing && good) { unlink(p.c_str()); } if (chdir(root.c_str())) harness_error("chdir"); umask(um); bool child = r.chance(1, 6); int wf = r.chance(1, 4) ? 1 + (int)r.below(5) : 0, cf = r.chance(1, 10); if (p == "/dev/full") wf = cf = 0; fired = false; op("pid file %s%s%s", null ? "(null)" : what, wf ? ", write fault" : "", cf ? ", close fault" : ""); int before = fds(), rc = 0; long pid = getpid(); bool hit = false;
    if (child) { Quiet q; int *res = &sh->id[0]; int st = run_forked([&] { inlib = true; write_fault = wf; close_fault = cf; int x = zt_writepid(null ? NULL : p.c_str()); inlib = false; res[0] = x; res[1] = fired; res[2] = (int)getpid(); }, &err); VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash", "the child ended with %#x %s", st, err.substr(0, 300).c_str()); rc = res[0]; hit = res[1]; pid = res[2]; ev("pid.child"); }
    else { inlib = true; write_fault = wf; close_fault = cf; rc = zt_writepid(null ? NULL : p.c_str()); inlib = false; hit = fired; write_fault = close_fault = 0; VT_CHECK(fds() == before, "descriptor", "%d descriptors open, before %d", fds(), before); }
    umask(022); VT_CHECK(rc == 0 || rc == -1, "code", "zt_writepid returned %d", rc); if (null || !good) { VT_CHECK(rc == -1, "accepted", "a pid file (%s) that cannot be written is reported as written", null ? "null" : what); ev("pid.refused"); }
    else { if (hit) { VT_CHECK(rc == -1, "fault-hidden", "the system reported an error, zt_writepid did not"); ev("pid.fault"); } else { VT_CHECK(rc == 0, "refused", "a pid file (%s) that can be written is refused", what); std::string s = readfile(p); char want[40]; snprintf(want, sizeof want, "%ld\n", pid); VT_CHECK(s == want, "content", "the pid file (%s) holds \"%s\", want \"%s\"", what, esc(s).c_str(), esc(want).c_str()); struct stat sb; if (stat(p.c_str(), &sb)) harness_error("stat"); unsigned wm = existing ? mode : mode & ~um; VT_CHECK((sb.st_mode & 07777) == wm, "mode", "the pid file (%s) has mode %o, want %o", what, (unsigned)sb.st_mode & 07777, wm); ev(existing ? "pid.existing" : "pid.new"); if (wf) ev("pid.interrupted"); } unlink(p.c_str()); if (!target.empty()) unlink(target.c_str()); }
    if (chdir("/")) harness_error("chdir");
}
// ---- daemonising
static void daemonise(Rng &r) {
    Quiet q; std::string root = std::string(scratch()) + "/d", rep = std::string(scratch()) + "/report"; mkdir(root.c_str(), 0755); unlink(rep.c_str()); int how = (int)r.below(8); bool missing = how == 0, nofork = how == 1, nofork2 = how == 2, null = how == 3; mode_t mask = (mode_t)r.below(01000); std::string cwd = scratch(); if (chdir(cwd.c_str())) harness_error("chdir"); if (prctl(PR_SET_CHILD_SUBREAPER, 1)) harness_error("subreaper"); int extra = (int)r.below(20); std::string err; op("daemonise%s%s%s mask %o", missing ? " with a missing root" : "", nofork || nofork2 ? " without processes" : "", null ? " without a root" : "", (unsigned)mask);
    pid_t orig_sid = getsid(0); int status = run_forked([&] {
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 200; setrlimit(RLIMIT_NOFILE, &rl); for (int i = 0; i < extra; i++) (void)!dup(2); inlib = true; forks = 0; fork_fault = nofork ? 0 : nofork2 ? 1 : -1; std::string gone = root + "/none"; int rc = zt_daemonize(null ? NULL : (char *)(missing ? gone : root).c_str(), mask, 0); inlib = false;
        // the daemon
        char b[PATH_MAX], out[PATH_MAX + 400]; if (!getcwd(b, sizeof b)) b[0] = 0; mode_t m = umask(0); int open_ = 0, nulls = 0; struct stat nul; stat("/dev/null", &nul); for (int i = 0; i < 256; i++) { struct stat sb; if (fstat(i, &sb) == 0) { open_++; if (i < 3 && S_ISCHR(sb.st_mode) && sb.st_rdev == nul.st_rdev && (i ? (fcntl(i, F_GETFL) & O_ACCMODE) != O_RDONLY : (fcntl(i, F_GETFL) & O_ACCMODE) != O_WRONLY)) nulls++; } }
        int n = snprintf(out, sizeof out, "%d %o %d %d %d %d %d %s", rc, (unsigned)m, open_, nulls, (int)(getsid(0) != orig_sid), (int)(getsid(0) != getpid()), (int)(getpgrp() != getpid()), b); std::string tmp = rep + ".t"; int fd = open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); (void)!write(fd, out, n); close(fd); rename(tmp.c_str(), rep.c_str()); _exit(7); }, &err, nullptr, 30);
    // reap whoever is left: the daemon has become our child
    int daemons = 0, dstatus = 0; for (uint64_t end = now_ms() + 30000; now_ms() < end;) { int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p > 0) { if (WIFEXITED(st) && WEXITSTATUS(st) == 7) daemons++; dstatus = st; continue; } if (p < 0 && errno == ECHILD) break; usleep(500); } prctl(PR_SET_CHILD_SUBREAPER, 0);
    VT_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == (nofork ? 1 : 0), "parent", "the calling process ended with %#x %s", status, err.substr(0, 300).c_str()); std::string s = readfile(rep);
    if (missing || nofork || nofork2) { VT_CHECK(s == "?" && !daemons, "daemon", "a daemon runs although it could not be set up"); ev("daemon.refused"); }
    else { VT_CHECK(s != "?" && daemons == 1, "daemon", "no daemon runs (%#x) %s", dstatus, err.substr(0, 300).c_str()); int rc, op_, nu, s1, s2, s3, at = 0; unsigned m; if (sscanf(s.c_str(), "%d %o %d %d %d %d %d %n", &rc, &m, &op_, &nu, &s1, &s2, &s3, &at) != 7) harness_error("report %s", s.c_str()); char rp[PATH_MAX]; std::string want = realpath(null ? cwd.c_str() : root.c_str(), rp) ? rp : "?"; VT_CHECK(rc == 0, "daemon-code", "zt_daemonize returned %d", rc); VT_CHECK(m == (unsigned)mask, "daemon-mask", "the mask is %o, want %o", m, (unsigned)mask); VT_CHECK(op_ == 3 && nu == 3, "daemon-streams", "%d descriptors are open, %d standard streams lead nowhere", op_, nu); VT_CHECK(s1 && s2 && s3, "daemon-session", "the daemon is %s", !s1 ? "in its old session" : "a session or group leader"); VT_CHECK(s.substr(at) == want, "daemon-root", "the daemon works in %s, want %s", s.substr(at).c_str(), want.c_str()); ev(null ? "daemon.anywhere" : "daemon"); }
    unlink(rep.c_str()); if (chdir("/")) harness_error("chdir");
}
static void unlimited() { Quiet q; std::string err; op("daemonise with unlimited descriptors"); uint64_t t = now_ms(); int st = run_forked([] { inlib = faking = true; forks = 0; fork_fault = 1; zt_daemonize(NULL, 0, 0); _exit(9); }, &err, nullptr, 100); VT_CHECK(st != -1 && WIFEXITED(st), "endless", "closing the descriptors does not end (%llu ms)", (unsigned long long)(now_ms() - t)); ev("daemon.unlimited"); }
void vt_init() { Quiet q; sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); zt_log_ty *l = zt_log_stderr(0); zt_log_set_level(l, zt_log_emerg); zt_log_logger(l); zt_log_printf(zt_log_err, "warm"); zt_log_strerror(zt_log_err, 1, "warm"); scratch(); }
void vt_case(Rng &r, uint64_t idx) { nontrivial(true); mix(r.s);
#ifdef UNLIMITED
    (void)idx; unlimited(); return;
#endif
    evaluations(1); if (idx % 16 == 7) daemonise(r); else if (idx % 2) exits(r); else for (int i = 0; i < 6; i++) { evaluations(1); pidfile(r); } }
