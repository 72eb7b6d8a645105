// C45: system calls of the library fail, are interrupted or are served only partly; every case in a process of its own.
#include "ztc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <limits.h>
#include <pthread.h>
#include <errno.h>
#include <atomic>
#include <thread>
#include <mutex>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_threads.h>
#include <libzt/zt_unit.h>
#include <libzt/zt_daemon.h>
}
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
// ---- faults
enum { F_OPEN = 1, F_WRITE = 2, F_PIPE = 4, F_THREAD = 8, F_MKDIR = 16, F_STAT = 32, F_CWD = 64, F_LINK = 128, F_HOST = 256, F_CREAT = 512, F_CLOSE = 1024, F_MUTEX = 2048, F_COND = 4096 };
static std::atomic<bool> armed; static std::atomic<long> countdown; static std::atomic<long> points; static bool persistent; static int fault_errno, kinds, times; static std::atomic<int> fired;
static int errno_for(int k, uint64_t x) { static const int E[][6] = {{EMFILE, EACCES, ENFILE, EINTR, EIO, ELOOP}, {EINTR, EINTR, EINTR, EIO, EPIPE, ENOSPC}, {EMFILE, ENFILE, EMFILE, ENFILE, EMFILE, ENFILE}, {EAGAIN, EAGAIN, EPERM, ENOMEM, EAGAIN, EAGAIN}, {EACCES, ENOSPC, EROFS, EIO, ENOENT, EMLINK}, {EACCES, EIO, ENOENT, ELOOP, ENOTDIR, EOVERFLOW}, {ENOENT, EACCES, ERANGE, ENAMETOOLONG, EIO, ENOMEM}, {EACCES, EIO, ENOENT, ELOOP, EINVAL, ENOSYS}, {ENAMETOOLONG, EFAULT, EPERM, ENAMETOOLONG, EFAULT, EPERM}, {EMFILE, EACCES, ENOSPC, EROFS, EISDIR, EIO}, {EIO, ENOSPC, EINTR, EDQUOT, EIO, EIO}, {EAGAIN, ENOMEM, EAGAIN, ENOMEM, EAGAIN, ENOMEM}, {EAGAIN, ENOMEM, EAGAIN, ENOMEM, EAGAIN, ENOMEM}}; int i = 0; while (!(k >> i & 1)) i++; return E[i][x % 6]; }
static bool deny(int k) { if (!armed || !(kinds & k)) return false; points++; long c = countdown; if (c < 0) return false; if (c > 0) { countdown = c - 1; return false; } fired++; if (!persistent && (--times <= 0)) countdown = -1; errno = fault_errno = errno_for(k, (uint64_t)points + (uint64_t)times); return true; }
// streams the library opens: read and written a few bytes at a time, failing after some of them
static size_t piece; static long fail_after; static int stream_errno; static bool stream_once; static std::atomic<bool> stream_on; static bool close_fails; static int streams_open;
struct CK { int fd; long done; };
static ssize_t ck_read(void *v, char *b, size_t n) { CK *c = (CK *)v; if (fail_after >= 0 && c->done >= fail_after) { if (stream_once) fail_after = -1; fired++; errno = stream_errno; return -1; } size_t m = piece && piece < n ? piece : n; if (fail_after >= 0 && (long)m > fail_after - c->done) m = fail_after - c->done; ssize_t k = read(c->fd, b, m); if (k > 0) c->done += k; return k; }
extern "C" ssize_t __real_write(int, const void *, size_t);
static ssize_t ck_write(void *v, const char *b, size_t n) { CK *c = (CK *)v; if (fail_after >= 0 && c->done >= fail_after) { if (stream_once) fail_after = -1; fired++; errno = stream_errno; return 0; } size_t m = n; if (fail_after >= 0 && (long)m > fail_after - c->done) { m = fail_after - c->done; if (m < n) fired++; } ssize_t k = __real_write(c->fd, b, m); if (k > 0) c->done += k; return k < 0 ? 0 : k; }
static int ck_close(void *v) { CK *c = (CK *)v; streams_open--; int fd = c->fd; free(c); close(fd); if (close_fails) { fired++; errno = EIO; return -1; } return 0; }
extern "C" {
FILE *__real_fopen(const char *, const char *);
static FILE *open_(const char *p, const char *m) { if (deny(F_OPEN)) return NULL; if (!armed || !stream_on) return __real_fopen(p, m); int fd = open(p, *m == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (*m == 'a' ? O_APPEND : O_TRUNC), 0666); if (fd < 0) return NULL; CK *c = (CK *)calloc(1, sizeof *c); c->fd = fd; cookie_io_functions_t io = {ck_read, ck_write, NULL, ck_close}; FILE *f = fopencookie(c, m, io); if (f) streams_open++; return f; }
FILE *__wrap_fopen(const char *p, const char *m) { return open_(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return open_(p, m); }
ssize_t __wrap_write(int f, const void *p, size_t n) { return deny(F_WRITE) ? -1 : __real_write(f, p, n); }
int __real_pipe(int *); int __wrap_pipe(int *p) { return deny(F_PIPE) ? -1 : __real_pipe(p); }
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) { if (deny(F_THREAD)) return fault_errno; return __real_pthread_create(t, a, f, d); }
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return deny(F_MUTEX) ? fault_errno : __real_pthread_mutex_init(m, a); }
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *); int __wrap_pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a) { return deny(F_COND) ? fault_errno : __real_pthread_cond_init(m, a); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { return deny(F_MKDIR) ? -1 : __real_mkdir(p, m); }
int __real_stat(const char *, struct stat *); int __wrap_stat(const char *p, struct stat *s) { if (deny(F_STAT)) { memset(s, 0x5a, sizeof *s); return -1; } return __real_stat(p, s); }
int __real_stat64(const char *, struct stat *); int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
char *__real_getcwd(char *, size_t); char *__wrap_getcwd(char *p, size_t n) { if (deny(F_CWD)) { if (p && n) memset(p, 1, n > 64 ? 64 : n); return NULL; } return __real_getcwd(p, n); }
char *__real___getcwd_chk(char *, size_t, size_t); char *__wrap___getcwd_chk(char *p, size_t n, size_t) { return __wrap_getcwd(p, n); }
ssize_t __real_readlink(const char *, char *, size_t); ssize_t __wrap_readlink(const char *p, char *b, size_t n) { return deny(F_LINK) ? -1 : __real_readlink(p, b, n); }
int __real_gethostname(char *, size_t); int __wrap_gethostname(char *b, size_t n) { if (deny(F_HOST)) { memset(b, '%', n); return -1; } return __real_gethostname(b, n); }
int __real_creat(const char *, mode_t); int __wrap_creat(const char *p, mode_t m) { return deny(F_CREAT) ? -1 : __real_creat(p, m); }
int __real_close(int); int __wrap_close(int f) { if (deny(F_CLOSE)) { int e = fault_errno; if (e != EINTR) __real_close(f); errno = e; return -1; } return __real_close(f); }
}
#define L(...) ({ armed = true; auto l_ = (__VA_ARGS__); armed = false; l_; })
#define LV(...) do { armed = true; __VA_ARGS__; armed = false; } while (0)
static const char *const EVN[] = {"cfg.unreadable", "cfg.rejected", "log.hit", "output.full", "unit.full", "uuid.norandom", "mkdir.failed", "stat.failed", "prog.failed", "pid.failed", "pool.refused", "pool.start.failed", "pool.interrupted", "pool.wakeups", "keys"}; enum { NEV = 15 };
struct Out { volatile int fired, done; volatile long points; volatile int evs[NEV]; }; static Out *out;
static void EV(const char *n) { for (int i = 0; i < NEV; i++) if (!strcmp(EVN[i], n)) out->evs[i]++; }
#define CAUSE(key, ...) VT_CHECK(fired > 0, key, __VA_ARGS__)
static int count_fds() { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static std::string slurp(const std::string &p) { std::string s; FILE *f = __real_fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spew(const std::string &p, const std::string &s) { FILE *f = __real_fopen(p.c_str(), "w"); if (!f) harness_error("fopen %s", p.c_str()); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string root;                          // this case's directory
static bool is_dir(const std::string &p) { struct stat s; return __real_stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
// ---- scenarios: each runs once with a fault planned, then once more without
static void s_cfg(Rng &r) { std::string file = root + "/cfg"; std::vector<std::string> keys, blocks; std::vector<long> vals; std::string t; std::string blk = "Global"; unsigned n = r.below(80); for (unsigned i = 0; i < n; i++) { if (r.chance(1, 8)) { blk = "b" + std::to_string(i); t += "[" + blk + "]\n"; } if (r.chance(1, 8)) t += "# " + r.str(r.below(70), "comment =[]'") + "\n"; if (r.chance(1, 8)) t += "\n"; keys.push_back("v" + std::to_string(i)); blocks.push_back(blk); vals.push_back((long)r.below(100000)); t += keys[i] + " = " + std::to_string(vals[i]) + (r.chance(1, 5) ? "   ; note" : "") + "\n"; } if (n && r.chance(1, 4)) t.pop_back(); spew(file, t);
    int dirs = 0; if (r.chance(1, 12)) { file = root; dirs = 1; } else if (r.chance(1, 20)) { file = "/proc/self/mem"; dirs = 2; } else if (r.chance(1, 20)) { file = root + "/none"; dirs = 3; }
    std::string log = root + "/log"; zt_log_ty *lg = zt_log_file((char *)log.c_str(), 0, 0), *old = zt_log_logger(lg); int f0 = count_fds(); stream_on = true; kinds = F_OPEN; zt_cfg_ty *c = L(zt_cfg_ini((char *)file.c_str(), 0)); stream_on = false; VT_CHECK(count_fds() == f0, "fds", "reading a configuration leaves descriptors open"); zt_log_logger(old); zt_log_close(lg); std::string said = slurp(log);
    if (dirs) { VT_CHECK(!c, "unreadable", "%s is accepted as a configuration", dirs == 1 ? "a directory" : dirs == 2 ? "a file that cannot be read" : "a missing file"); EV("cfg.unreadable"); }
    else if (!c) CAUSE("rejected", "a sound configuration read in pieces of %zu is rejected: %s", piece, esc(said).c_str());
    else { for (unsigned i = 0; i < n; i++) { long v = -1; int rc = zt_cfg_get_int(c, (char *)blocks[i].c_str(), (char *)keys[i].c_str(), &v); VT_CHECK(rc >= 0 && v == vals[i], "incomplete", "the file could not be read to its end, and is accepted with %u of %u variables (%d faults after %ld, pieces of %zu; v%u is %ld, %d, want %ld; said %s)", i, n, (int)fired, fail_after, piece, i, v, rc, vals[i], esc(said).c_str()); } }
    if (!c && fail_after >= 0 && fired && !dirs) EV("cfg.rejected"); if (c) zt_cfg_close(c); }
static void s_log(Rng &r) { std::string file = root + "/sink"; unlink(file.c_str()); unsigned opts = r.chance(1, 2) ? 0 : (unsigned)r.below(32); bool err = r.chance(1, 5); kinds = F_OPEN | F_HOST; stream_on = true; int f0 = count_fds(); zt_log_ty *l = L(zt_log_file((char *)file.c_str(), r.chance(1, 2) ? ZT_LOG_FILE_APPEND : 0, opts)); (void)err; if (!l) { CAUSE("open", "no logger"); VT_CHECK(count_fds() == f0, "fds", "a failed open leaves descriptors"); stream_on = false; return; }
    std::vector<std::string> m; std::vector<bool> clean; unsigned n = 1 + (unsigned)r.below(12); for (unsigned i = 0; i < n; i++) { char t[200]; std::string pad = r.str(r.chance(1, 20) ? 100 : r.below(20), "abcdef"); snprintf(t, sizeof t, "<<message %u %s>>", i, pad.c_str()); m.push_back(t); int b = fired; LV(zt_log_lprintf(l, zt_log_err, "%s", t)); clean.push_back(fired == b || (kinds == 0)); }
    int before = fired; LV(zt_log_close(l)); stream_on = false; bool quiet_close = fired == before; VT_CHECK(count_fds() == f0 && streams_open == 0, "fds", "closing a logger leaves its file open"); std::string got = slurp(file); size_t pos = 0; bool hostfault = fail_after < 0 && stream_errno == 0; (void)hostfault;
    bool broken = false; for (bool c : clean) if (!c) broken = true; if (!quiet_close) broken = true;
    for (unsigned i = 0; i < n; i++) { size_t k = got.find(m[i]); if (!clean[i]) { EV("log.hit"); continue; } if (k == std::string::npos && fail_after >= 0) continue; VT_CHECK(k != std::string::npos, "lost", "message %u of %u is not in the file, though no write of it failed: %s", i, n, esc(got).c_str()); VT_CHECK(k >= pos && got.find(m[i], k + 1) == std::string::npos, "order", "message %u is out of order or written twice", i); VT_CHECK(k + m[i].size() < got.size() && got[k + m[i].size()] == '\n', "line", "message %u does not end its line", i); pos = k; }
    if (!broken && fired == 0) { size_t lines = 0; for (char ch : got) lines += ch == '\n'; VT_CHECK(lines == n, "whole", "%zu lines, want %u: %s", lines, n, esc(got).c_str()); } }
static void s_stderr_full(Rng &r) { int full = open("/dev/full", O_WRONLY), o1 = dup(1), o2 = dup(2); int how = (int)r.below(3); fflush(NULL); if (how == 0) { dup2(full, 2); dup2(full, 1); } else if (how == 1) { dup2(full, 1); close(2); } else { close(1); dup2(full, 2); } kinds = 0;
    int bad = 0; zt_log_ty *l = zt_log_stderr(ZT_LOG_WITH_LEVEL); if (l) { zt_log_lprintf(l, zt_log_err, "nobody sees %d", 1); zt_log_close(l); } char buf[100]; memset(buf, 'x', sizeof buf); (void)zt_fmt_printf("%s", "lost"); fflush(stdout); (void)zt_fmt_sprintf(buf, sizeof buf, "%d", 7); if (strcmp(buf, "7")) bad = 1; zt_opt_def_t d[] = {{'a', (char *)"aa", (char *)"x", NULL, NULL, (char *)"help text"}, {0, NULL, NULL, NULL, NULL, NULL}}; zt_opt_usage("prog", "[x]", d); fflush(stdout);
    dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(full); clearerr(stdout); clearerr(stderr); VT_CHECK(!bad, "unwritable", "an unwritable terminal changes something else (%d)", bad); EV("output.full"); fired++; }
static void u_ok(zt_unit_test *test, void *) { ZT_UNIT_ASSERT(test, 1 == 1); } static void u_bad(zt_unit_test *test, void *) { ZT_UNIT_ASSERT(test, 1 == 1); ZT_UNIT_ASSERT(test, 1 == 2); }
static void s_unit_full(Rng &r) { kinds = 0; zt_unit *u = zt_unit_init(); zt_unit_suite *s = zt_unit_register_suite_(u, "s", NULL, NULL, NULL, zt_unit_try_cpp); unsigned n = 1 + (unsigned)r.below(5), bad = 0; for (unsigned i = 0; i < n; i++) { bool b = r.chance(1, 4); bad += b; zt_unit_register_test(s, ("t" + std::to_string(i)).c_str(), b ? u_bad : u_ok); } fflush(NULL); int o1 = dup(1), o2 = dup(2), full = open("/dev/full", O_WRONLY); dup2(full, 1); dup2(full, 2); char a0[] = "prog"; char *av[] = {a0, NULL}; int rc = 0; if (r.chance(2, 3)) rc = zt_unit_main(u, 1, av); else { zt_unit_run(u); rc = u->failures; } fflush(NULL); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(full); clearerr(stdout); clearerr(stderr); VT_CHECK((rc != 0) == (bad != 0), "unit-status", "%u of %u tests fail, and the status is %d when the report cannot be written", bad, n, rc); zt_unit_release(&u); EV("unit.full"); fired++; }
static std::string shaped(const zt_uuid_t &u) { char b[40]; const unsigned char *d = (const unsigned char *)&u.data; std::string s; for (int i = 0; i < 16; i++) { snprintf(b, sizeof b, "%02x", d[i]); s += b; } return s; }
static void s_uuid(Rng &r) { kinds = F_OPEN; stream_on = true; if (countdown < 0 && r.chance(1, 2)) countdown = 0; if (r.chance(2, 3)) persistent = true; std::mutex mu; std::set<std::string> seen; size_t want = 0; auto take = [&](unsigned n) { std::vector<zt_uuid_t> v(n); for (auto &u : v) { memset((void *)&u, 0, sizeof u); zt_uuid4(&u); } std::lock_guard<std::mutex> g(mu); for (auto &u : v) { std::string s = shaped(u); VT_CHECK(s[12] == '4' && strchr("89ab", s[16]), "uuid-form", "the random identifier %s has no version 4 form", s.c_str()); VT_CHECK(seen.insert(s).second, "uuid-repeat", "the random identifier %s is given out twice when the system's randomness is %s", s.c_str(), fail_after >= 0 ? "cut short" : "not available"); want++; } };
    armed = true; unsigned k = 1 + (unsigned)r.below(4); { Quiet q; std::vector<std::thread> t; for (unsigned i = 0; i < k; i++) { if (r.chance(1, 2)) { std::thread x(take, 1 + (unsigned)r.below(5)); x.join(); } else t.emplace_back(take, 1 + (unsigned)r.below(5)); } for (auto &x : t) x.join(); } take(3); armed = false;
    int p[2]; if (__real_pipe(p)) harness_error("pipe"); for (int i = 0; i < 2; i++) { pid_t pid = fork(); if (!pid) { armed = true; zt_uuid_t u[2]; zt_uuid4(&u[0]); zt_uuid4(&u[1]); armed = false; __real_write(p[1], u, sizeof u); _exit(0); } int st; waitpid(pid, &st, 0); zt_uuid_t u[2]; if (read(p[0], u, sizeof u) != (ssize_t)sizeof u) fail("uuid-child", "a child process ends with %#x", st); for (auto &x : u) { std::string s = shaped(x); VT_CHECK(s[12] == '4' && seen.insert(s).second, "uuid-repeat-fork", "the random identifier %s is given out in two processes", s.c_str()); } } close(p[0]); close(p[1]); stream_on = false; if (fired) EV("uuid.norandom"); }
static void s_mkdir(Rng &r) { unsigned d = 1 + (unsigned)r.below(6); std::string p = root + "/m"; std::vector<std::string> all; unsigned have = (unsigned)r.below(d + 1); static int serial; p += std::to_string(serial++); for (unsigned i = 0; i < d; i++) { if (i) p += std::string(1 + r.below(2), '/') + "d" + std::to_string(i); all.push_back(p); if (i < have && __real_mkdir(p.c_str(), 0755)) harness_error("mkdir %s", p.c_str()); } bool par = r.chance(3, 4); kinds = (r.chance(1, 2) ? F_MKDIR : 0) | (r.chance(2, 3) ? F_STAT : 0); if (!kinds) kinds = F_MKDIR; int rc = L(zt_mkdir(p.c_str(), 0755, par ? zt_mkdir_create_parent : (zt_mkdir_flags)0)); int k0 = fired;
    bool possible = have >= d - 1 || par; if (rc == 0) VT_CHECK(is_dir(p), "mkdir-lie", "creating %u directories (%u there already) reports success without them", d, have); else if (possible) CAUSE("mkdir", "creating fails without a cause"); (void)k0; fired = fired ? 1 : 0; long c = countdown; countdown = -1; int rc2 = zt_mkdir(p.c_str(), 0755, par ? zt_mkdir_create_parent : (zt_mkdir_flags)0); VT_CHECK((rc2 == 0) == possible, "mkdir-again", "a second attempt gives %d", rc2); countdown = c; if (rc) EV("mkdir.failed"); }
static void s_exists(Rng &r) { std::string a = root + "/ex", f = a + "/mark"; __real_mkdir(a.c_str(), 0755); spew(f, "x"); std::string deep = a; for (unsigned i = (unsigned)r.below(4); i--;) { deep += "/s"; __real_mkdir(deep.c_str(), 0755); } kinds = F_STAT; if (r.chance(1, 2)) { bool there = r.chance(1, 2); int rc = L(zt_path_exists(there ? f.c_str() : (f + "no").c_str())); if (rc == 0) VT_CHECK(there && !fired, "exists-lie", "a path that is missing or cannot be looked at is said to exist"); else VT_CHECK(!there || fired, "exists", "a path that exists is said not to"); }
    else { char *x = L(zt_find_basedir(deep.c_str(), "mark")); if (x) { VT_CHECK(std::string(x) == a + "/", "basedir-lie", "the directory found is %s, the marker is in %s", x, a.c_str()); free(x); } else CAUSE("basedir", "the marker is not found"); } if (fired) EV("stat.failed"); }
static void s_prog(Rng &r) { std::string a = root + "/bin1", b = root + "/bin2"; __real_mkdir(a.c_str(), 0755); __real_mkdir(b.c_str(), 0755); spew(a + "/tool", "x"); spew(b + "/tool", "x"); static char env[3 * PATH_MAX]; int how = (int)r.below(4); if (how == 0) snprintf(env, sizeof env, "PATH"); else snprintf(env, sizeof env, "PATH=%s/none:%s:%s", root.c_str(), a.c_str(), b.c_str()); putenv(env); if (chdir(root.c_str())) harness_error("chdir"); kinds = F_STAT | F_CWD | F_LINK; const char *names[] = {"tool", "notool", "bin1/tool", "./bin2/tool"}; std::string nm = names[r.below(4)]; char nb[100]; snprintf(nb, sizeof nb, "%s", nm.c_str()); std::string log = root + "/plog"; zt_log_ty *lg = zt_log_file((char *)log.c_str(), 0, 0), *old = zt_log_logger(lg);
    char *p = L(zt_progpath(nb)); VT_CHECK(p, "progpath", "no path at all"); std::string got = p; VT_CHECK(got.find('\1') == std::string::npos && got.size() < PATH_MAX, "progpath-junk", "the path of %s is %s", nm.c_str(), esc(got).c_str()); if (how && nm == "tool" && !fired) VT_CHECK(got == a, "progpath-first", "the path of tool is %s, want %s", esc(got).c_str(), a.c_str()); if (how && nm == "tool" && got != a && got != b) { CAUSE("progpath-none", "tool is found in %s", esc(got).c_str()); VT_CHECK(got == root || got == "." || got.empty(), "progpath-other", "tool is found in %s", esc(got).c_str()); }
    char *q = L(zt_os_progpath()); if (q) { VT_CHECK(strlen(q) < PATH_MAX && (fired || q[0] == '/'), "osprogpath", "the system's path is %s", esc(q).c_str()); free(q); } zt_log_logger(old); zt_log_close(lg); if (fired) EV("prog.failed"); }
static void s_pid(Rng &r) { std::string p = root + "/pid"; bool old = r.chance(1, 3); if (old) spew(p, "99999999999999\n"); else unlink(p.c_str()); kinds = F_CREAT | F_WRITE | F_CLOSE; times = 1 + (int)r.below(3); int f0 = count_fds(); int rc = L(zt_writepid(p.c_str())); if (rc == 0) { std::string w = std::to_string((int)getpid()) + "\n"; VT_CHECK(slurp(p) == w, "pid-lie", "success, with %s in the file", esc(slurp(p)).c_str()); } else CAUSE("pid", "a pid file cannot be written"); VT_CHECK(count_fds() == f0, "fds", "writing a pid file leaves descriptors open"); if (fired) EV("pid.failed"); }
// pools
static std::atomic<int> got_in, got_out; static std::mutex pmu; static std::vector<int> in_count, out_count;
static void *p_in(void *, void *d) { int i = (int)(intptr_t)d - 1; { std::lock_guard<std::mutex> g(pmu); if (i >= 0 && i < (int)in_count.size()) in_count[i]++; } got_in++; return d; }
static void *p_out(void *, void *d) { int i = (int)(intptr_t)d - 1; { std::lock_guard<std::mutex> g(pmu); if (i >= 0 && i < (int)out_count.size()) out_count[i]++; } got_out++; return NULL; }
static void s_pool(Rng &r) { zt_threads_use_pthreads(); zt_threadpool_set_callbacks(NULL); zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb); cb.iput_worker = p_in; bool oloop = r.chance(1, 2); cb.oput_worker = p_out; zt_threadpool_set_callbacks(&cb); if (!oloop) zt_threadpool_disable_oput_loop(); int k = (int)r.below(5); kinds = k == 0 ? F_PIPE : k == 1 ? F_THREAD : k == 2 ? (F_MUTEX | F_COND) : k == 3 ? F_WRITE : 0; bool interrupted = k == 3; static int sigs; (void)sigs; times = 1 + (int)r.below(4); if (k == 3) { countdown = countdown < 0 ? -1 : (long)r.below(4); } int n = 1 + (int)r.below(4), items = (int)r.below(30); got_in = got_out = 0; { Quiet q; in_count.assign(items, 0); out_count.assign(items, 0); } int f0 = count_fds(); bool pi = r.chance(2, 3), po = r.chance(2, 3);
    zt_threadpool *p = L(zt_threadpool_init(n, n, pi, po)); if (!p) { CAUSE("pool", "no pool"); VT_CHECK(count_fds() == f0, "fds", "a failed creation leaves descriptors open"); EV("pool.refused"); return; } if (k < 3 && k != 1) VT_CHECK(!fired, "pool-lie", "a pool is handed out although a part of it could not be made");
    int b = fired, rc = L(zt_threadpool_start(p)); VT_CHECK(k == 4 || (rc == 0) == (fired == b), "start-lie", "starting reports %d with %d failures", rc, fired - b); int alive = 0; for (int i = 0; i < n; i++) alive += p->iput_threads[i] != NULL; int oalive = 0; if (oloop) for (int i = 0; i < n; i++) oalive += p->oput_threads[i] != NULL; if (rc) EV("pool.start.failed");
    int told = 0; for (int i = 0; i < items; i++) { int q0 = fired; int x = L(zt_threadpool_insert_iput(p, (void *)(intptr_t)(i + 1))); bool eintr = fired > q0 && fault_errno == EINTR; if (eintr) EV("pool.interrupted"); VT_CHECK(x == 0 || fired > q0, "insert", "an insertion fails without a cause"); VT_CHECK(!(x && eintr && times <= 0), "insert-interrupted", "an insertion is reported as failed because a signal arrived"); told += x == 0; }
    kinds = 0; uint64_t t0 = now_ms(); while (alive && got_in < items && now_ms() - t0 < 20000) usleep(200); VT_CHECK(!alive || got_in == items, "lost", "%d of %d items reach an input worker; %d of %d threads were started", (int)got_in, items, alive, n); if (oalive && alive) { t0 = now_ms(); while (got_out < items && now_ms() - t0 < 20000) usleep(200); VT_CHECK(got_out == items, "lost-output", "%d of %d items reach an output worker", (int)got_out, items); }
    int pipe_n = 0; if (pi) { int fd = zt_threadpool_iput_fd_reader(p); fcntl(fd, F_SETFL, O_NONBLOCK); char c; while (read(fd, &c, 1) == 1) pipe_n++; VT_CHECK(pipe_n >= told && pipe_n <= items, "wakeups", "%d wakeups for %d items inserted with success", pipe_n, told); if (interrupted) EV("pool.wakeups"); }
    VT_CHECK(zt_threadpool_kill(p) == 0, "kill", "shutdown fails"); for (int i = 0; i < items; i++) VT_CHECK(in_count[i] <= 1 && out_count[i] <= 1, "twice", "item %d is processed %d times", i, in_count[i]); int fds[] = {zt_threadpool_iput_fd_reader(p), zt_threadpool_iput_fd_writer(p), zt_threadpool_oput_fd_reader(p), zt_threadpool_oput_fd_writer(p)}; for (int f : fds) if (f >= 0) __real_close(f); VT_CHECK(count_fds() == f0, "fds", "a pool leaves descriptors open"); }
// all of the process's thread-specific keys belong to others
static void s_keys(Rng &r) { kinds = 0; std::vector<pthread_key_t> K; std::vector<std::string> own(PTHREAD_KEYS_MAX + 8, std::string(64, '\x11')); for (;;) { pthread_key_t k; if (pthread_key_create(&k, NULL)) break; K.push_back(k); pthread_setspecific(k, (void *)own[K.size() - 1].data()); } int leave = (int)r.below(3); for (int i = 0; i < leave && !K.empty(); i++) { pthread_key_delete(K.back()); K.pop_back(); }
    std::string log = root + "/klog"; bool uuid = r.chance(1, 2); std::string before; int mode = (int)r.below(3); pid_t pid = fork(); if (!pid) { zt_log_ty *lg = zt_log_file((char *)log.c_str(), 0, 0); zt_log_logger(lg); if (uuid) { zt_uuid_t u; zt_uuid4(&u); std::string s = shaped(u); if (s[12] != '4') _exit(7); } if (mode != 0) zt_log_printf(zt_log_err, "text %d", 1); if (mode == 2) zt_log_dprintf(zt_log_err, "more %d", 2); for (size_t i = 0; i < K.size(); i++) { if (pthread_getspecific(K[i]) != (void *)own[i].data()) _exit(3); } for (size_t i = 0; i < K.size(); i++) for (char c : own[i]) if (c != '\x11') _exit(4); zt_log_logger(NULL); zt_log_close(lg); std::string t = slurp(log); if (mode != 0 && t.find("text 1") == std::string::npos) _exit(5); if (mode == 2 && t.find("more 2") == std::string::npos) _exit(6); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0) { } VT_CHECK(!WIFSIGNALED(st), "keys-crash", "with all %zu thread-specific keys taken (%d left), %s ends the process with signal %d", K.size(), leave, uuid ? "a random identifier" : "a message", WTERMSIG(st)); int x = WEXITSTATUS(st); VT_CHECK(x != 3 && x != 4, x == 3 ? "keys-replaced" : "keys-overwritten", "with all %zu thread-specific keys taken (%d left), %s %s another library's data", K.size(), leave, uuid ? "a random identifier" : "a message", x == 3 ? "replaces" : "writes into"); VT_CHECK(x != 5 && x != 6, "keys-lost", "with all thread-specific keys taken, a message is lost"); VT_CHECK(x != 7, "keys-uuid", "the identifier is not well formed"); if (x != 0 && x != 1) fail("keys-exit", "the process ends with %d", x); VT_CHECK(x == 0 || uuid, "keys-exit", "a message ends the process"); for (pthread_key_t k : K) pthread_key_delete(k); EV("keys"); fired++; }
struct Sc { const char *name; void (*fn)(Rng &); bool stream; bool dies; };
static const Sc SC[] = {{"cfg", s_cfg, true}, {"log", s_log, true}, {"mkdir", s_mkdir}, {"cfg", s_cfg, true}, {"exists", s_exists}, {"pool", s_pool, false, true}, {"uuid", s_uuid, true}, {"prog", s_prog}, {"pid", s_pid}, {"pool", s_pool, false, true}, {"log", s_log, true}, {"output", s_stderr_full}, {"unit", s_unit_full}, {"keys", s_keys}};
static const size_t NSC = sizeof SC / sizeof *SC;
void vt_init() { Quiet q; out = (Out *)mmap(NULL, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); scratch(); }
static void plan(const Sc &sc, Rng &r, bool none) { countdown = -1; persistent = false; times = 1; piece = 0; fail_after = -1; stream_errno = 0; stream_once = false; close_fails = false; fired = 0; points = 0; if (none) { if (sc.stream && r.chance(1, 2)) piece = 1 + r.below(7); return; }
    if (sc.stream && r.chance(2, 3)) { static const int E[] = {EIO, EINTR, EAGAIN, ENOSPC, ESTALE, EISDIR}; piece = r.chance(1, 2) ? 1 + r.below(9) : 0; fail_after = r.chance(1, 3) ? (long)r.below(20) : (long)r.below(1200); stream_errno = E[r.below(6)]; stream_once = r.chance(1, 2); close_fails = r.chance(1, 6); } else { countdown = r.chance(1, 2) ? (long)r.below(3) : (long)r.below(12); persistent = r.chance(1, 3); } }
static void child(const Sc &sc, uint64_t seed, bool warm) { signal(SIGPIPE, SIG_IGN); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); if (warm) { { Quiet q; zt_log_printf(zt_log_err, "warm"); } Rng r(seed); plan(sc, r, true); sc.fn(r); }
    long l0 = live(); { Rng r(seed); plan(sc, r, false); sc.fn(r); } long l1 = live(); out->fired = fired; out->points = points; armed = false; stream_on = false; int f = fired, se = stream_errno, so = stream_once, cf = close_fails; long fa = fail_after; { Rng r(seed); plan(sc, r, true); sc.fn(r); } long l2 = live(); if (warm && f && !sc.dies && l1 - l0 > 0 && l1 - l0 > l2 - l1) { long a = live(); { Rng r(seed); plan(sc, r, false); sc.fn(r); } long b = live(); armed = false; stream_on = false; if (b - a > 0 && b - a > l2 - l1) fail("leak", "%ld heap block(s) are lost by every failing run, %ld by one without a failure (stream: error %d after %ld %s, closing fails: %d; %d faults, last code %d, kinds %x)", b - a, l2 - l1, se, fa, so ? "once" : "and on", cf, f, fault_errno, kinds); } out->done = 1; }
void vt_case(Rng &r, uint64_t idx) { Quiet q; const Sc &sc = SC[idx % NSC]; uint64_t seed = r.u64(); bool warm = r.chance(1, 2); mix(idx % NSC); mix(seed); op("%s", sc.name); memset((void *)out, 0, sizeof *out); root = std::string(scratch()) + "/w"; mkdir(root.c_str(), 0755);
    std::string err; int st = run_forked([&] { child(sc, seed, warm); }, &err, nullptr, 60); std::string rm = "rm -rf " + root; if (system(rm.c_str())) { } if (verbose()) fprintf(stderr, "%s", err.c_str()); std::string n = sc.name, tail = err.size() > 700 ? err.substr(err.size() - 700) : err; size_t s = err.find("ERROR: AddressSanitizer"); if (s != std::string::npos) tail = err.substr(s, 700);
    if (st == -1) fail((n + "-stuck").c_str(), "%s: no end after a failing call", sc.name);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 41) harness_error("%s: %s", sc.name, tail.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40) { size_t k = err.find("VT-VIOLATION"), e = err.find('\n', k); std::string v = err.substr(k, e - k); size_t kk = v.find("key="), ke = v.find(' ', kk); fail((n + "-" + (kk == std::string::npos ? "?" : v.substr(kk + 4, ke - kk - 4))).c_str(), "%s: %s", sc.name, v.c_str()); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && sc.dies) { VT_CHECK(err.find("ssert") != std::string::npos, (n + "-silent").c_str(), "%s: aborted without an assertion report", sc.name); ev("fatal"); nontrivial(true); return; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) fail((n + "-crash").c_str(), "%s: the process ended with %#x: %s", sc.name, st, tail.c_str());
    VT_CHECK(out->done, (n + "-exit").c_str(), "%s: the process exits by itself: %s", sc.name, tail.c_str()); if (out->fired) ev("injected", (uint64_t)out->fired); for (int i = 0; i < NEV; i++) if (out->evs[i]) ev(EVN[i], (uint64_t)out->evs[i]); ev(sc.name); nontrivial(out->fired > 0); }
