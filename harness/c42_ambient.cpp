// The same workload with the process around it changed: locale, errno, rounding, masks, directory, environment,
// descriptors, signals.  The digest must stay the same, and so must everything of the process the workload does not own.
#define HAVE_INTTYPES_H 1
#define AMBIENT 1
#include "ztc.hpp"
#include <inttypes.h>
#include <atomic>
#include <memory>
#include <fenv.h>
#include <fcntl.h>
#include <locale.h>
#include <math.h>
#include <dirent.h>
#include <getopt.h>
#include <langinfo.h>
#include <sys/resource.h>
#include <sys/wait.h>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_opts.h>
uint64_t zt_hash64_buff(void *buf, size_t len, uint64_t init);
uint64_t zt_hash64_cstr(const uint8_t *buf, uint64_t init);
}
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
static bool errs; static uint64_t errtick; static const int ERRS[] = {ERANGE, EINTR, EAGAIN, ENOMEM, ENOENT, EINVAL, EEXIST, 0, 1, EACCES, ENOTDIR, EBADF};
static inline void stir() { if (errs) errno = ERRS[errtick++ % 12]; }
#define KINDS_AFTER stir()
static inline void nest() { stir(); }
#include "kinds.inc"
#include "high.inc"
enum { NK = sizeof KINDS / sizeof *KINDS };
static const char *LOC[] = {"C", "C.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8"}; enum { NLOC = 5 };
static locale_t own[NLOC]; static char dirs[2][400]; static std::atomic<unsigned> alarms{0}; static void on_alarm(int) { int e = errno; alarms++; errno = e; }
static int outfd;
void vt_init() { Quiet q; zt_log_ty *lgr = zt_log_stderr(0); zt_log_set_level(lgr, zt_log_emerg); zt_log_logger(lgr); static char lp[500]; snprintf(lp, sizeof lp, "LOCPATH=%s/loc", scratch()); std::string base = std::string(scratch()) + "/loc"; mkdir(base.c_str(), 0755); for (int i = 2; i < NLOC; i++) { std::string n = LOC[i]; char cmd[900]; snprintf(cmd, sizeof cmd, "localedef --no-archive -c -i %s -f %s '%s/%s' >/dev/null 2>&1 </dev/null", n.substr(0, 5).c_str(), n.substr(6).c_str(), base.c_str(), LOC[i]); if (system(cmd)) {} } putenv(lp);
    for (int i = 0; i < NLOC; i++) if (!setlocale(LC_ALL, LOC[i])) harness_error("no locale %s", LOC[i]); for (int i = 0; i < NLOC; i++) if (!(own[i] = newlocale(LC_ALL_MASK, LOC[i], (locale_t)0))) harness_error("no locale %s", LOC[i]); setlocale(LC_ALL, "C"); for (int i = 0; i < 2; i++) { snprintf(dirs[i], sizeof dirs[i], "%s/cwd%d", scratch(), i); mkdir(dirs[i], 0755); } struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL); time_t t = 0; localtime(&t); fflush(stdout); std::string of = std::string(scratch()) + "/stdout"; outfd = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outfd < 0 || dup2(outfd, 1) < 0) harness_error("stdout"); }
typedef std::vector<std::pair<std::string, std::string>> Snap;
static char tokbuf[] = "one,two,three"; static struct tm *tm_static, tm_copy; static long nextrand, nextl48; static char *asc;
static Snap snap() { Snap s; auto put = [&](const std::string &k, const std::string &v) { s.push_back({k, v}); }; char b[600]; put("working directory", getcwd(b, sizeof b) ? b : "?"); mode_t m = umask(0); umask(m); put("file mode mask", std::to_string(m)); sigset_t ss; sigemptyset(&ss); pthread_sigmask(SIG_SETMASK, NULL, &ss); std::string x; for (int i = 1; i < 32; i++) x += sigismember(&ss, i) ? '1' : '0'; put("signal mask", x); x.clear(); for (int i = 1; i < 32; i++) { struct sigaction a; if (sigaction(i, NULL, &a) == 0) { snprintf(b, sizeof b, "%d:%p:%x ", i, (void *)a.sa_handler, (unsigned)a.sa_flags); x += b; } } put("signal handlers", x); x.clear(); for (char **e = environ; e && *e; e++) { x += *e; x += '\n'; } put("environment", x); put("locale", setlocale(LC_ALL, NULL)); snprintf(b, sizeof b, "%p", (void *)uselocale((locale_t)0)); put("thread locale", b); put("rounding mode", std::to_string(fegetround()));
    x.clear(); for (int i = 0; i < 64; i++) { int f = fcntl(i, F_GETFD); if (f < 0) continue; struct stat st; memset(&st, 0, sizeof st); fstat(i, &st); snprintf(b, sizeof b, "%d:%x:%x:%lx:%lx ", i, f, fcntl(i, F_GETFL), (long)st.st_dev, (long)st.st_ino); x += b; } put("open descriptors", x); x.clear(); for (int i : {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_CORE, RLIMIT_AS, RLIMIT_CPU, RLIMIT_FSIZE}) { struct rlimit l; getrlimit((__rlimit_resource)i, &l); x += std::to_string(l.rlim_cur) + "/" + std::to_string(l.rlim_max) + " "; } put("limits", x); struct itimerval it; getitimer(ITIMER_REAL, &it); put("timer", std::to_string(it.it_interval.tv_usec)); snprintf(b, sizeof b, "%d %d %d", optind, opterr, optopt); put("option parsing", b); snprintf(b, sizeof b, "%d %d %d %d", (int)getpgrp(), (int)getsid(0), getpriority(PRIO_PROCESS, 0), (int)geteuid()); put("process", b);
    int n = 0; DIR *d = opendir("/proc/self/task"); if (d) { while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); } put("threads", std::to_string(n)); put("standard streams", std::to_string((uintptr_t)stdin ^ (uintptr_t)stdout) + (feof(stdin) ? "e" : "") + (ferror(stdout) ? "E" : "")); return s; }
static void arm(unsigned k) { srandom(k); nextrand = random(); srandom(k); srand48(k); nextl48 = lrand48(); srand48(k); strcpy(tokbuf, "one,two,three"); strtok(tokbuf, ","); time_t t = 86400L * (k % 10000); tm_static = gmtime(&t); asc = asctime(tm_static); tm_copy = *tm_static; }
static void disarm(const char *kind, const std::string &asc0) { VT_CHECK(random() == nextrand, "random", "%s: the C library's random() goes on differently", kind); VT_CHECK(lrand48() == nextl48, "random", "%s: the C library's lrand48() goes on differently", kind); char *t = strtok(NULL, ","); VT_CHECK(t && !strcmp(t, "two"), "strtok", "%s: the caller's strtok() goes on with %s", kind, t ? t : "nothing"); VT_CHECK(!memcmp(tm_static, &tm_copy, sizeof tm_copy) && asc0 == asc, "localtime", "%s: the caller's broken-down time changed", kind); }
static void same(const Snap &a, const Snap &b, const char *kind) { for (size_t i = 0; i < a.size(); i++) VT_CHECK(a[i].second == b[i].second, "disturbed", "%s: the process's %s was '%s' and is '%s'", kind, a[i].first.c_str(), esc(a[i].second, 300).c_str(), esc(b[i].second, 300).c_str()); }
static uint64_t once(int kind, uint64_t seed, unsigned k, const char *what) { Snap a = snap(); off_t o0 = lseek(outfd, 0, SEEK_END); arm(k); std::string asc0 = asc; stir(); D d; Rng r(seed); kind_at(kind).w(r, d); disarm(kind_at(kind).name, asc0); Snap b = snap(); (void)what; same(a, b, kind_at(kind).name); fflush(stdout); off_t o1 = lseek(outfd, 0, SEEK_END); if (strcmp(kind_at(kind).name, "opts")) VT_CHECK(o0 == o1, "stdout", "%s: %ld bytes were written to standard output", kind_at(kind).name, (long)(o1 - o0)); if (o1 > 1 << 20 && ftruncate(outfd, 0)) harness_error("ftruncate"); return d.h; }
static void numbers(Rng &r, const char *loc) { locale_t l0 = uselocale((locale_t)0); // the formatting engine prints what printf prints, in every locale
    static const double SP[] = {0.0, -0.0, 0.5, 1.5, -2.25, 1e10, 1e-10, 123456.789, 1e100, INFINITY, -INFINITY}; for (int i = 0; i < 12; i++) { double v = r.chance(1, 3) ? SP[r.below(11)] : (double)(int64_t)r.u64() / (double)((uint64_t)1 << r.below(63)); int w = (int)r.below(25), p = (int)r.below(r.chance(1, 4) ? 60 : 12); static const char *const F[] = {"%f|%e|%g", "%*.*f|", "%-*.*e|", "%0*.*f|", "%+*.*g|", "% *.*f|"}; unsigned k = (unsigned)r.below(6); char a[900], b[900]; size_t n; int m; if (k == 0) { m = snprintf(b, sizeof b, "%f|%e|%g", v, v, v); n = zt_fmt_sprintf(a, sizeof a, F[0], v, v, v); } else { if (k == 4 && p == 0) p = 1; m = snprintf(b, sizeof b, F[k], w, p, v); n = zt_fmt_sprintf(a, sizeof a, F[k], w, p, v); } VT_CHECK((int)n == m && !strcmp(a, b), "number", "%s: '%s' of %a gives '%s' (%zu), printf gives '%s'", loc, F[k], v, a, n, b); VT_CHECK(!strcmp(setlocale(LC_ALL, NULL), loc), "disturbed", "formatting '%s' changes the locale from %s to %s", F[k], loc, setlocale(LC_ALL, NULL)); VT_CHECK(uselocale((locale_t)0) == l0, "disturbed", "formatting a number under %s changes the thread's locale", loc); evaluations(1); } ev("numbers"); }
static void dated(Rng &r) { // a dated message leaves the caller's own broken-down time and the rest of the hidden state
    static std::string file = std::string(scratch()) + "/dated"; Snap a = snap(); arm((unsigned)r.u64()); std::string asc0 = asc; zt_log_ty *l = zt_log_file((char *)file.c_str(), 0, ZT_LOG_WITH_DATE | (r.chance(1, 2) ? ZT_LOG_WITH_LEVEL : 0)); if (!l) harness_error("dated"); for (unsigned n = 1 + (unsigned)r.below(3); n--;) zt_log_lprintf(l, zt_log_err, "number %u", n); zt_log_close(l); disarm("a dated log", asc0); Snap b = snap(); same(a, b, "a dated log"); ev("log.dated"); }
void vt_case(Rng &r, uint64_t idx) {
    Quiet q; if (r.chance(1, 8)) dated(r); int k = (int)(idx % NK); uint64_t seed = r.u64(); const char *name = kind_at(k).name; bool fmt = !strcmp(name, "format"), tim = !strcmp(name, "time"), lg = !strcmp(name, "log"); errs = false; uint64_t want = once(k, seed, (unsigned)r.u64(), "plain"); mix(want); nontrivial(true); unsigned rounds = 1 + (unsigned)r.below(3);
    for (unsigned t = 0; t < rounds; t++) { int loc = (int)r.below(NLOC); bool tl = !fmt && r.chance(1, 3), e = r.chance(1, 2), rnd = !fmt && !tim && !lg && strcmp(name, "bstream") && r.chance(1, 4), um = r.chance(1, 4), cd = r.chance(1, 4), env = r.chance(1, 4), in0 = r.chance(1, 4), sig = r.chance(1, 6), blk = r.chance(1, 4), fds = r.chance(1, 6);
        op("%s under %slocale %s%s%s%s%s%s%s%s%s%s", name, tl ? "thread " : "", LOC[loc], e ? ", errno set" : "", rnd ? ", other rounding" : "", um ? ", file mode mask" : "", cd ? ", other directory" : "", env ? ", other environment" : "", in0 ? ", no standard input" : "", sig ? ", signals" : "", blk ? ", signals blocked" : "", fds ? ", high descriptors" : "");
        if (tl) uselocale(own[loc]); else setlocale(LC_ALL, LOC[loc]); if (fmt) setlocale(LC_NUMERIC, "C"); int round0 = fegetround(); static const int RM[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; if (rnd) fesetround(RM[r.below(3)]); mode_t um0 = 0; if (um) um0 = umask((mode_t[]){0, 027, 077, 0177, 0377, 0777}[r.below(6)]); int cw = -1; if (cd) { cw = open(".", O_RDONLY | O_DIRECTORY); if (chdir(dirs[r.below(2)])) harness_error("chdir"); } char **env0 = environ; static char *none[1]; static char tz[] = "TZ=Pacific/Chatham", pc[] = "POSIXLY_CORRECT=1", path[] = "PATH=", lc[] = "LC_ALL=tr_TR.ISO-8859-9"; static char *few[] = {tz, pc, path, lc, NULL}; if (env) { none[0] = NULL; environ = r.chance(1, 2) ? none : few; } int keep0 = -1; if (in0) { keep0 = fcntl(0, F_DUPFD_CLOEXEC, 100); close(0); } sigset_t bl, ob; sigemptyset(&bl); if (blk) { sigaddset(&bl, SIGPIPE); sigaddset(&bl, SIGTERM); sigaddset(&bl, SIGCHLD); sigaddset(&bl, SIGSEGV); } pthread_sigmask(SIG_BLOCK, &bl, &ob); std::vector<int> used; if (fds) for (unsigned n = 1 + (unsigned)r.below(40); n; n--) used.push_back(open("/dev/null", O_RDONLY)); struct itimerval it = {{0, 300}, {0, 300}}, off = {{0, 0}, {0, 0}}; if (sig) setitimer(ITIMER_REAL, &it, NULL); errs = e; errtick = r.u64();
        uint64_t got = once(k, seed, (unsigned)r.u64(), LOC[loc]);
        errs = false; if (sig) { setitimer(ITIMER_REAL, &off, NULL); if (alarms.exchange(0)) ev("signals"); } for (int f : used) close(f); pthread_sigmask(SIG_SETMASK, &ob, NULL); if (in0) { dup2(keep0, 0); close(keep0); } environ = env0; if (cd) { if (fchdir(cw)) harness_error("fchdir"); close(cw); } if (um) umask(um0); fesetround(round0); if (fmt) { setlocale(LC_NUMERIC, LOC[loc]); numbers(r, LOC[loc]); } uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); if (tl) ev("thread.locale");
        VT_CHECK(got == want, "depends", "a %s workload gives %016" PRIx64 " under locale %s%s%s%s%s%s%s%s%s%s and %016" PRIx64 " without", name, got, LOC[loc], e ? ", errno set" : "", rnd ? ", other rounding" : "", um ? ", file mode mask" : "", cd ? ", other directory" : "", env ? ", other environment" : "", in0 ? ", no standard input" : "", sig ? ", signals" : "", blk ? ", signals blocked" : "", fds ? ", high descriptors" : "", want); evaluations(1); ev(name); ev(LOC[loc]); if (e) ev("errno"); if (rnd) ev("rounding"); if (um) ev("umask"); if (cd) ev("directory"); if (env) ev("environment"); if (in0) ev("stdin.closed"); if (blk) ev("blocked"); if (fds) ev("descriptors"); } }
