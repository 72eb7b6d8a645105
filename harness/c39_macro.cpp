// C39: the header macros act as the one expression or statement they look like.
#include "ztc.hpp"
#include "c39.h"
#include <sys/select.h>
#include <sys/syscall.h>
extern "C" {
#include <libzt/zt_unit.h>
}
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
// no wait takes place: what is asked for is added up
static long asked; static bool watching;
extern "C" {
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_nanosleep(const struct timespec *, struct timespec *); int __real_usleep(useconds_t); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *); int __real_poll(struct pollfd *, unsigned long, int);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { if (!watching || n || !t) return __real_select(n, r, w, e, t); asked += t->tv_sec * 1000000L + t->tv_usec; if (t->tv_usec < 0 || t->tv_usec > 999999 || t->tv_sec < 0) fail("usleep", "select is given %ld s and %ld us", (long)t->tv_sec, (long)t->tv_usec); t->tv_sec = t->tv_usec = 0; return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) { if (!watching) return __real_nanosleep(t, rem); asked += t->tv_sec * 1000000L + (t->tv_nsec + 999) / 1000; return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) { if (!watching || f) return __real_clock_nanosleep(c, f, t, rem); asked += t->tv_sec * 1000000L + (t->tv_nsec + 999) / 1000; return 0; }
int (__wrap_usleep)(useconds_t u) { if (!watching) return __real_usleep(u); asked += u; return 0; }
int __wrap_poll(struct pollfd *p, unsigned long n, int ms) { if (!watching || n) return __real_poll(p, n, ms); asked += ms * 1000L; return 0; }
}
#define UNIT "C++"
#define TRY zt_unit_try_cpp
namespace cxx {
#include "c39_body.inc"
}
extern "C" { void c39_on(c39 *, int); void c39_off(c39 *, int); }
extern "C" long c39_slept(void) { long a = asked; asked = 0; return a; }
extern "C" void c39_bad(const char *key, const char *what, const char *unit, double got, double want) { fail(key, "%s (%s): %.17g, want %.17g", what, unit, got, want); }
extern "C" void c39_bits(const char *key, const char *what, const char *unit, unsigned long long got, unsigned long long want) { fail(key, "%s (%s): %#llx, want %#llx", what, unit, got, want); }
static zt_log_ty *lg; static std::string path; static FILE *in;
extern "C" int c39_logged(char *text, size_t size) { Quiet q; static char l[2000]; int n = 0; clearerr(in); *text = 0; while (fgets(l, sizeof l, in)) { n++; size_t k = strlen(l); if (k && l[k - 1] == '\n') l[k - 1] = 0; snprintf(text, size, "%s", l); } return n; }
void vt_init() { Quiet q; path = std::string(scratch()) + "/macro.log"; lg = zt_log_file((char *)path.c_str(), 0, ZT_LOG_RAW); in = fopen(path.c_str(), "r"); if (!lg || !in) harness_error("log"); zt_log_set_level(lg, zt_log_debug); zt_log_logger(lg); ZT_LOG_DEBUG_RESET(); zt_log_printf(zt_log_err, "start"); watching = true; }
void vt_case(Rng &r, uint64_t idx) {
    static const char *KIND[] = {"numbers", "pairs", "indents", "bits", "places", "memory", "texts", "walks", "trees", "folds", "code", "logs", "waits", "units", "sizes", "lengths"}; static const char *IN[] = {"c.debug", "c.ndebug", "c++"};
    c39 s; memset(&s, 0, sizeof s); int lim = r.chance(1, 2) ? 3 : 100; s.a = (int)r.range(-lim, lim); s.b = (int)r.range(-lim, lim); s.c = (int)r.range(-lim, lim); s.d = (int)r.below(2); if (s.d) s.d = (int)r.range(1, 9); s.m = (unsigned)(r.chance(1, 3) ? 1u << r.below(32) : r.u64()); s.n = (unsigned)r.u64(); s.t = r.u64(); s.u = r.u64(); s.yes = r.chance(1, 2); s.checks = (long)r.below(4);
    int what = (int)(idx % 16), unit = (int)(idx / 16 % 3); op("%s in %s with a=%d b=%d c=%d d=%d m=%#x n=%#x t=%#llx u=%#llx yes=%d", KIND[what], IN[unit], s.a, s.b, s.c, s.d, s.m, s.n, (unsigned long long)s.t, (unsigned long long)s.u, s.yes); mix(what * 3 + unit); mix(s.a * 1000003 + s.b * 1009 + s.c); mix(s.t ^ s.u); mix(s.m); mix(s.n * 2ull + s.yes);
    long was = s.checks; asked = 0; switch (unit) { case 0: c39_on(&s, what); break; case 1: c39_off(&s, what); break; case 2: cxx::run(&s, what); break; } ev(KIND[what]); ev(IN[unit]); ev("checks", (uint64_t)(s.checks - was)); nontrivial(s.checks > was); }
