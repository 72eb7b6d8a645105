// C28: timeval arithmetic against 128-bit integers; zt_time against a simulated CPU clock.
#include "ztc.hpp"
#include <sys/time.h>
#include <sys/resource.h>
#include <math.h>
#include <limits.h>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
typedef __int128 W; static const W M = 1000000;
// ---- the clock zt_time reads
static bool fake; static W ut, st_; static W step_u, step_s; static unsigned reads;
static void put(struct timeval *t, W v) { W s = v / M, u = v % M; if (u < 0) { u += M; s--; } t->tv_sec = (time_t)s; t->tv_usec = (suseconds_t)u; }
static W val(const struct timeval *t) { return (W)t->tv_sec * M + t->tv_usec; }
extern "C" int __real_getrusage(int, struct rusage *);
extern "C" int __wrap_getrusage(int who, struct rusage *u) { if (!fake) return __real_getrusage(who, u); memset(u, 0, sizeof *u); put(&u->ru_utime, ut); put(&u->ru_stime, st_); ut += step_u; st_ += step_s; reads++; return 0; }
static std::string txt(const struct timeval *t) { char b[64]; snprintf(b, sizeof b, "(%ld,%ld)", (long)t->tv_sec, (long)t->tv_usec); return b; }
static struct timeval tv(Rng &r, int wide) { struct timeval t; static const int64_t e[] = {0, 1, -1, INT32_MAX, INT32_MIN, 1LL << 31, -(1LL << 31) - 1, 1LL << 32, INT64_MAX / 2, INT64_MIN / 2}; switch (r.below(6)) { case 0: t.tv_sec = e[r.below(10)]; break; case 1: t.tv_sec = (time_t)r.below(5); break; case 2: t.tv_sec = -(time_t)r.below(5); break; case 3: t.tv_sec = 1500000000 + (time_t)r.below(1000); break; case 4: t.tv_sec = (int64_t)(r.u64() >> r.below(62)) / 4; break; default: t.tv_sec = (time_t)r.below(100); } if (wide && r.chance(1, 6)) t.tv_sec = r.chance(1, 2) ? INT64_MAX - (int64_t)r.below(2) : INT64_MIN + (int64_t)r.below(2); switch (r.below(5)) { case 0: t.tv_usec = 0; break; case 1: t.tv_usec = 999999; break; case 2: t.tv_usec = 1 + (long)r.below(2); break; case 3: t.tv_usec = 500000 - 1 + (long)r.below(3); break; default: t.tv_usec = (long)r.below(1000000); } return t; }
static void norm(const char *what, const struct timeval *t, W want, const struct timeval *a, const struct timeval *b) { VT_CHECK(t->tv_usec >= 0 && t->tv_usec < 1000000, "range", "%s of %s and %s gives %ld microseconds", what, txt(a).c_str(), txt(b).c_str(), (long)t->tv_usec); VT_CHECK(val(t) == want, what, "%s of %s and %s is %s", what, txt(a).c_str(), txt(b).c_str(), txt(t).c_str()); }
struct Work { long n; W cu, cs; void *arg; long fails; };
static void *work(void *p) { Work *w = (Work *)p; w->n++; ut += w->cu; st_ += w->cs; return (char *)p + w->n; }
static W cal_u, cal_s;
static void timing(Rng &r) {
    fake = true; ut = (W)r.below(1ULL << 40); st_ = (W)r.below(1ULL << 40); step_u = (W)r.below(r.chance(1, 2) ? 50 : 3000000); step_s = (W)r.below(r.chance(1, 2) ? 50 : 3000000);
    if (r.chance(1, 5)) { zt_time_calibrate(); cal_u = step_u; cal_s = step_s; ev("calibrate"); op("calibrate"); }
    int n = r.chance(1, 4) ? (int)r.below(3) : r.chance(1, 10) ? -(int)r.below(5) : 1 + (int)r.below(60); bool none = r.chance(1, 10); Work w = {0, (W)r.below(2000000), (W)r.below(2000000), NULL, 0}; struct time_result tr; memset(&tr, 0xa5, sizeof tr); unsigned before = reads; op("time %d runs%s", n, none ? " of nothing" : "");
    void *ret = zt_time(n, &tr, none ? NULL : work, &w); long want = none || n < 0 ? 0 : n; VT_CHECK(w.n == want, "runs", "asked for %d runs, the function ran %ld times", n, w.n); VT_CHECK(ret == (want ? (void *)((char *)&w + want) : NULL), "result", "the last result is not returned"); if (reads - before != 2) { fake = false; ev("other.readings"); return; }
    struct timeval z = {0, 0}; norm("usr", &tr.usr_time, step_u + want * w.cu - cal_u, &z, &z); norm("sys", &tr.sys_time, step_s + want * w.cs - cal_s, &z, &z); ev(want ? "timed" : "timed.nothing"); fake = false;
    float u = -1, s = -1, t = -1; zt_time_result_to_elapsed(&tr, &u, &s, &t); double du = (double)val(&tr.usr_time) / 1e6, ds = (double)val(&tr.sys_time) / 1e6; VT_CHECK(fabs(u - du) <= 1e-6 * fabs(du) + 1e-6 && fabs(s - ds) <= 1e-6 * fabs(ds) + 1e-6 && fabs(t - du - ds) <= 1e-6 * (fabs(du) + fabs(ds)) + 2e-6, "elapsed", "elapsed %g %g %g, want %g %g", u, s, t, du, ds);
    // the printed line
    Quiet q; char *buf = NULL; size_t len = 0; FILE *old = stderr, *m = open_memstream(&buf, &len); stderr = m; char name[] = "the function"; zt_time_print_result(&tr, name, n); stderr = old; fclose(m); char want_line[400]; if (n <= 1) snprintf(want_line, sizeof want_line, "the function took: %4.2fs user %4.2fs system %4.2fs total\n", u, s, t); else snprintf(want_line, sizeof want_line, "%d calls of the function took: %4.2fs user %4.2fs system %4.2fs total\n", n, u, s, t); std::string got(buf, len); free(buf); VT_CHECK(got.find(want_line) != std::string::npos, "print", "printed %s, want %s", esc(got).c_str(), esc(want_line).c_str()); ev("print");
}
static void arith(Rng &r) {
    struct timeval a = tv(r, 0), b = r.chance(1, 5) ? a : tv(r, 0), o, *d = &o, *pa = &a, *pb = &b; if (r.chance(1, 6)) { b = a; b.tv_usec = r.chance(1, 2) ? 999999 : 0; } struct timeval ca = a, cb = b; int alias = (int)r.below(4); if (alias == 1) d = pa; else if (alias == 2) d = pb; else if (alias == 3) { pb = pa; cb = ca; } if (alias) ev("aliased"); W x = val(&ca), y = val(&cb); unsigned k = (unsigned)r.below(4); memset(&o, 0x5a, sizeof o);
    struct timeval *rv; switch (k) { case 0: rv = zt_add_time(d, pa, pb); VT_CHECK(rv == d, "return", "the result pointer"); norm("sum", d, x + y, &ca, &cb); ev("add"); break; case 1: rv = zt_sub_time(d, pa, pb); VT_CHECK(rv == d, "return", "the result pointer"); norm("difference", d, x - y, &ca, &cb); ev("sub"); break; case 2: rv = zt_diff_time(d, pa, pb); VT_CHECK(rv == d, "return", "the result pointer"); norm("diff", d, y - x, &ca, &cb); if (x <= y) VT_CHECK(d->tv_sec >= 0, "negative", "readings in order differ by %s", txt(d).c_str()); ev("diff"); break;
    default: { struct timeval e = tv(r, 1), f = r.chance(1, 4) ? e : tv(r, 1); if (r.chance(1, 4)) { f = e; f.tv_usec = (long)r.below(1000000); } W p = val(&e), q = val(&f); long c = zt_cmp_time(&e, &f); VT_CHECK(p < q ? c < 0 : p > q ? c > 0 : c == 0, "compare", "comparing %s with %s gives %ld", txt(&e).c_str(), txt(&f).c_str(), c); ev(p < q ? "less" : p > q ? "greater" : "equal"); struct timeval g; zt_copy_timeval(&g, &e); VT_CHECK(val(&g) == p, "copy", "copy"); } }
    if (d != pa && d != pb) VT_CHECK(val(&a) == val(&ca) && (pb == pa || val(&b) == val(&cb)), "operand", "an operand changed");
}
void vt_init() { Quiet q; zt_log_ty *l = zt_log_stderr(ZT_LOG_WITH_LEVEL); zt_log_set_level(l, zt_log_debug); zt_log_logger(l); FILE *old = stderr; char *b = NULL; size_t n; stderr = open_memstream(&b, &n); zt_log_printf(zt_log_info, "warm"); fclose(stderr); free(b); stderr = old; }
void vt_case(Rng &r, uint64_t) { nontrivial(true); mix(r.s); fake = true; ut = st_ = 0; step_u = step_s = 0; zt_time_calibrate(); cal_u = cal_s = 0; fake = false; for (int i = 0; i < 40; i++) { evaluations(1); if (r.chance(1, 5)) timing(r); else arith(r); } }
