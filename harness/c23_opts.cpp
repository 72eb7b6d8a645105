#define HAVE_INTTYPES_H 1
#include "ztc.hpp"
#include <inttypes.h>
#include <limits.h>
#include <strings.h>
#include <sys/wait.h>
extern "C" {
#include <libzt/zt_opts.h>
}
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
enum Kind { NUL, IMAX, INT, LONG, FLAG, BOOL, STR, ARR, USERFLAG, USERVAL, TAKE, NKIND };
static const char *KN[] = {"null", "intmax", "int", "long", "flag", "bool", "string", "array", "userflag", "userval", "take"};
struct Event { bool err; int code; std::string msg; int def, argn; bool hasval; std::string val; bool operator==(const Event &o) const { return err == o.err && code == o.code && msg == o.msg && def == o.def && argn == o.argn && hasval == o.hasval && val == o.val; } };
static std::string show(const Event &e) { char b[600]; if (e.err) snprintf(b, sizeof b, "error %d %s", e.code, e.msg.c_str()); else snprintf(b, sizeof b, "option %d at %d %s", e.def, e.argn, e.hasval ? e.val.c_str() : "-"); return esc(b); }
struct Opt { Kind k; int take; char sopt; std::string lopt, help, arg; bool hl, ha; union { intmax_t m; int i; long l; char *s; char **a; char raw[16]; } dst; };
static std::vector<Opt> O; static std::vector<Event> got; static zt_opt_callback REAL[NKIND];
static int on_error(int code, char *fmt, ...) { va_list ap; va_start(ap, fmt); char b[20000]; if (fmt) vsnprintf(b, sizeof b, fmt, ap); else *b = 0; va_end(ap); Quiet q; got.push_back({true, code, b, 0, 0, false, ""}); return (int)(got.size() % 3) - 1; }
static const unsigned char POISON = 0x5a;
static int logged(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) {
    Opt &o = O[defn]; Event e{false, 0, "", defn, argn, false, ""}; size_t at = got.size(); { Quiet q; got.push_back(e); } int rc = 0;
    switch (o.k) {
    case USERFLAG: break;
    case TAKE: if (argn + o.take < *argc) rc = o.take; break;
    case USERVAL: { int used = -7; char *v = zt_opt_get_value(argn, defn, argv, def, &used, error); Quiet q; if (v) { got[at].hasval = true; got[at].val = v; } rc = used; break; }
    case STR: { o.dst.s = NULL; rc = zt_opt_string(argn, defn, argc, argv, def, error); if (o.dst.s) { { Quiet q; got[at].hasval = true; got[at].val = o.dst.s; } free(o.dst.s); o.dst.s = NULL; } break; }
    case ARR: rc = zt_opt_string_array(argn, defn, argc, argv, def, error); break;
    default: { if (o.k != FLAG) memset(o.dst.raw, POISON, sizeof o.dst.raw); rc = REAL[o.k](argn, defn, argc, argv, def, error); size_t w = o.k == IMAX ? sizeof(intmax_t) : o.k == LONG ? sizeof(long) : sizeof(int); 
        if (o.k != FLAG) { for (size_t i = w; i < sizeof o.dst.raw; i++) VT_CHECK((unsigned char)o.dst.raw[i] == POISON, "overrun", "%s wrote past its variable", KN[o.k]); bool same = true; for (size_t i = 0; i < w; i++) same &= (unsigned char)o.dst.raw[i] == POISON; Quiet q; if (!same) { got[at].hasval = true; char b[40]; snprintf(b, sizeof b, "%jd", o.k == IMAX ? o.dst.m : o.k == LONG ? (intmax_t)o.dst.l : (intmax_t)o.dst.i); got[at].val = b; } } break; } }
    return rc; }
static bool takes(Kind k) { return k == IMAX || k == INT || k == LONG || k == BOOL || k == STR || k == ARR || k == USERVAL; }
struct Expect { std::vector<Event> e; int stop; std::vector<std::vector<std::string>> arr; };
// what a value text means for a kind: sets the event's value, or yields an error code
static int convert(Kind k, const std::string &v, Event &e) {
    char b[40]; char *end; switch (k) { case STR: case USERVAL: e.hasval = true; e.val = v; return 0; case ARR: return 0;
    case BOOL: { const char *s = v.c_str(); int r = !strcasecmp(s, "t") || !strcasecmp(s, "y") || !strcasecmp(s, "true") || !strcasecmp(s, "yes") ? 1 : !strcasecmp(s, "f") || !strcasecmp(s, "n") || !strcasecmp(s, "false") || !strcasecmp(s, "no") ? 0 : -1; if (r < 0) return EINVAL; e.hasval = true; e.val = std::to_string(r); return 0; }
    default: { errno = 0; intmax_t r = strtoimax(v.c_str(), &end, 0); int er = errno; if (!er && k == INT && (r < INT_MIN || r > INT_MAX)) er = ERANGE; if (er) return er; if (end == v.c_str() || *end) return EINVAL; snprintf(b, sizeof b, "%jd", r); e.hasval = true; e.val = b; return 0; } } }
static Expect model(const std::vector<std::string> &a) {
    Expect x; x.arr.resize(O.size()); int n = (int)a.size(), i;
    auto deliver = [&](int d, int argn, bool attached, const std::string &v) -> int { // -> consumed
        Event e{false, 0, "", d, argn, false, ""}; Opt &o = O[d]; ev(std::string("deliver.").append(KN[o.k]).c_str());
        if (o.k == TAKE) { x.e.push_back(e); return argn + o.take < n ? o.take : 0; } if (!takes(o.k)) { x.e.push_back(e); return 0; }
        bool have = attached || argn + 1 < n; if (!have) { x.e.push_back(e); x.e.push_back({true, EINVAL, "", 0, 0, false, ""}); ev("missing"); return 0; }
        std::string val = attached ? v : a[argn + 1]; ev(attached ? "value.attached" : "value.separate"); int er = convert(o.k, val, e); if (o.k == ARR) x.arr[d].push_back(val); x.e.push_back(e); if (er) { x.e.push_back({true, er, "", 0, 0, false, ""}); ev(er == ERANGE ? "value.range" : "value.malformed"); } return attached ? 0 : 1; };
    auto unknown = [&](const std::string &t) { x.e.push_back({true, EINVAL, t.empty() ? t : "'" + t + "'", 0, 0, false, ""}); ev("unknown"); };
    for (i = 1; i < n; i++) { const std::string &s = a[i]; if (s.empty() || s[0] != '-') { ev("stop"); break; }
        if (s.compare(0, 2, "--") == 0) { size_t eq = s.find('='); std::string name = s.substr(2, eq == std::string::npos ? eq : eq - 2); int d = -1; if (!name.empty()) for (size_t k = 0; k < O.size(); k++) if (O[k].hl && O[k].lopt == name) d = (int)k; if (d < 0) { unknown(name); continue; } ev("long"); int c = deliver(d, i, eq != std::string::npos, eq == std::string::npos ? "" : s.substr(eq + 1)); if (eq == std::string::npos) i += c; else ev("long.equals"); continue; }
        if (s.size() == 1) { unknown(""); continue; }
        for (size_t p = 1; p < s.size(); p++) { int d = -1; for (size_t k = 0; k < O.size(); k++) if (O[k].sopt != ZT_OPT_NSO && O[k].sopt == s[p]) d = (int)k; if (d < 0) { unknown(s.substr(p, 1)); break; } ev(p > 1 ? "short.clustered" : "short"); bool rest = p + 1 < s.size(); std::string v = rest ? s.substr(s[p + 1] == '=' ? p + 2 : p + 1) : ""; int c = deliver(d, i, rest && takes(O[d].k), v); if (takes(O[d].k)) { i += c; break; } if (c) { i += c; break; } } }
    x.stop = i; return x; }
static const char *ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static std::string words(Rng &r) { std::string o; unsigned n = r.below(20); for (unsigned i = 0; i < n; i++) { if (i) o += std::string(1 + (r.chance(1, 8) ? r.below(60) : 0), ' '); o += r.str(1 + (r.chance(1, 6) ? r.below(130) : r.below(9)), "abcXYZ.,%-"); } if (r.chance(1, 8)) o += "   "; if (r.chance(1, 8)) o.insert(0, "  "); return o; }
static void table(Rng &r) { O.clear(); O.reserve(16); std::string shorts = ALNUM; std::set<std::string> longs; unsigned n = 1 + r.below(10);
    for (unsigned i = 0; i < n; i++) { Opt o; memset(&o.dst, 0, sizeof o.dst); o.k = (Kind)r.below(NKIND); o.take = 1 + r.below(2); o.sopt = ZT_OPT_NSO; o.hl = false; unsigned form = 1 + r.below(3);
        if (form & 1) { size_t at = r.chance(2, 3) ? r.below(shorts.size() < 6 ? shorts.size() : 6) : r.below(shorts.size()); o.sopt = shorts[at]; shorts.erase(at, 1); }
        if (form & 2) { do o.lopt = r.chance(1, 4) ? r.str(1 + r.below(3), "abc") : r.str(1 + r.below(8), "abcdef-_."); while (!longs.insert(o.lopt).second); o.hl = true; }
        o.ha = r.chance(1, 2); o.arg = r.str(r.below(10), "<abc>[]"); o.help = words(r); O.push_back(o); } }
static std::string value(Rng &r) { switch (r.below(12)) { case 0: return std::to_string((long)r.u64() >> r.below(63)); case 1: { static const char *B[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999x", "0x7fffffff", "0", "-0", "+5"}; return B[r.below(sizeof B / sizeof *B)]; } case 2: { char b[40]; snprintf(b, sizeof b, r.chance(1, 2) ? "%#lx" : "%#lo", (unsigned long)(r.u64() >> (1 + r.below(62)))); return b; } case 3: { static const char *B[] = {"t", "F", "y", "N", "true", "No", "YES", "faLse", "tr", "1", "tt", "x"}; return B[r.below(sizeof B / sizeof *B)]; } case 4: return ""; case 5: return "-" + r.str(r.below(5), "abc123-="); case 6: return std::to_string((int)r.range(-50, 50)) + r.str(1 + r.below(2), "x .=5"); case 7: return " " + std::to_string((int)r.range(-50, 50)); case 8: return r.str(r.below(6), "ab=-\xff"); default: return r.str(1 + r.below(20), "abc 123=%-"); } }
static std::vector<std::string> args(Rng &r) { std::vector<std::string> a = {"prog"}; unsigned n = r.below(16);
    for (unsigned i = 0; i < n; i++) { std::string s; Opt *lo = nullptr, *so = nullptr; for (unsigned t = 0; t < 8 && !lo; t++) { Opt &o = r.pick(O); if (o.hl) lo = &o; }
        switch (r.below(11)) { case 0: case 1: if (lo) { a.push_back("--" + lo->lopt); if (takes(lo->k)) a.push_back(value(r)); else if (lo->k == TAKE) { a.push_back(value(r)); a.push_back(value(r)); } break; } // fall through
            case 2: case 3: if (lo) { a.push_back("--" + lo->lopt + "=" + value(r)); break; } // fall through
            case 4: case 5: case 6: { s = "-"; bool val = false; for (unsigned k = 1 + r.below(4); k--;) { Opt &o = r.pick(O); if (o.sopt == ZT_OPT_NSO) continue; s += o.sopt; so = &o; if (takes(o.k)) { val = true; break; } } if (val) { switch (r.below(3)) { case 0: a.push_back(s); a.push_back(value(r)); break; case 1: a.push_back(s + value(r)); break; default: a.push_back(s + "=" + value(r)); } } else { if (r.chance(1, 6)) s += r.str(1, "Zz=!9-"); a.push_back(s); if (so && so->k == TAKE) { a.push_back("w"); a.push_back("-w"); } } break; }
            case 7: if (r.chance(1, 3)) a.push_back(lo ? "--" + lo->lopt + r.str(1, "ab") : "--nope"); else if (lo) a.push_back("--" + lo->lopt.substr(0, r.below(lo->lopt.size() + 1))); break;
            case 8: if (r.chance(1, 3)) a.push_back(r.pick(std::vector<std::string>{"-", "--", "--=", "-=", "---"}.operator=({"-", "--", "--=x", "-=", "---", "--=", "-\xff"}))); break;
            case 9: if (r.chance(1, 3)) a.push_back("-" + r.str(r.below(8), "-=abcABC01")); break;
            default: if (r.chance(1, 4)) a.push_back(r.chance(1, 4) ? "" : "word" + r.str(r.below(3), "-=a")); } }
    return a; }
struct Defs { std::vector<zt_opt_def> d; };
static void build(std::vector<zt_opt_def> &d) { for (auto &o : O) { zt_opt_def x; memset(&x, 0, sizeof x); x.sopt = o.sopt; x.lopt = o.hl ? (char *)o.lopt.c_str() : ZT_OPT_NLO; x.arg = o.ha ? (char *)o.arg.c_str() : NULL; x.cb = logged; x.cb_data = o.k == USERFLAG || o.k == TAKE || o.k == USERVAL || o.k == NUL ? NULL : (void *)&o.dst; x.help = (char *)o.help.c_str(); d.push_back(x); } zt_opt_def e = {ZT_OPT_END()}; d.push_back(e); }
static std::string squeeze(const std::string &s) { std::string o; for (char c : s) if (c != ' ' && c != '\n' && c != '\r') o += c; return o; }
static std::string listing(const char *name, const char *help, const std::vector<Opt> &T) { std::string w = std::string("Usage: ") + name + " " + help + "\nOptions:\n"; for (auto &o : T) { if (o.sopt != ZT_OPT_NSO) { w += '-'; w += o.sopt; } if (o.sopt != ZT_OPT_NSO && o.hl) w += ","; if (o.hl) w += "--" + o.lopt; if (o.ha) w += o.arg; w += o.help; } return squeeze(w); }
static std::string capture(const std::function<void()> &f) { FILE *o = stdout; char *m = NULL; size_t l = 0; { Quiet q; fflush(stdout); stdout = open_memstream(&m, &l); } f(); Quiet q; fclose(stdout); stdout = o; std::string s(m, l); free(m); return s; }
static char *dup_exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
void vt_init() { REAL[NUL] = zt_opt_null; REAL[IMAX] = zt_opt_intmax; REAL[INT] = zt_opt_int; REAL[LONG] = zt_opt_long; REAL[FLAG] = zt_opt_flag_int; REAL[BOOL] = zt_opt_bool_int; Quiet q; fprintf(stderr, "%s", ""); strerror(EINVAL); strerror(ERANGE); }
static void usage_case(Rng &r, std::vector<zt_opt_def> &d) { int rc = 0; std::string help = r.chance(1, 3) ? "" : words(r), out = capture([&] { rc = zt_opt_usage("the_program", help.empty() && r.chance(1, 2) ? NULL : help.c_str(), d.data()); }); VT_CHECK(rc == 0, "usage-rc", "zt_opt_usage returned %d", rc); VT_CHECK(squeeze(out) == listing("the_program", help.c_str(), O), "usage", "usage text differs: %s", esc(out, 600).c_str()); ev("usage");
    zt_opt_def h; memset(&h, 0, sizeof h); std::string ht = "[options]"; char *av[] = {(char *)"prog", (char *)"--help", NULL}; int ac = 2; got.clear(); size_t at = r.below(d.size()); h.sopt = '!'; h.lopt = (char *)"zhelp"; h.cb = zt_opt_help_stdout; h.cb_data = (void *)ht.c_str(); h.help = (char *)"zzz"; auto d2 = d; d2.insert(d2.begin() + at, h); out = capture([&] { rc = zt_opt_help_stdout(1, (int)at, &ac, av, d2.data(), on_error); }); Opt ho; memset(&ho.dst, 0, sizeof ho.dst); ho.k = NUL; ho.sopt = '!'; ho.hl = true; ho.lopt = "zhelp"; ho.help = "zzz"; ho.ha = false; std::vector<Opt> with = O; with.insert(with.begin() + at, ho); std::string want = listing("prog", "[options]", with); VT_CHECK(rc == 0 && squeeze(out) == want, "help", "help text differs (%d): %s", rc, esc(out, 600).c_str()); VT_CHECK(got.size() == 1 && got[0].err && got[0].code == 0 && got[0].msg.empty(), "help-exit", "help does not ask to stop"); ev("help"); got.clear(); }
static void validate_case(Rng &r, std::vector<zt_opt_def> d) { bool bad = false; size_t n = d.size() - 1; got.clear(); std::string bs; unsigned m = r.below(3); for (unsigned i = 0; i < m; i++) { size_t a = r.below(n), b = r.below(n); switch (r.below(5)) { case 0: d[a].sopt = ZT_OPT_NSO; d[a].lopt = ZT_OPT_NLO; break; case 1: d[a].help = NULL; break; case 2: { static const char C[] = "!-/:@[`{ ~\x7f\x01\0="; d[a].sopt = C[r.below(sizeof C - 1)]; break; } case 3: d[a].sopt = d[b].sopt; break; default: d[a].lopt = d[b].lopt; } }
    for (size_t i = 0; i < n; i++) { if (d[i].sopt == ZT_OPT_NSO && !d[i].lopt) bad = true; if (!d[i].help) bad = true; if (d[i].sopt != ZT_OPT_NSO && !(isascii(d[i].sopt) && isalnum(d[i].sopt))) bad = true; for (size_t j = 0; j < i; j++) { if (d[i].sopt != ZT_OPT_NSO && d[i].sopt == d[j].sopt) bad = true; if (d[i].lopt && d[j].lopt && !strcmp(d[i].lopt, d[j].lopt)) bad = true; } }
    zt_opt_validate_default(d.data(), on_error); VT_CHECK(bad == !got.empty(), "validate", "a %s table yields %zu reports", bad ? "faulty" : "sound", got.size()); for (auto &e : got) VT_CHECK(e.code == EINVAL && !e.msg.empty(), "validate-code", "report %s", show(e).c_str()); ev(bad ? "validate.faulty" : "validate.sound"); got.clear(); }
static void errstr_case(Rng &r) { int code = r.chance(1, 3) ? 0 : (int)r.below(140); std::string t = r.str(r.below(300), "abc %\"'"); char *s = zt_opt_error_str(code, (char *)"%s|%d", t.c_str(), code); std::string want = "error: { code: " + std::to_string(code) + ", string: \"" + (code ? strerror(code) : "") + ": " + t + "|" + std::to_string(code) + "\" }"; VT_CHECK(want == s, "error-str", "'%s' want '%s'", esc(s).c_str(), esc(want).c_str()); zt_free(s); FILE *e = stderr; char *m = NULL; size_t l = 0; { Quiet q; stderr = open_memstream(&m, &l); } int rc = zt_opt_error_default(code, (char *)"%s|%d", t.c_str(), code); { Quiet q; fclose(stderr); stderr = e; std::string o(m, l); free(m); VT_CHECK(rc == code && o == want + "\n", "error-default", "default handler returned %d and wrote %s", rc, esc(o).c_str()); } VT_CHECK(zt_opt_error_default(0, NULL) == -1, "error-exit", "no code and no text does not ask to stop"); ev("error.text"); }
void vt_case(Rng &r, uint64_t) {
    { table(r); std::vector<zt_opt_def> d; build(d);
    if (r.chance(1, 6)) usage_case(r, d); if (r.chance(1, 6)) validate_case(r, d); if (r.chance(1, 10)) errstr_case(r);
    auto a = args(r); for (auto &s : a) { mix(s); } for (auto &o : O) op("option %d: %s %c --%s", (int)(&o - &O[0]), KN[o.k], o.sopt == ZT_OPT_NSO ? ' ' : o.sopt, o.hl ? o.lopt.c_str() : ""); for (auto &s : a) op("arg '%s'", esc(s).c_str());
    bool def = r.chance(1, 150); Expect x = model(a); nontrivial(x.e.size() > 1); char **argv = (char **)malloc((a.size() + 1) * sizeof *argv); for (size_t i = 0; i < a.size(); i++) argv[i] = dup_exact(a[i]); argv[a.size()] = NULL; int argc = (int)a.size(), rc;
    for (auto &o : O) memset(&o.dst, 0, sizeof o.dst); got.clear();
    if (def) { // the default handler: the process ends at the first report with its code, the report on stderr
        const Event *first = nullptr; for (auto &e : x.e) if (e.err) { first = &e; break; } std::string err; int st; { Quiet q; st = run_forked([&] { int ac = argc; int c = zt_opt_process(&ac, argv, d.data()); _exit(c == 0 && ac == x.stop ? 0 : 77); }, &err); } VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (first ? first->code : 0), "default-exit", "with the default handler the program ended with %#x, want %d: %s", st, first ? first->code : 0, esc(err).c_str()); VT_CHECK(!first || err.find("error: { code: " + std::to_string(first->code)) != std::string::npos, "default-report", "report: %s", esc(err).c_str()); ev(first ? "default.error" : "default.ok"); }
    rc = zt_opt_process_args(&argc, argv, d.data(), r.chance(1, 2) ? zt_opt_validate_default : NULL, on_error);
    VT_CHECK(rc == 0, "rc", "processing returned %d", rc);
    for (size_t i = 0; i < x.e.size() || i < got.size(); i++) { evaluations(1); VT_CHECK(i < got.size(), "lost", "event %zu (%s) did not happen", i, show(x.e[i]).c_str()); VT_CHECK(i < x.e.size(), "extra", "unexpected event %zu: %s", i, show(got[i]).c_str()); Event &g = got[i], &w = x.e[i]; if (w.err) { VT_CHECK(g.err && g.code == w.code && g.msg.find(w.msg) != std::string::npos && !g.msg.empty(), "report", "event %zu is %s, want %s", i, show(g).c_str(), show(w).c_str()); } else VT_CHECK(g == w, "delivery", "event %zu is %s, want %s", i, show(g).c_str(), show(w).c_str()); }
    VT_CHECK(argc == x.stop, "stop", "processing stopped at %d, want %d of %zu", argc, x.stop, a.size());
    for (size_t i = 0; i < a.size(); i++) VT_CHECK(a[i] == argv[i], "argv", "argument %zu was changed", i); VT_CHECK(!argv[a.size()], "argv", "the vector's end was changed");
    for (size_t i = 0; i < O.size(); i++) { if (O[i].k == ARR) { char **v = O[i].dst.a; size_t n = 0; if (v) while (v[n]) n++; VT_CHECK(n == x.arr[i].size(), "array", "array has %zu values, want %zu", n, x.arr[i].size()); for (size_t k = 0; k < n; k++) { VT_CHECK(x.arr[i][k] == v[k], "array", "value %zu is '%s' want '%s'", k, esc(v[k]).c_str(), esc(x.arr[i][k]).c_str()); free(v[k]); } free(v); if (n > 1) ev("array.several"); } if (O[i].k == FLAG) { int w = 0; for (auto &e : x.e) w += !e.err && e.def == (int)i; VT_CHECK(O[i].dst.i == w, "flag", "flag counts %d want %d", O[i].dst.i, w); } }
    if (r.chance(1, 20)) { // a callback refuses
        static int refuse_at; static int seen; refuse_at = (int)r.below(4); seen = 0; struct L { static int cb(int, int, int *, char **, zt_opt_def_t *, zt_opt_error) { return seen++ == refuse_at ? -5 - refuse_at : 0; } }; for (size_t i = 0; i + 1 < d.size(); i++) d[i].cb = L::cb; argc = (int)a.size(); got.clear(); rc = zt_opt_process_args(&argc, argv, d.data(), NULL, on_error); VT_CHECK(rc == (seen > refuse_at ? -5 - refuse_at : 0) && seen <= refuse_at + 1, "refused", "a refusal as delivery %d gives %d after %d deliveries", refuse_at, rc, seen); if (rc) ev("refused"); }
    for (size_t i = 0; i < a.size(); i++) free(argv[i]); free(argv); }
    std::vector<Opt>().swap(O); std::vector<Event>().swap(got);
}
