// C30: generated suites of scripted tests (C and C++), run as a whole, by suite, by name and through
// zt_unit_main; what was executed, every counter, the exit status and the printed report against a model.
#include "ztc.hpp"
extern "C" {
#include <libzt/zt_unit.h>
}
#include "c30_script.h"
#include <memory>
#include <sstream>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
struct script *(*script_of)(struct zt_unit_test *); void (*script_log)(const char *, struct zt_unit_test *, void *);
struct Obj { std::string s; };
#define THROWS case A_THROW_STR: throw (char *)"boom"; case A_THROW_NULL: throw (char *)NULL; case A_THROW_INT: throw 42; case A_THROW_OBJ: throw Obj{"x"};
#include "c30_body.inc"
static void cpp_test(struct zt_unit_test *t, void *d) { body(t, d); }

struct T { std::string name; script s; zt_unit_test *t; long passed, thrown; bool ok; std::string err; };
struct S { std::string name; bool setup, teardown; zt_unit_suite *s; std::vector<T> tests; int tag; long ok, bad, asserts, excs, runs; };
static std::vector<S> *suites; static std::vector<std::string> *trace;
static script *find_script(zt_unit_test *t) { for (auto &s : *suites) for (auto &x : s.tests) if (x.t == t) return &x.s; harness_error("unknown test"); }
static void put(const std::string &s) { Quiet q; trace->push_back(s); }
static std::string suite_of(void *data) { for (auto &s : *suites) if (&s.tag == data) return s.name; return "?"; }
static void note(const char *what, zt_unit_test *t, void *data) { Quiet q; std::string s = std::string(what) + " " + suite_of(data) + "." + t->name; trace->push_back(s); }
static void on_setup(void *d) { Quiet q; put("setup " + suite_of(d)); }
static void on_teardown(void *d) { Quiet q; put("teardown " + suite_of(d)); }
// ---- the model
struct Tot { long suites, tests, ok, bad, asserts, excs; }; static Tot tot;
struct Line { std::string k, v; }; static std::vector<Line> *want_out;
static void outl(const std::string &k, const std::string &v = "") { want_out->push_back({k, v}); }
static void m_test(S &s, T &t, std::vector<std::string> &w) {
    t.passed = t.thrown = 0; t.ok = true; t.err.clear(); bool ended = false; if (s.setup) w.push_back("setup " + s.name); std::string id = s.name + "." + t.name; w.push_back("begin " + id);
    for (int i = 0; i < t.s.n && t.ok && !ended; i++) switch (t.s.act[i]) { case A_PASS: case A_EQ: case A_NE: t.passed++; break; case A_FAIL_EXPR: t.ok = false; t.err = "four == 5"; break; case A_FAIL_DOC: t.ok = false; t.err = "four is not six"; break; case A_FAIL_EQ: t.ok = false; t.err = "(four == 7)"; break; case A_FAIL_DEEP: t.ok = false; t.err = "n != pad[0]"; break; case A_FAIL_CALL: t.ok = false; t.err = "gave up at " + std::to_string(i) + " of script"; break; case A_RETURN: ended = true; break; case A_THROW_STR: t.ok = false; t.thrown = 1; t.err = "unhandled exception: boom"; break; case A_THROW_NULL: t.ok = false; t.thrown = 1; t.err = "unhandled exception: NULL"; break; default: t.ok = false; t.thrown = 1; t.err = "unhandled exception: unknown"; }
    if (t.ok) w.push_back("end " + id); if (s.teardown) w.push_back("teardown " + s.name);
    outl(t.name); outl("assertions", std::to_string(t.passed)); if (t.thrown) outl("unhandled_exceptions", std::to_string(t.thrown)); outl("result", t.ok ? "success" : "failure");
    tot.tests++; (t.ok ? tot.ok : tot.bad)++; tot.asserts += t.passed; tot.excs += t.thrown; (t.ok ? s.ok : s.bad)++; s.asserts += t.passed; s.excs += t.thrown; s.runs++;
    ev(t.thrown ? "test.exception" : t.ok ? "test.passed" : "test.failed"); if (s.runs > (long)s.tests.size()) ev("test.again"); if (t.s.cpp) ev("cpp"); else ev("c");
}
static void m_suite(S &s, std::vector<std::string> &w) { tot.suites++; outl("---"); outl(s.name); outl("Tests"); for (auto &t : s.tests) m_test(s, t, w); ev("suite"); if (s.tests.empty()) ev("suite.empty"); }
static std::string word(Rng &r) { static const char *n[] = {"a", "b", "ab", "suite one", "abc", "a b", "x", "%s%n", "Tests'", "very long name for a suite or a test that goes past the column", "-q", "B", "aa"}; return n[r.below(13)]; }
static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t"); if (a == std::string::npos) return ""; size_t b = s.find_last_not_of(" \t"); return s.substr(a, b - a + 1); }
static std::string captured;
static int run(const std::function<int()> &f) {   // with standard output captured, without heap traffic
    static char big[1 << 20], io[1 << 16]; FILE *m; { Quiet q; m = fmemopen(big, sizeof big, "w"); setvbuf(m, io, _IOFBF, sizeof io); } FILE *old = stdout; stdout = m; int rc = f(); stdout = old; Quiet q; fflush(m); long n = ftell(m); fclose(m); captured.assign(big, n); return rc; }
static int m_name(const std::string &n, std::vector<std::string> &w) {
    size_t d = n.find('.'); std::string a = n.substr(0, d), b = d == std::string::npos ? "" : n.substr(d + 1); bool one = d == std::string::npos;
    if (!one && (b.empty() || a.empty() || b.find('.') != std::string::npos)) return -1; if (a.empty()) return -1;
    for (auto &s : *suites) if (s.name == a) { if (one) { m_suite(s, w); ev("by.suite"); return 0; } for (auto &t : s.tests) if (t.name == b) { m_test(s, t, w); ev("by.test"); return 0; } return -1; } return -1; }
static void check_report(bool all) {
    // the report, line by line: key and value, whatever the indentation
    std::vector<Line> got; std::istringstream in(captured); std::string l; std::map<std::string, std::string> stats; std::vector<std::string> errors, empties; int sec = 0;
    while (std::getline(in, l)) { std::string t = trim(l); if (t.empty()) continue; size_t ind = l.find_first_not_of(' '); if (t == "---") { sec = 0; got.push_back({"---", ""}); continue; } if (t == "Errors:" && ind == 2) { sec = 1; continue; } if (t == "Global Stats:" && ind == 0) { sec = 2; if (!got.empty() && got.back().k == "---") got.pop_back(); continue; } if (t == "empty tests:" && sec == 2) { sec = 3; continue; }
        if (sec == 1 && ind >= 4 && t.back() == '\'') { errors.push_back(t); continue; } if (sec == 1) sec = 0; if (sec == 3) { empties.push_back(t); continue; } size_t c = t.rfind(" : "); std::string k, v; if (c != std::string::npos) { k = trim(t.substr(0, c)); v = trim(t.substr(c + 3)); } else { k = t; if (!k.empty() && k.back() == ':') k.pop_back(); c = k.rfind(": "); if (t.back() != ':' && c != std::string::npos) { v = trim(k.substr(c + 2)); k = trim(k.substr(0, c)); } } if (sec == 2) stats[k] = v; else got.push_back({k, v}); }
    for (size_t i = 0; i < want_out->size(); i++) { VT_CHECK(i < got.size() && got[i].k == (*want_out)[i].k && got[i].v == (*want_out)[i].v, "report", "line %zu of the report is \"%s: %s\", want \"%s: %s\"", i, i < got.size() ? got[i].k.c_str() : "missing", i < got.size() ? got[i].v.c_str() : "", (*want_out)[i].k.c_str(), (*want_out)[i].v.c_str()); } VT_CHECK(got.size() == want_out->size(), "report", "%zu lines of report, want %zu: %s", got.size(), want_out->size(), got.size() > want_out->size() ? got[want_out->size()].k.c_str() : "");
    if (all) { struct { const char *k; long v; } w[] = {{"suites", tot.suites}, {"tests", tot.tests}, {"successes", tot.ok}, {"exceptions", tot.excs}, {"assertions", tot.asserts}, {"failures", tot.bad}}; for (auto &x : w) VT_CHECK(stats[x.k] == std::to_string(x.v), "stats", "the report states %s %s, want %ld", stats[x.k].c_str(), x.k, x.v); ev("stats");
        size_t n = 0; for (auto &s : *suites) for (auto &t : s.tests) if (!t.ok) { n++; bool f = false; for (auto &e : errors) f |= e.compare(0, t.name.size(), t.name) == 0 && e.find("'" + t.err) != std::string::npos; VT_CHECK(f, "errors", "the failure of %s (%s) is not in the report", t.name.c_str(), t.err.c_str()); } VT_CHECK(errors.size() == n, "errors", "%zu errors are reported, want %zu", errors.size(), n); if (n) ev("errors"); for (auto &s : *suites) for (auto &t : s.tests) if (t.ok && !t.passed) { bool f = false; for (auto &e : empties) f |= e == "- " + t.name; VT_CHECK(f, "empty", "%s asserts nothing, and the report does not say so", t.name.c_str()); ev("empty"); } for (auto &e : empties) { bool f = false; for (auto &s : *suites) for (auto &t : s.tests) f |= !t.passed && !t.thrown && e == "- " + t.name; VT_CHECK(f, "empty", "%s is reported as empty", e.c_str()); } }
}
void vt_init() { script_of = find_script; script_log = note; }
void vt_case(Rng &r, uint64_t) {
    nontrivial(true); mix(r.s); std::vector<S> ss; std::vector<std::string> tr, want; std::vector<Line> wo; Line last; suites = &ss; trace = &tr; want_out = &wo; tot = {};
    unsigned ns = (unsigned)r.below(5); zt_unit *u; std::string desc;
    { std::vector<std::string> used; for (unsigned i = 0; i < ns; i++) { S s; s.name = word(r); if (r.chance(3, 4)) { bool dup = false; for (auto &x : used) dup |= x == s.name; if (dup) s.name += std::to_string(i); } used.push_back(s.name); s.setup = r.chance(1, 2); s.teardown = r.chance(1, 2); s.ok = s.bad = s.asserts = s.excs = s.runs = 0; bool cpp = r.chance(1, 2); unsigned nt = (unsigned)r.below(6); for (unsigned j = 0; j < nt; j++) { T t; t.name = word(r); memset(&t.s, 0, sizeof t.s); t.s.cpp = cpp; t.s.n = (int)r.below(r.chance(1, 10) ? 60 : 6); int pass = r.chance(1, 2) ? 60 : 5; for (int k = 0; k < t.s.n; k++) { static const unsigned char P[] = {A_PASS, A_EQ, A_NE}; if ((int)r.below(60) < pass) t.s.act[k] = P[r.below(3)]; else t.s.act[k] = (unsigned char)r.below(cpp ? 13 : 8); if (!cpp && t.s.act[k] > A_FAIL_EQ && t.s.act[k] < A_RETURN) t.s.act[k] = A_RETURN; } t.t = NULL; t.passed = t.thrown = 0; t.ok = true; s.tests.push_back(t); } ss.push_back(s); } }
    u = zt_unit_init(); VT_CHECK(u && !u->tests && !u->failures, "init", "a new unit is not empty");
    std::vector<zt_unit_suite *> gone; auto spare = [&] { zt_unit_suite *x = zt_unit_register_suite_(u, "spare", on_setup, on_teardown, NULL, zt_unit_try_c); for (unsigned n = (unsigned)r.below(4); n--;) zt_unit_register_test(x, "none", c_test); gone.push_back(x); };
    for (auto &s : ss) { if (r.chance(1, 6)) spare(); bool cpp = !s.tests.empty() && s.tests[0].s.cpp; std::string nm = s.name; s.s = zt_unit_register_suite_(u, nm.c_str(), s.setup ? on_setup : NULL, s.teardown ? on_teardown : NULL, &s.tag, cpp ? zt_unit_try_cpp : zt_unit_try_c); for (auto &c : nm) c = 'Z'; for (auto &t : s.tests) { std::string tn = t.name; t.t = zt_unit_register_test(s.s, tn.c_str(), cpp ? cpp_test : c_test); for (auto &c : tn) c = 'Z'; VT_CHECK(t.t && t.name == t.t->name, "name", "the test is called %s", t.t->name); } }
    if (r.chance(1, 6)) spare();
    while (!gone.empty()) { size_t i = r.below(gone.size()); zt_unit_suite *x = gone[i]; gone.erase(gone.begin() + i); op("release a suite"); zt_unit_release_suite(&x); VT_CHECK(!x, "release", "the released suite is still there"); ev("release.suite"); }
    unsigned rounds = 1 + (unsigned)r.below(4);
    for (unsigned k = 0; k < rounds; k++) {
        if (!ss.empty() && r.chance(1, 6)) { auto &s = r.pick(ss); if (!s.tests.empty()) { size_t i = r.below(s.tests.size()); zt_unit_test *t = s.tests[i].t; op("release test %s.%s", s.name.c_str(), s.tests[i].name.c_str()); zt_unit_release_test(&t); VT_CHECK(!t, "release", "the released test is still there"); s.tests.erase(s.tests.begin() + i); ev("release.test"); } }
        evaluations(1); tr.clear(); want.clear(); wo.clear(); int rc, wrc = 0; bool all = false; unsigned how = (unsigned)r.below(6);
        auto pick = [&]() -> std::string { std::string n; if (!ss.empty() && r.chance(4, 5)) { auto &s = r.pick(ss); n = s.name; if (r.chance(1, 2)) n += "." + (!s.tests.empty() && r.chance(5, 6) ? r.pick(s.tests).name : word(r)); if (r.chance(1, 12)) n += "."; if (r.chance(1, 20)) n = "." + n; if (r.chance(1, 20)) n.pop_back(); } else { static const char *odd[] = {"", ".", "..", "nothing", "nothing.at", ".a", "a.", "a.b.c", "a..b", "..."}; n = odd[r.below(10)]; } return n; };
        if (how == 0) { for (auto &s : ss) m_suite(s, want); op("run everything"); rc = run([&] { return zt_unit_run(u); }); all = true; ev("run.all"); }
        else if (how == 1 && !ss.empty()) { auto &s = r.pick(ss); m_suite(s, want); op("run suite %s", s.name.c_str()); rc = run([&] { return zt_unit_run_suite(u, s.s); }); }
        else if (how == 2) { std::string n = pick(); op("run \"%s\"", n.c_str()); wrc = m_name(n, want); std::string c = n; rc = run([&] { return zt_unit_run_by_name(u, (char *)c.c_str()); }); VT_CHECK(c == n, "argument", "the name was changed"); if (wrc) ev("not.found"); }
        else if (how == 3 && !ss.empty() && r.chance(1, 2)) { auto &s = r.pick(ss); if (s.tests.empty()) continue; auto &t = r.pick(s.tests); Tot keep = tot; long a = s.ok, b = s.bad, c = s.asserts, d = s.excs; m_test(s, t, want); tot = keep; s.ok = a; s.bad = b; s.asserts = c; s.excs = d; op("run one test directly"); rc = run([&] { return zt_unit_run_test(u, s.s, t.t); }); wrc = t.ok ? 1 : 0; ev("direct"); }
        else { std::vector<std::string> av = {"program"}; unsigned n = (unsigned)r.below(4); while (n--) av.push_back(r.chance(1, 12) ? std::vector<std::string>{"-h", "--help", "-l", "--list"}[r.below(4)] : pick()); std::vector<char *> argv; for (auto &x : av) argv.push_back((char *)x.c_str()); argv.push_back(NULL); int special = 0; for (size_t i = 1; i < av.size() && !special; i++) special = av[i] == "-h" || av[i] == "--help" ? 1 : av[i] == "-l" || av[i] == "--list" ? 2 : 0; std::string d; for (auto &x : av) d += " \"" + x + "\""; op("main%s", d.c_str());
            if (special) { rc = run([&] { return zt_unit_main(u, (int)av.size(), argv.data()); }); VT_CHECK(tr.empty(), "ran", "tests run although %s was asked for", special == 1 ? "help" : "the list"); VT_CHECK(rc == 0, "status", "asking for %s returns %d", special == 1 ? "help" : "the list", rc); if (special == 1) VT_CHECK(captured.find("--help") != std::string::npos && captured.find("program") != std::string::npos, "help", "no help"); else { std::string rest = captured; size_t at = 0; for (auto &s : ss) { at = captured.find("\n  " + s.name + ":\n", at); VT_CHECK(at != std::string::npos, "list", "suite %s is not listed", s.name.c_str()); at++; for (auto &t : s.tests) { at = captured.find("- " + t.name + "\n", at); VT_CHECK(at != std::string::npos, "list", "test %s is not listed", t.name.c_str()); } } } ev(special == 1 ? "help" : "list"); continue; }
            bool missing = false; if (av.size() == 1) { for (auto &s : ss) m_suite(s, want); all = true; ev("run.all"); } else for (size_t i = 1; i < av.size(); i++) if (m_name(av[i], want) < 0) { missing = true; outl("Suite or Test \"" + av[i] + "\" not found"); ev("not.found"); } rc = run([&] { return zt_unit_main(u, (int)av.size(), argv.data()); }); wrc = missing || tot.bad ? -1 : 0; ev(wrc ? "main.failed" : "main.ok"); VT_CHECK(!!rc == !!wrc, "status", "the exit status is %d with %ld failures%s", rc, tot.bad, missing ? " and something not found" : ""); if (missing) { bool f = captured.find("not found") != std::string::npos; VT_CHECK(f, "not-found", "nothing says what was not found"); } rc = wrc; if (missing) { std::string c; std::istringstream in(captured); std::string l; while (std::getline(in, l)) if (l.compare(0, 15, "Suite or Test \"")) c += l + "\n"; captured = c; std::vector<Line> k2; for (auto &x : wo) if (x.k.compare(0, 15, "Suite or Test \"")) k2.push_back(x); wo = k2; } }
        for (size_t i = 0; i < want.size() || i < tr.size(); i++) VT_CHECK(i < want.size() && i < tr.size() && want[i] == tr[i], "executed", "step %zu was \"%s\", want \"%s\"", i, i < tr.size() ? tr[i].c_str() : "nothing", i < want.size() ? want[i].c_str() : "nothing");
        VT_CHECK(rc == wrc, "status", "the result is %d, want %d", rc, wrc);
        VT_CHECK(u->tests == (unsigned)tot.tests && u->successes == (unsigned)tot.ok && u->failures == (unsigned)tot.bad && u->assertions == (unsigned)tot.asserts && u->exceptions == (unsigned)tot.excs && u->suite_count == (unsigned)tot.suites, "totals", "totals are %u suites %u tests %u passed %u failed %u assertions %u exceptions, want %ld %ld %ld %ld %ld %ld", u->suite_count, u->tests, u->successes, u->failures, u->assertions, u->exceptions, tot.suites, tot.tests, tot.ok, tot.bad, tot.asserts, tot.excs);
        for (auto &s : ss) { VT_CHECK(s.s->succeeded == s.ok && s.s->failed == s.bad && s.s->assertions == s.asserts && s.s->exceptions == s.excs, "suite-totals", "suite %s: %d passed %d failed %d assertions %d exceptions, want %ld %ld %ld %ld", s.name.c_str(), s.s->succeeded, s.s->failed, s.s->assertions, s.s->exceptions, s.ok, s.bad, s.asserts, s.excs); for (auto &t : s.tests) if (t.t->success != -1) { VT_CHECK((t.t->success == 1) == t.ok && t.t->assertions == t.passed && t.t->exceptions == t.thrown, "test-record", "test %s: success %d, %ld assertions, %ld exceptions, want %d %ld %ld", t.name.c_str(), t.t->success, t.t->assertions, t.t->exceptions, t.ok, t.passed, t.thrown); if (!t.ok) VT_CHECK(t.t->error && !strncmp(t.t->error, t.err.c_str(), t.err.size()), "error-text", "test %s failed with \"%s\", want \"%s\"", t.name.c_str(), t.t->error ? t.t->error : "nothing", t.err.c_str()); } }
        check_report(all);
    }
    zt_unit_release(&u); VT_CHECK(!u, "release", "the unit is still there"); { Quiet q; std::string().swap(captured); }
}
