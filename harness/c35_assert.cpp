// C35: a failed check is reported once, completely, at its level, through the default logger, and ends what it says it ends; a passed one leaves no trace.
#include "ztc.hpp"
#undef NDEBUG
#undef NO_ASSERT
extern "C" {
#include <libzt/zt_assert.h>
#include <libzt/zt_atexit.h>
}
#include "c35.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <thread>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
namespace cxx {
#include "c35_body.inc"
}
extern "C" { void c35_on(int, int, c35 *); void c35_ndebug(int, int, c35 *); void c35_noassert(int, int, c35 *); }
static void c35_cxx(int site, int kind, c35 *s) { cxx::run(site, kind, s); }
struct Shared { c35 s; int done, exits, value; char file[200]; }; static Shared *sh;
static void at_exit1(void *) { sh->exits++; }
struct Rep { bool crit; std::string text, base, func; unsigned line; };
static std::string basename_of(const std::string &f) { return f.substr(f.rfind('/') + 1); }
static size_t count(const std::string &h, const std::string &n) { size_t c = 0, x = 0; while ((x = h.find(n, x)) != std::string::npos) c++, x += n.size(); return c; }
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
// every report is a line of its own with everything about the place; nothing else is in the sink
static void reports(const std::string &got, const std::vector<Rep> &want, const char *sink, bool levels) {
    std::vector<std::string> L; size_t at = 0, e; while ((e = got.find('\n', at)) != std::string::npos) { L.push_back(got.substr(at, e - at)); at = e + 1; } VT_CHECK(at == got.size(), "partial", "%s: the last line is not complete: %s", sink, got.substr(at).c_str());
    VT_CHECK(L.size() == want.size(), "reports", "%s: %zu lines for %zu failed checks: %s", sink, L.size(), want.size(), got.substr(0, 600).c_str());
    for (size_t i = 0; i < want.size(); i++) { auto &w = want[i]; const std::string &l = L[i]; size_t p = l.find("\"" + w.text + "\""); VT_CHECK(p != std::string::npos, "text", "%s: the report does not name the condition %s: %s", sink, w.text.c_str(), l.substr(0, 500).c_str()); p += w.text.size() + 2;
        size_t b = l.find(w.base, p); VT_CHECK(b != std::string::npos && (b == 0 || l[b - 1] != '/'), "file", "%s: the report does not name the file %s: %s", sink, w.base.c_str(), l.c_str() + p); b += w.base.size(); std::string ln = std::to_string(w.line); size_t n = l.find(ln, b); VT_CHECK(n != std::string::npos && !isdigit((unsigned char)l[n - 1]) && !isdigit((unsigned char)l[n + ln.size()]), "line", "%s: the report does not name line %u: %s", sink, w.line, l.c_str() + b);
        if (!w.func.empty()) VT_CHECK(l.find(w.func, n) != std::string::npos, "function", "%s: the report does not name the function %s: %s", sink, w.func.c_str(), l.c_str() + b);
        if (levels) VT_CHECK(count(l.substr(0, l.find("\"" + w.text)), w.crit ? "Critical" : "Error") == 1, "level", "%s: the report is not at level %s: %s", sink, w.crit ? "Critical" : "Error", l.substr(0, 200).c_str()); } }
static void sequence(Rng &r) {
    struct Step { int unit, site, kind, ok; std::string text, path, func; unsigned line; bool nt, nf; }; std::vector<Step> S; unsigned n = 1 + r.below(8); static void (*const U[])(int, int, c35 *) = {c35_on, c35_ndebug, c35_noassert, c35_cxx}; static const char *UN[] = {"on", "ndebug", "no_assert", "c++"}, *KN[] = {"assert", "assert_nf", "always", "return", "returnV", "abort", "enable", "always (in an expression)", "direct", "strdup"};
    bool fatal = false; int sink = (int)r.below(3), level = r.chance(1, 2) ? 7 : (int)r.below(8); unsigned opts = (unsigned)r.below(32); std::vector<Rep> want; std::string path = std::string(scratch()) + "/report.log"; 
    for (unsigned i = 0; i < n; i++) { Step s{(int)r.below(4), (int)r.below(5), (int)r.below(K_MAX + 2), r.chance(1, i + 1 < n ? 3 : 2), "", "", "", 0, false, false}; if (i + 1 < n && r.chance(2, 3)) { static const int soft[] = {K_NF, K_RETURN, K_RETURNV, K_ENABLE, K_MAX}; s.kind = soft[r.below(5)]; }
        if (s.kind == K_MAX) { s.text = r.str(r.below(r.chance(1, 8) ? 3000 : 40), "abc%sdn$*\\\"'()[]:; "); s.nt = r.chance(1, 12); s.nf = r.chance(1, 4); s.func = r.str(1 + r.below(30), "fgh_%s"); s.line = (unsigned)r.below(INT_MAX); unsigned d = (unsigned)r.below(4); for (unsigned k = 0; k < d; k++) s.path += r.str(1 + r.below(r.chance(1, 6) ? 2000 : 12), "dir %s.") + "/"; if (r.chance(1, 6)) s.path = "/" + s.path; s.path += r.str(1 + r.below(r.chance(1, 8) ? 200 : 12), "file%d_ ") + ".c"; s.ok = (int)r.below(2); }
        S.push_back(s); op("%s: %s, %s, %s", UN[s.unit], KN[s.kind], s.site == 0 ? "plain" : "odd", s.ok ? "holds" : "fails"); }
    op("report to %s, level %d, options %u", sink == 0 ? "a file" : sink == 1 ? "stderr" : "the implicit default", level, opts);
    memset(sh, 0, sizeof *sh); std::string err, got; int st; { Quiet q; unlink(path.c_str()); st = run_forked([&] {
        zt_atexit(at_exit1, NULL); if (sink == 0) zt_log_logger(zt_log_file((char *)path.c_str(), 0, opts)); else if (sink == 1) zt_log_logger(zt_log_stderr(opts)); zt_log_set_level(NULL, (zt_log_level)level); if (sink == 2) zt_log_set_opts(NULL, opts);
        for (auto &s : S) { memset(&sh->s, 0, sizeof sh->s); sh->s.ok = s.ok; if (s.kind == K_MAX) { if (s.ok) _zt_log_assertion(s.nt ? NULL : s.text.c_str(), s.path.c_str(), s.line, s.nf ? NULL : s.func.c_str()); else _zt_log_abort(s.nt ? NULL : s.text.c_str(), s.path.c_str(), s.line, s.nf ? NULL : s.func.c_str()); } else if (s.kind == K_MAX + 1) { char *c = zt_strdup(s.ok ? "a text to copy" : NULL); if (!c || strcmp(c, "a text to copy")) _exit(7); zt_free(c); if (c) _exit(7); } else U[s.unit](s.site, s.kind, &sh->s);
            if (s.kind < K_MAX) { bool always = s.kind == K_ALWAYS || s.kind == K_RETURN || s.kind == K_RETURNV || s.kind == K_EXPR || s.kind == K_ABORT, active = always || s.unit == 0 || s.unit == 3; if (sh->s.evals != (active ? 1 : 0)) _exit(8); bool goes = s.ok || !active || s.kind == K_NF || s.kind == K_ENABLE; if (sh->s.after != (goes ? 1 : 0)) _exit(9); if (s.kind == K_RETURNV && sh->s.value != (s.ok ? 12 : 4711)) _exit(10); if (s.kind == K_EXPR && sh->s.value != 5) _exit(10); }
            sh->done++; }
        exit(0); }, &err, nullptr, 60); got = slurp(path); unlink(path.c_str()); }
    int upto = (int)S.size(); std::string ff; bool first_null = false; for (size_t i = 0; i < S.size(); i++) { auto &s = S[i]; bool active = s.unit == 0 || s.unit == 3, fails = !s.ok && s.kind < K_MAX;
        if (s.kind == K_MAX) { Rep p{!s.ok, s.nt ? (s.ok ? "no assertion given" : "no message given") : s.text, basename_of(s.path), s.nf ? "" : s.func, s.line}; if ((p.crit ? 2 : 3) <= level) want.push_back(p); ev(s.ok ? "direct.assertion" : "direct.abort"); if (s.path.size() > 2000) ev("path.long"); continue; }
        if (s.kind == K_MAX + 1) { ev(s.ok ? "strdup" : "strdup.null"); if (!s.ok) { fatal = true; upto = (int)i; first_null = true; break; } continue; }
        if (!fails || s.kind == K_ENABLE || (!active && (s.kind == K_ASSERT || s.kind == K_NF))) { ev(fails ? "inactive" : "holds"); continue; }
        c35 t; memset(&t, 0, sizeof t); t.ok = 1; U[s.unit](s.site, s.kind, &t); // the place's own description
        Rep p{s.kind == K_ABORT, s.kind == K_ABORT ? "giving up: 100% %s" : t.text, basename_of(t.file), t.func, t.line}; if ((p.crit ? 2 : 3) <= level) want.push_back(p); else ev("filtered");
        if (s.kind == K_ASSERT || s.kind == K_ALWAYS || s.kind == K_EXPR || s.kind == K_ABORT) { fatal = true; upto = (int)i; { static const char *FN[] = {"fatal.on", "fatal.ndebug", "fatal.no_assert", "fatal.c++"}; ev(FN[s.unit]); } if (s.kind == K_ABORT) ev("abort"); break; } ev("reported"); }
    VT_CHECK(st != -1, "hang", "no end"); if (WIFEXITED(st) && WEXITSTATUS(st) >= 7 && WEXITSTATUS(st) <= 10) fail(WEXITSTATUS(st) == 8 ? "evaluated" : "effect", "step %d (%s, %s, %s): evaluated %d times, went on %d, value %d", sh->done, UN[S[sh->done].unit], KN[S[sh->done].kind], S[sh->done].ok ? "holds" : "fails", sh->s.evals, sh->s.after, sh->s.value);
    if (fatal) { VT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "stopped", "step %d (%s, %s): the process ends with %#x: %s", upto, UN[S[upto].unit], KN[S[upto].kind], st, err.substr(0, 500).c_str()); VT_CHECK(sh->done == upto, "went-on", "%d steps completed, step %d had to end the process", sh->done, upto); VT_CHECK(sh->exits == 0, "exit-functions", "exit functions ran %d times in an aborted process", sh->exits); VT_CHECK(first_null || sh->s.evals == 1, "evaluated", "the condition is evaluated %d times", sh->s.evals); }
    else { VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "ended", "the process ends with %#x after %d steps: %s", st, sh->done, err.substr(0, 500).c_str()); VT_CHECK(sh->exits == 1, "exit-functions", "the exit function ran %d times", sh->exits); ev("survived"); }
    const std::string &where = sink == 0 ? got : err; if (sink == 0) VT_CHECK(err.empty(), "elsewhere", "the report is (also) on stderr: %s", err.substr(0, 500).c_str()); else VT_CHECK(got.empty(), "elsewhere", "?");
    if (first_null) { bool shown = level >= 3; size_t c = count(where, "\n"); VT_CHECK(c == want.size() + (shown ? 1 : 0), "reports", "copying no string: %zu lines: %s", c, where.substr(0, 500).c_str()); if (shown) { size_t b = where.rfind('\n', where.size() - 2); b = b == std::string::npos ? 0 : b + 1; VT_CHECK(where.find("zt_malloc.c", b) != std::string::npos, "file", "copying no string: %s", where.substr(b, 300).c_str()); reports(where.substr(0, b), want, "sink", opts & ZT_LOG_WITH_LEVEL); } }
    else reports(where, want, sink == 0 ? "file" : "stderr", opts & ZT_LOG_WITH_LEVEL); ev(sink == 0 ? "to.file" : sink == 1 ? "to.stderr" : "to.default"); }
// checks failing in several threads at once: each is reported, none is lost or sent elsewhere
static int soft(int i) { zt_assert_returnV(i < 0, i); return -1; }
static void threads(Rng &r) { int nt = 2 + (int)r.below(4), per = 1 + (int)r.below(60); op("%d threads, %d failures each", nt, per); std::string path = std::string(scratch()) + "/threads.log", err, got; int st; { Quiet q; unlink(path.c_str()); st = run_forked([&] { zt_log_logger(zt_log_file((char *)path.c_str(), 0, ZT_LOG_RAW)); std::vector<std::thread> T; for (int t = 0; t < nt; t++) T.emplace_back([t, per] { for (int i = 0; i < per; i++) { char b[64]; snprintf(b, sizeof b, "condition %d of thread %d", i, t); _zt_log_assertion(b, "dir/threads.c", 100 + t, "worker"); if (soft(i) != i) _exit(9); } }); for (auto &t : T) t.join(); exit(0); }, &err, nullptr, 60); got = slurp(path); unlink(path.c_str()); }
    VT_CHECK(st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 0 && err.empty(), "threads", "the process ends with %#x: %s", st, err.substr(0, 600).c_str()); VT_CHECK(count(got, "\n") == (size_t)(2 * nt * per), "threads", "%zu lines for %d failures", count(got, "\n"), 2 * nt * per); VT_CHECK(count(got, "\"i < 0\"") == (size_t)(nt * per), "threads", "%zu of %d macro reports", count(got, "\"i < 0\""), nt * per);
    for (int t = 0; t < nt; t++) { size_t at = 0; for (int i = 0; i < per; i++) { char b[100]; snprintf(b, sizeof b, "\"condition %d of thread %d\": threads.c[%d", i, t, 100 + t); char c[64]; snprintf(c, sizeof c, "\"condition %d of thread %d\"", i, t); VT_CHECK(count(got, c) == 1, "threads", "%s is reported %zu times", c, count(got, c)); size_t x = got.find(c); VT_CHECK(x >= at, "threads", "%s is reported before its predecessor", c); at = x; } } ev("threads"); }
void vt_init() { Quiet q; sh = (Shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) harness_error("mmap"); }
void vt_case(Rng &r, uint64_t idx) { nontrivial(true); mix(r.s); if (idx % 12 == 5) threads(r); else sequence(r); }
