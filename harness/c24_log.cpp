#include "ztc.hpp"
#include <syslog.h>
#include <pthread.h>
#include <atomic>
#include <optional>
#include <algorithm>
using namespace vt;
#ifdef TSAN
const bool vt_leakcheck = false;
#else
const bool vt_leakcheck = true;
#endif
bool vt_probe(const std::string &) { return false; }
// ---- stand-ins that record what reaches the system logger and choose the host's name
struct SysRec { int pri; std::string text; }; static std::vector<SysRec> sysrec; static std::string sysident; static int sysopt, sysfac, sysopen, sysclose; static std::string hostname_; static bool hostfail;
static void rec(int pri, const char *fmt, va_list ap) { Quiet q; char *s = NULL; int n = vasprintf(&s, fmt, ap); sysrec.push_back({pri, std::string(s, n)}); free(s); }
extern "C" {
void __wrap_vsyslog(int pri, const char *fmt, va_list ap) { rec(pri, fmt, ap); }
void __wrap___vsyslog_chk(int pri, int, const char *fmt, va_list ap) { rec(pri, fmt, ap); }
void __wrap_openlog(const char *ident, int opt, int fac) { Quiet q; sysident = ident; sysopt = opt; sysfac = fac; sysopen++; }
void __wrap_closelog() { sysclose++; }
int __wrap_gethostname(char *b, size_t n) { if (hostfail) { errno = EFAULT; return -1; } if (hostname_.size() >= n) { errno = ENAMETOOLONG; return -1; } memcpy(b, hostname_.c_str(), hostname_.size() + 1); return 0; }
int __wrap___gethostname_chk(char *b, size_t n, size_t) { return __wrap_gethostname(b, n); }
}
enum Kind { FILE_, ERR_, SYS_ };
struct Rec { std::vector<std::string> alt; };
struct Logger { Kind k; zt_log_ty *l; int level; unsigned opts; std::string path, keep; std::vector<Rec> out; bool forced; bool open; };
static std::vector<Rec> errout; static FILE *real_err; static char *mem; static size_t memlen;
static void err_begin() { Quiet q; real_err = stderr; mem = NULL; stderr = open_memstream(&mem, &memlen); errout.clear(); }
static std::string err_end() { Quiet q; fclose(stderr); stderr = real_err; std::string s(mem, memlen); free(mem); mem = NULL; return s; }
static const char *LEVEL[] = {"Emergency", "Alert", "Critical", "Error", "Warning", "Notice", "Info", "Debug"};
static std::string decorate(unsigned opts, int level, const std::string &msg, const char *file, int line, const char *func, time_t t, const std::string &prog) {
    std::string o; if (opts & ZT_LOG_WITH_DATE) { char b[100]; struct tm tm; strftime(b, sizeof b, "%b %d %H:%M:%S ", localtime_r(&t, &tm)); o += b; }
    if (opts & ZT_LOG_WITH_SYSNAME) { std::string h = hostfail ? "*hostname*" : hostname_; h = h.substr(0, h.find('.')); o += h; if (opts > ZT_LOG_WITH_SYSNAME) o += " "; }
    if (opts & ZT_LOG_WITH_PROGNAME) o += prog; if (opts & ZT_LOG_WITH_PID) o += "[" + std::to_string(getpid()) + "]";
    if ((opts & ZT_LOG_WITH_LEVEL) && level < 8) { if (opts != ZT_LOG_WITH_LEVEL) o += ": "; o += LEVEL[level]; } if (opts != ZT_LOG_RAW) o += ": "; o += msg;
    if (file && func && line > -1) o += std::string(": in ") + func + " at (" + file + ":" + std::to_string(line) + ")"; return o + "\n"; }
static void verify(const std::vector<Rec> &want, const std::string &got, const char *sink) { size_t at = 0, i = 0; for (auto &r : want) { bool ok = false; for (auto &a : r.alt) if (got.compare(at, a.size(), a) == 0) { at += a.size(); ok = true; break; } VT_CHECK(ok, "record", "%s: record %zu of %zu: have '%s' want '%s'", sink, i, want.size(), esc(got.substr(at, 300)).c_str(), esc(r.alt[0], 300).c_str()); evaluations(1); i++; } VT_CHECK(at == got.size(), "extra", "%s: unexpected output '%s'", sink, esc(got.substr(at, 300)).c_str()); }
static std::string slurp(const std::string &p) { Quiet q; FILE *f = fopen(p.c_str(), "rb"); if (!f) harness_error("cannot read %s", p.c_str()); std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spill(const std::string &p, const std::string &t) { Quiet q; FILE *f = fopen(p.c_str(), "wb"); if (!f) harness_error("cannot write"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static void vcall(zt_log_ty *l, int level, bool dflt, const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (dflt) zt_log_vprintf((zt_log_level)level, fmt, ap); else zt_log_lvprintf(l, (zt_log_level)level, fmt, ap); va_end(ap); }
void vt_init() { Quiet q; err_begin(); zt_log_printf(zt_log_err, "warm %d", 1); zt_log_strerror(zt_log_err, 1, "warm"); time_t t = time(NULL); struct tm tm; localtime_r(&t, &tm); err_end(); }
static zt_log_ty *uninstall() { Quiet q; zt_log_ty *f = NULL, *x; while (!(x = zt_log_logger(NULL))) ; f = x; return f; } // leaves no default
static void sequence(Rng &r) {
    hostname_ = r.str(1 + r.below(60), "abc-XYZ019.%s"); if (hostname_[0] == '.') hostname_[0] = 'h'; hostfail = r.chance(1, 12); std::string prog = r.str(1 + r.below(r.chance(1, 10) ? 400 : 20), "abcprog-_.%sdn "); zt_progname(prog.c_str(), 0);
    zt_log_ty *forced = uninstall(); std::vector<Logger> L; L.reserve(64); int cur = -1; sysrec.clear(); std::vector<SysRec> syswant; err_begin(); unsigned files = 0, opens = 0; sysopen = sysclose = 0; int closes = 0;
    std::string dfile, dfunc; int dline = -1; bool dset = false, dbg = false;
    auto level_of = [&](int i) { return L[i].level; };
    auto ensure = [&]() { if (cur < 0) { L.push_back({ERR_, NULL, zt_log_max, ZT_LOG_WITH_LEVEL, "", "", {}, true, true}); cur = (int)L.size() - 1; { Quiet q; L[cur].l = NULL; zt_log_set_level(NULL, zt_log_notice); VT_CHECK(zt_log_get_level(NULL) == zt_log_notice && zt_log_set_level(NULL, zt_log_max) == zt_log_notice, "default", "the default logger forgets its level"); zt_log_ty *x = zt_log_logger(NULL); L[cur].l = x; zt_log_logger(x); } VT_CHECK(L[cur].l, "default", "there is no default logger"); ev("default.created"); } };
    unsigned n = 5 + r.below(60);
    for (unsigned s = 0; s < n; s++) {
        int pick = -1; { std::vector<int> o; for (size_t i = 0; i < L.size(); i++) if (L[i].open) o.push_back((int)i); if (!o.empty()) pick = r.pick(o); }
        bool dflt = r.chance(1, 3); switch (r.below(14)) {
        case 0: if (L.size() < 12) { Logger g{FILE_, NULL, zt_log_max, (unsigned)r.below(32), "", "", {}, false, true}; switch (r.below(4)) { case 0: g.k = ERR_; g.l = zt_log_stderr(g.opts); ev("open.stderr"); break; case 1: { g.k = SYS_; g.opts = 0; int fac = r.chance(1, 2) ? LOG_DAEMON : LOG_LOCAL3; bool pid = r.chance(1, 2), simple = r.chance(1, 3); g.l = simple ? zt_log_syslog() : zt_log_syslog2(pid ? ZT_LOG_WITH_PID : 0, fac); opens++; VT_CHECK(sysopen == (int)opens && sysident == prog && sysfac == (simple ? LOG_USER : fac) && sysopt == (simple || pid ? LOG_PID : 0), "syslog-open", "the system logger was opened %d times (want %u) as '%s' facility %d options %d", sysopen, opens, esc(sysident).c_str(), sysfac, sysopt); ev("open.syslog"); break; } default: { g.path = std::string(scratch()) + "/log%" + std::to_string(files++); bool app = r.chance(1, 2); if (r.chance(1, 2)) { g.keep = "earlier\ntext"; spill(g.path, g.keep); if (!app) g.keep.clear(); } else unlink(g.path.c_str()); g.l = zt_log_file((char *)g.path.c_str(), app ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, g.opts); ev(app ? "open.append" : "open.overwrite"); } }
            VT_CHECK(g.l, "open", "no logger"); VT_CHECK(zt_log_get_level(g.l) == zt_log_max && zt_log_get_opts(g.l) == g.opts, "initial", "a new logger has level %d options %u", (int)zt_log_get_level(g.l), zt_log_get_opts(g.l)); L.push_back(g); op("open %d kind %d opts %u", (int)L.size() - 1, g.k, g.opts); } break;
        case 1: { if (r.chance(1, 2)) { std::string p = std::string(scratch()) + "/no such dir/x%d.log"; zt_log_ty *l = zt_log_file((char *)p.c_str(), (int)r.below(2), 0); VT_CHECK(!l, "open-fails", "a logger exists for a file that cannot be opened"); Quiet q; errout.push_back({{"Could not open file " + p + ": " + strerror(ENOENT) + "\n"}}); ev("open.failed"); } break; }
        case 2: if (pick >= 0) { int nl = (int)r.below(9); if (dflt) { ensure(); int i = cur; zt_log_level o = zt_log_set_level(NULL, (zt_log_level)nl); VT_CHECK(o == (zt_log_level)L[i].level, "old-level", "old level %d want %d", o, L[i].level); L[i].level = nl; } else { zt_log_level o = zt_log_set_level(L[pick].l, (zt_log_level)nl); VT_CHECK(o == (zt_log_level)L[pick].level, "old-level", "old level %d want %d", o, L[pick].level); L[pick].level = nl; op("level %d = %d", pick, nl); } ev("set.level"); } break;
        case 3: if (pick >= 0) { unsigned no = (unsigned)r.below(32); int i = pick; if (dflt) { ensure(); i = cur; } unsigned o = zt_log_set_opts(dflt ? NULL : L[i].l, no); VT_CHECK(o == L[i].opts, "old-opts", "old options %u want %u", o, L[i].opts); L[i].opts = no; ev("set.opts"); VT_CHECK(zt_log_get_opts(dflt ? NULL : L[i].l) == no && zt_log_get_level(dflt ? NULL : L[i].l) == (zt_log_level)L[i].level, "read-back", "level or options read back differently"); op("opts %d = %u", i, no); } break;
        case 4: if (pick >= 0 && r.chance(1, 2)) { int was = cur; if (was < 0) { zt_log_ty *o = zt_log_logger(L[pick].l); VT_CHECK(!o, "swap", "there was no logger, yet one came back"); } else { zt_log_ty *o = zt_log_logger(L[pick].l); VT_CHECK(o == L[was].l, "swap", "the replaced logger is not the one in use"); } cur = pick; ev("swap"); op("default = %d", pick); } break;
        case 5: if (r.chance(1, 3) && cur >= 0) { zt_log_ty *o = zt_log_logger(NULL); VT_CHECK(o == L[cur].l, "swap", "the removed logger is not the one in use"); cur = -1; ev("remove"); op("no default"); } break;
        case 6: if (pick >= 0 && !L[pick].forced && r.chance(1, 2)) { Logger &g = L[pick]; if (g.k == SYS_) closes++; zt_log_close(g.l); g.open = false; if (cur == pick) cur = -1; VT_CHECK(sysclose == closes, "syslog-close", "the system logger was closed %d times want %d", sysclose, closes); if (g.k == FILE_) { std::string t = slurp(g.path); VT_CHECK(t.compare(0, g.keep.size(), g.keep) == 0, "kept", "earlier content is gone"); verify(g.out, t.substr(g.keep.size()), "file"); unlink(g.path.c_str()); ev("close.file"); } else ev("close.other"); op("close %d", pick); } break;
        case 7: { dfile = r.str(1 + r.below(40), "abc/.%sn c"); dfunc = r.str(1 + r.below(40), "abc_%dn"); dline = r.chance(1, 8) ? -1 : r.chance(1, 8) ? INT_MAX : (int)r.below(100000); dbg = true; bool nf = r.chance(1, 8), nn = r.chance(1, 8); zt_log_set_debug_info(nf ? NULL : dfile.c_str(), dline, nn ? NULL : dfunc.c_str()); if (nf || nn) { dfile.clear(); } const char *f, *fn; int ln; zt_log_get_debug_info(&f, &ln, &fn); VT_CHECK((!nf ? f && dfile == (nn ? "" : f) || nn : !f) && ln == dline && (nn ? !fn : fn && dfunc == fn), "debug-info", "the source position reads back differently"); ev("debug.info"); break; }
        default: { int i = pick; if (dflt || pick < 0) { dflt = true; ensure(); i = cur; } Logger &g = L[i]; int lv = (int)r.below(9); bool se = r.chance(1, 5); int en = r.chance(1, 4) ? (int)r.range(-5, 3000) : (int)r.below(134); std::string a = r.str(r.below(r.chance(1, 10) ? 5000 : 40), "abc %sdn\t\"\\"), msg; long v = (long)r.u64(); time_t t0 = time(NULL); unsigned form = r.below(4); char tmp[64];
            switch (form) { case 0: msg = a; break; case 1: snprintf(tmp, sizeof tmp, "%ld", v); msg = std::string("v=") + tmp + " 100% <" + a + ">"; break; case 2: msg = "plain 100%"; break; default: msg = ""; }
            std::string full = msg; if (se) { Quiet q; full += std::string(": ") + strerror(en); }
            #define CALL(F, ...) switch (form) { case 0: F(__VA_ARGS__, "%s", a.c_str()); break; case 1: F(__VA_ARGS__, "v=%ld 100%% <%s>", v, a.c_str()); break; case 2: F(__VA_ARGS__, "plain 100%%"); break; default: F(__VA_ARGS__, ""); }
            op("log %s%d level %d form %d", dflt ? "default=" : "", i, lv, form);
            if (se) { zt_log_ty *l = dflt && r.chance(1, 2) ? NULL : g.l; CALL(zt_log_lstrerror, l, (zt_log_level)lv, en) ev("log.strerror"); } else if (r.chance(1, 3)) { CALL(vcall, g.l, lv, dflt) ev("log.v"); } else { zt_log_ty *l = dflt ? NULL : g.l; CALL(zt_log_lprintf, l, (zt_log_level)lv) ev("log"); }
            time_t t1 = time(NULL); bool pass = lv <= g.level; ev(pass ? "emitted" : "filtered"); if (pass && dbg && !dfile.empty() && dline > -1) ev("with.source"); if (pass && dflt) ev("to.default");
            const char *f = dbg && !dfile.empty() ? dfile.c_str() : NULL; if (pass) { if (g.k == SYS_) { static const int P[] = {LOG_EMERG, LOG_ALERT, LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG, LOG_ERR}; syswant.push_back({P[lv], decorate(g.opts & ZT_LOG_WITH_LEVEL, lv, full, f, dline, dfunc.c_str(), t0, prog)}); ev("to.syslog"); } else { Rec rec; for (time_t t = t0; t <= t1; t++) rec.alt.push_back(decorate(g.opts, lv, full, f, dline, dfunc.c_str(), t, prog)); (g.k == FILE_ ? g.out : errout).push_back(rec); ev(g.k == FILE_ ? "to.file" : "to.stderr"); for (unsigned b = 0; b < 5; b++) if (g.opts >> b & 1) ev((std::string("opt.") + std::to_string(1 << b)).c_str()); } }
            dbg = false; const char *gf, *gn; int gl; zt_log_get_debug_info(&gf, &gl, &gn); VT_CHECK(!gf && !gn, "debug-reset", "the source position outlives its message"); } } }
    for (size_t i = 0; i < L.size(); i++) if (L[i].open && !L[i].forced) { if (L[i].k == SYS_) closes++; zt_log_close(L[i].l); if (cur == (int)i) cur = -1; if (L[i].k == FILE_) { std::string t = slurp(L[i].path); VT_CHECK(t.compare(0, L[i].keep.size(), L[i].keep) == 0, "kept", "earlier content is gone"); verify(L[i].out, t.substr(L[i].keep.size()), "file"); unlink(L[i].path.c_str()); } }
    VT_CHECK(sysclose == closes, "syslog-close", "the system logger was closed %d times want %d", sysclose, closes); std::string e = err_end(); verify(errout, e, "stderr");
    for (size_t i = 0; i < syswant.size() || i < sysrec.size(); i++) { VT_CHECK(i < sysrec.size(), "record", "system log record %zu is missing", i); VT_CHECK(i < syswant.size() && syswant[i].pri == sysrec[i].pri && syswant[i].text == sysrec[i].text, "record", "system log record %zu is %d '%s' want %d '%s'", i, sysrec[i].pri, esc(sysrec[i].text).c_str(), i < syswant.size() ? syswant[i].pri : -1, i < syswant.size() ? esc(syswant[i].text).c_str() : ""); }
    zt_log_set_debug_info(NULL, -1, NULL); zt_log_logger(forced); zt_log_close(NULL); std::vector<SysRec>().swap(sysrec); std::string().swap(sysident); std::string().swap(hostname_); std::vector<Rec>().swap(errout);
}
// ---- several threads, shared sinks
struct Msg { int lv; std::string pay, file, func, body; int line; };
struct Worker { int id; unsigned n; zt_log_ty *l; bool dbg; uint64_t seed; pthread_barrier_t *bar; bool toggler; std::atomic<bool> *stop; std::vector<Msg> sent; bool mixed = false, first = false; };
static void prepare(Worker *w) { Rng r(w->seed); for (unsigned i = 0; i < w->n; i++) { Msg m; m.lv = r.chance(1, 3) ? zt_log_info : zt_log_err; m.pay = r.str(r.below(r.chance(1, 10) ? 3000 : 60), "abc %xyz"); m.line = (int)r.below(5000); m.file = "f" + std::to_string(w->id) + "_" + std::to_string(i) + ".c"; m.func = "fn" + std::to_string(w->id); m.body = "T" + std::to_string(w->id) + " #" + std::to_string(i) + " <" + m.pay + ">"; if (w->dbg) m.body += ": in " + m.func + " at (" + m.file + ":" + std::to_string(m.line) + ")"; w->sent.push_back(m); } }
static void *work(void *p) { Worker *w = (Worker *)p; Rng r(w->seed); zt_log_set_debug_info(NULL, -1, NULL); pthread_barrier_wait(w->bar);
    if (w->toggler) { while (!w->stop->load()) { zt_log_set_level(w->l, r.chance(1, 2) ? zt_log_err : zt_log_debug); zt_log_set_opts(w->l, r.chance(1, 2) ? ZT_LOG_WITH_LEVEL : ZT_LOG_RAW); zt_log_get_level(w->l); zt_log_get_opts(w->l); } return NULL; }
    for (unsigned i = 0; i < w->n; i++) { Msg &m = w->sent[i]; if (w->dbg) { zt_log_set_debug_info(m.file.c_str(), m.line, m.func.c_str()); if (r.chance(1, 4)) sched_yield(); const char *f, *fn; int ln; zt_log_get_debug_info(&f, &ln, &fn); if (f != m.file.c_str() || fn != m.func.c_str() || ln != m.line) w->mixed = true; } if (w->first) { Quiet q; /* the default logger lives until exit */ zt_log_lprintf(w->l, (zt_log_level)m.lv, "T%d #%u <%s>", w->id, i, m.pay.c_str()); } else zt_log_lprintf(w->l, (zt_log_level)m.lv, "T%d #%u <%s>", w->id, i, m.pay.c_str()); }
    return NULL; }
static void threads(Rng &r) { std::optional<Quiet> q; q.emplace(); unsigned k = 2 + r.below(5); bool dflt = r.chance(1, 2), tof = r.chance(1, 2), first = dflt && r.chance(1, 2), tog = !first && r.chance(1, 2), dbg = r.chance(1, 2); zt_log_ty *forced = uninstall(), *lg = NULL; std::string path = std::string(scratch()) + "/thr.log"; unlink(path.c_str()); err_begin();
    if (!first) { q.reset(); lg = tof ? zt_log_file((char *)path.c_str(), ZT_LOG_FILE_APPEND, ZT_LOG_WITH_LEVEL) : zt_log_stderr(ZT_LOG_WITH_LEVEL); q.emplace(); if (dflt) zt_log_logger(lg); } else tof = false;
    std::vector<Worker> w(k + tog); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, w.size()); std::atomic<bool> stop{false}; std::vector<pthread_t> t(w.size()); unsigned n = 1 + r.below(first ? 4 : 40); op("%u threads, %u messages each, to %s%s%s%s", k, n, tof ? "file" : "stderr", dflt ? " (default)" : "", first ? " created at first use" : "", tog ? ", level and options changing" : "");
    for (size_t i = 0; i < w.size(); i++) { w[i].id = (int)i; w[i].n = n; w[i].l = dflt ? NULL : lg; w[i].dbg = dbg; w[i].seed = r.u64(); w[i].bar = &bar; w[i].toggler = i == k; w[i].stop = &stop; w[i].first = first; if (!w[i].toggler) prepare(&w[i]); } for (size_t i = 0; i < w.size(); i++) { if (pthread_create(&t[i], NULL, work, &w[i])) harness_error("pthread_create"); }
    for (unsigned i = 0; i < k; i++) pthread_join(t[i], NULL); stop = true; if (tog) pthread_join(t[k], NULL); pthread_barrier_destroy(&bar);
    if (first) { zt_log_ty *x = zt_log_logger(NULL); VT_CHECK(x, "default", "no default logger after use"); ev("threads.first_use"); } else { q.reset(); zt_log_close(lg); q.emplace(); }
    std::string e = err_end(), out = tof ? slurp(path) : e; if (tof) { VT_CHECK(e.empty(), "extra", "stderr: '%s'", esc(e).c_str()); unlink(path.c_str()); }
    for (auto &x : w) VT_CHECK(!x.mixed, "debug-info", "a thread sees another's source position"); std::map<std::string, std::pair<int, int>> where; for (unsigned i = 0; i < k; i++) for (size_t j = 0; j < w[i].sent.size(); j++) where[w[i].sent[j].body] = {(int)i, (int)j}; std::vector<int> last(k, -1); std::vector<std::vector<char>> seen(k, std::vector<char>(n, 0)); size_t at = 0; unsigned switches = 0; int prev = -1;
    while (at < out.size()) { size_t nl = out.find('\n', at); VT_CHECK(nl != std::string::npos, "split", "an unterminated record: '%s'", esc(out.substr(at)).c_str()); std::string line = out.substr(at, nl - at); at = nl + 1; std::string body = line, lv; for (const char *p : {"Error: ", "Info: "}) if (line.compare(0, strlen(p), p) == 0) { lv = p; body = line.substr(strlen(p)); } auto it = where.find(body); VT_CHECK(it != where.end(), "torn", "not a record of any thread: '%s'", esc(line).c_str()); auto [i, j] = it->second; VT_CHECK(!seen[i][j], "twice", "record %d of thread %d appears twice", j, i); seen[i][j] = 1; VT_CHECK(j > last[i], "order", "record %d of thread %d after %d", j, i, last[i]); last[i] = j; VT_CHECK(lv.empty() || lv == (w[i].sent[j].lv == zt_log_err ? "Error: " : "Info: "), "level-text", "'%s'", esc(line).c_str()); if (!tog) VT_CHECK(!lv.empty(), "level-text", "no level: '%s'", esc(line).c_str()); switches += i != prev; prev = i; evaluations(1); }
    for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < n; j++) VT_CHECK(seen[i][j] || (tog && w[i].sent[j].lv == zt_log_info), "lost", "record %u of thread %u is missing", j, i);
    ev("threads.records", k * n); ev("threads.interleavings", switches > k ? 1 : 0); if (tog) ev("threads.reconfigured"); if (dbg) ev("threads.source"); mix(out.size()); zt_log_logger(forced); }
void vt_case(Rng &r, uint64_t idx) { nontrivial(true); mix(r.s);
#ifdef TSAN
    threads(r);
#else
    if (idx % 20 == 0) threads(r); else sequence(r);
#endif
}
