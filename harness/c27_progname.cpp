// C27: program name and program path against a reference resolution of argv[0], PATH and the working directory.
#include "ztc.hpp"
#include <sys/stat.h>
#include <fcntl.h>
#include <limits.h>
#include <errno.h>
using namespace vt;
const bool vt_leakcheck = true;
static void setpath(const std::string &v) { static char b[1 << 21]; snprintf(b, sizeof b, "PATH=%s", v.c_str()); putenv(b); }
bool vt_probe(const std::string &) { return false; }

static std::string root, cwd; static bool cwd_gone; static std::string name_now = "*UNKNOWN*", path_now; static bool path_known;
static std::string join(const std::string &a, const std::string &b) { return a == "/" ? a + b : a + "/" + b; }
static std::string lexical(const std::string &p) {   // "." and doubled separators mean nothing
    std::string o; bool abs = !p.empty() && p[0] == '/'; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string c = p.substr(i, j - i); if (!c.empty() && c != ".") { if (!o.empty()) o += '/'; o += c; } i = j + 1; }
    return (abs ? "/" : "") + o; }
static std::string dirname_(std::string p) { while (p.size() > 1 && p.back() == '/') p.pop_back(); size_t i = p.rfind('/'); if (i == std::string::npos) return "."; p.resize(i + 1); while (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
static std::string basename_(std::string p) { while (p.size() > 1 && p.back() == '/') p.pop_back(); if (p == "/") return p; size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
static std::string own(const std::string &s) { return s.size() > 90 ? s.substr(0, 40) + "...(" + std::to_string(s.size()) + ")..." + s.substr(s.size() - 30) : s; }
static std::string prog(Rng &r) { static const char *n[] = {"prog", "p", "tool.sh", "a b", "x:y", "..p", "prog2"}; return n[r.below(7)]; }
static std::string dir(Rng &r) { static const char *n[] = {"b1", "b2", "b3", "b4", "b1/sub", "missing", "b2/.", "b3//sub", "prog"}; return n[r.below(9)]; }
static void name(Rng &r) {
    std::string n; switch (r.below(8)) { case 0: n = ""; break; case 1: n = prog(r); break; case 2: n = r.str(r.size(40), "/a.b"); break; case 3: n = std::string(PATH_MAX + r.range(-3, 3), 'n'); break; case 4: n = r.str(r.below(3 * PATH_MAX), "/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"); break; case 5: n = std::string(r.below(PATH_MAX + 3), 'd') + "/" + std::string(PATH_MAX + r.range(-4, 9), 'n'); break; default: n = "/usr/" + r.str(1 + r.below(9), "/ab.") + "/" + prog(r); }
    int opt = r.chance(1, 2) ? STRIP_DIR : 0; bool null = r.chance(1, 8); op("name %s%s", null ? "(null)" : esc(own(n)).c_str(), opt ? " stripped" : ""); char *arg = null ? NULL : strdup(n.c_str()); char *got = zt_progname(arg, opt); if (arg) { memset(arg, 'Z', n.size()); free(arg); }
    if (!null && !n.empty()) { Quiet q; name_now = opt ? basename_(n) : n; ev(opt ? "name.stripped" : "name.whole"); } else ev("name.kept");
    size_t l = strnlen(got, PATH_MAX + 1); VT_CHECK(l <= PATH_MAX, "name-end", "the name is not terminated"); if (name_now.size() < PATH_MAX) VT_CHECK(name_now == got, "name", "the name is %s, want %s", esc(own(got)).c_str(), esc(own(name_now)).c_str()); else { VT_CHECK(l >= PATH_MAX - 1 && name_now.compare(0, l, got) == 0, "name-long", "an overlong name is stored as %zu bytes", l); ev("name.long"); }
    char *again = zt_progname(NULL, r.chance(1, 2) ? STRIP_DIR : 0); VT_CHECK(strlen(again) == l && !strcmp(again, got), "name-kept", "reading the name changes it");
}
static void ispath(const char *what, const std::string &want, bool bydir, bool fits = true) {
    char *got = zt_progpath(NULL); size_t l = strnlen(got, PATH_MAX + 1); VT_CHECK(l <= PATH_MAX, "path-end", "the path is not terminated"); if (!fits) return;
    bool ok = lexical(got) == lexical(want); if (!ok && bydir) { struct stat a, b; ok = stat(got, &a) == 0 && stat(want.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev && (want[0] != '/' || got[0] == '/'); }
    VT_CHECK(ok, "path", "%s: the path is %s, want %s", what, esc(own(got)).c_str(), esc(own(want)).c_str()); VT_CHECK(got == zt_progpath((char *)"") && lexical(got) == lexical(zt_progpath(NULL)), "path-kept", "reading the path changes it");
}
static void move(Rng &r) { Quiet q; cwd_gone = false; std::string d; switch (r.below(8)) { case 0: d = "/"; break; case 1: { d = root + "/gone"; mkdir(d.c_str(), 0755); if (chdir(d.c_str())) harness_error("chdir"); rmdir(d.c_str()); cwd_gone = true; op("in a removed directory"); ev("cwd.gone"); return; } case 2: d = root + "/b1/sub"; break; case 3: { d = root; unsigned n = 1 + (unsigned)r.below(15); if (chdir(d.c_str())) harness_error("chdir"); while (n--) { std::string c(200 + r.below(55), 'q'); mkdir(c.c_str(), 0755); if (chdir(c.c_str())) harness_error("chdir deep"); d += "/" + c; } cwd = d; ev("cwd.deep"); op("in a directory %zu bytes long", d.size()); return; } default: d = root; } if (chdir(d.c_str())) harness_error("chdir %s", d.c_str()); cwd = d; op("in %s", d.size() > 40 ? own(d).c_str() : d.c_str()); }
static bool isprog(const std::string &p) { struct stat sb; return stat(p.c_str(), &sb) == 0 && !S_ISDIR(sb.st_mode); }
static void search(Rng &r) {
    std::string P = prog(r); std::vector<std::string> el; unsigned n = (unsigned)r.below(r.chance(1, 20) ? 400 : 6); for (unsigned i = 0; i < n; i++) switch (r.below(12)) { case 0: el.push_back(""); break; case 1: el.push_back(dir(r)); break; case 2: el.push_back(root + "/" + dir(r) + std::string(1 + r.below(2), '/')); break; case 3: el.push_back(r.chance(1, 2) ? "/" : "."); break; case 4: el.push_back(r.chance(1, 6) ? std::string(PATH_MAX + r.range(-300, 300), 'e') : r.str(1 + r.below(9), "/ab")); break; case 5: el.push_back(".."); break; case 6: el.push_back(std::string("lnk")); break; default: el.push_back(root + "/" + dir(r)); }
    bool unset = r.chance(1, 25); std::string path; for (size_t i = 0; i < el.size(); i++) path += (i ? ":" : "") + el[i]; for (size_t i = 0; i < el.size(); i++) if (el[i].find(':') != std::string::npos) harness_error("colon"); if (unset) unsetenv("PATH"); else setpath(path); if (el.empty()) el.push_back("");
    op("search %s in %s", esc(P).c_str(), unset ? "no PATH" : esc(own(path)).c_str()); std::string arg = P; zt_progpath((char *)arg.c_str()); VT_CHECK(arg == P, "argument", "the argument was changed");
    if (unset) { char b[PATH_MAX + 1]; ssize_t k = readlink("/proc/self/exe", b, PATH_MAX); if (k < 0) harness_error("readlink"); ispath("without PATH", dirname_(std::string(b, k)), true); ev("path.unset"); path_known = true; return; }
    std::string want; bool found = false; size_t at = 0; for (; at < el.size(); at++) { if (isprog(el[at].empty() ? P : join(el[at], P))) { found = true; want = el[at]; break; } }
    if (found && !want.empty()) { ispath("search", want, true); ev(at + 1 == el.size() ? "found.last" : at ? "found.middle" : "found.first"); if (want[0] != '/') ev("found.relative"); }
    else { if (!cwd_gone) ispath(found ? "empty element" : "not found", cwd, true, cwd.size() < PATH_MAX); else ispath("not found", ".", false, true); ev(found ? "found.empty" : "not.found"); }
    path_known = true;
}
static void given(Rng &r) {
    std::string p; switch (r.below(9)) { case 0: p = "/" + prog(r); break; case 1: p = root + "/" + dir(r) + "/" + prog(r); break; case 2: p = "./" + prog(r); break; case 3: p = "./" + dir(r) + "/" + prog(r); break; case 4: p = "../" + prog(r); break; case 5: p = r.str(1 + r.below(4), "ab.") + "/" + r.str(r.below(5), "a./") + "/" + prog(r); break; case 6: p = ".//" + dir(r) + "//" + prog(r); break; case 7: p = (r.chance(1, 2) ? "/" : r.chance(1, 2) ? "./" : "") + std::string(r.chance(1, 2) ? PATH_MAX + r.range(-9, 9) : r.below(3 * PATH_MAX), 'w') + "/" + prog(r); break; default: p = std::string(1 + r.below(9), 'x') + "/" + prog(r) + (r.chance(1, 3) ? "/" : ""); }
    if (r.chance(1, 3)) setpath(root + "/b1:" + root + "/b2:" + root + "/b3"); op("given %s", esc(own(p)).c_str()); std::string arg = p; zt_progpath((char *)arg.c_str()); VT_CHECK(arg == p, "argument", "the argument was changed"); std::string d = dirname_(p), want = d; if (d[0] != '/' && !cwd_gone) want = join(cwd, d); bool fits = d.size() < PATH_MAX - 1 && lexical(want).size() < PATH_MAX - 1 && want.size() < PATH_MAX - 1 && (d[0] == '/' || cwd_gone || cwd.size() < PATH_MAX - 1);
    ispath("given", want, false, fits); ev(!fits ? "given.long" : d[0] == '/' ? "given.absolute" : d == "." ? "given.dot" : "given.relative"); path_known = true;
}
void vt_init() { Quiet q; root = scratch(); char b[PATH_MAX]; if (!realpath(root.c_str(), b)) harness_error("realpath"); root = b; }
static void tree(Rng &r) {
    if (chdir(root.c_str())) harness_error("chdir"); for (const char *d : {"b1", "b1/sub", "b2", "b3", "b3/sub", "b4"}) mkdir((root + "/" + d).c_str(), 0755); (void)!symlink("b2", (root + "/lnk").c_str());
    for (const char *d : {"", "b1/", "b1/sub/", "b2/", "b3/", "b3/sub/", "b4/"}) for (const char *p : {"prog", "p", "tool.sh", "a b", "..p", "prog2"}) { std::string f = root + "/" + d + p; unlink(f.c_str()); rmdir(f.c_str()); switch (r.below(9)) { case 0: case 1: { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0755); if (fd >= 0) close(fd); break; } case 2: mkdir(f.c_str(), 0755); break; case 3: (void)!symlink(r.chance(1, 2) ? "tool.sh" : "nowhere", f.c_str()); break; } }
}
void vt_case(Rng &r, uint64_t) {
    nontrivial(true); mix(r.s); { Quiet q; tree(r); } move(r); unsigned n = 3 + (unsigned)r.below(10);
    if (!path_known) VT_CHECK(!strcmp(zt_progpath(NULL), "*UNKNOWN*") && !strcmp(zt_progname(NULL, 0), "*UNKNOWN*"), "unset", "the path is %s before it was set", zt_progpath(NULL));
    while (n--) { evaluations(1); switch (r.below(10)) { case 0: case 1: name(r); break; case 2: move(r); break; case 3: case 4: case 5: given(r); break; case 6: if (r.chance(1, 4)) { char *p = zt_os_progpath(), b[PATH_MAX + 1]; ssize_t k = readlink("/proc/self/exe", b, PATH_MAX); VT_CHECK(p && k > 0 && std::string(b, k) == p, "os", "the system's program path is %s", p); free(p); ev("os"); break; } /* fallthrough */ default: search(r); } }
    if (chdir(root.c_str())) harness_error("chdir"); setpath("/usr/bin:/bin");
}
