// C26: zt_mkdir / zt_path_exists / zt_find_basedir against the file system itself.
// The same random tree is laid out twice; the library works in one, a plain
// reference (mkdir per prefix) in the other, and the two trees are compared.
#include "ztc.hpp"
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <pthread.h>
#include <errno.h>
#include <limits.h>
#include <atomic>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }

// ---- what the library's mkdir sees: refusals and other creators
static thread_local bool inlib; static thread_local int calls; static thread_local int race_at = -1, fail_at = -1, fail_errno; static thread_local bool raced, failed; static std::atomic<bool> jitter{false};
extern "C" int __real_mkdir(const char *, mode_t);
extern "C" int __wrap_mkdir(const char *p, mode_t m) {
    if (!inlib) return __real_mkdir(p, m);
    int n = calls++;
    if (n > 20000) fail("endless", "more than 20000 attempts to create one directory path");
    if (jitter) { if ((n + (uintptr_t)&n / 64) % 3 == 0) sched_yield(); }
    if (n == race_at && __real_mkdir(p, 0755) == 0) { raced = true; }     // somebody else is faster
    if (fail_at >= 0 && n >= fail_at) { struct stat sb; if (lstat(p, &sb) != 0) { failed = true; errno = fail_errno; return -1; } }
    return __real_mkdir(p, m);
}
static int lib_mkdir(const char *p, mode_t m, int f) { inlib = true; calls = 0; raced = failed = false; int r = zt_mkdir(p, m, (zt_mkdir_flags)f); inlib = false; return r; }

typedef std::map<std::string, std::string> Tree;
static void snap(int dfd, const std::string &at, Tree &t) {
    DIR *d = fdopendir(dfd); if (!d) harness_error("fdopendir");
    while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        struct stat sb; if (fstatat(dfd, e->d_name, &sb, AT_SYMLINK_NOFOLLOW)) harness_error("stat %s", n.c_str());
        std::string p = at.empty() ? n : at + "/" + n; char b[64]; snprintf(b, sizeof b, "%o", (unsigned)sb.st_mode); t[p] = b;
        if (S_ISDIR(sb.st_mode)) { int f = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY); if (f < 0) harness_error("open %s", n.c_str()); snap(f, p, t); }
    }
    closedir(d);
}
static Tree snap(const std::string &root) { Tree t; int f = open(root.c_str(), O_RDONLY | O_DIRECTORY); if (f < 0) harness_error("open %s", root.c_str()); snap(f, "", t); return t; }
static void wipe(int at, const char *name) {    // only ever below the scratch directory, never through a link
    int f = openat(at, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (f < 0) { unlinkat(at, name, 0); return; }
    fchmod(f, 0700); DIR *d = fdopendir(f); while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") wipe(f, n.c_str()); }
    closedir(d); unlinkat(at, name, AT_REMOVEDIR);
}
static bool isdir(const char *p) { struct stat sb; return stat(p, &sb) == 0 && S_ISDIR(sb.st_mode); }
static int ref_mkdir(const std::string &p, mode_t m, bool parents) {
    if (mkdir(p.c_str(), m) == 0) return 0;
    if (errno == EEXIST) return isdir(p.c_str()) ? 0 : -1;
    if (!parents) return -1;
    for (size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1)) { if (!i) continue; std::string q = p.substr(0, i); struct stat sb; if (stat(q.c_str(), &sb) == 0) continue; if (mkdir(q.c_str(), m) && !(errno == EEXIST && isdir(q.c_str()))) return -1; }
    if (mkdir(p.c_str(), m) == 0) return 0;
    return errno == EEXIST && isdir(p.c_str()) ? 0 : -1;
}
static const int DEPTH = 9; static std::string rootA, rootB, cwdA, cwdB;
static void dirs(const std::string &root, std::string &cwd) { cwd = root; if (mkdir(cwd.c_str(), 0755)) harness_error("mkdir %s", cwd.c_str()); for (int i = 0; i < DEPTH; i++) { cwd += "/" + std::to_string(i); if (mkdir(cwd.c_str(), 0755)) harness_error("mkdir %s", cwd.c_str()); } }
static std::string comp(Rng &r) {
    switch (r.below(28)) { case 0: return "."; case 1: return ".."; case 2: return ""; case 3: return std::string(255, 'n'); case 4: return r.chance(1, 3) ? std::string(256, 'n') : "."; case 5: return ".hid"; case 6: return "d e"; case 7: return "x\\y"; case 8: return "%s%n"; }
    return std::string(1, "abcd"[r.below(4)]);
}
static std::string path(Rng &r) { std::string p; unsigned n = 1 + (unsigned)r.below(6); int ups = 0; for (unsigned i = 0; i < n; i++) { std::string c = comp(r); if (c == ".." && ++ups > 2) c = "a"; if (i) p += '/'; p += c; } if (r.chance(1, 8)) p += '/'; while (!p.empty() && p[0] == '/') p.erase(0, 1); return p; }
static std::string longpath(Rng &r, size_t base) { size_t want = (r.chance(3, 4) ? PATH_MAX : 2 * PATH_MAX) + r.range(-3, 4) - (r.chance(1, 2) ? base : 0); std::string p; size_t w = r.chance(1, 2) ? 255 : 100 + r.below(155); while (p.size() < want) { if (!p.empty()) p += '/'; p += std::string(w, 'l'); } p.resize(want); if (p.back() == '/') p.back() = 'l'; return p; }
static void populate(Rng &r) {  // identical in both
    unsigned n = (unsigned)r.below(9);
    for (unsigned i = 0; i < n; i++) {
        std::string p(1, "abcd"[r.below(4)]); unsigned k = (unsigned)r.below(3); while (k--) p += std::string("/") + "abcd"[r.below(4)];
        unsigned kind = (unsigned)r.below(6); std::string target; switch (r.below(6)) { case 0: target = ".."; break; case 1: target = "nowhere"; break; case 2: target = p.substr(p.rfind('/') + 1); break; case 3: target = "a/b"; break; default: target = std::string(1, "abcd"[r.below(4)]); }
        for (auto *c : {&cwdA, &cwdB}) { std::string f = *c + "/" + p; if (kind < 3) { (void)!mkdir(f.c_str(), 0755); } else if (kind == 3) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd >= 0) close(fd); } else (void)!symlink(target.c_str(), f.c_str()); }
    }
}
struct Maker { std::vector<std::string> p; std::vector<int> rc; pthread_barrier_t *bar; };
static void *maker(void *a) { Maker *m = (Maker *)a; m->rc.assign(m->p.size(), 7); pthread_barrier_wait(m->bar); for (size_t i = 0; i < m->p.size(); i++) m->rc[i] = lib_mkdir(m->p[i].c_str(), 0755, zt_mkdir_create_parent); return NULL; }
static std::string own(const std::string &s) { return s.size() > 60 ? s.substr(0, 25) + "...(" + std::to_string(s.size()) + ")..." + s.substr(s.size() - 15) : s; }
void vt_init() { Quiet q; zt_log_ty *l = zt_log_stderr(0); zt_log_set_level(l, zt_log_emerg); zt_log_logger(l); for (int i = 0; i < 2; i++) zt_log_printf(zt_log_err, "warm"); std::string s = scratch(); rootA = s + "/A"; rootB = s + "/B"; }
static void concurrent(Rng &r) {
    unsigned n = 2 + (unsigned)r.below(5); std::vector<Maker> m(n); std::vector<pthread_t> t(n); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, n); std::string common; unsigned k = 1 + (unsigned)r.below(5); while (k--) common += std::string(1, "abcd"[r.below(4)]) + "/"; std::set<std::string> want; jitter = r.chance(1, 2);
    for (auto &x : m) { x.bar = &bar; unsigned c = 1 + (unsigned)r.below(4); while (c--) { std::string p = common; unsigned e = 1 + (unsigned)r.below(3); while (e--) p += std::string(1, "abcd"[r.below(4)]) + "/"; p.pop_back(); x.p.push_back(p); for (size_t i = p.find('/'); ; i = p.find('/', i + 1)) { want.insert(p.substr(0, i)); if (i == std::string::npos) break; } } }
    for (unsigned i = 0; i < n; i++) if (pthread_create(&t[i], NULL, maker, &m[i])) harness_error("pthread_create"); for (auto x : t) pthread_join(x, NULL); pthread_barrier_destroy(&bar); jitter = false;
    for (auto &x : m) for (size_t i = 0; i < x.p.size(); i++) { evaluations(1); VT_CHECK(x.rc[i] == 0, "concurrent", "creating %s with other creators at work returned %d", x.p[i].c_str(), x.rc[i]); ev("concurrent.create"); }
    Tree after = snap(cwdA); std::set<std::string> got; for (auto &x : after) got.insert(x.first); VT_CHECK(got == want, "concurrent-tree", "%zu directories were created, want %zu", got.size(), want.size());
}
static void step(Rng &r) {
    bool abs = r.chance(1, 4), lng = r.chance(1, 12); std::string base = abs ? "/" : "", pa, pb, p = lng ? longpath(r, abs ? cwdA.size() + 1 : 0) : path(r); if (abs) { pa = cwdA + "/" + p; pb = cwdB + "/" + p; if (r.chance(1, 8)) pa.insert(0, "/"), pb.insert(0, "/"); } else { pa = pb = p; if (r.chance(1, 10)) pa = pb = "./" + p; } if (pa.size() >= 2 && r.chance(1, 10)) { size_t i = pa.find('/'); if (i != std::string::npos && i + 1 < pa.size() && !abs) { pa.insert(i, "/"); pb = pa; } } evaluations(1);
    unsigned what = (unsigned)r.below(10);
    if (what < 6) {
        bool parents = r.chance(3, 4); static const unsigned modes[] = {0777, 0755, 0700, 0750, 0711, 01777, 0300}; unsigned mode = modes[r.below(7)], um = r.chance(1, 2) ? 022 : r.chance(1, 2) ? 0 : 027; race_at = r.chance(1, 6) ? (int)r.below(4) : -1; fail_at = r.chance(1, 8) ? (int)r.below(4) : -1; static const int errs[] = {ENOSPC, EACCES, EROFS, EMLINK, EPERM, ENOENT, EINTR}; fail_errno = errs[r.below(7)]; umask(um);
        op("create %s mode %o umask %o%s%s%s", esc(own(pa)).c_str(), mode, um, parents ? ", parents" : "", race_at >= 0 ? ", another creator" : "", fail_at >= 0 ? ", refusals" : "");
        Tree before = snap(rootA); int rc = lib_mkdir(pa.c_str(), mode, parents ? zt_mkdir_create_parent : 0); bool hit = failed, rcd = raced; if (chdir(cwdB.c_str())) harness_error("chdir"); int want = ref_mkdir(pb, mode, parents); if (chdir(cwdA.c_str())) harness_error("chdir"); umask(022);
        VT_CHECK(rc == 0 || rc == -1, "code", "zt_mkdir returned %d", rc); bool is = isdir(pa.c_str()); if (rc == 0) VT_CHECK(is, "not-created", "zt_mkdir reports success, %s is not a directory", esc(own(pa)).c_str());
        Tree a = snap(rootA), b = snap(rootB);
        if (!hit) { VT_CHECK(rc == want, "result", "creating %s%s returned %d, want %d", esc(own(pa)).c_str(), parents ? " with parents" : "", rc, want); } else { VT_CHECK(rc == (is ? 0 : -1), "refused", "creating %s returned %d, it does %sexist", esc(own(pa)).c_str(), rc, is ? "" : "not "); ev("refused"); }
        for (auto &x : before) VT_CHECK(a.count(x.first) && a[x.first] == x.second, "disturbed", "%s changed", own(x.first).c_str());
        for (auto &x : a) if (!before.count(x.first)) { VT_CHECK(b.count(x.first), "surplus", "%s was created, asked was %s", own(x.first).c_str(), esc(own(pa)).c_str()); if (!rcd) VT_CHECK(b[x.first] == x.second, "mode", "%s has mode %s, want %s", own(x.first).c_str(), x.second.c_str(), b[x.first].c_str()); ev("created"); }
        if (rc == 0 && want == 0) for (auto &x : b) VT_CHECK(a.count(x.first), "missing", "%s is missing", own(x.first).c_str());
        if (a.size() > before.size() + 1) ev("created.parents"); if (rc == 0 && a.size() == before.size()) ev("already"); if (rc) ev(parents ? "failed.parents" : "failed.single"); if (rcd) ev("raced"); if (lng) ev("long"); race_at = fail_at = -1;
        // the two trees go on alike
        if (hit || rcd || a != b) { Tree::iterator i; (void)i; if (chdir(scratch())) harness_error("chdir"); wipe(AT_FDCWD, rootA.c_str()); wipe(AT_FDCWD, rootB.c_str()); dirs(rootA, cwdA); dirs(rootB, cwdB); populate(r); if (chdir(cwdA.c_str())) harness_error("chdir"); }
    } else if (what < 8) {
        struct stat sb; int want = stat(pa.c_str(), &sb) == 0 ? 0 : -1; op("exists %s", esc(own(pa)).c_str()); int rc = zt_path_exists(pa.c_str()); VT_CHECK(rc == want, "exists", "existence of %s is reported as %d, want %d", esc(own(pa)).c_str(), rc, want); ev(want ? "exists.no" : "exists.yes");
    } else {
        static const char *const rootish[] = {"proc", "dev", "dev/null", "etc", "usr/bin", "tmp"}; bool fromroot = r.chance(1, 6); if (fromroot && r.chance(1, 2)) pa = r.chance(1, 2) ? "/nonexistent-" + comp(r) + "/b" : "/" + comp(r); // only the root directory holds these
        std::string trig = fromroot ? rootish[r.below(6)] : r.chance(3, 4) ? std::string(1, "abcd"[r.below(4)]) : r.chance(1, 2) ? std::string("a/b") : r.chance(1, 4) ? std::string(300 + r.below(5000), 't') : comp(r); op("basedir of %s with %s", esc(own(pa)).c_str(), esc(own(trig)).c_str()); if (pa.empty()) return;
        std::string lp = pa, want; bool found = false; for (;;) { std::string q = lp + "/" + trig; struct stat sb; if (stat(q.c_str(), &sb) == 0) { found = true; want = lp + "/"; break; } if (lp.empty()) break; size_t i = lp.rfind('/'); if (i == std::string::npos) break; lp.resize(i); }
        char *got = zt_find_basedir(pa.c_str(), trig.c_str()); VT_CHECK(!!got == found, "basedir", "basedir of %s with %s is %s, want %s", esc(own(pa)).c_str(), own(trig).c_str(), got ? esc(got).c_str() : "none", found ? esc(want).c_str() : "none");
        if (got) { struct stat x, y; VT_CHECK(stat(got, &x) == 0 && stat(want.c_str(), &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev && got[strlen(got) - 1] == '/' && (pa + "/").compare(0, strlen(got), got) == 0, "basedir", "basedir of %s with %s is %s, want %s", esc(own(pa)).c_str(), trig.c_str(), esc(got).c_str(), esc(want).c_str()); free(got); ev(want == "/" ? "basedir.root" : want.size() > pa.size() ? "basedir.itself" : "basedir.ancestor"); } else ev("basedir.none"); if (lng) ev("basedir.long");
    }
    char b[PATH_MAX]; VT_CHECK(getcwd(b, sizeof b) && cwdA == b, "cwd", "the working directory moved");
}
void vt_case(Rng &r, uint64_t idx) {
    nontrivial(true); mix(r.s); { Quiet q; dirs(rootA, cwdA); dirs(rootB, cwdB); if (chdir(cwdA.c_str())) harness_error("chdir"); }
    umask(022);
    if (idx % 6 == 5) concurrent(r); else { populate(r); unsigned n = 4 + (unsigned)r.below(12); while (n--) step(r); }
    if (chdir(scratch())) harness_error("chdir"); wipe(AT_FDCWD, rootA.c_str()); wipe(AT_FDCWD, rootB.c_str()); for (auto *s : {&cwdA, &cwdB}) { Quiet q; std::string().swap(*s); }
}
