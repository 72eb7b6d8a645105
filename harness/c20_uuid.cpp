#include "ztc.hpp"
#include "sha1ref.hpp"
#include <pthread.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
static std::set<std::string> *seen;    // every random identifier this process has met
void vt_init() { Quiet q; seen = new std::set<std::string>; zt_uuid_t u; zt_uuid4(&u); }
static const char *A62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static std::string b62(uint64_t v) { std::string s(11, '0'); for (int i = 10; i >= 0; i--) { s[i] = A62[v % 62]; v /= 62; } return s; }
static uint64_t be(const std::string &b, size_t o) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char)b[o + i]; return v; }
static std::string text(const std::string &b, int f) { std::string h = hexref(b); if (f == zt_uuid_short_fmt) return h; if (f == zt_uuid_std_fmt) return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); std::string a = b62(be(b, 0)), c = b62(be(b, 8)); if (f == zt_uuid_base62_hashable_fmt) a = std::string(a.rbegin(), a.rend()); return a + c; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool shape(const std::string &t, int f) { if (f == zt_uuid_std_fmt) { if (t.size() != 36) return false; for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? t[i] != '-' : hexv(t[i]) < 0) return false; return true; } if (f == zt_uuid_short_fmt) { if (t.size() != 32) return false; for (char c : t) if (hexv(c) < 0) return false; return true; } if (t.size() != 22) return false; for (char c : t) if (!isalnum((unsigned char)c) || (c & 0x80)) return false; return true; }
static bool parse(const std::string &t, int f, std::string &out) { if (!shape(t, f)) return false; out.clear(); if (f == zt_uuid_std_fmt || f == zt_uuid_short_fmt) { std::string h; for (char c : t) if (c != '-') h += c; for (int i = 0; i < 16; i++) out += (char)(hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1])); return true; }
    std::string a = t.substr(0, 11), c = t.substr(11); if (f == zt_uuid_base62_hashable_fmt) a = std::string(a.rbegin(), a.rend()); for (auto &s : {a, c}) { unsigned __int128 v = 0; for (char ch : s) v = v * 62 + (strchr(A62, ch) - A62); if (v >> 64) return false; for (int i = 7; i >= 0; i--) out += (char)(uint64_t)(v >> (8 * i)); } return true; }
static const char *FN[4] = {"std", "short", "base62", "base62 hashable"};
static void well(const std::string &b, int ver, const char *who) { VT_CHECK(((unsigned char)b[6] >> 4) == ver, "version", "%s: version nibble %d in %s", who, (unsigned char)b[6] >> 4, hexref(b).c_str()); VT_CHECK(((unsigned char)b[8] >> 6) == 2, "variant", "%s: variant bits %d in %s", who, (unsigned char)b[8] >> 6, hexref(b).c_str()); }
static std::string raw(const zt_uuid_t &u) { return std::string((const char *)u.data.bytes, 16); }
static void fresh(const std::string &b, const char *who) { Quiet q; well(b, 4, who); VT_CHECK(seen->insert(b).second, "repeated", "%s: random identifier %s was generated before", who, hexref(b).c_str()); }
struct Gen { unsigned n; std::vector<zt_uuid_t> out; pthread_barrier_t *bar; };
static void *gen(void *p) { Gen *g = (Gen *)p; pthread_barrier_wait(g->bar); for (unsigned i = 0; i < g->n; i++) zt_uuid4(&g->out[i]); return NULL; }
static void threads(Rng &r, const char *who, std::string *sink) { unsigned k = 2 + r.below(4), n = 1 + r.below(40); std::vector<Gen> g(k); std::vector<pthread_t> t(k); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, k); for (auto &x : g) { x.n = n; x.out.resize(n); x.bar = &bar; } for (unsigned i = 0; i < k; i++) pthread_create(&t[i], NULL, gen, &g[i]); for (auto x : t) pthread_join(x, NULL); pthread_barrier_destroy(&bar); for (auto &x : g) for (auto &u : x.out) { if (sink) *sink += raw(u); else fresh(raw(u), who); } ev("v4.threads", k * n); }
void vt_case(Rng &r, uint64_t idx) {
    nontrivial(true); std::string b = r.bytes(16); if (r.chance(1, 6)) for (char &c : b) c = r.chance(1, 3) ? c : r.chance(1, 2) ? 0 : (char)0xff; if (r.chance(1, 10)) b.replace(0, 8, std::string(8, r.chance(1, 2) ? 0 : (char)0xff)); if (r.chance(1, 10)) b.replace(8, 8, std::string(8, r.chance(1, 2) ? 0 : (char)0xff)); mix(b); op("value %s", hexref(b).c_str());
    zt_uuid_t *u = (zt_uuid_t *)malloc(sizeof *u), *w = (zt_uuid_t *)malloc(sizeof *w); memcpy(u->data.bytes, b.data(), 16);
    for (int f = 0; f < 4; f++) { zt_uuid_flags_t fl = (zt_uuid_flags_t)f; std::string want = text(b, f); char *s = (char *)1; ssize_t n = zt_uuid_tostr(u, &s, fl); VT_CHECK(n == (ssize_t)want.size() && s && want == s, "tostr", "%s: returned %zd '%s', want '%s'", FN[f], n, s ? s : "(null)", want.c_str()); VT_CHECK(zt_uuid_isvalid(s, fl) == 0, "isvalid", "%s: own text '%s' is called invalid", FN[f], s); memset(w, 0xee, sizeof *w); VT_CHECK(zt_uuid_fromstr(s, w, fl) == 0 && raw(*w) == b, "roundtrip", "%s: '%s' parsed as %s", FN[f], s, hexref(raw(*w)).c_str()); VT_CHECK(want == s, "modified", "%s: parsing changed the text", FN[f]); VT_CHECK(zt_uuid_cmp(u, w) == 0, "cmp", "equal identifiers differ"); zt_free(s); ev("roundtrip");
        size_t need = want.size() + 1, sz = r.chance(1, 2) ? need : r.chance(1, 2) ? need + r.below(60) : r.below(need); size_t given = sz; char *p = (char *)malloc(sz + !sz); memset(p, 'Z', sz); n = zt_uuid_fillstr(u, p, &sz, fl); if (given < need) { VT_CHECK(n == 0 && sz == need, "fillstr-small", "%s: buffer of %zu gives %zd, size %zu, want 0 and %zu", FN[f], given, n, sz, need); for (size_t i = 0; i < given; i++) VT_CHECK(p[i] == 'Z', "fillstr-small", "%s: a refused buffer was written", FN[f]); ev("fill.refused"); } else { VT_CHECK(n == (ssize_t)want.size() && want == p, "fillstr", "%s: buffer of %zu gives %zd '%.40s'", FN[f], given, n, p); ev(given > need ? "fill.larger" : "fill.exact"); } free(p);
        sz = r.below(100); bool nu = r.chance(1, 2); char tmp[64]; n = zt_uuid_fillstr(nu ? NULL : u, nu && r.chance(1, 2) ? tmp : NULL, &sz, fl); VT_CHECK(n == 0 && sz == need, "fillstr-query", "%s: query gives %zd, size %zu", FN[f], n, sz); ev("fill.query");
        // texts: variations of a valid one and random ones
        for (int k = 0; k < 3; k++) { std::string t = want; switch (r.below(9)) { case 0: t[r.below(t.size())] = (char)(1 + r.below(255)); break; case 1: t.resize(r.below(t.size())); break; case 2: t += r.str(1 + r.below(5), "0aZ- "); break; case 3: t.erase(r.below(t.size()), 1); break; case 4: t.insert(r.below(t.size()), 1, "0-azAZ g"[r.below(8)]); break; case 5: t = r.str(t.size(), A62); break; case 6: for (char &c : t) if (r.chance(1, 2)) c = toupper(c); break; case 7: t = text(b, r.below(4)); break; default: { size_t i = r.below(t.size()), j = r.below(t.size()); std::swap(t[i], t[j]); if (r.chance(1, 3)) t[0] = 'Z'; if (r.chance(1, 3) && t.size() > 11) t[11] = t[10] = "lLyZ"[r.below(4)]; } }
            t = t.substr(0, t.find('\0')); char *q = (char *)malloc(t.size() + 1); memcpy(q, t.c_str(), t.size() + 1); std::string val; bool ok = parse(t, f, val); memset(w, 0xee, sizeof *w); int rc = zt_uuid_fromstr(q, w, fl); if (ok) VT_CHECK(rc == 0 && raw(*w) == val, "parse", "%s '%s': %d %s, want %s", FN[f], esc(t).c_str(), rc, hexref(raw(*w)).c_str(), hexref(val).c_str()); else VT_CHECK(rc < 0, "parse-reject", "%s '%s' is accepted as %s", FN[f], esc(t).c_str(), hexref(raw(*w)).c_str()); int iv = zt_uuid_isvalid(q, fl); VT_CHECK(iv == (shape(t, f) ? 0 : -1), "isvalid", "%s '%s': isvalid gives %d", FN[f], esc(t).c_str(), iv); VT_CHECK(t == q, "modified", "parsing changed the text"); free(q); ev(ok ? "parse.ok" : shape(t, f) ? "parse.overflow" : t.size() != want.size() ? "parse.length" : "parse.alphabet"); evaluations(1); } }
    { int bit = r.below(128); memcpy(w->data.bytes, b.data(), 16); w->data.bytes[bit / 8] ^= 1 << (bit % 8); int a = zt_uuid_cmp(u, w), c = zt_uuid_cmp(w, u); VT_CHECK(a && c && (a < 0) != (c < 0), "cmp", "identifiers differing in bit %d compare as %d/%d", bit, a, c); ev("cmp"); }
    { VT_CHECK(zt_uuid_tostr(NULL, NULL, zt_uuid_std_fmt) < 0 && zt_uuid_isvalid(NULL, zt_uuid_std_fmt) < 0 && zt_uuid_fillstr(u, NULL, NULL, zt_uuid_short_fmt) < 0, "null", "null arguments accepted"); char *s = (char *)1; VT_CHECK(zt_uuid_tostr(NULL, &s, zt_uuid_std_fmt) < 0, "null", "null identifier accepted"); ev("null"); }
    { // version 5
        static const char *NS[4] = {"6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b811-9dad-11d1-80b4-00c04fd430c8", "6ba7b812-9dad-11d1-80b4-00c04fd430c8", "6ba7b814-9dad-11d1-80b4-00c04fd430c8"}; zt_uuid_t *cst[4] = {&NAMESPACE_DNS, &NAMESPACE_URL, &NAMESPACE_OID, &NAMESPACE_X500}; int k = r.below(4); std::string ns; parse(NS[k], 0, ns); VT_CHECK(raw(*cst[k]) == ns, "namespace", "namespace constant %d changed", k);
        size_t n = r.size(400); std::string name = r.chance(1, 2) ? r.bytes(n) : r.str(n, "abc./:w-"); char *p = (char *)malloc(n + !n); memcpy(p, name.data(), n); VT_CHECK(zt_uuid5(p, n, (zt_uuid_ns)k, w) == 0, "v5", "failed"); VT_CHECK(!memcmp(p, name.data(), n), "modified", "the name was changed"); free(p); std::string d = sha1ref(ns + name).substr(0, 16); d[6] = (d[6] & 15) | 0x50; d[8] = (d[8] & 0x3f) | 0x80; VT_CHECK(raw(*w) == d, "v5", "namespace %d, %zu bytes: %s want %s", k, n, hexref(raw(*w)).c_str(), hexref(d).c_str()); ev("v5"); mix(name); }
    { unsigned n = 1 + r.below(20); for (unsigned i = 0; i < n; i++) { memset(u, r.chance(1, 2) ? 0 : 0xff, sizeof *u); VT_CHECK(zt_uuid4(u) == 0, "v4", "failed"); fresh(raw(*u), "same thread"); } ev("v4", n); }
    if (idx % 50 == 0) { Quiet q; threads(r, "other thread", NULL); }
    if (idx % 400 == 1) { Quiet q; // children forked from this state, and their threads
        unsigned k = 2 + r.below(3), n = 1 + r.below(30); std::vector<int> fds; std::vector<pid_t> pids; bool th = r.chance(1, 2); for (unsigned i = 0; i < k; i++) { int p[2]; if (pipe(p)) harness_error("pipe"); Rng rr(r.u64()); fflush(NULL); pid_t pid = fork(); if (pid == 0) { close(p[0]); std::string o; for (unsigned j = 0; j < n; j++) { zt_uuid_t x; zt_uuid4(&x); o += raw(x); } if (th) threads(rr, "child", &o); size_t at = 0; while (at < o.size()) { ssize_t wv = write(p[1], o.data() + at, o.size() - at); if (wv <= 0) _exit(1); at += wv; } _exit(0); } if (pid < 0) harness_error("fork"); close(p[1]); fds.push_back(p[0]); pids.push_back(pid); }
        for (unsigned i = 0; i < k; i++) { std::string o; char bf[4096]; ssize_t m; while ((m = read(fds[i], bf, sizeof bf)) > 0) o.append(bf, m); close(fds[i]); int st; waitpid(pids[i], &st, 0); VT_CHECK(st == 0, "child", "a generating child ended with status %d", st); for (size_t j = 0; j + 16 <= o.size(); j += 16) fresh(o.substr(j, 16), "forked process"); ev("v4.forked", o.size() / 16); } zt_uuid_t x; zt_uuid4(&x); fresh(raw(x), "parent after fork"); }
    if (idx % 400 == 2) { Quiet q; // a process that has no descriptor left: its threads, one after the other and together, and its children
        int p[2]; if (pipe(p)) harness_error("pipe"); unsigned n = 1 + r.below(20), k = 1 + r.below(4); Rng rr(r.u64()); fflush(NULL); pid_t pid = fork(); if (pid == 0) { close(p[0]); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_NOFILE, &rl); std::string o; zt_uuid_t x; auto some = [&] { for (unsigned j = 0; j < n; j++) { zt_uuid4(&x); o += raw(x); } }; auto put = [&] { size_t at = 0; while (at < o.size()) { ssize_t wv = write(p[1], o.data() + at, o.size() - at < 512 ? o.size() - at : 512); if (wv <= 0) _exit(1); at += wv; } o.clear(); }; some(); for (unsigned i = 0; i < k; i++) { Gen g; g.n = n; g.out.resize(n); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, 1); g.bar = &bar; pthread_t t; if (pthread_create(&t, NULL, gen, &g)) _exit(2); pthread_join(t, NULL); pthread_barrier_destroy(&bar); for (auto &u : g.out) o += raw(u); } threads(rr, "starved", &o); put(); for (unsigned i = 0; i < k; i++) { pid_t c = fork(); if (c == 0) { some(); some(); put(); _exit(0); } if (c < 0) _exit(3); } some(); put(); for (unsigned i = 0; i < k; i++) { int st; if (wait(&st) < 0 || st) _exit(4); } _exit(0); }
        if (pid < 0) harness_error("fork"); close(p[1]); std::string o; char bf[4096]; ssize_t m; while ((m = read(p[0], bf, sizeof bf)) > 0) o.append(bf, m); close(p[0]); int st; waitpid(pid, &st, 0); VT_CHECK(st == 0, "child", "a generating process without descriptors ended with status %#x", st); for (size_t j = 0; j + 16 <= o.size(); j += 16) fresh(o.substr(j, 16), "process without descriptors"); ev("v4.starved", o.size() / 16); }
#ifndef CHECKED // a mistake the assertions are there for
    { // formats that do not exist
        zt_uuid_flags_t bad = (zt_uuid_flags_t)(4 + r.below(250)); char *s = (char *)1; size_t sz = 64; char tmp[64]; memset(tmp, 'Z', sizeof tmp); std::string t = text(b, r.below(4)); VT_CHECK(zt_uuid_tostr(u, &s, bad) < 0, "format", "a text in format %d", (int)bad); VT_CHECK(zt_uuid_fillstr(u, tmp, &sz, bad) < 0, "format", "a text in format %d", (int)bad); for (char c : tmp) VT_CHECK(c == 'Z', "format", "an unknown format writes"); VT_CHECK(zt_uuid_isvalid((char *)t.c_str(), bad) < 0 && zt_uuid_fromstr((char *)t.c_str(), w, bad) < 0, "format", "a text is valid in format %d", (int)bad); ev("format.unknown"); }
#endif
    if (idx % 64 == 3) { // every free bit of a random identifier varies, whatever the output held before
        Quiet q; enum { N = 1024 }; unsigned ones[128] = {0}; uint8_t fill = r.chance(1, 2) ? 0 : 0xff; std::set<uint32_t> words[4]; for (int i = 0; i < N; i++) { memset(u, fill, sizeof *u); VT_CHECK(zt_uuid4(u) == 0, "v4", "failed"); fresh(raw(*u), "same thread"); for (int k = 0; k < 128; k++) ones[k] += u->data.bytes[k / 8] >> (7 - k % 8) & 1; uint32_t x; for (int k = 0; k < 4; k++) { memcpy(&x, u->data.bytes + 4 * k, 4); words[k].insert(x); } }
        for (int k = 0; k < 128; k++) if (k / 4 != 12 && k / 2 != 32) VT_CHECK(ones[k] > N / 2 - 192 && ones[k] < N / 2 + 192, "v4-bits", "bit %d is set in %u of %d random identifiers", k, ones[k], N);   // 12 standard deviations
        for (int k = 0; k < 4; k++) VT_CHECK(words[k].size() > N - 32, "v4-bits", "bytes %d..%d take only %zu values in %d random identifiers", 4 * k, 4 * k + 3, words[k].size(), N); ev("v4.bits"); }
    free(u); free(w);
}
