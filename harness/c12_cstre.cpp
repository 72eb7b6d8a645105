#include "strgen.hpp"
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
static void result(char *got, const std::string &want, const char *fn, const std::string &in) { VT_CHECK(got && want == got, fn, "%s(%s) = %s, expected %s", fn, esc(in).c_str(), got ? esc(got).c_str() : "NULL", esc(want).c_str()); free(got); ev(fn); }
static std::string r_base(std::string p, const std::string *suf) { if (p.empty()) return ""; while (p.size() > 1 && p.back() == '/') p.pop_back(); if (p != "/") { size_t k = p.rfind('/'); if (k != std::string::npos) p = p.substr(k + 1); } if (suf && suf->size() < p.size() && p.compare(p.size() - suf->size(), suf->size(), *suf) == 0) p.resize(p.size() - suf->size()); return p; }
static std::string r_dir(std::string p) { while (p.size() > 1 && p.back() == '/') p.pop_back(); size_t k = p.rfind('/'); if (k == std::string::npos) return "."; p.resize(k + 1); while (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
static std::string r_append(std::string a, std::string b) { if (a.empty()) return b; while (a.size() > 1 && a.back() == '/') a.pop_back(); size_t k = b.find_first_not_of('/'); b = k == std::string::npos ? "" : b.substr(k); return a == "/" ? a + b : a + "/" + b; }
static void list(zt_ptr_array *a, const std::vector<std::string> &want, const char *fn, const std::string &in) { VT_CHECK(a != NULL, fn, "%s: no result", fn); VT_CHECK(zt_ptr_array_length(a) == (int)want.size(), fn, "%s(%s): %d pieces, expected %zu", fn, esc(in).c_str(), (int)zt_ptr_array_length(a), want.size());
    for (size_t i = 0; i < want.size(); i++) { const char *g = (const char *)zt_ptr_array_get_idx(a, i); VT_CHECK(g && want[i] == g, fn, "%s(%s): piece %zu is %s, expected %s", fn, esc(in).c_str(), i, esc(g ? g : "NULL").c_str(), esc(want[i]).c_str()); } ev(fn); }
struct Dump { size_t addr; std::string hex, txt; bool end; };
struct Ctx { std::vector<Dump> v; int stop; const std::string *d; size_t pos; };
static int dump_cb(void *c, size_t addr, char *hex, char *txt) { Ctx *x = (Ctx *)c; x->v.push_back(Dump{addr, hex ? hex : "", txt ? txt : "", hex == NULL}); return (int)x->v.size() == x->stop ? -1 : 0; }
static int get_cb(void *c) { Ctx *x = (Ctx *)c; return x->pos < x->d->size() ? (unsigned char)(*x->d)[x->pos++] : EOF; }
struct Both { Ctx *out; };
static std::vector<Dump> r_dump(const std::string &d) { std::vector<Dump> v; for (size_t i = 0; i < d.size(); i += 16) { Dump l{i, "", "", false}; for (size_t k = i; k < d.size() && k < i + 16; k++) { char b[4]; snprintf(b, 4, "%02x ", (unsigned char)d[k]); l.hex += b; l.txt += (d[k] >= 0x20 && d[k] < 0x7f) ? d[k] : '.'; } v.push_back(l); } v.push_back(Dump{0, "", "", true}); return v; }
static void hex_part(Rng &r) {
    std::string d = r.bytes(r.below(40)); char *in = (char *)malloc(d.size() ? d.size() : 1); memcpy(in, d.data(), d.size()); size_t hl = r.chance(1, 2) ? d.size() * 2 : r.below(d.size() * 2 + 4); char *h = (char *)malloc(hl ? hl : 1); memset(h, 0x5a, hl ? hl : 1);
    size_t want = std::min(d.size() * 2, hl / 2 * 2), got = zt_binary_to_hex(in, d.size(), h, hl); VT_CHECK(got == want, "to_hex", "%zu bytes into %zu characters gave %zu", d.size(), hl, got); VT_CHECK(zt_binary_to_hex(in, d.size(), NULL, hl) == want, "to_hex", "size query");
    for (size_t i = 0; i < want; i++) { unsigned v = (unsigned char)d[i / 2]; v = i & 1 ? v & 15 : v >> 4; VT_CHECK(h[i] == "0123456789abcdef"[v], "to_hex", "digit %zu of %s", i, esc(h, want).c_str()); } for (size_t i = want; i < hl; i++) VT_CHECK(h[i] == 0x5a, "to_hex-over", "wrote behind the %zu digits", want); ev("to_hex");
    std::string t(h, want); free(h); free(in); for (auto &c : t) if (r.chance(1, 3)) c = toupper(c); if (r.chance(1, 3)) t = t.substr(0, r.below(t.size() + 1)); if (r.chance(1, 4) && !t.empty()) t[r.below(t.size())] = "gG:/@` x\x80"[r.below(9)];
    bool term = r.chance(1, 2); size_t hlen = term ? t.size() + r.below(6) : t.size(); char *e = (char *)malloc(t.size() + term + (t.size() + term == 0)); memcpy(e, t.data(), t.size()); if (term) e[t.size()] = 0; size_t dl = r.chance(1, 2) ? t.size() : r.below(t.size() / 2 + 2); bool sizeq = r.chance(1, 5); if (sizeq) dl = 1 << 20;
    std::string w; bool bad = false; for (size_t i = 0; i < std::min(hlen, t.size()) && w.size() < dl; i += 2) { auto v = [&](size_t k) { return k < t.size() && k < hlen && isxdigit((unsigned char)t[k]) ? (int)strtol(std::string(1, t[k]).c_str(), NULL, 16) : -1; }; int a = v(i), b = v(i + 1); if (a < 0 || b < 0) { bad = true; break; } w += (char)(a << 4 | b); }
    char *o = (char *)malloc(dl && !sizeq ? dl : 1); memset(o, 0x5a, dl && !sizeq ? dl : 1); errno = 0; size_t g = zt_hex_to_binary(e, hlen, sizeq ? NULL : o, sizeq ? r.below(4) : dl); op("hex %s hlen=%zu dlen=%zu = %zu", esc(t).c_str(), hlen, dl, g);
    if (bad) { VT_CHECK(g == 0 && errno == EINVAL, "from_hex-bad", "malformed hex %s gave %zu (errno %d)", esc(t).c_str(), g, errno); ev("from_hex.bad"); } else { VT_CHECK(g == w.size() && (sizeq || memcmp(o, w.data(), g) == 0), "from_hex", "hex %s gave %zu bytes, expected %zu", esc(t).c_str(), g, w.size()); ev("from_hex"); }
    if (!sizeq) for (size_t i = w.size(); i < dl; i++) VT_CHECK(o[i] == 0x5a, "from_hex-over", "wrote byte %zu", i); free(o); free(e);
    // dumps
    std::string dd = r.bytes(r.chance(1, 2) ? r.below(70) : 16 * r.below(4) + r.below(2) * 15); auto wd = r_dump(dd); Ctx c{{}, r.chance(1, 4) ? (int)(1 + r.below(wd.size())) : 0, &dd, 0}; size_t n;
    char *db = (char *)malloc(dd.size() ? dd.size() : 1); memcpy(db, dd.data(), dd.size()); n = zt_hexdump_str(db, dd.size(), dump_cb, &c); free(db);
    size_t lines = wd.size(); bool stopped = c.stop && c.stop < (int)wd.size(); if (stopped) { VT_CHECK(n == (size_t)-1, "dump-stop", "a dump stopped by its printer returned %zu", n); lines = c.stop; ev("dump.stopped"); } else VT_CHECK(n == dd.size(), "dump-count", "dump of %zu bytes returned %zu", dd.size(), n);
    VT_CHECK(c.v.size() == lines, "dump-lines", "dump of %zu bytes printed %zu lines, expected %zu", dd.size(), c.v.size(), lines);
    for (size_t i = 0; i < lines; i++) VT_CHECK(c.v[i].end == wd[i].end && c.v[i].addr == wd[i].addr && c.v[i].hex == wd[i].hex && c.v[i].txt == wd[i].txt, "dump-line", "line %zu of a %zu byte dump: %zx [%s] [%s]", i, dd.size(), c.v[i].addr, c.v[i].hex.c_str(), c.v[i].txt.c_str()); ev("dump");
}
static size_t (*const dummy_ref)(char *, size_t, zt_hexdump_output, void *) = zt_hexdump_str;
static void dump_reader(Rng &r) { (void)dummy_ref; std::string dd = r.bytes(r.below(40)); auto wd = r_dump(dd); static thread_local Ctx *cur; Ctx c{{}, 0, &dd, 0}; cur = &c; size_t n = zt_hexdump(get_cb, &c, [](void *, size_t a, char *h, char *t) -> int { return dump_cb(cur, a, h, t); }, NULL); VT_CHECK(n == dd.size() && c.v.size() == wd.size(), "dump-reader", "dump through a reader of %zu bytes returned %zu with %zu lines", dd.size(), n, c.v.size()); ev("dump.reader"); }
void vt_case(Rng &r, uint64_t idx) {
    std::string s = gen_str(r), t = gen_str(r, 20); mix(s); mix(t); nontrivial(s.size() > 1); op("s=%s t=%s", esc(s).c_str(), esc(t).c_str());
    ssize_t i = gen_idx(r, s.size()), j = gen_idx(r, s.size()), k = gen_idx(r, t.size()), l = gen_idx(r, t.size()); std::string a = cut_slice(s, norm(i, j, s.size())), b = cut_slice(t, norm(k, l, t.size())); op("slices %zd %zd / %zd %zd", i, j, k, l); mix(i * 64 + j);
    { Heap hs(s), ht(t);
      result(zt_cstr_sub(hs, i, j), a, "sub", s);
      { size_t n = r.below(5); std::string w; for (size_t q = 0; q < n; q++) w += a; result(zt_cstr_dup(hs, i, j, n), w, "dup", s); }
      result(zt_cstr_cat(hs, i, j, ht, k, l), a + b, "cat", s + "+" + t); { std::string u = gen_str(r, 8); Heap hu(u); switch (r.below(3)) { case 0: result(zt_cstr_catv(hs, (int)i, (int)j, ht.p, (int)k, (int)l, hu.p, 0, -1, NULL), a + b + u, "catv", s); break; case 1: result(zt_cstr_catv(hs, (int)i, (int)j, NULL), a, "catv", s); break; default: result(zt_cstr_catv(hu, 0, -1, hs.p, (int)i, (int)j, hs.p, 0, -1, ht.p, (int)k, (int)l, NULL), u + a + s + b, "catv", s); } }
      { std::string w(a.rbegin(), a.rend()); result(zt_cstr_reverse(hs, i, j), w, "reverse", s); }
      { std::string from, to; size_t n = r.below(12); for (size_t q = 0; q < n; q++) { from += !a.empty() && r.chance(1, 2) ? a[r.below(a.size())] : (char)(1 + r.below(255)); to += (char)(1 + r.below(255)); } unsigned char m[256]; for (int q = 0; q < 256; q++) m[q] = q; for (size_t q = 0; q < n; q++) m[(unsigned char)from[q]] = to[q]; std::string w = a; for (auto &c : w) c = m[(unsigned char)c]; Heap hf(from), hto(to); bool none = r.chance(1, 8); result(zt_cstr_map(hs, i, j, none ? NULL : hf.p, none ? NULL : hto.p), none ? a : w, "map", s); VT_CHECK(zt_cstr_map(NULL, 0, -1, NULL, NULL) == NULL && zt_cstr_dup(NULL, 0, -1, 1) == NULL, "null", "null strings"); }
      { size_t n = r.chance(1, 3) ? a.size() : r.below(a.size() + 4); char *o = (char *)malloc(n ? n : 1); memset(o, 0x5a, n ? n : 1); size_t g = zt_cstr_copy(hs, i, j, o, n); VT_CHECK(g == std::min(n, a.size()) && memcmp(o, a.data(), g) == 0, "copy", "copying %s into %zu bytes returned %zu", esc(a).c_str(), n, g); for (size_t q = g; q < n; q++) VT_CHECK(o[q] == 0x5a, "copy-over", "wrote behind the copy"); free(o); ev("copy"); }
      { size_t n = r.chance(1, 2) ? 1 + s.size() + r.below(8) : r.below(s.size() + 2); char *o = (char *)malloc(n ? n : 1); o[0] = 0x5a; std::string suf = r.chance(1, 2) && !s.empty() ? s.substr(r.below(s.size())) : gen_str(r, 4); bool us = r.chance(1, 2); Heap hsuf(suf); std::string w = r_base(s, us ? &suf : NULL); if (w.size() >= n) { w.resize(n ? n - 1 : 0); ev("basename.truncated"); }
        char *g = zt_cstr_basename(o, n, hs, us ? hsuf.p : NULL); VT_CHECK(g == o && (n == 0 || w == o), "basename", "base name of %s (suffix %s, size %zu) = %s, expected %s", esc(s).c_str(), us ? esc(suf).c_str() : "-", n, n ? esc(std::string(o, strnlen(o, n))).c_str() : "", esc(w).c_str()); ev("basename");
        w = r_dir(s); if (w.size() >= n) { w.resize(n ? n - 1 : 0); ev("dirname.truncated"); } g = zt_cstr_dirname(o, n, hs); VT_CHECK(g == o && (n == 0 || w == o), "dirname", "directory of %s (size %zu) = %s, expected %s", esc(s).c_str(), n, n ? esc(std::string(o, strnlen(o, n))).c_str() : "", esc(w).c_str()); ev("dirname"); free(o); }
      result(zt_cstr_path_append(hs, ht), r_append(s, t), "path_append", s + " , " + t);
      { std::vector<std::string> w; std::string d = r.chance(1, 2) ? "/" : r.str(1 + r.below(3), "/ a,"), cur; for (char c : s) { if (d.find(c) != std::string::npos) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) w.push_back(cur); Heap hd(d); zt_ptr_array *p = zt_cstr_split(hs, hd); list(p, w, "split", s); VT_CHECK(zt_cstr_split_free(p) == 0, "split_free", "free failed"); VT_CHECK(zt_cstr_split(NULL, ",") == NULL && zt_cstr_split("a", NULL) == NULL, "null", "null arguments"); }
      { char d = s.empty() || r.chance(1, 2) ? '/' : s[r.below(s.size())]; int d_ = r.chance(1, 2) ? (int)d : (int)(unsigned char)d; bool keep = r.chance(1, 2); std::vector<std::string> w; for (size_t q = 0; q + 1 < s.size(); q++) if (s[q] == d) w.push_back(s.substr(q + !keep)); zt_ptr_array *p = zt_cstr_cut(hs, d_, keep ? 1 + r.below(3) : 0); list(p, w, "cut", s); VT_CHECK(zt_cstr_cut_free(p) == 0, "cut_free", "free failed");
        w.clear(); std::string u = s; if (!u.empty() && u.back() == d) u.pop_back(); for (;;) { w.push_back(u); size_t q = u.rfind(d); if (q == std::string::npos || q == 0) break; u.resize(q); } p = zt_cstr_tok(hs, d_, r.below(2)); list(p, w, "tok", s); zt_cstr_cut_free(p); }
      VT_CHECK(hs.same(s) && ht.same(t), "modified", "a constructing function modified its input"); }
    { Heap h(s); std::string w = s; if (!w.empty() && w.back() == '\n') w.pop_back(); char *g = zt_cstr_chomp(h); VT_CHECK(g == h.p && w == h.p, "chomp", "chomp(%s) = %s", esc(s).c_str(), esc(h.p).c_str()); ev("chomp"); }
    { Heap h(s); std::string w = s; size_t q = w.find_first_not_of(" \t"); w = q == std::string::npos ? "" : w.substr(q); q = w.find_last_not_of(" \t\n"); std::string tail = q == std::string::npos ? w : w.substr(q + 1); w.resize(w.size() - tail.size()); if (tail.find('\n') != std::string::npos) { w += '\n'; ev("strip.newline"); } char *g = zt_cstr_strip(h); VT_CHECK(g == h.p && w == h.p, "strip", "strip(%s) = %s, expected %s", esc(s).c_str(), esc(h.p).c_str(), esc(w).c_str()); ev("strip"); }
    { static const int sp[] = {INT_MIN, INT_MAX, INT_MIN + 1, 0, -1, 9, 10, -9, -10, 99, 100, 999, 1000, -999, -1000, 1000000000, -1000000000}; int v = r.chance(1, 3) ? sp[r.below(17)] : (int)((int64_t)(int32_t)r.u64() >> r.below(32)); char d[24]; int n = snprintf(d, 24, "%d", v); VT_CHECK(zt_cstr_int_display_len(v) == (size_t)n, "display_len", "display length of %d = %zu", v, zt_cstr_int_display_len(v));
      size_t off = r.below(12), sz = r.chance(1, 2) ? off + n + r.below(4) : r.below(30); char *o = (char *)malloc(sz ? sz : 1); memset(o, 0x5a, sz ? sz : 1); ssize_t g = zt_cstr_itoa(o, v, off, sz); bool fits = off + n < sz; VT_CHECK(g == (fits ? (ssize_t)(off + n) : -1), "itoa-rc", "formatting %d at %zu of %zu returned %zd", v, off, sz, g); if (fits) VT_CHECK(!strcmp(o + off, d), "itoa", "formatting %d gave %s", v, o + off); for (size_t q = 0; q < sz; q++) if (!fits || q < off || q > off + n) VT_CHECK(o[q] == 0x5a, "itoa-over", "formatting %d at %zu wrote position %zu", v, off, q); free(o); ev(fits ? "itoa" : "itoa.refused"); VT_CHECK(zt_cstr_itoa(NULL, v, 0, 40) == -1, "itoa-null", "null buffer"); op("itoa %d", v); mix((uint64_t)v); }
    hex_part(r); dump_reader(r);
    if (idx % 512 == 7) {   // the default dump printer writes the same lines to standard output
        std::string d = r.bytes(r.below(60)), err, out; int st = run_forked([&] { zt_hexdump_str((char *)d.data(), d.size(), NULL, NULL); fflush(stdout); }, &err, &out); VT_CHECK(st == 0, "dump-print", "printing a dump failed: %s", err.c_str());
        std::string w; for (auto &x : r_dump(d)) { if (x.end) { w += "\n"; break; } char b[200]; std::string h = x.hex; h.resize(48, 0); snprintf(b, 200, "%.4zx   %.12s %.12s %.12s %.12s", x.addr, h.c_str(), h.c_str() + 12, h.c_str() + 24, h.c_str() + 36); std::string line = b; line.resize(line.size() < 59 ? 59 : line.size(), ' '); w += line + "| " + x.txt + "\n"; }
        VT_CHECK(out.size() && strcasecmp(out.c_str(), w.c_str()) == 0, "dump-print", "printed dump:\n%s\nexpected:\n%s", out.c_str(), w.c_str()); ev("dump.printed"); }
    if (idx % 512 == 263) { // the default printer widens its address column and keeps the others
        static const size_t at[] = {0, 16, 0xfff0, 0x10000, 0x10010, 0xfffffff0u, 0x100000000, 0x123456789abc0, (size_t)-16}; std::string d = r.bytes(1 + r.below(16)), out, err; Dump l = r_dump(d)[0]; size_t a = at[r.below(9)]; char hex[16 * 3 + 3] = {0}, txt[17] = {0}; strcpy(hex, l.hex.c_str()); strcpy(txt, l.txt.c_str()); int st = run_forked([&] { int rc = zt_hexdump_default_printer(NULL, a, hex, txt); fflush(stdout); _exit(rc ? 3 : 0); }, &err, &out); VT_CHECK(st == 0, "dump-print", "printing a dump line failed: %s", err.c_str());
        int digits = a < 0x10000 ? 4 : a < 0x100000000 ? 8 : 16; char b[200]; snprintf(b, 200, "%0*zx   %.12s %.12s %.12s %.12s", digits, a, hex, hex + 12, hex + 24, hex + 36); std::string line = b; line.resize(std::max(line.size(), (size_t)55 + digits), ' '); line += "| " + l.txt + "\n"; VT_CHECK(strcasecmp(out.c_str(), line.c_str()) == 0, "dump-print", "printed dump line at %zx:\n%s\nexpected:\n%s", a, out.c_str(), line.c_str()); ev("dump.address"); }
    evaluations(24);
}
