#include "ztc.hpp"
#include <math.h>
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
// one argument list in order, every argument in its own 8-byte stack slot (SysV x86-64 va_list with both register areas used up)
struct Args { std::vector<uint64_t> slot; std::vector<bool> fp; void gp(uint64_t v) { slot.push_back(v); fp.push_back(false); } void d(double v) { uint64_t u; memcpy(&u, &v, 8); slot.push_back(u); fp.push_back(true); }
    size_t ngp() const { return std::count(fp.begin(), fp.end(), false); } size_t nfp() const { return slot.size() - ngp(); } };
#include <algorithm>
struct Va { uint64_t *mem; va_list ap; explicit Va(const Args &a) { mem = (uint64_t *)malloc(a.slot.size() * 8 + !a.slot.size()); memcpy(mem, a.slot.data(), a.slot.size() * 8); struct { unsigned gp, fp; void *ov, *reg; } raw = {48, 176, mem, NULL}; static_assert(sizeof raw == sizeof(va_list), "ABI"); memcpy(&ap, &raw, sizeof raw); } ~Va() { free(mem); } };
struct Sink { std::string s; bool bad = false; };
static int rec_put(int c, void *cl) { Sink *k = (Sink *)cl; if (c < 0 || c > 255) k->bad = true; k->s += (char)c; return c; }
static std::string sf(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string sf(const char *f, ...) { va_list ap; va_start(ap, f); char *p = NULL; int n = vasprintf(&p, f, ap); va_end(ap); std::string s(p, n); free(p); return s; }
// ---- user conversions
struct Seen { int code; char type; uint64_t raw; double d; unsigned char flags[256]; ssize_t width, prec; };
static std::vector<Seen> seen; static std::map<int, char> reg_type; static void *want_cl; static bool cl_bad;
static size_t user_cvt(int code, void *value, zt_fmt_put_f put, void *cl, unsigned char flags[256], ssize_t w, ssize_t p) {
    Seen s; s.code = code; s.type = reg_type[code]; s.raw = 0; s.d = 0; memcpy(s.flags, flags, 256); s.width = w; s.prec = p; if (want_cl && cl != want_cl) cl_bad = true;
    switch (s.type) { case 'i': s.raw = (uint64_t)(int64_t)*(int *)value; break; case 'u': s.raw = *(unsigned *)value; break; case 'd': s.d = *(double *)value; break; case 'p': s.raw = (uint64_t)*(void **)value; break; case 's': s.raw = (uint64_t)*(char **)value; break; case 'c': s.raw = (unsigned char)*(char *)value; break; case 'C': s.raw = *(unsigned char *)value; break; }
    seen.push_back(s); put('<', cl); put(code & 0xff, cl); put('>', cl); return 3; }
static uint64_t gen_u32(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return r.below(20); case 2: return 0x80000000u - r.below(2); case 3: return 0xffffffffu - r.below(3); case 4: return (uint32_t)(1u << r.below(32)); default: return (uint32_t)r.u64() >> r.below(32); } }
static double gen_d(Rng &r) { switch (r.below(12)) { case 0: return 0.0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY; case 4: return NAN; case 5: return r.chance(1, 2) ? 1.7976931348623157e308 : -1.7976931348623157e308; case 6: return 5e-324; case 7: return (double)r.range(-1000, 1000); case 8: return r.range(-100000, 100000) / 8.0; case 9: { uint64_t u = r.u64(); double d; memcpy(&d, &u, 8); return d != d ? NAN : d; } case 10: return 0.5 + r.below(10); default: return r.range(-1000000, 1000000) * pow(10, (double)r.range(-12, 12)); } }
struct Piece { std::string zf; };
void vt_case(Rng &r, uint64_t) {
    std::string zf, want; Args a; std::vector<char *> own; int convs = 0; struct Drop { ~Drop() { std::vector<Seen>().swap(seen); reg_type.clear(); } } drop; cl_bad = false; std::vector<Seen> expect;
    std::vector<std::pair<int, zt_fmt_ty>> regs;
    static const char codes[] = "QRTUVWYZ@K\x01\x80\xfe";
    if (r.chance(1, 3)) { unsigned n = 1 + r.below(3); for (unsigned i = 0; i < n; i++) { int c = (unsigned char)codes[r.below(13)]; if (reg_type.count(c)) continue; reg_type[c] = "iudpscC"[r.below(7)]; zt_fmt_ty old = zt_fmt_register(c, user_cvt, reg_type[c]); VT_CHECK(old == NULL, "register-old", "a conversion nobody registered returned an old one"); regs.push_back({c, old}); } ev("register", regs.size());
        if (r.chance(1, 2)) { zt_fmt_ty o2 = zt_fmt_register(regs[0].first, user_cvt, reg_type[regs[0].first]); VT_CHECK(o2 == user_cvt, "register-old", "the replaced conversion is not returned"); } }
    unsigned np = 1 + r.below(r.chance(1, 8) ? 12 : 4);
    for (unsigned i = 0; i < np; i++) {
        if (r.chance(1, 2)) { std::string lit = r.chance(1, 8) ? r.bytes(r.below(300)) : r.str(r.below(8), "abc xyz0-+*.\\"); for (auto &c : lit) if (!c || c == '%' || c == '~') c = (char)0xe9; zf += lit; want += lit; }
        if (r.chance(1, 6)) { char x = r.chance(1, 2) ? '%' : '~'; zf += r.chance(1, 2) ? '%' : '~'; zf += x; want += x; ev("escape"); continue; }
        char intro = r.chance(1, 6) ? '~' : '%';
        bool user = !regs.empty() && r.chance(1, 2); int code = user ? regs[r.below(regs.size())].first : "cdefgopsux"[r.below(10)];
        bool sgn = strchr("defg", code) && !user, num = user || strchr("defgopux", code);
        std::string fl; unsigned nf = r.below(4); const char *fa = user ? "+- 0#" : sgn ? "+- 0" : num ? "-0" : "-"; for (unsigned k = 0; k < nf; k++) fl += fa[r.below(strlen(fa))];
        bool hash = code == 's' && r.chance(1, 5); if (hash) fl += '#';
        std::string spec; bool hw = r.chance(1, 2), hp = r.chance(1, 2) && code != 'c'; int w = 0, p = 0; std::string wz, wc;
        if (hw) { w = r.chance(1, 12) ? (int)r.below(600) : (int)r.below(25); if (r.chance(1, 2)) { if (r.chance(1, 2)) w = -w; wz = "*"; a.gp((uint32_t)w); } else { if (!w) w = 1; wz = std::to_string(w); } }
        if (hp) { p = r.chance(1, 12) ? (int)r.below(strchr("efg", code) && !user ? 100 : 400) : (int)r.below(12); switch (r.below(4)) { case 0: if (r.chance(1, 2)) p = -1 - p; wz += ".*"; a.gp((uint32_t)p); break; case 1: if (r.chance(1, 4)) { p = 0; wz += "."; break; } default: wz += "." + std::to_string(p); } }
        zf += intro; zf += fl + wz + (char)code; convs++; bool prec = hp && p >= 0;
        std::string cf = "%"; if (user) {
            Seen s; s.code = code; s.type = reg_type[code]; s.raw = 0; s.d = 0; memset(s.flags, 0, 256); for (char c : fl) s.flags[(unsigned char)c]++; s.width = hw ? w : INT_MIN; s.prec = hp ? p : INT_MIN;
            switch (s.type) { case 'i': s.raw = (uint64_t)(int64_t)(int32_t)gen_u32(r); a.gp((uint32_t)s.raw); break; case 'u': s.raw = gen_u32(r); a.gp(s.raw); break; case 'd': s.d = gen_d(r); a.d(s.d); break; case 'p': case 's': s.raw = r.u64(); a.gp(s.raw); break; default: s.raw = r.below(256); a.gp(s.type == 'c' ? (uint64_t)(uint32_t)(int)(char)s.raw : s.raw); }
            expect.push_back(s); want += '<'; want += (char)code; want += '>'; ev("user"); continue; }
        cf += fl; std::string ws = hw ? std::to_string(w < 0 ? -w : w) : ""; if (hw && w < 0) cf += '-'; std::string ps = prec ? "." + std::to_string(p) : "";
        switch (code) {
        case 'c': { int c = r.chance(1, 6) ? (int)r.below(256) : (int)('a' + r.below(26)); a.gp(c); cf += ws + "c"; want += sf(cf.c_str(), c); ev("conv.c"); break; }
        case 'd': { int v = (int)gen_u32(r); a.gp((uint32_t)v); cf += ws + ps + "d"; want += sf(cf.c_str(), v); ev("conv.d"); break; }
        case 'u': case 'o': case 'x': { unsigned v = (unsigned)gen_u32(r); a.gp(v); cf += ws + ps + (char)code; want += sf(cf.c_str(), v); ev(code == 'u' ? "conv.u" : code == 'o' ? "conv.o" : "conv.x"); break; }
        case 'p': { unsigned long v = r.chance(1, 4) ? r.below(20) : r.u64() >> r.below(64); a.gp(v); if (prec) { std::string c2; bool m = false, z = false; for (char c : fl) { m |= c == '-'; z |= c == '0'; } (void)m; (void)z; } cf += ws + "lx"; want += sf(cf.c_str(), v); ev("conv.p"); break; }
        case 'e': case 'f': case 'g': { double v = gen_d(r); a.d(v); cf += ws + ps + (char)code; want += sf(cf.c_str(), v); ev("conv.float"); break; }
        case 's': { std::string s = r.chance(1, 8) ? r.bytes(r.below(400)) : r.str(r.below(14), "abcdef%~ "); for (auto &c : s) if (!c) c = 1; bool unterminated = prec && !hash && (size_t)p <= s.size() && r.chance(1, 2); char *h = (char *)malloc(s.size() + 1); if (unterminated) { h = (char *)realloc(h, p ? p : 1); memcpy(h, s.data(), p); ev("s.unterminated"); } else memcpy(h, s.c_str(), s.size() + 1);
            own.push_back(h); a.gp((uint64_t)h); if (hash) { fl.erase(fl.size() - 1); cf = "%"; cf += fl; size_t sk = hw ? (size_t)(w < 0 ? -w : w) : 0; if (hw) cf += ps; else cf += ps; if (sk < s.size()) s.erase(0, sk); ev("s.skip"); } else cf += ws + ps; cf += "s"; want += sf(cf.c_str(), s.c_str()); ev("conv.s"); break; } }
        (void)spec; (void)wc;
    }
    op("fmt %s (%zu args) -> %s", esc(zf, 120).c_str(), a.slot.size(), esc(want, 120).c_str()); mix(zf); for (auto x : a.slot) mix(x & 0xffff); nontrivial(convs > 0);
    Va va(a); char *fmt = strdup(zf.c_str()); size_t n; want_cl = NULL; bool direct = a.ngp() <= 3 && a.nfp() <= 8;
    uint64_t g[3] = {0, 0, 0}; double d[8] = {0}; { unsigned gi = 0, di = 0; if (direct) for (size_t i = 0; i < a.slot.size(); i++) if (a.fp[i]) memcpy(&d[di++], &a.slot[i], 8); else g[gi++] = a.slot[i]; }
#define DIRECT g[0], g[1], g[2], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]
    int sink = r.below(7); const char *sn = "";
    auto cmp = [&](const std::string &got, size_t rep) { VT_CHECK(rep == want.size(), "length", "%s: format %s reported %zu, text has %zu", sn, esc(zf).c_str(), rep, want.size()); VT_CHECK(got == want, "text", "%s: format %s gave %s expected %s", sn, esc(zf).c_str(), esc(got).c_str(), esc(want).c_str()); };
    switch (sink) {
    case 0: { sn = "format"; Sink k; want_cl = &k; if (direct && r.chance(1, 2)) n = zt_fmt_format(rec_put, &k, fmt, DIRECT); else n = zt_fmt_vformat(rec_put, &k, fmt, va.ap); VT_CHECK(!k.bad, "put-code", "the put function was given something that is no unsigned char"); cmp(k.s, n); ev("sink.format"); break; }
    case 1: case 2: case 3: { sn = "sprintf"; size_t sz = sink == 1 ? want.size() + 1 : sink == 2 ? 1 + r.below(want.size() + 1) : want.size() + 1 + r.below(50); char *b = (char *)malloc(sz); memset(b, 0x5a, sz); if (direct && r.chance(1, 2)) n = zt_fmt_sprintf(b, sz, fmt, DIRECT); else n = zt_fmt_vsprintf(b, sz, fmt, va.ap);
        size_t st = std::min(want.size(), sz - 1); VT_CHECK(b[st] == 0, "terminator", "format %s into %zu bytes not terminated at %zu", esc(zf).c_str(), sz, st); VT_CHECK(n == st, "length", "sprintf: format %s into %zu bytes reported %zu of %zu", esc(zf).c_str(), sz, n, st); VT_CHECK(!memcmp(b, want.data(), st), "text", "sprintf: format %s gave %s expected %s", esc(zf).c_str(), esc(b, st).c_str(), esc(want.substr(0, st)).c_str()); free(b); ev(st < want.size() ? "sink.truncated" : "sink.sprintf"); break; }
    case 4: { sn = "strprintf"; char *s = direct && r.chance(1, 2) ? zt_fmt_strprintf(fmt, DIRECT) : zt_fmt_vstrprintf(fmt, va.ap); VT_CHECK(s != NULL, "strprintf-null", "no string"); VT_CHECK(!memcmp(s, want.c_str(), want.size() + 1), "text", "strprintf: format %s gave %s expected %s", esc(zf).c_str(), esc(s).c_str(), esc(want).c_str()); free(s); ev("sink.strprintf"); break; }
    default: { if (!direct) { Sink k; sn = "format"; n = zt_fmt_vformat(rec_put, &k, fmt, va.ap); cmp(k.s, n); break; } char *m = NULL; size_t ml = 0; FILE *f = open_memstream(&m, &ml); if (sink == 5) { sn = "fprintf"; want_cl = f; n = zt_fmt_fprintf(f, fmt, DIRECT); fclose(f); ev("sink.fprintf"); } else { sn = "printf"; FILE *o = stdout; stdout = f; n = zt_fmt_printf(fmt, DIRECT); stdout = o; fclose(f); ev("sink.printf"); } std::string got(m, ml); free(m); cmp(got, n); } }
    VT_CHECK(zf == fmt, "input", "the format was modified"); free(fmt);
    VT_CHECK(seen.size() == expect.size() && !cl_bad, "user-calls", "%zu user conversions called, %zu in the format, context %s", seen.size(), expect.size(), cl_bad ? "wrong" : "right");
    for (size_t i = 0; i < seen.size(); i++) { Seen &x = seen[i], &y = expect[i]; VT_CHECK(x.code == y.code && x.type == y.type, "user-order", "call %zu was %d/%c expected %d/%c", i, x.code, x.type, y.code, y.type); VT_CHECK(x.type == 'd' ? !memcmp(&x.d, &y.d, 8) || (x.d != x.d && y.d != y.d) : x.raw == y.raw, "user-arg", "user conversion %zu (type %c) got %#lx (%g) expected %#lx (%g) in %s", i, x.type, (long)x.raw, x.d, (long)y.raw, y.d, esc(zf).c_str()); VT_CHECK(x.width == y.width || (x.width < -100000 && y.width < -100000), "user-width", "width %zd expected %zd", x.width, y.width); VT_CHECK(x.prec == y.prec || (x.prec < 0 && y.prec < 0), "user-prec", "precision %zd expected %zd", x.prec, y.prec); VT_CHECK(!memcmp(x.flags, y.flags, 256), "user-flags", "flags differ in %s", esc(zf).c_str()); }
    for (auto &p : regs) { zt_fmt_ty o = zt_fmt_register(p.first, NULL, 0); VT_CHECK(o == user_cvt, "register-old", "the registered conversion is not returned"); }
    for (char *p : own) free(p);
    // direct use of the two padding helpers
    { unsigned char fl[256] = {0}; bool left = r.chance(1, 3), zero = r.chance(1, 3), plus = r.chance(1, 4), sp = r.chance(1, 4); fl['-'] = left; fl['0'] = zero; fl['+'] = plus; fl[' '] = sp; ssize_t w = r.chance(1, 4) ? INT_MIN : r.range(-20, 30), p = r.chance(1, 2) ? INT_MIN : r.range(-2, 20); bool l2 = left || (w < 0 && w != INT_MIN); size_t W = w == INT_MIN ? 0 : (size_t)(w < 0 ? -w : w); Sink k; std::string exp;
      if (r.chance(1, 2)) { std::string s = r.bytes(r.below(24)); char *h = (char *)malloc(s.size() + !s.size()); memcpy(h, s.data(), s.size()); n = zt_fmt_puts(h, s.size(), rec_put, &k, fl, w, p); free(h); if (p >= 0 && (size_t)p < s.size()) s.resize(p); std::string pd(W > s.size() ? W - s.size() : 0, ' '); exp = l2 ? s + pd : pd + s; ev("puts"); }
      else { std::string dg = r.chance(1, 6) ? "0" : r.str(r.below(12), "0123456789abcdef."), sg = r.chance(1, 3) ? (r.chance(1, 2) ? "-" : "+") : ""; std::string s = sg + dg; char *h = (char *)malloc(s.size() + !s.size()); memcpy(h, s.data(), s.size()); n = zt_fmt_putd(h, s.size(), rec_put, &k, fl, w, p); free(h); if (sg.empty()) sg = plus ? "+" : sp ? " " : ""; size_t P = p < 0 ? 1 : p; if (P == 0 && dg == "0") dg = ""; if (dg.size() < P) dg = std::string(P - dg.size(), '0') + dg; size_t tot = sg.size() + dg.size(); std::string pd(W > tot ? W - tot : 0, l2 ? ' ' : zero && p < 0 ? '0' : ' '); exp = l2 ? sg + dg + pd : pd[0] == '0' ? sg + pd + dg : pd + sg + dg; ev("putd"); }
      VT_CHECK(k.s == exp && n == exp.size(), "padding", "padding helper gave %s (%zu) expected %s", esc(k.s).c_str(), n, esc(exp).c_str()); }
    evaluations(1);
}
