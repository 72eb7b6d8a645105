#include "strgen.hpp"
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
static int sgn(int x) { return (x > 0) - (x < 0); }
void vt_case(Rng &r, uint64_t) {
    std::string s = gen_str(r), t = r.chance(1, 3) ? s : gen_str(r); if (!t.empty() && r.chance(1, 3)) t[r.below(t.size())] = r.chance(1, 2) ? 'a' : (char)0xe9;
    Heap hs(s), ht(t); char *p = hs; mix(s); mix(t); nontrivial(s.size() > 1); op("s=%s t=%s", esc(s).c_str(), esc(t).c_str());
    for (int rep = 0; rep < 6; rep++) {
        ssize_t i = gen_idx(r, s.size()), j = gen_idx(r, s.size()), k = gen_idx(r, t.size()), l = gen_idx(r, t.size()); Sl x = norm(i, j, s.size()), y = norm(k, l, t.size()); std::string a = cut_slice(s, x), b = cut_slice(t, y); mix(i * 131 + j);
#define Q(expr, want, key) do { long long got_ = (long long)(expr), want_ = (long long)(want); VT_CHECK(got_ == want_, key, "%s = %lld, expected %lld (s=%s i=%zd j=%zd t=%s k=%zd l=%zd)", #expr, got_, want_, esc(s).c_str(), i, j, esc(t).c_str(), k, l); ev(key); } while (0)
        Q(zt_cstr_len(p, i, j), a.size(), "len");
        Q(zt_cstr_pos(p, i), s.empty() ? 0 : norm(i, i, s.size()).i, "pos");
        { int w = sgn(a.compare(b)), g = sgn(zt_cstr_cmp(p, i, j, ht, k, l)); VT_CHECK(g == w, "cmp", "comparing %s with %s gives %d", esc(a).c_str(), esc(b).c_str(), g); ev(w == 0 ? "cmp.equal" : a.size() == b.size() ? "cmp.samelen" : "cmp.differ"); int h = sgn(zt_cstr_cmp(ht, k, l, p, i, j)); VT_CHECK(h == -w, "cmp", "comparison is not antisymmetric"); }
        char c = a.empty() || r.chance(1, 4) ? (char)(1 + r.below(255)) : a[r.below(a.size())];
        { size_t f = a.find(c), g = a.rfind(c); int c_ = r.chance(1, 2) ? (int)c : (int)(unsigned char)c; if (c < 0) ev(c_ < 0 ? "chr.negative" : "chr.high"); Q(zt_cstr_chr(p, i, j, c_), f == std::string::npos ? 0 : x.i + (ssize_t)f, "chr"); Q(zt_cstr_rchr(p, i, j, c_), g == std::string::npos ? 0 : x.i + (ssize_t)g, "rchr"); }
        std::string set = r.chance(1, 5) ? "" : r.chance(1, 2) && !a.empty() ? std::string(1, a[r.below(a.size())]) + "zq" : gen_str(r, 6); Heap hset(set);
        { size_t f = a.find_first_of(set), g = a.find_last_of(set); ssize_t wf = f == std::string::npos ? -1 : x.i + (ssize_t)f, wg = g == std::string::npos ? -1 : x.i + (ssize_t)g;
          Q(zt_cstr_any(p, i, j, hset), wf, "any"); Q(zt_cstr_rany(p, i, j, hset), wg, "rany"); Q(zt_cstr_upto(p, i, j, hset), wf, "upto"); Q(zt_cstr_rupto(p, i, j, hset), wg, "rupto"); if (wf >= 0) ev("set.found"); else ev("set.none"); }
        std::string n = r.chance(2, 3) && !s.empty() ? s.substr(r.below(s.size()), 1 + r.below(4)) : gen_str(r, 5); if (!n.empty() && r.chance(1, 5)) n.back() ^= 1; if (n.find('\0') != std::string::npos) n = "q"; Heap hn(n);
        { size_t f = n.empty() ? std::string::npos : a.find(n), g = n.empty() ? std::string::npos : a.rfind(n); Q(zt_cstr_find(p, i, j, hn), f == std::string::npos ? -1 : x.i + (ssize_t)f, "find"); Q(zt_cstr_rfind(p, i, j, hn), g == std::string::npos ? -1 : x.i + (ssize_t)g, "rfind"); ev(f == std::string::npos ? "find.none" : "find.found"); }
        { size_t sp = 0; while (sp < s.size() && set.find(s[s.size() - 1 - sp]) != std::string::npos) sp++; Q(zt_cstr_rspn(p, hset), sp, "rspn"); size_t g = s.find_last_of(set); Q(zt_cstr_rcspn(p, hset), g == std::string::npos ? s.size() : g, "rcspn"); }
        Q(zt_cstr_abspath(p), (s.size() && s[0] == '/') || (s.size() > 1 && s[0] == '.' && s[1] == '/'), "abspath");
        VT_CHECK(hset.same(set) && hn.same(n), "modified", "a search modified its pattern"); evaluations(1);
    }
    VT_CHECK(hs.same(s) && ht.same(t), "modified", "a query modified its string");
}
