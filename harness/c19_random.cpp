#include "ztc.hpp"
#include <random>
#include <time.h>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
// MT19937 (Matsumoto/Nishimura 2002): lazily generated, one word at a time
struct Ref { std::vector<uint32_t> x; size_t i = 624;
    explicit Ref(uint32_t s) { x.resize(624); x[0] = s; for (uint32_t k = 1; k < 624; k++) x[k] = (uint32_t)(1812433253ull * (x[k - 1] ^ (x[k - 1] >> 30)) + k); }
    Ref(const std::vector<uint32_t> &key) : Ref(19650218u) { size_t L = key.size(), n = 624, i1 = 1, j = 0; for (size_t k = std::max(n, L); k > 0; k--) { x[i1] = (x[i1] ^ ((x[i1 - 1] ^ (x[i1 - 1] >> 30)) * 1664525u)) + key[j] + (uint32_t)j; if (++i1 == n) { x[0] = x[n - 1]; i1 = 1; } if (++j == L) j = 0; } for (size_t k = n - 1; k > 0; k--) { x[i1] = (x[i1] ^ ((x[i1 - 1] ^ (x[i1 - 1] >> 30)) * 1566083941u)) - (uint32_t)i1; if (++i1 == n) { x[0] = x[n - 1]; i1 = 1; } } x[0] = 0x80000000u; }
    uint32_t next() { if (i - 624 + 1 > 0) { size_t k = x.size(); uint32_t y = (x[k - 624] & 0x80000000u) | (x[k - 623] & 0x7fffffffu); x.push_back(x[k - 227] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0)); } uint32_t y = x[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y; } };
void vt_init() { std::mt19937 m(5489u); Ref a(5489u); uint32_t last = 0; for (int i = 0; i < 10000; i++) { last = a.next(); VT_CHECK(last == m(), "ref", "reference self test"); } VT_CHECK(last == 4123659995u, "ref", "reference self test");
    Ref b(std::vector<uint32_t>{0x123, 0x234, 0x345, 0x456}); VT_CHECK(b.next() == 1067595299u && b.next() == 955945823u && b.next() == 477289528u, "ref", "reference self test (array)"); }
void vt_case(Rng &r, uint64_t) {
    unsigned k = 1 + r.below(3); std::vector<zt_random_state *> st; std::vector<Ref> ref; std::vector<size_t> cnt(k);
    auto seed1 = [&](unsigned i, bool fresh) {
        if (r.chance(1, 2)) { uint32_t s = r.chance(1, 4) ? (uint32_t)r.below(3) : r.chance(1, 6) ? 0xffffffffu : (uint32_t)r.u64(); op("generator %u seed %u", i, s); zt_random_srandom(st[i], s); if (fresh) ref.push_back(Ref(s)); else ref[i] = Ref(s); mix(s); ev("seed.int"); }
        else { size_t n = r.chance(1, 6) ? 620 + r.below(10) : r.chance(1, 4) ? r.below(3000) + 1 : r.below(8) + 1; std::vector<uint32_t> key(n); for (auto &v : key) v = r.chance(1, 8) ? 0 : (uint32_t)r.u64(); uint32_t *p = (uint32_t *)malloc(4 * n); memcpy(p, key.data(), 4 * n); op("generator %u seeded with %zu words", i, n); zt_random_initstate(st[i], p, n); VT_CHECK(!memcmp(p, key.data(), 4 * n), "seed-modified", "the seed array was changed"); free(p); if (fresh) ref.push_back(Ref(key)); else ref[i] = Ref(key); mix(key[0]); mix(n); ev(n > 624 ? "seed.long" : "seed.array"); } cnt[i] = 0; };
    for (unsigned i = 0; i < k; i++) { st.push_back((zt_random_state *)malloc(sizeof(zt_random_state))); memset(st[i], (int)r.u64(), sizeof *st[i]); seed1(i, true); }
    unsigned n = r.chance(1, 4) ? 2000 : 50 + r.below(700); unsigned cur = 0; nontrivial(true); if (k > 1) ev("interleaved");
    for (unsigned s = 0; s < n; s++) { if (r.chance(1, 3)) cur = r.below(k); zt_random_state *g = st[cur]; Ref &f = ref[cur];
        if (r.chance(1, 700)) { seed1(cur, false); ev("reseed"); continue; }
        unsigned how = r.below(8); uint32_t w = f.next(); cnt[cur]++;
        if (how < 5) { uint32_t v = zt_random_uint32(g); VT_CHECK(v == w, "sequence", "output %zu of generator %u is %u, MT19937 gives %u", cnt[cur], cur, v, w); ev("uint32"); }
        else if (how == 5) { double v = zt_random_float(g); VT_CHECK(v == w * (1.0 / 4294967295.0), "float", "[0,1] output %zu is %.17g for word %u", cnt[cur], v, w); VT_CHECK(v >= 0 && v <= 1, "interval", "%.17g is outside [0,1]", v); ev("float"); }
        else if (how == 6) { double v = zt_random_float00(g); VT_CHECK(v == (w + 0.5) * (1.0 / 4294967296.0), "float00", "(0,1) output %zu is %.17g for word %u", cnt[cur], v, w); VT_CHECK(v > 0 && v < 1, "interval", "%.17g is outside (0,1)", v); ev("float00"); }
        else { double v = zt_random_float10(g); VT_CHECK(v == w * (1.0 / 4294967296.0), "float10", "[0,1) output %zu is %.17g for word %u", cnt[cur], v, w); VT_CHECK(v >= 0 && v < 1, "interval", "%.17g is outside [0,1)", v); ev("float10"); }
        if (cnt[cur] == 624 || cnt[cur] == 625) ev("refill");
        if (r.chance(1, 400)) { zt_random_state *c = (zt_random_state *)malloc(sizeof *c); *c = *g; Ref fc = f; for (int q = 0; q < 20; q++) { uint32_t v = zt_random_uint32(c), x = fc.next(); VT_CHECK(v == x, "copy", "a copied state diverges: %u want %u", v, x); } free(c); ev("copied"); } }
    evaluations(n);
    if (r.chance(1, 20)) { // a zeroed state seeds itself from the clock before the first output
        zt_random_state *z = (zt_random_state *)calloc(1, sizeof *z); FILE *e = stderr; char *mm = NULL; size_t l = 0; stderr = open_memstream(&mm, &l); time_t a = time(NULL); uint32_t v = zt_random_uint32(z), v2 = zt_random_uint32(z); time_t b = time(NULL); fclose(stderr); stderr = e; free(mm); bool ok = false; for (time_t t = a; t <= b; t++) { Ref f((uint32_t)t); uint32_t x = f.next(); ok |= x == v && f.next() == v2; } VT_CHECK(ok, "autoseed", "an unseeded generator does not continue the sequence of a clock seed"); free(z); ev("autoseed"); }
    for (auto p : st) free(p);
}
