#include "ztc.hpp"
extern "C" { uint64_t zt_hash64_buff(void *buf, size_t len, uint64_t init); uint64_t zt_hash64_cstr(const uint8_t *buf, uint64_t init); }
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
typedef unsigned __int128 u128;
// FNV-1a with the multiplication done modulo 2^n in wider arithmetic
static uint32_t ref32(const std::string &s, uint32_t h) { uint64_t v = h ? h : 2166136261u; for (unsigned char c : s) v = ((v ^ c) * 16777619u) % ((uint64_t)1 << 32); return (uint32_t)v; }
static uint64_t ref64(const std::string &s, uint64_t h) { u128 v = h ? h : 14695981039346656037ull; for (unsigned char c : s) v = ((v ^ c) * (u128)1099511628211ull) % ((u128)1 << 64); return (uint64_t)v; }
void vt_init() { VT_CHECK(ref32("foobar", 0) == 0xbf9cf968u && ref64("foobar", 0) == 0x85944171f73967e8ull, "ref", "reference self test"); }
static char *exact(const std::string &s, bool z) { char *p = (char *)malloc(s.size() + z + (s.size() + z == 0)); memcpy(p, s.data(), s.size()); if (z) p[s.size()] = 0; return p; }
template <class F> static void fold(uint32_t h, unsigned w, const char *name, F f, uint32_t want) { uint32_t v = h; f(v); VT_CHECK(v == want, "fold", "%s of %08x is %08x, want %08x", name, h, v, want); VT_CHECK(w == 32 || v >> w == 0, "fold-width", "%s of %08x is %08x: wider than %u bits", name, h, v, w); }
void vt_case(Rng &r, uint64_t) {
    size_t n = r.size(5000); bool text = r.chance(1, 3); std::string s = text ? r.str(n, "abcXYZ 019_\x80\xff\x01") : r.bytes(n); if (r.chance(1, 6)) s = std::string(n, r.chance(1, 2) ? '\0' : '\xff'); mix(s); nontrivial(n > 0); op("%zu bytes %s", n, esc(s, 40).c_str());
    uint32_t i32 = r.chance(1, 3) ? 0 : r.chance(1, 3) ? ZT_HASH32_INIT : (uint32_t)r.u64(); uint64_t i64 = r.chance(1, 3) ? 0 : r.chance(1, 3) ? 0xcbf29ce484222325ULL : r.u64(); ev(i32 ? "init.given" : "init.default");
    char *p = exact(s, false); uint32_t h32 = zt_hash32_buff(p, n, i32); uint64_t h64 = zt_hash64_buff(p, n, i64); VT_CHECK(!memcmp(p, s.data(), n), "modified", "the buffer was changed"); free(p);
    VT_CHECK(h32 == ref32(s, i32), "fnv32", "hash32 of %zu bytes from %08x: %08x want %08x", n, i32, h32, ref32(s, i32)); VT_CHECK(h64 == ref64(s, i64), "fnv64", "hash64 of %zu bytes from %016llx: %016llx want %016llx", n, (unsigned long long)i64, (unsigned long long)h64, (unsigned long long)ref64(s, i64)); ev("buff");
    // chaining at random cuts; a part hash of exactly 0 cannot be told from the default start
    { uint32_t a = i32; uint64_t b = i64; size_t at = 0; bool zero = false; while (at < n) { size_t k = 1 + r.below(n - at); if (r.chance(1, 8)) k = 0; char *q = exact(s.substr(at, k), false); a = zt_hash32_buff(q, k, a); b = zt_hash64_buff(q, k, b); free(q); at += k; zero |= (a == 0 || b == 0) && at < n; } if (n && !zero) { VT_CHECK(a == h32, "chain32", "chained hash %08x, whole %08x", a, h32); VT_CHECK(b == h64, "chain64", "chained hash %016llx, whole %016llx", (unsigned long long)b, (unsigned long long)h64); ev("chain"); } }
    { std::string z = s.substr(0, s.find('\0')); char *q = exact(z, true); uint32_t a = zt_hash32_cstr((const uint8_t *)q, i32); uint64_t b = zt_hash64_cstr((const uint8_t *)q, i64); VT_CHECK(a == ref32(z, i32) && b == ref64(z, i64), "cstr", "string form differs for %s", esc(z, 60).c_str()); VT_CHECK(z.compare(q) == 0, "modified", "the string was changed"); free(q); ev("cstr"); }
    { std::string z = std::string(1, 0); size_t m = s.size(); char *q = exact(s + z, false); uint32_t c = zt_hash32_buff(q, m, i32); VT_CHECK(c == h32, "length", "a byte beyond the length changed the hash"); free(q); }
    for (int k = 0; k < 3; k++) { uint32_t h = k == 0 ? h32 : k == 1 ? (uint32_t)r.u64() : (r.chance(1, 2) ? 0xffffffffu : 1u << r.below(32)) ;
        fold(h, 24, "24-bit fold", [](uint32_t &v) { ZT_HASH24_MASK(v); }, (h >> 24) ^ (h & 0xffffff)); fold(h, 16, "16-bit fold", [](uint32_t &v) { ZT_HASH16_MASK(v); }, (h >> 16) ^ (h & 0xffff));
        fold(h, 8, "8-bit fold", [](uint32_t &v) { ZT_HASH8_MASK(v); }, ((h >> 8) ^ h) & 0xff); fold(h, 4, "4-bit fold", [](uint32_t &v) { ZT_HASH4_MASK(v); }, ((h >> 4) ^ h) & 0xf);
        for (int x = 1; x <= 32; x++) fold(h, x, "fold to x bits", [&](uint32_t &v) { ZT_HASH_SUB32_MASK(v, x) }, x == 32 ? h : ((h >> x) ^ h) & ((1u << x) - 1) ); VT_CHECK(true, "x", "x"); ev("fold", 36); evaluations(36); }
}
