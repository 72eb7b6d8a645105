#include "ztc.hpp"
#include "sha1ref.hpp"
#include <sys/mman.h>
using namespace vt;
bool vt_probe(const std::string &) { return false; }
#ifndef BIG
const bool vt_leakcheck = true;
void vt_init() {
    VT_CHECK(hexref(sha1ref("abc")) == "a9993e364706816aba3e25717850c26c9cd0d89d", "ref", "reference self test");
    VT_CHECK(hexref(sha1ref("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")) == "84983e441c3bd26ebaae4aa1f95129e5e54670f1", "ref", "reference self test");
}
struct Msg { std::string s; size_t at; zt_sha1_ctx *ctx; };
static void digest_is(uint8_t *d, const std::string &want, const char *how, size_t n) { VT_CHECK(std::string((char *)d, 20) == want, "digest", "%s of %zu bytes: %s, want %s", how, n, hexref(std::string((char *)d, 20)).c_str(), hexref(want).c_str()); }
static size_t mlen(Rng &r) { switch (r.below(6)) { case 0: return 50 + r.below(20); case 1: return 64 * r.below(12) + r.below(3) - (r.chance(1, 2) ? 0 : 0); case 2: return 110 + r.below(30); case 3: return r.below(3000); case 4: return r.below(70); default: return r.size(20000); } }
void vt_case(Rng &r, uint64_t) {
    unsigned k = 1 + r.below(3); std::vector<Msg> m; std::vector<std::string> want;
    for (unsigned i = 0; i < k; i++) { size_t n = mlen(r); Msg x{r.bytes(n), 0, (zt_sha1_ctx *)malloc(sizeof(zt_sha1_ctx))}; memset(x.ctx, (int)r.u64(), sizeof *x.ctx); zt_sha1_init(x.ctx); m.push_back(x); want.push_back(sha1ref(x.s)); mix(x.s); op("message %u of %zu bytes", i, n); }
    if (k > 1) ev("interleaved"); nontrivial(true);
    size_t piece = 1 + r.below(r.chance(1, 2) ? 10 : r.chance(1, 2) ? 130 : 5000);
    while (true) { std::vector<unsigned> open; for (unsigned i = 0; i < k; i++) if (m[i].ctx) open.push_back(i); if (open.empty()) break; unsigned i = r.pick(open); Msg &x = m[i]; size_t left = x.s.size() - x.at;
        if (left == 0 && r.chance(2, 3)) { uint8_t *d = (uint8_t *)malloc(20); zt_sha1_finalize(x.ctx, d); digest_is(d, want[i], "chunked digest", x.s.size()); ev("final"); 
            if (r.chance(1, 8)) { zt_sha1_init(x.ctx); std::string again = r.bytes(r.below(100)); uint8_t *e = (uint8_t *)malloc(again.size() + !again.size()); memcpy(e, again.data(), again.size()); zt_sha1_update(x.ctx, e, again.size()); uint8_t d2[20]; zt_sha1_finalize(x.ctx, d2); digest_is(d2, sha1ref(again), "re-initialised context", again.size()); free(e); ev("reused"); }
            free(x.ctx); x.ctx = NULL; free(d); continue; }
        size_t n = r.chance(1, 12) ? 0 : r.chance(1, 20) ? left : r.below(piece + 1); if (n > left) n = left; if (r.chance(1, 4) && left >= 64 - x.at % 64) n = 64 - x.at % 64;
        unsigned off = r.below(8); uint8_t *raw = (uint8_t *)malloc(n + off + 1 - 1 + (n + off == 0)), *p = raw + off; memcpy(p, x.s.data() + x.at, n); op("update %u with %zu (offset %u)", i, n, off); zt_sha1_update(x.ctx, p, n); VT_CHECK(!memcmp(p, x.s.data() + x.at, n), "modified", "an update of %zu bytes changed the caller's data", n); free(raw); x.at += n; ev(n == 0 ? "update.empty" : (x.at - n) % 64 + n >= 128 ? "update.blocks" : (x.at - n) % 64 + n >= 64 ? "update.block" : "update.part"); if (off % 4) ev("update.unaligned"); evaluations(1); }
    { Msg &x = m[0]; uint8_t *p = (uint8_t *)malloc(x.s.size() + !x.s.size()), *d = (uint8_t *)malloc(20); memcpy(p, x.s.data(), x.s.size()); zt_sha1_data(p, x.s.size(), d); digest_is(d, want[0], "one-shot digest", x.s.size()); VT_CHECK(!memcmp(p, x.s.data(), x.s.size()), "modified", "zt_sha1_data changed the caller's data"); ev("data");
      char *t = (char *)malloc(41); memset(t, 'Z', 41); VT_CHECK(zt_sha1_tostr(d, t) == t, "tostr", "wrong return"); VT_CHECK(t[40] == 0 && hexref(want[0]) == t, "tostr", "hex form '%.41s', want %s", t, hexref(want[0]).c_str());
      std::string dg = r.chance(1, 2) ? want[0] : r.bytes(20); memcpy(d, dg.data(), 20); zt_sha1_tostr(d, t); VT_CHECK(t[40] == 0 && hexref(dg) == t, "tostr", "hex form of %s", hexref(dg).c_str()); if (r.chance(1, 2)) for (int i = 0; i < 40; i++) if (r.chance(1, 2)) t[i] = toupper(t[i]); std::string before(t, 41); memset(d, 0, 20); VT_CHECK(zt_str_tosha1(t, d) == d, "tosha1", "wrong return"); VT_CHECK(dg == std::string((char *)d, 20), "tosha1", "parsed '%s' as %s", t, hexref(std::string((char *)d, 20)).c_str()); VT_CHECK(before == std::string(t, 41), "modified", "the hexadecimal text was changed"); free(t); free(d); free(p); ev("hex"); }
}
#else
// messages whose bit count carries into the second word: periodic content mapped repeatedly, plain build
const bool vt_leakcheck = false;
void vt_init() {}
void vt_case(Rng &r, uint64_t idx) {
    const size_t unit = 1 << 20, total = (idx & 1 ? (size_t)4096 * unit + r.below(200) : (size_t)512 * unit + r.below(64 * unit)); size_t maps = (total + unit - 1) / unit + 1;
    int fd = memfd_create("c17", 0); if (fd < 0 || ftruncate(fd, unit)) harness_error("memfd"); char *area = (char *)mmap(NULL, maps * unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (area == MAP_FAILED) harness_error("mmap"); for (size_t i = 0; i < maps; i++) if (mmap(area + i * unit, unit, PROT_READ | (i ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("mmap %zu", i);
    std::string pat = r.bytes(unit); memcpy(area, pat.data(), unit); mprotect(area, unit, PROT_READ); Sha1Ref ref; ref.update(area, total); std::string want = ref.final(); uint8_t d[20]; op("message of %zu bytes", total); mix(total); nontrivial(true);
    zt_sha1_ctx c; zt_sha1_init(&c); size_t at = 0, big = r.chance(1, 2) ? total : 1 + r.below(300 * unit); while (at < total) { size_t n = total - at < big ? total - at : big; zt_sha1_update(&c, (uint8_t *)area + at, n); at += n; } zt_sha1_finalize(&c, d); VT_CHECK(want == std::string((char *)d, 20), "digest-long", "digest of %zu bytes in pieces of %zu: %s want %s", total, big, hexref(std::string((char *)d, 20)).c_str(), hexref(want).c_str()); ev(idx & 1 ? "long.4G" : "long.512M"); munmap(area, maps * unit); close(fd);
}
#endif
