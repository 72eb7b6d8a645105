#include "ztc.hpp"
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
// independent bit-accumulator reference for RFC 4648
struct Codec { const char *name; zt_base_definition_t **def; const char *alpha; int bits; int group; bool pad; };
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", A64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", A32H[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV", A16[] = "0123456789ABCDEF";
static const Codec codecs[] = {{"base64", &zt_base64_rfc, A64, 6, 4, true}, {"base64-nopad", &zt_base64_rfc_nopad, A64, 6, 4, false}, {"base64-uri", &zt_base64_uri, A64U, 6, 4, true}, {"base32", &zt_base32_rfc, A32, 5, 8, true}, {"base32-hex", &zt_base32_hex, A32H, 5, 8, true}, {"base16", &zt_base16_rfc, A16, 4, 2, false}};
static std::string enc(const Codec &c, const std::string &d, bool pad) { std::string o; unsigned acc = 0; int n = 0; for (unsigned char b : d) { acc = (acc << 8 | b) & 0xffff; n += 8; while (n >= c.bits) { n -= c.bits; o += c.alpha[(acc >> n) & ((1 << c.bits) - 1)]; } } if (n) o += c.alpha[(acc << (c.bits - n)) & ((1 << c.bits) - 1)]; if (pad) while (o.size() % c.group) o += '='; return o; }
// strict content decode: alphabet characters only are significant; returns false for a foreign character or an impossible count
static bool dec(const Codec &c, const std::string &t, std::string &out, std::string &sig) { out.clear(); sig.clear(); unsigned acc = 0; int n = 0; size_t k = 0; for (char ch : t) { if (strchr(" \t\r\n=", ch) && ch) continue; const char *p = ch ? strchr(c.alpha, ch) : NULL; if (!p) return false; sig += ch; acc = (acc << c.bits | (unsigned)(p - c.alpha)) & 0xffff; n += c.bits; k++; if (n >= 8) { n -= 8; out += (char)(acc >> n); } } return n < c.bits; }
static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }

static void encode_case(Rng &r, const Codec &c, const std::string &d) {
    bool pad = c.pad; std::string want = enc(c, d, pad); char *in = exact(d); size_t len; void *out; int rc;
    switch (r.below(5)) {
    case 0: len = r.chance(1, 2) ? want.size() + r.below(10) : r.below(want.size() + 1); rc = zt_base_encode(*c.def, in, d.size(), NULL, &len); VT_CHECK(len == want.size(), "encode-size", "%s: %zu bytes need %zu, reported %zu", c.name, d.size(), want.size(), len); ev("encode.size"); break;
    case 1: { out = NULL; len = 0; rc = zt_base_encode(*c.def, in, d.size(), &out, &len); VT_CHECK(rc == 0 && len == want.size(), "encode-alloc", "%s: rc %d length %zu expected %zu", c.name, rc, len, want.size()); if (!d.empty()) VT_CHECK(out && memcmp(out, want.data(), len) == 0, "encode", "%s of %s: %s expected %s", c.name, esc(d).c_str(), esc(out, len).c_str(), want.c_str()); free(out); ev("encode.alloc"); break; }
    case 2: { if (want.empty()) break; size_t sz = r.below(want.size()); char *b = (char *)malloc(sz ? sz : 1); memset(b, 0x5a, sz); out = b; len = sz; if (!sz) { b[0] = 0x5a; } rc = zt_base_encode(*c.def, in, d.size(), &out, &len); VT_CHECK(rc == -2 && len == want.size(), "encode-small", "%s: buffer %zu of %zu needed: rc %d size %zu", c.name, sz, want.size(), rc, len); for (size_t i = 0; i < sz; i++) VT_CHECK(b[i] == 0x5a, "encode-small-write", "a refused buffer was written"); VT_CHECK(out == b, "encode-out", "output pointer changed"); free(b); ev("encode.refused"); break; }
    default: { size_t slack = r.chance(1, 2) ? 0 : r.below(9), sz = want.size() + slack; char *b = (char *)malloc(sz ? sz : 1); memset(b, 0x5a, sz ? sz : 1); out = b; len = sz; if (!sz) { free(b); break; } rc = zt_base_encode(*c.def, in, d.size(), &out, &len); VT_CHECK(rc == 0 && len == want.size() && out == b, "encode-rc", "%s: rc %d length %zu expected %zu", c.name, rc, len, want.size()); VT_CHECK(memcmp(b, want.data(), want.size()) == 0, "encode", "%s of %s: %s expected %s", c.name, esc(d).c_str(), esc(b, len).c_str(), want.c_str()); for (size_t i = want.size(); i < sz; i++) VT_CHECK(b[i] == 0x5a, "encode-over", "wrote byte %zu of %zu", i, want.size()); free(b); ev("encode"); }
    }
    VT_CHECK(memcmp(in, d.data(), d.size()) == 0, "input", "the input was modified"); free(in);
}
// text -> library, judged by the reference; ok = must succeed with data
static void decode_case(Rng &r, const Codec &c, const std::string &t, const char *what) {
    std::string want, sig; bool ok = dec(c, t, want, sig); char *in = exact(t); size_t need = 12345; int rc; void *out; size_t len;
    if (t.empty()) { len = r.below(5); out = NULL; rc = zt_base_decode(*c.def, r.chance(1, 2) ? NULL : in, 0, &out, &len); VT_CHECK(rc == 0 && len == 0 && out == NULL, "decode-empty", "empty text: rc %d length %zu", rc, len); free(in); ev("decode.empty"); return; }
    rc = zt_base_decode(*c.def, in, t.size(), NULL, &need); VT_CHECK(rc == 0 && need >= want.size() && need <= t.size(), "decode-size", "%s: %s decodes to %zu bytes, size query says %zu", c.name, esc(t).c_str(), want.size(), need);
    int mode = r.below(4);
    if (mode == 0) { out = NULL; len = 0; rc = zt_base_decode(*c.def, in, t.size(), &out, &len); ev("decode.alloc"); }
    else if (mode == 1 && need) { size_t sz = want.size() ? r.below(want.size()) : 0; if (sz == 0) sz = 0; char *b = (char *)malloc(sz ? sz : 1); memset(b, 0x5a, sz ? sz : 1); out = b; len = sz; rc = zt_base_decode(*c.def, in, t.size(), &out, &len); if (want.size()) VT_CHECK(rc == -2 && len > sz && out == b, "decode-small", "%s: buffer of %zu for %zu bytes: rc %d length %zu", c.name, sz, want.size(), rc, len); for (size_t i = 0; i < sz && want.size(); i++) VT_CHECK(b[i] == 0x5a, "decode-small-write", "a refused buffer was written"); free(b); free(in); ev("decode.refused"); return; }
    else { size_t sz = need + (r.chance(1, 2) ? 0 : r.below(9)); if (!sz) sz = 1; char *b = (char *)malloc(sz); memset(b, 0x5a, sz); out = b; len = sz; rc = zt_base_decode(*c.def, in, t.size(), &out, &len); VT_CHECK(out == b, "decode-out", "output pointer changed"); if (rc == 0) for (size_t i = len; i < sz; i++) VT_CHECK(b[i] == 0x5a, "decode-over", "%s of %s: wrote byte %zu of %zu reported", c.name, esc(t).c_str(), i, len); }
    VT_CHECK(rc == 0 || rc == -1, "decode-rc", "decode returned %d", rc);
    if (ok) { VT_CHECK(rc == 0, "decode-rejects", "%s: valid text %s (%s) rejected", c.name, esc(t).c_str(), what); VT_CHECK(len == want.size() && memcmp(out, want.data(), len) == 0, "decode", "%s of %s: %s (%zu) expected %s (%zu)", c.name, esc(t).c_str(), esc(out, len).c_str(), len, esc(want).c_str(), want.size()); ev("decode.ok");
        std::string re = enc(c, std::string((char *)out, len), false); VT_CHECK(re.size() == sig.size() && (sig.empty() || re.compare(0, sig.size() - 1, sig, 0, sig.size() - 1) == 0), "decode-lossy", "%s: %s re-encodes to %s", c.name, esc(t).c_str(), re.c_str()); }
    else { VT_CHECK(rc == -1, "decode-accepts", "%s: malformed text %s (%s) accepted as %zu bytes", c.name, esc(t).c_str(), what, len); ev("decode.rejected"); }
    VT_CHECK(memcmp(in, t.data(), t.size()) == 0, "input", "the input was modified"); free(in); free(out);
}
void vt_case(Rng &r, uint64_t idx) {
    Codec c = codecs[r.below(6)]; unsigned cno = 0; while (codecs[cno].def != c.def) cno++;
    zt_base_definition_t local = **c.def; zt_base_definition_t *lp = &local;    // caller's own definition with the padding flag switched
    if (r.chance(1, 4) && c.bits != 4) { local.flags = (zt_base_flags)(local.flags ^ zt_base_encode_with_padding); c.pad = !c.pad; c.def = &lp; ev("padding.switched"); }
    std::string d = r.bytes(r.size(r.chance(1, 20) ? 5000 : 70)); if (r.chance(1, 6)) { for (auto &ch : d) ch = r.chance(1, 2) ? 0 : (char)0xff; } if (idx < 256 * 6) d = std::string(1 + r.below(3), (char)(idx / 6));
    mix(d); mix(cno * 2 + c.pad); nontrivial(!d.empty()); op("%s %zu bytes %s", c.name, d.size(), esc(d, 60).c_str());
    encode_case(r, c, d); encode_case(r, c, d);
    std::string t = enc(c, d, r.chance(1, 2)); decode_case(r, c, t, "own encoding");
    std::string w; for (char ch : t) { while (r.chance(1, 8)) w += " \t\r\n"[r.below(4)]; w += ch; } if (r.chance(1, 2)) w += "\r\n"; decode_case(r, c, w, "white space"); ev("decode.spaces");
    std::string m = t; switch (r.below(6)) { case 0: if (!m.empty()) m[r.below(m.size())] = (char)r.u64(); break; case 1: m.insert(r.below(m.size() + 1), 1, (char)r.u64()); break; case 2: if (!m.empty()) m.erase(r.below(m.size()), 1); break; case 3: m = r.str(r.below(20), "AZaz09+/=-_ 27VWg"); break; case 4: m = r.bytes(r.below(12)); break; case 5: m = m.substr(0, r.below(m.size() + 1)) + std::string(r.below(8), '='); }
    decode_case(r, c, m, "mutated"); op("mutated %s", esc(m, 40).c_str());
    if (r.chance(1, 20)) { size_t l = 3; VT_CHECK(zt_base_encode(*c.def, "abc", 3, NULL, NULL) == -1 && zt_base_decode(*c.def, "AA", 2, NULL, NULL) == -1 && zt_base_encode(NULL, "abc", 3, NULL, &l) == -1 && zt_base_decode(NULL, "AA", 2, NULL, &l) == -1, "null", "null arguments accepted");
        void *o = NULL; size_t big = 64; VT_CHECK(zt_base_decode(*c.def, "AAAA", 4, &o, &big) == 0 && o == NULL && big >= 2 && big <= 4, "decode-nullbuf", "null buffer with a size"); o = NULL; big = 64; VT_CHECK(zt_base_encode(*c.def, "abc", 3, &o, &big) == 0 && o == NULL && big == enc(c, "abc", c.pad).size(), "encode-nullbuf", "null buffer with a size"); ev("null.args"); }
    evaluations(4);
}
