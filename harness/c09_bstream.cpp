#include "ztc.hpp"
#include <algorithm>
#include <math.h>
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
// model: the bytes of the stream up to the furthest one ever written (holes read as zero), and the position
struct M { zt_bstream_t b; std::string m; size_t off; };
static void wr(M &x, std::string d, bool flip) { if (flip) std::reverse(d.begin(), d.end()); if (d.empty()) return; if (x.off > x.m.size()) ev("hole"); if (x.off + d.size() > x.m.size()) x.m.resize(x.off + d.size(), 0); x.m.replace(x.off, d.size(), d); x.off += d.size(); }
static void inv(M &x, const char *w, bool full) {
    VT_CHECK(x.b->offt == x.off, "position", "after %s the position is %zu, expected %zu", w, x.b->offt, x.off);
    VT_CHECK(zt_array_length(x.b->data) >= x.m.size(), "extent", "after %s storage of %zu for %zu written bytes", w, zt_array_length(x.b->data), x.m.size());
    VT_CHECK((zt_bstream_is_empty(x.b) != 0) == (zt_array_length(x.b->data) == 0), "empty", "emptiness %d with %zu bytes", zt_bstream_is_empty(x.b), zt_array_length(x.b->data));
    if (!x.m.empty()) VT_CHECK(!zt_bstream_is_empty(x.b), "empty", "a stream with %zu bytes is empty", x.m.size());
    if (full && !x.m.empty()) { const char *p = zt_array_data(x.b->data); VT_CHECK(memcmp(p, x.m.data(), x.m.size()) == 0, "content", "after %s the stored bytes %s differ from the expected %s", w, esc(p, x.m.size()).c_str(), esc(x.m).c_str()); ev("compares"); }
}
template <class T> static void wtyped(M &x, T v, void (*f)(zt_bstream_t, T)) { f(x.b, v); wr(x, std::string((char *)&v, sizeof v), x.b->flipendian); }
template <class T> static void rtyped(M &x, void (*f)(zt_bstream_t, T *)) {
    struct { T before, v, after; } t; memset(&t, 0x5a, sizeof t); f(x.b, &t.v); std::string want = x.m.substr(x.off, sizeof(T)); if (x.b->flipendian) std::reverse(want.begin(), want.end());
    VT_CHECK(memcmp(&t.v, want.data(), sizeof(T)) == 0, "read", "read %s of %zu bytes at %zu, expected %s", esc(&t.v, sizeof(T)).c_str(), sizeof(T), x.off, esc(want).c_str());
    T pat; memset(&pat, 0x5a, sizeof pat); VT_CHECK(!memcmp(&t.before, &pat, sizeof pat) && !memcmp(&t.after, &pat, sizeof pat), "read-over", "read wrote beside its target"); x.off += sizeof(T); }
static void write_one(Rng &r, M &x) {
    switch (r.below(9)) {
    case 0: wtyped<char>(x, (char)r.u64(), zt_bstream_write_byte); op("w8"); break;
    case 1: wtyped<uint8_t>(x, (uint8_t)r.u64(), zt_bstream_write_uint8); op("wu8"); break;
    case 2: wtyped<uint16_t>(x, (uint16_t)r.u64(), zt_bstream_write_uint16); op("w16"); break;
    case 3: wtyped<uint32_t>(x, (uint32_t)r.u64(), zt_bstream_write_uint32); op("w32"); break;
    case 4: wtyped<uint64_t>(x, r.u64(), zt_bstream_write_uint64); op("w64"); break;
    case 5: { static const float sp[] = {0.f, -0.f, 1.f, INFINITY, NAN, 1e-40f}; float f = r.chance(1, 3) ? sp[r.below(6)] : (float)(int64_t)r.u64() / 7; wtyped<float>(x, f, zt_bstream_write_float); op("wf"); break; }
    case 6: { double d = r.chance(1, 4) ? NAN : (double)(int64_t)r.u64() * 1e-5; wtyped<double>(x, d, zt_bstream_write_double); op("wd"); break; }
    default: { size_t es = 1 + r.below(9), n = r.size(r.chance(1, 10) ? 3000 : 60); std::string d = r.bytes(es * n), k = d; char *exact = (char *)malloc(d.size() ? d.size() : 1); memcpy(exact, d.data(), d.size()); zt_bstream_write(x.b, exact, n, (char)es, (char)r.u64()); VT_CHECK(!memcmp(exact, k.data(), k.size()), "source", "writing changed the source"); free(exact); wr(x, d, x.b->flipendian); op("w array %zux%zu", n, es); ev("write.array"); }
    } ev(x.b->flipendian ? "write.flipped" : "write"); }
static bool read_one(Rng &r, M &x) {
    size_t left = x.off < x.m.size() ? x.m.size() - x.off : 0; if (!left) return false; int c = r.below(9);
    if (c == 3 && left < 4) c = 8; if (c == 5 && left < 4) c = 8; if ((c == 4 || c == 6) && left < 8) c = 8; if (c == 2 && left < 2) c = 8;
    switch (c) {
    case 0: rtyped<char>(x, zt_bstream_read_byte); break; case 1: rtyped<uint8_t>(x, zt_bstream_read_uint8); break; case 2: rtyped<uint16_t>(x, zt_bstream_read_uint16); break; case 3: rtyped<uint32_t>(x, zt_bstream_read_uint32); break;
    case 4: rtyped<uint64_t>(x, zt_bstream_read_uint64); break; case 5: rtyped<float>(x, zt_bstream_read_float); break; case 6: rtyped<double>(x, zt_bstream_read_double); break;
    default: { size_t es = 1 + r.below(9), n = r.below(left / es + 1); size_t t = es * n; char *out = (char *)malloc(t ? t : 1); zt_bstream_read(x.b, out, n, (char)es, 0); std::string want = x.m.substr(x.off, t); if (x.b->flipendian) std::reverse(want.begin(), want.end()); VT_CHECK(memcmp(out, want.data(), t) == 0, "read-array", "array read differs at %zu", x.off); free(out); x.off += t; ev("read.array"); }
    } ev(x.b->flipendian ? "read.flipped" : "read"); op("read->%zu", x.off); return true; }
void vt_case(Rng &r, uint64_t) {
    std::vector<M> v; { M x; x.b = zt_bstream_new(); x.off = 0; v.push_back(x); VT_CHECK(zt_bstream_is_empty(x.b), "empty-new", "a new stream is not empty"); }
    size_t nops = 1 + r.below(r.chance(1, 8) ? 200 : 50); int style = r.below(3); op("style %d", style);
    if (style == 0) {      // write a whole sequence, rewind, read it back with the same types
        M &x = v[0]; x.b->flipendian = r.chance(1, 3); std::vector<size_t> cuts; std::vector<int> dummy; for (size_t i = 0; i < nops && x.m.size() < 60000; i++) write_one(r, x); inv(x, "writes", true);
        bool flip2 = r.chance(1, 4) ? !x.b->flipendian : x.b->flipendian; size_t o = zt_bstream_rewind(x.b); VT_CHECK(o == x.off, "rewind", "rewind returned %zu at %zu", o, x.off); x.off = 0; x.b->flipendian = flip2; while (read_one(r, x)) {} inv(x, "reads", true); ev("roundtrip"); nontrivial(nops > 1);
    } else {
        for (size_t i = 0; i < nops; i++) {
            M &x = r.pick(v); int c = r.below(100); bool full = x.m.size() < 4000 || r.chance(1, 4); const char *w = "write";
            if (c < 45 && x.m.size() < 100000) write_one(r, x);
            else if (c < 65) { w = "read"; read_one(r, x); }
            else if (c < 72) { w = "rewind"; size_t o = zt_bstream_rewind(x.b); VT_CHECK(o == x.off, "rewind", "rewind returned %zu at %zu", o, x.off); x.off = 0; op("rewind"); ev("rewind"); }
            else if (c < 80) { w = "seek"; x.off = x.b->offt = r.chance(1, 4) ? x.m.size() + r.size(500) : r.below(x.m.size() + 1); op("seek %zu of %zu", x.off, x.m.size()); ev("seek"); }
            else if (c < 85) { w = "flip"; x.b->flipendian = !x.b->flipendian; op("flip"); ev("flip"); }
            else if (c < 89) { w = "truncate"; size_t l = zt_array_length(x.b->data); size_t o = zt_bstream_truncate(x.b); VT_CHECK(o == l, "truncate", "truncate returned %zu of %zu", o, l); x.m.clear(); VT_CHECK(zt_bstream_is_empty(x.b), "truncate-empty", "not empty after truncation"); op("truncate"); ev("truncate"); }
            else if (c < 93 && v.size() < 4) { w = "clone"; M y; y.b = zt_bstream_clone(x.b); y.m = x.m; y.off = x.off; op("clone"); VT_CHECK(!y.b->flipendian == !x.b->flipendian, "clone-order", "a clone of a %s stream is %s", x.b->flipendian ? "flipped" : "plain", y.b->flipendian ? "flipped" : "plain"); if (r.chance(1, 2)) y.b->flipendian = r.below(2); ev("clone"); VT_CHECK(y.b->data != x.b->data, "clone-shared", "a clone shares its storage"); v.push_back(y); inv(v.back(), "clone", true); continue; }
            else if (c < 96) { w = "set_data"; size_t n = 1 + r.size(400); std::string d = r.bytes(n); bool copy = r.chance(1, 2); char *p = (char *)malloc(n); memcpy(p, d.data(), n); zt_bstream_set_data(x.b, p, (int)n, copy); if (copy) { memset(p, 0xee, n); free(p); } x.m = d; op("set_data %zu copy=%d", n, copy); ev(copy ? "set_data.copy" : "set_data.adopt"); full = true; }
            else if (c < 98) { w = "set_array"; size_t n = r.size(200); std::string d = r.bytes(n); zt_array_t a = n ? zt_array_with(&d[0], n, 1, 1) : zt_array_new(0, 1); size_t o = r.chance(1, 5) ? n + r.below(30) : r.below(n + 1); zt_bstream_set_array(x.b, a, o); x.m = d; x.off = o; op("set_array %zu at %zu", n, o); ev("set_array"); full = true; }
            else if (v.size() > 1) { zt_bstream_free(&x.b); size_t k = &x - &v[0]; v.erase(v.begin() + k); op("free"); ev("free"); continue; }
            inv(x, w, full || i + 1 == nops);
        }
        nontrivial(nops > 2);
    }
    mix(nops); mix(style);
    for (auto &x : v) { mix(std::hash<std::string>()(std::string(x.m.begin(), x.m.end()))); mix(x.off); inv(x, "end", true); zt_bstream_free(&x.b); ev("free"); }
}
