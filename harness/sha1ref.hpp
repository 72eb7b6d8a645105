// independent SHA-1 (FIPS 180-1), written from the standard
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
struct Sha1Ref { uint32_t h[5]; uint64_t n; unsigned char b[64];
    Sha1Ref() : n(0) { h[0] = 0x67452301; h[1] = 0xEFCDAB89; h[2] = 0x98BADCFE; h[3] = 0x10325476; h[4] = 0xC3D2E1F0; }
    static uint32_t rl(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
    void block(const unsigned char *p) { uint32_t w[80]; for (int t = 0; t < 16; t++) w[t] = (uint32_t)p[4 * t] << 24 | p[4 * t + 1] << 16 | p[4 * t + 2] << 8 | p[4 * t + 3]; for (int t = 16; t < 80; t++) w[t] = rl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        uint32_t a = h[0], b2 = h[1], c = h[2], d = h[3], e = h[4]; for (int t = 0; t < 80; t++) { uint32_t f, k; if (t < 20) f = (b2 & c) | (~b2 & d), k = 0x5A827999; else if (t < 40) f = b2 ^ c ^ d, k = 0x6ED9EBA1; else if (t < 60) f = (b2 & c) | (b2 & d) | (c & d), k = 0x8F1BBCDC; else f = b2 ^ c ^ d, k = 0xCA62C1D6; uint32_t tt = rl(a, 5) + f + e + w[t] + k; e = d; d = c; c = rl(b2, 30); b2 = a; a = tt; }
        h[0] += a; h[1] += b2; h[2] += c; h[3] += d; h[4] += e; }
    void update(const void *dp, uint64_t len) { const unsigned char *d = (const unsigned char *)dp; while (len) { uint64_t o = n % 64, k = 64 - o < len ? 64 - o : len; if (k == 64) block(d); else { memcpy(b + o, d, k); if (o + k == 64) block(b); } n += k; d += k; len -= k; } }
    std::string final() { uint64_t bits = n * 8; unsigned char x = 0x80; update(&x, 1); x = 0; while (n % 64 != 56) update(&x, 1); unsigned char l[8]; for (int i = 0; i < 8; i++) l[i] = (unsigned char)(bits >> (56 - 8 * i)); update(l, 8); std::string o(20, 0); for (int i = 0; i < 20; i++) o[i] = (char)(h[i / 4] >> (24 - 8 * (i % 4))); return o; } };
static inline std::string sha1ref(const std::string &s) { Sha1Ref r; r.update(s.data(), s.size()); return r.final(); }
static inline std::string hexref(const std::string &s, const char *al = "0123456789abcdef") { std::string o; for (unsigned char c : s) { o += al[c >> 4]; o += al[c & 15]; } return o; }
