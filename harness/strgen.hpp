// strings and slices for the string harnesses
#pragma once
#include "ztc.hpp"
#include <algorithm>
struct Heap { char *p; size_t n; explicit Heap(const std::string &s) : n(s.size() + 1) { p = (char *)malloc(n); memcpy(p, s.c_str(), n); } ~Heap() { free(p); } operator char *() const { return p; } bool same(const std::string &s) const { return n == s.size() + 1 && !memcmp(p, s.c_str(), n); } Heap(const Heap &) = delete; };
static inline std::string gen_str(vt::Rng &r, size_t max = 40) {
    switch (r.below(8)) { case 0: return ""; case 1: return r.str(1 + r.below(3), "ab/ \n"); case 2: return r.str(r.below(max), "ab"); case 3: { std::string s = r.bytes(r.below(max)); for (auto &c : s) if (!c) c = 1; return s; }
        case 4: return r.str(r.below(12), " \t\nx"); case 5: return r.str(r.below(max), "/ab."); case 6: return r.str(r.below(max * 4), "abcdefghij KLMN,;:"); default: return r.str(r.below(max), "abc xyz/.-"); } }
static inline ssize_t gen_idx(vt::Rng &r, size_t len) { // legal indexes: -len .. anything above
    switch (r.below(8)) { case 0: return 0; case 1: return -1; case 2: return len ? -(ssize_t)len : 0; case 3: return (ssize_t)len + (ssize_t)r.below(5); case 4: return r.chance(1, 4) ? (ssize_t)0x7ffffff0 : (ssize_t)len; case 5: return len ? -(ssize_t)(1 + r.below(len)) : -1; default: return (ssize_t)r.below(len + 1); } }
struct Sl { ssize_t i, j; };   // normalised inclusive slice; j = i - 1 for the empty string
static inline Sl norm(ssize_t i, ssize_t j, size_t len) { if (!len) return Sl{0, -1}; auto f = [&](ssize_t x) { if (x < 0) x += len; return std::min<ssize_t>(x, (ssize_t)len - 1); }; i = f(i); j = f(j); if (i > j) std::swap(i, j); return Sl{i, j}; }
static inline std::string cut_slice(const std::string &s, Sl x) { return s.substr(x.i, x.j - x.i + 1); }
