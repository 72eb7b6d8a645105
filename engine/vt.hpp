// vt.hpp - monitoring harness support: seeded cases, event counters, violation
// records, allocation balance, CPU-time watchdog.  One harness = one binary.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace vt {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { u64(); u64(); }
    uint64_t u64() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    // sizes: mostly small, sometimes around powers of two, sometimes large
    size_t size(size_t max) {
        switch (below(8)) { case 0: return 0 % (max + 1); case 1: return below(3) % (max + 1);
            case 2: { size_t p = (size_t)1 << below(17); int64_t v = (int64_t)p + range(-2, 2); if (v < 0) v = 0; return (size_t)v > max ? below(max + 1) : (size_t)v; }
            case 3: return below(max + 1);
            default: return below(max < 24 ? max + 1 : 24); } }
    std::string bytes(size_t n) { std::string o(n, 0); for (size_t i = 0; i < n; i++) o[i] = (char)u64(); return o; }
    std::string str(size_t n, const char *alpha) { size_t l = strlen(alpha); std::string o(n, 0); for (size_t i = 0; i < n; i++) o[i] = alpha[below(l)]; return o; }
    template <class V> auto &pick(V &v) { return v[below(v.size())]; }
};

uint64_t seed();
bool verbose();                 // replaying a case with full trace
bool tracing();                 // op() is being recorded
bool thorough();
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // one step of the case, for the trace/sample
void ev(const char *name, uint64_t n = 1);                             // observed-event counter
void mix(uint64_t x);           // contributes to this case's identity
inline void mix(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; mix(h); mix(s.size()); }
void nontrivial(bool yes = true);
void evaluations(uint64_t n);   // extra evaluations beyond one per case
void also_distinct(uint64_t h); // extra distinct non-trivial evaluation
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
long live();                    // live heap blocks (sanitizer builds), else 0
struct Quiet { Quiet(); ~Quiet(); };   // allocations of the monitor itself: not counted
const char *scratch();          // private scratch directory, removed at exit
uint64_t case_index();
// Expect a subprocess-style death inside fork(): returns wait status, captures stderr
int run_forked(const std::function<void()> &fn, std::string *err, std::string *out = nullptr, int timeout_s = 60);
std::string esc(const std::string &s, size_t max = 200);
std::string esc(const void *p, size_t n, size_t max = 200);
uint64_t now_ms();
void alloc_fail_at(long n);     // oom harnesses: the n-th library allocation from now fails (-1: never); needs wrap
}

#define VT_CHECK(cond, key, ...) do { if (!(cond)) vt::fail(key, __VA_ARGS__); } while (0)

// provided by the harness
void vt_case(vt::Rng &r, uint64_t idx);
void vt_init();                         // once per process
extern const bool vt_leakcheck;         // allocation balance of vt_case must be zero
bool vt_probe(const std::string &name); // run the named probe (returns false if unknown)
