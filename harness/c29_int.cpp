// C29: the checked integer operations against 128-bit arithmetic; a refusal is the fatal assertion report, caught here.
#ifndef HAVE_LONG_LONG
#define HAVE_LONG_LONG 1
#endif
#include "ztc.hpp"
#include <setjmp.h>
#include <limits.h>
#include <limits>
#include <type_traits>
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
typedef __int128 W;
static void *jb[8]; static volatile bool armed; static volatile int reports, why;
extern "C" void __wrap__zt_log_assertion(const char *, const char *, unsigned, const char *) { if (!armed) harness_error("assertion outside an operation"); reports++; armed = false; why = 1; __builtin_longjmp(jb, 1); }
extern "C" void __real_abort(void); extern "C" void __wrap_abort(void) { if (!armed) __real_abort(); armed = false; why = 2; __builtin_longjmp(jb, 1); }
static std::string dec(W v) { bool n = v < 0; std::string s; do { int d = (int)(v % 10); s.insert(0, 1, (char)('0' + (d < 0 ? -d : d))); v /= 10; } while (v); return n ? "-" + s : s; }
enum { ADD, SUB, MUL, DIV };
static const char *OPN[] = {"+", "-", "*", "/"};
struct Cov { uint64_t ok, refused, zero; }; static Cov cov;
template <class T> static void one(const char *type, int op, T (*f)(T, T), T a, T b) {
    bool rep; W want = 0; if (op == DIV && b == 0) rep = false; else { want = op == ADD ? (W)a + b : op == SUB ? (W)a - b : op == MUL ? (W)a * b : (W)a / b; rep = want >= (W)std::numeric_limits<T>::min() && want <= (W)std::numeric_limits<T>::max(); }
#ifdef NDEBUG
    if (!rep) return;       // without assertions nothing is promised
#endif
    volatile T got = 0; why = 0; if (__builtin_setjmp(jb) == 0) { armed = true; got = f(a, b); armed = false; } int r = why;
    if (rep) { VT_CHECK(r == 0, "refused", "%s: %s %s %s is %s, yet it is refused", type, dec(a).c_str(), OPN[op], dec(b).c_str(), dec(want).c_str()); VT_CHECK((W)got == want, "value", "%s: %s %s %s gives %s", type, dec(a).c_str(), OPN[op], dec(b).c_str(), dec(got).c_str()); cov.ok++; }
    else { VT_CHECK(r != 0, "accepted", "%s: %s %s %s is not representable, yet gives %s", type, dec(a).c_str(), OPN[op], dec(b).c_str(), dec(got).c_str()); VT_CHECK(r == 1, "unreported", "%s: %s %s %s dies without a report", type, dec(a).c_str(), OPN[op], dec(b).c_str()); cov.refused++; if (op == DIV && b == 0) cov.zero++; }
}
template <class T> static T edge(Rng &r) {
    typedef std::numeric_limits<T> L; typedef typename std::make_unsigned<T>::type U; unsigned bits = sizeof(T) * 8; U v;
    switch (r.below(9)) { case 0: v = (U)(L::max() - (T)r.below(3)); break; case 1: v = (U)((U)L::min() + (U)r.below(3)); break; case 2: v = (U)r.below(4); break; case 3: v = (U)(0 - (U)r.below(4)); break; case 4: v = (U)(((U)1 << r.below(bits)) + (U)r.range(-1, 1)); break; case 5: v = (U)(0 - (((U)1 << r.below(bits)) + (U)r.range(-1, 1))); break; case 6: v = (U)((U)(L::max() / (T)(1 + r.below(40))) + (U)r.range(0, 1)); break; case 7: v = (U)(r.u64() >> r.below(64)); break; default: v = (U)r.u64(); } return (T)v; }
template <class T> static T partner(Rng &r, int op, T a) {   // one that lands on the edge of the representable
    typedef std::numeric_limits<T> L; W x; W lim = r.chance(1, 2) ? (W)L::max() : (W)L::min(); lim += r.range(-1, 1); switch (op) { case ADD: x = lim - a; break; case SUB: x = a - lim; break; case MUL: x = a ? lim / a + r.range(-1, 1) : r.range(-1, 1); break; default: x = r.chance(1, 2) ? -1 : r.range(-2, 2); } if (x < (W)L::min()) x = (W)L::min(); if (x > (W)L::max()) x = (W)L::max(); return (T)x; }
template <class T> static void some(Rng &r, const char *type, int op, T (*f)(T, T), unsigned n) { for (unsigned i = 0; i < n; i++) { T a = edge<T>(r), b = r.chance(1, 2) ? edge<T>(r) : partner<T>(r, op, a); if (r.chance(1, 4) && op != SUB) std::swap(a, b); one<T>(type, op, f, a, b); also_distinct((uint64_t)a * 0x9e3779b97f4a7c15ULL ^ (uint64_t)b * 0xc2b2ae3d27d4eb4fULL ^ (uint64_t)op << 60 ^ (uint64_t)sizeof(T) << 50 ^ (std::is_signed<T>::value ? 1ULL << 49 : 0)); } evaluations(n); ev(type, n); }
void vt_init() {}
void vt_case(Rng &r, uint64_t idx) {
    nontrivial(true); cov = {0, 0, 0};
#ifdef ALL16
    { // one 16-bit left operand with every right one; edges first, then a walk over all
        static const unsigned first[] = {0x8000, 0x7fff, 0xffff, 0, 1, 0x8001, 0xfffe, 2, 0x7ffe, 0xff, 0x100, 0xb5, 0xb6}; unsigned lhs = idx < 13 ? first[idx] : (unsigned)((idx - 13) * 40503u) & 0xffff; mix(lhs); op("all pairs with %d and %u", (short)lhs, lhs); short s = (short)lhs; unsigned short u = (unsigned short)lhs;
        for (unsigned b = 0; b < 65536; b++) { short t = (short)b; unsigned short v = (unsigned short)b;
            one<short>("short", ADD, zt_short_add, s, t); one<short>("short", SUB, zt_short_sub, s, t); one<short>("short", MUL, zt_short_mul, s, t); one<short>("short", DIV, zt_short_div, s, t);
            one<unsigned short>("ushort", ADD, zt_ushort_add, u, v); one<unsigned short>("ushort", SUB, zt_ushort_sub, u, v); one<unsigned short>("ushort", MUL, zt_ushort_mul, u, v); one<unsigned short>("ushort", DIV, zt_ushort_div, u, v); }
        evaluations(8 * 65536); ev("short", 4 * 65536); ev("ushort", 4 * 65536); ev("exact", cov.ok); ev("refused", cov.refused); ev("row16"); return; }
#endif
    if (idx < 256) { // every pair of the 8-bit types
        mix(idx); op("all pairs with %d and %u", (signed char)idx, (unsigned char)idx); for (int b = 0; b < 256; b++) { signed char s = (signed char)idx, t = (signed char)b; unsigned char u = (unsigned char)idx, v = (unsigned char)b;
            one<signed char>("char", ADD, zt_char_add, s, t); one<signed char>("char", SUB, zt_char_sub, s, t); one<signed char>("char", MUL, zt_char_mul, s, t); one<signed char>("char", DIV, zt_char_div, s, t);
            one<unsigned char>("uchar", ADD, zt_uchar_add, u, v); one<unsigned char>("uchar", SUB, zt_uchar_sub, u, v); one<unsigned char>("uchar", MUL, zt_uchar_mul, u, v); one<unsigned char>("uchar", DIV, zt_uchar_div, u, v); }
        evaluations(2048); ev("char", 1024); ev("uchar", 1024); ev("exhaustive");
    } else { mix(r.s); unsigned n = 12; op("seeded pairs");
#define FOUR(T, nm) some<T>(r, #nm, ADD, zt_##nm##_add, n); some<T>(r, #nm, SUB, zt_##nm##_sub, n); some<T>(r, #nm, MUL, zt_##nm##_mul, n); some<T>(r, #nm, DIV, zt_##nm##_div, n);
        FOUR(short, short) FOUR(unsigned short, ushort) FOUR(int, int) FOUR(unsigned int, uint)
        some<long>(r, "long", ADD, zt_long_add, n); some<long>(r, "long", SUB, zt_long_sub, n); some<unsigned long>(r, "ulong", ADD, zt_ulong_add, n); some<unsigned long>(r, "ulong", SUB, zt_ulong_sub, n);
#ifndef __x86_64__
        some<long>(r, "long", MUL, zt_long_mul, n); some<long>(r, "long", DIV, zt_long_div, n); some<unsigned long>(r, "ulong", MUL, zt_ulong_mul, n); some<unsigned long>(r, "ulong", DIV, zt_ulong_div, n);
#endif
    }
    ev("exact", cov.ok); if (cov.refused) ev("refused", cov.refused); if (cov.zero) ev("by.zero", cov.zero);
}
