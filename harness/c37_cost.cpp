// C37: work, memory and stack stay proportionate to the data.
#include "vt.hpp"
#include "c37.h"
#include <pthread.h>
#include <malloc.h>
#include <unistd.h>
#include <stdarg.h>
#include <strings.h>
#include <ctype.h>
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
// ---- the work counter: executed basic blocks plus bytes processed by libc on the library's behalf
static __thread uint64_t work; static __thread bool counting, whole; static __thread int copies = 1;
extern "C" __attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc(void) { work++; }
extern "C" {
#define W(n) (work += (uint64_t)(n) / 8)
#define R(t, f, a) t __real_##f a
R(void *, memcpy, (void *, const void *, size_t)); void *__wrap_memcpy(void *d, const void *s, size_t n) { W(n); return __real_memcpy(d, s, n); }
R(void *, memmove, (void *, const void *, size_t)); void *__wrap_memmove(void *d, const void *s, size_t n) { W(n); return __real_memmove(d, s, n); }
R(void *, memset, (void *, int, size_t)); void *__wrap_memset(void *d, int c, size_t n) { W(n); return __real_memset(d, c, n); }
R(int, memcmp, (const void *, const void *, size_t)); int __wrap_memcmp(const void *a, const void *b, size_t n) { W(n); return __real_memcmp(a, b, n); }
R(void *, memchr, (const void *, int, size_t)); void *__wrap_memchr(const void *a, int c, size_t n) { void *r = __real_memchr(a, c, n); W(r ? (char *)r - (char *)a : n); return r; }
R(size_t, strlen, (const char *)); size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); W(n); return n; }
size_t __wrap_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); W(n); return n; }
R(char *, strcpy, (char *, const char *)); char *__wrap_strcpy(char *d, const char *s) { W(__real_strlen(s)); return __real_strcpy(d, s); }
R(char *, strncpy, (char *, const char *, size_t)); char *__wrap_strncpy(char *d, const char *s, size_t n) { W(n); return __real_strncpy(d, s, n); }
R(char *, strcat, (char *, const char *)); char *__wrap_strcat(char *d, const char *s) { W(__real_strlen(d) + __real_strlen(s)); return __real_strcat(d, s); }
R(char *, strncat, (char *, const char *, size_t)); char *__wrap_strncat(char *d, const char *s, size_t n) { W(__real_strlen(d) + strnlen(s, n)); return __real_strncat(d, s, n); }
static size_t common(const char *a, const char *b, size_t n, bool fold) { size_t i = 0; while (i < n && a[i] && (fold ? tolower((unsigned char)a[i]) == tolower((unsigned char)b[i]) : a[i] == b[i])) i++; return i; }
R(int, strcmp, (const char *, const char *)); int __wrap_strcmp(const char *a, const char *b) { W(common(a, b, -1, false)); return __real_strcmp(a, b); }
R(int, strncmp, (const char *, const char *, size_t)); int __wrap_strncmp(const char *a, const char *b, size_t n) { W(common(a, b, n, false)); return __real_strncmp(a, b, n); }
R(int, strcasecmp, (const char *, const char *)); int __wrap_strcasecmp(const char *a, const char *b) { W(common(a, b, -1, true)); return __real_strcasecmp(a, b); }
R(int, strncasecmp, (const char *, const char *, size_t)); int __wrap_strncasecmp(const char *a, const char *b, size_t n) { W(common(a, b, n, true)); return __real_strncasecmp(a, b, n); }
R(char *, strchr, (const char *, int)); char *__wrap_strchr(const char *s, int c) { char *r = __real_strchr(s, c); W(r ? r - s : __real_strlen(s)); return r; }
R(char *, strrchr, (const char *, int)); char *__wrap_strrchr(const char *s, int c) { W(__real_strlen(s)); return __real_strrchr(s, c); }
R(char *, strstr, (const char *, const char *)); char *__wrap_strstr(const char *s, const char *t) { char *r = __real_strstr(s, t); W(r ? r - s : __real_strlen(s)); return r; }
R(size_t, strspn, (const char *, const char *)); size_t __wrap_strspn(const char *s, const char *t) { size_t n = __real_strspn(s, t); W(n); return n; }
R(size_t, strcspn, (const char *, const char *)); size_t __wrap_strcspn(const char *s, const char *t) { size_t n = __real_strcspn(s, t); W(n); return n; }
R(char *, strpbrk, (const char *, const char *)); char *__wrap_strpbrk(const char *s, const char *t) { W(__real_strcspn(s, t)); return __real_strpbrk(s, t); }
R(char *, strdup, (const char *)); char *__wrap_strdup(const char *s) { W(__real_strlen(s)); return __real_strdup(s); }
// ---- the allocator, interposed: bytes held and their peak
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static __thread int64_t held, peak;
static void *took(void *p) { if (p) { held += (int64_t)malloc_usable_size(p); if (held > peak) peak = held; } return p; }
void *malloc(size_t n) { work++; return took(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); work++; if (p) W(n * m); return took(p); }
void free(void *p) { work++; if (p) held -= (int64_t)malloc_usable_size(p); __libc_free(p); }
void *realloc(void *p, size_t n) { size_t old = p ? malloc_usable_size(p) : 0; work++; if (copies) W(old < n ? old : n); void *r = __libc_realloc(p, n); if (r || !n) held -= (int64_t)old; return took(r); }
void c37_go(void) { work = 0; }
static __thread uint64_t halted; void c37_halt(void) { halted = work; }
void c37_error(const char *s) { harness_error("%s", s); }
void c37_wrong(const char *s) { fail("wrong", "%s", s); }
}
struct Run { const c37_op *op; long n; unsigned long seed; int how; uint64_t work; int64_t mem; };
static void *body(void *p) { Run *r = (Run *)p; copies = r->op->copies; held = peak = 0; halted = 0; work = 0; r->op->run(r->n, r->seed, r->how); r->work = halted ? halted : work; r->mem = peak; return NULL; }
static void measure(Run *r) { pthread_attr_t a; pthread_t t; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 192 << 10); if (pthread_create(&t, &a, body, r)) harness_error("thread"); pthread_join(t, NULL); pthread_attr_destroy(&a); }
void vt_init() { static std::string p = std::string(scratch()) + "/c37"; c37_path(p.c_str()); Run r = { &c37_ops[0], 10, 1, 0, 0, 0 }; measure(&r); }
// work for eight times the data, as a multiple of the work for one
static double limit(int cls) { switch (cls) { case CONSTANT: return 2; case LOGN: return 3; case LINEAR: return 20; default: return 24; } }
static const char *CLS[] = { "a constant", "a logarithm", "a multiple", "n log n" };
void vt_case(Rng &r, uint64_t idx) {
    const c37_op *o = &c37_ops[idx % c37_nops]; long n = o->base + (long)r.below(o->base); bool big = idx / c37_nops % 20 == 19; if (big) n = o->base * 40; else if (thorough() && r.chance(1, 6)) n *= 1 + (long)r.below(8); unsigned long seed = r.u64(); int how = (int)(idx / c37_nops % 4); mix(idx % c37_nops); mix(n); mix(seed); mix(how);
    Run a = { o, n, seed, how, 0, 0 }, b = a; measure(&a); b.n = 8 * n; measure(&b); double w = (double)b.work / (double)(a.work ? a.work : 1), m = (double)b.mem / (double)(a.mem ? a.mem : 1);
    vt::op("%s (pattern %d): %ld elements: work %llu, memory %lld; %ld elements: work %llu (x%.2f), memory %lld (x%.2f)", o->name, how, n, (unsigned long long)a.work, (long long)a.mem, 8 * n, (unsigned long long)b.work, w, (long long)b.mem, m);
    if (getenv("C37_SHOW")) fprintf(stderr, "%-16s %d n=%ld work/n=%.2f x%.2f mem/n=%.2f x%.2f\n", o->name, how, n, (double)a.work / n, w, (double)a.mem / n, m);
    if (w > limit(o->work) && b.work > a.work + 2000) fail((std::string("work.") + o->name).c_str(), "%s: the work for %ld elements is %llu, for %ld it is %llu: %.1f times as much, more than %s allows", o->name, n, (unsigned long long)a.work, 8 * n, (unsigned long long)b.work, w, CLS[o->work]);
    if (m > limit(o->mem) && b.mem > a.mem + 16384) fail((std::string("memory.") + o->name).c_str(), "%s: %ld elements take %lld bytes, %ld take %lld: %.1f times as much, more than %s allows", o->name, n, (long long)a.mem, 8 * n, (long long)b.mem, m, CLS[o->mem]);
    ev(o->name); if (big) ev("big"); ev("work", a.work + b.work); nontrivial(a.work > 0); evaluations(1); }
