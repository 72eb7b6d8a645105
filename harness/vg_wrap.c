/* For the runs under memcheck: impossible sizes are refused before valgrind sees them (it complains about them, and may crash), and
 * the blocks the library holds can be asked for, as AddressSanitizer would tell. */
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <valgrind/memcheck.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#ifdef TRACK
static struct { char *p; size_t n; } T[1 << 17]; static size_t nt;
static void *took(void *p, size_t n) { if (p) { if (nt == sizeof T / sizeof *T) abort(); T[nt].p = p; T[nt++].n = n; } return p; }
static void gone(void *p) { size_t i = nt; while (i--) if (T[i].p == p) { T[i] = T[--nt]; return; } }
const char *__asan_locate_address(void *p, char *nm, size_t l, void **b, size_t *sz) { size_t i = nt; while (i--) if ((char *)p >= T[i].p && (char *)p <= T[i].p + T[i].n) { *b = T[i].p; *sz = T[i].n; return "heap"; } *b = NULL; *sz = 0; return "wild"; }
void *__asan_region_is_poisoned(void *p, size_t n) { return (void *)VALGRIND_CHECK_MEM_IS_ADDRESSABLE(p, n); }
int __asan_address_is_poisoned(void const volatile *p) { size_t i = nt; while (i--) if ((char *)p >= T[i].p && (char *)p < T[i].p + T[i].n) return 0; return 1; }
#else
static void *took(void *p, size_t n) { return p; }
static void gone(void *p) { }
#endif
void *__wrap_malloc(size_t n) { if (n > PTRDIFF_MAX) { errno = ENOMEM; return NULL; } return took(__real_malloc(n), n); }
void *__wrap_calloc(size_t n, size_t m) { size_t z; if (__builtin_mul_overflow(n, m, &z) || z > PTRDIFF_MAX) { errno = ENOMEM; return NULL; } return took(__real_calloc(n, m), z); }
void *__wrap_realloc(void *p, size_t n) { void *r; if (n > PTRDIFF_MAX) { errno = ENOMEM; return NULL; } r = __real_realloc(p, n); if (r || !n) { gone(p); took(r, n); } return r; }
void __wrap_free(void *p) { gone(p); __real_free(p); }
