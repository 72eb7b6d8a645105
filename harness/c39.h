#ifndef C39_H
#define C39_H
#include <stdint.h>
#include <stddef.h>
struct c39 { int a, b, c, d; unsigned m, n; uint64_t t, u; int yes; long checks; };
#ifdef __cplusplus
extern "C" {
#endif
void c39_bad(const char *key, const char *what, const char *unit, double got, double want);
void c39_bits(const char *key, const char *what, const char *unit, unsigned long long got, unsigned long long want);
int c39_logged(char *text, size_t size); /* number of lines since the last call; the last of them */
long c39_slept(void);                    /* microseconds asked for since the last call */
#ifdef __cplusplus
}
#endif
#endif
