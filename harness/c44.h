/* what a variant of the library offers to the comparing program */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*c44_put)(void *, uint64_t);
void c44_hdr(uint64_t seed, c44_put put, void *to);
#ifdef __cplusplus
}
#endif
