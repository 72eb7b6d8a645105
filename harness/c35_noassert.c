#undef NDEBUG
#define NO_ASSERT
#include <zt.h>
#include <libzt/zt_assert.h>
#include "c35_body.inc"
void c35_noassert(int site, int kind, struct c35 *s) { run(site, kind, s); }
