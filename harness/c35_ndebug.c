#undef NO_ASSERT
#undef NDEBUG
#define NDEBUG
#include <zt.h>
#include <libzt/zt_assert.h>
#include "c35_body.inc"
void c35_ndebug(int site, int kind, struct c35 *s) { run(site, kind, s); }
