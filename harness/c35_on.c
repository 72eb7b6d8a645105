#undef NDEBUG
#undef NO_ASSERT
#include <zt.h>
#include <libzt/zt_assert.h>
#include "c35_body.inc"
void c35_on(int site, int kind, struct c35 *s) { run(site, kind, s); }
