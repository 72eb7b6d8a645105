#include <stdio.h>
#define ZT_WITH_UNIT
#include <zt.h>
#include <libzt/zt_unit.h>
#include "c30_script.h"
#define THROWS
#include "c30_body.inc"
void c_test(struct zt_unit_test *test, void *data) { body(test, data); }
