#undef DEBUG
#undef NDEBUG
#define NDEBUG
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/select.h>
#include <zt.h>
#include <libzt/zt_unit.h>
#define UNIT "C, NDEBUG"
#define TRY zt_unit_try_c
#include "c39_body.inc"
void c39_off(struct c39 *s, int what) { run(s, what); }
