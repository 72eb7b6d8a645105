#undef NDEBUG
#undef DEBUG
#define DEBUG 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/select.h>
#include <zt.h>
#include <libzt/zt_unit.h>
#define UNIT "C, DEBUG and assertions"
#define TRY zt_unit_try_c
#include "c39_body.inc"
void c39_on(struct c39 *s, int what) { run(s, what); }
