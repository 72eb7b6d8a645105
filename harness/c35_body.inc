/* the assertion macros as user code meets them; included with PFX and in several configurations */
#include "c35.h"
#define C35_CAT_(a, b) a##b
#define C35_CAT(a, b) C35_CAT_(a, b)
static int cond(struct c35 *s) { s->evals++; return s->ok; }
#define SITE(n, expr) \
    static void C35_CAT(n, _void)(int kind, struct c35 *s) { s->file = __FILE__; s->line = __LINE__; s->text = #expr; s->func = __func__; switch (kind) { case K_ASSERT: zt_assert(expr); break; case K_NF: zt_assert_nf(expr); break; case K_ALWAYS: zt_assert_always(expr); break; case K_RETURN: zt_assert_return(expr); break; case K_ABORT: if (!(expr)) { s->text = "giving up: 100% %s"; zt_abort("giving up: 100% %s"); } break; case K_ENABLE: zt_assert_enable(cond(s)); break; } s->after = 1; } \
    static int C35_CAT(n, _int)(struct c35 *s) { s->file = __FILE__; s->line = __LINE__; s->text = #expr; s->func = __func__; zt_assert_returnV(expr, 4711 + s->ok); s->after = 1; return 12; } \
    static int C35_CAT(n, _expr)(struct c35 *s) { int v; s->file = __FILE__; s->line = __LINE__; s->text = #expr; s->func = __func__; v = (zt_assert_always(expr), 5); s->after = 1; return v; }
static const char none[] = "";
#line 12 "first.c"
SITE(s0, cond(s))
#line 2147483000 "/some where/deep/in/a tree/second%d%s.cpp"
SITE(s1, 7 % 2 && cond(s) && "100% sure: %s %n %p")
#line 1 "../x/third"
SITE(s2, cond(s) || *none)
#line 999999 "d.ir/n\"quoted\" (1).h"
SITE(s3, cond(s) == 1 && "with \"quotes\" \\ and 'ticks'\t\n")
#line 32768 "a_rather_long_name_of_a_source_file_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on.c"
SITE(s4, (cond(s) ? 1 : 0) != 0 && sizeof("a long condition ........................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................"))
#line 40 "c35_body.inc"
static void run(int site, int kind, struct c35 *s) {
    static void (*const V[])(int, struct c35 *) = {s0_void, s1_void, s2_void, s3_void, s4_void}; static int (*const I[])(struct c35 *) = {s0_int, s1_int, s2_int, s3_int, s4_int}; static int (*const X[])(struct c35 *) = {s0_expr, s1_expr, s2_expr, s3_expr, s4_expr};
    if (kind == K_RETURNV) s->value = I[site](s); else if (kind == K_EXPR) s->value = X[site](s); else V[kind == K_ABORT ? 0 : site](kind, s); }
