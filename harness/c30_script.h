#pragma once
/* what one test does, step by step; shared by the C and the C++ side */
enum { A_PASS, A_FAIL_EXPR, A_FAIL_DOC, A_FAIL_DEEP, A_FAIL_CALL, A_EQ, A_NE, A_FAIL_EQ, A_THROW_STR, A_THROW_NULL, A_THROW_INT, A_THROW_OBJ, A_RETURN };
struct script { int n; unsigned char act[64]; int cpp; int line_fail, line_doc, line_eq, line_deep; void *tag; };
struct holder { struct script *cur; void (*log)(const char *what, void *who); void *data; };
#ifdef __cplusplus
extern "C" {
#endif
extern struct script *(*script_of)(struct zt_unit_test *);
extern void (*script_log)(const char *what, struct zt_unit_test *t, void *data);
void c_test(struct zt_unit_test *test, void *data);
#ifdef __cplusplus
}
#endif
