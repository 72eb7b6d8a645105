/* the same statements compiled as C (longjmp) and as C++ (throw) */
static void deep(struct zt_unit_test *test, int n) { volatile char pad[64]; pad[0] = (char)n; if (n) deep(test, n - 1); else { ZT_UNIT_ASSERT(test, n != pad[0]); } }
static void body(struct zt_unit_test *test, void *data) {
    struct script *s = script_of(test); int i, four = 4; script_log("begin", test, data);
    for (i = 0; i < s->n; i++) switch (s->act[i]) {
        case A_PASS: ZT_UNIT_ASSERT(test, four == 4); break;
        case A_EQ: ZT_UNIT_ASSERT_EQUAL(test, four, 4); break;
        case A_NE: ZT_UNIT_ASSERT_NOT_EQUAL(test, four, 5); break;
        case A_FAIL_EXPR: ZT_UNIT_ASSERT(test, four == 5); break;
        case A_FAIL_DOC: ZT_UNIT_ASSERT(test, four == 6, four is not six); break;
        case A_FAIL_EQ: ZT_UNIT_ASSERT_EQUAL(test, four, 7); break;
        case A_FAIL_DEEP: deep(test, 9); break;
        case A_FAIL_CALL: ZT_UNIT_FAIL(test, "gave up at %d of %s", i, "script"); break;
        case A_RETURN: script_log("end", test, data); return;
        THROWS
    }
    script_log("end", test, data);
}
