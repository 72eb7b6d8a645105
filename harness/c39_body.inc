/* the header macros as user code meets them: operands of every shape, in every place an expression or statement may stand.
   UNIT names the translation unit; included as C and as C++. */
#include "c39.h"
#define CHK(key, what, got, want) do { double got__ = (double)(got), want__ = (double)(want); s->checks++; if (got__ != want__) c39_bad(key, what, UNIT, got__, want__); } while (0)
#define BITS(key, what, got, want) do { unsigned long long got__ = (unsigned long long)(got), want__ = (unsigned long long)(want); s->checks++; if (got__ != want__) c39_bits(key, what, UNIT, got__, want__); } while (0)
/* every shape of operand; a..d are small */
#define SHAPES(X, ...) X(a, __VA_ARGS__) X(-a, __VA_ARGS__) X(!b, __VA_ARGS__) X(~a, __VA_ARGS__) X(a + b, __VA_ARGS__) X(a - b, __VA_ARGS__) X(a * 3, __VA_ARGS__) X(a % 7, __VA_ARGS__) X(a & b, __VA_ARGS__) X(a | b, __VA_ARGS__) X(a ^ b, __VA_ARGS__) X(a == c, __VA_ARGS__) X(a < b, __VA_ARGS__) X(a && b, __VA_ARGS__) X(a || c, __VA_ARGS__) X(d ? a : b, __VA_ARGS__) X(a > b ? c : d, __VA_ARGS__) X(a >> 1, __VA_ARGS__) X((a, b), __VA_ARGS__)
#define SHAPES2(X, ...) X(c, __VA_ARGS__) X(-c, __VA_ARGS__) X(c + d, __VA_ARGS__) X(c - d, __VA_ARGS__) X(c & d, __VA_ARGS__) X(c | d, __VA_ARGS__) X(c != d, __VA_ARGS__) X(c <= a, __VA_ARGS__) X(a ? c : d, __VA_ARGS__) X(c ^ a, __VA_ARGS__) X(!c || d, __VA_ARGS__)
/* the value of M(...) alone and as an operand */
#define PLACES(key, text, M, w) CHK(key, text, M, w); CHK(key, "-" text, - M, -(w)); CHK(key, "!" text, ! M, !(w)); CHK(key, "3 * " text, 3 * M, 3 * (w)); CHK(key, text " * 3", M * 3, (w) * 3); CHK(key, "10 - " text " - 1", 10 - M - 1, 10 - (w) - 1); CHK(key, text " == 2", M == 2, (w) == 2); CHK(key, "(1 ? " text " : 7)", (1 ? M : 7), w); CHK(key, text " & 12", M & 12, (w) & 12);
#define FEW(key, text, M, w) CHK(key, "10 - " text " * 3", 10 - M * 3, 10 - (w) * 3); CHK(key, text " == 2", M == 2, (w) == 2); CHK(key, "-" text, - M, -(w));
#define IABS(e, T) { T v_ = (e), w_ = v_ < 0 ? -v_ : v_; PLACES("abs", "ABS(" #e ")", ABS(e), w_) }
#define ISIGN(e, T) { T v_ = (e); PLACES("is-signed", "ZT_INT_IS_SIGNED(" #e ")", ZT_INT_IS_SIGNED(e), (v_ < 0 ? 1 : 0)) }
#define TWO(e2, e1) { int x_ = (e1), y_ = (e2), w_; w_ = x_ > y_ ? x_ : y_; FEW("max", "MAX(" #e1 ", " #e2 ")", MAX(e1, e2), w_) w_ = x_ < y_ ? x_ : y_; FEW("min", "MIN(" #e1 ", " #e2 ")", MIN(e1, e2), w_) \
    CHK("ceiling", "CEILING(" #e1 ", " #e2 ")", 3 * CEILING(e1, e2), 3 * w_); w_ = x_ < y_ ? y_ : x_; CHK("floor", "FLOOR(" #e1 ", " #e2 ")", 3 * FLOOR(e1, e2), 3 * w_); \
    CHK("same-sign", "ZT_INT_SAME_SIGN(" #e1 ", " #e2 ")", 1 + ZT_INT_SAME_SIGN(e1, e2), 1 + ((x_ < 0) == (y_ < 0))); \
    if (x_ <= y_) { int k_ = b; w_ = k_ < x_ ? x_ : k_ > y_ ? y_ : k_; CHK("clamp", "CLAMP(b, " #e1 ", " #e2 ")", 3 * CLAMP(b, e1, e2), 3 * w_); w_ = (k_ | d) < x_ ? x_ : (k_ | d) > y_ ? y_ : (k_ | d); CHK("clamp", "CLAMP(b | d, " #e1 ", " #e2 ")", - CLAMP(b | d, e1, e2), -w_); w_ = (d ? k_ : c) < x_ ? x_ : (d ? k_ : c) > y_ ? y_ : (d ? k_ : c); CHK("clamp", "CLAMP(d ? b : c, " #e1 ", " #e2 ")", 2 * CLAMP(d ? b : c, e1, e2), 2 * w_); } }
#define TWOS(e, x) SHAPES2(TWO, e)
static void numbers(struct c39 *s) { int a = s->a, b = s->b, c = s->c, d = s->d; long la = s->a * 1000003L, lb = s->b * 77777L; double da = s->a / 7.0, db = s->b / 3.0; unsigned ua = (unsigned)(s->a < 0 ? -s->a : s->a), ub = (unsigned)(s->b < 0 ? -s->b : s->b);
    SHAPES(IABS, int) SHAPES(ISIGN, int)
    CHK("abs", "ABS(long)", ABS(la - lb), la > lb ? la - lb : lb - la); CHK("abs", "ABS(double)", ABS(da - db), da > db ? da - db : db - da); CHK("abs", "ABS(d ? double : double)", 2 * ABS(d ? da : db), 2 * ((d ? da : db) < 0 ? -(d ? da : db) : (d ? da : db)));
    CHK("max", "MAX(double)", MAX(da + db, da - db), db > 0 ? da + db : da - db); CHK("min", "MIN(double)", MIN(da, db), da < db ? da : db); CHK("min", "MIN(unsigned)", MIN(ua ^ ub, ua & 3), (ua ^ ub) < (ua & 3) ? (ua ^ ub) : (ua & 3)); CHK("max", "MAX(long)", MAX(la, lb), la > lb ? la : lb); CHK("clamp", "CLAMP(double)", CLAMP(da, -1.5, 2.5), da < -1.5 ? -1.5 : da > 2.5 ? 2.5 : da); CHK("clamp", "CLAMP(long)", CLAMP(la | 1, lb < 0 ? lb : -lb, 5L), (la | 1) > 5 ? 5 : (la | 1) < (lb < 0 ? lb : -lb) ? (lb < 0 ? lb : -lb) : (la | 1)); }
static void pairs1(struct c39 *s) { int a = s->a, b = s->b, c = s->c, d = s->d; switch (s->n % 3) { case 0: TWOS(a, 0) TWOS(-a, 0) TWOS(a & b, 0) TWOS(d ? a : b, 0) break; case 1: TWOS(a + b, 0) TWOS(a | b, 0) TWOS(a == c, 0) TWOS(a >> 1, 0) break; case 2: TWOS(a - b, 0) TWOS(a > b ? c : d, 0) TWOS(a ^ b, 0) TWOS(a && b, 0) break; } }
/* columns */
static int columns(const char *fmt, int w, const char *e) { char t[4000]; return snprintf(t, sizeof t, fmt, w, e); }
#define COL(e, ...) { int v_ = (e); if (v_ >= 0 && v_ < 200) { CHK("indent", "INDENT(" #e ")", columns(BLANK, INDENT(e)), v_ * 5); CHK("indent", "INDENT_PAD(" #e ", 1 + d, 2)", columns(BLANK, INDENT_PAD(e, 1 + (d & 3), 2)), v_ * (1 + (d & 3)) + 2); CHK("indent", "INDENT_PAD(2, 3 + step, 1)", columns(BLANK, INDENT_PAD(2, 3 + (d & 3), 1)), 2 * (3 + (d & 3)) + 1); CHK("indent", "INDENT_PAD(2, d ? 3 : 4, 1)", columns(BLANK, INDENT_PAD(2, d ? 3 : 4, 1)), 2 * (d ? 3 : 4) + 1); CHK("indent", "INDENT_PAD(2, 3, " #e ")", columns(BLANK, INDENT_PAD(2, 3, e)), 6 + v_); \
    CHK("indent-to", "INDENT_TO(" #e ", 3, 0)", columns(BLANK, INDENT_TO(e, 3, 0)), v_); CHK("indent-to", "INDENT_TO(200, 1 + d, " #e ")", columns(BLANK, INDENT_TO(200, 1 + (d & 3), e)), 200 - v_); CHK("indent-to", "INDENT_TO(" #e ", d ? 3 : 4, -1)", columns(BLANK, INDENT_TO(e, d ? 3 : 4, -1)), v_ + 1); CHK("indent-to", "INDENT_TO(200 | 1, 2 | 1, " #e ")", columns(BLANK, INDENT_TO(200 | 1, 2 | 1, e)), 201 - v_); } }
static void indents(struct c39 *s) { int a = s->a, b = s->b, c = s->c, d = s->d; SHAPES(COL, 0) }
/* bits */
#define BIT(m_, T) { T t_ = (T)s->t, k_ = t_; uint64_t v_ = (m_); struct { T x; T y[3]; } r_; T *p_ = &r_.y[1]; T q_; unsigned ix_ = s->n % 3; \
    q_ = ZT_BIT_SET(k_, m_); BITS("bit-set", "ZT_BIT_SET(" #T ", " #m_ ")", k_, (T)(t_ | v_)); BITS("bit-set", "the value of ZT_BIT_SET", q_, k_); k_ = t_; q_ = ZT_BIT_UNSET(k_, m_); BITS("bit-unset", "ZT_BIT_UNSET(" #T ", " #m_ ")", k_, (T)(t_ & ~v_)); BITS("bit-unset", "the value of ZT_BIT_UNSET", q_, k_); \
    CHK("bit-isset", "ZT_BIT_ISSET(" #T ", " #m_ ")", ZT_BIT_ISSET(t_, m_) + 1, ((t_ & v_) != 0) + 1); CHK("bit-isunset", "ZT_BIT_ISUNSET(" #T ", " #m_ ")", 2 * ZT_BIT_ISUNSET(t_, m_), 2 * ((t_ & v_) == 0)); CHK("bit-isset", "!ZT_BIT_ISSET", !ZT_BIT_ISSET(t_ ^ t_, m_), 1); \
    *p_ = t_; ZT_BIT_SET(*p_, m_); BITS("bit-set", "ZT_BIT_SET(*p, " #m_ ")", *p_, (T)(t_ | v_)); r_.x = t_; ZT_BIT_UNSET(r_.x, m_); BITS("bit-unset", "ZT_BIT_UNSET(r.x, " #m_ ")", r_.x, (T)(t_ & ~v_)); r_.y[ix_] = t_; ZT_BIT_UNSET(r_.y[ix_++], m_); BITS("bit-unset", "ZT_BIT_UNSET(r.y[i++], " #m_ ")", r_.y[ix_ - 1], (T)(t_ & ~v_)); CHK("bit-unset", "how often i++ is done", ix_, s->n % 3 + 1); \
    k_ = t_; if (s->yes) ZT_BIT_SET(k_, m_); else ZT_BIT_UNSET(k_, m_); BITS("bit-branch", "if (c) ZT_BIT_SET(" #T ", " #m_ "); else ZT_BIT_UNSET", k_, s->yes ? (T)(t_ | v_) : (T)(t_ & ~v_)); }
#define BITSOF(T) BIT(m, T) BIT(m | n, T) BIT(m & n, T) BIT(m ^ n, T) BIT(d ? m : n, T) BIT(m + 1u, T) BIT(1 << i, T) BIT(1u << j, T) BIT(~m, T) BIT(u, T) BIT(u | m, T) BIT(d == 0 ? u : t, T) BIT((uint64_t)1 << k, T) BIT(n << 2, T)
static void bits(struct c39 *s) { unsigned m = s->m, n = s->n, i = s->n % 31, j = s->m % 32, k = (s->m ^ s->n) % 64; uint64_t u = s->u, t = s->t; int d = s->d; switch (s->checks % 4) { case 0: BITSOF(uint8_t) break; case 1: BITSOF(uint16_t) break; case 2: BITSOF(uint32_t) break; case 3: BITSOF(uint64_t) break; } }
/* places in memory */
struct c39_in { char x; int y[5]; struct { short p, q; } z; zt_elist_t l; zt_rbt_node n; };
static void places(struct c39 *s) { struct c39_in v[3], *p = v, **pp = &p, *q; int i = (int)(s->n % 3), d = s->d, arr[4][7], (*row)[7] = arr, k = 0; double da[9]; struct { struct c39_in *e; int sub[6]; } h; int *m, want; struct timeval x = {1, 2}, y = {3, 4}, z;
    memset(v, 0, sizeof v); memset(arr, 0, sizeof arr); h.e = v;
    CHK("containerof", "int in an array", zt_containerof(&v[i].y[3], struct c39_in, y[3]) - v, i); CHK("containerof", "a member of a member", zt_containerof(&(p + i)->z.q, struct c39_in, z.q) - v, i); m = v[i].y; CHK("containerof", "pointer + 1", zt_containerof(m + 1, struct c39_in, y[1]) - v, i); CHK("containerof", "d ? p : q", zt_containerof(d ? &v[1].x : &v[2].x, struct c39_in, x) - v, d ? 1 : 2); m = v[i].y; CHK("containerof", "p++", zt_containerof(m++, struct c39_in, y) - v, i); CHK("containerof", "p++ once", m - v[i].y, 1); zt_containerof(&v[i].l, struct c39_in, l)->y[0] = 77; CHK("containerof", "->", v[i].y[0], 77); CHK("containerof", "list data", zt_elist_data(&v[i].l, struct c39_in, l) - v, i); CHK("containerof", "tree data", zt_rbt_data(d ? &v[1].n : &v[0].n, struct c39_in, n) - v, d ? 1 : 0);
    CHK("offsetof", "first", zt_offsetof(struct c39_in, x), 0); CHK("offsetof", "array member", zt_offsetof(struct c39_in, y[2]) - zt_offsetof(struct c39_in, y), 2 * sizeof(int)); CHK("offsetof", "member of a member", zt_offsetof(struct c39_in, z.q) - zt_offsetof(struct c39_in, z), sizeof(short)); CHK("offsetof", "times", 2 * zt_offsetof(struct c39_in, l), 2 * ((char *)&v->l - (char *)v));
    CHK("sizeof-array", "int[4][7]", sizeof_array(arr), 4); CHK("sizeof-array", "row", sizeof_array(arr[1]), 7); CHK("sizeof-array", "*row", sizeof_array(*row), 7); CHK("sizeof-array", "double", 2 * sizeof_array(da), 18); CHK("sizeof-array", "h.sub", 60 / sizeof_array(h.sub), 10); CHK("sizeof-array", "p->y", sizeof_array((*pp)->y), 5); CHK("sizeof-array", "text", sizeof_array("12345"), 6); CHK("endof-array", "da", endof_array(da) - da, 9); CHK("endof-array", "h.sub", endof_array(h.sub) - 1 - h.sub, 5); for (m = arr[2]; m < endof_array(arr[2]); m++) k++; CHK("endof-array", "loop", k, 7);
    if (s->yes) zt_copy_timeval(d ? &x : &y, &z); else zt_copy_timeval(&z, d ? &x : &y); want = d ? 1 : 3; if (!s->yes) { CHK("copy-timeval", "z.tv_sec", z.tv_sec, want); CHK("copy-timeval", "z.tv_usec", z.tv_usec, want + 1); } q = v; (void)q; }
/* memory */
struct c39_blk { char *c; int *i; struct c39_in *r; };
static void memory(struct c39 *s) { struct c39_blk b, *bp = &b, **bpp = &bp; unsigned n = s->n % 50, m = s->m % 20, j, k = 0, d = s->d != 0; int *arr[3], *keep; unsigned char *u; memset(&b, 0, sizeof b);
    b.i = zt_malloc(int, n + m + 1); for (j = 0; j < n + m + 1; j++) b.i[j] = (int)j; b.i = zt_realloc(int, d ? b.i : (*bpp)->i, d ? n + m + 9 : n + m + 3); for (j = 0; j < n + m + 1; j++) CHK("realloc", "kept", b.i[j], j); b.i[n + m + 2] = 1; b.r = zt_calloc(struct c39_in, d ? n + 1 : m + 1); for (u = (unsigned char *)b.r, j = 0; j < (d ? n + 1 : m + 1) * sizeof *b.r; j++) k |= u[j]; CHK("calloc", "zero", k, 0); (*bpp)->c = (char *)zt_callocs(n + 1, m + 2); for (k = 0, j = 0; j < (n + 1) * (m + 2); j++) k |= (unsigned char)b.c[j]; CHK("callocs", "zero", k, 0); for (j = 0; j < 3; j++) arr[j] = (int *)zt_mallocs(sizeof(int), j + n + 1), arr[j][j + n] = (int)j;
    if (d) zt_free((*bpp)->c); else zt_free(bp->r); CHK("free", "the freed one", (d ? (void *)b.c : (void *)b.r) == NULL, 1); CHK("free", "the other", (d ? (void *)b.r : (void *)b.c) != NULL, 1); if (!d) zt_free(b.c); else zt_free((**bpp).r); CHK("free", "both", b.c == NULL && b.r == NULL, 1); keep = arr[1]; (void)keep; for (j = 0; j < 3; j++) zt_free(arr[j]); for (j = 0, k = 0; j < 3; j++) k += arr[j] == NULL; CHK("free", "a loop", k, 3); zt_free(*(d ? &bp->i : &(*bpp)->i)); CHK("free", "*(d ? ..)", b.i == NULL, 1); zt_free(b.i); }
/* text */
#define F1 f1
#define F2 f2
static char trail[64]; static void f1(int x) { size_t l = strlen(trail); snprintf(trail + l, sizeof trail - l, "<%d", x); } static void f2(int x) { size_t l = strlen(trail); snprintf(trail + l, sizeof trail - l, ">%d", x); }
static void texts(struct c39 *s) { int a = s->a, ab = 5, abc = 9; trail[0] = 0; MACRO_EVAL_1((MACRO_APPLY, F1, F2, (a);) (MACRO_APPLY, F1, F2, (a + 1);) (MACRO_APPLY_STOP, F1, F2, (7);)); { char w[64]; snprintf(w, sizeof w, "<%d<%d<7", a, a + 1); CHK("macro-eval", "MACRO_EVAL_1", strcmp(trail, w), 0); trail[0] = 0; MACRO_EVAL_2((MACRO_APPLY, F1, F2, (1);) (MACRO_APPLY, F1, F2, (2);) (MACRO_APPLY, F1, F2, (3);) (MACRO_APPLY_STOP, F1, F2, (a);)); snprintf(w, sizeof w, ">1>2>3>%d", a); CHK("macro-eval", "MACRO_EVAL_2", strcmp(trail, w), 0); }
    CHK("str", "ZT_STR", strcmp(ZT_STR(a + "b"), "a + \"b\""), 0); CHK("conc", "ZT_CONC", ZT_CONC(a, b), ab); CHK("conc", "ZT_CONC3", ZT_CONC3(a, b, c), abc); CHK("conc", "number", ZT_CONC(1, 2) + 1, 13); CHK("newline", "NL", strcmp(NL, "\n"), 0); }
/* walks */
static void walks(struct c39 *s) { zt_elist(h1); zt_queue(h2); zt_stack(h3); zt_elist_t h4 = zt_elist_init(h4), *p, *nx; struct c39_in v[6]; int i, k = 0, d = s->d, ins = 1 + (int)(s->n % 6); struct { zt_elist_t l; } holder, *hp = &holder; zt_rbt_node nodes[3], *root = NULL, *t = NULL, *tn; zt_rbt rn, *e = &rn;
    CHK("elist-init", "empty", zt_elist_empty(&h1) && zt_queue_empty(&h2) && zt_stack_empty(&h3) && zt_elist_empty(&h4), 1); memset(&rn, 0, sizeof rn); CHK("rbt-empty", "empty", zt_rbt_left(e) == NULL && zt_rbt_right(e) == NULL && zt_rbt_parent(e) == NULL && zt_rbt_empty(d ? e : &rn), 1);
    if (d) zt_elist_reset(&holder.l); else zt_elist_reset(&hp->l); for (i = 0; i < ins; i++) { v[i].y[0] = i; zt_elist_add_tail(s->yes ? &h1 : &hp->l, &v[i].l); }
    if (d) zt_elist_for_each(s->yes ? &h1 : &hp->l, p) k += 1 + zt_elist_data(p, struct c39_in, l)->y[0]; else k = -1; CHK("elist-walk", "if (d) for_each ..; else", k, d ? ins * (ins + 1) / 2 : -1); k = 0; zt_elist_for_each(&hp->l, p) k++; CHK("elist-walk", "one list", k, s->yes ? 0 : ins); k = 0; zt_elist_for_each(s->yes ? &h1 : &hp->l, p) { if (zt_elist_data(p, struct c39_in, l)->y[0] == 1) continue; if (zt_elist_data(p, struct c39_in, l)->y[0] == 4) break; k++; } CHK("elist-walk", "continue and break", k, ins == 1 ? 1 : ins < 5 ? ins - 1 : 3);
    CHK("elist-next", "first", zt_elist_data(zt_elist_get_next(s->yes ? &h1 : &hp->l), struct c39_in, l)->y[0], 0); CHK("elist-next", "last", zt_elist_data(zt_elist_get_prev(s->yes ? &h1 : &hp->l), struct c39_in, l)->y[0], ins - 1); k = 0; if (!d) k = -1; else zt_elist_for_each_safe(s->yes ? &h1 : &hp->l, p, nx) { zt_elist_remove(p); memset(p, 0x5a, sizeof *p); k++; } CHK("elist-walk-safe", "removing", k, d ? ins : -1); if (d) CHK("elist-walk-safe", "empty", zt_elist_empty(s->yes ? &h1 : &holder.l), 1);
    memset(nodes, 0, sizeof nodes); nodes[0].left = &nodes[1]; nodes[0].right = &nodes[2]; nodes[1].parent = nodes[2].parent = &nodes[0]; CHK("rbt-fields", "left and right", zt_rbt_left(d ? nodes : nodes + 1) == (d ? &nodes[1] : NULL) && zt_rbt_right(d ? nodes : nodes + 2) == (d ? &nodes[2] : NULL) && zt_rbt_parent(d ? nodes + 1 : nodes) == (d ? nodes : NULL), 1); zt_rbt_parent(d ? nodes + 1 : nodes + 2) = NULL; CHK("rbt-fields", "parent", nodes[d ? 1 : 2].parent == NULL && nodes[d ? 2 : 1].parent == nodes, 1); (void)root; (void)t; (void)tn; }
static int c39_cmp(zt_rbt_node *x, zt_rbt_node *y) { int i = zt_rbt_data(x, struct c39_in, n)->y[0], j = zt_rbt_data(y, struct c39_in, n)->y[0]; return i < j ? -1 : i > j; }
static void trees(struct c39 *s) { struct c39_in v[9]; zt_rbt *r1 = NULL, *r2 = NULL, *x, *nx; int i, n = 1 + (int)(s->n % 9), k = 0, d = s->d; memset(v, 0, sizeof v); for (i = 0; i < n; i++) { v[i].y[0] = (i * 5) % n; if (n % 5 == 0) v[i].y[0] = i; zt_rbt_insert(s->yes ? &r1 : &r2, &v[i].n, c39_cmp); }
    if (d) zt_rbt_for_each(s->yes ? &r1 : &r2, x) k = k * 3 + zt_rbt_data(x, struct c39_in, n)->y[0]; else k = -1; { int w = 0; for (i = 0; i < n; i++) w = w * 3 + i; CHK("rbt-walk", "if (d) for_each ..; else", k, d ? w : -1); } CHK("rbt-minmax", "min", zt_rbt_data(zt_rbt_min(s->yes ? &r1 : &r2), struct c39_in, n)->y[0], 0); CHK("rbt-minmax", "max", zt_rbt_data(zt_rbt_max(s->yes ? &r1 : &r2), struct c39_in, n)->y[0], n - 1); k = 0; if (!d) k = -1; else zt_rbt_for_each_safe(s->yes ? &r1 : &r2, x, nx) { zt_rbt_remove(s->yes ? &r1 : &r2, x); memset(x, 0x5a, sizeof *x); k++; } CHK("rbt-walk-safe", "removing", k, d ? n : -1); k = 0; zt_rbt_for_each(d ? &r1 : s->yes ? &r2 : &r1, x) k++; CHK("rbt-walk", "empty", k, 0); }
/* hash folding */
#define FOLD(name, M, w) { uint32_t h_ = s->m, a_[2] = {0, s->m}, *p_ = &h_, v_; int i_ = 1; v_ = M(*p_) + 1u; BITS("hash-mask", name, h_, w); BITS("hash-mask", "the value of " name, v_, (uint32_t)((w) + 1u)); if (s->yes) M(a_[i_]); else i_ = 0; BITS("hash-mask", "if (c) " name, a_[1], s->yes ? (w) : s->m); BITS("hash-mask", "nothing else", a_[0], 0); }
static void folds(struct c39 *s) { uint32_t h = s->m; int a = 1 + (int)(s->n % 12), b = 1 + (int)(s->t % 12), d = s->d; uint32_t hs[2]; FOLD("ZT_HASH24_MASK", ZT_HASH24_MASK, (h >> 24) ^ (h & 0xffffff)) FOLD("ZT_HASH16_MASK", ZT_HASH16_MASK, (h >> 16) ^ (h & 0xffff)) FOLD("ZT_HASH8_MASK", ZT_HASH8_MASK, ((h >> 8) ^ h) & 255) FOLD("ZT_HASH4_MASK", ZT_HASH4_MASK, ((h >> 4) ^ h) & 15)
    BITS("hash-mask", "ZT_HASH_MASK(a + b)", ZT_HASH_MASK(a + b), ((uint64_t)1 << (a + b)) - 1); BITS("hash-mask", "2 * ZT_HASH_MASK(d ? a : b)", 2 * ZT_HASH_MASK(d ? a : b), 2 * (((uint64_t)1 << (d ? a : b)) - 1)); BITS("hash-mask", "~ZT_HASH_MASK(a | b)", ~ZT_HASH_MASK(a | b), (uint32_t)~(((uint64_t)1 << (a | b)) - 1)); { int x = a + b; uint32_t k = ((uint32_t)1 << x) - 1; hs[0] = hs[1] = h; if (1) ZT_HASH_SUB32_MASK(hs[d ? 1 : 0], a + b) BITS("hash-mask", "ZT_HASH_SUB32_MASK(a + b)", hs[d ? 1 : 0], x < 16 ? ((h >> x) ^ h) & k : (h >> x) ^ (h & k)); BITS("hash-mask", "the other one", hs[d ? 0 : 1], h); } }
/* coding */
static void code(struct c39 *s) { unsigned char in[40]; unsigned n = s->n % 33, i, d = s->d != 0; struct { const char *name; zt_base_definition_t *def; } K[6]; int k; for (i = 0; i < sizeof in; i++) in[i] = (unsigned char)(s->t >> (i % 8 * 8) ^ i * s->m); K[0].name = "base64"; K[0].def = zt_base64_rfc; K[1].name = "base64 without padding"; K[1].def = zt_base64_rfc_nopad; K[2].name = "base64 for URIs"; K[2].def = zt_base64_uri; K[3].name = "base32"; K[3].def = zt_base32_rfc; K[4].name = "base32 hex"; K[4].def = zt_base32_hex; K[5].name = "base16"; K[5].def = zt_base16_rfc;
    for (k = 0; k < 6; k++) { char want[100], got[100], *wp = want, *gp = got; size_t wl = sizeof want, gl = sizeof got; int wr, gr = -9; memset(want, '#', sizeof want); memset(got, '#', sizeof got); wr = zt_base_encode(K[k].def, in, n, (void **)&wp, &wl);
        switch (k) { case 0: gr = zt_base64_encode(d ? in : in + 0, n, (void **)&gp, &gl); break; case 1: gr = zt_base64_encode_nopad(in, d ? n : n + 0, (void **)&gp, &gl); break; case 2: gr = zt_base64_encode_uri(in, n, (void **)&gp, &gl); break; case 3: gr = zt_base32_encode(in, n, (void **)&gp, d ? &gl : &gl + 0); break; case 4: gr = zt_base32_encode_hex(in, n, (void **)&gp, &gl); break; case 5: gr = zt_base16_encode(in, n, (void **)&gp, &gl); break; } CHK("base-encode", K[k].name, gr == wr && gl == wl && !memcmp(got, want, sizeof got), 1);
        { char back[100], *bp = back; size_t bl = sizeof back; int r = -9; memset(back, '#', sizeof back); switch (k) { case 0: case 1: if (k == 1) continue; r = zt_base64_decode(got, gl, (void **)&bp, &bl); break; case 2: r = zt_base64_decode_uri(got, gl, (void **)&bp, &bl); break; case 3: r = zt_base32_decode(got, gl, (void **)&bp, &bl); break; case 4: r = zt_base32_decode_hex(got, gl, (void **)&bp, &bl); break; case 5: r = zt_base16_decode(got, gl, (void **)&bp, &bl); break; } CHK("base-decode", K[k].name, r == 0 && bl == n && !memcmp(back, in, n) && back[n] == '#', 1); } } }
/* reports: a condition in front governs all of the statement, each names its own line */
static int here; static long evals; static int ev1(int x) { evals++; return x; }
#define HERE (here = __LINE__)
static void expect(struct c39 *s, const char *key, const char *what, int lines, const char *text, int placed) { char got[1000], pos[300]; int n = c39_logged(got, sizeof got); CHK(key, what, n, lines); if (!lines) return; if (placed) snprintf(pos, sizeof pos, "%s: in ", text); else snprintf(pos, sizeof pos, "%s", text); CHK(key, what, strncmp(got, pos, strlen(pos)), 0); if (placed) { size_t l = strlen(got); snprintf(pos, sizeof pos, "body.inc:%d)", here); CHK(key, what, l >= strlen(pos) && !strcmp(got + l - strlen(pos), pos), 1); } else CHK(key, what, strlen(got), strlen(text)); }
static void vp(struct c39 *s, int how, const char *fmt, ...) { va_list ap; va_start(ap, fmt); switch (how) { case 0: HERE; if (s->yes) zt_log_dvprintf(s->d ? zt_log_err : zt_log_notice, fmt, ap); break; case 1: HERE; if (s->yes) zt_log_vprintf(zt_log_err, fmt, ap); break;
#ifdef ZT_LOG_XDEBUGV
    case 2: HERE; if (s->yes) ZT_LOG_XDEBUGV(fmt, ap); break;
#endif
    case 3: HERE; if (s->yes) ZT_LOG_NDEBUGV(fmt, ap); break; } va_end(ap); }
static void logs(struct c39 *s) { int y = s->yes, i, n = (int)(s->n % 4), d = s->d; const char *f; int l; const char *fn; char w[60]; c39_logged(w, sizeof w);
    HERE; if (y) zt_log_dprintf(zt_log_err, "one %d", s->a); snprintf(w, sizeof w, "one %d", s->a); expect(s, "dprintf", "if (c) zt_log_dprintf", y, w, 1);
    evals = 0; HERE; for (i = 0; i < n; i++) zt_log_dprintf(d ? zt_log_err : zt_log_crit, "two %d", ev1(i)); snprintf(w, sizeof w, "two %d", n - 1); expect(s, "dprintf", "for (..) zt_log_dprintf", n, w, 1); CHK("dprintf", "arguments once", evals, n);
    if (y) zt_log_printf(d ? zt_log_err : zt_log_crit, "three"); expect(s, "printf", "if (c) zt_log_printf", y, "three", 0); if (y) zt_log_strerror(zt_log_err, d ? ENOENT : EPERM, "four %s", "x"); expect(s, "strerror", "if (c) zt_log_strerror", y, d ? "four x: No such file or directory" : "four x: Operation not permitted", 0);
    HERE; if (y) ZT_LOG_WITH_DEBUG(zt_log_printf(zt_log_err, "five")); expect(s, "with-debug", "if (c) ZT_LOG_WITH_DEBUG", y, "five", 1); zt_log_printf(zt_log_err, "six"); expect(s, "with-debug", "after ZT_LOG_WITH_DEBUG", 1, "six", 0); ZT_LOG_WITH_DEBUG(s->checks++); zt_log_printf(zt_log_err, "seven"); expect(s, "with-debug", "after ZT_LOG_WITH_DEBUG of something silent", 1, "seven", 0); HERE; if (y) ZT_LOG_DEBUG_INFO(); zt_log_get_debug_info(&f, &l, &fn); CHK("debug-info", "if (c) ZT_LOG_DEBUG_INFO", f != NULL, y); if (y) { CHK("debug-info", "line", l, here); CHK("debug-info", "function", fn && !strcmp(fn, "logs"), 1); } if (1) ZT_LOG_DEBUG_RESET(); zt_log_get_debug_info(&f, &l, &fn); CHK("debug-info", "ZT_LOG_DEBUG_RESET", f == NULL, 1);
    vp(s, 0, "eight %d", d); snprintf(w, sizeof w, "eight %d", d); expect(s, "dvprintf", "if (c) zt_log_dvprintf", y, w, 1); vp(s, 1, "nine %d", d); snprintf(w, sizeof w, "nine %d", d); expect(s, "vprintf", "if (c) zt_log_vprintf", y, w, 0);
#ifdef DEBUG
#define XD 1
#else
#define XD 0
#endif
#ifndef NDEBUG
#define ND 1
#else
#define ND 0
#endif
    evals = 0; HERE; if (y) ZT_LOG_XDEBUG("ten %d", ev1(3)); expect(s, "xdebug", "if (c) ZT_LOG_XDEBUG", y && XD, "ten 3", 1); CHK("xdebug", "arguments", evals, y && XD); evals = 0; HERE; for (i = 0; i < n; i++) ZT_LOG_NDEBUG("eleven %d", ev1(i)); snprintf(w, sizeof w, "eleven %d", n - 1); expect(s, "ndebug", "for (..) ZT_LOG_NDEBUG", ND ? n : 0, w, 1); CHK("ndebug", "arguments", evals, ND ? n : 0);
#ifdef ZT_LOG_XDEBUGV
    vp(s, 2, "twelve %d", d); snprintf(w, sizeof w, "twelve %d", d); expect(s, "xdebugv", "if (c) ZT_LOG_XDEBUGV", y && XD, w, 1);
#else
    CHK("xdebugv", "ZT_LOG_XDEBUGV exists", 0, 1);
#endif
    vp(s, 3, "thirteen %d", d); snprintf(w, sizeof w, "thirteen %d", d); expect(s, "ndebugv", "if (c) ZT_LOG_NDEBUGV", y && ND, w, 1);
    i = 0; if (y) zt_assert_always(d ? s->checks >= 0 : 1); else i = 1; CHK("assert", "if (c) zt_assert_always ..; else", i, !y); i = 0; if (y) zt_assert(s->a | 1); else i = 1; CHK("assert", "if (c) zt_assert ..; else", i, !y); i = 0; if (y) zt_assert_nf((i = ND) | 1); else i = 7; CHK("assert", "if (c) zt_assert_nf ..; else", i, y ? ND : 7); expect(s, "assert", "nothing reported", 0, "", 0); }
/* waits */
static void waits(struct c39 *s) { long usec = s->n % 900, wait = s->m % 3000000, base = 1000 * (s->t % 5000), sec = (long)(s->u % 4); int d = s->d; usleep(base + usec); CHK("usleep", "usleep(base + usec)", c39_slept(), base + usec); if (s->yes) usleep(d ? base : usec); else usleep(wait); CHK("usleep", "if (c) usleep(d ? base : usec); else usleep(wait)", c39_slept(), s->yes ? d ? base : usec : wait); usleep(sec << 10); CHK("usleep", "usleep(sec << 10)", c39_slept(), sec << 10); usleep(usec); CHK("usleep", "usleep(usec)", c39_slept(), usec); usleep(base | 1); CHK("usleep", "usleep(base | 1)", c39_slept(), base | 1); }
/* test assertions */
static struct c39 *us;
struct c39_t { int which, want_ok; };
#define CASES(X) X(0, a & b, a & b) X(1, a | b, c) X(2, c, a | b) X(3, d ? a : b, c) X(4, c, d ? a : b) X(5, a ^ b, a) X(6, a && b, d) X(7, d, a || b) X(8, a + b, b + a) X(9, a < b, b > a) X(10, a == b, c == d) X(11, a != c, d) X(12, a << 1, a + a) X(13, a & 1, 1) X(14, 0, a & 2) X(15, d ? 1 : 0, d != 0)
#define EQCASE(i, x, y) case i: if (t->which & 64) ZT_UNIT_ASSERT_NOT_EQUAL(test, x, y); else ZT_UNIT_ASSERT_EQUAL(test, x, y); break;
#define EQWANT(i, x, y) case i: x_ = (x); y_ = (y); break;
static void eq_test(struct zt_unit_test *test, void *data) { struct c39_t *t = (struct c39_t *)data; int a = us->a & 7, b = us->b & 7, c = us->c & 7, d = us->d; switch (t->which & 63) { CASES(EQCASE) } }
static void units(struct c39 *s) { int a = s->a & 7, b = s->b & 7, c = s->c & 7, d = s->d, x_ = 0, y_ = 0; struct c39_t t; struct zt_unit *u; struct zt_unit_suite *su; struct zt_unit_test *ut; us = s; t.which = (int)(s->n % 16) | (s->yes ? 64 : 0); switch (t.which & 63) { CASES(EQWANT) } u = zt_unit_init(); if (s->a & 8) su = NULL; else if (s->a & 16) su = zt_unit_register_suite(u, "s", NULL, NULL, &t); else su = NULL; ut = zt_unit_register_test(su ? su : zt_unit_register_suite(u, "s", NULL, NULL, &t), "t", eq_test); zt_unit_run(u); CHK(s->yes ? "unit-not-equal" : "unit-equal", "the comparison", ut->success != 0, (x_ == y_) != !!s->yes); zt_unit_release(&u); }
static int c39_match(const void *x, size_t xl, const void *y, size_t yl, void *d) { (void)d; return xl == yl && !memcmp(x, y, xl); }
static void set_sizes(struct c39 *s) { zt_set *p = zt_set_init(c39_match, NULL, NULL), *q = zt_set_init(c39_match, NULL, NULL); static int key[3]; int d = s->d; zt_set_insert(p, &key[0], sizeof key[0]); CHK("set-size", "2 * zt_set_size(d ? p : q)", 2 * zt_set_size(d ? p : q), d ? 2 : 0); zt_set_destroy(p); zt_set_destroy(q); }
static void floats(struct c39 *s) { zt_random_state x, y; uint32_t k[2]; double g; memset(&x, 0, sizeof x); k[0] = s->m; k[1] = s->n; zt_random_initstate(&x, k, 2); memcpy(&y, &x, sizeof x); g = 3 / zt_random_float(s->d ? &x : &x) - 3 / (zt_random_uint32(&y) / 4294967295.0); CHK("random-float", "3 / zt_random_float", g > -1e-6 && g < 1e-6, 1); g = 3 - zt_random_float00(&x) - (3 - (zt_random_uint32(&y) + 0.5) / 4294967296.0); CHK("random-float", "zt_random_float00", g > -1e-9 && g < 1e-9, 1); g = 3 / (1 + zt_random_float10(&x)) - 3 / (1 + zt_random_uint32(&y) / 4294967296.0); CHK("random-float", "zt_random_float10", g > -1e-9 && g < 1e-9, 1); }
#ifdef __cplusplus
static void lengths(struct c39 *s) { zt_ptr_array *p = (zt_ptr_array *)zt_ptr_array_init(NULL, NULL); zt_ptr_array_add(p, s); CHK("ptr-array-length", "3 * length(p)", 3 * zt_ptr_array_length(p), 3); CHK("ptr-array-full", "!is_full(p)", !zt_ptr_array_is_full(p), 1); zt_ptr_array_free(p, 0); }
#else
static void lengths(struct c39 *s) { zt_ptr_array *p = zt_ptr_array_init(NULL, NULL), *q = zt_ptr_array_init(NULL, NULL); int i, n = (int)(s->n % 70), d = s->d, full; for (i = 0; i < n; i++) zt_ptr_array_add(p, s); for (i = 0; i < 3; i++) zt_ptr_array_add(q, s); CHK("ptr-array-length", "length(d ? p : q)", (long)(zt_ptr_array_length(d ? p : q)), d ? n : 3); full = p->count >= p->size; CHK("ptr-array-full", "is_full(d ? p : q)", (int)zt_ptr_array_is_full(d ? p : q), d ? full : 0); zt_ptr_array_free(p, 0); zt_ptr_array_free(q, 0); }
#endif
static void run(struct c39 *s, int what) { switch (what) { case 0: numbers(s); break; case 1: pairs1(s); break; case 2: indents(s); break; case 3: bits(s); break; case 4: places(s); break; case 5: memory(s); break; case 6: texts(s); break; case 7: walks(s); break; case 8: trees(s); break; case 9: folds(s); break; case 10: code(s); break; case 11: logs(s); break; case 12: waits(s); break; case 13: units(s); break; case 14: set_sizes(s); floats(s); break; case 15: lengths(s); break; } }
