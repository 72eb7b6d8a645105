/* C37: the workloads whose work is counted.  Compiled like the library: every basic block executed here, in the headers' inline
 * functions and in the library calls the counter; what libc processes is added by the interposed functions of c37_cost.cpp. */
#include <zt.h>
#include <libzt/zt_gc.h>
#include <libzt/zt_ipv4_tbl.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "c37.h"
typedef unsigned long ul;
static ul rnd(ul *s) { ul z = (*s += 0x9e3779b97f4a7c15UL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL; return z ^ (z >> 31); }
/* the i-th of n distinct values: ascending, descending, scattered, strided */
static ul val(long i, long n, int how, ul seed) { switch (how & 3) { case 0: return (ul)i + 1; case 1: return (ul)(n - i); case 2: return ((ul)i * 2654435761UL + seed) & 0xffffffffUL; default: return ((ul)i + 1) << (seed >> 20 & 1 ? 34 : 12); } }
static void *get(size_t n) { void *p = malloc(n ? n : 1); if (!p) c37_error("no memory"); return p; }
static char *text(long n, ul seed, const char *alpha) { char *s = get(n + 1); size_t l = strlen(alpha); long i; for (i = 0; i < n; i++) s[i] = alpha[rnd(&seed) % l]; s[n] = 0; return s; }

/* ---- tables */
static int each_cnt(void *k, size_t kl, void *d, size_t dl, void *p) { ++*(long *)p; return 0; }
enum { T_INT, T_STR, T_CASE, T_BUF };
static void table(long n, ul seed, int how, int kind) {
    int flags = (seed >> 8 & 1 ? ZT_TABLE_SIZE_USE_HINT : 0) | (seed >> 9 & 1 ? ZT_TABLE_ALLOW_DUP_KEYS : 0); char *names = get(n * 16); long i, k = 0; zt_table *t, *u;
    t = zt_table_init("t", kind == T_INT ? zt_table_hash_int : kind == T_BUF ? zt_table_hash_buff : zt_table_hash_string, kind == T_INT ? zt_table_compare_int : kind == T_BUF ? zt_table_compare_buff : kind == T_STR ? zt_table_compare_string : zt_table_compare_string_case, n, flags, NULL);
    for (i = 0; i < n; i++) { ul v = val(i, n, how, seed); char *c = names + i * 16; memset(c, 0, 16); if (kind == T_BUF) memcpy(c, &v, 8); else { int j; c[0] = 'k'; for (j = 1; v; v >>= 4, j++) c[j] = "0123456789abcdef"[v & 15]; } }
#define KEY(i) (kind == T_INT ? (void *)val(i, n, how, seed) : (void *)(names + (i) * 16))
#define LEN(i) (kind == T_INT ? ((how & 3) == 3 ? sizeof(long) : sizeof(int)) : kind == T_BUF ? 8 : strlen(names + (i) * 16))
    for (i = 0; i < n; i++) if (zt_table_set(t, KEY(i), LEN(i), names + i, 1) != 0) c37_wrong("table: refused");
    for (i = 0; i < n; i++) if (zt_table_get(t, KEY(i), LEN(i)) != names + i) c37_wrong("table: lost");
    if (!(flags & ZT_TABLE_ALLOW_DUP_KEYS)) for (i = 0; i < n; i++) if (zt_table_set(t, KEY(i), LEN(i), names, 1) != 1) c37_wrong("table: taken twice");
    zt_table_for_each(t, each_cnt, &k); if (k != n) c37_wrong("table: walk");
    u = zt_table_init("u", kind == T_INT ? zt_table_hash_int : kind == T_BUF ? zt_table_hash_buff : zt_table_hash_string, kind == T_INT ? zt_table_compare_int : kind == T_BUF ? zt_table_compare_buff : kind == T_STR ? zt_table_compare_string : zt_table_compare_string_case, n, 0, NULL);
    zt_table_copy(t, u); for (i = 0; i < n; i++) if (zt_table_get(u, KEY(i), LEN(i)) != names + i) c37_wrong("table: copy"); zt_table_destroy(u);
    for (i = 0; i < n; i += 2) if (zt_table_del(t, KEY(i), LEN(i)) != names + i) c37_wrong("table: delete");
    for (i = 0; i < n; i++) if (zt_table_get(t, KEY(i), LEN(i)) != (i & 1 ? names + i : NULL)) c37_wrong("table: after delete");
    for (i = 0; i < n; i += 2) if (zt_table_set(t, KEY(i), LEN(i), names + i, 1) != 0) c37_wrong("table: refill");
    zt_table_destroy(t); free(names);
}
static void o_table_int(long n, ul s, int h) { table(n, s, h, T_INT); }
static void o_table_str(long n, ul s, int h) { table(n, s, h, T_STR); }
static void o_table_case(long n, ul s, int h) { table(n, s, h, T_CASE); }
static void o_table_buf(long n, ul s, int h) { table(n, s, h, T_BUF); }
static void o_table_churn(long n, ul s, int h) { /* a small table used for long */
    static char d[64]; long i; zt_table *t = zt_table_init("c", zt_table_hash_int, zt_table_compare_int, 64, 0, NULL);
    for (i = 0; i < n; i++) { long k = i % 60 + 1; if (i >= 60 && zt_table_del(t, (void *)k, sizeof(int)) != d + i % 60) c37_wrong("table: churn"); if (zt_table_set(t, (void *)k, sizeof(int), d + i % 60, 1)) c37_wrong("table: churn set"); }
    zt_table_destroy(t); }
static void o_table_one(long n, ul s, int h) { /* the cost of single operations on a large table */
    long i; zt_table *t = zt_table_init("o", zt_table_hash_int, zt_table_compare_int, n, 0, NULL); static char d;
    for (i = 1; i <= n; i++) zt_table_set(t, (void *)i, sizeof(int), &d, 1);
    c37_go(); for (i = 0; i < 1000; i++) { long k = rnd(&s) % n + 1; if (zt_table_get(t, (void *)k, sizeof(int)) != &d || zt_table_del(t, (void *)k, sizeof(int)) != &d || zt_table_set(t, (void *)k, sizeof(int), &d, 1)) c37_wrong("table: one"); } c37_halt();
    zt_table_destroy(t); }
/* ---- sets: of bounded size */
static void o_set(long n, ul s, int h) { static int v[100]; long i; int k; for (k = 0; k < 100; k++) v[k] = k;
    for (i = 0; i < n / 100; i++) { zt_set *a = zt_set_init(zt_table_compare_buff, NULL, NULL), *b = zt_set_init(zt_table_compare_buff, NULL, NULL); for (k = 0; k < 100; k++) { zt_set_insert(a, &v[k], sizeof(int)); if (k & 1) zt_set_insert(b, &v[k], sizeof(int)); } if (!zt_set_is_subset(b, a) || zt_set_is_equal(a, b)) c37_wrong("set"); zt_set_destroy(a); zt_set_destroy(b); } }
/* ---- trees */
struct tn { zt_rbt_node node; ul v; };
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { ul x = zt_rbt_data(a, struct tn, node)->v, y = zt_rbt_data(b, struct tn, node)->v; return x < y ? -1 : x > y; }
static void o_tree(long n, ul s, int h) { struct tn *e = get(n * sizeof *e); zt_rbt_node *root = NULL, *x, *nx; long i, k = 0; ul last = 0;
    for (i = 0; i < n; i++) { e[i].v = val(i, n, h, s); if (zt_rbt_insert(&root, &e[i].node, tcmp)) c37_wrong("tree: insert"); }
    for (i = 0; i < n; i++) if (zt_rbt_find(&root, &e[i].node, tcmp) != &e[i].node || zt_rbt_nfind(&root, &e[i].node, tcmp) != &e[i].node) c37_wrong("tree: find");
    zt_rbt_for_each(&root, x) { struct tn *t = zt_rbt_data(x, struct tn, node); if (k++ && t->v <= last) c37_wrong("tree: order"); last = t->v; } if (k != n) c37_wrong("tree: walk");
    if (s >> 10 & 1) { for (i = 0; i < n; i++) zt_rbt_remove(&root, &e[(s >> 11 & 1) ? n - 1 - i : i].node); }
    else zt_rbt_for_each_safe(&root, x, nx) zt_rbt_remove(&root, x);
    if (root) c37_wrong("tree: left"); free(e); }
static void o_tree_one(long n, ul s, int h) { struct tn *e = get(n * sizeof *e), p; zt_rbt_node *root = NULL; long i; for (i = 0; i < n; i++) { e[i].v = val(i, n, h, s); zt_rbt_insert(&root, &e[i].node, tcmp); }
    for (i = 0; i < n / 2; i++) zt_rbt_remove(&root, &e[i].node);
    c37_go(); for (i = 0; i < 1000; i++) { struct tn *t = &e[n / 2 + rnd(&s) % (n - n / 2)]; if (zt_rbt_find(&root, &t->node, tcmp) != &t->node) c37_wrong("tree: one"); zt_rbt_remove(&root, &t->node); if (zt_rbt_insert(&root, &t->node, tcmp)) c37_wrong("tree: again"); if (!zt_rbt_min(&root) || !zt_rbt_max(&root)) c37_wrong("tree: ends"); p.v = rnd(&s); zt_rbt_nfind(&root, &p.node, tcmp); } c37_halt(); free(e); }
/* ---- lists, queues, stacks */
static void o_elist(long n, ul s, int h) { zt_elist_t *e = get(n * sizeof *e), a, b, *p, *q; long i, k; zt_elist_reset(&a); zt_elist_reset(&b); for (i = 0; i < n; i++) if (rnd(&s) & 1) zt_elist_add(&a, &e[i]); else zt_elist_add_tail(&b, &e[i]); zt_elist_join(&a, &b); zt_elist_reset(&b); k = 0; zt_elist_for_each(&a, p) k++; if (k != n) c37_wrong("list"); zt_elist_for_each_safe(&a, p, q) zt_elist_remove(p); if (!zt_elist_empty(&a)) c37_wrong("list: left"); free(e); }
static void o_join(long n, ul s, int h) { zt_elist_t *e = get(n * sizeof *e), a, b; long i; zt_elist_reset(&a); zt_elist_reset(&b); for (i = 0; i < n; i++) zt_elist_add(i & 1 ? &a : &b, &e[i]); c37_go(); zt_elist_join(&a, &b); zt_elist_empty(&a); zt_elist_remove(&e[n / 2]); zt_elist_add(&a, &e[n / 2]); c37_halt(); free(e); }
static void o_queue(long n, ul s, int h) { zt_queue_elt_t *e = get(n * sizeof *e), *x; zt_queue_t q; long i; zt_queue_reset(&q); for (i = 0; i < n; i++) zt_queue_enqueue(&q, &e[i]); for (i = 0; i < n; i++) if (zt_queue_peek(&q) != &e[i] || (x = zt_queue_dequeue(&q)) != &e[i]) c37_wrong("queue"); free(e); }
static void o_stack(long n, ul s, int h) { zt_stack_elt_t *e = get(n * sizeof *e); zt_stack_t q; long i; zt_stack_reset(&q); for (i = 0; i < n; i++) zt_stack_push(&q, &e[i]); while (i--) if (zt_stack_peek(&q) != &e[i] || zt_stack_pop(&q) != &e[i]) c37_wrong("stack"); free(e); }
static int gt(void *a, void *b) { return (ul)a > (ul)b; }
static zt_llist chain(long n, ul s, int h) { zt_llist l = NULL; long i; for (i = 0; i < n; i++) zt_llist_push((void *)val(i, n, h, s), &l); return l; }
static void o_llist(long n, ul s, int h) { zt_llist l = chain(n, s, h), r, t; long k = 0; r = zt_llist_reverse(l); l = zt_llist_nreverse(l); for (t = r; t; t = zt_llist_tail(t)) k++; if (k != n) c37_wrong("llist"); t = zt_llist_split(l); zt_llist_free(t); while (l) zt_llist_pop(&l); zt_llist_free(r); }
static void o_llist_sort(long n, ul s, int h) { zt_llist l = chain(n, s, h), p; ul last; l = zt_llist_sort(l, gt); for (p = l, last = 0; p; p = zt_llist_tail(p)) { if ((ul)zt_llist_head(p) < last) c37_wrong("llist: order"); last = (ul)zt_llist_head(p); } zt_llist_free(l); }
static void o_llist_merge(long n, ul s, int h) { zt_llist a = chain(n, s, 1), b = chain(n, s, 1), p; long k = 0; a = zt_llist_nmerge(a, b, gt); for (p = a; p; p = zt_llist_tail(p)) k++; if (k != 2 * n) c37_wrong("llist: merge"); zt_llist_free(a); }
/* ---- arrays */
static void o_array(long n, ul s, int h) { zt_array_t a = zt_array_new(n, 8), b; long i; for (i = 0; i < n; i++) { ul v = i ^ s; zt_array_put(a, i, &v); } b = zt_array_copy(a, n); for (i = 0; i < n; i++) if (*(ul *)zt_array_get(b, i) != ((ul)i ^ s)) c37_wrong("array"); zt_array_resize(a, 2 * n); zt_array_resize(a, n); zt_array_free(&a); zt_array_free(&b); }
static void o_array_one(long n, ul s, int h) { zt_array_t a = zt_array_new(n, 8); ul v = s; long i; c37_go(); for (i = 0; i < 1000; i++) { zt_array_put(a, rnd(&s) % n, &v); zt_array_get(a, rnd(&s) % n); zt_array_length(a); } c37_halt(); zt_array_free(&a); }
static void o_ptrs(long n, ul s, int h) { zt_ptr_array *a = zt_ptr_array_init(NULL, NULL), *b = zt_ptr_array_init(NULL, NULL); long i; char **d = get(n * sizeof *d); for (i = 0; i < n; i++) if (zt_ptr_array_add(a, (void *)(i + 1)) < 0) c37_wrong("pointers: add"); for (i = 0; i < n; i++) if (zt_ptr_array_get_idx(a, i) != (void *)(i + 1)) c37_wrong("pointers"); zt_ptr_array_cat(b, a); if (zt_ptr_array_length(b) != n) c37_wrong("pointers: cat"); zt_ptr_array_copy_data(a, d); free(d); zt_ptr_array_free(a, 0); zt_ptr_array_free(b, 0); }
static void o_ptrs_one(long n, ul s, int h) { zt_ptr_array *a = zt_ptr_array_init(NULL, NULL); long i; for (i = 0; i < n; i++) zt_ptr_array_add(a, (void *)(i + 1)); c37_go(); for (i = 0; i < 1000; i++) { long k = rnd(&s) % n; if (zt_ptr_array_get_idx(a, k) != (void *)(k + 1)) c37_wrong("pointers: one"); zt_ptr_array_move_idx_to_idx(a, k, k); zt_ptr_array_length(a); zt_ptr_array_is_full(a); } c37_halt(); zt_ptr_array_free(a, 0); }
/* ---- buffers and streams */
static void o_buf(long n, ul s, int h) { zt_buf_t *b = zt_buf_new(); char c[64], o[64]; long i, k = 0; for (i = 0; i < 64; i++) c[i] = (char)i; for (i = 0; i < n; i += 40) { zt_buf_add(b, c, 40); k += 40; } while (zt_buf_length(b)) { size_t g = zt_buf_remove(b, o, 1 + rnd(&s) % 64); k -= g; } if (k) c37_wrong("buffer"); zt_buf_free(b); }
static void o_buf_fifo(long n, ul s, int h) { /* a buffer used as a pipe for long */
    zt_buf_t *b = zt_buf_new(); char c[64], o[64]; long i; int in = 0, out = 0, k; for (i = 0; i < n; i += 32) { int w = 1 + rnd(&s) % 64; for (k = 0; k < w; k++) c[k] = (char)in++; zt_buf_add(b, c, w); if (zt_buf_length(b) > 400 || i + 64 > n) { int r = (int)zt_buf_remove(b, o, 64); for (k = 0; k < r; k++) if (o[k] != (char)out++) c37_wrong("buffer: pipe"); } if (zt_buf_length(b) > 800) { while (zt_buf_length(b) > 300) { int r = (int)zt_buf_remove(b, o, 64); for (k = 0; k < r; k++) if (o[k] != (char)out++) c37_wrong("buffer: pipe"); } } } zt_buf_free(b); }
static void o_buf_reserved(long n, ul s, int h) { zt_buf_t *b = zt_buf_new(); char c[64]; zt_iov_t v[3]; long i; memset(c, 1, sizeof c); for (i = 0; i < 3; i++) { v[i].iov_data = c; v[i].iov_len = 10 + i; } zt_buf_reserve(b, n + 64); for (i = 0; i + 33 < n; i += 33) zt_buf_iov_add(b, v, 3); zt_buf_drain(b, zt_buf_length(b) / 2); zt_buf_get(b); zt_buf_free(b); }
static void o_stream(long n, ul s, int h) { zt_bstream_t b = zt_bstream_new(), c; long i; uint8_t x; uint16_t y; uint32_t z; uint64_t w; double d; for (i = 0; i < n; i++) switch (i % 5) { case 0: zt_bstream_write_uint8(b, (uint8_t)i); break; case 1: zt_bstream_write_uint16(b, (uint16_t)i); break; case 2: zt_bstream_write_uint32(b, (uint32_t)i); break; case 3: zt_bstream_write_uint64(b, (uint64_t)i); break; default: zt_bstream_write_double(b, (double)i); }
    c = zt_bstream_clone(b); zt_bstream_rewind(c); for (i = 0; i < n; i++) { int ok; switch (i % 5) { case 0: zt_bstream_read_uint8(c, &x); ok = x == (uint8_t)i; break; case 1: zt_bstream_read_uint16(c, &y); ok = y == (uint16_t)i; break; case 2: zt_bstream_read_uint32(c, &z); ok = z == (uint32_t)i; break; case 3: zt_bstream_read_uint64(c, &w); ok = w == (uint64_t)i; break; default: zt_bstream_read_double(c, &d); ok = d == (double)i; } if (!ok) c37_wrong("stream"); } zt_bstream_free(&b); zt_bstream_free(&c); }
static void o_stream_one(long n, ul s, int h) { zt_bstream_t b = zt_bstream_new(); char *t = text(n, s, "abc"); long i; char c; zt_bstream_write(b, t, n, 1, 0); c37_go(); for (i = 0; i < 1000; i++) { zt_bstream_rewind(b); zt_bstream_read_byte(b, &c); zt_bstream_rewind(b); zt_bstream_write_byte(b, c); zt_bstream_is_empty(b); } c37_halt(); zt_bstream_free(&b); free(t); }
/* ---- encodings, digests, identifiers */
static void codec(zt_base_definition_t *d, long n, ul s) { char *t = text(n, s, "abcdefgh\1\377"); void *e = NULL, *o = NULL; size_t el = 0, ol = 0; if (zt_base_encode(d, t, n, &e, &el) || zt_base_decode(d, e, el, &o, &ol)) c37_wrong("encoding"); if (ol != (size_t)n || memcmp(o, t, n)) c37_wrong("decoding"); free(t); free(e); free(o); }
static void o_base(long n, ul s, int h) { zt_base_definition_t *d[6] = { zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc }; codec(d[s % 6], n, s); }
static void o_hex(long n, ul s, int h) { char *t = text(n, s, "ab\1\377"), *x = get(2 * n + 1), *o = get(n + 1); if (zt_binary_to_hex(t, n, x, 2 * n + 1) == 0 || zt_hex_to_binary(x, 2 * n, o, n) == 0 || memcmp(o, t, n)) c37_wrong("hex"); free(t); free(x); free(o); }
static void o_sha1(long n, ul s, int h) { char *t = text(n, s, "abcd"); uint8_t a[20], b[20]; zt_sha1_ctx c; long i, k; zt_sha1_data(t, n, a); zt_sha1_init(&c); for (i = 0; i < n; i += k) { k = 1 + rnd(&s) % 90; if (k > n - i) k = n - i; zt_sha1_update(&c, (uint8_t *)t + i, k); } zt_sha1_finalize(&c, b); if (memcmp(a, b, 20)) c37_wrong("sha1"); free(t); }
static void o_hash(long n, ul s, int h) { char *t = text(n, s, "abcd"); if (zt_hash32_buff(t, n, ZT_HASH32_INIT) != zt_hash32_cstr((uint8_t *)t, ZT_HASH32_INIT) || zt_hash64_buff(t, n, ZT_HASH64_INIT) != zt_hash64_cstr((uint8_t *)t, ZT_HASH64_INIT)) c37_wrong("hash"); free(t); }
static void o_random(long n, ul s, int h) { zt_random_state r; long i; uint32_t x = 0, *key = get(n * 4); zt_random_srandom(&r, (uint32_t)s); for (i = 0; i < n; i++) key[i] = x ^= zt_random_uint32(&r); zt_random_initstate(&r, key, n); zt_random_uint32(&r); free(key); }
static void o_uuid(long n, ul s, int h) { char *t = text(n, s, "abcd"), o[64]; zt_uuid_t u, v; size_t z; long i; zt_uuid5(t, n, UUID_NS_URL, &u); for (i = 0; i < n / 16; i++) { static int len[3] = { UUID_STR_LEN, UUID_SHORT_STR_LEN, UUID_BASE62_STR_LEN }; z = sizeof o; zt_uuid_fillstr(&u, o, &z, (zt_uuid_flags_t)(i % 3)); o[len[i % 3]] = 0; if (zt_uuid_fromstr(o, &v, (zt_uuid_flags_t)(i % 3)) != 0 || zt_uuid_cmp(&u, &v) != 0) c37_wrong("uuid"); u.data.bytes[i % 16]++; } free(t); }
/* ---- text */
static void o_cstr(long n, ul s, int h) { char *t = text(n, s, "abcdefgh "), *p, *q; t[n / 2] = 'X'; t[n - 1] = 'Y'; p = zt_cstr_sub(t, 0, -1); free(p); p = zt_cstr_cat(t, 0, -1, t, 0, -1); free(p); p = zt_cstr_catv(t, 0, -1, t, 0, -1, NULL); free(p); p = zt_cstr_reverse(t, 0, -1); q = zt_cstr_reverse(p, 0, -1); if (zt_cstr_cmp(t, 0, -1, q, 0, -1)) c37_wrong("text"); free(p); free(q); p = zt_cstr_map(t, 0, -1, "abcd", "ABCD"); free(p); p = zt_cstr_dup(t, 0, 100, n / 100); free(p);
    zt_cstr_pos(t, -1); zt_cstr_len(t, 0, -1); zt_cstr_chr(t, 0, -1, 'Y'); zt_cstr_rchr(t, 0, -1, 'X'); zt_cstr_upto(t, 0, -1, "YZ"); zt_cstr_rupto(t, 0, -1, "XZ"); zt_cstr_any(t, 0, -1, "X"); zt_cstr_rany(t, 0, -1, "X"); zt_cstr_find(t, 0, -1, "XYZ"); zt_cstr_rfind(t, 0, -1, "XYZ"); zt_cstr_find(t, 0, -1, "hgfedcbaX"); zt_cstr_rspn(t, "Yabcdefgh "); zt_cstr_rcspn(t, "X"); p = get(n + 1); zt_cstr_copy(t, 0, -1, p, n + 1); zt_cstr_basename(p, n + 1, t, NULL); zt_cstr_dirname(p, n + 1, t); free(p); p = zt_cstr_path_append(t, t); free(p); zt_cstr_abspath(t); zt_cstr_strip(t); zt_cstr_chomp(t); free(t); }
static void o_strip(long n, ul s, int h) { char *t = get(n + 1); long i; for (i = 0; i < n; i++) t[i] = " \t\n"[rnd(&s) % 3]; t[n] = 0; t[n / 2] = 'x'; zt_cstr_strip(t); free(t); t = get(n + 1); for (i = 0; i < n; i++) t[i] = i < n / 2 ? 'a' : (s & 1 ? '\n' : '\r'); t[n] = 0; zt_cstr_chomp(t); free(t); }
static void o_dirs(long n, ul s, int h) { char *t = get(n + 1), *o = get(n + 1); long i; for (i = 0; i < n; i++) t[i] = i % 9 == 8 || i > n / 2 ? '/' : 'd'; t[n] = 0; zt_cstr_dirname(o, n + 1, t); zt_cstr_basename(o, n + 1, t, "dd"); free(t); free(o); }
static void o_split(long n, ul s, int h) { char *t = text(n, s, "abcdefghijklmno,;"); zt_ptr_array *a; a = zt_cstr_split(t, ",;"); zt_cstr_split_free(a); free(t); }
static void o_cut(long n, ul s, int h) { char *t = text(n, s, "abcd"); zt_ptr_array *a; int k; for (k = 1; k < 20; k++) t[n / 20 * k] = ';'; a = zt_cstr_cut(t, ';', (int)(s >> 9 & 1)); if (zt_ptr_array_length(a) != 19) c37_wrong("cut"); zt_cstr_cut_free(a); a = zt_cstr_tok(t, ';', (int)(s >> 10 & 1)); if (zt_ptr_array_length(a) != 20) c37_wrong("tok"); zt_cstr_cut_free(a); free(t); }
static int lines(void *c, size_t a, char *x, char *t) { ++*(long *)c; return 0; }
static int nextch(void *p) { long *k = p; return *k ? (int)((*k)-- & 127) : EOF; }
static void o_dump(long n, ul s, int h) { char *t = text(n, s, "abc\1\377"); long k = 0, left = n; zt_hexdump_str(t, n, lines, &k); if (k < n / 16) c37_wrong("dump"); k = 0; zt_hexdump(nextch, &left, lines, &k); if (k < n / 16) c37_wrong("dump2"); free(t); }
static int sink(int c, void *p) { ++*(long *)p; return c; }
static void o_format(long n, ul s, int h) { char *t = text(n, s, "abc"), *p, *f = get(3 * n + 1), *o; long i, k = 0; for (i = 0; i < n / 4; i++) memcpy(f + 8 * i, "%%ab%%cd", 8); f[8 * (n / 4)] = 0; p = zt_fmt_strprintf("%s|%*d", t, (int)n, 7); if ((long)strlen(p) != 2 * n + 1) c37_wrong("format"); free(p); zt_fmt_format(sink, &k, f); if (k != 6 * (n / 4)) c37_wrong("format2"); o = get(n + 10); zt_fmt_sprintf(o, n + 10, "%s", t); p = zt_fmt_strprintf(f); if ((long)strlen(p) != 6 * (n / 4)) c37_wrong("format3"); free(p); free(o); free(t); free(f); }
/* ---- memory */
static void o_pool(long n, ul s, int h) { zt_mem_pool *p = zt_mem_pool_init("c37", s >> 12 & 1 ? n : 4, 8 + (s >> 16) % 200, NULL, NULL, s >> 13 & 1 ? POOL_NEVER_FREE : 0); void **e = get(n * sizeof *e); long i; for (i = 0; i < n; i++) e[i] = zt_mem_pool_alloc(p); switch (h & 3) { case 0: for (i = 0; i < n; i++) zt_mem_pool_release(&e[i]); break; case 1: for (i = n; i--; ) zt_mem_pool_release(&e[i]); break; default: for (i = n; --i > 0; ) { long j = rnd(&s) % (i + 1); void *x = e[i]; e[i] = e[j]; e[j] = x; } for (i = 0; i < n; i++) zt_mem_pool_release(&e[i]); } zt_mem_pool_release_free_pages(p); if (zt_mem_pool_destroy(&p)) c37_wrong("pool"); free(e); }
static void o_pool_churn(long n, ul s, int h) { zt_mem_pool *p = zt_mem_pool_init("c37", 64, 24, NULL, NULL, s >> 13 & 1 ? POOL_NEVER_FREE : 0); void *e[64]; long i; for (i = 0; i < n; i++) { long k = i < 64 ? i : (long)(rnd(&s) % 64); if (i >= 64) zt_mem_pool_release(&e[k]); e[k] = zt_mem_pool_alloc(p); } for (i = 0; i < 64; i++) zt_mem_pool_release(&e[i]); zt_mem_pool_destroy(&p); }
static void o_pool_one(long n, ul s, int h) { zt_mem_pool *p = zt_mem_pool_init("c37", 4, 24, NULL, NULL, 0); void **e = get(n * sizeof *e); long i; for (i = 0; i < n; i++) e[i] = zt_mem_pool_alloc(p); c37_go(); for (i = 0; i < 1000; i++) { long k = rnd(&s) % n; zt_mem_pool_release(&e[k]); e[k] = zt_mem_pool_alloc(p); } c37_halt(); for (i = 0; i < n; i++) zt_mem_pool_release(&e[i]); zt_mem_pool_destroy(&p); free(e); }
static void o_ez(long n, ul s, int h) { zt_ez_mempool *p = zt_ez_mempool_init(NULL), *q = p; long i; for (i = 0; i < n; i++) switch (rnd(&s) % 4) { case 0: zt_ez_mempool_alloc(q, 16, NULL); break; case 1: zt_ez_mempool_strdup(q, "some text"); break; case 2: q = zt_ez_mempool_init(p); break; default: zt_ez_mempool_add_buffer(q, get(8), 8, free); } zt_ez_mempool_destroy(p); }
struct obj { zt_gc_collectable_t c; struct obj *next; };
static void mark(zt_gc_t *g, void *p, void *v) { struct obj *o = v; if (o->next) zt_gc_mark(g, o->next); }
static long freed;
static void release(zt_gc_t *g, void *p, void **v) { freed++; }
static void o_gc(long n, ul s, int h) { struct obj *e = get(n * sizeof *e), root; int allocs = s >> 14 & 1 ? 1 << 30 : 8 + (int)(s >> 16 & 15), marks = 1 + (int)(s >> 8 & 15); zt_gc_t *g; if (h & 1) { allocs = 8 + (int)(s >> 16 & 7); marks = 2 * allocs; } g = zt_gc_init(NULL, mark, release, marks, allocs); long i, k; root.next = NULL; freed = 0; zt_gc_prepare(g, &root); zt_gc_register(g, &root); zt_gc_protect(g, &root);
    for (i = 0; i < n; i++) { zt_gc_prepare(g, &e[i]); e[i].next = root.next; root.next = &e[i]; zt_gc_register(g, &e[i]); }
    for (k = 0; k < 3; k++) zt_gc_collect(g, 1); if (freed) c37_wrong("gc: freed"); root.next = NULL; for (k = 0; k < 3; k++) zt_gc_collect(g, 1); if (freed != n) c37_wrong("gc: kept"); zt_gc_destroy(g); free(e); }
static void o_gc_flat(long n, ul s, int h) { struct obj *e = get(n * sizeof *e); zt_gc_t *g = zt_gc_init(NULL, mark, release, 16, 8); long i; freed = 0; for (i = 0; i < n; i++) { zt_gc_prepare(g, &e[i]); e[i].next = NULL; zt_gc_register(g, &e[i]); if (s & 1) { zt_gc_protect(g, &e[i]); zt_gc_unprotect(g, &e[i]); } } for (i = 0; i < 3; i++) zt_gc_collect(g, 1); if (freed != n) c37_wrong("gc: flat"); zt_gc_destroy(g); free(e); }
/* ---- addresses, settings, options, logs */
static void o_ipv4(long n, ul s, int h) { uint32_t z = 1; zt_ipv4_tbl *t; long i; char a[24]; while (z < n) z *= 2; t = zt_ipv4_tbl_init(z); for (i = 0; i < n; i++) { ul v = 0x0a000000 + i; sprintf(a, "%lu.%lu.%lu.%lu", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); if (!zt_ipv4_tbl_add_frm_str(t, a)) c37_wrong("addresses: add"); } for (i = 0; i < n; i++) { ul v = 0x0a000000 + i; sprintf(a, "%lu.%lu.%lu.%lu", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); if (!zt_ipv4_tbl_search_from_str(t, a)) c37_wrong("addresses"); } zt_ipv4_tbl_destroy(t); }
static char path[512];
void c37_path(const char *p) { snprintf(path, sizeof path, "%s", p); }
static void o_cfg(long n, ul s, int h) { /* many lines, few variables */
    FILE *f = fopen(path, "w"); zt_cfg_ty *c; long i, v = 0; if (!f) c37_error("file"); fprintf(f, "[main]\n"); for (i = 0; i < n; i++) switch (rnd(&s) % 4) { case 0: fprintf(f, "# a remark\n"); break; case 1: fprintf(f, "\n"); break; default: fprintf(f, "v%ld = %ld\n", i % 10, i); } fprintf(f, "last = 77\n"); fclose(f); c = zt_cfg_ini(path, 0); if (!c || zt_cfg_get_int(c, "main", "last", &v) < 0 || v != 77) c37_wrong("settings"); zt_cfg_close(c); }
static long seen; static int on_opt(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) { seen++; return 0; }
static void o_opts(long n, ul s, int h) { char **av = get((n + 2) * sizeof *av); int ac = (int)n + 1; long i; zt_opt_def_t d[] = { { 'a', "alpha", NULL, on_opt, NULL, "" }, { 'b', "beta", NULL, on_opt, NULL, "" }, { ZT_OPT_END() } }; av[0] = "prog"; for (i = 1; i <= n; i++) av[i] = i & 1 ? (i & 2 ? "-a" : "--beta") : "-ab"; av[n + 1] = NULL; seen = 0; if (zt_opt_process(&ac, av, d) < 0 || seen < n) c37_wrong("options"); free(av); }
static void o_log(long n, ul s, int h) { zt_log_ty *l = zt_log_file(path, 0, (unsigned)(s & 31)); long i; char *t = text(n, s, "abc"); if (!l) c37_error("log"); zt_log_set_level(l, zt_log_info); for (i = 0; i < n / 8; i++) zt_log_lprintf(l, (zt_log_level)(rnd(&s) % 8), "record %ld %s", i, "text"); zt_log_lprintf(l, zt_log_err, "%s", t); zt_log_close(l); free(t); remove(path); }
const struct c37_op c37_ops[] = {
    /* name, work, memory, smallest amount, realloc copies, texts */
    { "table.int", LINEAR, LINEAR, 2000, 1, o_table_int }, { "table.str", LINEAR, LINEAR, 2000, 1, o_table_str }, { "table.case", LINEAR, LINEAR, 2000, 1, o_table_case }, { "table.buf", LINEAR, LINEAR, 2000, 1, o_table_buf }, { "table.churn", LINEAR, CONSTANT, 4000, 1, o_table_churn }, { "table.one", CONSTANT, LINEAR, 4000, 1, o_table_one },
    { "set", LINEAR, CONSTANT, 2000, 1, o_set }, { "tree", NLOGN, LINEAR, 2000, 1, o_tree }, { "tree.one", LOGN, LINEAR, 4000, 1, o_tree_one },
    { "elist", LINEAR, LINEAR, 4000, 1, o_elist }, { "join", CONSTANT, LINEAR, 4000, 1, o_join }, { "queue", LINEAR, LINEAR, 4000, 1, o_queue }, { "stack", LINEAR, LINEAR, 4000, 1, o_stack }, { "llist", LINEAR, LINEAR, 4000, 1, o_llist }, { "llist.sort", NLOGN, LINEAR, 4000, 1, o_llist_sort }, { "llist.merge", LINEAR, LINEAR, 4000, 1, o_llist_merge },
    { "array", LINEAR, LINEAR, 4000, 1, o_array }, { "array.one", CONSTANT, LINEAR, 4000, 1, o_array_one }, { "pointers", LINEAR, LINEAR, 4000, 1, o_ptrs }, { "pointers.one", CONSTANT, LINEAR, 4000, 1, o_ptrs_one },
    { "buffer", LINEAR, LINEAR, 20000, 1, o_buf }, { "buffer.pipe", LINEAR, CONSTANT, 20000, 1, o_buf_fifo }, { "buffer.reserved", LINEAR, LINEAR, 20000, 1, o_buf_reserved }, { "stream", LINEAR, LINEAR, 4000, 1, o_stream }, { "stream.one", CONSTANT, LINEAR, 4000, 1, o_stream_one },
    { "base", LINEAR, LINEAR, 8000, 1, o_base }, { "hex", LINEAR, LINEAR, 8000, 1, o_hex }, { "sha1", LINEAR, LINEAR, 8000, 1, o_sha1 }, { "hash", LINEAR, LINEAR, 8000, 1, o_hash }, { "random", LINEAR, LINEAR, 8000, 1, o_random }, { "uuid", LINEAR, LINEAR, 8000, 1, o_uuid },
    { "cstr", LINEAR, LINEAR, 8000, 1, o_cstr }, { "strip", LINEAR, LINEAR, 8000, 1, o_strip }, { "dirs", LINEAR, LINEAR, 8000, 1, o_dirs }, { "split", LINEAR, LINEAR, 8000, 1, o_split }, { "cut", LINEAR, LINEAR, 8000, 1, o_cut }, { "dump", LINEAR, LINEAR, 8000, 1, o_dump }, { "format", LINEAR, LINEAR, 8000, 1, o_format },
    { "pool", LINEAR, LINEAR, 4000, 1, o_pool }, { "pool.churn", LINEAR, CONSTANT, 4000, 1, o_pool_churn }, { "pool.one", CONSTANT, LINEAR, 4000, 1, o_pool_one }, { "ez", LINEAR, LINEAR, 4000, 1, o_ez }, { "gc", LINEAR, LINEAR, 4000, 1, o_gc }, { "gc.flat", LINEAR, LINEAR, 4000, 1, o_gc_flat },
    { "ipv4", LINEAR, LINEAR, 2000, 1, o_ipv4 }, { "cfg", LINEAR, CONSTANT, 2000, 1, o_cfg }, { "opts", LINEAR, LINEAR, 2000, 1, o_opts }, { "log", LINEAR, LINEAR, 2000, 1, o_log },
};
const int c37_nops = sizeof c37_ops / sizeof c37_ops[0];
