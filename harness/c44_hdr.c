/* user code in C, compiled like the library it uses: what the headers define for it */
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <errno.h>
#include <stdio.h>
#include <unistd.h>
#include <zt.h>
#include "c44.h"
static uint64_t rs; static uint64_t rnd(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static unsigned below(unsigned n) { return (unsigned)(rnd() % n); }
static c44_put put_; static void *to_; static void P(uint64_t v) { put_(to_, v); }
static void T(const char *s) { uint64_t h = 1469598103934665603ULL; size_t n = 0; if (!s) { P(77); return; } for (; s[n]; n++) h = (h ^ (unsigned char)s[n]) * 1099511628211ULL; P(n); P(h); }
struct el { int v; zt_elist_t l; zt_rbt_node n; char tail; };
static int ncmp(zt_rbt_node *a, zt_rbt_node *b) { int x = zt_rbt_data(a, struct el, n)->v, y = zt_rbt_data(b, struct el, n)->v; return x < y ? -1 : x > y; }
static void numbers(void) { int i; for (i = 0; i < 12; i++) {
    int a = (int)rnd(), b = (int)rnd(), lo, hi; unsigned char uc = (unsigned char)rnd(), m8 = (unsigned char)rnd(); unsigned short us = (unsigned short)rnd(); unsigned ui = (unsigned)rnd(); unsigned long ul = rnd(); char c = (char)(rnd() & 127); signed char sc = (signed char)rnd();
    a >>= below(28); b >>= below(28); lo = MIN(a, b); hi = MAX(a, b); P((uint64_t)lo); P((uint64_t)hi); P((uint64_t)CLAMP(a / 2 + b / 2, lo, hi)); P((uint64_t)CEILING(a, b)); P((uint64_t)FLOOR(a, b)); P((uint64_t)(ABS((long)a))); P(ZT_INT_IS_SIGNED(sc)); P(ZT_INT_SAME_SIGN(a, b));
    ZT_BIT_SET(uc, m8); P(uc); ZT_BIT_UNSET(uc, m8 >> 2); P(uc); ZT_BIT_SET(us, 1 << below(16)); P(us); ZT_BIT_UNSET(us, 0xff); P(us); ZT_BIT_UNSET(ui, m8); P(ui); ZT_BIT_SET(ul, 1UL << below(64)); ZT_BIT_UNSET(ul, m8); P(ul); P(ZT_BIT_ISSET(ul, 1UL << 40)); P(ZT_BIT_ISUNSET(c, 3)); ZT_BIT_UNSET(c, 5); P((unsigned char)c);
    P(zt_uchar_add(uc / 2, m8 / 2)); P(zt_ushort_mul(us / 256, 200)); P(zt_uint_sub(ui, ui / 3)); P(zt_ulong_sub(ul, ul / 3)); P((uint64_t)zt_char_add(sc / 2, -sc / 2)); P((uint64_t)zt_short_sub((short)(a / 131072), (short)(b / 131072))); P((uint64_t)zt_int_mul(a >> 16, b >> 17)); P((uint64_t)zt_long_add(a, b)); P((uint64_t)zt_int_div(a, b ? (b == -1 ? 2 : b) : 1)); P((uint64_t)zt_long_sub(a, b));
    { uint32_t h = (uint32_t)rnd(), g = h; ZT_HASH24_MASK(h); P(h); h = g; ZT_HASH16_MASK(h); P(h); h = g; ZT_HASH8_MASK(h); P(h); h = g; ZT_HASH4_MASK(h); P(h); h = g; ZT_HASH_SUB32_MASK(h, below(31) + 1) P(h); }
    { struct timeval x, y; x.tv_sec = below(5); x.tv_usec = below(1000000); y.tv_sec = below(5); y.tv_usec = below(3); P((uint64_t)zt_cmp_time(&x, &y)); }
    { char s[40], t[40]; memset(s, 0, 40); memset(t, 0, 40); snprintf(s, 40, BLANK "|", INDENT_TO(20, 3, (int)below(10))); T(s); snprintf(t, 40, BLANK "|", INDENT(below(5))); T(t); } } }
static void linked(void) { struct el e[24]; zt_elist(l); zt_queue(q); zt_stack(s); zt_rbt *root = NULL; zt_rbt_node *x, *y; zt_elist_t *p, *n; int i; memset(e, 0, sizeof e);
    for (i = 0; i < 24; i++) { e[i].v = (int)below(400) - 200; zt_elist_reset(&e[i].l); switch (below(4)) { case 0: zt_elist_add(&l, &e[i].l); break; case 1: zt_elist_add_tail(&l, &e[i].l); break; case 2: zt_queue_enqueue(&q, &e[i].l); break; default: zt_stack_push(&s, &e[i].l); } P(zt_rbt_insert(&root, &e[i].n, ncmp) != NULL); }
    zt_elist_for_each(&l, p) P((uint64_t)zt_elist_data(p, struct el, l)->v); while ((p = zt_queue_dequeue(&q))) P((uint64_t)zt_queue_data(p, struct el, l)->v); while (!zt_stack_empty(&s)) { p = zt_stack_pop(&s); P((uint64_t)zt_stack_data(p, struct el, l)->v); }
    zt_elist_for_each_safe(&l, p, n) if (zt_elist_data(p, struct el, l)->v % 2) zt_elist_remove(p); zt_elist_for_each(&l, p) P((uint64_t)zt_elist_data(p, struct el, l)->v); P(zt_elist_empty(&l));
    zt_rbt_for_each(&root, x) P((uint64_t)zt_rbt_data(x, struct el, n)->v); { struct el k; memset(&k, 0, sizeof k); for (i = -200; i < 200; i += 37) { k.v = i; x = zt_rbt_nfind(&root, &k.n, ncmp); P(x ? (uint64_t)zt_rbt_data(x, struct el, n)->v : 9999); P(zt_rbt_find(&root, &k.n, ncmp) != NULL); } } zt_rbt_for_each_safe(&root, x, y) if (zt_rbt_data(x, struct el, n)->v % 3 == 0) zt_rbt_remove(&root, x); zt_rbt_for_each(&root, x) P((uint64_t)zt_rbt_data(x, struct el, n)->v); }
static void words(void) { char s[40] = "", t[40] = "", b[200] = ""; int i; unsigned n = below(30), k; for (k = 0; k < n; k++) s[k] = (char)(1 + rnd() % 255); s[n] = 0; for (k = 0; k < n; k++) if (s[k] == '%' || s[k] == '~') s[k] = '#'; for (k = 0; k < 4; k++) t[k] = n && k < 2 ? s[below(n)] : (char)(1 + rnd() % 255); t[4] = 0;
    P((uint64_t)zt_cstr_chr(s, 0, -1, t[0])); P((uint64_t)zt_cstr_rchr(s, 0, -1, t[1])); P((uint64_t)zt_cstr_any(s, 0, -1, t)); P((uint64_t)zt_cstr_upto(s, 0, -1, t)); P((uint64_t)zt_cstr_rspn(s, t)); i = zt_cstr_cmp(s, 0, -1, t, 0, -1); P(i < 0 ? 1 : i > 0 ? 2 : 3);
    { size_t r; char *m = zt_cstr_map(s, 0, -1, t, "\x80\xff\x7f\x01"); T(m); free(m); r = zt_binary_to_hex(s, n, b, sizeof b); P(r); T(b); r = zt_hex_to_binary(b, 2 * n, t, 8); P(r); }
    { zt_ptr_array *p = zt_cstr_tok(s, t[0], (int)below(2)); if (p) { for (i = 0; i < zt_ptr_array_length(p); i++) T((char *)zt_ptr_array_get_idx(p, i)); zt_cstr_cut_free(p); } }
    zt_fmt_sprintf(b, sizeof b, "%c|%5c|%s|%-30.5s|%d|%x|%o|%u", s[0], t[0], s, s, (int)s[0] * 0 + 5, 200u, 8u, 4000000000u); T(b); zt_fmt_sprintf(b, sizeof b, s); T(b);
    { zt_bstream_t z = zt_bstream_new(); char c; for (k = 0; k < n; k++) zt_bstream_write_byte(z, s[k]); zt_bstream_write_float(z, (float)n / 3); zt_bstream_write_double(z, n / 7.0); zt_bstream_rewind(z); for (k = 0; k < n; k++) { zt_bstream_read_byte(z, &c); P((unsigned char)c); } { float f; double g; zt_bstream_read_float(z, &f); zt_bstream_read_double(z, &g); P((uint64_t)(f * 1000)); P((uint64_t)(g * 1000)); } zt_bstream_free(&z); }
    { zt_random_state st; memset(&st, 0, sizeof st); zt_random_srandom(&st, (uint32_t)rnd()); for (i = 0; i < 5; i++) { P((uint64_t)(zt_random_float(&st) * 1e15)); P((uint64_t)(zt_random_float00(&st) * 1e15)); P((uint64_t)(zt_random_float10(&st) * 1e15)); } }
    { void *o = NULL, *d = NULL; size_t ol = 0, dl = 0; P((uint64_t)zt_base_encode(zt_base64_rfc, s, n, &o, &ol)); P(ol); if (o) { if (ol && below(2)) ((char *)o)[below((unsigned)ol)] = (char)(1 + rnd() % 255); i = zt_base_decode(zt_base64_rfc, o, ol, &d, &dl); P((uint64_t)i); if (!i) P(dl); free(d); } free(o); } }
void c44_hdr(uint64_t seed, c44_put put, void *to) { rs = seed; put_ = put; to_ = to; numbers(); linked(); words(); }
