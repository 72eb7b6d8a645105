// seeded workloads: every kind works on objects of its own and boils everything it observes down to one number.
// nest() is called from every callback the library makes; th_no tells apart workloads that are under way at the same time.
#ifndef KINDS_AFTER
#define KINDS_AFTER ((void)0)
#endif
struct D { uint64_t h = 1469598103934665603ULL; void n(uint64_t x) { for (int i = 0; i < 8; i++, x >>= 8) h = (h ^ (x & 255)) * 1099511628211ULL; KINDS_AFTER; } void b(const void *p, size_t l) { n(l); for (size_t i = 0; i < l; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ULL; } void s(const char *p) { if (p) b(p, strlen(p)); else n(77); } void t(char *p) { s(p); free(p); } };
static __thread unsigned th_no;
static unsigned long h_string(const void *k, size_t l, void *c) { nest(); return zt_table_hash_string(k, l, c); } static unsigned long h_buff(const void *k, size_t l, void *c) { nest(); return zt_table_hash_buff(k, l, c); } static unsigned long h_int(const void *k, size_t l, void *c) { nest(); return zt_table_hash_int(k, l, c); }
static int c_string(const void *a, size_t al, const void *b, size_t bl, void *c) { nest(); return zt_table_compare_string(a, al, b, bl, c); } static int c_buff(const void *a, size_t al, const void *b, size_t bl, void *c) { nest(); return zt_table_compare_buff(a, al, b, bl, c); } static int c_int(const void *a, size_t al, const void *b, size_t bl, void *c) { nest(); return zt_table_compare_int(a, al, b, bl, c); }
struct TI { zt_table *t; uint64_t sum, n; };
static void w_table(Rng &r, D &d) {
    int kind = r.below(3); std::vector<std::string> keys; for (unsigned i = 0, n = 1 + r.below(60); i < n; i++) keys.push_back(r.str(1 + r.below(6), "abAB01")); std::vector<std::unique_ptr<char[]>> blk; for (auto &k : keys) { blk.emplace_back(new char[k.size() + 1]); memcpy(blk.back().get(), k.c_str(), k.size() + 1); }
    auto mk = [&](size_t hint) { return kind == 0 ? zt_table_init((char *)"own", h_string, c_string, hint, r.below(4), NULL) : kind == 1 ? zt_table_init((char *)"own", h_buff, c_buff, hint, r.below(4), NULL) : zt_table_init((char *)"int", h_int, c_int, hint, r.below(4), NULL); };
    unsigned nt = 1 + r.below(3); std::vector<zt_table *> T; for (unsigned i = 0; i < nt; i++) T.push_back(mk(r.below(80))); auto K = [&](size_t i) -> void * { return kind == 2 ? (void *)(intptr_t)(i * 7919) : (void *)blk[i].get(); }; auto L = [&](size_t i) { return kind == 2 ? sizeof(int) : keys[i].size(); };
    for (unsigned s = 0; s < 120; s++) { size_t i = r.below(keys.size()); zt_table *t = r.pick(T); switch (r.below(4)) { case 0: case 1: d.n(zt_table_set(t, K(i), L(i), (void *)(uintptr_t)(s + 1), 0)); break; case 2: d.n((uintptr_t)zt_table_get(t, K(i), L(i))); break; case 3: d.n((uintptr_t)zt_table_del(t, K(i), L(i))); break; } if (r.chance(1, 30)) { size_t j = r.below(T.size()); zt_table_destroy(T[j]); T[j] = mk(r.below(40)); } if (r.chance(1, 40) && T.size() > 1 && T[0] != T[1]) d.n(zt_table_copy(T[0], T[1])); }
    for (auto t : T) { TI ti = {t, 0, 0}; d.n(zt_table_for_each(t, [](void *k, size_t kl, void *v, size_t, void *p) { TI *x = (TI *)p; nest(); x->sum += (uintptr_t)v * 31 + kl + (zt_table_get(x->t, k, kl) != NULL); x->n++; return 0; }, &ti)); d.n(ti.sum); d.n(ti.n); zt_table_destroy(t); }
}
static int sm(const void *a, size_t al, const void *b, size_t bl, void *) { nest(); return al == bl && !memcmp(a, b, al); }
struct SI { zt_set *s; uint64_t n, in; };
static void w_set(Rng &r, D &d) {
    static const char POOL[] = "abcdefghijklmnopqrstuvwxyz0123456789"; zt_set *s[3]; for (auto &x : s) { x = zt_set_init(sm, NULL, NULL); for (unsigned i = 0, n = r.below(20); i < n; i++) d.n(zt_set_insert(x, POOL + r.below(30), 1 + r.below(3))); }
    zt_set *u = zt_set_init(sm, NULL, NULL); d.n(r.chance(1, 2) ? zt_set_union(u, s[0], s[1]) : r.chance(1, 2) ? zt_set_intersection(u, s[1], s[2]) : zt_set_difference(u, s[0], s[2])); d.n(zt_set_size(u)); for (int i = 0; i < 30; i++) d.n(zt_set_is_member(u, POOL + i, 1 + i % 3)); d.n(zt_set_is_subset(u, s[0])); d.n(zt_set_is_equal(s[0], s[1])); SI si = {s[1], 0, 0}; d.n(zt_set_for_each(s[0], [](void *v, void *p) { SI *x = (SI *)p; nest(); x->n++; x->in += zt_set_is_member(x->s, v, 1); return 0; }, &si)); d.n(si.n); d.n(si.in); for (auto x : s) zt_set_destroy(x); zt_set_destroy(u);
}
struct TN { zt_rbt_node n; int v; };
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { nest(); int x = zt_rbt_data(a, TN, n)->v, y = zt_rbt_data(b, TN, n)->v; return x < y ? -1 : x > y; }
static void w_tree(Rng &r, D &d) { std::vector<TN> N(40); zt_rbt *root = NULL; std::vector<bool> in(N.size()); for (size_t i = 0; i < N.size(); i++) N[i].v = (int)r.below(60); for (unsigned s = 0; s < 150; s++) { size_t i = r.below(N.size()); if (!in[i]) { zt_rbt_node *e = zt_rbt_insert(&root, &N[i].n, tcmp); d.n(e != NULL); if (!e) in[i] = true; } else if (r.chance(1, 2)) { zt_rbt_remove(&root, &N[i].n); in[i] = false; } TN q; q.v = (int)r.below(60); zt_rbt_node *f = zt_rbt_find(&root, &q.n, tcmp); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); f = zt_rbt_nfind(&root, &q.n, tcmp); d.n(f ? zt_rbt_data(f, TN, n)->v : -1); } zt_rbt_node *x; if (root) zt_rbt_for_each(&root, x) d.n(zt_rbt_data(x, TN, n)->v); }
struct LE { zt_elist_t l; int v; };
static void w_list(Rng &r, D &d) { std::vector<LE> N(30); zt_elist_t a, b; zt_stack_t st; zt_queue_t q; zt_elist_reset(&a); zt_elist_reset(&b); zt_stack_reset(&st); zt_queue_reset(&q); for (size_t i = 0; i < N.size(); i++) { N[i].v = (int)r.below(100); zt_elist_reset(&N[i].l); switch (r.below(4)) { case 0: zt_elist_add(&a, &N[i].l); break; case 1: zt_elist_add_tail(&b, &N[i].l); break; case 2: zt_stack_push(&st, &N[i].l); break; case 3: zt_queue_enqueue(&q, &N[i].l); break; } } zt_elist_t *e; zt_elist_for_each(&a, e) d.n(zt_elist_data(e, LE, l)->v); zt_elist_for_each(&b, e) d.n(zt_elist_data(e, LE, l)->v); while ((e = zt_stack_pop(&st))) d.n(zt_elist_data(e, LE, l)->v); while ((e = zt_queue_dequeue(&q))) d.n(zt_elist_data(e, LE, l)->v); }
static int lcmp(void *a, void *b) { nest(); return (intptr_t)a / 4 > (intptr_t)b / 4; }
static void w_llist(Rng &r, D &d) { zt_llist l = NULL; for (unsigned i = 0, n = 1 + r.below(50); i < n; i++) zt_llist_push((void *)(intptr_t)r.below(80), &l); zt_llist c = zt_llist_reverse(l); l = zt_llist_sort(l, lcmp); for (zt_llist p = l; p; p = zt_llist_tail(p)) d.n((uintptr_t)zt_llist_head(p)); c = zt_llist_nreverse(c); while (c && r.chance(9, 10)) d.n((uintptr_t)zt_llist_pop(&c)); zt_llist_free(c); zt_llist_free(l); }
static void pfree(void *p) { nest(); free(p); }
static void w_ptrs(Rng &r, D &d) { zt_ptr_array *a = zt_ptr_array_init(NULL, pfree), *b = zt_ptr_array_init(NULL, NULL); std::vector<void *> in; for (unsigned s = 0; s < 90; s++) { if (r.chance(3, 4)) { char *p = (char *)malloc(8); snprintf(p, 8, "%u", s); d.n(zt_ptr_array_add(a, p)); } else if (zt_ptr_array_length(a)) { char *p = (char *)zt_ptr_array_get_idx(a, (int32_t)r.below(zt_ptr_array_length(a))); d.s(p); d.n(zt_ptr_array_del(a, p)); } } d.n(zt_ptr_array_cat(b, a)); for (int32_t i = 0; i < zt_ptr_array_length(b); i++) d.s((char *)zt_ptr_array_get_idx(b, i)); zt_ptr_array_free(b, 0); zt_ptr_array_free(a, 1); }
static void w_array(Rng &r, D &d) { size_t es = 1 + r.below(9); zt_array_t a = zt_array_new(r.below(30), es); if (!a) return; for (unsigned s = 0; s < 40; s++) { std::string e = r.bytes(es); if (zt_array_length(a)) { size_t i = r.below(zt_array_length(a)); if (r.chance(1, 2)) zt_array_put(a, i, (void *)e.data()); else { std::string o(es, 0); memcpy(&o[0], zt_array_get(a, i), es); d.b(o.data(), es); zt_array_put(a, i, (void *)o.data()); } } if (r.chance(1, 10)) { size_t n = r.below(40), o = zt_array_length(a); zt_array_resize(a, n); for (size_t i = o; i < n; i++) zt_array_put(a, i, (void *)e.data()); } } zt_array_t c = zt_array_copy(a, zt_array_length(a)); d.n(zt_array_length(c)); zt_array_free(&c); zt_array_free(&a); }
static void w_buf(Rng &r, D &d) { zt_buf_t *b = zt_buf_new(), *c = zt_buf_new(); for (unsigned s = 0; s < 50; s++) { zt_buf_t *x = r.chance(2, 3) ? b : c; switch (r.below(5)) { case 0: case 1: { std::string t = r.bytes(1 + r.size(300)); d.n(zt_buf_add(x, (void *)t.data(), t.size())); break; } case 2: d.n(zt_buf_drain(x, r.below(200))); break; case 3: { char o[128]; size_t n = r.below(128); n = zt_buf_remove(x, o, n); d.b(o, n); break; } case 4: d.n(zt_buf_add_buf(x, x == b ? c : b)); break; } d.n(zt_buf_length(x)); } d.b(zt_buf_get(b), zt_buf_length(b)); zt_buf_free(b); zt_buf_free(c); }
static void w_bstream(Rng &r, D &d) { zt_bstream_t b = zt_bstream_new(); b->flipendian = r.below(2); std::vector<int> ks; for (unsigned i = 0, n = 1 + r.below(30); i < n; i++) { int k = r.below(6); ks.push_back(k); uint64_t v = r.u64(); switch (k) { case 0: zt_bstream_write_byte(b, (char)v); break; case 1: zt_bstream_write_uint16(b, v); break; case 2: zt_bstream_write_uint32(b, v); break; case 3: zt_bstream_write_uint64(b, v); break; case 4: zt_bstream_write_double(b, (double)(int64_t)v); break; case 5: zt_bstream_write_uint8(b, v); break; } } zt_bstream_rewind(b); zt_bstream_t c = zt_bstream_clone(b); for (int k : ks) { char x = 0; uint8_t u8 = 0; uint16_t a = 0; uint32_t e = 0; uint64_t f = 0; double g = 0; switch (k) { case 0: zt_bstream_read_byte(c, &x); d.n((uint8_t)x); break; case 1: zt_bstream_read_uint16(c, &a); d.n(a); break; case 2: zt_bstream_read_uint32(c, &e); d.n(e); break; case 3: zt_bstream_read_uint64(c, &f); d.n(f); break; case 4: zt_bstream_read_double(c, &g); memcpy(&f, &g, 8); d.n(f); break; case 5: zt_bstream_read_uint8(c, &u8); d.n(u8); break; } } zt_bstream_free(&c); zt_bstream_free(&b); }
static void w_base(Rng &r, D &d) { zt_base_definition_t *defs[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; for (unsigned i = 0; i < 20; i++) { auto f = defs[r.below(6)]; std::string in = r.bytes(1 + r.size(200)); void *o = NULL, *p = NULL; size_t ol = 0, pl = 0; int rc = zt_base_encode(f, in.data(), in.size(), &o, &ol); d.n(rc); if (rc) continue; d.b(o, ol); if (r.chance(1, 4) && ol) ((char *)o)[r.below(ol)] = (char)r.u64(); rc = zt_base_decode(f, o, ol, &p, &pl); d.n(rc); if (!rc) d.b(p, pl); free(p); free(o); } }
static void w_cstr(Rng &r, D &d) {
    for (unsigned k = 0; k < 12; k++) { std::string a = r.str(1 + r.below(40), "ab c/,."), b = r.str(1 + r.below(3), "ab c/,."); const char *s = a.c_str(); d.t(zt_cstr_sub(s, 0, -1)); d.t(zt_cstr_dup(s, 0, -1, 1 + r.below(4))); d.t(zt_cstr_cat(s, 0, -1, b.c_str(), 0, -1)); d.t(zt_cstr_catv(s, 0, -1, b.c_str(), 0, -1, NULL)); d.t(zt_cstr_reverse(s, 0, -1)); d.t(zt_cstr_map(s, 0, -1, "ab", "xy")); d.n(zt_cstr_find(s, 0, -1, b.c_str())); d.n(zt_cstr_rfind(s, 0, -1, b.c_str())); d.n(zt_cstr_any(s, 0, -1, b.c_str())); d.n(zt_cstr_upto(s, 0, -1, b.c_str())); { int c_ = zt_cstr_cmp(s, 0, -1, b.c_str(), 0, -1); d.n(c_ < 0 ? 2 : c_ > 0); }; d.n(zt_cstr_rspn(s, b.c_str()));
        char bn[64]; d.s(zt_cstr_basename(bn, sizeof bn, s, NULL)); d.s(zt_cstr_dirname(bn, sizeof bn, s)); d.t(zt_cstr_path_append(s, b.c_str())); char *w = strdup(s); d.s(zt_cstr_strip(w)); d.s(zt_cstr_chomp(w)); free(w);
        zt_ptr_array *p = zt_cstr_split(s, b.c_str()); if (p) { for (int32_t i = 0; i < p->count; i++) d.s((char *)p->array[i]); zt_cstr_split_free(p); } p = zt_cstr_cut(s, ',', r.below(2)); if (p) { for (int32_t i = 0; i < p->count; i++) d.s((char *)p->array[i]); zt_cstr_cut_free(p); } p = zt_cstr_tok(s, ' ', r.below(2)); if (p) { for (int32_t i = 0; i < p->count; i++) d.s((char *)p->array[i]); zt_cstr_split_free(p); }
        char hx[200]; size_t n = zt_binary_to_hex((void *)s, a.size(), hx, sizeof hx); d.b(hx, n); char bi[100]; n = zt_hex_to_binary(hx, a.size() * 2, bi, sizeof bi); d.n(n); d.b(bi, a.size()); d.n(zt_cstr_itoa(hx, (int)r.u64(), 0, sizeof hx)); d.s(hx);
        std::string bin = r.bytes(r.below(60));
#ifdef AMBIENT
        for (char &c : bin) c &= 0x7f; // what is printable above is a matter of the locale
#endif
        d.n(zt_hexdump_str((char *)bin.data(), bin.size(), [](void *c, size_t ad, char *h, char *t) { D *x = (D *)c; nest(); x->n(ad); x->s(h); x->s(t); return h ? (int)strlen(h) : 0; }, &d)); }
}
struct PutC { D *d; }; static int putc_(int c, void *cl) { nest(); ((PutC *)cl)->d->n((unsigned char)c); return c; }
static void w_format(Rng &r, D &d) { for (unsigned k = 0; k < 15; k++) { std::string s = r.str(r.below(30), "xyz%"); int i = (int)r.u64(); unsigned u = (unsigned)r.u64(); double f = (double)(int)r.u64() / 1024; d.t(zt_fmt_strprintf("%s|%10d|%-8u|%x|%o|%.3f|%c|%5.2s", s.c_str(), i, u, u, u, f, 'a' + i % 20 * (i > 0), s.c_str())); char b[400]; d.n(zt_fmt_sprintf(b, sizeof b, "<%d %s %12.4e %g>", i, s.c_str(), f, f)); d.s(b); PutC p{&d}; d.n(zt_fmt_format(putc_, &p, "%*d,%-*s,%.*f", (int)r.below(20), i, (int)r.below(20), s.c_str(), (int)r.below(6), f)); if (r.chance(1, 3)) d.t(zt_fmt_strprintf("%600d", i));
#ifdef USER_CONVERSION
        d.t(zt_fmt_strprintf("%d:%" USER_CONVERSION ":%s:%" USER_CONVERSION, i, i, s.c_str(), i + 1)); d.n(zt_fmt_sprintf(b, sizeof b, "%-9.3" USER_CONVERSION "|%+08" USER_CONVERSION "|%x", i, i, u)); d.s(b);
#endif
    } }
static int always(size_t, size_t, size_t, int, void *) { nest(); return 1; }
static void w_pool(Rng &r, D &d) {
    char nm[40]; snprintf(nm, sizeof nm, "pool-%u-%u", th_no, (unsigned)r.below(1000)); unsigned np = 1 + r.below(3); std::vector<zt_mem_pool *> P; std::vector<size_t> sz; for (unsigned i = 0; i < np; i++) { sz.push_back(1 + r.below(300)); P.push_back(zt_mem_pool_init(i ? (char *)"extra" : nm, (ssize_t)r.below(60), sz[i], r.chance(1, 3) ? always : NULL, NULL, 0)); } d.n(zt_mem_pool_get(nm) == P[0]);
    std::vector<std::pair<char *, int>> live_; for (unsigned s = 0; s < 150; s++) { if (live_.empty() || r.chance(3, 5)) { int p = r.below(np); char *e = (char *)zt_mem_pool_alloc(P[p]); d.n(e != NULL); memset(e, (int)(uintptr_t)p + 1, sz[p]); live_.push_back({e, p}); } else { size_t i = r.below(live_.size()); auto [e, p] = live_[i]; for (size_t j = 0; j < sz[p]; j++) if (e[j] != p + 1) { d.n(0xbad); break; } zt_mem_pool_release((void **)&e); live_[i] = live_.back(); live_.pop_back(); } if (r.chance(1, 25)) d.n(zt_mem_pool_get((char *)"no such pool") != NULL); }
    for (unsigned i = 0; i < np; i++) { zt_mem_pool_stats st; d.n(zt_mem_pool_get_stats(P[i], &st)); d.n(st.pages); d.n(st.free_pages); d.n(st.page_allocs); d.n(st.page_frees); } for (auto [e, p] : live_) { char *x = e; zt_mem_pool_release((void **)&x); } for (auto p : P) d.n(zt_mem_pool_destroy(&p));
    zt_mem_pool_desc ds[2]; memset(ds, 0, sizeof ds); ds[0].name = (char *)"g0"; ds[0].elts = 4; ds[0].size = 16; ds[1].name = (char *)"g1"; ds[1].elts = 4; ds[1].size = 64; zt_mem_pool_group *g = zt_mem_pool_group_init(ds, 2); std::vector<void *> v; for (int i = 0; i < 10; i++) { size_t n = 1 + r.below(64); void *x = zt_mem_pool_group_alloc(g, n); memset(x, i, n); v.push_back(x); } for (auto x : v) zt_mem_pool_group_release(&x); d.n(zt_mem_pool_group_destroy(g)); zt_mem_heap *h = zt_mem_heap_init((char *)"hp", 100); memset(zt_mem_heap_get_data(h), 1, 100); d.s(zt_mem_heap_get_name(h)); zt_mem_heap_destroy(&h);
}
static __thread unsigned ez_freed; static void ezfree(void *p) { nest(); ez_freed++; free(p); }
static void w_ez(Rng &r, D &d) { unsigned keep = ez_freed; ez_freed = 0; zt_ez_mempool *p = zt_ez_mempool_init(NULL), *q = zt_ez_mempool_init(p); for (int i = 0; i < 20; i++) { char *c = zt_ez_mempool_strdup(r.chance(1, 2) ? p : q, r.str(r.below(20), "abc").c_str()); d.s(c); size_t n = 1 + r.below(50); memset(zt_ez_mempool_alloc(r.chance(1, 2) ? p : q, n, r.chance(1, 3) ? ezfree : NULL), i, n); } if (r.chance(1, 2)) zt_ez_mempool_destroy(q); d.n(ez_freed); zt_ez_mempool_destroy(p); d.n(ez_freed); ez_freed = keep; }
struct GO { zt_gc_collectable_t m; GO *a, *b; int id; }; struct GP { D *d; unsigned released = 0, marked = 0; uint64_t ids = 0; };
static void w_gc(Rng &r, D &d) { GP gp; gp.d = &d; zt_gc_t *gc = zt_gc_init(&gp, [](zt_gc_t *g, void *p, void *v) { GO *o = (GO *)v; nest(); ((GP *)p)->marked++; if (o->a) zt_gc_mark(g, o->a); if (o->b) zt_gc_mark(g, o->b); }, [](zt_gc_t *, void *p, void **v) { GO *o = (GO *)*v; GP *x = (GP *)p; nest(); x->released++; x->ids += o->id * 17; free(o); *v = NULL; }, 1 + r.below(4), 1 + r.below(6)); GO *root = (GO *)calloc(1, sizeof(GO)); zt_gc_prepare(gc, root); zt_gc_protect(gc, root); GO *tip = root; for (int i = 1; i < 60; i++) { GO *o = (GO *)calloc(1, sizeof(GO)); o->id = i; zt_gc_prepare(gc, o); zt_gc_register(gc, o); if (r.chance(1, 2)) { tip->a = o; zt_gc_mark(gc, o); tip = o; } else { root->b = o; zt_gc_mark(gc, o); } if (r.chance(1, 9)) zt_gc_collect(gc, r.below(2)); } zt_gc_collect(gc, 1); zt_gc_collect(gc, 1); unsigned n = 0; zt_gc_for_each(gc, [](void *, void *x, int) { nest(); ++*(unsigned *)x; }, &n); d.n(n); d.n(gp.released); d.n(gp.ids); zt_gc_destroy(gc); d.n(gp.released); }
static void w_sha(Rng &r, D &d) { std::string t = r.bytes(r.size(4000)); zt_sha1_ctx c; zt_sha1_init(&c); for (size_t o = 0; o < t.size();) { size_t k = 1 + r.below(200); if (o + k > t.size()) k = t.size() - o; zt_sha1_update(&c, (uint8_t *)&t[o], k); o += k; } uint8_t g[20], h[20]; zt_sha1_finalize(&c, g); zt_sha1_data((void *)t.data(), t.size(), h); d.b(g, 20); d.n(memcmp(g, h, 20)); char tx[41]; d.s(zt_sha1_tostr(g, tx)); d.n(zt_str_tosha1(tx, h) != NULL); d.b(h, 20); }
static void w_hash(Rng &r, D &d) { for (int i = 0; i < 20; i++) { std::string t = r.str(r.size(300), "abcdefghij"); d.n(zt_hash32_buff((void *)t.data(), t.size(), ZT_HASH32_INIT)); d.n(zt_hash32_cstr((const uint8_t *)t.c_str(), ZT_HASH32_INIT)); d.n(zt_hash64_buff((void *)t.data(), t.size(), r.u64())); d.n(zt_hash64_cstr((const uint8_t *)t.c_str(), r.u64())); } }
static void w_random(Rng &r, D &d) { zt_random_state a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); zt_random_srandom(&a, (uint32_t)r.u64()); uint32_t k[8]; for (auto &x : k) x = (uint32_t)r.u64(); zt_random_initstate(&b, k, 1 + r.below(8)); for (int i = 0; i < 1400; i++) { d.n(zt_random_uint32(&a)); if (i % 3) d.n(zt_random_uint32(&b)); } }
static std::vector<std::string> *uuids[16];
static void w_uuid(Rng &r, D &d) { for (int i = 0; i < 12; i++) { zt_uuid_t u, v; std::string t = r.str(r.below(30), "abcdefgh"); d.n(zt_uuid5((char *)t.c_str(), t.size(), (zt_uuid_ns)r.below(4), &u)); d.b(&u, 16); for (int f = 0; f < 4; f++) { char *s = NULL; d.n(zt_uuid_tostr(&u, &s, (zt_uuid_flags_t)f)); d.s(s); d.n(zt_uuid_fromstr(s, &v, (zt_uuid_flags_t)f)); d.n(zt_uuid_cmp(&u, &v)); free(s); } d.n(zt_uuid4(&v)); d.n(v.data.bytes[6] >> 4); d.n(v.data.bytes[8] >> 6); if (uuids[th_no]) uuids[th_no]->push_back(std::string((char *)&v, 16)); } }
static void w_ipv4(Rng &r, D &d) { zt_ipv4_tbl *t = zt_ipv4_tbl_init((uint32_t)1 << r.below(8)); if (!t) { d.n(99); return; } auto net = [&] { char b[40]; snprintf(b, sizeof b, "10.%u.%u.%u/%u", (unsigned)r.below(3), (unsigned)r.below(3), (unsigned)r.below(4), 8 + (unsigned)r.below(25)); return std::string(b); }; for (int i = 0; i < 25; i++) { zt_ipv4_node *n = zt_ipv4_tbl_add_frm_str(t, net().c_str()); d.n(n ? n->addr->addr : 1); } for (int i = 0; i < 25; i++) { zt_ipv4_node *n = zt_ipv4_tbl_search_from_str(t, net().c_str()); d.n(n ? n->addr->addr + n->addr->bitlen : 1); char *s = zt_ipv4_int2ip((uint32_t)r.u64()); d.s(s); d.n(zt_ipv4_ip2int(s)); free(s); } zt_ipv4_tbl_destroy(t); }
static void w_cfg(Rng &r, D &d) { char f[300]; snprintf(f, sizeof f, "%s/c32-%u-%u.ini", scratch(), th_no, (unsigned)r.below(1000)); FILE *o = fopen(f, "w"); if (!o) harness_error("fopen"); for (int b = 0; b < 3; b++) { fprintf(o, "[block%d]\n", b); for (int i = 0; i < 5; i++) switch (r.below(4)) { case 0: fprintf(o, "v%d = %d\n", i, (int)r.u64()); break; case 1: fprintf(o, r.chance(1, 4) ? "v%d = %d,25\n" : "v%d = %d.25\n", i, (int)r.below(1000)); break; case 2: fprintf(o, "v%d = \"text %u\" # note\n", i, (unsigned)r.below(1000)); break; case 3: fprintf(o, "v%d = %s\n", i, r.chance(1, 2) ? "true" : "no"); break; } } fclose(o); zt_cfg_ty *c = zt_cfg_ini(f, 0); d.n(c != NULL); if (c) { for (int b = 0; b < 3; b++) for (int i = 0; i < 6; i++) { char bn[20], vn[20]; snprintf(bn, 20, "block%d", b); snprintf(vn, 20, "v%d", i); long x = 0; double g = 0; char *s = NULL; int q = 0; int rc; d.n(rc = zt_cfg_get_int(c, bn, vn, &x)); if (rc >= 0) d.n(x); d.n(rc = zt_cfg_get_float(c, bn, vn, &g)); if (rc >= 0) d.b(&g, 8); d.n(rc = zt_cfg_get_string(c, bn, vn, &s)); if (rc >= 0) d.s(s); d.n(rc = zt_cfg_get_bool(c, bn, vn, &q)); if (rc >= 0) d.n(q); } long nv = (long)r.below(99); d.n(zt_cfg_set_int(c, (char *)"own", (char *)"x", &nv)); d.n(zt_cfg_get_int(c, (char *)"own", (char *)"x", &nv)); d.n(nv); zt_cfg_close(c); } unlink(f); }
static __thread D *opt_d;
static int opt_err(int code, char *fmt, ...) { va_list ap; va_start(ap, fmt); char b[500]; nest(); if (fmt) vsnprintf(b, sizeof b, fmt, ap); else *b = 0; va_end(ap); opt_d->n(code); opt_d->s(b); return -1; }
static int opt_user(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error err) { int c = 0; nest(); char *v = zt_opt_get_value(argn, defn, argv, def, &c, err); nest(); opt_d->n(argn); opt_d->s(v); return c; }
static void w_opts(Rng &r, D &d) { D *keep = opt_d; opt_d = &d; int i = 0, fl = 0, bo = 0; long l = 0; intmax_t m = 0; char *s = NULL, **a = NULL; zt_opt_def_t o[] = {{'i', (char *)"int", (char *)"N", zt_opt_int, &i, (char *)"an int"}, {'f', (char *)"flag", NULL, zt_opt_flag_int, &fl, (char *)"f"}, {'b', (char *)"bool", (char *)"T", zt_opt_bool_int, &bo, (char *)"b"}, {'l', (char *)"long", (char *)"N", zt_opt_long, &l, (char *)"l"}, {'m', (char *)"max", (char *)"N", zt_opt_intmax, &m, (char *)"m"}, {'s', (char *)"str", (char *)"S", zt_opt_string, &s, (char *)"s"}, {'a', (char *)"arr", (char *)"A", zt_opt_string_array, &a, (char *)"a"}, {'u', (char *)"user", (char *)"U", opt_user, NULL, (char *)"u"}, {ZT_OPT_END()}};
    bool str = false; std::vector<std::string> v{"prog"}; for (unsigned k = 0, n = r.below(14); k < n; k++) switch (r.below(9)) { case 0: v.push_back("-i" + std::to_string((int)r.below(99))); break; case 1: v.push_back("--int=" + std::to_string((int)r.u64())); break; case 2: v.push_back("-fff"); break; case 3: v.push_back("-l"); v.push_back(std::to_string(r.below(1000))); break; case 4: if (str) break; str = true; v.push_back("--str"); v.push_back(r.str(r.below(9), "abc")); break; case 5: if (str) break; str = true; v.push_back("-fs" + r.str(1 + r.below(5), "abc")); break; case 6: v.push_back("--user=" + r.str(1 + r.below(5), "abc")); break; case 7: v.push_back("-b"); v.push_back("true"); break; case 8: v.push_back("-a" + r.str(1 + r.below(4), "xyz")); break; }
    std::vector<std::unique_ptr<char[]>> st; std::vector<char *> av; for (auto &x : v) { st.emplace_back(new char[x.size() + 1]); memcpy(st.back().get(), x.c_str(), x.size() + 1); av.push_back(st.back().get()); } av.push_back(NULL); int ac = (int)v.size(); d.n(zt_opt_process_args(&ac, av.data(), o, NULL, opt_err)); d.n(ac); d.n(i); d.n(fl); d.n(bo); d.n(l); d.n(m); d.s(s); for (char **p = a; p && *p; p++) { d.s(*p); free(*p); } free(a); free(s); char *e = zt_opt_error_str((int)r.below(30), (char *)"%s %d", "x", 5); d.t(e); opt_d = keep; }
static void w_path(Rng &r, D &d) { char b[300]; static std::atomic<unsigned> no{0}; snprintf(b, sizeof b, "%s/p%u-%u", scratch(), th_no, no.fetch_add(1, std::memory_order_relaxed)); std::string p = b; d.n(zt_mkdir(p.c_str(), 0755, (zt_mkdir_flags)0)); for (int i = 0; i < 3; i++) { std::string q = p + "/a" + std::to_string(r.below(2)) + "/b" + std::to_string(r.below(2)); d.n(zt_mkdir(q.c_str(), 0755, zt_mkdir_create_parent)); d.n(zt_path_exists(q.c_str())); d.n(zt_path_exists((q + "/none").c_str())); char *f = zt_find_basedir(q.c_str(), i ? "b0" : "a1"); d.n(f != NULL); d.s(f ? f + p.size() : NULL); free(f); } for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) rmdir((p + "/a" + std::to_string(i) + "/b" + std::to_string(j)).c_str()); rmdir((p + "/a" + std::to_string(i)).c_str()); } rmdir(p.c_str()); }
static void w_log(Rng &r, D &d) { char f[300]; snprintf(f, sizeof f, "%s/log-%u-%u", scratch(), th_no, (unsigned)r.below(1000)); zt_log_ty *l = zt_log_file(f, 0, ZT_LOG_WITH_LEVEL); d.n(l != NULL); if (!l) return; zt_log_set_level(l, (zt_log_level)r.below(zt_log_max)); for (int i = 0; i < 8; i++) { if (r.chance(1, 3)) zt_log_set_debug_info("src.c", i, "fn"); zt_log_lprintf(l, (zt_log_level)r.below(zt_log_max), "message %d %s", i, r.str(r.below(20), "abc%").c_str()); } d.n(zt_log_get_level(l)); d.n(zt_log_get_opts(l)); zt_log_close(l); FILE *i = fopen(f, "r"); char b[4000]; size_t n = i ? fread(b, 1, sizeof b, i) : 0; if (i) fclose(i); d.b(b, n); unlink(f); zt_log_set_debug_info(NULL, 0, NULL); }
static void *tfn(void *p) { nest(); ++*(int *)p; return p; }
static void w_time(Rng &r, D &d) { for (int i = 0; i < 10; i++) { struct timeval a = {(time_t)r.below(100000), (suseconds_t)r.below(1000000)}, b = {(time_t)r.below(100000), (suseconds_t)r.below(1000000)}, c; zt_add_time(&c, &a, &b); d.n(c.tv_sec); d.n(c.tv_usec); zt_sub_time(&c, &a, &b); d.n(c.tv_sec); d.n(c.tv_usec); zt_diff_time(&c, &a, &b); d.n(c.tv_sec); d.n(c.tv_usec); d.n(zt_cmp_time(&a, &b) > 0); } int n = 0; struct time_result tr; d.n(zt_time(5, &tr, tfn, &n) == &n); d.n(n); }
static std::atomic<unsigned> exits{0}; static unsigned want_exits;
static void w_atexit(Rng &r, D &d) { for (int i = 0; i < 3; i++) zt_atexit([](void *) { exits.fetch_add(1, std::memory_order_relaxed); }, NULL); }
typedef void (*Work)(Rng &, D &); struct Kind { const char *name; Work w; };
static const Kind KINDS[] = {{"table", w_table}, {"set", w_set}, {"tree", w_tree}, {"list", w_list}, {"llist", w_llist}, {"ptr_array", w_ptrs}, {"array", w_array}, {"buf", w_buf}, {"bstream", w_bstream}, {"base", w_base}, {"cstr", w_cstr}, {"format", w_format}, {"pool", w_pool}, {"ez", w_ez}, {"gc", w_gc}, {"sha1", w_sha}, {"hash", w_hash}, {"random", w_random}, {"uuid", w_uuid}, {"ipv4", w_ipv4}, {"cfg", w_cfg}, {"opts", w_opts}, {"path", w_path}, {"log", w_log}, {"time", w_time}, {"atexit", w_atexit}};
