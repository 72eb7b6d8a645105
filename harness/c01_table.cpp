#include "ztc.hpp"
#include <tuple>
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() {
    // the shared table pool is created lazily and lives for the process
    zt_table *t = zt_table_init((char *)"warm", zt_table_hash_int, zt_table_compare_int, 4, 0, NULL); zt_table_destroy(t);
}
bool vt_probe(const std::string &) { return false; }
enum Kind { INT, STR, STRCASE, BUF, USER };
struct Key { std::string s; uintptr_t i = 0; size_t len = 0; int id = 0; };
static int g_hmode; static uint64_t g_hsalt; static unsigned g_marker;
static std::string *g_cb_err;
static unsigned long user_hash(const void *k, size_t n, void *cd) {
    if (cd != &g_marker) fail("cdata", "user hash called with wrong user data");
    const unsigned char *c = (const unsigned char *)k; uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
    switch (g_hmode) { case 0: return 0; case 1: return n ? c[0] : 7; case 2: return (unsigned long)h; case 3: return (unsigned long)(h << 20); case 4: return ~0UL; case 5: return (h & 3) << 60 | (h & 1);
        case 6: return (h & 3) * 512; default: return (unsigned)(h & 0xffffffff); }
}
static unsigned long fold_hash(const void *k, size_t, void *) { uint32_t h = 5381; for (const unsigned char *c = (const unsigned char *)k; *c; c++) h = h * 33 + tolower(*c); return h; }
static int user_cmp(const void *a, size_t al, const void *b, size_t bl, void *cd) {
    if (cd != &g_marker) fail("cdata", "user compare called with wrong user data");
    return al == bl && (al == 0 || memcmp(a, b, al) == 0);
}
struct Ent { const Key *k; void *d; size_t dl; };
typedef std::map<std::string, std::vector<Ent>> Model;   // newest last
struct T { zt_table *t; Model m; bool dup; size_t count() { size_t n = 0; for (auto &e : m) n += e.second.size(); return n; } };
struct It { std::vector<Ent> seen; size_t stop_at = (size_t)-1; int stop_val = 0; Kind kind; T *del_from = nullptr; std::vector<const void*> delkeys; int every = 0; };
static int iter(void *key, size_t kl, void *d, size_t dl, void *p) {
    It *it = (It *)p; Key *k = new Key; k->len = kl;
    if (it->kind == INT) k->i = (uintptr_t)key; else { k->i = (uintptr_t)key; k->s.assign((char *)key, kl); }
    it->seen.push_back({k, d, dl});
    if (it->seen.size() == it->stop_at) return it->stop_val;
    if (it->every && it->seen.size() % it->every == 0) {
        void *r = zt_table_del(it->del_from->t, key, kl); (void)r; it->delkeys.push_back(d);
    }
    return 0;
}
static std::string canon(Kind k, const Key &key) {
    if (k == INT) return std::string((const char *)&key.i, key.len);
    if (k == STRCASE) { std::string s = key.s; for (auto &c : s) c = tolower((unsigned char)c); return s; }
    return key.s;
}
void vt_case(Rng &r, uint64_t) {
    Kind kind = (Kind)r.below(5); g_hmode = r.below(8);
    // key population
    size_t nk = 1 + r.below(r.chance(1, 6) ? 200 : 24); std::vector<Key> keys(nk);
    int shape = r.below(3);
    for (size_t i = 0; i < nk; i++) { Key &k = keys[i]; k.id = i;
        switch (kind) {
        case INT: { k.len = r.chance(3, 4) ? sizeof(void *) : 1 + r.below(8); k.i = shape == 0 ? r.below(8) : shape == 1 ? r.u64() : r.below(4) << (8 * r.below(8)); break; }
        case STR: case STRCASE: k.s = r.str(shape == 0 ? r.below(4) : r.below(20), shape == 1 ? "ab" : kind == STRCASE ? "aAbB" : "abcdefghijklmnopqrstuvwxyz0123"); k.len = k.s.size(); break;
        default: k.s = r.bytes(shape == 0 ? r.below(3) : r.below(40)); if (shape == 1) for (auto &c : k.s) c = r.below(2); k.len = k.s.size();
        } }
    int nt = 1 + r.below(3); std::vector<T> ts(nt);
    zt_table_hash_func_cb hf; zt_table_compare_cb cf; void *cd = NULL;
    switch (kind) { case INT: hf = zt_table_hash_int; cf = zt_table_compare_int; break; case STR: hf = zt_table_hash_string; cf = zt_table_compare_string; break;
        case STRCASE: hf = fold_hash; cf = zt_table_compare_string_case; break; case BUF: hf = zt_table_hash_buff; cf = zt_table_compare_buff; break; default: hf = user_hash; cf = user_cmp; cd = &g_marker; }
    bool weak = (kind == STR || kind == BUF) && r.chance(1, 3);
    if (weak) { hf = user_hash; cd = &g_marker; if (kind == STR && g_hmode > 6) g_hmode = 0; }
    op("kind=%d hmode=%d keys=%zu tables=%d", kind, g_hmode, nk, nt); mix(kind * 100 + nt); mix(g_hmode);
    for (auto &t : ts) {
        int fl = 0; size_t hint; if (r.chance(1, 3)) { fl |= ZT_TABLE_ALLOW_DUP_KEYS; }
        if (r.chance(1, 3)) { fl |= ZT_TABLE_SIZE_USE_HINT; hint = r.chance(1, 2) ? (size_t)1 << r.below(9) : r.below(300); }
        else { static const size_t hs[] = {0, 1, 2, 3, 7, 8, 10, 100, 128, 255, 256, 511, 512, 1000, 4095}; hint = hs[r.below(15)]; if (r.chance(1, 400)) hint = 32767 + r.below(32769); }
        t.dup = fl & ZT_TABLE_ALLOW_DUP_KEYS;
        t.t = zt_table_init(r.chance(1, 4) ? NULL : (char *)"tbl", hf, cf, hint, fl, cd);
        VT_CHECK(t.t, "init", "table could not be created (hint %zu flags %d)", hint, fl);
        op("init hint=%zu flags=%d", hint, fl); mix(hint * 4 + fl); ev("tables");
    }
    if (r.chance(1, 20)) { VT_CHECK(!zt_table_init((char *)"x", NULL, cf, 4, 0, cd) && !zt_table_init((char *)"x", hf, NULL, 4, 0, cd), "init-null", "table accepted without hash or compare function"); ev("init.null"); }
    auto kp = [&](const Key &k) -> const void * { return kind == INT ? (const void *)k.i : (const void *)k.s.c_str(); };
    std::vector<Key> probes;   // equal-content copies at other addresses
    size_t nops = 1 + r.below(r.chance(1, 8) ? 600 : 80); uintptr_t uid = 1; bool stored = false, looked = false;
    auto check_key = [&](T &t, const Key &k) {
        auto e = t.m.find(canon(kind, k)); errno = 0; Key cp = k; // a lookup key equal in content but elsewhere in memory
        if (kind == STRCASE) for (auto &c : cp.s) if (r.chance(1, 2)) c = isupper((unsigned char)c) ? tolower(c) : toupper(c);
        void *d = zt_table_get(t.t, kp(cp), k.len); looked = true;
        if (e == t.m.end()) { VT_CHECK(!d && errno == ENOENT, "get-absent", "lookup of an absent key returned %p (errno %d)", d, errno); ev("get.miss"); }
        else { VT_CHECK(d == e->second.back().d, "get-value", "lookup returned %p, the stored datum is %p", d, e->second.back().d); VT_CHECK(d || errno != ENOENT, "get-null", "present key with null datum reported absent"); ev("get.hit"); }
    };
    for (size_t o = 0; o < nops; o++) {
        T &t = r.pick(ts); const Key &k = r.pick(keys); int c = r.below(100);
        std::string ck = canon(kind, k); mix(c); mix(k.id);
        if (c < 45) {
            void *d = r.chance(1, 30) ? NULL : (void *)(uid++); size_t dl = r.below(100);
            int rc = zt_table_set(t.t, kp(k), k.len, d, dl); auto e = t.m.find(ck); stored = true;
            op("set k%d -> %p = %d", k.id, d, rc);
            if (e != t.m.end() && !t.dup) { VT_CHECK(rc == 1, "set-refused", "storing under a present key returned %d", rc); ev("set.refused"); }
            else { VT_CHECK(rc == 0, "set-new", "storing a new key returned %d", rc); if (e != t.m.end()) ev("dup.set"); t.m[ck].push_back({&k, d, dl}); ev("set.new"); }
            check_key(t, k);
        } else if (c < 65) { op("get k%d", k.id); check_key(t, k); }
        else if (c < 88) {
            errno = 0; Key cp = k; void *d = zt_table_del(t.t, kp(cp), k.len); auto e = t.m.find(ck); op("del k%d = %p", k.id, d);
            if (e == t.m.end()) { VT_CHECK(!d && errno == ENOENT, "del-absent", "deleting an absent key returned %p errno %d", d, errno); ev("del.miss"); }
            else { VT_CHECK(d == e->second.back().d, "del-value", "delete returned %p, expected %p", d, e->second.back().d); e->second.pop_back(); if (e->second.empty()) t.m.erase(e); ev("del.hit"); if (t.count() > 1 && ((weak || kind == USER) && (g_hmode == 0 || g_hmode == 4))) ev("del.mid_chain"); }
            check_key(t, k);
            if (r.chance(1, 4)) for (auto &kk : keys) check_key(t, kk);
        } else if (c < 96) {
            It it; it.kind = kind; size_t n = t.count(); int mode = r.below(3);
            if (mode == 1 && n) { it.stop_at = 1 + r.below(n); it.stop_val = r.chance(1, 2) ? 1 : -(int)r.below(100) - 1; }
            if (mode == 2) { it.every = 1 + r.below(3); it.del_from = &t; }
            int rc = zt_table_for_each(t.t, iter, &it);
            op("for_each mode=%d visited=%zu rc=%d", mode, it.seen.size(), rc);
            if (mode == 1 && n) { VT_CHECK(rc == it.stop_val && it.seen.size() == it.stop_at, "iter-stop", "iteration asked to stop at %zu with %d: visited %zu, returned %d", it.stop_at, it.stop_val, it.seen.size(), rc); ev("iter.stopped"); }
            else { VT_CHECK(rc == 0, "iter-rc", "full iteration returned %d", rc); if (mode != 2 || !t.dup) VT_CHECK(it.seen.size() == n, "iter-count", "iteration visited %zu of %zu entries", it.seen.size(), n); ev("iter.full"); }
            // every visited entry is a live entry, none twice
            if (mode != 2 || !t.dup) {
            std::map<std::string, std::vector<std::tuple<void *, size_t, uintptr_t>>> left; for (auto &e : t.m) for (auto &x : e.second) left[e.first].push_back({x.d, x.dl, (uintptr_t)kp(*x.k)});
            for (auto &s : it.seen) { Key kk = *s.k; auto f = left.find(canon(kind, kk)); bool ok = false; if (f != left.end()) for (size_t i = 0; i < f->second.size(); i++) if (f->second[i] == std::make_tuple(s.d, s.dl, s.k->i)) { f->second.erase(f->second.begin() + i); ok = true; break; }
                VT_CHECK(ok, "iter-entry", "iteration produced an entry (key %s datum %p len %zu) that is not (or no longer) in the table", esc(canon(kind, kk)).c_str(), s.d, s.dl); }
            }
            if (mode == 2) {   // entries deleted during the traversal: one per deletion, newest of that key
                size_t i = 0; for (size_t v = 0; v < it.seen.size(); v++) if ((v + 1) % it.every == 0) { auto e = t.m.find(canon(kind, *it.seen[v].k)); if (e != t.m.end()) { e->second.pop_back(); if (e->second.empty()) t.m.erase(e); } i++; }
                ev("iter.delete"); for (auto &kk : keys) check_key(t, kk);
            }
            for (auto &s : it.seen) delete s.k;
        } else if (nt > 1) {
            T &u = r.pick(ts); if (&u == &t) continue;
            if (t.dup) continue;   // copying out of a duplicate table: order among duplicates is unspecified
            if (u.count() + t.count() > 3000) continue;
            int rc = zt_table_copy(t.t, u.t); op("copy -> %d", rc);
            VT_CHECK((rc != 0) == (t.count() != 0), "copy-rc", "copy of a table with %zu entries returned %d", t.count(), rc);
            for (auto &e : t.m) { auto f = u.m.find(e.first); if (f == u.m.end() || u.dup) u.m[e.first].push_back(e.second.back()); }
            for (auto &kk : keys) { check_key(u, kk); check_key(t, kk); } ev("copy");
        }
    }
    for (auto &t : ts) { for (auto &k : keys) check_key(t, k); It it; it.kind = kind; zt_table_for_each(t.t, iter, &it); VT_CHECK(it.seen.size() == t.count(), "final-count", "table holds %zu entries, model %zu", it.seen.size(), t.count()); for (auto &s : it.seen) delete s.k; zt_table_destroy(t.t); }
    nontrivial(stored && looked);
}
