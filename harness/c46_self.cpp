// Objects that are their own counterpart and values handed back to where they came from: each operation once with
// the shared operand and once with a separate twin of it; what comes out must be the same.
#include "ztc.hpp"
#include <map>
#include <memory>
using namespace vt;
const bool vt_leakcheck = true;
void vt_init() { Quiet q; time_t t = 0; localtime(&t); zt_log_ty *l = zt_log_stderr(0); zt_log_set_level(l, zt_log_emerg); zt_log_logger(l); zt_progname("self", 0); }
bool vt_probe(const std::string &) { return false; }
static const char *TXT = "ab/ .xyz019-\xe4";
static std::string path(Rng &r) { std::string s; for (unsigned n = (unsigned)r.below(5); n; n--) { if (r.chance(2, 3)) s += "/"; if (r.chance(1, 5)) s += "//"; s += r.str(r.below(r.chance(1, 12) ? 200 : 7), "ab.xyz019-"); } if (r.chance(1, 4)) s += "/"; if (r.chance(1, 5)) s += ".so"; return s; }
static bool eq(const struct timeval &a, const struct timeval &b) { return a.tv_sec == b.tv_sec && a.tv_usec == b.tv_usec; }
static struct timeval tv(Rng &r) { struct timeval t; t.tv_sec = (long)r.below(r.chance(1, 2) ? 4 : 2000000000); t.tv_usec = r.chance(1, 3) ? (long)(r.chance(1, 2) ? 0 : 999999) : (long)r.below(1000000); return t; }
static void times(Rng &r) {
    struct timeval a = tv(r), b = tv(r); typedef struct timeval *(*F)(struct timeval *, struct timeval *, struct timeval *); static const F f[] = {zt_add_time, zt_sub_time, zt_diff_time}; static const char *const nm[] = {"zt_add_time", "zt_sub_time", "zt_diff_time"};
    for (int k = 0; k < 3; k++) { struct timeval x = a, y = b, z, w; f[k](&z, &x, &y); w = a; f[k](&w, &w, &y); VT_CHECK(eq(w, z), "time", "%s into its first operand: %ld.%06ld, into another: %ld.%06ld", nm[k], (long)w.tv_sec, (long)w.tv_usec, (long)z.tv_sec, (long)z.tv_usec); w = b; f[k](&w, &x, &w); VT_CHECK(eq(w, z), "time", "%s into its second operand: %ld.%06ld, into another: %ld.%06ld", nm[k], (long)w.tv_sec, (long)w.tv_usec, (long)z.tv_sec, (long)z.tv_usec); y = a; f[k](&z, &x, &y); w = a; f[k](&w, &w, &w); VT_CHECK(eq(w, z), "time", "%s of a time and itself into itself: %ld.%06ld, with separate ones: %ld.%06ld", nm[k], (long)w.tv_sec, (long)w.tv_usec, (long)z.tv_sec, (long)z.tv_usec); f[k](&w, &x, &x); VT_CHECK(eq(w, z), "time", "%s of a time and itself differs from that of two equal ones", nm[k]); }
    VT_CHECK(zt_cmp_time(&a, &a) == 0, "time", "a time differs from itself"); evaluations(13); ev("time"); }
static int sm(const void *a, size_t al, const void *b, size_t bl, void *) { return al == bl && !memcmp(a, b, al); }
static const char POOL[] = "abcdefghijklmnopqrstuvwxyz0123456789";
static int count_it(void *, void *p) { ++*(int *)p; return 0; }
static std::string members(zt_set *s) { std::string x; for (int i = 0; i < 30; i++) for (int l = 1; l < 4; l++) x += zt_set_is_member(s, POOL + i, l) ? '1' : '0'; int n = 0; zt_set_for_each(s, count_it, &n); return x + " " + std::to_string(n) + " " + std::to_string((int)zt_set_size(s)); }
static void sets(Rng &r) {
    typedef int (*F)(zt_set *, const zt_set *, const zt_set *); static const F f[] = {zt_set_union, zt_set_intersection, zt_set_difference}; static const char *const nm[] = {"union", "intersection", "difference"}; std::vector<std::pair<int, int>> m[3]; for (auto &v : m) for (unsigned n = (unsigned)r.below(r.chance(1, 6) ? 60 : 12); n; n--) v.push_back({(int)r.below(30), 1 + (int)r.below(3)});
    auto mk = [&](int i) { zt_set *s = zt_set_init(sm, NULL, NULL); for (auto &e : m[i]) zt_set_insert(s, POOL + e.first, e.second); return s; };
    int k = (int)r.below(3), d = (int)r.below(3), a = (int)r.below(3), b = (int)r.below(3); // which of the three sets plays which part
    zt_set *x[3] = {mk(0), mk(1), mk(2)}, *td = mk(d), *ta = mk(a), *tb = mk(b); int r1 = f[k](x[d], x[a], x[b]), r2 = f[k](td, ta, tb); std::string g = members(x[d]), w = members(td);
    VT_CHECK(r1 == r2 && g == w, "set", "%s of sets %d and %d into set %d gives %d and %s, of separate twins %d and %s", nm[k], a, b, d, r1, g.c_str(), r2, w.c_str()); VT_CHECK(zt_set_is_equal(x[a], x[a]) && zt_set_is_subset(x[a], x[a]), "set", "a set is not equal to or not part of itself"); for (int i = 0; i < 3; i++) if (i != d) { zt_set *t = mk(i); VT_CHECK(members(t) == members(x[i]), "set", "an operand changed"); zt_set_destroy(t); }
    for (zt_set *s : {x[0], x[1], x[2], td, ta, tb}) zt_set_destroy(s); if (d == a || d == b || a == b) ev("set"); evaluations(3); mix(g); }
static unsigned long th(const void *k, size_t n, void *) { unsigned long h = 5; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)k)[i]; return h; }
static int tc(const void *a, size_t al, const void *b, size_t bl, void *) { return al == bl && !memcmp(a, b, al); }
static int tdump(void *k, size_t kl, void *dt, size_t dl, void *p) { (*(std::map<std::string, int> *)p)[std::string((char *)k, kl) + "=" + std::string((char *)dt, dl)]++; return 0; }
struct Del { zt_table *t; int n; }; static int tdel(void *k, size_t kl, void *, size_t, void *p) { Del *d = (Del *)p; if (((char *)k)[0] & 1) { zt_table_del(d->t, k, kl); d->n++; } return 0; }
static void tables(Rng &r) {
    int flags = (int)r.below(4); zt_table *t = zt_table_init((char *)"self", th, tc, 1 + r.below(20), flags, NULL), *u = zt_table_init((char *)"twin", th, tc, 1 + r.below(20), flags, NULL); for (unsigned n = (unsigned)r.below(30); n; n--) { const char *k = POOL + r.below(30); size_t kl = 1 + r.below(3); const char *d = r.chance(1, 3) ? k : POOL + r.below(30); size_t dl = d == k ? kl : 1 + r.below(4); zt_table_set(t, k, kl, d, dl); zt_table_set(u, k, kl, d, dl); }
    zt_table *v = zt_table_init((char *)"copy", th, tc, 16, flags, NULL); zt_table_copy(u, v); int r1 = zt_table_copy(t, t), r2 = zt_table_copy(v, u); std::map<std::string, int> a, b; zt_table_for_each(t, tdump, &a); zt_table_for_each(u, tdump, &b); VT_CHECK((r1 < 0) == (r2 < 0) && r1 == r2, "table", "copying a table into itself returns %d, a twin %d", r1, r2); VT_CHECK(a == b, "table", "copying a table into itself leaves %zu different entries, a twin %zu", a.size(), b.size());
    if (!(flags & ZT_TABLE_ALLOW_DUP_KEYS)) { Del d = {t, 0}; int before = 0; for (auto &e : a) before += e.second; zt_table_for_each(t, tdel, &d); a.clear(); zt_table_for_each(t, tdump, &a); int after = 0; for (auto &e : a) { after += e.second; VT_CHECK(!(e.first[0] & 1), "table", "an entry deleted by its own key is still there"); } VT_CHECK(after == before - d.n, "table", "%d entries deleted by their own keys, %d gone", d.n, before - after); ev("table.own.key"); }
    zt_table_destroy(t); zt_table_destroy(u); zt_table_destroy(v); evaluations(2); ev("table"); mix(b.size()); }
static void arrays(Rng &r) {
    { zt_ptr_array *a = zt_ptr_array_init(NULL, NULL), *b = zt_ptr_array_init(NULL, NULL); std::vector<void *> m; for (unsigned n = (unsigned)r.below(r.chance(1, 5) ? 90 : 12); n; n--) { void *p = (void *)(POOL + r.below(30)); zt_ptr_array_add(a, p); m.push_back(p); }
      for (unsigned n = 1 + (unsigned)r.below(4); n; n--) switch (r.below(4)) {
        case 0: { VT_CHECK(zt_ptr_array_cat(a, a) == 0, "pointers", "an array is not joined to itself"); size_t c = m.size(); for (size_t i = 0; i < c; i++) m.push_back(m[i]); ev("pointers.cat"); break; }
        case 1: if (!m.empty()) { size_t i = r.below(m.size()); VT_CHECK(zt_ptr_array_move_idx_to_idx(a, (int)i, (int)i) == 0, "pointers", "moving an element to its own place fails"); ev("pointers.place"); } break;
        case 2: if (!m.empty()) { size_t i = r.below(m.size()); VT_CHECK(zt_ptr_array_add(a, zt_ptr_array_get_idx(a, (int)i)) == 0, "pointers", "an array's own element is not added"); m.push_back(m[i]); ev("pointers.add"); } break;
        default: if (!m.empty()) { void *p = zt_ptr_array_get_idx(a, (int)r.below(m.size())); VT_CHECK(zt_ptr_array_del(a, p) == 0, "pointers", "an array's own element is not removed"); for (size_t i = 0; i < m.size(); i++) if (m[i] == p) { m[i] = m.back(); m.pop_back(); break; } } }
      bool ok = (size_t)a->count == m.size(); for (size_t i = 0; ok && i < m.size(); i++) ok = zt_ptr_array_get_idx(a, (int)i) == m[i]; VT_CHECK(ok, "pointers", "%d pointers, %zu expected, or other ones", (int)a->count, m.size()); zt_ptr_array_free(a, 0); zt_ptr_array_free(b, 0); }
    { size_t n = 2 + r.below(20), es = 1 + r.below(16); std::string m = r.bytes(n * es); zt_array_t a = zt_array_with((char *)m.data(), n, es, 1); for (unsigned k = 1 + (unsigned)r.below(8); k; k--) { size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n; void *p = zt_array_get(a, j); if (r.chance(1, 2)) { VT_CHECK(zt_array_put(a, i, p) == p, "array", "putting an own element returns another"); m.replace(i * es, es, m.substr(j * es, es)); } else { zt_array_elem_copy(a, i, p); m.replace(j * es, es, m.substr(i * es, es)); } } VT_CHECK(!memcmp(zt_array_data(a), m.data(), m.size()), "array", "an element put or copied within its array comes out different"); zt_array_free(&a); ev("array"); }
    { size_t n = 1 + r.below(60); std::string m = r.bytes(n); zt_array_t a = zt_array_with((char *)m.data(), n, 1, 1); zt_bstream_t s = zt_bstream_new(); zt_bstream_set_array(s, a, 0); for (unsigned k = 1 + (unsigned)r.below(4); k; k--) { size_t at = r.below(n), len = 1 + r.below(n - at); char b[64]; zt_bstream_set_array(s, a, at); zt_bstream_read(s, b, len, 1, 0); VT_CHECK(!memcmp(b, &m[at], len), "stream", "a stream put at %zu of the array it has reads %s, %s expected", at, esc(b, len, 40).c_str(), esc(&m[at], len, 40).c_str()); ev("stream.seek"); } if (r.chance(1, 2)) { size_t at = r.below(n), len = 1 + r.below(n - at); zt_bstream_set_data(s, zt_array_data(a) + at, (int)len, 1); zt_bstream_rewind(s); char b[64]; zt_bstream_read(s, b, len, 1, 0); VT_CHECK(!memcmp(b, &m[at], len), "stream", "a stream given a part of its own data reads other data"); ev("stream.part"); } zt_bstream_free(&s); }
    evaluations(3); }
static void buffers(Rng &r) {
    zt_buf_t *b = zt_buf_new(); std::string m; unsigned own = 0; for (unsigned n = 2 + (unsigned)r.below(14); n; n--) { auto add = [&](const std::string &d) { VT_CHECK(zt_buf_add(b, (void *)d.data(), d.size()) == 0, "buffer", "not added"); m += d; };
        switch (r.below(7)) { case 0: add(r.bytes(r.below(r.chance(1, 3) ? 1500 : 40))); break;
        case 1: { std::string o(r.below(m.size() + 2), 0); size_t g = zt_buf_remove(b, &o[0], o.size()); VT_CHECK(g == std::min(o.size(), m.size()) && !memcmp(o.data(), m.data(), g), "buffer", "removed %zu", g); m.erase(0, g); break; }
        case 2: case 3: if (!m.empty()) { size_t at = r.chance(1, 3) ? 0 : r.below(m.size()), len = r.chance(1, 3) ? m.size() - at : r.below(m.size() - at + 1); std::string d = m.substr(at, len); VT_CHECK(zt_buf_add(b, (char *)zt_buf_get(b) + at, len) == 0, "buffer", "a part of a buffer is not added to it"); m += d; own++; } break;
        case 4: { VT_CHECK(zt_buf_add_buf(b, b) == 0, "buffer", "a buffer is not moved onto itself"); own++; ev("buffer.self"); break; }
        case 5: if (!m.empty()) { zt_iov_t v[4]; std::string d; std::string f = r.bytes(20); int k = 1 + (int)r.below(4); for (int i = 0; i < k; i++) if (r.chance(2, 3)) { size_t at = r.below(m.size()), len = r.below(m.size() - at + 1); v[i].iov_data = (char *)zt_buf_get(b) + at; v[i].iov_len = len; d += m.substr(at, len); } else { v[i].iov_data = (char *)f.data(); v[i].iov_len = r.below(21); d += f.substr(0, v[i].iov_len); } VT_CHECK(zt_buf_iov_add(b, v, k) == 0, "buffer", "parts of a buffer are not added to it"); m += d; own++; ev("buffer.parts"); } break;
        default: { size_t k = r.below(m.size() + 1); zt_buf_drain(b, k); m.erase(0, k); } }
        VT_CHECK(zt_buf_length(b) == m.size() && (m.empty() || !memcmp(zt_buf_get(b), m.data(), m.size())), "buffer", "a buffer added to itself or parts of itself holds %zu bytes, %zu expected, or other ones", zt_buf_length(b), m.size()); if (m.size() > 60000) break; }
    if (own) { ev("buffer"); mix(m.size() * 64 + own); } zt_buf_free(b); evaluations(1); }
static void codes(Rng &r) {
    zt_base_definition_t *const D[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; zt_base_definition_t *d = D[r.below(6)]; std::string in = r.bytes(1 + r.below(r.chance(1, 4) ? 300 : 12)); void *e = NULL; size_t en = 0; if (zt_base_encode(d, in.data(), in.size(), &e, &en)) harness_error("encode"); std::string t((char *)e, en); zt_free(e); for (unsigned n = (unsigned)r.below(3); n; n--) { unsigned k = (unsigned)r.below(4); if (k == 0) t.insert(r.below(t.size()), "\n"); else if (k == 1 && t.size() > 1) t.resize(t.size() - 1); else if (k == 2) t[r.below(t.size())] = (char)r.below(256); }
    size_t n1 = t.size() + 8, n2 = t.size(); std::string sep(n1, 'x'); void *o1 = &sep[0]; int r1 = zt_base_decode(d, t.data(), t.size(), &o1, &n1); std::unique_ptr<char[]> own(new char[t.size()]); memcpy(own.get(), t.data(), t.size()); void *o2 = own.get(); int r2 = zt_base_decode(d, own.get(), n2, &o2, &n2); if (r2 != -2) { VT_CHECK(r1 == r2, "decode", "%s decoded in place returns %d, elsewhere %d", esc(t, 60).c_str(), r2, r1); if (r1 == 0) { VT_CHECK(n1 == n2 && !memcmp(own.get(), sep.data(), n1), "decode", "%s decoded in place gives %s, elsewhere %s", esc(t, 60).c_str(), esc(own.get(), n2, 60).c_str(), esc(sep.data(), n1, 60).c_str()); ev("decode"); } else ev("decode.bad"); } mix(t);
    std::string hx; for (unsigned char c : in) { char b[3]; snprintf(b, 3, r.chance(1, 2) ? "%02x" : "%02X", c); hx += b; } if (r.chance(1, 4)) hx[r.below(hx.size())] = 'g'; std::string hc = hx, out(in.size() + 1, 0); size_t a = zt_hex_to_binary((char *)hx.data(), hx.size(), &out[0], in.size()), b = zt_hex_to_binary(&hc[0], hc.size(), &hc[0], in.size()); VT_CHECK(a == b && !memcmp(out.data(), hc.data(), a), "hex", "%s turned to bytes in place gives %zu bytes, elsewhere %zu, or others", esc(hx, 60).c_str(), b, a); if (a) ev("hex");
    std::string dat = r.bytes(20 + r.below(80)), ds = dat; uint8_t dg[20]; zt_sha1_data((void *)dat.data(), dat.size(), dg); size_t at = r.below(ds.size() - 19); zt_sha1_data(&ds[0], ds.size(), (uint8_t *)&ds[at]); VT_CHECK(!memcmp(dg, &ds[at], 20), "sha1", "a digest stored over the data differs"); ev("sha1"); char st[41]; zt_sha1_tostr(dg, st); uint8_t d2[40]; memcpy(d2, st, 40); char hs[41]; memcpy(hs, st, 41); zt_str_tosha1(hs, (uint8_t *)hs); VT_CHECK(!memcmp(hs, dg, 20), "sha1", "a digest read from text in place differs"); 
    zt_uuid_t u, v; static const zt_uuid_ns NS[] = {UUID_NS_DNS, UUID_NS_URL, UUID_NS_OID, UUID_NS_X500}; memcpy(u.data.bytes, dg, 16); zt_uuid_ns ns = NS[r.below(4)]; zt_uuid_t src = u; zt_uuid5((char *)src.data.bytes, 16, ns, &v); zt_uuid5((char *)u.data.bytes, 16, ns, &u); VT_CHECK(zt_uuid_cmp(&u, &v) == 0 && zt_uuid_cmp(&u, &u) == 0, "uuid", "an identifier named by the bytes it replaces differs"); ev("uuid"); evaluations(4); }
static std::string take(char *p) { std::string s = p ? p : "(null)"; free(p); return s; }
static void texts(Rng &r) {
    std::string s = r.str(1 + r.below(r.chance(1, 5) ? 80 : 12), TXT), t = s; const char *p = s.c_str(), *q = t.c_str(); ssize_t n = (ssize_t)s.size(), i = (ssize_t)r.below(n), j = (ssize_t)r.below(n), i2 = (ssize_t)r.below(n), j2 = (ssize_t)r.below(n); if (r.chance(1, 2)) { i = 0; j = -1; }
    VT_CHECK(take(zt_cstr_cat(p, i, j, p, i2, j2)) == take(zt_cstr_cat(p, i, j, q, i2, j2)), "text", "a text joined to itself differs from one joined to its twin"); VT_CHECK(take(zt_cstr_catv(p, (int)i, (int)j, p, (int)i2, (int)j2, p, 0, -1, NULL)) == take(zt_cstr_catv(p, (int)i, (int)j, q, (int)i2, (int)j2, std::string(s).c_str(), 0, -1, NULL)), "text", "a text joined to itself twice differs"); VT_CHECK(take(zt_cstr_map(p, i, j, p, p)) == take(zt_cstr_map(p, i, j, q, std::string(s).c_str())), "text", "a text mapped by itself differs"); VT_CHECK(take(zt_cstr_path_append(p, p)) == take(zt_cstr_path_append(p, q)), "text", "a path appended to itself differs");
    VT_CHECK(zt_cstr_cmp(p, i, j, p, i, j) == 0, "text", "a text differs from itself"); int c1 = zt_cstr_cmp(p, i, j, p, i2, j2), c2 = zt_cstr_cmp(p, i, j, q, i2, j2); VT_CHECK((c1 > 0) == (c2 > 0) && (c1 < 0) == (c2 < 0), "text", "comparing parts of one text differs from comparing parts of twins"); typedef ssize_t (*S)(const char *, ssize_t, ssize_t, const char *); static const S f[] = {zt_cstr_upto, zt_cstr_rupto, zt_cstr_find, zt_cstr_rfind, zt_cstr_any, zt_cstr_rany}; for (int k = 0; k < 6; k++) { ssize_t a = f[k](p, i, j, p + i2), b = f[k](p, i, j, q + i2); VT_CHECK(a == b, "text", "search %d for an end of the text in itself gives %zd, for its twin %zd", k, a, b); }
    auto list = [](zt_ptr_array *a) { std::string x; if (!a) return x = "none"; for (int k = 0; k < a->count; k++) x += std::string((char *)zt_ptr_array_get_idx(a, k)) + "|"; zt_cstr_split_free(a); return x; }; VT_CHECK(list(zt_cstr_split(p, p + i2)) == list(zt_cstr_split(p, q + i2)), "text", "a text split by its own end differs"); ev("text");
    { std::vector<char> b(s.begin(), s.end()), w; b.resize(s.size() * 2 + 4, '_'); w = b; size_t lo = (size_t)std::min(i, j < 0 ? n - 1 : j), hi = (size_t)(j < 0 ? n - 1 : std::max(i, j)), len = hi - lo + 1, to = r.below(s.size() + 2), lim = r.chance(1, 4) ? r.below(len + 1) : len; if (to + lim < b.size()) { b.back() = 0; w.back() = 0; std::string whole(b.data()); size_t g = zt_cstr_copy(b.data(), (ssize_t)lo, (ssize_t)hi, b.data() + to, lim), e = zt_cstr_copy(whole.c_str(), (ssize_t)lo, (ssize_t)hi, w.data() + to, lim); VT_CHECK(g == e && b == w, "copy", "a part of %s copied to %zu of the same text: %s, from a twin: %s", esc(s, 60).c_str(), to, esc(b.data(), b.size(), 60).c_str(), esc(w.data(), w.size(), 60).c_str()); ev("copy.within"); } }
    std::string pa = path(r); const char *suf = r.chance(1, 2) ? NULL : r.chance(1, 2) ? ".so" : "x"; size_t room = pa.size() + 1 + r.below(20); std::vector<char> sep(room, '?'); for (int k = 0; k < 2; k++) { size_t sh = r.below(std::min<size_t>(room - pa.size(), 5)); std::vector<char> own(room, '#'); memcpy(&own[sh], pa.c_str(), pa.size() + 1); size_t len = room; char *g = k ? zt_cstr_dirname(own.data(), len, &own[sh]) : zt_cstr_basename(own.data(), len, &own[sh], suf), *w = k ? zt_cstr_dirname(sep.data(), len, pa.c_str()) : zt_cstr_basename(sep.data(), len, pa.c_str(), suf); VT_CHECK(g == own.data() && w == sep.data() && !strcmp(g, w), "path", "%s of %s over itself is '%s', elsewhere '%s'", k ? "directory" : "name", esc(pa, 80).c_str(), esc(g, strlen(g), 80).c_str(), esc(w, strlen(w), 80).c_str()); ev(k ? "dirname" : "basename"); }
    if (!pa.empty()) { zt_progname(pa.c_str(), 0); std::string cut = pa.substr(0, PATH_MAX); char *g = zt_progname(NULL, 0); size_t sk = r.below(cut.size()); int strip = (int)r.below(2) ? STRIP_DIR : 0; if (r.chance(1, 2)) sk = 0; std::string arg = cut.substr(sk), want; g = zt_progname(g + sk, strip); want = g; zt_progname("other/thing", 0); VT_CHECK(want == zt_progname(arg.c_str(), strip), "program", "the program's name %s set again is '%s', set from a twin '%s'", esc(arg, 80).c_str(), want.c_str(), zt_progname(NULL, 0)); ev("program"); }
    evaluations(8); mix(s); mix(pa); }
static void settings(Rng &r) {
    static const char *const V[] = {"one", "two", "three", "four"}; static std::string f = std::string(scratch()) + "/self.ini"; zt_cfg_ty *c; { Quiet q; FILE *o = fopen(f.c_str(), "w"); fprintf(o, "[b]\none = 'first value'\ntwo = 'true'\nthree = yes\nfour = 17\n"); fclose(o); } c = zt_cfg_ini((char *)f.c_str(), 0); if (!c) harness_error("cfg"); std::map<std::string, std::string> m = {{"one", "first value"}, {"two", "true"}}; unsigned own = 0;
    for (unsigned n = 1 + (unsigned)r.below(10); n; n--) { std::string from = V[r.below(4)], to = V[r.below(4)]; if (r.chance(1, 3)) { std::string nv = r.chance(1, 4) ? "no" : r.chance(1, 4) ? V[r.below(4)] : r.str(1 + r.below(60), "abc xyz-"); char *s = (char *)nv.c_str(); zt_cfg_set(c, (char *)"b", (char *)to.c_str(), &s, zt_cfg_string); m[to] = nv; continue; }
        if (!m.count(from)) continue; char *s = NULL; VT_CHECK(zt_cfg_get(c, (char *)"b", (char *)from.c_str(), &s, zt_cfg_string) >= 0 && s && m[from] == s, "settings", "%s is %s, %s expected", from.c_str(), s ? s : "absent", m[from].c_str()); std::string val = m[from];
        if (r.chance(1, 5) && !val.empty()) { char *x = (char *)"named"; zt_cfg_set(c, (char *)"b", s, &x, zt_cfg_string); m[val] = "named"; char *g = NULL; VT_CHECK(zt_cfg_get(c, (char *)"b", (char *)val.c_str(), &g, zt_cfg_string) >= 0 && g && !strcmp(g, "named"), "settings", "a setting named by a stored value is not set"); ev("settings.name"); }
        else { std::string k = r.chance(1, 2) ? from : to; if (r.chance(1, 6)) { char *z = s + strlen(s); if (r.chance(1, 2) && *s) z = s + r.below(val.size()); val = z; s = z; } VT_CHECK(zt_cfg_set(c, (char *)"b", (char *)k.c_str(), &s, zt_cfg_string) >= 0, "settings", "a stored value is refused"); m[k] = val; ev(k == from ? "settings.same" : "settings.other"); } own++; }
    for (auto &e : m) { char *s = NULL; VT_CHECK(zt_cfg_get(c, (char *)"b", (char *)e.first.c_str(), &s, zt_cfg_string) >= 0 && s && e.second == s, "settings", "%s is %s, %s expected", e.first.c_str(), s ? s : "absent", e.second.c_str()); } if (own) ev("settings"); zt_cfg_close(c); evaluations(1); mix(own); }
void vt_case(Rng &r, uint64_t idx) {
    nontrivial(true); switch (idx % 8) { case 0: op("times"); for (int i = 0; i < 8; i++) times(r); break; case 1: op("sets"); sets(r); break; case 2: op("tables"); tables(r); break; case 3: op("arrays"); arrays(r); break; case 4: op("buffers"); buffers(r); break; case 5: op("codes"); codes(r); break; case 6: op("texts"); texts(r); break; default: op("settings"); settings(r); } }
