#include "ztc.hpp"
extern "C" {
#include <libzt/zt_ipv4_tbl.h>
}
#include <arpa/inet.h>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
void vt_init() { Quiet q; zt_mem_pool *p = zt_mem_pool_init((char *)"warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&p); }
struct Net { uint32_t addr; int bits; zt_ipv4_node *node; };
struct T { zt_ipv4_tbl *t; std::vector<Net> nets; bool any; uint32_t size; };
static uint32_t maskof(int b) { uint64_t m = 0; for (int i = 0; i < b; i++) m |= 1ull << (31 - i); return (uint32_t)m; }
static std::string dot(uint32_t a) { char b[40]; snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); return b; }
static char *hs(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static bool contains(const Net &n, uint32_t a, int bits) { return bits >= n.bits && (a & maskof(n.bits)) == n.addr; }
static void node_is(zt_ipv4_node *n, uint32_t a, int b, const char *key, const std::string &txt) { uint32_t m = maskof(b); VT_CHECK(n && n->addr && n->addr->addr == (a & m) && n->addr->bitlen == b && n->addr->mask == m && n->addr->broadcast == ((a & m) | ~m), key, "'%s' gives %08x/%d mask %08x broadcast %08x", txt.c_str(), n && n->addr ? n->addr->addr : 0, n && n->addr ? n->addr->bitlen : -1, n && n->addr ? n->addr->mask : 0, n && n->addr ? n->addr->broadcast : 0); }
static std::string bad(Rng &r, const std::string &ip) { switch (r.below(16)) { case 0: return ""; case 1: return "/24"; case 2: return ip + "/"; case 3: return ip + "/x"; case 4: return ip + "/-" + std::to_string(r.below(40)); case 5: return ip + "/24x"; case 6: return "256.1.1.1/8"; case 7: return "1.2.3.4.5"; case 8: return "hello"; case 9: return std::string(r.below(4000) + 16, '1'); case 10: return std::string(r.below(20) + 16, 'z') + "/8"; case 11: return "1..2.3"; case 12: return "1.2.3."; case 13: return ip + "/24/8"; case 14: return std::string(16, '1'); default: return "-1.2.3.4"; } }
void vt_case(Rng &r, uint64_t) {
    std::vector<T> ts; unsigned steps = 5 + r.below(60); uint32_t base[3] = {(uint32_t)r.u64(), 0xc0a80000u, (uint32_t)r.below(1 << 20)}; unsigned style = r.below(4); nontrivial(true); if (style == 2) steps = 60 + r.below(60);
    auto address = [&]() -> uint32_t { uint32_t b = base[r.below(3)]; switch (r.below(6)) { case 0: return (uint32_t)r.u64(); case 1: return b; case 2: return b ^ (uint32_t)r.below(256); case 3: return b ^ (1u << r.below(32)); case 4: return r.chance(1, 2) ? 0 : 0xffffffffu; default: return b ^ (uint32_t)r.below(1 << 16); } };
    auto mk = [&] { T t; uint32_t want = r.chance(1, 5) ? 0 : r.chance(1, 2) ? 1u << r.below(11) : 1 + r.below(300); t.t = zt_ipv4_tbl_init(want); VT_CHECK(t.t, "init", "no table"); t.size = want ? want : 128; t.any = false; op("new table %zu of %u", ts.size(), want); mix(want); ts.push_back(t); ev(ts.size() > 1 ? "table.another" : "table"); };
    mk();
    for (unsigned s = 0; s < steps; s++) {
        unsigned k = r.below(24); if (ts.empty()) { mk(); continue; } unsigned ti = r.below(ts.size()); T &t = ts[ti]; mix(k);
        if (k == 0 && ts.size() < 4) { mk(); continue; }
        if (k == 1 && r.chance(1, 3)) { op("destroy table %u", ti); zt_ipv4_tbl_destroy(t.t); ts.erase(ts.begin() + ti); ev(ts.empty() ? "destroy.last" : "destroy.one"); continue; }
        if (k < (style == 2 ? 16 : 9)) { uint32_t a = address(); int b = style == 1 ? 32 : style == 2 ? 1 + (int)(t.nets.size() % 32) : r.chance(1, 60) ? 0 : r.chance(1, 3) ? 32 : 1 + r.below(32); if (r.chance(1, 8) && !t.nets.empty()) { Net n = r.pick(t.nets); a = n.addr; b = n.bits; ev("add.duplicate"); } std::string txt = dot(a); if (b < 32 || r.chance(1, 2)) { int sb = b; if (b == 32 && r.chance(1, 10)) sb = 33 + r.below(1000); txt += "/" + std::to_string(sb); } mix(a); mix(b); op("table %u add %s", ti, txt.c_str()); char *p = hs(txt); zt_ipv4_node *n;
            if (t.any) { n = zt_ipv4_tbl_add_frm_str(t.t, p); VT_CHECK(n && n->addr && n->addr->bitlen == 0, "add-any", "adding to a table with 0.0.0.0/0 gives %p", (void *)n); ev("add.covered"); }
            else { bool own = r.chance(1, 4); if (own) { n = zt_ipv4_node_str_init(p); node_is(n, a, b, "node", txt); VT_CHECK(zt_ipv4_tbl_add_node(t.t, n) == 0, "add-node", "refused '%s'", txt.c_str()); ev("add.node"); } else { n = zt_ipv4_tbl_add_frm_str(t.t, p); ev("add.text"); } node_is(n, a, b, "add", txt); t.nets.push_back({a & maskof(b), b, n}); if (b == 0) { t.any = true; ev("add.any"); } if (b == 32) ev("add.host"); std::set<int> lens; for (auto &x : t.nets) if (x.bits) lens.insert(x.bits); if (lens.size() == 32) ev("all.lengths"); }
            free(p); }
        else if ((k == 9 || k == 16) && !t.any) { std::string txt = bad(r, dot(address())); char *p = hs(txt); op("bad %s", esc(txt, 40).c_str()); uint32_t oa = 5; int ob = 6; VT_CHECK(zt_ipv4_str2net(p, &oa, &ob) == -1, "malformed", "'%s' is accepted as %08x/%d", esc(txt, 60).c_str(), oa, ob); VT_CHECK(!zt_ipv4_tbl_add_frm_str(t.t, p), "malformed", "'%s' was added", esc(txt, 60).c_str()); VT_CHECK(!zt_ipv4_tbl_search_from_str(t.t, p), "malformed", "'%s' was found", esc(txt, 60).c_str()); VT_CHECK(!zt_ipv4_node_str_init(p) && !zt_ipv4_addr_frm_str(p), "malformed", "'%s' gives a node", esc(txt, 60).c_str()); free(p); ev("malformed"); }
        else if (k == 10 || k == 17) { uint32_t a = address(); std::string txt = dot(a); char *p = hs(txt), *q = zt_ipv4_int2ip(a); VT_CHECK(zt_ipv4_ip2int(p) == a && txt == q, "ip", "%08x: %08x '%s'", a, zt_ipv4_ip2int(p), q); free(p); free(q); int b = r.below(33); txt += "/" + std::to_string(b); p = hs(txt); uint32_t oa; int ob; VT_CHECK(zt_ipv4_str2net(p, &oa, &ob) == 0 && oa == a && ob == b, "str2net", "'%s': %08x/%d", txt.c_str(), oa, ob); free(p); ev("convert"); }
        else if (k == 11) { VT_CHECK(!zt_ipv4_tbl_add_frm_str(NULL, "1.2.3.4") && !zt_ipv4_tbl_add_frm_str(t.t, NULL) && !zt_ipv4_tbl_search_from_str(NULL, "1.2.3.4") && !zt_ipv4_tbl_search_from_str(t.t, NULL) && zt_ipv4_tbl_add_node(NULL, NULL) == -1 && !zt_ipv4_addr_frm_str(NULL) && !zt_ipv4_node_str_init(NULL) && zt_ipv4_str2net(NULL, NULL, NULL) == -1, "null", "null arguments accepted"); ev("null"); }
        else { // searches
            for (int q = 0; q < 4; q++) { uint32_t a = address(); int b = 32; if (!t.nets.empty() && r.chance(2, 3)) { Net n = r.pick(t.nets); switch (r.below(5)) { case 0: a = n.addr; break; case 1: a = n.addr | ~maskof(n.bits); break; case 2: a = n.addr - 1; break; case 3: a = (n.addr | ~maskof(n.bits)) + 1; break; default: a = n.addr | ((uint32_t)r.u64() & ~maskof(n.bits)); } if (r.chance(1, 4)) b = n.bits + r.range(-1, 1); } else if (r.chance(1, 5)) b = r.below(33); if (b < 0) b = 0; if (b > 32) b = 32;
                std::string txt = dot(a); if (b < 32 || r.chance(1, 2)) txt += "/" + std::to_string(b); uint32_t na = a & maskof(b); bool want = t.any; for (auto &n : t.nets) want |= contains(n, na, b); char *p = hs(txt); zt_ipv4_node *m; op("table %u search %s", ti, txt.c_str());
                if (r.chance(1, 3)) { zt_ipv4_node *n = zt_ipv4_node_str_init(p); node_is(n, a, b, "node", txt); m = zt_ipv4_tbl_search_node(t.t, n); for (auto &x : t.nets) VT_CHECK(ipv4_tbl_addr_cmp(x.node->addr, n->addr) == (contains(x, na, b) ? 1 : 0), "cmp", "%s within %s/%d: %d", txt.c_str(), dot(x.addr).c_str(), x.bits, ipv4_tbl_addr_cmp(x.node->addr, n->addr)); VT_CHECK(n->addr->addr == na && n->addr->bitlen == b, "needle", "a search changed the node"); zt_mem_pool_release((void **)&n->addr); zt_mem_pool_release((void **)&n); ev("search.node"); } else m = zt_ipv4_tbl_search_from_str(t.t, p);
                free(p); VT_CHECK((m != NULL) == want, want ? "missed" : "invented", "table %u (%zu networks): %s is %s", ti, t.nets.size(), txt.c_str(), m ? "found" : "not found"); if (m) { bool mine = false; for (auto &n : t.nets) mine |= n.node == m && contains(n, na, b); VT_CHECK(mine, "wrong-network", "%s found in %s/%d, which the table does not hold or which does not contain it", txt.c_str(), dot(m->addr->addr).c_str(), m->addr->bitlen); ev(b < 32 ? "search.network.hit" : "search.hit"); } else ev(b < 32 ? "search.network.miss" : "search.miss"); evaluations(1); } }
        for (auto &x : ts) for (auto &n : x.nets) VT_CHECK(n.node->addr->addr == n.addr && n.node->addr->bitlen == n.bits, "node-changed", "a stored network changed");
    }
    for (auto &t : ts) { zt_ipv4_tbl_destroy(t.t); } zt_ipv4_tbl_destroy(NULL); ts = std::vector<T>(); VT_CHECK(!zt_ipv4_node_str_init("1.2.3.4"), "after", "a node without any table");
}
