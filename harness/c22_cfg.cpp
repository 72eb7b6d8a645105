#include "ztc.hpp"
#include <float.h>
#include <math.h>
#include <strings.h>
using namespace vt;
const bool vt_leakcheck = true;
bool vt_probe(const std::string &) { return false; }
static void muted(const std::function<void()> &f, std::string *out = nullptr) { FILE *e = stderr; char *mm = NULL; size_t l = 0; { Quiet q; stderr = open_memstream(&mm, &l); } f(); { Quiet q; fclose(stderr); stderr = e; if (out) out->assign(mm, l); free(mm); } }
void vt_init() { Quiet q; muted([] { zt_cfg_ini((char *)"/nonexistent/x", 0); zt_log_printf(zt_log_err, "warm"); }); }
struct Val { int type; long i; double f; int b; std::string s; std::pair<std::string, std::string> ref; };
typedef std::map<std::string, std::map<std::string, Val>> Model;
static Val *resolve(Model &m, Val *v) { int guard = 0; while (v->type == zt_cfg_ref) { v = &m[v->ref.first][v->ref.second]; if (++guard > 100000) harness_error("model cycle"); } return v; }
static bool iequal(const std::string &a, const char *b) { return strcasecmp(a.c_str(), b) == 0; }
// classify the text of a value as it stands between '=' and a comment; quoted: the text is the content of a quoted string
static void assign(Model &m, const std::string &blk, const std::string &var, const std::string &text, bool quoted) {
    Val v; v.i = 0; v.f = 0; v.b = 0; v.type = zt_cfg_string; v.s = text;
    if (!quoted && !text.empty()) { char *e; errno = 0; long l = strtol(text.c_str(), &e, 0); if (!*e && errno == 0) { v.type = zt_cfg_int; v.i = l; } else { double d = strtod(text.c_str(), &e); if (!*e) { v.type = zt_cfg_float; v.f = d; } else if (iequal(text, "yes") || iequal(text, "true")) { v.type = zt_cfg_bool; v.b = 1; } else if (iequal(text, "no") || iequal(text, "false")) { v.type = zt_cfg_bool; v.b = 0; } } }
    Val &slot = m[blk][var]; 
    if (v.type == zt_cfg_string) { size_t d = text.find('.'); if (d != std::string::npos) { std::string b = text.substr(0, d), n = text.substr(d + 1); slot = v; auto bi = m.find(b); if (bi != m.end()) { auto vi = bi->second.find(n); if (vi != bi->second.end() && resolve(m, &vi->second) != &slot) { v.type = zt_cfg_ref; v.ref = {b, n}; } } } }
    slot = v; }
static void check_all(zt_cfg_ty *c, Model &m, Rng &r, const char *when) {
    for (auto &b : m) for (auto &kv : b.second) { Val *v = resolve(m, &kv.second); std::string bn = b.first, vn = kv.first; char *bp = strdup(bn.c_str()), *vp = strdup(vn.c_str());
        for (int t = 0; t < 4; t++) { union { int b; long i; double f; char *s; char raw[16]; } u; memset(&u, 0x5a, sizeof u); int rc = zt_cfg_get(c, bp, vp, &u, (zt_cfg_type)t);
            if (t != v->type) { VT_CHECK(rc == -1, "mismatch", "%s: [%s] %s of type %d answers a request for type %d", when, esc(bn).c_str(), vn.c_str(), v->type, t); ev("get.mismatch"); continue; }
            VT_CHECK(rc >= 0, "lost", "%s: [%s] %s (type %d, '%s') is not found: %d", when, esc(bn, 60).c_str(), vn.c_str(), t, esc(v->s, 60).c_str(), rc); if (kv.second.type == zt_cfg_ref) ev("get.ref");
            switch (t) { case zt_cfg_bool: VT_CHECK(u.b == v->b, "bool", "%s: %s is %d want %d", when, vn.c_str(), u.b, v->b); ev("get.bool"); break; case zt_cfg_int: VT_CHECK(u.i == v->i, "int", "%s: %s is %ld want %ld", when, vn.c_str(), u.i, v->i); ev("get.int"); break; case zt_cfg_float: VT_CHECK(u.f == v->f || (isnan(u.f) && isnan(v->f)), "float", "%s: %s is %.17g want %.17g", when, vn.c_str(), u.f, v->f); ev("get.float"); break; default: VT_CHECK(v->s == u.s, "string", "%s: %s is '%s' want '%s'", when, vn.c_str(), esc(u.s, 80).c_str(), esc(v->s, 80).c_str()); ev("get.string"); } evaluations(1); }
        free(bp); free(vp); }
    long x = 5; std::string ab = "no such block", av = "no_such_var"; VT_CHECK(zt_cfg_get(c, (char *)ab.c_str(), (char *)av.c_str(), &x, zt_cfg_int) == -1 && x == 5, "absent", "an absent block answers"); if (!m.empty()) VT_CHECK(zt_cfg_get(c, (char *)m.begin()->first.c_str(), (char *)av.c_str(), &x, zt_cfg_int) == -1 && x == 5, "absent", "an absent variable answers"); ev("get.absent"); }
static const char *NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
static std::string ws(Rng &r, int max) { return r.str(r.below(max + 1), " \t"); }
static std::string anycase(Rng &r, std::string s) { for (char &c : s) if (r.chance(1, 2)) c = toupper(c); return s; }
static std::string number(Rng &r) { char b[400]; switch (r.below(9)) { case 0: snprintf(b, sizeof b, "%ld", (long)r.range(-100, 100)); break; case 1: snprintf(b, sizeof b, "%ld", (long)r.u64()); break; case 2: snprintf(b, sizeof b, "%#lx", (unsigned long)r.u64() >> (1 + r.below(60))); break; case 3: snprintf(b, sizeof b, "%#lo", (unsigned long)r.u64() >> (1 + r.below(60))); break; case 4: return r.chance(1, 2) ? std::to_string(LONG_MAX) : std::to_string(LONG_MIN); case 5: return r.chance(1, 2) ? "9223372036854775808" : "-9223372036854775809"; case 6: snprintf(b, sizeof b, "%.*f", (int)r.below(8), (double)(int64_t)r.u64() / (double)(1 << r.below(30))); break; case 7: { double d; uint64_t u = r.u64(); memcpy(&d, &u, 8); if (isnan(d)) d = 1.5; snprintf(b, sizeof b, "%.17g", d); break; } default: snprintf(b, sizeof b, "%ld.5e%d", (long)r.range(-99, 99), (int)r.range(-10, 10)); } return b; }
struct File { std::string text; Model m; unsigned vars = 0; };
static void build(Rng &r, File &f, bool small) {
    std::string blk = "Global"; std::vector<std::string> blocks = {"main", "main2", "a b", "Global", "x.y", ""}; for (int i = 0; i < 2; i++) blocks.push_back(r.str(1 + r.below(r.chance(1, 20) ? 1022 : 8), "abcXYZ 019_.-=;#[\"'")); std::vector<std::string> names = {"v", "int_var", "a", "b", "c"}; for (int i = 0; i < 3; i++) names.push_back(r.str(1 + r.below(r.chance(1, 10) ? 300 : 10), NAME));
    unsigned n = small ? 1 + r.below(8) : 3 + r.below(40);
    for (unsigned i = 0; i < n; i++) { bool last = i + 1 == n, nonl = last && r.chance(1, 2); std::string line;
        switch (r.below(12)) { case 0: line = ws(r, 4); ev("line.blank"); break; case 1: line = ws(r, 3) + (r.chance(1, 2) ? "#" : ";") + r.str(r.below(r.chance(1, 20) ? 3000 : 40), "abc =;#[]'\""); ev("line.comment"); break;
            case 2: { blk = r.pick(blocks); line = ws(r, 3) + "[" + blk + "]" + (r.chance(1, 2) ? "" : ws(r, 2) + r.str(r.below(20), ";abc =#[")); ev("line.block"); break; }
            default: { std::string var = r.pick(names), text; bool q = false; std::string val; bool comment = false; switch (r.below(10)) { case 9: comment = true; ev("value.empty"); break; case 0: case 1: text = number(r); ev("value.number"); break; case 2: text = anycase(r, r.pick(std::vector<std::string>{"yes", "no", "true", "false"}.operator=({"yes", "no", "true", "false"}))); ev("value.bool"); break; case 3: case 4: { q = true; char qc = r.chance(1, 2) ? '\'' : '"'; text = r.chance(1, 6) ? number(r) : r.str(r.below(r.chance(1, 20) ? 600 : 30), "abc XYZ019 ;#=[].\t'\"\x80\xff"); std::string t2; for (char c : text) if (c != qc) t2 += c; text = t2; val = qc + text + qc; ev("value.quoted"); break; } case 5: case 6: { std::string rb = r.pick(blocks), rv = r.pick(names); text = rb + "." + rv; bool plain = true; for (char c : text) plain &= c != ';' && c != '#'; if (text[0] == '\'' || text[0] == '"' || text[0] == ' ' || !plain) { text = "main." + rv; } ev("value.reflike"); break; } default: { text = r.str(1 + r.below(30), "abcXYZ 019_=.[]-'\"/\x80"); while (!text.empty() && (text[0] == ' ' || text[0] == '\'' || text[0] == '"')) text.erase(0, 1); while (!text.empty() && text.back() == ' ') text.pop_back(); if (text.empty()) text = "x"; ev("value.bare"); } }
                if (!q) val = text; std::string tail = ws(r, 3); if (comment || r.chance(1, 4)) tail += (r.chance(1, 2) ? ";" : "#") + r.str(r.below(20), "abc ;#='\""); line = ws(r, 3) + var + ws(r, 3) + "=" + ws(r, 3) + val + tail; if (line.size() > 1000) { line = var.substr(0, 5) + "=" + (val = text = "1"); var = var.substr(0, 5); q = false; }
                assign(f.m, blk, var, text, q); f.vars++; if (nonl) ev("last.unterminated"); if (resolve(f.m, &f.m[blk][var]) != &f.m[blk][var]) ev("value.ref"); } }
        f.text += line; if (!nonl) f.text += "\n"; }
}
static std::string store(const std::string &t) { std::string p = std::string(scratch()) + "/c22.ini"; FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) harness_error("cannot write %s", p.c_str()); fclose(f); return p; }
static void sets(zt_cfg_ty *c, Model &m, Rng &r) { unsigned n = r.below(20); for (unsigned i = 0; i < n; i++) { std::string b, v; if (!m.empty() && r.chance(2, 3)) { auto it = m.begin(); std::advance(it, r.below(m.size())); b = it->first; if (!it->second.empty() && r.chance(2, 3)) { auto vi = it->second.begin(); std::advance(vi, r.below(it->second.size())); v = vi->first; } } else b = r.str(1 + r.below(4), "abc"); if (v.empty()) v = r.str(1 + r.below(3), "vwx"); char *bp = strdup(b.c_str()), *vp = strdup(v.c_str()); Val nv; nv.i = 0; nv.f = 0; nv.b = 0; int rc = 0;
        switch (r.below(6)) { case 0: nv.type = zt_cfg_int; nv.i = r.chance(1, 3) ? (r.chance(1, 2) ? LONG_MIN : LONG_MAX) : (long)r.u64() >> r.below(63); rc = zt_cfg_set_int(c, bp, vp, &nv.i); ev("set.int"); break; case 1: { nv.type = zt_cfg_float; uint64_t u = r.u64(); memcpy(&nv.f, &u, 8); if (isnan(nv.f) || r.chance(1, 2)) nv.f = (double)(int64_t)r.u64() / (1 << r.below(30)); double d = nv.f; rc = zt_cfg_set_float(c, bp, vp, &d); ev("set.float"); break; }
            case 2: { std::string t = anycase(r, r.chance(1, 2) ? "true" : "yes"); nv.b = 1; if (r.chance(1, 2)) { t = anycase(r, r.chance(1, 2) ? "false" : "no"); nv.b = 0; } nv.type = zt_cfg_bool; char *s = strdup(t.c_str()); rc = zt_cfg_set_bool(c, bp, vp, &s); VT_CHECK(t == s, "set-modified", "the caller's text was changed"); free(s); ev("set.bool"); break; }
            case 3: { long one[2] = {(long)r.below(2), 0}; int before = m.count(b) && m[b].count(v); muted([&] { rc = zt_cfg_set(c, bp, vp, one, zt_cfg_bool); }); VT_CHECK(rc == -1, "set-bool-int", "an integer was accepted as a boolean text"); free(bp); free(vp); (void)before; ev("set.refused"); continue; }
            default: { nv.type = zt_cfg_string; nv.s = r.chance(1, 3) ? number(r) : r.chance(1, 4) ? "main.v" : r.chance(1, 4) ? "yes" : r.str(r.below(r.chance(1, 10) ? 3000 : 30), "abc XYZ019 ;#=[].'\"\n\x80"); char *s = strdup(nv.s.c_str()); rc = zt_cfg_set_string(c, bp, vp, &s); VT_CHECK(nv.s == s, "set-modified", "the caller's text was changed"); free(s); ev("set.string"); if (r.chance(1, 6)) { char *cur = NULL; if (zt_cfg_get_string(c, bp, vp, &cur) >= 0) { rc = zt_cfg_set_string(c, bp, vp, &cur); ev("set.own"); } } } }
        op("set [%s] %s type %d '%s'", esc(b, 30).c_str(), v.substr(0, 30).c_str(), nv.type, esc(nv.s, 40).c_str()); VT_CHECK(rc > 0, "set", "setting [%s] %s to type %d returned %d", esc(b, 40).c_str(), v.c_str(), nv.type, rc); m[b][v] = nv; free(bp); free(vp); } }
void vt_case(Rng &r, uint64_t) {
    nontrivial(true); bool hostile = r.chance(1, 2); File f; build(r, f, hostile && r.chance(1, 2)); mix(f.text);
    if (!hostile) { std::string path = store(f.text); op("file: %s", esc(f.text, tracing() ? 4000 : 200).c_str()); zt_cfg_ty *c = NULL; std::string log; muted([&] { c = zt_cfg_ini((char *)path.c_str(), 0); }, &log); VT_CHECK(c, "rejected", "a well-formed file is rejected: %s", esc(log).c_str()); check_all(c, f.m, r, "parsed"); if (r.chance(1, 2)) { sets(c, f.m, r); check_all(c, f.m, r, "after sets"); } zt_cfg_close(c); ev("wellformed"); f.m.clear(); return; }
    std::string t = f.text; static const char *BIT[] = {"[", "]", "=", "\n", "\0", "'", "\"", ";", "#", " ", "\r\n", "\t", "x = Global.x\n", "=\n", "\nx=\n", "[[\n", "[]\n", ".", "x='\n", "x = ;\n", "x= \"\n"};
    if (r.chance(1, 6)) t = r.bytes(r.below(300)); else if (r.chance(1, 6)) t = r.str(r.below(400), "[]=\n.;#'\" \tabG"); unsigned muts = r.below(12);
    for (unsigned i = 0; i < muts; i++) { size_t at = t.empty() ? 0 : r.below(t.size() + 1); switch (r.below(8)) { case 0: if (at < t.size()) t[at] = (char)r.u64(); break; case 1: t.insert(at, std::string(r.below(3000), "a [=\0;\n'"[r.below(8)])); break; case 2: if (at < t.size()) t.erase(at, 1 + r.below(20)); break; case 3: case 4: case 5: { const char *b = BIT[r.below(sizeof BIT / sizeof *BIT)]; t.insert(at, b, *b ? strlen(b) : 1); break; } case 6: t.resize(at); break; default: t += t.substr(at, 200); } }
    std::string path = store(t); op("hostile: %s", esc(t, tracing() ? 8000 : 200).c_str()); mix(t); zt_cfg_ty *c = NULL; std::string log; muted([&] { c = zt_cfg_ini((char *)path.c_str(), r.below(3)); }, &log); VT_CHECK(c || !log.empty(), "silent", "a file is rejected without a report"); ev(c ? "hostile.parsed" : "hostile.rejected");
    if (c) { union { long i; double d; char *s; } u; for (auto &b : f.m) for (auto &kv : b.second) for (int ty = 0; ty < 4; ty++) { int rc = zt_cfg_get(c, (char *)b.first.c_str(), (char *)kv.first.c_str(), &u, (zt_cfg_type)ty); if (rc >= 0 && ty == zt_cfg_string) { size_t l = strlen(u.s); mix(l); } } Model own; sets(c, own, r); check_all(c, own, r, "sets on a hostile file"); own.clear(); zt_cfg_close(c); }
    if (r.chance(1, 30)) { std::string p = std::string(scratch()) + "/none.ini"; VT_CHECK(!zt_cfg_ini((char *)p.c_str(), 0), "missing", "a missing file gives a configuration"); long i; VT_CHECK(zt_cfg_get(NULL, (char *)"a", (char *)"b", &i, zt_cfg_int) <= 0 && zt_cfg_set(NULL, (char *)"a", (char *)"b", &i, zt_cfg_int) <= 0, "null", "no configuration answers"); zt_cfg_close(NULL); ev("missing"); }
    f.m.clear();
}
