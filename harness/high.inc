// one more workload: text with bytes that are letters, blanks or digits in some locales, or negative as plain char.
static std::string high(Rng &r, size_t n, const char *also) { std::string s, a = also; for (size_t i = 0; i < n; i++) { unsigned k = (unsigned)r.below(4); s += k ? k == 1 ? (char)(0x80 + r.below(128)) : a[r.below(a.size())] : "\xa0\x85\xb2\xb9\xfd\xdd\xff\xc4\xb1\xc2\xb7\xdf"[r.below(12)]; } return s; }
static void w_high(Rng &r, D &d) { // text with bytes that are letters, blanks or digits in some locales
    for (int k = 0; k < 8; k++) { std::string a = high(r, r.below(24), "aZ09 ,./\t\n"), b = high(r, 1 + r.below(3), ",/ "); const char *s = a.c_str(); d.t(zt_cstr_reverse(s, 0, -1)); ssize_t lo_ = a.size() < 4 ? (ssize_t)a.size() : 4, i_ = (ssize_t)r.below(9) - lo_, j_ = (ssize_t)r.below(9) - lo_; d.t(zt_cstr_sub(s, i_, j_)); { int c_ = zt_cstr_cmp(s, 0, -1, b.c_str(), 0, -1); d.n(c_ < 0 ? 2 : c_ > 0); }; d.n(zt_cstr_upto(s, 0, -1, b.c_str())); d.n(zt_cstr_rupto(s, 0, -1, b.c_str())); d.n(zt_cstr_any(s, 0, -1, b.c_str())); d.n(zt_cstr_find(s, 0, -1, b.c_str())); d.n(zt_cstr_rspn(s, b.c_str())); d.n(zt_cstr_rcspn(s, b.c_str())); d.n(zt_cstr_chr(s, 0, -1, b[0])); char bn[64]; d.s(zt_cstr_basename(bn, sizeof bn, s, NULL)); d.s(zt_cstr_dirname(bn, sizeof bn, s)); d.n(zt_cstr_abspath(s)); char *w = strdup(s); d.s(zt_cstr_strip(w)); d.s(zt_cstr_chomp(w)); free(w); zt_ptr_array *p = zt_cstr_split(s, b.c_str()); if (p) { for (int32_t i = 0; i < p->count; i++) d.s((char *)p->array[i]); zt_cstr_split_free(p); }
        char buf[300], raw[200]; d.n(zt_fmt_sprintf(buf, sizeof buf, "<%s|%-9.4s|%c|%d%%>", s, s, a.empty() ? 'x' : (unsigned char)a[0], (int)a.size())); d.s(buf); std::string f = high(r, r.below(12), "abc "); d.n(zt_fmt_sprintf(buf, sizeof buf, f.c_str())); d.s(buf); std::string hx = k % 2 ? high(r, 40, "0123456789abcdef") : r.str(40, "0123456789abcdefABCDEF"); memset(raw, 0, sizeof raw); d.n(zt_hex_to_binary((char *)hx.data(), 40, raw, sizeof raw)); uint8_t dg[20] = {0}; d.n(zt_str_tosha1((char *)hx.c_str(), dg) != NULL); zt_uuid_t u; std::string us = "6ba7b810-9dad-11d1-80b4-00c04fd430c8"; if (r.chance(1, 2)) us[r.below(36)] = (char)(0x80 + r.below(128)); d.n(zt_uuid_fromstr((char *)us.c_str(), &u, zt_uuid_std_fmt)); 
        std::string ip = "10.1.2.3/2" + std::string(r.below(2), '4'); if (r.chance(1, 2)) ip.insert(r.below(ip.size()), 1, (char)(0x80 + r.below(128))); zt_ipv4_tbl *t = zt_ipv4_tbl_init(16); if (t) { d.n(zt_ipv4_tbl_add_frm_str(t, ip.c_str()) != NULL); zt_ipv4_tbl_destroy(t); } std::string x = high(r, 6, "abAB"), y = x; for (char &c : y) if (c == 'a' || c == 'b') c -= 32; d.n(zt_hash32_cstr((const uint8_t *)x.c_str(), ZT_HASH32_INIT)); if (x.find_first_not_of("abAB") == std::string::npos) d.n(zt_table_compare_string_case(x.data(), 6, y.data(), 6, NULL)); }
    char f[300]; snprintf(f, sizeof f, "%s/c42-%u.ini", scratch(), (unsigned)r.below(1000)); FILE *o = fopen(f, "w"); if (!o) harness_error("fopen"); static const char *const V[] = {"1,5", "1.5", "1.234.567", "1.000,5", "TRUE", "Yes", "FALSE", "nO", "1e3", "1e3,5", "0x1p3", "0x1,8p3", ".5", ",5", "nan", "inf", "-0.0", "1'000"}; fprintf(o, "[b]\n"); for (int i = 0; i < 8; i++) { std::string v = r.chance(1, 2) ? V[r.below(18)] : high(r, 1 + r.below(8), "ab1"); for (char &c : v) if (c == '\n') c = ' '; fprintf(o, "v%d = %s\n", i, v.c_str()); } fclose(o); zt_cfg_ty *c = zt_cfg_ini(f, 0); d.n(c != NULL); if (c) { for (int i = 0; i < 8; i++) { char vn[20]; snprintf(vn, 20, "v%d", i); long q = 0; double g = 0; char *s = NULL; int t = 0, rc; d.n(rc = zt_cfg_get_int(c, (char *)"b", vn, &q)); if (rc >= 0) d.n(q); d.n(rc = zt_cfg_get_float(c, (char *)"b", vn, &g)); if (rc >= 0) d.b(&g, 8); d.n(rc = zt_cfg_get_string(c, (char *)"b", vn, &s)); if (rc >= 0) d.s(s); d.n(rc = zt_cfg_get_bool(c, (char *)"b", vn, &t)); if (rc >= 0) d.n(t); } zt_cfg_close(c); } unlink(f);
    std::string dir = std::string(scratch()) + "/c42d", file = dir + "/plain"; d.n(zt_mkdir(dir.c_str(), 0755, (zt_mkdir_flags)0)); FILE *pf = fopen(file.c_str(), "w"); if (!pf) harness_error("fopen"); fclose(pf); for (int i = 0; i < 3; i++) { std::string q = r.chance(1, 2) ? file + "/below/it" : dir + "/x" + std::to_string(r.below(2)) + "/" + (r.chance(1, 2) ? "y" : std::string(300, 'n')) + "/z"; d.n(zt_mkdir(q.c_str(), 0755, r.chance(2, 3) ? zt_mkdir_create_parent : (zt_mkdir_flags)0)); d.n(zt_path_exists(q.c_str())); char *bd = zt_find_basedir(q.c_str(), r.chance(1, 2) ? "plain" : "no-such-thing"); d.s(bd ? bd + dir.size() : NULL); free(bd); d.n(zt_cfg_ini((char *)q.c_str(), 0) != NULL); } for (int i = 0; i < 2; i++) { std::string x = dir + "/x" + std::to_string(i); rmdir((x + "/y/z").c_str()); rmdir((x + "/y").c_str()); rmdir(x.c_str()); } unlink(file.c_str()); rmdir(dir.c_str());
    D *keep = opt_d; opt_d = &d; int n = 0, bo = 0; long l = 0; intmax_t m = 0; zt_opt_def_t od[] = {{'i', (char *)"int", (char *)"N", zt_opt_int, &n, (char *)"n"}, {'b', (char *)"bool", (char *)"T", zt_opt_bool_int, &bo, (char *)"b"}, {'l', (char *)"long", (char *)"N", zt_opt_long, &l, (char *)"l"}, {'m', (char *)"max", (char *)"N", zt_opt_intmax, &m, (char *)"m"}, {ZT_OPT_END()}}; static const char *const W[] = {"1.000", "1,000", "12\xb2", "\xa0" "12", "12\xa0", "TRUE", "Yes", "fALSE", "no", "0x1F", "17", "-4"}; for (int i = 0; i < 6; i++) { std::string a = std::string(1, "iblm"[r.below(4)]); a = "-" + a; std::string v = r.chance(1, 4) ? high(r, 1 + r.below(5), "12te") : W[r.below(12)]; char *av[] = {(char *)"prog", (char *)a.c_str(), (char *)v.c_str(), NULL}; int ac = 3; d.n(zt_opt_process_args(&ac, av, od, NULL, opt_err)); d.n(ac); d.n(n); d.n(bo); d.n(l); d.n(m); } opt_d = keep; }
static const Kind HIGH = {"text", w_high}; static const Kind &kind_at(int k) { return k < (int)(sizeof KINDS / sizeof *KINDS) - 1 ? KINDS[k] : HIGH; }
