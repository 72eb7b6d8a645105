#!/usr/bin/env python3
"""Mutation sweep (run by hand): mutate.py OUT.jsonl N SEED FILE...   - N mutants per file (0: all) of /repo's sources, in scratch copies.
A mutant that compiles and passes the stable tests is given to the checks of its file; the verdict of each is recorded:
caught:<key> / survived / noanswer.  --skip OLD.jsonl skips mutants already judged."""
import sys, os, re, json, random, subprocess, shutil, multiprocessing as mp, fcntl, time
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")); sys.path.insert(0, H)
import check, registry
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut"); SRC = os.environ.get("MUT_REPO", "/repo")
FILES = {"zt_table.c": "C01 C02 C32 C33", "zt_set.c": "C02", "zt_tree.c": "C03", "zt_list.h": "C04", "zt_stack.h": "C04", "zt_queue.h": "C04", "zt_llist.h": "C05", "zt_ptr_array.c": "C06 C33", "zt_array.c": "C07 C09", "zt_buf.c": "C08 C33", "zt_bstream.c": "C09",
  "zt_base.c": "C10 C33", "zt_cstr.c": "C11 C12 C33", "zt_format.c": "C13 C33", "zt_mem.c": "C14 C32 C33", "zt_ez_mempool.c": "C15 C33", "zt_gc.c": "C16 C32", "zt_sha1.c": "C17", "zt_hash.c": "C18", "zt_hash.h": "C18", "zt_random.c": "C19", "zt_random.h": "C19", "zt_uuid.c": "C20 C33",
  "zt_ipv4_tbl.c": "C21 C32 C33", "zt_cfg.c": "C22", "cfg_ini.c": "C22 C33", "cfg_private.c": "C22 C33", "zt_opts.c": "C23 C33", "zt_log.c": "C24 C32 C33", "log_file.c": "C24 C33", "log_stderr.c": "C24 C33", "log_syslog.c": "C24 C33", "log_private.c": "C24 C33", "zt_threads.c": "C41 C25 C33", "zt_threads_pthreads.c": "C25 C41 C33",
  "zt_path.c": "C26 C33", "zt_progname.c": "C27", "zt_time.c": "C28", "zt_int.h": "C29", "zt_unit.c": "C30 C33", "zt_unit.h": "C30", "zt_daemon.c": "C31", "zt_atexit.c": "C31 C32", "zt_malloc.c": "C33", "zt_assert.c": "C33 C29", "zt_macros.h": "C04 C03", "zt_unit_cpp.cpp": "C30"}
def code_lines(src):
    """line numbers and text with comments, strings and preprocessor lines blanked (same columns)"""
    out = []; i = 0; n = len(src); b = list(src); st = None
    while i < n:
        c = src[i]
        if st is None:
            if src.startswith("/*", i): st = "*"; b[i] = b[i + 1] = " "; i += 2; continue
            if src.startswith("//", i): st = "/"
            elif c == '"': st = '"'
            elif c == "'": st = "'"
            if st == "/": b[i] = " "
        elif st == "*":
            if src.startswith("*/", i): b[i] = b[i + 1] = " "; i += 2; st = None; continue
            if c != "\n": b[i] = " "
        elif st == "/":
            if c == "\n": st = None
            else: b[i] = " "
        else:
            if c == "\\": b[i] = b[i + 1] = "_"; i += 2; continue
            if c == st: st = None
            elif c != "\n": b[i] = "_"
        i += 1
    return "".join(b).split("\n")
def mutants(path):
    src = open(path).read(); L = src.split("\n"); C = code_lines(src); out = []; cont = False; hdr = path.endswith(".h"); depth = 0
    for k, (l, c) in enumerate(zip(L, C)):
        pre = c.lstrip().startswith("#") or (cont and not hdr); cont = (pre and l.rstrip().endswith("\\")) if not hdr else False
        indef = depth > 0; depth += c.count("{") - c.count("}")
        if pre or not c.strip(): continue
        if not (indef or (hdr and l.rstrip().endswith("\\"))): continue
        def add(a, b, new, kind): out.append((k, l[:a] + new + l[b:], kind))
        for m in re.finditer(r"(?<![<>=!+\-*/&|^%-])(<=|>=|==|!=|<|>)(?![<>=])", c):
            o = m.group(1)
            if o in "<>" and re.search(r"#|include|->$", c[:m.start() + 1]): continue
            if o == ">" and c[m.start() - 1:m.start()] == "-": continue
            for nw in {"<": ["<=", ">="], ">": [">=", "<="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]: add(m.start(1), m.end(1), nw, "rel " + o + nw)
        for m in re.finditer(r"&&|\|\|", c): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
        for m in re.finditer(r"(?<=[\w)\] ])([+-])(?=[ \w(])(?![+-=>])", c):
            if c[m.start() - 1] in "+-eE" or c[m.end():m.end() + 1] in "+->=": continue
            if not re.search(r"[\w)\]]\s*$", c[:m.start()]) or re.search(r"\b(return|case)\s*$", c[:m.start()]): continue
            add(m.start(), m.end(), "-" if m.group() == "+" else "+", "arith")
        for m in re.finditer(r"\+\+|--", c): add(m.start(), m.end(), "--" if m.group() == "++" else "++", "incdec"); 
        for m in re.finditer(r"(?<![+\-<>=!*/&|^%])([+\-|&])=(?!=)", c): add(m.start(), m.end(), "=", "compound")
        for m in re.finditer(r"<<|>>", c): add(m.start(), m.end(), ">>" if m.group() == "<<" else "<<", "shift")
        for m in re.finditer(r"(?<=[\w)] )([*/%&|])(?= [\w(])", c): add(m.start(), m.end(), {"*": "+", "/": "*", "%": "/", "&": "|", "|": "&"}[m.group()], "op " + m.group())
        for m in re.finditer(r"(?<![\w.])(\d+|0[xX][0-9a-fA-F]+)[uUlL]*(?![\w.])", c):
            v = int(m.group(1), 0) if not (len(m.group(1)) > 1 and m.group(1)[0] == "0" and m.group(1)[1] not in "xX") else int(m.group(1), 8)
            if v == 1 and re.match(r"\s*return -1;", c): add(m.start(1), m.end(1), "0", "const"); continue
            for nw in ([1] if v == 0 else [0, 2] if v == 1 else [v + 1, v - 1]): add(m.start(1), m.end(1), str(nw), "const %d->%d" % (v, nw))
        for m in re.finditer(r"\b(if|while)\s*\((?=.*\)\s*\{?\s*$)", c):
            e = c.rstrip().rstrip("{").rstrip()
            if e.endswith(")"): add(m.end(), len(e) - 1, "!(" + l[m.end():len(e) - 1] + ")", "negate")
        for m in re.finditer(r"!(?=[\w(])", c): add(m.start(), m.end(), "", "drop !")
        s = c.strip()
        if s.endswith(";") and not re.match(r"(return|static|const|struct|unsigned|int|char|size_t|ssize_t|uint\w+|int\w+|long|short|void|zt_\w+\s*\*|zt_\w+_t\b|FILE|for|goto|typedef|extern|enum|float|double|va_list|register|volatile|else|case|default|\})\b.*", s) and re.match(r"[\w*(+-]", s) and c.count("(") == c.count(")") and not re.match(r"\w+\s+\*?\s*\w+\s*(=|;|\[)", s):
            ind = len(l) - len(l.lstrip()); add(ind, len(l.rstrip()), ";", "delete")
        m = re.match(r"\s*return\s+(.+);$", c)
        if m and m.group(1).strip() in ("0", "1", "-1", "NULL", "true", "false", "TRUE", "FALSE"): pass
        if re.match(r"\s*(break|continue);", c): 
            w = "break" if "break" in c else "continue"; add(c.index(w), c.index(w) + len(w), "continue" if w == "break" else "break", "jump"); add(c.index(w), c.index(w) + len(w), "", "nojump")
    return src, L, out
def sh(c, cwd=None, env=None, t=120):
    p = subprocess.Popen(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(check.ENV, **(env or {})), start_new_session=True); rc = 124; o = b""
    try: o, _ = p.communicate(timeout=t); rc = p.returncode
    except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, 9)
    except OSError: pass
    p.wait(); return rc, o.decode("utf8", "replace")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def stages(pid): return [s for s in registry.CHECKS[pid]["stages"] if "quick" in s and not s.get("valgrind")]
def objs(st, inc_repo, lib, odir):
    inc = "-I%s/engine -I%s/harness -I%s/src -I%s/src -I%s/compat" % (H, H, inc_repo, lib, inc_repo)
    defs = " ".join(["-DHAVE_CONFIG_H", "-DHAVE_PTHREADS", "-DWITH_THREADS", "-D_GNU_SOURCE"] + st.get("defs", ["-DNDEBUG"])); res = []
    for s in ["engine/vt.cpp", "harness/" + st["src"]] + ["harness/" + e for e in st.get("extra", [])]:
        o = "%s/%s.%s.o" % (odir, st["name"], os.path.basename(s)); res.append(o)
        if os.path.exists(o): continue
        fl = check.SAN[st["san"]] + (" -std=gnu++17 -fpermissive -w" if not s.endswith(".c") else " -w")
        rc, out = sh("%s %s %s %s -c %s/%s -o %s.tmp && mv %s.tmp %s" % ("gcc" if s.endswith(".c") else "g++", fl, inc, defs, H, s, o, o, o), t=300)
        if rc: raise Exception("harness does not compile: " + out[-800:])
    return res
def setup(w):
    d = "%s/w%d" % (ROOT, w); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("cp -a %s %s/repo && rm -rf %s/repo/_build %s/repo/.git" % (SRC, d, d, d)); check.REPO = d + "/repo"
    rc, o = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build unit_test", d + "/repo", t=300)
    if rc: raise Exception(o[-2000:])
    for s in ("asan", "tsan", "plain"): check.build_lib(d, s)
    os.makedirs(d + "/run"); sh("cp -r %s/tests %s/run/tests && gcc -shared -fPIC -o %s/run/fixed_time.so /opt/vp/fixed_time.c" % (SRC, d, d))
    return d
def tests_pass(d):
    with open(ROOT + "/testlock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for f in ("/tmp/zt_unit_makepid.pid",):
            if os.path.exists(f): os.unlink(f)
        shutil.rmtree(d + "/run/tests", ignore_errors=True); shutil.copytree(SRC + "/tests", d + "/run/tests")
        rc, o = sh("ulimit -f 200000; ulimit -v 4000000; exec python3 /opt/vp/run_tests.py %s/repo/_build/tests/unit_test %s/run/fixed_time.so" % (d, d), d + "/run/tests", t=12)
    ok = {l[5:].strip() for l in o.splitlines() if l.startswith("PASS ")}
    return BASE <= ok
def judge(d, f, pids, header):
    res = {}
    for pid in pids:
        v = None
        for st in stages(pid):
            lib = "%s/lib-%s" % (d, st["san"]); rc, o = sh("ninja -C %s zt zt_gc zt_unit" % lib, t=200)
            if rc: v = "nobuild"; break
            try:
                if header: od = d + "/hobj"; shutil.rmtree(od, ignore_errors=True); os.makedirs(od); ob = objs(st, d + "/repo", lib, od)
                else: od = ROOT + "/obj"; ob = objs(st, SRC, lib, od)
            except Exception as e: v = "nobuild"; break
            b = d + "/" + st["name"]; rc, o = sh("g++ %s %s %s %s -lpthread -o %s" % (check.SAN[st["san"]], " ".join(ob), " ".join(st.get("ldflags", [])), " ".join("%s/src/libzt/%s" % (lib, l) for l in ("libzt_unit.a", "libzt_gc.a", "libzt.a")), b))
            if rc: v = "nolink " + o[-200:]; break
            st = dict(st, wall=240); 
            for probe in [None] + st.get("probes", []):
                s = check.Shard(None, st, b, 1, 0, st["quick"], d, probe=probe); r = s.run()
                if r["key"]:
                    if probe and r["key"] in KNOWN: continue
                    v = "caught:%s%s" % (r["key"], " (case %d of %d)" % (r["case"], st["quick"]) if not probe else ""); break
                if r["rc"] != 0: v = "noanswer:%s" % str(r["detail"])[-200:]; break
            if v: break
        res[pid] = v or "survived"
        if v and v.startswith("caught"): break
    return res
def worker(w, jobs, outp):
    try: d = setup(w)
    except Exception as e: print("worker", w, e); return
    check.scratch_root = lambda work: "/dev/shm/mut-w%d" % w
    while True:
        try: f, k, new, kind = jobs.get(timeout=3)
        except Exception: break
        p = "%s/repo/%s" % (d, f); src = open(SRC + "/" + f).read(); L = src.split("\n"); old = L[k]; L[k] = new
        open(p, "w").write("\n".join(L)); base = os.path.basename(f); r = dict(file=f, line=k + 1, kind=kind, old=old.strip(), new=new.strip())
        try:
            rc, o = sh("ninja -C _build unit_test", d + "/repo", t=200)
            if rc: r["v"] = "nocompile"
            elif not tests_pass(d): r["v"] = "tests"
            else:
                res = judge(d, f, FILES[base].split(), base.endswith(".h")); r["checks"] = res
                r["v"] = "caught" if any(x.startswith("caught") for x in res.values()) else "noanswer" if any(x.startswith("noanswer") or x.startswith("no") for x in res.values()) else "SURVIVED"
        except Exception as e: r["v"] = "error " + repr(e)[:300]
        open(p, "w").write(src); os.utime(p)
        with open(outp, "a") as g: fcntl.flock(g, fcntl.LOCK_EX); g.write(json.dumps(r) + "\n")
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree("/dev/shm/mut-w%d" % w, ignore_errors=True)
KNOWN = {k["key"] for k in check.load_known()}
if __name__ == "__main__":
    a = sys.argv[1:]; skip = set()
    if "--skip" in a:
        i = a.index("--skip"); 
        for l in open(a[i + 1]): x = json.loads(l); skip.add((x["file"], x["old"], x["new"]))
        del a[i:i + 2]
    outp, n, seed, files = a[0], int(a[1]), int(a[2]), a[3:]
    check.ENV["ASAN_OPTIONS"] += ":hard_rss_limit_mb=3500"; check.ENV["TSAN_OPTIONS"] += ":hard_rss_limit_mb=4500"
    os.makedirs(ROOT + "/obj", exist_ok=True); shutil.rmtree(ROOT + "/obj"); os.makedirs(ROOT + "/obj")
    rnd = random.Random(seed); jobs = mp.Queue(); tot = 0; allj = []
    for f in files:
        fs = subprocess.run("cd " + SRC + " && ls src/libzt/%s src/libzt/*/%s 2>/dev/null" % (f, f), shell=True, text=True, capture_output=True).stdout.split(); f = fs[0]
        src, L, ms = mutants(SRC + "/" + f); ms = [m for m in ms if (f, L[m[0]].strip(), m[1].strip()) not in skip]; rnd.shuffle(ms); ms = ms if n == 0 else ms[:n]
        print(f, len(ms)); allj += [(f,) + m for m in ms]
    rnd.shuffle(allj); os.makedirs(ROOT, exist_ok=True)
    for pid in sorted({p for f in files for p in FILES[f].split()}):   # compile the harnesses once
        for st in stages(pid):
            lib = check.build_lib(ROOT + "/l0", st["san"]) if not os.path.exists(ROOT + "/l0/lib-" + st["san"]) else ROOT + "/l0/lib-" + st["san"]
            if not any(f.endswith(".h") for f in files): objs(st, SRC, lib, ROOT + "/obj")
    for j in allj: jobs.put(j)
    ps = [mp.Process(target=worker, args=(w, jobs, outp)) for w in range(min(8, max(1, len(allj))))]
    t = time.time()
    for p in ps: p.start()
    for p in ps: p.join()
    print("done %d in %.0fs" % (len(allj), time.time() - t))
