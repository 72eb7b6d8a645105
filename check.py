#!/usr/bin/env python3
"""check.py ID [quick|thorough]   - decide one property by running monitored executions of /repo's current tree.
   check.py ID --replay STAGE SEED CASE   - replay one case with a full trace.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: harness failure (no verdict)."""
import sys, os, json, re, subprocess, shutil, struct, time, hashlib, threading, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import CHECKS
NCPU = min(8, os.cpu_count() or 8)
SAN = {
    "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all "
            "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,vptr",
    "tsan": "-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g -fno-omit-frame-pointer",
}
SAN["cost"] = "-O1 -g -fno-omit-frame-pointer -fno-builtin -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0"
COUNTED = " -fsanitize-coverage=trace-pc"     # every basic block of the library reports to the harness
SAN["dbg"] = SAN["asan"]     # the same, with the library's own assertions compiled in
ENV = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC",
    ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:detect_odr_violation=0:max_malloc_fill_size=65536:malloc_fill_byte=189:handle_abort=0:print_legend=0",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
    TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:die_after_fork=0:atexit_sleep_ms=0")
for k in ("LD_PRELOAD", "CFLAGS", "CXXFLAGS", "LDFLAGS", "MAKEFLAGS"): ENV.pop(k, None)

# builds of the library that have to mean the same: compilers, flags, options of cmake
VARIANTS = {
    "plain": ("gcc", "-O1 -DNDEBUG", []),
    "gcc-O0-checked-pattern": ("gcc", "-O0 -UNDEBUG -ftrivial-auto-var-init=pattern", []),
    "gcc-O3-unsigned-char": ("gcc", "-O3 -DNDEBUG -funsigned-char", []),
    "gcc-Os-gnu99-zero": ("gcc", "-Os -DNDEBUG -ftrivial-auto-var-init=zero", ["-DCMAKE_C_FLAGS_NONE=-std=gnu99"]),
    "gcc-O2-gnu17-lto": ("gcc", "-O2 -DNDEBUG -flto -ffat-lto-objects -fipa-pta", ["-DCMAKE_C_FLAGS_NONE=-std=gnu17"]),
    "gcc-O2-replacements": ("gcc", "-O2 -DNDEBUG -fwrapv -fno-strict-aliasing", ["-DHAVE_ASPRINTF=", "-DHAVE_VASPRINTF="]),
    "gcc-O2-no-threads": ("gcc", "-O2 -DNDEBUG", ["-DCMAKE_DISABLE_FIND_PACKAGE_Threads=ON"]),
    "clang-O2-replacement": ("clang", "-O2 -DNDEBUG", ["-DHAVE_ASPRINTF="]),
    "clang-O0-unsigned-char-pattern": ("clang", "-O0 -DNDEBUG -funsigned-char -ftrivial-auto-var-init=pattern", []),
    "clang-O3-checked": ("clang", "-O3 -UNDEBUG", []),
}

class HarnessError(Exception): pass

def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=ENV, **kw)
    return r.returncode, r.stdout

def build_variant(root, name, st):
    """One more build of the library, linked with its workloads into a shared object."""
    cc, fl, opts = VARIANTS[name]; b = os.path.join(root, "v-" + name); out = os.path.join(root, name + ".so"); fl = fl + " -g1 -fPIC"
    run = [["cmake", "-C", os.path.join(HERE, "engine/cmake_cache.cmake"), "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_COMPILER=" + cc,
            "-DCMAKE_CXX_COMPILER=" + {"gcc": "g++", "clang": "clang++"}[cc], "-DCMAKE_C_FLAGS=" + fl + " -w", "-DCMAKE_CXX_FLAGS=" + fl + " -w"] + opts, ["ninja", "-C", b, "zt", "zt_gc"]]
    inc = ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/src", "-I" + b + "/src", "-I" + REPO + "/compat", "-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-DHAVE_LONG_LONG"]
    if "no-threads" not in name: inc += ["-DHAVE_PTHREADS", "-DWITH_THREADS"]
    std = [o.split("=", 1)[1] for o in opts if "FLAGS_NONE" in o]
    run += [[cc] + fl.split() + std + ["-w"] + inc + ["-c", os.path.join(HERE, "harness", st["variant_c"]), "-o", out + ".c.o"],
            ["g++", "-O0", "-g1", "-fPIC", "-std=gnu++17", "-fpermissive", "-w", "-DNDEBUG"] + inc + ["-c", os.path.join(HERE, "harness", st["variant"]), "-o", out + ".o"],
            [{"gcc": "g++", "clang": "clang++"}[cc], "-shared", "-Wl,-Bsymbolic"] + fl.split() + [out + ".o", out + ".c.o", b + "/src/libzt/libzt_gc.a", b + "/src/libzt/libzt.a", "-lpthread", "-o", out]]
    for c in run:
        rc, txt = sh(c)
        if rc: raise HarnessError("building the variant %s failed:\n%s" % (name, txt[-4000:]))
    shutil.rmtree(b, ignore_errors=True)
    return out

def build_lib(root, san):
    """Build /repo's libraries from the current working tree with one sanitizer family."""
    b = os.path.join(root, "lib-" + san)
    cf = SAN[san] + (" -UNDEBUG" if san == "dbg" else " -DNDEBUG") + " -w -Wno-error"
    base = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
            "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_FLAGS=" + cf, "-DCMAKE_CXX_FLAGS=" + cf]
    if san == "cost": base += ["-DCMAKE_C_FLAGS_NONE=" + COUNTED.strip(), "-DCMAKE_CXX_FLAGS_NONE=" + COUNTED.strip()]    # not for the probes of the configuration, which have to link
    rc, out = sh(base[:1] + ["-C", os.path.join(HERE, "engine/cmake_cache.cmake")] + base[1:])
    if rc == 0: rc, out = sh(["ninja", "-C", b, "zt", "zt_gc", "zt_unit"])
    if rc != 0:   # retry from scratch without the seeded configure cache
        shutil.rmtree(b, ignore_errors=True)
        rc, out = sh(base)
        if rc == 0: rc, out = sh(["ninja", "-C", b, "zt", "zt_gc", "zt_unit"])
    if rc != 0: raise HarnessError("building /repo with %s failed:\n%s" % (san, out[-4000:]))
    return b

def build_harness(root, st, lib):
    san = st["san"]; out = os.path.join(root, st["name"])
    if "variant" in st:
        def attempt(n):      # a compiler or configuration the tree cannot be built with is left out, and named in the evidence
            try: return build_variant(root, n, st)
            except HarnessError as e:
                if n == "plain": raise
                st.setdefault("left_out", []).append(n); print("left out: %s" % " ".join(str(e).split())[:400]); return None
        with ThreadPoolExecutor(NCPU) as ex: v = [x for x in ex.map(attempt, VARIANTS) if x]
        if len(v) < 5: raise HarnessError("only %d variants of /repo can be built" % len(v))
        st["env"] = {"VT_VARIANTS": ":".join(v)}
        bad = [n for n in st.get("left_out", []) if "replacement" in n]      # the library's own versions of helper functions have to build
        if bad: st["env"]["VT_UNBUILT"] = " ".join(bad)
    src = os.path.join(HERE, "harness", st["src"])
    inc = ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/src", "-I" + lib + "/src", "-I" + REPO + "/compat"]
    defs = ["-DHAVE_CONFIG_H", "-DHAVE_PTHREADS", "-DWITH_THREADS", "-D_GNU_SOURCE"] + st.get("defs", ["-DNDEBUG"])
    flags = SAN[san].split() + ["-std=gnu++17", "-fpermissive", "-w"]
    libs = [] if "variant" in st else [os.path.join(lib, "src/libzt", l) for l in ("libzt_unit.a", "libzt_gc.a", "libzt.a")]
    eng = os.path.join(HERE, "engine/vt.cpp")
    objs = []
    def cc(s, o, extra=()):
        comp = ["gcc"] if s.endswith(".c") else ["g++"]
        if san == "cost" and comp == ["gcc"]: extra = list(extra) + COUNTED.split()
        fl = [f for f in flags if comp[0] == "g++" or f not in ("-std=gnu++17", "-fpermissive")]
        return sh(comp + fl + list(extra) + inc + defs + ["-c", s, "-o", o])
    jobs = [(eng, out + ".eng.o"), (src, out + ".o")] + [(os.path.join(HERE, "harness", e), out + "." + os.path.basename(e) + ".o") for e in st.get("extra", [])]
    with ThreadPoolExecutor(4) as ex:
        for (s, o), (rc, txt) in zip(jobs, ex.map(lambda j: cc(*j), jobs)):
            if rc: raise HarnessError("compiling %s failed:\n%s" % (s, txt[-4000:]))
            objs.append(o)
    rc, txt = sh(["g++"] + SAN[san].split() + objs + st.get("ldflags", []) + libs + ["-lpthread", "-o", out])
    if rc: raise HarnessError("linking %s failed:\n%s" % (out, txt[-4000:]))
    return out

FR = re.compile(r"^\s*#\d+\s+(?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+", re.M)
def crash_key(err, rc):
    """A stable identity for a sanitizer report or a crash: kind + innermost function in /repo."""
    def frame(txt):
        first = None
        for m in FR.finditer(txt):
            fn, path = m.group(1), m.group(2)
            fn = re.sub(r"\(.*", "", fn)
            if path.startswith(REPO + "/"): return fn
            if first is None and path.startswith(HERE): first = fn
        return first or "?"
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m: return "asan:%s:%s" % (m.group(1), frame(err[m.start():]))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:60].strip()
        return "ubsan:%s:%s" % (kind, frame(err[m.start():]))
    m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)", err)
    if m:
        fns = sorted({re.sub(r"\(.*", "", x.group(1)) for x in FR.finditer(err[m.start():]) if x.group(2).startswith(REPO + "/")})[:3]
        return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), "+".join(fns))
    m = re.search(r"ERROR: ThreadSanitizer: ([\w-]+)", err)
    if m: return "tsan:%s:%s" % (m.group(1), frame(err[m.start():]))
    if "FATAL: ThreadSanitizer" in err: return None
    m = re.search(r"==\d+== (Invalid \w+|Conditional jump|Use of uninit\w*|Syscall param|Mismatched free|Source and dest)", err)
    if m:
        fm = re.search(r"(?:at|by) 0x[0-9A-F]+: (\w+) \(zt_", err[m.start():])
        return "valgrind:%s:%s" % (m.group(1).replace(" ", "-"), fm.group(1) if fm else "?")
    if rc < 0: return "signal:%d" % -rc
    return None

def scratch_root(work):
    """Private scratch for the harnesses: in memory when there is room (directory-heavy cases), else beside the build."""
    try:
        v = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK) and v.f_bavail * v.f_frsize > 1 << 28: return os.path.join("/dev/shm", "vt-" + os.path.basename(work))
    except OSError: pass
    return os.path.join(work, "scratch")

class Shard:
    def __init__(self, chk, st, binp, seed, a, b, work, probe=None):
        self.__dict__.update(chk=chk, st=st, bin=binp, seed=seed, a=a, b=b, work=work, probe=probe)
    def cmd(self, extra=()):
        c = [self.bin, "--seed", str(self.seed), "--cpu", str(self.st.get("cpu", 20))] + list(extra)
        if self.st.get("thorough_flag"): c.append("--thorough")
        if self.st.get("valgrind"): c = ["valgrind", "-q", "--error-exitcode=98", "--undef-value-errors=yes", "--leak-check=no", "--exit-on-first-error=yes", "--child-silent-after-fork=no"] + c
        return c
    def run(self, a=None, b=None, verbose=False, tag="s"):
        a = self.a if a is None else a; b = self.b if b is None else b
        out = os.path.join(self.work, "%s-%s-%d-%s.json" % (self.st["name"], self.probe or "r", a, tag)); state = out + ".state"; errp = out + ".err"
        sc = scratch_root(self.work); os.makedirs(sc, exist_ok=True)
        env = dict(ENV, VT_SCRATCH=sc, TMPDIR=sc, HOME=sc, **self.st.get("env", {}))
        args = ["--probe", self.probe] if self.probe else ["--from", str(a), "--to", str(b)]
        c = self.cmd(args + ["--out", out, "--state", state] + (["-v"] if verbose else []))
        limit = self.st.get("wall", 400)
        with open(errp, "wb") as ef:
            p = subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=sc, start_new_session=True)
            try: rc = p.wait(timeout=limit); to = False
            except subprocess.TimeoutExpired: rc, to = None, True
            try: os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError): pass
            p.wait()
        with open(errp, "rb") as ef:
            err = ef.read(4_000_000).decode("utf8", "replace")
        cur = a; key = det = ""
        try:
            s = open(state, "rb").read(); cur, done = struct.unpack("QQ", s[:16]); key = s[16:144].split(b"\0")[0].decode("utf8", "replace"); det = s[144:4144].split(b"\0")[0].decode("utf8", "replace")
        except (OSError, struct.error): pass
        r = dict(case=cur, err=err, key=None, detail="", rc=rc, stats=None, hang=False)
        if to: r.update(hang=True, key="hang", detail="no result within the wall-clock watchdog (%d s)" % limit)
        elif rc == 0:
            if not self.probe:
                try: r["stats"] = json.load(open(out))
                except (OSError, ValueError): r["rc"] = 41; r["detail"] = "no statistics written"; return r
                try:
                    d = open(out + ".dist", "rb").read(); r["dist"] = set(struct.unpack("%dQ" % (len(d) // 8), d))
                except OSError: r["dist"] = set()
        elif rc == 40: r.update(key=key or "oracle", detail=det)
        elif rc == 41: r["detail"] = err[-1500:]
        elif rc == 42: r.update(hang=True, key="hang", detail="case exceeded its CPU budget")
        elif rc == -9: r["rc"] = 41; r["detail"] = "killed (SIGKILL)"
        else:
            k = crash_key(err, rc)
            if k: r.update(key=k, detail=crash_summary(err, rc))
            else: r["rc"] = 41; r["detail"] = "exit %s: %s" % (rc, err[-1500:])
        return r

def crash_summary(err, rc):
    for pat in (r"ERROR: AddressSanitizer.*", r".*runtime error:.*", r"WARNING: ThreadSanitizer.*", r"==\d+== .*", r"Assertion.*"):
        m = re.search(pat, err)
        if m: return m.group(0).strip()[:400]
    return "process died: rc=%s" % rc

def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN property=(\S+) key=(\S+) probe=(\S+) (.*)", line)
            if m: known.append(dict(property=m.group(1), key=m.group(2), probe=m.group(3), what=m.group(4)))
    return known

def decide(pid, tier, seed):
    t0 = time.time(); chk = CHECKS[pid]
    work = os.path.join(HERE, "build", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return _decide(pid, tier, seed, chk, work, t0)
    finally:
        shutil.rmtree(os.path.join("/dev/shm", "vt-" + os.path.basename(work)), ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)

def _unbuilt(pid, tier, seed, chk, t0, e, why, sample):
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True); rp = os.path.join(HERE, "evidence", "replay", "%s-unbuilt.txt" % pid)
    with open(rp, "w") as f: f.write("property=%s key=unbuilt\n%s\nreplay: cd /verif && python3 check.py %s %s\n\n%s\n" % (pid, why, pid, tier, e))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=dict(evaluations=1, distinct_nontrivial=1, rule=chk["rule"], samples=[sample]), assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1), f, indent=1)
    print("unbuilt: " + why); print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1

def _decide(pid, tier, seed, chk, work, t0):
    stages = [dict(s) for s in chk["stages"] if tier in s]
    sans = sorted({s["san"] for s in stages})
    try:
        with ThreadPoolExecutor(4) as ex: libs = dict(zip(sans, ex.map(lambda s: build_lib(work, s), sans)))
    except HarnessError as e:      # a tree that builds, but not with its own checks compiled in
        if "dbg" not in sans: raise
        build_lib(os.path.join(work, "again"), "asan"); return _unbuilt(pid, tier, seed, chk, t0, e, "the library does not build with its own checks compiled in", "building with the checks compiled in")
    try:
        with ThreadPoolExecutor(6 if len(stages) > 8 else 4) as ex: bins = list(ex.map(lambda s: build_harness(work, s, libs[s["san"]]), stages))
    except HarnessError as e:     # uses of the header macros that do not compile
        if pid != "C39": raise
        return _unbuilt(pid, tier, seed, chk, t0, e, "the library builds, but uses of its header macros do not compile", "compiling uses of the header macros")
    tb = time.time() - t0
    known = [k for k in load_known() if k["property"] == pid]
    known_keys = {k["key"]: k for k in known}
    viols, stats, dist, per_stage, errors, elsewhere = [], [], set(), {}, [], []
    seen_known = set()
    stop = threading.Event()
    def one(sh):
        if stop.is_set(): return None
        r = sh.run()
        if r["rc"] == 41 and not r["key"]:               # inconclusive: once more
            r = sh.run(tag="again")
        if r["key"] and r["hang"]:                       # a hang must repeat to count
            if sh.st.get("valgrind"): r = dict(r, key=None, rc=41, detail="valgrind timeout") 
            else:
                r2 = sh.run(a=r["case"] if not sh.probe else None, b=r["case"] + 1 if not sh.probe else None, tag="rehang")
                if not r2["key"]:
                    r2 = sh.run(tag="rehang2")           # whole shard again
                r = r2
        if r["key"] and sh.st["san"] == "dbg": r = against_release(sh, r)
        if r["key"] and not sh.probe: stop.set()
        return r
    lock, release = threading.Lock(), {}
    def against_release(sh, r):
        """Assertions compiled in: a tripped one counts; any other failure counts only if the build without them does not fail alike."""
        if r["rc"] == -6:
            m = re.findall(r'Assertion Failed: (".*": \S+\[.*?\])', r["err"]); r.update(key="assertion", detail="tripped by valid use: %s" % (m[-1] if m else r["err"][-300:])); return r
        with lock:
            if "lib" not in release: release["lib"] = build_lib(work, "asan")
            if sh.st["name"] not in release: release[sh.st["name"]] = build_harness(work, dict(sh.st, name="rel_" + sh.st["name"], san="asan", defs=sh.st["rel_defs"]), release["lib"])
        c = r["case"]; rel = Shard(chk, sh.st, release[sh.st["name"]], seed, c, c + 1, work)
        for i in range(3):       # schedules vary: it has to come out the same way every time
            again = sh.run(a=c, b=c + 1, tag="alone")
            if not again["key"] or rel.run(tag="release")["rc"] != 0: return dict(r, key=None, rc=0, stats=None, elsewhere=True)
        again.update(key="differs:" + again["key"], detail="only with assertions compiled in: " + again["detail"]); return again
    def shards_of(st, binp):
        n = st[tier]; parts = max(1, int(NCPU * st.get("split", 2))) * (4 if tier == "thorough" and n > 1000 else 1); per = max(1, (n + parts - 1) // parts)
        st["thorough_flag"] = tier == "thorough"
        shards = [Shard(chk, st, binp, seed, a, min(n, a + per), work) for a in range(0, n, per)]
        if not st.get("valgrind"): shards += [Shard(chk, st, binp, seed, 0, 1, work, probe=p) for p in st.get("probes", [])]
        return shards
    plan = [shards_of(st, binp) for st, binp in zip(stages, bins)]; together = None
    if all(st.get("valgrind") for st in stages):      # many small stages: side by side
        with ThreadPoolExecutor(NCPU) as ex: together = iter(list(ex.map(one, [s for p in plan for s in p])))
    for st, shards in zip(stages, plan):
        if together: res = [next(together) for _ in shards]
        else:
            with ThreadPoolExecutor(st.get("par", NCPU)) as ex: res = list(ex.map(one, shards))
        agg = dict(cases=0, evaluations=0)
        for sh_, r in zip(shards, res):
            if r is None: continue
            if r["key"]:
                if sh_.probe and r["key"] in known_keys and known_keys[r["key"]]["probe"] == sh_.probe: seen_known.add(r["key"])
                else: viols.append((st, sh_, r))
            elif r.get("elsewhere"): elsewhere.append(st["name"])
            elif r["rc"] != 0: errors.append((st["name"], r["detail"]))
            elif r["stats"]:
                stats.append((st, r["stats"])); dist |= r["dist"]; agg["cases"] += sh_.b - sh_.a; agg["evaluations"] += r["stats"]["evaluations"]
        per_stage[st["name"]] = agg
        if viols: break
    if not viols and errors:
        raise HarnessError("; ".join("%s: %s" % e for e in errors[:3]))
    events = {}
    for st, s in stats:
        for k, v in s["events"].items(): events[k] = events.get(k, 0) + v
    evals = sum(s["evaluations"] for _, s in stats)
    samples = []
    for st, s in stats:
        for x in s["samples"][:1]: samples.append("[%s] %s" % (st["name"], x))
    samples = samples[:6] or ["(no case completed)"]
    missing = [] if viols or elsewhere else [e for e in chk.get("require", []) if events.get(e, 0) == 0]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evals, distinct_nontrivial=len(dist), rule=chk["rule"], samples=samples, observed_events=dict(sorted(events.items())),
                      stages={k: v for k, v in per_stage.items()}, **({"builds_left_out": [n for s in stages for n in s.get("left_out", [])]} if any("variant" in s for s in stages) else {}), sanitizers=sans, failed_alike_without_assertions=sorted(set(elsewhere)), known_findings_seen=sorted(seen_known), build_s=round(tb, 1)),
        assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known:
        if k["key"] in seen_known: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["key"]))
    if viols:
        st, sh_, r = viols[0]
        rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-%s.txt" % (pid, st["name"], sh_.probe or r["case"]))
        tr = None
        if not st.get("valgrind") and not r["hang"]:
            tr = sh_.run(a=r["case"], b=r["case"] + 1, verbose=True, tag="replay") if not sh_.probe else sh_.run(verbose=True, tag="replay")
        with open(rp, "w") as f:
            f.write("property=%s key=%s\n%s\nreplay: cd /verif && python3 check.py %s --replay %s %d %s\n\n== original report (case %s)\n%s\n" % (pid, r["key"], r["detail"], pid, st["name"], seed, sh_.probe or r["case"], r["case"], r["err"][-8000:]))
            if tr: f.write("\n== re-execution of that case alone, traced (key=%s)\n%s\n" % (tr["key"], tr["err"][-20000:]))
        print("%s: %s" % (r["key"], r["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if missing: raise HarnessError("nothing observed for required events: %s" % missing)
    print("%s held: %d evaluations, %d distinct, %.1fs (build %.1fs)" % (pid, evals, len(dist), time.time() - t0, tb))
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--setup":      # nothing persistent is needed: every check builds from the current tree; just prove the toolchain works
        rc, out = sh("gcc --version && g++ --version && cmake --version && ninja --version"); print(out); return rc
    pid = a[0]; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if len(a) > 1 and a[1] == "--replay":
            chk = CHECKS[pid]; st = dict(next(s for s in chk["stages"] if s["name"] == a[2])); seed = int(a[3])
            work = os.path.join(HERE, "build", "replay-%d" % os.getpid()); os.makedirs(work)
            try:
                lib = build_lib(work, st["san"]); b = build_harness(work, st, lib)
                isnum = a[4].isdigit()
                sh_ = Shard(chk, st, b, seed, int(a[4]) if isnum else 0, int(a[4]) + 1 if isnum else 1, work, probe=None if isnum else a[4])
                r = sh_.run(verbose=True); print(r["err"][-20000:]); print("rc=%s key=%s %s" % (r["rc"], r["key"], r["detail"]))
                return 1 if r["key"] else 0
            finally: shutil.rmtree(os.path.join("/dev/shm", "vt-" + os.path.basename(work)), ignore_errors=True); shutil.rmtree(work, ignore_errors=True)
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return decide(pid, tier, seed)
    except HarnessError as e:
        print("HARNESS-ERROR %s: %s" % (pid, e)); return 2
if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
