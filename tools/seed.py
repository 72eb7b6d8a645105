#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py  (run by hand; no check reads /verif/seeded or this file).
SPEC defines SEED (id), PROP, NEEDS, BREAKS, EDITS [(file, old, new)...], DEMO (C source) or DEMO_SH, optional LANG/CFLAGS/LIBS.
Confirms in a scratch copy: applies, changes original lines, builds, stable tests pass, demo passes before and fails after; then runs the property's check."""
import sys, os, subprocess, json, shutil, re
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **(env or {}))); return p.returncode, p.stdout
BASE = sh("git -C /repo log --format=%h --grep='^verif base' | tail -1")[1].strip() or "b144f6e"
def main(spec):
    g = dict(LANG="c", CFLAGS="", LIBS="", DEMO=None, DEMO_SH=None, NOCHECK=False, FILES={}, RUN="./demo"); exec(open(spec).read(), g)
    sid = g["SEED"]; d = os.path.join(H, "seeded", sid); sc = "/tmp/seedw/%s" % sid; repo = sc + "/repo"
    shutil.rmtree(sc, ignore_errors=True); os.makedirs(sc); sh("cp -a /repo %s" % repo)
    sh("git -C %s checkout -q -- ." % repo)
    bad = None
    for f, old, new in g["EDITS"]:
        p = os.path.join(repo, f); s = open(p).read()
        fz = re.findall(r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in old.split("\n") if x.strip()), s)   # blank lines do not count
        if len(fz) == 1: old = fz[0]
        if s.count(old) != 1: print("EDIT: %d matches in %s: %r" % (s.count(old), f, old[:80])); return 2
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", repo)
    # lines removed must be original
    orig = 0; mine = []
    for f in {e[0] for e in g["EDITS"]}:
        bl = sh("git blame -s HEAD -- %s" % f, repo)[1].splitlines()
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh("git diff -U0 -- %s" % f, repo)[1], re.M):
            a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
            for l in range(a, a + n):
                if bl[l - 1].lstrip("^").startswith(BASE[:7]): orig += 1
                else: mine.append(bl[l - 1])
    if not orig: print("NO ORIGINAL LINE CHANGED"); bad = 1
    if mine: print("lines of fix commits changed:\n" + "\n".join(mine)); bad = 1
    if bad and not g.get("FORCE"): return 2
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    if g["DEMO_SH"]: body = g["DEMO_SH"]
    else:
        ext = {"c": "c", "c++": "cpp"}[g["LANG"]]
        open(d + "/demo." + ext, "w").write(g["DEMO"].lstrip("\n"))
        cc = "gcc" if g["LANG"] == "c" else "g++ -fpermissive"
        body = """#!/bin/bash
# cwd: /repo after build.sh. Exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
B=$PWD/_build
%s -g -w -D_GNU_SOURCE -DHAVE_CONFIG_H -DHAVE_PTHREADS -DWITH_THREADS %s -I"$PWD/src" -I"$B/src" -I"$PWD/compat" "$here/demo.%s" %s "$B/src/libzt/libzt_unit.a" "$B/src/libzt/libzt_gc.a" "$B/src/libzt/libzt.a" -lpthread -o "$T/demo" || exit 98
cd "$T" && timeout 200 %s
""" % (cc, g["CFLAGS"], ext, g["LIBS"], g["RUN"])
    open(d + "/demo.sh", "w").write(body); os.chmod(d + "/demo.sh", 0o755)
    for n, t in g["FILES"].items(): open(os.path.join(d, n), "w").write(t)
    # the repo's build dir is tied to /repo: build both variants in a private mount-free way: rewrite paths
    def build(root):
        return sh("rm -rf _build; export CC=gcc CXX=g++ LC_ALL=C.UTF-8; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _build", root)
    def tests(root):
        return sh("set -e; run=$PWD/_build/vp-run; rm -rf $run; mkdir -p $run; cp -r tests $run/tests; gcc -shared -fPIC -o $run/fixed_time.so /opt/vp/fixed_time.c; cd $run/tests; rm -f /tmp/zt_unit_makepid.pid; python3 /opt/vp/run_tests.py %s/_build/tests/unit_test $run/fixed_time.so > $run/results.txt || true; rm -f /tmp/zt_unit_makepid.pid; python3 /opt/vp/results.py %s/out.json lines:$run/results.txt" % (root, sc), root, env=dict(HOME="/root", LC_ALL="C.UTF-8", TZ="UTC"))
    rc, o = build(repo)
    if rc: print("BUILD FAILS\n" + o[-3000:]); return 2
    tests(repo); base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open(sc + "/out.json"))
    key = next(k for k in ("stable", "passed", "stable_passed", "tests") if k in base)
    fail = set(base[key]) - set(out["passed"])
    if fail: print("STABLE TESTS FAIL:", fail); return 2
    rcs = []
    for i in range(g.get("REPEAT", 3)):
        rc, o = sh("bash %s/demo.sh" % d, repo, t=320); rcs.append(rc)
    print("demo with patch:", rcs, o[-400:].strip())
    sh("git checkout -q -- .", repo); rc, o2 = build(repo); ok = []
    for i in range(g.get("REPEAT", 3)):
        rc, o2 = sh("bash %s/demo.sh" % d, repo, t=320); ok.append(rc)
    print("demo without  :", ok, o2[-400:].strip())
    if 0 in rcs or any(ok): print("DEMO UNRELIABLE"); return 2
    sh("git apply %s/patch.diff" % d, repo)
    if g["NOCHECK"]: return 0
    rc, o = sh("timeout 900 python3 check.py %s quick" % g["PROP"], H, env=dict(VT_REPO=repo, VERIF_SEED="1"))
    print("CHECK %s rc=%d: %s" % (g["PROP"], rc, o[-500:].strip()))
    shutil.rmtree(sc, ignore_errors=True)
    print(">>> %s %s" % (sid, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % g["PROP"] in o else "MISSED"))
    return 0 if rc == 1 else 1
sys.exit(main(sys.argv[1]))
