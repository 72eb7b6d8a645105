#!/usr/bin/env python3
# dev loop: dev.py STAGE-SRC SAN FROM TO [extra args]  - incremental build in /tmp/dev, run one shard in the foreground
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, registry, subprocess
name, a, b = sys.argv[1], sys.argv[2], sys.argv[3]
st = None
for pid, c in registry.CHECKS.items():
    for s in c["stages"]:
        if s["name"] == name: st = s
root = "/tmp/dev"; lib = root + "/lib-" + st["san"]
if not os.path.exists(lib + "/build.ninja"): check.build_lib(root, st["san"])
rc, o = check.sh(["ninja", "-C", lib, "zt", "zt_gc", "zt_unit"])
if rc: print(o[-3000:]); sys.exit(2)
try: binp = check.build_harness(root, st, lib)
except check.HarnessError as e: print(e); sys.exit(2)
ex = sys.argv[4:]
cmd = [binp, "--seed", os.environ.get("VERIF_SEED", "1"), "--out", "/tmp/dev/out.json"]
cmd += ["--probe", a[1:]] if a.startswith("@") else ["--from", a, "--to", b]
os.environ.update(check.ENV); os.makedirs("/dev/shm/vtdev", exist_ok=True); os.environ["VT_SCRATCH"] = "/dev/shm/vtdev"
import time; t = time.time()
p = subprocess.run(cmd + ex, stderr=subprocess.PIPE, text=True, errors="replace", cwd="/dev/shm/vtdev")
e = p.stderr
print(e[:2500] + ("\n...\n" + e[-2500:] if len(e) > 5000 else e[2500:]))
print("rc", p.returncode, "key", check.crash_key(e, p.returncode) if p.returncode not in (0, 40, 41, 42) else "", "%.1fs" % (time.time() - t))
if p.returncode == 0 and not a.startswith("@"): import json; d=json.load(open("/tmp/dev/out.json")); print(d["evaluations"], d["events"]); print(d["samples"][0][:300])
