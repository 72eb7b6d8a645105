#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known_findings.txt from /repo's fix commits (run by hand after a repair; no check runs it).
import subprocess, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MAP = {"zt_table": "C01", "zt_set": "C02", "zt_tree": "C03", "zt_list": "C04", "zt_queue": "C04", "zt_stack": "C04", "zt_llist": "C05", "zt_ptr_array": "C06", "zt_array": "C07", "zt_buf": "C08", "zt_bstream": "C09", "zt_base": "C10", "zt_format": "C13", "zt_mem": "C14", "zt_ez_mempool": "C15", "zt_gc": "C16", "zt_sha1": "C17", "zt_hash": "C18", "zt_random": "C19", "zt_uuid": "C20", "zt_ipv4_tbl": "C21", "zt_opts": "C23", "zt_threads": "C25", "zt_path": "C26", "zt_progname": "C27", "zt_time": "C28", "zt_int": "C29", "zt_unit": "C30", "zt_daemon": "C31", "zt_atexit": "C31", "zt_malloc": "C33"}
# repairs that only show when an allocation fails
OOM = "e0713a0 168e988 5979863 920a1c5 a7384eb 923f2f1 623100d ea87d0c 19b81d0 b85b40e 145af1e 6636848 c88161d 8ddf8bc".split()
# repairs of state shared by threads that use separate objects
SHARED = "a1a14f0 9344133 51c0cdc e990cd1 b9f64da".split()
NEWER = {"c3c609c": "C09", "ec59e3b": "C12", "41799e3": "C36", "9130d29": "C42", "33c2776": "C39", "84ecfc0": "C48", "fa920fb": "C48", "00114e8": "C16", "3c6c526": "C46", "867a552": "C46", "4aec9d2": "C46", "0ac94dd": "C46", "f8f721b": "C37", "4d0bf7e": "C45", "7fc0174": "C45", "3547dcc": "C45", "09adcc4": "C45", "f81f233": "C44", "9ce14ea": "C44", "ccb139f": "C11", "cee3af4": "C42", "068db58": "C37", "7a0a19e": "C37", "19383d5": "C39", "d4aa393": "C39", "8610e4d": "C39", "7945267": "C39", "ca3dc4d": "C39", "246561a": "C39", "5042207": "C39", "e79ce45": "C39", "a326254": "C38", "d69498f": "C34", "4b3c98e": "C34", "65490ba": "C34", "75c0f4b": "C34", "6140006": "C34", "2b4f8a5": "C34", "dc56cd0": "C34", "8d412ff": "C35", "f492b0e": "C36", "b4e2ed1": "C36", "bb2f7a0": "C36"}
def prop(h, s, fs):
    m = re.search(r"\[(C\d\d)\]", subprocess.run(["git", "-C", "/repo", "show", "-s", "--format=%b", h], text=True, capture_output=True).stdout)
    if m: return m.group(1)
    if h in NEWER: return NEWER[h]
    if h in OOM: return "C33"
    if h in SHARED: return "C32"
    f = fs[0]
    if "zt_cfg" in f: return "C22"
    if "zt_log" in f: return "C24"
    b = os.path.splitext(os.path.basename(f))[0]
    if b == "zt_cstr": return "C11" if re.search(r"slice|mapping|rany|reverse spans", s) else "C12"
    return MAP[b]
p = os.path.join(root, "known_findings.txt")
keep = [l for l in open(p) if not l.startswith("fixed:")]
git = lambda *a: subprocess.run(["git", "-C", "/repo"] + list(a), text=True, capture_output=True).stdout
new = []
for h in git("log", "--reverse", "--format=%h", "--grep=^fix:").split():
    s = git("show", "-s", "--format=%s", h).strip(); fs = git("show", "--name-only", "--format=", h).split()
    new.append("fixed: property=%s %s %s\n" % (prop(h, s, fs), h, s[5:]))
open(p, "w").writelines(keep + new); print(len(new))
