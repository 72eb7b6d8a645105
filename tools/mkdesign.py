#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between the markers) from registry.py, properties.jsonl and seeded/*/meta.json (run by hand)."""
import os, sys, json, glob, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, root)
import registry
P = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
def wrap(s, ind=2, w=118):
    out, line = [], ""
    for word in s.split():
        if len(line) + len(word) + 1 > w - ind: out.append(" " * ind + line); line = word
        else: line = (line + " " + word).strip()
    return "\n".join(out + [" " * ind + line])
per = []
for p in P:
    c = registry.CHECKS[p["id"]]; c = c if isinstance(c, dict) else vars(c); st = [s if isinstance(s, dict) else vars(s) for s in c["stages"]]
    per.append("### %s - %s" % (p["id"], p["title"]))
    per.append("* Monitored and generated:\n" + wrap(c["rule"] + "."))
    per.append("* Oracle:\n" + wrap(c["technique"] + "."))
    n = lambda k: "+".join(str(s.get(k) or 0) for s in st) if len(st) < 4 else str(sum(s.get(k) or 0 for s in st))
    per.append("* Cases (quick / thorough): %s / %s; instrumented as %s" % (n("quick"), n("thorough"), ", ".join(sorted({s.get("san") or "asan" for s in st}))))
    if c.get("assumptions"): per.append("* Taken for granted:\n" + wrap("; ".join(c["assumptions"]) + "."))
    per.append("* Beyond the tests:\n" + wrap(p["why_tests_cant"])); per.append("")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
extra = json.load(open(os.path.join(root, "tools", "caught.json")))
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json")), key=lambda x: (int(re.search(r"/s(\d+)-", x).group(1)))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); k = i.split("-")[0]
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), extra.get(k, d["property"])))
f = os.path.join(root, "DESIGN.md"); s = open(f).read()
for tag, text in (("per-property", "\n".join(per)), ("seeds", "\n".join(rows))):
    a, b = "<!-- begin %s -->" % tag, "<!-- end %s -->" % tag
    s = s[:s.index(a) + len(a)] + "\n" + text.rstrip() + "\n" + s[s.index(b):]
open(f, "w").write(s)
