#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
from registry import CHECKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=c["technique"], level="exploration",
            level_note=c["note"] or "Held on the seeded executions the run performed (counts in the evidence file), as judged by an independent reference model and by the sanitizers; says nothing about executions not produced. Trusts gcc's sanitizer runtimes, glibc and the reference model." + (" Assumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else "")))
    else: na.append(dict(property=i, reason=getattr(sys.modules["registry"], "NOT_APPLICABLE", {}).get(i, "machinery not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks: every monitor works at the public API boundary, so /repo carries only fix: commits. Each check builds /repo's working tree out of tree with its sanitizers.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); print(len(checks), len(na))
