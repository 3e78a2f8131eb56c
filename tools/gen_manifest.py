#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 run.py {p} quick", thorough_cmd=f"python3 run.py {p} thorough",
                       evidence_file=f"evidence/{p}.json", technique=c["technique"], level="model_checking",
                       level_note=(c["note"] + ". Bounds: " + c["bounds"] + ". Trusted: the compiler and its sanitizers, the reference model written in the check."
                                   + (" Assumes: " + "; ".join(c["assume"]) + "." if c["assume"] else ""))))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")) for p in ids if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
         notes="No hooks are compiled into /repo: the checks drive the public interface of the library built from /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
