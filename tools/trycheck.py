#!/usr/bin/env python3
"""trycheck.py P: runs one check with one worker, without evidence (for mutate.py)."""
import os, sys, subprocess, tempfile, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/run.py").read().replace("sys.exit(main())", "")
g = {"__file__": V + "/run.py", "__name__": "run"}
exec(compile(src, "run.py", "exec"), g)
p = sys.argv[1]
try: bins = g["build"](p)
except RuntimeError as e: print(e); sys.exit(2)
s = tempfile.mkdtemp(prefix="try-")
try:
    for part, b in zip(g["CHECKS"][p]["parts"], bins):
        cmd = [b, "--tier", "quick", "--out", s + "/r.json", "--scratch", s, "--budget", "100", "--workers", "1"]
        for k, _ in g["known"](p): cmd += ["--known", k]
        subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, cwd=s)
        try: r = json.load(open(s + "/r.json"))
        except Exception: print("no result"); sys.exit(3)
        if "violation" in r: print(r["violation"]["case"], r["violation"]["what"]); sys.exit(1)
finally:
    for b in bins:
        if os.environ.get("TINY_REPO"): os.unlink(b)
    shutil.rmtree(s, ignore_errors=True)
