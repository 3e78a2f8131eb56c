#!/usr/bin/env python3
"""Library for writing planted bugs: seed(id, prop, [(file, old, new)], demo C body, needs, breaks)."""
import os, subprocess, json, re, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "5bc85fa"
HERE = os.path.dirname(os.path.abspath(__file__))
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def seed(id, prop, edits, demo, needs, breaks):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/mkseed-{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", w, check=True)
    for f, old, new in edits:
        s = open(f"{w}/{f}").read()
        n = s.count(old)
        if n != 1: print(id, "pattern occurs", n, "times in", f, ":", old[:60]); shutil.rmtree(w); return False
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    patch = sh("git", "-C", w, "diff").stdout
    # every removed line must be a line of the original repository
    bad = 0; removed = 0
    for f in {e[0] for e in edits}:
        pd = sh("git", "-C", w, "diff", "-U0", "--", f).stdout
        blame = sh("git", "-C", w, "blame", "-s", "HEAD", "--", f).stdout.split("\n")
        mine = set(sh("git", "-C", "/repo", "log", "--format=%h", f"{BASE}..HEAD").stdout.split())
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", pd, re.M):
            a, n = int(m[1]), int(m[2]) if m[2] is not None else 1
            for k in range(a, a + n):
                removed += 1
                if any(blame[k - 1].lstrip("^").startswith(c) for c in mine): bad += 1; print(id, "touches a line of mine:", blame[k - 1][:100])
    if not removed: print(id, "removes no line"); bad = 1
    open(f"{d}/patch.diff", "w").write(patch)
    shutil.copy(f"{HERE}/demo.h", f"{d}/demo.h")
    open(f"{d}/demo.c", "w").write('#include "demo.h"\n' + demo.strip("\n") + "\n")
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Builds demo.c against the library and runs it; everything it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -g -w -Itiny/include "$here/demo.c" _build/tiny/libtiny.a -lm -lpthread -o "$d/demo" || exit 2
export SCRATCH=$d
timeout 100 "$d/demo"
''')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    return not bad
