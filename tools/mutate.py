#!/usr/bin/env python3
"""Tries the checks out on systematically mutated sources.
  mutate.py gen OUT.jsonl [file...]     : all mutants of the sources
  mutate.py tests IN.jsonl OUT.jsonl    : those which build and pass the repository's stable tests
  mutate.py checks IN.jsonl OUT.jsonl   : runs a part of every check against each until one notices
"""
import json, os, re, subprocess, sys, shutil, random, time
from multiprocessing import Pool, current_process
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["tiny.c", "lexer.c", "std.c", "dict.c", "array.c", "arena.c", "pos.c", "util.c"]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def mutants(f):
    lines = open(f"/repo/tiny/src/{f}").read().split("\n")
    out = []
    func = "?"
    depth = 0
    for n, l in enumerate(lines):
        m = re.match(r"^[A-Za-z].*?\b(\w+)\(", l)
        if m and not l.rstrip().endswith(";"): func = m[1]
        code = re.sub(r'"(\\.|[^"\\])*"', lambda x: "\0" * len(x[0]), l)
        code = re.sub(r"//.*", lambda x: " " * len(x[0]), code)
        if not code.strip() or code.strip().startswith(("#", "*", "/*", "typedef", "}")) or "assert(" in code: continue
        seen = set()
        def add(new, op):
            if new != l and new not in seen: seen.add(new); out.append(dict(file=f, line=n + 1, func=func, old=l, new=new, op=op))
        for a, bs in [(r"(?<![<>=!+\-*/&|])<=(?!=)", ["<", "=="]), (r"(?<![<>=!-])>=(?!=)", [">"]), (r"(?<![<>\-=])<(?![<=])", ["<="]), (r"(?<![<>\-=])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
                      (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![+\w(] )(?<=[\w)\]]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
                      (r"(?<=[\w)\]]) \* (?=[\w(])", [" + "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[(&| ])!(?=[\w(])", [""]), (r"\belse if\b", ["if"]), (r"\bNULL\b", []),
                      (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"])]:
            for m in re.finditer(a, code):
                for b in bs:
                    if b in ("+1", "-1"):
                        if m[0] == "0" and b == "-1": continue
                        if re.search(r"\b(char|int)\s+\w+\[$", code[:m.start()]): continue
                        rep = str(int(m[0]) + int(b))
                    else: rep = b
                    add(l[:m.start()] + rep + l[m.end():], f"{m[0].strip()}->{rep.strip()}")
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{| [^{]*;)?\s*(\\?)$", code)
        if m:
            i = l.index("if (") + 4
            j = l.rindex(") {") if ") {" in l else None
            if j:
                add(l[:i] + "0 && (" + l[i:j] + ")" + l[j:], "if 0")
                add(l[:i] + "1 || (" + l[i:j] + ")" + l[j:], "if 1")
        s = code.strip()
        if s.endswith(";") and not re.match(r"^(return|case|default|else|goto|for|while|do|struct|const|static|int|char|bool|size_t|Tiny_\w+ \**\w+( =|;)|FILE|long|void|unsigned)", s) and "{" not in s and code.count("(") == code.count(")"):
            prev = next((x for x in reversed(lines[:n]) if x.strip()), "")
            if prev.rstrip().endswith(("{", "}", ";", ":", "*/")) or prev.strip().startswith("//"):
                if not re.match(r"^\w[\w ]*\**\w+( = .*)?;$", s) or re.match(r"^\w+ (=|\+=|-=) ", s) or re.match(r"^(break|continue);", s):
                    add(l[:len(l) - len(l.lstrip())] + ";", "delete")
        m = re.match(r"^(\s*)return (true|false);", l)
        m = re.match(r"^(\s*)return (\w+);", l)
    return out
def worker_dir():
    i = current_process()._identity
    d = f"/tmp/mut/w{i[0] if i else 0}"
    if not os.path.exists(d):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree("/repo", d, symlinks=True)
    return d
def apply(d, m):
    for f in FILES: shutil.copy(f"/repo/tiny/src/{f}", f"{d}/tiny/src/{f}")
    p = f"{d}/tiny/src/{m['file']}"
    s = open(p).read().split("\n")
    assert s[m["line"] - 1] == m["old"]
    s[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(s))
def test(m):
    d = worker_dir()
    apply(d, m)
    b = d + "/_b"
    os.makedirs(b, exist_ok=True)
    base = ["gcc", "-g", "-w", "-D_GNU_SOURCE", "-Itest/include", "-Itiny/include"]
    objs = []
    for f in ["tiny/src/" + x for x in FILES] + ["test/src/" + x for x in os.listdir(d + "/test/src") if x.endswith(".c")]:
        o = f"{b}/{os.path.basename(f)}.{'t' if f.startswith('test') else 'l'}.o"
        if f == "tiny/src/" + m["file"] or not os.path.exists(o) or m.get("_prev") or True and f == "tiny/src/" + getattr(test, "prev", ""):
            r = subprocess.run(base + ["-c", f, "-o", o], cwd=d, capture_output=True)
            if r.returncode:
                if os.path.exists(o): os.unlink(o)
                test.prev = m["file"]
                return None
        objs.append(o)
    test.prev = m["file"]
    if subprocess.run(["gcc", *objs, "-lm", "-o", b + "/t"], cwd=d, capture_output=True).returncode: return None
    try:
        r = subprocess.run(["stdbuf", "-o0", b + "/t"], cwd=d, capture_output=True, timeout=20, stdin=subprocess.DEVNULL)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        return None
    log = b + "/log"
    open(log, "wb").write(out)
    pr = subprocess.run(["python3", "/opt/vp/parse.py", log, "test/src/test.c"], cwd=d, capture_output=True, text=True).stdout
    open(b + "/lines", "w").write(pr)
    open(b + "/o.json", "w").write('{"passed": [], "failed": []}')
    subprocess.run(["python3", "/opt/vp/results.py", b + "/o.json", f"lines:{b}/lines"], cwd=d, capture_output=True)
    got = set(json.load(open(b + "/o.json"))["passed"])
    return m if STABLE <= got else None
ORDER = {"std.c": ["P16", "P18", "P24", "P25", "P26", "P17", "P31", "P30", "P10", "P08", "P28", "P15", "P09"],
         "lexer.c": ["P20", "P12", "P21", "P01", "P10", "P02", "P05", "P11", "P13", "P29", "P04", "P22"],
         "dict.c": ["P17", "P09", "P10", "P08"], "array.c": ["P16", "P24", "P09", "P10", "P08", "P17"], "arena.c": ["P27", "P12", "P10", "P11", "P29", "P13"], "pos.c": ["P21", "P22", "P12"], "util.c": ["P12", "P10", "P17", "P23", "P21", "P18", "P29"],
         "tiny.c": ["P01", "P05", "P04", "P02", "P03", "P07", "P06", "P23", "P20", "P21", "P28", "P22", "P15", "P19", "P08", "P09", "P26", "P24", "P10"]}
SECOND = ["P11", "P12", "P13", "P14", "P29", "P25", "P17", "P16", "P18", "P27", "P30", "P31"]
def check(m):
    d = worker_dir()
    apply(d, m)
    t0 = time.time()
    os.environ["TINY_REPO"] = d
    sys.path.insert(0, V)
    sys.argv = ["x", "replay-none"]
    tried = []
    for p in ORDER[m["file"]] if not os.environ.get("SECOND") else [q for q in SECOND + ORDER["tiny.c"] if q not in m["tried"]]:
        try:
            r = subprocess.run(["python3", f"{V}/tools/trycheck.py", p], capture_output=True, text=True, timeout=400, env=dict(os.environ, VERIF_STRIDE="64" if p != "P29" else "400", VERIF_LIMIT="6"))
        except subprocess.TimeoutExpired:
            tried.append(p + "?"); continue
        if r.returncode == 1: return dict(m, caught=p, what=r.stdout[:200], secs=round(time.time() - t0))
        if r.returncode == 2: return dict(m, caught="build", what=r.stdout[:200])
        tried.append(p)
    return dict(m, caught=None, tried=tried, secs=round(time.time() - t0))
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "gen":
        with open(sys.argv[2], "w") as f:
            for x in sys.argv[3:] or FILES:
                for m in mutants(x): f.write(json.dumps(m) + "\n")
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]): done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(sys.argv[3]))}
        ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done]
        n = 0
        with Pool(int(os.environ.get("JOBS", "8"))) as pool, open(sys.argv[3], "a") as f:
            for r in pool.imap_unordered(test if c == "tests" else check, ms, chunksize=1 if c == "checks" else 4):
                n += 1
                if r: f.write(json.dumps(r) + "\n"); f.flush()
                if n % 100 == 0: print(n, len(ms), flush=True)
