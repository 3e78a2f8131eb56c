#!/usr/bin/env python3
"""run.py <property> quick|thorough : builds the check of one property against /repo's working
tree, runs it, writes evidence/<property>.json and reports.

run.py build            : builds every check (setup_cmd)
run.py replay <file>    : replays a recorded violation, showing everything
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TINY_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, ASSUME   # noqa: E402

IMPL = ["-g", "-w", "-D_GNU_SOURCE", "-std=gnu11", "-fwrapv", "-fno-omit-frame-pointer"]
SAN = ["-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
CXX = ["-std=gnu++20", "-g", "-w", "-fno-omit-frame-pointer"]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update((os.path.relpath(p, REPO) if p.startswith(REPO + "/") else p).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def files(d, ext):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if f.endswith(ext)]
    return sorted(out)


def compile_one(cmd, key_files, tag):
    """Compile with content-addressed caching; returns the object path."""
    key = hashlib.sha256((" ".join(cmd) + tree_hash(key_files)).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, f"{tag}-{key}.o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
        r = subprocess.run(cmd + ["-c", "-o", tmp], capture_output=True, text=True, cwd=REPO)
        if r.returncode:
            raise RuntimeError(f"cannot compile {tag}:\n{r.stderr[-4000:]}")
        os.replace(tmp, obj)
    else:
        try: os.utime(obj)
        except OSError: pass
    return obj


def build(pid):
    """Builds the check's binaries; returns their paths."""
    c = CHECKS[pid]
    inc = "tiny/include"        # commands run in REPO: what was built for the same text elsewhere is reused
    hdrs = files(os.path.join(REPO, "tiny"), ".h")
    lib = files(os.path.join(VERIF, "lib"), (".hpp", ".h"))
    out = []
    for part in c["parts"]:
        san = part.get("san", SAN)
        defs = part.get("defs", [])
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            src = os.path.join(VERIF, "checks", part["src"])
            jobs.append(ex.submit(compile_one, ["g++", *CXX, *san, *defs, "-I" + inc, "-I" + os.path.join(VERIF, "lib"),
                                                *["-I" + i for i in part.get("inc", [])],
                                                *part.get("cxx", []), src],
                                  [src, *hdrs, *lib], part["src"]))
            csrc = [os.path.join(VERIF, "lib", "shim.c")]
            if part.get("tiny", True):
                csrc += files(os.path.join(REPO, "tiny/src"), ".c")
            else:
                csrc = []
            for x in part.get("extra", []):
                csrc.append(x.replace("$REPO", REPO).replace("$VERIF", VERIF))
            exthdr = []
            for i in part.get("inc", []):
                exthdr += files(os.path.join(REPO, i), ".h")
            for s in csrc:
                if not os.path.exists(s):
                    continue
                jobs.append(ex.submit(compile_one, ["gcc", *IMPL, *san, *defs, *part.get("cc", []), "-I" + inc,
                                                    *["-I" + i for i in part.get("inc", [])],
                                                    "-I" + os.path.join(VERIF, "lib"), os.path.relpath(s, REPO) if s.startswith(REPO + "/") else s],
                                      [s, *hdrs, *exthdr, *lib], os.path.basename(s)))
        objs = [j.result() for j in jobs]
        key = hashlib.sha256(" ".join(objs + san + part.get("ld", [])).encode()).hexdigest()[:16]
        binp = os.path.join(BUILD, f"{pid}-{part['src']}-{key}")
        if not os.path.exists(binp):
            tmp = binp + f".{os.getpid()}.{threading.get_ident()}.tmp"
            r = subprocess.run(["g++", *san, "-o", tmp, *objs, *part.get("ld", []), "-lm", "-lpthread"],
                               capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f"cannot link {pid}:\n{r.stderr[-4000:]}")
            os.replace(tmp, binp)
        out.append(binp)
    return out


def known(pid):
    """Known findings of the property: (text which identifies the failing case, description)."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith(f"known: property={pid} "):
                    a, b = line.split(" ", 2)[2].strip().split(" ## ", 1)
                    out.append((a.strip(), b.strip()))
    except FileNotFoundError:
        pass
    return out


def run(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    bins = build(pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot = dict(states=0, transitions=0, traces=0, cases=0, total=0, skipped=0, runs=0, flaky=0)
    exhaustive, fams, samples, counters, viol, hits = True, [], [], {}, None, {}
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        for part, b in zip(c["parts"], bins):
            res = os.path.join(scratch, "result.json")
            budget = part.get("budget", {}).get(tier, 300 if tier == "quick" else 700 // len(bins))
            cmd = [b, "--tier", tier, "--out", res, "--scratch", scratch, "--budget", str(budget),
                   "--workers", str(part.get("workers", 8))]
            for k, _ in known(pid):
                cmd += ["--known", k]
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", cwd=scratch)
            if p.stderr:
                sys.stderr.write(p.stderr[-4000:])
            if p.returncode not in (0, 1) or not os.path.exists(res):
                print(f"ERROR: check of {pid} ended with status {p.returncode}")
                return 2
            with open(res) as f:
                r = json.load(f)
            os.unlink(res)
            for k in tot:
                tot[k] += r[k]
            exhaustive = exhaustive and r["exhaustive"]
            fams += r["families"]
            samples += r["samples"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in r["known"].items():
                hits[k] = hits.get(k, 0) + v
            if "violation" in r:
                viol = dict(r["violation"], part=part["src"], tier=tier, property=pid)
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], samples=samples[:12],
                            exhaustive=bool(exhaustive and not viol), cases=tot["cases"], cases_in_space=tot["total"],
                            outside_specified_domain=tot["skipped"], executions=tot["runs"], flaky_cases=tot["flaky"], known_findings=hits,
                            families=fams, counters=counters, bounds=c["bounds"]),
              assumptions=ASSUME + c.get("assume", []), wall_s=round(wall, 3), violations=1 if viol else 0)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, text in known(pid):
        if hits.get(k):
            print(f"KNOWN-FINDING: property={pid} {k}: {text} ({hits[k]} cases)")
    if viol:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-{tier}.json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print(f"case {viol['case']}: {viol['what']}")
        if viol["input"]:
            print("input:\n" + viol["input"][:1500])
        if viol["stderr"]:
            print(viol["stderr"][:2000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid} {tier}: held on {tot['cases']} of {tot['total']} cases, {tot['states']} states, "
          f"{tot['transitions']} transitions, {tot['traces']} traces compared, {tot["runs"]} executions, {tot['skipped']} outside the domain, "
          f"{wall:.1f} s")
    return 0


def main():
    a = sys.argv[1:]
    if a == ["build"]:
        with ThreadPoolExecutor(6) as ex:
            for pid, _ in zip(sorted(CHECKS), ex.map(build, sorted(CHECKS))):
                print("built", pid, flush=True)
        return 0
    if a and a[0] == "replay":
        with open(a[1]) as f:
            v = json.load(f)
        c = CHECKS[v["property"]]
        bins = build(v["property"])
        for part, b in zip(c["parts"], bins):
            if part["src"] == v["part"]:
                return subprocess.run([b, "--tier", v["tier"], "--only", v["case"]]).returncode
    try:
        return run(a[0], a[1] if len(a) > 1 else "quick")
    except RuntimeError as e:
        print("ERROR:", e)
        return 2


sys.exit(main())
