#!/usr/bin/env python3
"""check.py ID [quick|thorough]      run the check of one property
   check.py --replay FILE            re-run one recorded violation
   check.py --build-all              compile every check (setup)

Compiles /verif/checks/<ID>*.cpp with the exploration engine against
/repo/include (cached by content under /verif/build), runs it, matches
violations with known_findings.json and writes evidence/<ID>.json."""
import concurrent.futures as cf
import glob, hashlib, json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
CXX = "/usr/bin/g++"
BASE = ["-std=c++17", "-O2", "-w", "-fno-strict-aliasing", "-D_GLIBCXX_ASSERTIONS",
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "harness"), "-I" + os.path.join(V, "checks")]
JOBS = int(os.environ.get("MC_JOBS", os.cpu_count() or 4))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def meta():
    with open(os.path.join(V, "checks", "meta.json")) as f:
        return json.load(f)


def sources(cid):
    return sorted(glob.glob(os.path.join(V, "checks", cid + "*.cpp")))


def compile_check(cid):
    m = meta().get(cid, {})
    flags = BASE + m.get("flags", [])
    hdrs = glob.glob(os.path.join(V, "harness", "*")) + glob.glob(os.path.join(V, "checks", "*.hpp"))
    key = tree_hash([os.path.join(REPO, "include")] + sorted(hdrs))
    srcs = sources(cid) + [os.path.join(V, "harness", "mc_main.cpp")]
    os.makedirs(BUILD, exist_ok=True)

    def one(src):
        with open(src, "rb") as f:
            k = hashlib.sha256((key + " ".join(flags) + src).encode() + f.read()).hexdigest()[:24]
        obj = os.path.join(BUILD, os.path.basename(src)[:-4] + "-" + k + ".o")
        if os.path.exists(obj):
            return obj, None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, obj)
        return obj, None

    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, srcs))
    for o, err in res:
        if err is not None:
            print("check.py: compilation failed\n" + err[:6000], file=sys.stderr)
            return None
    objs = [o for o, _ in res]
    k = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, cid + "-" + k)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + objs + ["-o", tmp] + m.get("libs", []))
        if r.returncode:
            print("check.py: link failed\n" + r.stdout[:4000], file=sys.stderr)
            return None
        os.rename(tmp, exe)
    return exe


def known():
    with open(os.path.join(V, "known_findings.json")) as f:
        return json.load(f)["known"]


def norm(s):
    return " ".join(s.split())


def run(cid, tier):
    t0 = time.time()
    ev = os.path.join(V, "evidence", cid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    for old in glob.glob(os.path.join(V, "replays", cid + "-*.json")):
        os.remove(old)
    exe = compile_check(cid)
    if exe is None:
        return 2
    tc = time.time() - t0
    out = os.path.join(BUILD, "%s-%s-%d.json" % (cid, tier, os.getpid()))
    env = dict(os.environ)
    env.setdefault("MC_CAP", str(max(60, int(840 - tc))) if tier == "quick" else "14400")
    r = subprocess.run([exe, "run", tier, str(JOBS), out], env=env)
    if r.returncode or not os.path.exists(out):
        print("check.py: explorer failed with status %d" % r.returncode, file=sys.stderr)
        return 2
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    kf = [k for k in known() if k["property"] == cid]
    new, hit = [], []
    for v in d["violations"]:
        m = [k for k in kf if k["family"] == v["family"] and k.get("tag", v["tag"]) == v["tag"]
             and norm(v["input"]) == norm(k["input"])]
        (hit if m else new).append((v, m))
    printed = set()
    for v, m in hit:
        if m[0]["what"] not in printed:
            printed.add(m[0]["what"])
            print("KNOWN-FINDING: property=%s %s" % (cid, m[0]["what"]))
    mm = meta().get(cid, {})
    cov = {
        "states": d["states"], "transitions": d["steps"],
        "traces_validated_against_impl": d["evaluations"],
        "evaluations": d["evaluations"], "distinct_nontrivial": d["nontrivial"],
        "rule": mm.get("rule", ""), "exhaustive": d["exhaustive"] and not d["capped"],
        "capped": d["capped"], "families": d["families"], "samples": d["samples"],
        "known_findings_hit": len(hit), "compile_s": round(tc, 1),
    }
    evd = {"property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
           "level": mm.get("level", "model_checking"), "coverage": cov,
           "assumptions": mm.get("assumptions", []),
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(ev + ".tmp", "w") as f:
        json.dump(evd, f, indent=1)
    os.rename(ev + ".tmp", ev)
    print("%s %s: %d cases, %d steps on the real code, %d model states, %d distinct non-trivial, "
          "%s, %.1fs (compile %.1fs)" % (cid, tier, d["evaluations"], d["steps"], d["states"],
          d["nontrivial"], "complete" if cov["exhaustive"] else "NOT COMPLETE", time.time() - t0, tc))
    if new:
        rd = os.path.join(V, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (v, _) in enumerate(new[:20]):
            path = os.path.join(rd, "%s-%d.json" % (cid, n))
            with open(path, "w") as f:
                json.dump({"property": cid, "tier": tier, **v,
                           "replay": "python3 /verif/check.py --replay " + path}, f, indent=1)
            if n < 5:
                print("  [%s] %s #%d: %s\n    input: %s" % (v["tag"], v["family"], v["index"], v["msg"], v["input"][:1500]))
            print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if d["unreproduced"]:
        print("check.py: %d case(s) failed once but passed when replayed alone" % d["unreproduced"], file=sys.stderr)
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    exe = compile_check(v["property"])
    if exe is None:
        return 2
    return subprocess.run([exe, "replay", v["tier"], v["family"], str(v["index"])]).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if a[:1] == ["--build-all"]:
        ok = True
        for cid in sorted({os.path.basename(s).split("_")[0].split(".")[0] for s in glob.glob(os.path.join(V, "checks", "C*.cpp"))}):
            ok = (compile_check(cid) is not None) and ok
        return 0 if ok else 1
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
