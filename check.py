#!/usr/bin/env python3
"""Decides one property (or all) from the sources of /repo.

  check.py <id> [quick|thorough]      exit 0: holds, 1: VIOLATION, 2: error of the check
  check.py --setup                    builds the extractor
  check.py --report                   all properties, for development
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "engine"))
RES = "/usr/lib/llvm-18/lib/clang/18"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()[:20]


def extractor():
    src = os.path.join(HERE, "extract/extract.cpp")
    exe = os.path.join(BUILD, "comma-extract-" + digest([src]))
    if not os.path.exists(exe):
        r = sh(["/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", exe + ".tmp",
                "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"])
        if r.returncode:
            raise RuntimeError("extractor does not build:\n" + r.stdout)
        os.rename(exe + ".tmp", exe)
    return exe


def config(out):
    """CoMMAConfig.h as the build system would generate it"""
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    tpl = open(os.path.join(REPO, "config_files/CoMMAConfig.h.in")).read()
    ver = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm[cm.find("project"):])
    ver = ver.groups() if ver else ("0", "0", "0")
    val = {"PROJECT_VERSION": ".".join(ver), "PROJECT_VERSION_MAJOR": ver[0], "PROJECT_VERSION_MINOR": ver[1],
           "PROJECT_VERSION_PATCH": ver[2]}
    for n, d in (("INT_T", "int"), ("INDEX_T", "unsigned long"), ("REAL_T", "double")):
        m = re.search(r"set\(\s*%s\s+\"([^\"]+)\"" % n, cm)
        val[n] = m.group(1) if m else d
    os.makedirs(os.path.join(out, "CoMMA"), exist_ok=True)
    with open(os.path.join(out, "CoMMA/CoMMAConfig.h"), "w") as f:
        f.write(re.sub(r"@(\w+)@", lambda m: val.get(m.group(1), ""), tpl))


def sources():
    fs = []
    for d in ("include", "src", "config_files"):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in names if n.endswith((".h", ".hpp", ".cpp", ".in"))]
    fs.append(os.path.join(REPO, "CMakeLists.txt"))
    return fs


def own_files():
    fs = [os.path.join(HERE, "check.py")]
    for d in ("engine", "model", "driver", "extract", "rules"):
        for r, _, names in os.walk(os.path.join(HERE, d)):
            fs += [os.path.join(r, n) for n in names if not n.endswith(".pyc")]
    return fs


def python_includes():
    r = sh(["python3-config", "--includes"])
    return r.stdout.split() if r.returncode == 0 else []


def extract(out, roots, src, inc, defs=()):
    """starts an extraction; call the result to wait for it: error text or None"""
    cmd = [extractor(), out + ".tmp", roots, src, "--", "-std=c++17", "-DNDEBUG", "-resource-dir", RES]
    cmd += ["-D" + d for d in defs] + ["-I" + i for i in inc]
    log = open(out + ".log", "w+")
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)

    def wait():
        p.wait()
        if p.returncode or not os.path.exists(out + ".tmp"):
            log.seek(0)
            return log.read() or "extraction failed"
        os.rename(out + ".tmp", out)
        return None
    return wait


def analyse(work):
    """Runs the whole analysis on the current sources; returns the result structure."""
    t0 = time.time()
    config(os.path.join(work, "cfg"))
    cfg = os.path.join(work, "cfg")
    drv = os.path.join(HERE, "driver/driver.cpp")
    times = {}
    inc, minc = [cfg, os.path.join(REPO, "include")], [cfg, os.path.join(HERE, "model")]
    py = [i[2:] for i in python_includes()]
    roots = "%s/include,%s/src" % (REPO, REPO)
    mroot = os.path.join(HERE, "model")

    def out(n):
        return os.path.join(work, n + ".json")
    def kept(n, src, inc):
        # development: extractions of the model are shared by the trials
        if not os.environ.get("VERIF_LIB"):
            return extract(out(n), mroot, src, inc)
        f = os.path.join(BUILD, "%s-%s.json" % (n, digest([f for f in own_files() if "/engine/" not in f])))
        if os.path.exists(f):
            shutil.copy(f, out(n))
            return lambda: None
        w = extract(out(n), mroot, src, inc)

        def wait():
            e = w()
            if not e:
                shutil.copy(out(n), f + str(os.getpid()))
                os.rename(f + str(os.getpid()), f)
            return e
        return wait
    jobs = {
        "repo": extract(out("repo"), roots, drv, inc),
        "model": kept("model", drv, minc),
        "pymodel": kept("pymodel", os.path.join(HERE, "model/src/CoMMA.cpp"), minc + py),
    }
    src = os.path.join(REPO, "src/CoMMA.cpp")
    if os.path.exists(src):
        jobs["pyrepo"] = extract(out("pyrepo"), roots, src, inc + py)
    jobs["wide"] = extract(out("wide"), roots, os.path.join(HERE, "driver/types.cpp"), inc,
                           ("VI=long long", "VR=double", "VN=long long", "VD=long long"))
    import r_types
    if not os.environ.get("VERIF_LIB"):
        r_types.witnesses(REPO, HERE, work, inc)
    errs = {n: w() for n, w in jobs.items()}
    for defs in (("VD_NONCONST",), ("VD_MINIMAL",), ("VD_MINIMAL", "VD_NONCONST")):
        if errs["repo"]:
            errs["repo"] = extract(out("repo"), roots, drv, inc, defs)()
    if errs["repo"]:
        raise RuntimeError("the sources do not compile:\n" + errs["repo"])
    if errs["model"] or errs["pymodel"]:
        raise RuntimeError("the model does not compile:\n" + (errs["model"] or errs["pymodel"]))
    times["extract"] = round(time.time() - t0, 2)
    r = sh([sys.executable, os.path.join(HERE, "engine/run.py"), work, REPO, HERE])
    if r.returncode:
        raise RuntimeError("analysis failed:\n" + r.stdout[-4000:])
    res = json.load(open(os.path.join(work, "result.json")))
    res["times"].update(times)
    res["output"] = r.stdout[-2000:]
    return res


def result(fresh=False):
    """The analysis of the current sources (kept while no source and no part of the tool changes)."""
    os.makedirs(BUILD, exist_ok=True)
    key = digest(sources() + own_files(), REPO)
    path = os.path.join(BUILD, "result-%s.json" % key)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(path) and not fresh:
            try:
                return json.load(open(path)), True
            except ValueError:
                pass
        work = os.path.join(BUILD, "work-" + key)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        try:
            res = analyse(work)
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(work, ignore_errors=True)
        old = sorted(glob.glob(os.path.join(BUILD, "result-*.json")), key=os.path.getmtime)
        for f in old[:-40]:
            os.unlink(f)
        with open(path + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(path + ".tmp", path)
        return res, False


def known():
    """known findings: property -> list of (identifier, text)"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m:
                out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def check(pid, tier, res, reused, t0):
    props = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        props[d["id"]] = d
    if pid not in props:
        raise RuntimeError("unknown property " + pid)
    P = res["props"].get(pid, {})
    obl = P.get("obligations", [])
    bad = [o for o in obl if o["status"] == "violated"]
    und = [o for o in obl if o["status"] == "undecided"]
    kf = known().get(pid, [])
    fresh = []
    for o in bad:
        k = next((t for i, t in kf if i == o["id"]), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            fresh.append(o)
    for o in und[:10]:
        print("UNDECIDED property=%s %s: %s" % (pid, o["id"], o.get("detail", "")[:300]))
    for o in fresh[:12]:
        print("%s: [%s] %s" % (o.get("where", "?"), o["rule"], o["id"]))
        print("    " + o.get("detail", "")[:900])
    rules = {}
    for o in obl:
        r = rules.setdefault(o["rule"], {"obligations": 0, "discharged": 0, "undecided": 0, "violated": 0})
        r["obligations"] += 1
        r[{"ok": "discharged"}.get(o["status"], o["status"])] += 1
    cov = {
        "explanation": "Static analysis of the sources, nothing is executed. Each obligation is one observable of one "
                       "function whose value graph is compared with the reference model, or one instance of a rule "
                       "(see rules). Counts are of this run.",
        "obligations": len(obl),
        "discharged": sum(o["status"] == "ok" for o in obl),
        "undecided": len(und),
        "violated": len(bad),
        "functions": len({o.get("fn") for o in obl if o.get("fn")}),
        "rules": rules,
        "rule_texts": {r: res["rules"].get(r, "") for r in rules},
        "analysed": res["stats"],
        "analysis_kept_from_same_sources": reused,
        "samples": [{k: o.get(k) for k in ("rule", "id", "where", "status")} for o in obl[:: max(1, len(obl) // 8)][:9]],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
          "assumptions": res.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not obl:
        raise RuntimeError("no obligation for " + pid)
    if fresh:
        rep = os.path.join(BUILD, "violation-%s.json" % pid)
        with open(rep, "w") as f:
            json.dump(fresh, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s obligations=%d discharged=%d undecided=%d" % (pid, len(obl), cov["discharged"], len(und)))
    return 0


def main():
    t0 = time.time()
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            os.makedirs(BUILD, exist_ok=True)
            extractor()
            return 0
        if a and a[0] == "--report":
            res, reused = result("fresh" in a)
            n = 0
            for pid, P in sorted(res["props"].items()):
                obl = P["obligations"]
                bad = [o for o in obl if o["status"] == "violated"]
                und = [o for o in obl if o["status"] == "undecided"]
                if "-v" in a or bad or und:
                    print("%s %4d obligations %3d violated %3d undecided" % (pid, len(obl), len(bad), len(und)))
            seen = set()
            for pid, P in sorted(res["props"].items()):
                for o in P["obligations"]:
                    if o["status"] != "ok" and o["id"] not in seen:
                        seen.add(o["id"])
                        n += 1
                        if n < 40:
                            print("%s %s %s\n      %s" % (o["status"], o["where"], o["id"], o.get("detail", "")[:600]))
            print(res["times"], "reused" if reused else "")
            return 1 if any(o["status"] == "violated" for P in res["props"].values() for o in P["obligations"]) else 0
        if a and a[0] == "--dump":
            # development: the result without keeping it, in a directory of its own
            work = a[1] + ".work"
            os.makedirs(work)
            try:
                res = analyse(work)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            with open(a[1], "w") as f:
                json.dump(res, f)
            return 0
        pid = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        res, reused = result(fresh=tier == "thorough")
        return check(pid, tier, res, reused, t0)
    except Exception as x:
        print("ERROR: %s" % x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
