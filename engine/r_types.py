"""Types and headers: compile-pass and compile-fail witnesses, definitions in headers, conversions that cut values."""
import concurrent.futures
import glob
import json
import os
import re
import subprocess

TEXT = {
    "instantiates": "the public functions type-check for the given index, weight and integer types (witness instantiation)",
    "rejects": "the witness with types outside the contract does not type-check",
    "header-alone": "the header type-checks when it is the only one included, and when included twice",
    "one-definition": "a definition in a header can appear in several translation units (template, inline or internal)",
    "keeps-width": "with 64-bit integers and double weights no conversion in the library goes to a narrower type",
}

COMBOS = [("int", "float", "int"), ("long", "double", "long"), ("unsigned int", "double", "short"),
          ("long long", "long double", "long long"), ("unsigned short", "float", "int"),
          ("unsigned long", "double", "unsigned int"), ("short", "long double", "signed char"),
          ("unsigned long", "float", "long"), ("unsigned long", "double", "int")]
# what must be refused: (index, weight, integer, distance, part)
REFUSED = [("double", "double", "int", "long", "V_ENTRY"), ("float", "double", "int", "long", "V_ENTRY"),
           ("unsigned long", "double", "double", "long", "V_ENTRY"), ("int", "float", "float", "long", "V_ENTRY"),
           ("unsigned long", "double", "int", "unsigned long", "V_UTIL"),
           ("int", "double", "int", "unsigned int", "V_UTIL"), ("unsigned long", "double", "int", "unsigned short", "V_UTIL")]


def clang():
    for c in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++"):
        if os.path.exists(c):
            return c
    return "clang++"


def compiles(src, inc, defs):
    r = subprocess.run([clang(), "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=3"] + ["-I" + i for i in inc]
                       + ["-D" + d for d in defs] + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode < 0:
        return "compiler stopped by a signal"
    if r.returncode == 0:
        return ""
    e = [l for l in r.stdout.splitlines() if "error:" in l]
    return (e[0] if e else r.stdout[-300:]) or "error"


def witnesses(repo, here, work, inc):
    """runs all witnesses; result written to types.json"""
    src = os.path.join(here, "driver/types.cpp")
    jobs = []
    for c in COMBOS:
        jobs.append(("instantiates", ",".join(c), src, ["VI=" + c[0], "VR=" + c[1], "VN=" + c[2]]))
    for i, r, n, d, part in REFUSED:
        jobs.append(("rejects", "%s,%s,%s,%s:%s" % (i, r, n, d, part), src,
                     ["VI=" + i, "VR=" + r, "VN=" + n, "VD=" + d, part]))
    top = os.path.join(repo, "include")
    hs = sorted(glob.glob(os.path.join(top, "CoMMA/*.h")) + glob.glob(os.path.join(top, "CoMMA/deprecated/*.h")))
    os.makedirs(os.path.join(work, "headers"), exist_ok=True)
    for k, h in enumerate(hs):
        n = os.path.relpath(h, top)
        f = os.path.join(work, "headers", "h%d.cpp" % k)
        with open(f, "w") as o:
            o.write('#include "%s"\n#include "%s"\nint vd_after;\n' % (n, n))
        jobs.append(("header-alone", n, f, []))

    def one(j):
        return j[0], j[1], compiles(j[2], inc, j[3])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, jobs))
    with open(os.path.join(work, "types.json"), "w") as f:
        json.dump(out, f)


def run(R, W, work, repo, add):
    """R: the program of the driver; W: the one instantiated with wide types (or None)"""
    path = os.path.join(work, "types.json")
    for rule, name, err in json.load(open(path)) if os.path.exists(path) else []:
        m = re.match(r"(\S+?:\d+):", err)
        if "signal" in err:
            st, d = "undecided", err
        elif rule == "rejects":
            st, d = ("ok", "") if err else ("violated", "types %s are accepted" % name)
        else:
            st, d = ("violated", err) if err else ("ok", "")
        add("C14", rule=rule, id="%s:%s" % (rule, name), where=m.group(1) if m else repo + "/include", status=st, detail=d)
    seen = set()
    for f in R.funcs.values():
        if f["kind"] == "lambda" or f.get("implicit") or f.get("defaulted") or f.get("body") is None:
            continue
        path = R.files[f["l"][0]]
        if not path.endswith(".h") or (path, f["q"], f["l"][1]) in seen:
            continue
        seen.add((path, f["q"], f["l"][1]))
        bad = not f.get("tmpl") and not f.get("inline") and not f.get("linkage_internal") and not f.get("ca")
        add("C14", rule="one-definition", id="definition:%s" % f["q"], fn=f["q"], where=R.where(f["l"]),
            status="violated" if bad else "ok",
            detail="%s is defined in a header without being inline" % f["q"] if bad else "")
    for g in R.globals:
        path = R.files[g["l"][0]]
        if g.get("local") or not path.endswith(".h") or g.get("decl"):
            continue
        bad = not g.get("internal") and not g.get("inline") and not g.get("tmpl")
        add("C14", rule="one-definition", id="variable:%s" % g["q"], where=R.where(g["l"]),
            status="violated" if bad else "ok",
            detail="%s is defined in a header without being inline" % g["q"] if bad else "")
    if W is None:
        add("C14", rule="keeps-width", id="width", where=repo + "/include", status="undecided",
            detail="the instantiation with wide types is not available")
        return
    by = {}
    for x in W.narrow:
        by.setdefault(x["fn"], []).append(x)
    n = set()
    for f in sorted(W.funcs.values(), key=lambda f: f["q"]):
        if f.get("implicit") or f.get("body") is None or f["q"] in n:
            continue
        n.add(f["q"])
        xs = by.get(f["q"], [])
        add("C14", rule="keeps-width", id="width:%s" % f["q"], fn=f["q"],
            where=W.where(xs[0]["l"] if xs else f["l"]), status="violated" if xs else "ok",
            detail="; ".join("%s converted to %s at %s" % (x["from"], x["to"], W.where(x["l"])) for x in xs[:3]))
