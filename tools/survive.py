#!/usr/bin/env python3
"""Which of the changes listed in a file compile and pass the existing tests (development aid).

  survive.py <file> [pattern]     the file defines CHANGES = [(name, property, path, [(old, new), ...]), ...]
Works in scratch copies under /tmp; writes <file>.diffs/<name>.diff for the survivors.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(BASE.get("stable") or BASE.get("passed") or BASE)


def one(c):
    name, prop, path, edits = c
    d = "/tmp/mut-%d-%s" % (os.getpid(), re.sub(r"\W", "_", name))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("_build", ".git"))
    try:
        orig = {}
        multi = path if isinstance(path, dict) else {path: edits}
        for fl, eds in multi.items():
            p = os.path.join(d, fl)
            s = orig[fl] = open(p).read()
            for e in eds:
                old, new = e[:2]
                if s.count(old) == 0 or (s.count(old) > 1 and len(e) < 3):
                    return name, "EDIT %d matches of %r" % (s.count(old), old[:70]), None
                if len(e) > 2:
                    i = -1
                    for _ in range(e[2] + 1):
                        i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                else:
                    s = s.replace(old, new)
            open(p, "w").write(s)
        for f in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/build.sh")
            open(os.path.join(d, f), "w").write(s)
        r = subprocess.run(["bash", d + "/test.sh", d + "/out.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=900)
        o = json.load(open(d + "/out.json"))
        bad = STABLE - set(o["passed"])
        if bad:
            if not o["passed"]:
                return name, "BUILD " + r.stdout[-600:], None
            return name, "KILLED by %s" % sorted(bad)[:2], None
        diff = ""
        for fl in multi:
            a = "/tmp/mut-a-%d" % os.getpid()
            r = subprocess.run(["diff", "-u", "--label", "a/" + fl, "--label", "b/" + fl, "/repo/" + fl, os.path.join(d, fl)],
                               stdout=subprocess.PIPE, text=True)
            diff += r.stdout
        return name, "SURVIVES", diff
    except subprocess.TimeoutExpired:
        return name, "TIMEOUT", None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("changes", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cs = [c for c in m.CHANGES if len(sys.argv) < 3 or re.search(sys.argv[2], c[0])]
    out = "/tmp/diffs"
    os.makedirs(out, exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        for c, (n, st, diff) in zip(cs, ex.map(one, cs)):
            print("%-40s [%s] %s" % (n, c[1], st), flush=True)
            if diff:
                open(os.path.join(out, re.sub(r"\W", "_", n) + ".diff"), "w").write(diff)


main()
