#!/usr/bin/env python3
"""Applies edits to a copy of the model headers and analyses the result (development aid).

  trial.py <trials file> [name pattern] [-v]
A trials file defines TRIALS = [(name, kind, file, [(old, new), ...]), ...]; kind is "same" for
edits that keep the behaviour and a property id for edits that break it.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check


BASE = "model"
FULL = "--full" in sys.argv


def one(t):
    name, kind, file, edits = t
    d = "/tmp/trial-%d-%s" % (os.getpid(), re.sub(r"\W", "_", name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for x in ("include", "src", "config_files"):
            shutil.copytree("/repo/" + x, os.path.join(d, x))
        shutil.copy("/repo/CMakeLists.txt", d)
        if BASE == "model":
            for h in os.listdir(os.path.join(HERE, "model/CoMMA")):
                shutil.copy(os.path.join(HERE, "model/CoMMA", h), os.path.join(d, "include/CoMMA", h))
        multi = file if isinstance(file, dict) else {file: edits}
        for fl, eds in multi.items():
            p = os.path.join(d, fl if "/" in fl else "include/CoMMA/" + fl)
            s = open(p).read()
            for e in eds:
                old, new = e[:2]
                if s.count(old) == 0 or (s.count(old) > 1 and len(e) < 3):
                    return t, "EDIT", "%d matches of %r" % (s.count(old), old[:80])
                if len(e) > 2 and e[2] == "all":
                    s = s.replace(old, new)
                elif len(e) > 2:
                    i = -1
                    for _ in range(e[2] + 1):
                        i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                else:
                    s = s.replace(old, new)
            open(p, "w").write(s)
        env = dict(os.environ, VERIF_REPO=d)
        if not FULL:
            env["VERIF_LIB"] = "1"
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--dump", d + "/result.json"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, env=env)
        except subprocess.TimeoutExpired:
            return t, "TIMEOUT", ""
        if r.returncode:
            return t, "FAIL", r.stdout[-1500:]
        return t, "OK", json.load(open(os.path.join(d, "result.json")))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a[0] != "-"]
    spec = importlib.util.spec_from_file_location("trials", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    global BASE
    BASE = getattr(m, "BASE", "model" if hasattr(m, "TRIALS") else "repo")
    ts = [t for t in (m.TRIALS if hasattr(m, "TRIALS") else m.CHANGES) if len(args) < 2 or re.search(args[1], t[0])]
    check.extractor()
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for t, st, res in ex.map(one, ts):
            name, kind = t[0], t[1]
            if st != "OK":
                print("%-9s %s: %s" % (st, name, res))
                bad += 1
                continue
            vio = {p for p, P in res["props"].items() for o in P["obligations"] if o["status"] == "violated"}
            und = {p for p, P in res["props"].items() for o in P["obligations"] if o["status"] == "undecided"}
            if kind == "same":
                ok = not vio
                tag = "ok" if ok and not und else ("undecided" if ok else "FALSE")
            else:
                ok = kind in vio
                tag = "ok" if ok else "MISSED"
            bad += not ok
            print("%-9s %s [%s] violated: %s undecided: %s (%.0fs)" % (
                tag, name, kind, " ".join(sorted(vio)), " ".join(sorted(und)), res["times"]["repo"]))
            if (not ok or und or "-v" in sys.argv) and "-q" not in sys.argv:
                seen = set()
                for P in res["props"].values():
                    for o in P["obligations"]:
                        if o["status"] != "ok" and o["id"] not in seen:
                            seen.add(o["id"])
                            print("      %s %s\n          %s" % (o["status"], o["id"].split("(")[0] + ":" + o["id"].split(":")[-1],
                                                          o.get("detail", "")[:9000 if os.environ.get("VERIF_DEBUG") else 900]))
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
