#!/usr/bin/env python3
"""Run the demonstrations of the planted bugs in a scratch copy of /repo, without and with the patch.

demos.py [name pattern] [--tests]: with --tests the copy is also built and the test suite run with the patch."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def one(name, tests):
    top = tempfile.mkdtemp(prefix="demo-")
    try:
        d = os.path.join(top, "repo")
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("_build"))
        src = os.path.join(SEEDED, name)
        dst = os.path.join(top, "bug")
        shutil.copytree(src, dst)
        if not tests:
            os.makedirs(os.path.join(d, "_build/include/CoMMA"))
            shutil.copy("/repo/_build/include/CoMMA/CoMMAConfig.h", os.path.join(d, "_build/include/CoMMA"))
            for f in os.listdir("/repo/_build"):
                if f.endswith(".so"):
                    shutil.copy("/repo/_build/" + f, os.path.join(d, "_build"))
        else:
            for f in ("build.sh", "test.sh"):
                s = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", top + "/build.sh")
                open(os.path.join(top, f), "w").write(s)
            sh(["bash", top + "/build.sh"], d)
        c0, o0 = sh(["bash", dst + "/demo.sh"], d)
        ca, oa = sh(["git", "apply", "--whitespace=nowarn", dst + "/patch.diff"], d)
        if ca:
            return name, "PATCH DOES NOT APPLY " + oa
        t = ""
        if tests:
            sh(["bash", top + "/test.sh", top + "/out.json"], d)
            bad = STABLE - set(json.load(open(top + "/out.json"))["passed"])
            t = " tests ok" if not bad else " TESTS FAIL %s" % sorted(bad)[:3]
        c1, o1 = sh(["bash", dst + "/demo.sh"], d)
        ok = c0 == 0 and c1 not in (0, 3, 4)
        return name, "%s clean=%d patched=%d%s%s" % (
            "ok " if ok else "BAD", c0, c1, t, "" if ok else "\n" + o0[-1500:] + "\n----\n" + o1[-1500:])
    finally:
        shutil.rmtree(top)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    names = [n for n in sorted(os.listdir(SEEDED)) if not a or re.search(a[0], n)]
    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(lambda n: one(n, "--tests" in sys.argv), names):
            print("%-28s %s" % (n, r), flush=True)


main()
