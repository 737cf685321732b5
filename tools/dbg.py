#!/usr/bin/env python3
"""Shows where the terms of a trial differ (development aid): dbg.py <trials file> <name pattern> [function] [observable] [depth]"""
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
import trial


def main():
    a = sys.argv[1:]
    spec = importlib.util.spec_from_file_location("trials", a[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ts = m.TRIALS if hasattr(m, "TRIALS") else m.CHANGES
    trial.BASE = getattr(m, "BASE", "model" if hasattr(m, "TRIALS") else "repo")
    t = next(t for t in ts if re.search(a[1], t[0]))
    keep = "/tmp/dbgwork"
    shutil.rmtree(keep, ignore_errors=True)
    os.makedirs(keep)
    d = None
    orig = subprocess.run

    def run(cmd, **kw):
        import check
        check.REPO = kw["env"]["VERIF_REPO"]
        os.environ["VERIF_LIB"] = "1"
        sh = check.sh
        check.sh = lambda c, **k: type("R", (), {"returncode": 1, "stdout": ""})() if "run.py" in str(c) else sh(c, **k)
        try:
            check.analyse(keep)
        except RuntimeError as x:
            if str(x) != "analysis failed:\n":
                print(x)
        check.sh = sh
        return type("R", (), {"returncode": 1, "stdout": ""})()
    trial.subprocess = type("S", (), {"run": staticmethod(run), "PIPE": -1, "STDOUT": -2, "TimeoutExpired": subprocess.TimeoutExpired})
    r = trial.one(t)
    if r[1] == "EDIT":
        print(r[2])
        return
    import terms as T
    import compare
    from program import Program
    c = compare.Comparison(Program(keep + "/repo.json"), Program(keep + "/model.json")).run()
    depth = int(a[4]) if len(a) > 4 else 6
    for dd in c.diffs:
        if len(a) > 2 and not re.search(a[2], dd.key) or len(a) > 3 and not re.search(a[3], dd.obs):
            continue
        print("==", dd.status, dd.key.split("(")[0], dd.obs)
        if dd.status != "differs":
            print("   ", dd.detail)
            continue
        x = c.ran.obs[c.repo.bykey[dd.key]].get(dd.obs)
        y = c.man.obs[c.model.bykey[dd.key]].get(dd.obs)
        seen = set()
        n = [0]

        def walk(x, y, path):
            if x is y or n[0] > int(os.environ.get('NDIFF', 3)):
                return
            if not isinstance(x, T.Node) or not isinstance(y, T.Node):
                print("  at", ".".join(path)[-120:], repr(x)[:200], repr(y)[:200])
                n[0] += 1
                return
            if (x.id, y.id) in seen:
                return
            if os.environ.get("SHOWITE") and x.op == "ite" == y.op:
                def sk(n, d=0):
                    if n.op != "ite" or d > 4:
                        return n.op + str(n.id)
                    return "(%s ? %s : %s)" % (T.show(n.a[0], 4), sk(n.a[1], d + 1), sk(n.a[2], d + 1))
                print("   ITE", sk(x)); print("    vs", sk(y))
            seen.add((x.id, y.id))
            if x.op == "loop" == y.op and x.a[1] == y.a[1] and sorted(i.h for i in x.a[4:3 + len(x.a[1])]) == sorted(i.h for i in y.a[4:3 + len(y.a[1])]):
                # align the carried values by their initial values
                px, py = T._loop_parts(x), T._loop_parts(y)
                if [i.h for i in px[2]] != [i.h for i in py[2]]:
                    print("  loop order differs at", ".".join(path)[-100:])
                    key = lambda P: sorted(range(len(P[2])), key=lambda j: P[2][j].h)
                    kx, ky = key(px), key(py)
                    h = x.a[0]
                    def nm(parts, ks):
                        mp = {"#%d.%d" % (h, j + 1): T.sym("$%sal%d" % (parts[2][j].isb and "b" or "-", n_), "b" if parts[2][j].isb else None) for n_, j in enumerate(ks)}
                        return [T.subst(parts[3], mp)] + [T.subst(parts[4][j], mp) for j in ks]
                    import itertools
                    groups = [list(g) for _, g in itertools.groupby(ky, key=lambda j: py[2][j].h)]
                    ref = nm(px, kx)
                    best = None
                    for pm in itertools.islice(itertools.product(*[itertools.permutations(g) for g in groups]), 50):
                        kk = [j for g in pm for j in g]
                        sc = sum(u is v for u, v in zip(ref, nm(py, kk)))
                        if best is None or sc > best[0]:
                            best = (sc, kk)
                    ky = best[1]
                    for j, (u, v) in enumerate(zip(nm(px, kx), nm(py, ky))):
                        u is v or print("   carried", j, "same" if u is v else "differs", T.show(px[2][kx[j - 1]], 3) if j else "exit")
                        if u is not v:
                            walk(u, v, path + ["loop:%d" % j])
                    return
            if (x.op == "ite" or y.op == "ite") and not (x.op == y.op and x.a[0] is y.a[0]):
                at = min((z.a[0] for z in (x, y) if z.op == "ite"), key=T.okey)
                for v in (True, False):
                    walk(T.assume(x, at, v), T.assume(y, at, v), path + ["[%s%s]" % ("" if v else "!", T.show(at, 3).replace("comma::", ""))])
                return
            if x.op != y.op or len(x.a) != len(y.a) or (x.op == "loop" and x.a[1] != y.a[1]):
                n[0] += 1
                print("  at", ".".join(path)[-1200:])
                print("     here ", T.show(x, depth).replace("comma::", "")[:1200])
                print("     model", T.show(y, depth).replace("comma::", "")[:1200])
                return
            for i, (u, v) in enumerate(zip(x.a, y.a)):
                if u is not v and u != v:
                    walk(u, v, path + ["%s%d" % (x.op, i)])
        if os.environ.get("ALL"):
            print("  here ", T.show(x, 30)); print("  model", T.show(y, 30))
        walk(x, y, [])
    shutil.rmtree(keep, ignore_errors=True)


t = threading.Thread(target=main)
t.start()
t.join()
