"""Compares the value graphs of the functions of the repository with those of the reference model."""
import os
import time

import terms as T
import analysis
from same import Same, extent
from analysis import Analysis, is_lambda, skipped

BUDGET = (20, 250000, 300)      # seconds and nodes for a function, seconds for all
ENTRY = "comma::agglomerate_one_level"


class Diff:
    """Observable of a function with different values in the two programs."""

    def __init__(self, key, fn, obs, status, where, detail):
        self.key = key
        self.fn = fn
        self.obs = obs
        self.status = status        # differs | undecided
        self.where = where
        self.detail = detail
        self.ctx = None
        self.kinds = ()


def loose(p, f):
    return "%s|%s" % (f.get("cls") or "", ",".join(p.cano(a["t"]) for a in f["params"])) + "|" + \
        p.plain(p.ty(f["ret"])) if f.get("ret") is not None else ""


def match(repo, model):
    """Aligns the keys of the two programs; returns the model keys without a counterpart."""
    # constness of a method does not matter
    for p in (repo, model):
        seen = {}
        for i, k in p.keys.items():
            if k.endswith(")c"):
                seen.setdefault(k[:-1], []).append(i)
        for k, ids in seen.items():
            if k not in p.bykey and len(ids) == 1:
                p.keys[ids[0]] = k
        p.bykey = {}
        for i, k in p.keys.items():
            p.bykey.setdefault(k, i)

    def only(p, q):
        return [f for f in p.funcs.values() if not is_lambda(f) and not skipped(f) and p.keys[f["id"]] not in q.bykey]
    a, b = {}, {}
    for p, q, d in ((repo, model, a), (model, repo, b)):
        for f in only(p, q):
            d.setdefault(loose(p, f), []).append(f)
    renamed = []
    for k, fs in a.items():
        gs = b.get(k, [])
        if k and len(fs) == 1 and len(gs) == 1:
            f, g = fs[0], gs[0]
            if bool(f.get("virt")) == bool(g.get("virt")) and f["kind"] == g["kind"] and not f.get("virt"):
                repo.keys[f["id"]] = model.keys[g["id"]]
                renamed.append((f["q"], g["q"]))
    # arguments that became modifiable
    def bare(p, f):
        return (f["q"], bool(f.get("const")), tuple(p.plain(p.strip(a["t"])) for a in f["params"]))
    repo.bykey = {}
    for i, k in repo.keys.items():
        repo.bykey.setdefault(k, i)
    left = {}
    for f in only(model, repo):
        left.setdefault(bare(model, f), []).append(f)
    for f in only(repo, model):
        gs = left.get(bare(repo, f), [])
        if len(gs) == 1:
            repo.keys[f["id"]] = model.keys[gs[0]["id"]]
    repo.bykey = {}
    for i, k in repo.keys.items():
        repo.bykey.setdefault(k, i)
    return {model.keys[f["id"]] for f in only(model, repo)}, renamed


def visible(fn, obs):
    """the objects an entry point creates die with it"""
    if fn["q"] == ENTRY or not fn.get("cls") and obs[:2] in ("H:", "G:"):
        return obs[:2] != "H:"
    return True


def first_diff(a, b, depth=0):
    """innermost place where two terms differ"""
    seen = set()
    while depth < 60:
        depth += 1
        if not isinstance(a, T.Node) or not isinstance(b, T.Node):
            return a, b
        if a.op != b.op or len(a.a) != len(b.a):
            return a, b
        dif = [(x, y) for x, y in zip(a.a, b.a) if x is not y and x != y]
        if len(dif) != 1 or (a.id, b.id) in seen:
            return a, b
        seen.add((a.id, b.id))
        x, y = dif[0]
        if not isinstance(x, T.Node) or not isinstance(y, T.Node):
            return a, b
        a, b = x, y
    return a, b


def subterms(n):
    out = set()
    work = [n]
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        work += [y for y in x.a if isinstance(y, T.Node)]
    return out


def callees(ts):
    """keys of the functions called in the terms"""
    out = set()
    seen = set()
    work = list(ts)
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "call":
            out.add(x.a[0][5:] if x.a[0].startswith("ctor ") else x.a[0])
        work += [y for y in x.a if isinstance(y, T.Node)]
    return out


def innermost(a, b):
    """smallest terms of a that are not part of b"""
    sb = subterms(b)
    sa = subterms(a) - sb
    out = [x for x in sa if not any(isinstance(y, T.Node) and y in sa for y in x.a)]
    return sorted(out, key=lambda x: x.h)


_UPD = {"st", "push", "pushf", "popf", "popb", "ins", "dele", "put", "fst", "append", "union", "sort", "resize", "seqins", "seqera",
        "erat", "eff", "rng"}


def _base(n):
    """the container an update chain starts from"""
    while n.op in _UPD and isinstance(n.a[0], T.Node):
        n = n.a[0]
    if n.op == "sym":
        return n.a[0] if n.a[0][0] not in "#$" else "#"
    return n.op


def profile(n):
    """(container, index) pairs accessed and (bound, exit condition) pairs of the loops in a term"""
    acc, loops = set(), set()
    for x in subterms(n):
        if x.op in ("sl", "st", "get", "put") and isinstance(x.a[0], T.Node):
            acc.add((_base(x.a[0]), x.a[1]))
        elif x.op == "rng":
            acc.add((_base(x.a[0]), x.a[1:]))
        elif x.op == "loop":
            m = len(x.a[1]) - 1
            X = x.a[4 + m]
            loops.add((x.a[3], X))
            if x.a[3] is T.F:
                # the worklist the end depends on
                for i in range(m):
                    if "#%d.%d" % (x.a[0], i + 1) in X.bv:
                        loops.add((X, x.a[5 + m + i]))
        elif x.op in ("sum", "exists", "minv", "argm"):
            loops.add((x.a[2] if x.op in ("sum", "exists") else x.a[3], None))
        elif x.op == "first":
            loops.add((x.a[2], x.a[3]))
    return acc, loops


def hashed(n, f, p):
    """what the container of a term in hash order starts from, None for other containers"""
    seen = 0
    while isinstance(n, T.Node) and seen < 200:
        seen += 1
        if n.op in _UPD:
            n = n.a[0]
        elif n.op == "loop":
            n = n.a[4 + n.a[2]]
        elif n.op == "ite":
            return hashed(n.a[1], f, p) or hashed(n.a[2], f, p)
        elif n.op == "nil":
            return "nil" if str(n.a[0]).startswith(("uset", "umap")) else None
        elif n.op == "sym" and n.a[0][0] == "p" and n.a[0][1:].isdigit():
            i = int(n.a[0][1:])
            if i < len(f["params"]) and "unordered_" in p.rec(f["params"][i]["t"]):
                return n.a[0]
            return None
        else:
            return None
    return None


def hash_order(n, f, p):
    """reads of elements in hash order whose order decides the outcome: the first element, or the order of a
    sequence built from them"""
    out = set()
    for x in subterms(n):
        if x.op == "sl" and isinstance(x.a[1], T.Node) and x.a[1].op == "num" and hashed(x.a[0], f, p):
            out.add((hashed(x.a[0], f, p), x.a[0].id))
        elif x.op == "loop":
            inner = list(subterms(x))
            if any(y.op in ("push", "pushf", "append", "seqins") for y in inner):
                for y in inner:
                    if y.op == "sl" and isinstance(y.a[1], T.Node) and y.a[1].op == "sym" and \
                            y.a[1].a[0] == "#%d.0" % x.a[0]:
                        h = hashed(y.a[0], f, p)
                        if h:
                            out.add((h, y.a[0].id))
    return out


def hash_ordered(x, y, f, p):
    a, b = {}, {}
    for n, c in ((x, a), (y, b)):
        if isinstance(n, T.Node):
            for h, _ in hash_order(n, f, p):
                c[h] = c.get(h, 0) + 1
    return any(k > b.get(h, 0) for h, k in a.items())


def contexts(a, b):
    """innermost call arguments containing the differences of two terms"""
    out = set()
    seen = set()
    work = [(a, b, None)]
    while work and len(seen) < 20000:
        a, b, c = work.pop()
        if a is b:
            continue
        if not isinstance(a, T.Node) or not isinstance(b, T.Node) or a.op != b.op or len(a.a) != len(b.a):
            out.add(c)
            continue
        if (a.id, b.id) in seen:
            continue
        seen.add((a.id, b.id))
        dif = [i for i in range(len(a.a)) if a.a[i] is not b.a[i] and a.a[i] != b.a[i]]
        if a.op in ("call", "new"):
            if a.a[0] != b.a[0]:
                out.add(c)
                continue
            work += [(a.a[i], b.a[i], (a.a[0], i - 1)) for i in dif]
        elif any(not isinstance(a.a[i], T.Node) or not isinstance(b.a[i], T.Node) for i in dif):
            out.add(c)
        elif a.op == "ite" and dif == [0]:
            out.add(c)
        else:
            work += [(a.a[i], b.a[i], c) for i in dif]
    return out


def text(n):
    s = T.show(n, 5) if isinstance(n, T.Node) else str(n)
    s = s.replace("comma::", "")
    return s if len(s) < 300 else s[:300] + "..."


class Comparison:
    def __init__(self, repo, model):
        self.repo = repo
        self.model = model
        self.diffs = []
        self.compared = []       # (key, observable, status)
        self.times = {}
        self.recursive = None    # keys of the functions that call themselves, also through others

    def run(self):
        t0 = time.time()
        self.unmatched, self.renamed = match(self.repo, self.model)
        self.man, self.sums = analysis.model_summaries(self.model, self.unmatched)
        self.times["model"] = time.time() - t0
        T.calibrate(T.clock() / 9)
        t0 = time.time()
        self.ran = Analysis(self.repo, self.sums, set(), budget=BUDGET)
        for f in self.repo.funcs.values():
            if is_lambda(f) or skipped(f):
                continue
            k = self.repo.keys[f["id"]]
            if k not in self.model.bykey:
                continue
            self.function(k, f)
        self.times["repo"] = time.time() - t0
        return self

    def unfold(self, k, f, ro, mo, salt):
        """Functions called on one side only are expanded on both sides; what still differs in form is compared
        with case distinction."""
        def settle(r, m):
            for o in set(mo) | set(ro):
                if ro.get(o) is not mo.get(o) and r.get(o) is m.get(o):
                    ro.pop(o, None)
                    if o in mo:
                        ro[o] = mo[o]
            return all(ro.get(o) is mo.get(o) for o in set(mo) | set(ro) if visible(f, o))
        extra = set()
        r, m = ro, mo
        for rnd in range(3):
            own = callees(r.values()) ^ callees(m.values())
            own = {c for c in own if self.expandable(c, k)} - extra
            if not own:
                break
            extra |= own
            r = self.again(self.repo, f["id"], extra)
            m = self.again(self.model, self.model.bykey[k], extra)
            if r is None or m is None:
                break
            if settle(r, m):
                return ()
        left = 20.0
        results = {}
        for stage in range(3):
            p, q = ((ro, mo), (r, m), (None, None))[stage]
            if stage == 1 and r is ro:
                continue
            if stage == 2:
                # the functions called on both sides as well
                if settle(ro, mo) or left <= 0:
                    break
                own = {c for c in callees(ro.values()) | callees(mo.values()) if self.expandable(c, k)}
                if own <= extra:
                    break
                p = self.again(self.repo, f["id"], extra | own)
                q = self.again(self.model, self.model.bykey[k], extra | own)
                if p is not None and q is not None:
                    settle(p, q)
            if p is None or q is None:
                continue
            judge = Same()
            todo = [o for o in set(mo) | set(ro) if ro.get(o) is not mo.get(o) and visible(f, o) and
                    p.get(o) is not None and q.get(o) is not None]
            for o in sorted(todo, key=lambda o: (extent(q[o]), o)):
                if left <= 0:
                    break
                t0 = T.clock()
                T.budget(15, 300000)
                try:
                    e = judge.equal(p[o], q[o], min(15, left))
                    if e is False and not o.startswith(("throw:", "tstate:")):
                        # what is left behind where an exception leaves the function is of no interest
                        ts = {x for x in set(p) | set(q) if x.startswith("throw:")}
                        if ts and all(ro.get(x) is mo.get(x) and p.get(x) is not None and q.get(x) is not None
                                      for x in ts):
                            gone = T.sym("thrown")
                            c = d = T.F
                            for x in sorted(ts):
                                c, d = T.or_(c, p[x]), T.or_(d, q[x])
                            e = judge.equal(T.ite(c, gone, p[o]), T.ite(d, gone, q[o]), min(15, left))
                except T.Budget:
                    e = None
                except Exception:
                    if os.environ.get("VERIF_DEBUG"):
                        raise
                    e, judge = None, Same()
                finally:
                    T.budget()
                left -= T.clock() - t0
                if os.environ.get("VERIF_DEBUG"):
                    print("same", k, o, e, "%.1f s" % (T.clock() - t0), flush=True)
                if e or results.get(o) is None:
                    results[o] = e
                if e:
                    ro[o] = mo[o]
        if any(results.values()) and not any(e is False for e in results.values()):
            return {o for o, e in results.items() if e is None}
        return ()

    def expandable(self, c, k):
        if self.recursive is None:
            self.recursive = set()
            for p in (self.model, self.repo):
                g = analysis.callgraph(p)
                for s in analysis.components(g):
                    if len(s) > 1 or s[0] in g[s[0]]:
                        self.recursive.update(p.keys[i] for i in s if i in p.keys)
        return c != k and c in self.model.bykey and c in self.repo.bykey and c not in self.recursive

    def again(self, p, fid, extra):
        an = Analysis(p, self.sums, extra, budget=(10, 150000, 300))
        an.total = self.ran.total
        o = an.observe(fid, tstate=True)
        self.ran.total = max(self.ran.total, an.total)
        return o

    def function(self, k, f):
        mid = self.model.bykey[k]
        mo = self.man.obs.get(mid)
        ro = self.ran.observe(f["id"], tstate=True)
        where = self.repo.where(f["l"])
        if mo is None:
            self.compared.append((k, f, "*", "undecided"))
            return
        salt = 0
        while ro is None and salt < 4 and str(self.ran.errors.get(f["id"])).startswith("more than"):
            # another order of the conditions may need less
            salt += 1
            T.reorder(b"order%d" % salt)
            an = Analysis(self.model, self.sums, set(), budget=(10, 150000, 300))
            an.total = self.ran.total
            mo = an.observe(mid, tstate=True)
            self.ran.total = max(self.ran.total, an.total)
            self.ran.budget = (10, 150000, 300)
            ro = self.ran.observe(f["id"], tstate=True) if mo is not None else None
            self.ran.budget = BUDGET
        try:
            self.judge(k, f, mo, ro, where, salt)
        finally:
            if salt:
                T.reorder(b"")

    def judge(self, k, f, mo, ro, where, salt):
        if ro is None:
            self.compared.append((k, f, "*", "undecided"))
            self.diffs.append(Diff(k, f, "*", "undecided", where, self.ran.errors.get(f["id"])))
            return
        self.ran.obs[f["id"]] = ro
        slow = ()
        if any(visible(f, o) and ro.get(o) is not mo.get(o) for o in set(mo) | set(ro)):
            slow = self.unfold(k, f, ro, mo, salt)
        base = None
        for o in sorted(set(mo) | set(ro)):
            if not visible(f, o):
                continue
            x, y = ro.get(o), mo.get(o)
            if x is y:
                self.compared.append((k, f, o, "equal"))
                continue
            und = x is not None and x.opq or o in slow
            if und:
                d = "; ".join(self.ran.opaques.get(f["id"], [])[:3]) or "comparison exceeds its limit"
                self.compared.append((k, f, o, "undecided"))
                self.diffs.append(Diff(k, f, o, "undecided", where, d))
                continue
            ctx = None
            if x is None:
                d = "no longer written; the model has %s" % text(y)
            elif y is None:
                d = "not written in the model; here %s" % text(x)
            else:
                u, v = first_diff(x, y)
                if f["q"] == ENTRY:
                    ctx = contexts(x, y)
                d = "here %s; in the model %s" % (text(u), text(v))
                if os.environ.get("VERIF_DEBUG"):
                    for m, p, q in (("here", x, y), ("model", y, x)):
                        for n in innermost(p, q)[:12]:
                            d += "\n          %s: %s" % (m, T.show(n, 7).replace("comma::", "")[:1500])
            self.compared.append((k, f, o, "differs"))
            self.diffs.append(Diff(k, f, o, "differs", where, d))
            self.diffs[-1].ctx = ctx if ctx and None not in ctx else None
            if x is not None:
                if base is None:
                    base = [set(), set()]
                    for z in mo.values():
                        if isinstance(z, T.Node):
                            for u, v in zip(base, profile(z)):
                                u |= v
                self.diffs[-1].kinds = [n for n, u, v in zip(("access", "loop"), profile(x), base) if u - v]
                if hash_ordered(x, y, f, self.repo):
                    self.diffs[-1].kinds.append("order")
