"""Observables of every function, and the summaries used at call sites."""
import re
import time

import terms as T
from terms import sym, mk, or_, UNDEF
import evalr
from evalr import Evaluator, Frame, State, Summary, Abort, loc, join, rd


def is_lambda(f):
    return f["kind"] == "lambda"


def skipped(f):
    return f.get("implicit") or f.get("defaulted") or (f.get("body") is None and f["kind"] != "ctor")


def single_return(f):
    b = f.get("body")
    if not b or b["k"] != "block":
        return False
    st = [s for s in b["b"] if s["k"] != "null"]
    return len(st) == 1 and st[0]["k"] == "return"


def has_call(e, p):
    """user calls or loops inside an expression"""
    if isinstance(e, dict):
        if e.get("k") in ("call", "mcall", "opcall", "ctor", "lambda") and (e.get("in") or e["k"] == "lambda"):
            return True
        return any(has_call(v, p) for v in e.values())
    if isinstance(e, list):
        return any(has_call(v, p) for v in e)
    return False


def calls(x, out):
    if isinstance(x, dict):
        if x.get("k") in ("call", "mcall", "opcall", "ctor") and x.get("f") is not None:
            out.append(x)
        if x.get("k") == "lambda":
            for o in x.get("ops", []):
                out.append({"f": o, "k": "lam"})
        if x.get("k") == "call" and x.get("n") in ("make_shared", "make_unique"):
            out.append(x)
        for v in x.values():
            calls(v, out)
    elif isinstance(x, list):
        for v in x:
            calls(v, out)
    return out


class Analysis:
    """Evaluates the functions of one program."""

    def __init__(self, prog, sums, inline, only=None, budget=None):
        self.p = prog
        self.sums = sums
        self.inline = inline
        self.obs = {}
        self.info = {}
        self.opaques = {}
        self.errors = {}
        self.stats = {}
        self.budget = budget
        self.total = 0.0

    def value_class(self, f):
        return f.get("cls") and f["cls"] not in self.p.entities

    def inlined_always(self, f):
        """functions that are never call nodes"""
        if is_lambda(f) or skipped(f):
            return True
        if self.value_class(f):
            return True
        rt = self.p.ty(f["ret"]) if f.get("ret") is not None else {"c": "void"}
        if rt["c"] == "ref" and not self.p.is_entity(f["ret"]):
            return True
        r = rt.get("r") or ""
        if "iterator" in r:
            return True
        for prm in f["params"]:
            x = self.p.strip(prm["t"])
            if x.get("lambda") or "(lambda)" in x["s"]:
                return True
        if not f.get("virt") and f["kind"] != "ctor" and single_return(f) and not has_call(f["body"], self.p):
            return True
        return False

    def frame(self, f):
        """frame and initial state with symbolic parameters"""
        S = State()
        this = None
        if f.get("cls") and not f.get("static"):
            if f["cls"] in self.p.entities:
                this = ("ptr", sym("this"))
            else:
                S.s("this", sym("this") if f["kind"] != "ctor" else mk("obj", f["cls"]))
                this = ("loc", loc("this"))
        fr = Frame(f, this)
        for i, prm in enumerate(f["params"]):
            t = self.p.strip(prm["t"])
            root = "p%d" % i
            if t["c"] == "rec" and "iterator" in t["r"]:
                anon = "@it" + self.p.plain(t)
                S.r.setdefault(anon, sym(anon))
                S.s(root, T.aggregate("riter" if "reverse_iterator" in t["r"] else "iter", loc(anon), sym(root)))
            else:
                k = {"bool": "b", "uint": "n"}.get(t["c"])
                S.s(root, sym(root, k))
            fr.env[prm["id"]] = ("root", root)
        return fr, S

    def observe(self, fid, tstate=False):
        try:
            return self.observed(fid, tstate)
        except Exception as x:
            if not self.budget:
                raise
            self.errors[fid] = "not understood: %s %s" % (type(x).__name__, x)
            return None

    def observed(self, fid, tstate):
        f = self.p.funcs[fid]
        ev = Evaluator(self.p, self.sums, self.inline)
        T.KIND.clear()
        T.SETLIKE.clear()
        t0 = T.clock()
        fr, S = self.frame(f)
        init = dict(S.r)
        ev.stack.append(fid)
        if self.budget:
            T.budget(max(1.0, min(self.budget[0], self.budget[2] - self.total)), self.budget[1])
        try:
            if f["kind"] == "ctor":
                ev.ctor_inits(f, fr, S)
            pre = ev.flush({"n": (T.T, S)})
            outs = ev.seq(pre, lambda S2: ev.exec(f.get("body"), S2, fr))
        except (Abort, T.Budget) as x:
            self.errors[fid] = "%s @%s" % (x, self.p.where(ev.curloc))
            return None
        except Exception as x:
            if not self.budget:
                raise
            self.errors[fid] = "not understood: %s %s @%s" % (type(x).__name__, x, self.p.where(ev.curloc))
            return None
        finally:
            T.budget()
            self.total += T.clock() - t0
        o = {}
        n, r, t = outs.get("n"), outs.get("r"), outs.get("t")
        if r is not None and "$ret" in r[1].r:
            v = r[1].r["$ret"]
            o["ret"] = v if v.op not in ("mk",) or v.a[0] not in ("iter", "riter") else ev.escape(v, r[1])
        fin = join(n, r)
        if fin is not None:
            for root, v in fin[1].r.items():
                if root in init:
                    if v is not init[root]:
                        if root == "this" or root.startswith("@it"):
                            o[root] = v
                        else:
                            i = int(root[1:])
                            if self.p.ty(f["params"][i]["t"])["c"] == "ref" and not self.p.is_entity(f["params"][i]["t"]) \
                                    and not self.p.ty(f["params"][i]["t"]).get("rv"):
                                o[root] = v
                elif root == "A:!tc":
                    o["tc"] = v
                elif root[:2] in ("H:", "G:"):
                    if v is not sym(root):
                        o[root] = v
        if t is not None:
            for exc, g in ev.split_exc(t):
                o["throw:" + exc] = g
            if tstate:
                for root, v in t[1].r.items():
                    if root[0] == "p" and root in init and v is not init[root] \
                            and self.p.is_mut_ref(f["params"][int(root[1:])]["t"]):
                        o["tstate:" + root] = v
        self.opaques[fid] = ev.opaques
        self.stats[fid] = dict(ev.stats, time=T.clock() - t0)
        return o

    # -------------------------------------------------------------- summaries
    def summary(self, f, obs):
        s = Summary()
        ents = f.get("cls") in self.p.entities and not f.get("static")
        this = sym("this")
        reads = {}
        for name, v in obs.items():
            if name.startswith("H:") or name.startswith("G:"):
                own = ents and own_update(v, sym(name), this)
                s.writes[name] = own
                if own:
                    for u in own_values(v, sym(name)):
                        collect(u, this if ents else None, reads)
                else:
                    collect(v, this if ents else None, reads)
                continue
            if name.startswith("throw:"):
                s.throws.add(name[6:])
            elif name == "tc":
                s.throws.add("*")
            elif name == "this":
                s.outs.add(-1)
            elif name[0] == "p" and name[1:].isdigit():
                s.outs.add(int(name[1:]))
            collect(v, this if ents else None, reads)
        for k, own in reads.items():
            if k.startswith("H:") or k.startswith("G:"):
                s.reads[k] = own
        return s


def own_update(v, base, this):
    if v is base:
        return True
    if v.op == "st":
        return v.a[1] is this and own_update(v.a[0], base, this)
    if v.op == "ite":
        return own_update(v.a[1], base, this) and own_update(v.a[2], base, this)
    return False


def own_values(v, base, out=None):
    if out is None:
        out = []
    if v.op == "st":
        out.append(v.a[2])
        own_values(v.a[0], base, out)
    elif v.op == "ite":
        out.append(v.a[0])
        own_values(v.a[1], base, out)
        own_values(v.a[2], base, out)
        # a conditional write keeps the old value
        out.append(mk("sl", base, sym("this")))
    return out


def collect(v, this, out):
    """heap fields read in v; out[field] tells whether only for `this`"""
    seen = set()
    work = [v]
    while work:
        n = work.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "sl" and n.a[0].op == "sym" and this is not None and n.a[1] is this:
            out.setdefault(n.a[0].a[0], True)
            continue
        if n.op == "sym":
            out[n.a[0]] = False
            continue
        for x in n.a:
            if isinstance(x, T.Node):
                work.append(x)


def components(graph):
    """strongly connected components, callees first (iterative Tarjan)"""
    index, low, on, stack, out = {}, {}, set(), [], []
    cnt = 0
    for root in graph:
        if root in index:
            continue
        work = [(root, iter(graph[root]))]
        index[root] = low[root] = cnt
        cnt += 1
        stack.append(root)
        on.add(root)
        while work:
            v, itr = work[-1]
            adv = False
            for w in itr:
                if w not in graph:
                    continue
                if w not in index:
                    index[w] = low[w] = cnt
                    cnt += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(graph[w])))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out


def callgraph(p):
    byctor = {}
    for f in p.funcs.values():
        if f["kind"] == "ctor":
            byctor.setdefault(f.get("cls"), []).append(f["id"])
    g = {}
    for f in p.funcs.values():
        out = []
        for x in calls([f.get("body"), [i.get("e") for i in f.get("inits") or []]], []):
            if x.get("n") in ("make_shared", "make_unique") and x.get("ta"):
                q = p.rec(x["ta"][0]["t"])
                out += byctor.get(q, [])
                continue
            i = x["f"]
            if x.get("virt"):
                fn = p.funcs.get(i)
                base = fn["over"][0] if fn is not None and fn.get("over") else i
                out += p.overriders.get(base, [])
                if base in p.funcs:
                    out.append(base)
            elif i in p.funcs:
                out.append(i)
        g[f["id"]] = sorted(set(out))
    return g


def vkeys(p):
    """virtual method key -> implementing functions"""
    out = {}
    for base, ids in p.overriders.items():
        n = p.funcs[ids[0]]["n"]
        out.setdefault("V:" + n, set()).update(ids)
        if base in p.funcs:
            out["V:" + n].add(base)
    return out


def model_summaries(p, extra_inline, log=None):
    """Evaluates the model bottom-up; returns (analysis, summaries)."""
    sums = {}
    an = Analysis(p, sums, set())
    g = callgraph(p)
    vk = vkeys(p)
    ofv = {}
    for k, ids in vk.items():
        for i in ids:
            ofv.setdefault(i, []).append(k)
    targets = []
    for f in p.funcs.values():
        if is_lambda(f) or skipped(f):
            continue
        targets.append(f["id"])
        if not an.inlined_always(f) and p.keys[f["id"]] not in extra_inline:
            sums[p.keys[f["id"]]] = Summary()
    for k in vk:
        sums[k] = Summary()
    new = {}
    tset = set(targets)
    for c in components(g):
        c = [i for i in c if i in set(targets)]
        if not c:
            continue
        for rnd in range(8):
            changed = False
            for i in c:
                f = p.funcs[i]
                o = an.observe(i, tstate=True)
                if o is None:
                    continue
                an.obs[i] = o
                s = an.summary(f, o)
                key = p.keys[i]
                new[i] = "ret" in o and all(x.op == "new" for x in T._leaves(o["ret"]))
                if new[i]:
                    T.FRESH.add(key)
                for v in ofv.get(i, []):
                    if all(new.get(j) for j in vk[v] if j in tset):
                        T.FRESH.add(v)
                if key in sums:
                    if not s.same(sums[key]):
                        sums[key] = s
                        changed = True
                for v in ofv.get(i, []):
                    u = Summary()
                    u.union(sums[v])
                    u.union(s)
                    if not u.same(sums[v]):
                        sums[v] = u
                        changed = True
                if log:
                    log(f, o, an)
            if not changed or len(c) == 1 and c[0] not in g[c[0]] and i not in ofv:
                break
        if keep(p, an, sums, c):
            for i in c:
                an.obs[i] = an.observe(i, tstate=True) or an.obs[i]
    return an, sums


def keep(p, an, sums, c):
    """records the containers of the own object of which the functions of c only overwrite elements"""
    cand = {}
    for i in c:
        key, o = p.keys[i], an.obs.get(i)
        if key not in sums or o is None:
            continue
        reads = [fl for fl in sorted(sums[key].reads) if not fl.startswith("A:")]
        for name, v in o.items():
            if name in reads and sums[key].writes.get(name) and sums[key].reads[name]:
                cand[key, name] = (reads.index(name) - len(reads), T.sl(v, sym("this")), T.sl(sym(name), sym("this")))
    while cand:
        extra = {k: x[0] for k, x in cand.items()}
        bad = [k for k, x in cand.items() if not T.keeps(x[1], x[2], extra)]
        if not bad:
            break
        for k in bad:
            del cand[k]
    T.KEEP.update((k, x[0]) for k, x in cand.items())
    return bool(cand)
