"""Value-graph construction: one forward pass per function.

A function body is traversed once in control-flow order.  Every variable, field
and container holds a node of the value graph (terms.py); at a merge point the
incoming values are joined with a gate, at a loop head the carried locations
are replaced by recurrence symbols and the recurrence is closed when the loop
is left.  Calls of functions that are compared separately stay uninterpreted.
"""
import itertools
import re
import os
import sys

import terms as T
from terms import (ite, not_, and_, or_, add, sub, mul, neg, num, sym, fresh, gt, eq, size, contains, sl, st, mk,
                   truth, UNDEF, ZERO, ONE)
from program import SEQ, SET, MAP, PTR

sys.setrecursionlimit(200000)

KINDS = ("n", "b", "c", "r", "t")
_ids = itertools.count()


class Abort(Exception):
    pass


class State:
    __slots__ = ("r",)

    def __init__(self, r=None):
        self.r = r if r is not None else {}

    def copy(self):
        return State(dict(self.r))

    def g(self, root):
        v = self.r.get(root)
        if v is None:
            if root.startswith("H:") or root.startswith("G:"):
                return sym(root)
            if root == "A:!tc":
                return T.nil("seq")
            if root.startswith("A:"):
                return ZERO
            raise Abort("no root " + root)
        return v

    def s(self, root, v):
        self.r[root] = v


class Closure:
    def __init__(self, ast, env, this):
        self.ast = ast
        self.env = env
        self.this = this


class Functor:
    def __init__(self, t, loc):
        self.t = t
        self.loc = loc


def constant(n):
    return n.op not in ("sym", "call", "undef") and all(constant(x) for x in n.a if isinstance(x, T.Node))


class Frame:
    __slots__ = ("env", "this", "fn", "id")

    def __init__(self, fn, this, env=None):
        self.env = env if env is not None else {}
        self.this = this
        self.fn = fn
        self.id = next(_ids)


# ------------------------------------------------------------------ locations
def loc(root, *steps):
    return mk("loc", root, *steps)


def step(l, s):
    if l.op == "ite":
        return ite(l.a[0], step(l.a[1], s), step(l.a[2], s))
    return mk("loc", *l.a, s)


def _sel(v, s):
    if s.op == "si":
        return sl(v, s.a[0])
    if s.op == "sf":
        return T.fld(v, s.a[0])
    if s.op == "sg":
        return T.get(v, s.a[0], s.a[1])
    if s.op == "sv":
        return T.val(v)
    raise Abort("step")


def _upd(v, steps, i, new):
    if i == len(steps):
        return new
    s = steps[i]
    if s.op == "si":
        if v.op == "ite" and v.nl <= 4 and i > 0:
            pass
        return st(v, s.a[0], _upd(sl(v, s.a[0]) if i + 1 < len(steps) else None, steps, i + 1, new))
    if s.op == "sf":
        return T.fst(v, s.a[0], _upd(T.fld(v, s.a[0]) if i + 1 < len(steps) else None, steps, i + 1, new))
    if s.op == "sg":
        return T.put(v, s.a[0], _upd(T.get(v, s.a[0], s.a[1]) if i + 1 < len(steps) else None, steps, i + 1, new))
    if s.op == "sv":
        return T.some(_upd(T.val(v) if i + 1 < len(steps) else None, steps, i + 1, new))
    raise Abort("step")


def rd(S, l):
    if l.op == "ite":
        return ite(l.a[0], rd(S, l.a[1]), rd(S, l.a[2]))
    if l.op != "loc":
        raise Abort("not a location: " + T.show(l))
    v = S.g(l.a[0])
    for s in l.a[1:]:
        v = _sel(v, s)
    return v


def wr(S, l, v):
    if l.op == "ite":
        a, b = S.copy(), S.copy()
        wr(a, l.a[1], v)
        wr(b, l.a[2], v)
        m = merge(l.a[0], a, b)
        S.r = m.r
        return
    if l.op != "loc":
        raise Abort("not a location")
    root = l.a[0]
    S.s(root, _upd(S.g(root), l.a[1:], 0, v))


def merge(c, A, B):
    if c is T.T:
        return A
    if c is T.F:
        return B
    out = {}
    ra, rb = A.r, B.r
    for k, va in ra.items():
        vb = rb.get(k)
        if vb is None:
            if k[0] in "HGA" and k[1] == ":":
                vb = B.g(k)
            else:
                continue
        out[k] = va if va is vb else ite(c, va, vb)
    for k, vb in rb.items():
        if k not in ra and k[0] in "HGA" and k[1] == ":":
            out[k] = ite(c, A.g(k), vb)
    return State(out)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (or_(a[0], b[0]), merge(a[0], a[1], b[1]))


def thrown(S):
    """what an exception leaves observable: the caller's objects passed by reference"""
    return State({k: v for k, v in S.r.items() if k[0] == "p" or k == "$exc"})


# ------------------------------------------------------------------ templates
def tmpl(v0, v1, bound, depth=0):
    """Which parts of a carried value change."""
    if v1 is v0:
        return ("c",)
    if depth < 6:
        if v0.op == "mk" and v1.op == "mk" and v0.a[0] == v1.a[0] and len(v0.a) == len(v1.a):
            return ("mk", v0.a[0], [tmpl(x, y, bound, depth + 1) for x, y in zip(v0.a[1:], v1.a[1:])])
        b0, b1 = T._strip(v0), T._strip(v1)
        if b0 is b1 and (v1.op == "st"):
            keys = {}
            ok = True
            for u in T._updates(v1) + T._updates(v0):
                if not u.a[1].bv.isdisjoint(bound):
                    ok = False
                keys[u.a[1]] = True
            if ok and apart(keys):
                return ("st", [(k, tmpl(sl(v0, k), sl(v1, k), bound, depth + 1)) for k in keys])
        if v1.op == "fst":
            fs = set()
            x, y = v0, v1
            while x.op == "fst":
                fs.add(x.a[1])
                x = x.a[0]
            while y.op == "fst":
                fs.add(y.a[1])
                y = y.a[0]
            if x is y:
                return ("fst", [(f, tmpl(T.fld(v0, f), T.fld(v1, f), bound, depth + 1)) for f in sorted(fs)])
    return ("mu",)


def rkey(r):
    """order of the roots: by order of creation, whatever the numbers are"""
    return [(int(x), "") if x.isdigit() else (-1, x) for x in re.split(r"(\d+)", r)]


def apart(keys):
    keys = list(keys)
    return all(T._neq_known(x, y) for i, x in enumerate(keys) for y in keys[:i])


def tinst(t, v0, hint, mus, name=None):
    k = t[0]
    if k == "c":
        return v0
    if k == "mu":
        b = v0.isb or (hint is not None and hint.isb and not (hint.op == "num"))
        s = name(v0, "b" if b else None)
        mus.append(s)
        return s
    if k == "mk":
        return T.aggregate(t[1], *[tinst(x, T.comp(v0, t[1], i), T.comp(hint, t[1], i) if hint is not None else None, mus, name)
                                   for i, x in enumerate(t[2])])
    if k == "st":
        v = v0
        for key, x in t[1]:
            v = st(v, key, tinst(x, sl(v0, key), sl(hint, key) if hint is not None else None, mus, name))
        return v
    v = v0
    for f, x in t[1]:
        v = T.fst(v, f, tinst(x, T.fld(v0, f), T.fld(hint, f) if hint is not None else None, mus, name))
    return v


def tmatch(t, v0, vin, vnext, out):
    """Collects (symbol, init, next); False if the template does not cover the change."""
    k = t[0]
    if k == "c":
        return vnext is vin
    if k == "mu":
        out.append((vin, v0, vnext))
        return True
    if k == "mk":
        return all([tmatch(x, T.comp(v0, t[1], i), T.comp(vin, t[1], i), T.comp(vnext, t[1], i), out)
                    for i, x in enumerate(t[2])])
    if k == "st":
        v = vin
        for key, x in t[1]:
            v = st(v, key, sl(vnext, key))
        if v is not vnext:
            return False
        return all([tmatch(x, sl(v0, key), sl(vin, key), sl(vnext, key), out) for key, x in t[1]])
    v = vin
    for f, x in t[1]:
        v = T.fst(v, f, T.fld(vnext, f))
    if v is not vnext:
        return False
    return all([tmatch(x, T.fld(v0, f), T.fld(vin, f), T.fld(vnext, f), out) for f, x in t[1]])


def tgen(t, v0, vin, vnext, bound):
    """More general template."""
    k = t[0]
    if k == "c":
        return tmpl(v0, vnext, bound) if vnext is not vin else t
    if k == "mu":
        return t
    if k == "mk":
        return ("mk", t[1], [tgen(x, T.comp(v0, t[1], i), T.comp(vin, t[1], i), T.comp(vnext, t[1], i), bound)
                             for i, x in enumerate(t[2])])
    if k == "st":
        if T._strip(vnext) is T._strip(vin):
            keys = dict(t[1])
            ok = True
            for u in T._updates(vnext):
                if not u.a[1].bv.isdisjoint(bound):
                    ok = False
                elif u.a[1] not in keys:
                    keys[u.a[1]] = ("c",)
            if ok and apart(keys):
                return ("st", [(key, tgen(x, sl(v0, key), sl(vin, key), sl(vnext, key), bound))
                               for key, x in keys.items()])
        return ("mu",)
    x, y = vin, vnext
    fs = dict(t[1])
    while x.op == "fst":
        x = x.a[0]
    while y.op == "fst":
        fs.setdefault(y.a[1], ("c",))
        y = y.a[0]
    if x is y:
        return ("fst", [(f, tgen(fs[f], T.fld(v0, f), T.fld(vin, f), T.fld(vnext, f), bound)) for f in sorted(fs)])
    return ("mu",)


class Summary:
    """What a function reads and writes (computed from its value graph)."""

    def __init__(self):
        self.reads = {}      # field -> True if only of *this
        self.writes = {}     # field -> True if only of *this
        self.outs = set()    # indices of parameters written through
        self.throws = set()

    def same(self, o):
        return self.reads == o.reads and self.writes == o.writes and self.outs == o.outs and self.throws == o.throws

    def union(self, o):
        for f, own in o.reads.items():
            self.reads[f] = self.reads.get(f, True) and own
        for f, own in o.writes.items():
            self.writes[f] = self.writes.get(f, True) and own
        self.outs |= o.outs
        self.throws |= o.throws


class Evaluator:
    def __init__(self, prog, summaries, inline, inline_all=False):
        self.p = prog
        self.sums = summaries      # key -> Summary : functions that stay calls
        self.inline = inline       # keys always inlined
        self.stack = []
        self.opaques = []
        self.throws = []
        self.loopcache = {}
        self.curloc = None
        self.nodes = 0
        self.stats = {"loops": 0, "calls": 0, "inlined": 0, "joins": 0}
        self.budget = None
        self.ldepth = 0

    def tmp(self, i, kind=None):
        """Temporary of the current scope; the name does not depend on how the code is written."""
        return T.sym("$%sx%d.%s" % (kind or "-", self.ldepth, i), kind)

    # -------------------------------------------------------------- utilities
    def opaque(self, why, *args):
        w = "%s @%s" % (why, self.p.where(self.curloc))
        self.opaques.append(w)
        return mk("opaque", why, *[a for a in args if isinstance(a, T.Node)])

    def kind(self, t):
        x = self.p.strip(t)
        c = x["c"]
        if c == "bool":
            return "b"
        if c == "uint":
            return "u"
        if c in ("int", "enum"):
            return "i"
        if c == "float":
            return "f"
        if x.get("r") == "std::_Bit_reference":
            return "b"
        return "o"

    def fixb(self, v, t):
        """boolean-typed values are conditions"""
        if isinstance(v, T.Node) and t is not None and self.kind(t) == "b":
            return truth(v)
        return v

    def default(self, t, uninit=False):
        x = self.p.strip(t)
        c = x["c"]
        if c == "bool":
            return UNDEF if uninit else T.F
        if c in ("int", "uint", "float", "enum"):
            return UNDEF if uninit else ZERO
        if c == "ptr":
            return UNDEF if uninit else mk("null")
        if c == "rec":
            r = x["r"]
            k = self.p.cls_kind(r)
            if k:
                return self.nil(x)
            if r == "std::pair":
                return T.aggregate("pair", self.default(self.p.targ(x, 0)), self.default(self.p.targ(x, 1)))
            if r == "std::optional":
                return T.nullopt()
            if r in PTR:
                return mk("null")
            if r == "std::function":
                return mk("null")
            if r.startswith("std::") or r.startswith("__gnu"):
                return mk("obj", x["s"])
            return mk("obj", x["s"])
        return UNDEF

    def nil(self, x):
        r = x["r"]
        k = self.p.cls_kind(r)
        if k == "seq":
            return T.nil("seq")
        if r.startswith("std::unordered"):
            return T.nil("u" + k)
        i = 1 if k == "set" else 2
        cmp_ = self.p.targ(x, i)
        s = self.p.ty(cmp_)["s"] if cmp_ is not None else ""
        if s.startswith("std::less<") or s == "":
            s = ""
        if s.startswith("std::greater<"):
            s = "std::greater"
        return T.nil(k + s)

    def ekind(self, x):
        """equality kind of the keys of a container type"""
        t = self.p.targ(x, 0)
        return self.kind(t) if t is not None else "o"

    # ------------------------------------------------------------ expressions
    def ev(self, e, S, fr):
        if e is None:
            return UNDEF
        l = e.get("l")
        if l:
            self.curloc = l
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.opaque("expr " + e["k"])
        v = m(e, S, fr)
        if isinstance(v, T.Node):
            t = e.get("t")
            if t is not None and not v.isb and self.kind(t) == "b":
                v = truth(v)
        return v

    def e_int(self, e, S, fr):
        v = int(e["v"])
        if self.kind(e["t"]) == "b":
            return T.boolean(v)
        return num(v)

    def e_flt(self, e, S, fr):
        return num(float(e["v"]))

    def e_bool(self, e, S, fr):
        return T.boolean(e["v"])

    def e_str(self, e, S, fr):
        return mk("str", "s")

    def e_nullptr(self, e, S, fr):
        return mk("null")

    def e_zero(self, e, S, fr):
        return self.default(e["t"])

    def e_this(self, e, S, fr):
        if fr.this is None:
            return self.opaque("this")
        return fr.this[1] if fr.this[0] == "ptr" else mk("addr", fr.this[1])

    def e_opaque(self, e, S, fr):
        return self.opaque("construct " + str(e.get("c")))

    def e_ref(self, e, S, fr):
        if e.get("dk") == "global" and e["id"] not in fr.env:
            if e.get("q") == "std::nullopt":
                return T.nullopt()
            return S.g("G:" + (e.get("q") or e["n"]))
        b = fr.env.get(e["id"])
        if b is None:
            return self.opaque("variable " + e["n"])
        if b[0] == "clo":
            return b[1]
        if b[0] == "root":
            return S.g(b[1])
        return rd(S, b[1])

    def e_fref(self, e, S, fr):
        return mk("fnref", e.get("q", "?"))

    def e_mem(self, e, S, fr):
        l = self.try_lv(e, S, fr)
        if l is not None:
            return self.fixb(rd(S, l), e["t"])
        return self.fixb(T.fld(self.ev(e["b"], S, fr), e["n"]), e["t"])

    def e_un(self, e, S, fr):
        op = e["op"]
        if op == "!":
            return not_(truth(self.ev(e["a"], S, fr)))
        if op == "-":
            return neg(self.ev(e["a"], S, fr))
        if op == "+":
            return T.asnum(self.ev(e["a"], S, fr))
        if op in ("++", "--"):
            l = self.lv(e["a"], S, fr)
            old = rd(S, l)
            new = self.advance(old, ONE if op == "++" else num(-1))
            wr(S, l, new)
            return old if e.get("post") else new
        if op == "*":
            l = self.try_lv(e, S, fr)
            if l is not None:
                return rd(S, l)
            return self.ev(e["a"], S, fr)
        if op == "&":
            if self.p.is_entity(e["a"]["t"]):
                return self.ev(e["a"], S, fr)
            return mk("addr", self.lv(e["a"], S, fr))
        return self.opaque("unary " + op)

    def advance(self, v, d):
        if v.op == "mk" and v.a[0] in ("iter", "riter"):
            return T.aggregate(v.a[0], v.a[1], add(v.a[2], d))
        if v.op == "ite":
            return ite(v.a[0], self.advance(v.a[1], d), self.advance(v.a[2], d))
        return add(v, d)

    def e_assign(self, e, S, fr):
        if self.kind(e["a"]["t"]) in "biuf":
            v = self.ev(e["b"], S, fr)
            l = self.lv(e["a"], S, fr)
        else:
            v = self.ev(e["b"], S, fr)
            l = self.lv(e["a"], S, fr)
        v = self.fixb(v, e["a"]["t"])
        if self.kind(e["a"]["t"]) in "iuf":
            v = T.asnum(v)
        wr(S, l, v)
        return v

    def e_cassign(self, e, S, fr):
        b = self.ev(e["b"], S, fr)
        l = self.lv(e["a"], S, fr)
        old = rd(S, l)
        op = e["op"][:-1]
        v = self.arith(op, old, b, e["a"]["t"], e["b"]["t"], e["a"]["t"])
        wr(S, l, v)
        return v

    def arith(self, op, a, b, ta, tb, tr):
        k = self.kind(tr)
        if op in ("&", "|", "^") and k == "b":
            a, b = truth(a), truth(b)
            return {"&": and_(a, b), "|": or_(a, b), "^": ite(a, not_(b), b)}[op]
        if op in ("&", "|") and (a.isb and b.isb):
            return and_(a, b) if op == "&" else or_(a, b)
        a, b = T.asnum(a), T.asnum(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if self.kind(ta) == "f" or self.kind(tb) == "f" or k == "f":
                return T.fdiv(a, b)
            return T.idiv(a, b)
        if op == "%":
            return T.mod(a, b)
        return T.func("op" + op, a, b)

    def e_bin(self, e, S, fr):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], S, fr)
            return self.ev(e["b"], S, fr)
        if op in ("&&", "||"):
            a = truth(self.ev(e["a"], S, fr))
            if op == "&&" and a is T.F or op == "||" and a is T.T:
                return a
            c = a if op == "&&" else not_(a)
            b = self.guarded(c, lambda S2: truth(self.ev(e["b"], S2, fr)), S)
            return and_(a, b) if op == "&&" else or_(a, b)
        a = self.ev(e["a"], S, fr)
        b = self.ev(e["b"], S, fr)
        ta, tb = e["a"]["t"], e["b"]["t"]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b, ta, tb)
        return self.arith(op, a, b, ta, tb, e["t"])

    def guarded(self, c, f, S):
        """Evaluates f only when c holds, merging its effects into S."""
        before = dict(S.r)
        S2 = S.copy()
        sv = self.throws
        self.throws = []
        v = f(S2)
        new = self.throws
        self.throws = sv
        for g, x, X in new:
            self.throws.append((and_(c, g), x, X))
        if any(S2.r.get(k) is not w for k, w in before.items()) or len(S2.r) != len(before):
            S.r = merge(c, S2, State(before)).r
        return v

    def e_cond(self, e, S, fr):
        c = truth(self.ev(e["c"], S, fr))
        if c is T.T:
            return self.ev(e["a"], S, fr)
        if c is T.F:
            return self.ev(e["b"], S, fr)
        a = self.guarded(c, lambda S2: self.ev(e["a"], S2, fr), S)
        b = self.guarded(not_(c), lambda S2: self.ev(e["b"], S2, fr), S)
        if not isinstance(a, T.Node) or not isinstance(b, T.Node):
            if a is b:
                return a
            a, b = self.as_fn(a, S, fr), self.as_fn(b, S, fr)
        return ite(c, a, b)

    def e_cast(self, e, S, fr):
        v = self.ev(e["a"], S, fr)
        ck = e.get("ck")
        if not isinstance(v, T.Node):
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            if v.isb:
                return v
            if ck == "PointerToBoolean":
                return not_(eq(v, mk("null"), "o"))
            return not_(eq(v, ZERO, "f" if ck.startswith("F") else self.kind(e["a"]["t"])))
        if ck == "FloatingToIntegral":
            return T.func("trunc", T.asnum(v))
        if ck == "ToVoid":
            return UNDEF
        if self.kind(e["t"]) in "iuf" and v.isb:
            return T.asnum(v)
        if self.kind(e["t"]) in "iu" and self.kind(e["a"]["t"]) == "f":
            return T.func("trunc", v)
        return v

    def e_sub(self, e, S, fr):
        return self.fixb(rd(S, self.lv(e, S, fr)), e["t"])

    def e_lambda(self, e, S, fr):
        env = dict(fr.env)
        for c in e.get("caps", []):
            if c.get("this"):
                continue
            if c.get("init") is not None:
                v = self.ev(c["init"], S, fr)
                if isinstance(v, T.Node):
                    root = "v%s@c%d" % (c["id"], next(_ids))
                    S.s(root, v)
                    env[c["id"]] = ("root", root)
                else:
                    env[c["id"]] = ("clo", v)
            elif not c.get("byref"):
                b = fr.env.get(c["id"])
                if b is not None and b[0] != "clo":
                    root = "v%s@c%d" % (c["id"], next(_ids))
                    S.s(root, S.g(b[1]) if b[0] == "root" else rd(S, b[1]))
                    env[c["id"]] = ("root", root)
        # later declarations captured by reference resolve through the frame
        return Closure(e, env, fr.this)

    def e_new(self, e, S, fr):
        if e.get("init") is not None and not e.get("array"):
            return self.ev(e["init"], S, fr)
        return self.opaque("new")

    def e_delete(self, e, S, fr):
        self.ev(e["a"], S, fr)
        return UNDEF

    def e_throw(self, e, S, fr):
        self.throws.append((T.T, e.get("exc") or "?", thrown(S)))
        return UNDEF

    def e_ilist(self, e, S, fr):
        t = self.p.strip(e["t"])
        args = [self.ev(a, S, fr) for a in e["args"]]
        if t["c"] in ("int", "uint", "float", "bool", "enum", "ptr"):
            return args[0] if args else self.default(e["t"])
        if t.get("r") == "std::initializer_list" or t["c"] == "other" or t.get("r") == "std::array":
            v = T.nil("seq")
            for a in args:
                v = T.push(v, a)
            return v
        if t.get("r") == "std::pair" and len(args) == 2:
            return T.aggregate("pair", *args)
        if len(args) == 1 and t["c"] == "rec" and not t["r"].startswith("comma"):
            return args[0]
        r = self.p.records.get(t.get("r"))
        if r is not None:
            v = mk("obj", t["s"])
            for f, a in zip(r["fields"], args):
                v = T.fst(v, f["n"], a)
            return v
        if not args:
            return self.default(e["t"])
        return self.opaque("initialiser list")

    # -------------------------------------------------------------- lvalues
    def lv(self, e, S, fr):
        l = self.try_lv(e, S, fr)
        if l is None:
            v = self.ev(e, S, fr)
            if not isinstance(v, T.Node):
                raise Abort("closure as location")
            l = self.temp(v, S)
        return l

    def temp(self, v, S):
        root = "t%d" % next(_ids)
        S.s(root, v)
        return loc(root)

    def try_lv(self, e, S, fr):
        k = e["k"]
        if e.get("l"):
            self.curloc = e["l"]
        if k == "ref":
            if e.get("dk") == "global" and e["id"] not in fr.env:
                if e.get("q") == "std::nullopt":
                    return None
                return loc("G:" + (e.get("q") or e["n"]))
            b = fr.env.get(e["id"])
            if b is None or b[0] == "clo":
                return None
            return loc(b[1]) if b[0] == "root" else b[1]
        if k == "mem":
            cls = e.get("cls")
            if cls in self.p.entities:
                if e["b"]["k"] == "this" and fr.this is not None and fr.this[0] == "loc":
                    return step(fr.this[1], mk("sf", e["n"]))
                pv = self.ev(e["b"], S, fr)
                if not isinstance(pv, T.Node):
                    return None
                return loc("H:%s.%s" % (cls, e["n"]), mk("si", pv))
            if e["b"]["k"] == "this":
                if fr.this is None:
                    return None
                if fr.this[0] == "ptr":
                    return loc("H:%s.%s" % (cls, e["n"]), mk("si", fr.this[1]))
                return step(fr.this[1], mk("sf", e["n"]))
            bl = self.try_lv(e["b"], S, fr)
            if bl is None:
                if e.get("arrow"):
                    v = self.ev(e["b"], S, fr)
                    if v.op == "addr":
                        return step(v.a[0], mk("sf", e["n"]))
                return None
            if e.get("arrow") and e["b"]["k"] not in ("opcall",):
                v = rd(S, bl)
                if v.op == "addr":
                    return step(v.a[0], mk("sf", e["n"]))
                return None
            return step(bl, mk("sf", e["n"]))
        if k == "cast":
            if e.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
                return self.try_lv(e["a"], S, fr)
            return None
        if k == "sub":
            b = self.lv(e["a"], S, fr)
            i = self.ev(e["b"], S, fr)
            return step(b, mk("si", i))
        if k == "cond":
            if not e.get("lv"):
                return None
            c = truth(self.ev(e["c"], S, fr))
            a = self.lv(e["a"], S, fr)
            b = self.lv(e["b"], S, fr)
            return ite(c, a, b)
        if k == "un":
            if e["op"] == "*":
                v = self.ev(e["a"], S, fr)
                if isinstance(v, T.Node) and v.op == "addr":
                    return v.a[0]
                if e["a"]["k"] == "this" and fr.this and fr.this[0] == "loc":
                    return fr.this[1]
                return None
            if e["op"] in ("++", "--") and not e.get("post"):
                self.ev(e, S, fr)
                return self.lv(e["a"], S, fr)
            return None
        if k in ("assign", "cassign"):
            self.ev(e, S, fr)
            return self.lv(e["a"], S, fr)
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"], S, fr)
            return self.try_lv(e["b"], S, fr)
        if k == "opcall":
            return self.std_lv_op(e, S, fr)
        if k == "mcall":
            return self.std_lv_m(e, S, fr)
        if k == "call":
            if e.get("q") in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
                return self.try_lv(e["args"][0], S, fr)
            if e.get("q") in ("std::min", "std::max") and len(e["args"]) == 2:
                return None
            if e.get("q") == "std::get":
                b = self.try_lv(e["args"][0], S, fr)
                i = int(e["ta"][0]["v"]) if e.get("ta") and "v" in e["ta"][0] else None
                if b is None or i is None:
                    return None
                return step(b, mk("sf", ("first", "second")[i]))
            if e.get("f") in self.p.funcs and self.p.ty(self.p.funcs[e["f"]]["ret"])["c"] == "ref":
                r = self.user_call(e, S, fr, want_lv=True)
                return r if isinstance(r, T.Node) and _isloc(r) else None
            return None
        return None

    def iter_loc(self, v):
        """location designated by an iterator value"""
        if v.op == "ite":
            return ite(v.a[0], self.iter_loc(v.a[1]), self.iter_loc(v.a[2]))
        if v.op == "mk" and v.a[0] == "iter":
            return step(v.a[1], mk("si", v.a[2]))
        return None

    def deref(self, v, S):
        """location of *v for iterators, pointers to containers; None if v is an object pointer"""
        if v.op == "mk" and v.a[0] == "iter":
            return step(v.a[1], mk("si", v.a[2]))
        if v.op == "mk" and v.a[0] == "riter":
            n = size(rd(S, v.a[1]))
            return step(v.a[1], mk("si", sub(sub(n, ONE), v.a[2])))
        if v.op == "ite":
            a, b = self.deref(v.a[1], S), self.deref(v.a[2], S)
            if a is None or b is None:
                return None
            return ite(v.a[0], a, b)
        if v.op == "addr":
            return v.a[0]
        return None

    def is_iter_type(self, t):
        r = self.p.rec(t)
        return bool(r) and ("iterator" in r)

    def pointee_loc(self, e, S, fr, ptr_expr):
        """smart pointer dereference"""
        t = self.p.strip(ptr_expr["t"])
        v = self.ev(ptr_expr, S, fr)
        if not isinstance(v, T.Node):
            return None
        if t.get("r") == "std::optional":
            l = self.try_lv(ptr_expr, S, fr)
            if l is None:
                l = self.temp(v, S)
            return step(l, mk("sv"))
        pt = None
        if t.get("r") in PTR:
            pt = self.p.targ(t, 0)
        elif t["c"] == "ptr":
            pt = t["p"]
        if pt is not None and not self.p.is_entity(pt):
            if v.op == "addr":
                return v.a[0]
            return loc("H:*" + self.p.plain(self.p.ty(pt)), mk("si", v))
        return None

    def std_lv_op(self, e, S, fr):
        op = e["op"]
        if e.get("f") in self.p.funcs:
            f = self.p.funcs[e["f"]]
            if op == "=" and (f.get("defaulted") or f.get("implicit")):
                self.ev(e, S, fr)
                return self.lv(e["args"][0], S, fr)
            if self.p.ty(f["ret"])["c"] == "ref" and f["kind"] != "lambda":
                r = self.user_call(e, S, fr, want_lv=True)
                return r if isinstance(r, T.Node) and _isloc(r) else None
            return None
        args = e.get("args", [])
        if op in ("*", "->") and len(args) == 1:
            t = self.p.strip(args[0]["t"])
            if t.get("r") in PTR or t.get("r") == "std::optional" or t["c"] == "ptr":
                return self.pointee_loc(e, S, fr, args[0])
            v = self.ev(args[0], S, fr)
            return self.deref(v, S) if isinstance(v, T.Node) else None
        if op == "[]":
            t = self.p.strip(args[0]["t"])
            k = self.p.cls_kind(t.get("r"))
            if k is None and self.is_iter_type(args[0]["t"]):
                v = self.advance(self.ev(args[0], S, fr), self.ev(args[1], S, fr))
                return self.deref(v, S)
            b = self.lv(args[0], S, fr)
            i = self.ev(args[1], S, fr)
            if k == "map":
                return step(b, mk("sg", i, self.default(self.p.targ(t, 1))))
            return step(b, mk("si", i))
        if op in ("=", "+=", "-=", "++", "--"):
            if op in ("++", "--") and len(args) == 2:
                return None
            self.ev(e, S, fr)
            return self.try_lv(args[0], S, fr)
        return None

    def std_lv_m(self, e, S, fr):
        if e.get("f") in self.p.funcs:
            f = self.p.funcs[e["f"]]
            if self.p.ty(f["ret"])["c"] == "ref" and not self.p.is_entity(f["ret"]):
                r = self.user_call(e, S, fr, want_lv=True)
                return r if isinstance(r, T.Node) and _isloc(r) else None
            return None
        n = e["n"]
        o = e["o"]
        t = self.p.strip(o["t"])
        if n in ("at", "front", "back", "top"):
            b = self.obj_loc(e, S, fr)
            c = self.p.cls_kind(self.obj_type(e).get("r"))
            if n == "at":
                i = self.ev(e["args"][0], S, fr)
                if c == "map":
                    return step(b, mk("sg", i, UNDEF))
                return step(b, mk("si", i))
            if n == "front":
                return step(b, mk("si", ZERO))
            return step(b, mk("si", sub(size(rd(S, b)), ONE)))
        if n == "value" and t.get("r") == "std::optional":
            return step(self.lv(o, S, fr), mk("sv"))
        if n == "key" and "Node_handle" in (t.get("r") or ""):
            return step(self.lv(o, S, fr), mk("sf", "first"))
        if n == "mapped" and "Node_handle" in (t.get("r") or ""):
            return step(self.lv(o, S, fr), mk("sf", "second"))
        if n in ("emplace_back",) and e.get("lv"):
            self.ev(e, S, fr)
            b = self.obj_loc(e, S, fr)
            return step(b, mk("si", sub(size(rd(S, b)), ONE)))
        if n == "operator=":
            self.ev(e, S, fr)
            return self.lv(o, S, fr)
        if n == "get" and t.get("r") in PTR:
            return None
        return None

    def obj_type(self, e):
        """type of the object a member call is made on"""
        o = e["o"]
        t = self.p.strip(o["t"])
        if t["c"] == "ptr":
            t = self.p.strip(t["p"])
        return t

    def obj_loc(self, e, S, fr):
        o = e["o"]
        if e.get("arrow"):
            if o["k"] == "opcall" and o.get("op") == "->":
                return self.lv(o, S, fr)
            v = self.ev(o, S, fr)
            if v.op == "addr":
                return v.a[0]
            t = self.p.strip(o["t"])
            if t["c"] == "ptr":
                return loc("H:*" + self.p.plain(self.p.ty(t["p"])), mk("si", v))
            raise Abort("arrow call")
        return self.lv(o, S, fr)

    # ----------------------------------------------------------- comparisons
    def cmp(self, op, a, b, ta, tb):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        neg_ = op in ("!=",)
        ka, kb = self.kind(ta), self.kind(tb)
        xa, xb = self.p.strip(ta), self.p.strip(tb)
        if isinstance(a, T.Node) and isinstance(b, T.Node):
            ra, rb = xa.get("r"), xb.get("r")
            if "std::optional" in (ra, rb) or "std::nullopt_t" in (ra, rb):
                return self.cmp_opt(op, a, b, xa, xb)
            if _isiter(a) and _isiter(b):
                r = self.cmp_iter(op, a, b)
                if r is not None:
                    return r
            if ka == "b" and kb == "b":
                r = eq(truth(a), truth(b), "b")
                if op == "==":
                    return r
                if op == "!=":
                    return not_(r)
            if ka in "biuf" and kb in "biuf":
                isf = ka == "f" or kb == "f"
                uns = ka == "u" or kb == "u"
                a, b = T.asnum(a), T.asnum(b)
                if op == "==":
                    return eq(a, b, "f" if isf else "u" if uns else "i")
                if op == "!=":
                    return not_(eq(a, b, "f" if isf else "u" if uns else "i"))
                if op == ">":
                    return gt(a, b, isf, uns)
                if op == "<":
                    return gt(b, a, isf, uns)
                if op == ">=":
                    return not_(gt(b, a, isf, uns))
                return not_(gt(a, b, isf, uns))
            if ra == "std::pair" and rb == "std::pair":
                t1, t2 = self.p.targ(xa, 0), self.p.targ(xa, 1)
                a1, a2 = T.fld(a, "first"), T.fld(a, "second")
                b1, b2 = T.fld(b, "first"), T.fld(b, "second")
                e1 = self.cmp("==", a1, b1, t1, t1)
                e2 = self.cmp("==", a2, b2, t2, t2)
                if op == "==":
                    return and_(e1, e2)
                if op == "!=":
                    return not_(and_(e1, e2))
                o = op[0]
                return or_(self.cmp(o, a1, b1, t1, t1), and_(e1, self.cmp(op, a2, b2, t2, t2)))
            if ra == "std::tuple" and rb == "std::tuple":
                if a.op != "mk" or b.op != "mk" or len(a.a) != len(b.a) or self.p.targ(xa, len(a.a) - 2) is None:
                    return self.opaque("comparison of tuples")
                r = T.T if op in ("==", "!=", "<=", ">=") else T.F
                for i in reversed(range(len(a.a) - 1)):
                    ta, tb = self.p.targ(xa, i), self.p.targ(xb, i)
                    u, w = a.a[i + 1], b.a[i + 1]
                    e = self.cmp("==", u, w, ta, tb)
                    r = and_(e, r) if op in ("==", "!=") else or_(self.cmp(op[0], u, w, ta, tb), and_(e, r))
                return not_(r) if op == "!=" else r
            if op in ("==", "!="):
                r = eq(a, b, "o")
                return not_(r) if neg_ else r
        return truth(mk("cmp" + op, a, b)) if isinstance(a, T.Node) and isinstance(b, T.Node) else self.opaque("comparison")

    def cmp_opt(self, op, a, b, xa, xb):
        """optional against optional or value"""
        def parts(v, x):
            if x.get("r") == "std::optional":
                return T.has(v), T.val(v), self.p.targ(x, 0)
            if x.get("r") == "std::nullopt_t":
                return T.F, UNDEF, None
            return T.T, v, None
        ha, va, ta = parts(a, xa)
        hb, vb, tb = parts(b, xb)
        t = ta if ta is not None else tb

        def c(o):
            if va is UNDEF or vb is UNDEF:
                return T.F
            return self.cmp(o, va, vb, t, t)
        if op == "==":
            return ite(ha, and_(hb, c("==")), not_(hb))
        if op == "!=":
            return not_(ite(ha, and_(hb, c("==")), not_(hb)))
        if op == "<":
            return and_(hb, ite(ha, c("<"), T.T))
        if op == ">":
            return and_(ha, ite(hb, c(">"), T.T))
        if op == "<=":
            return ite(ha, and_(hb, c("<=")), T.T)
        return ite(hb, and_(ha, c(">=")), T.T)

    def cmp_iter(self, op, a, b):
        if a.op == "ite":
            return ite(a.a[0], self.cmp_iter(op, a.a[1], b), self.cmp_iter(op, a.a[2], b))
        if b.op == "ite":
            return ite(b.a[0], self.cmp_iter(op, a, b.a[1]), self.cmp_iter(op, a, b.a[2]))
        p, q = a.a[2], b.a[2]
        if op == "==":
            return eq(p, q, "u")
        if op == "!=":
            return not_(eq(p, q, "u"))
        if op == "<":
            return gt(q, p)
        if op == ">":
            return gt(p, q)
        if op == "<=":
            return not_(gt(p, q))
        return not_(gt(q, p))

    # ----------------------------------------------------------------- calls
    def e_call(self, e, S, fr):
        if e.get("f") in self.p.funcs:
            return self.user_call(e, S, fr)
        import stdmodel
        return stdmodel.free_call(self, e, S, fr)

    def e_mcall(self, e, S, fr):
        if (e.get("cls") or "").endswith("(lambda)") and e["n"].startswith("operator ") and not e.get("args"):
            return self.ev(e["o"], S, fr)
        if e.get("f") in self.p.funcs or e.get("in"):
            return self.user_call(e, S, fr)
        import stdmodel
        return stdmodel.member_call(self, e, S, fr)

    def e_opcall(self, e, S, fr):
        import stdmodel
        if e.get("f") in self.p.funcs or e.get("in"):
            f = self.p.funcs.get(e.get("f"))
            if f is not None and e["op"] == "=" and (f.get("defaulted") or f.get("implicit")):
                v = self.ev(e["args"][1], S, fr)
                l = self.lv(e["args"][0], S, fr)
                wr(S, l, v)
                return v
            return self.user_call(e, S, fr)
        return stdmodel.op_call(self, e, S, fr)

    def e_ctor(self, e, S, fr):
        import stdmodel
        rt = e.get("rt")
        if e.get("in") or e.get("f") in self.p.funcs or not (rt or "").startswith(("std::", "__gnu")):
            return self.user_ctor(e, S, fr)
        return stdmodel.construct(self, self.p.strip(e["t"]), e.get("args", []), S, fr, e)

    def user_ctor(self, e, S, fr, args=None):
        t = self.p.strip(e["t"])
        return self.construct_user(t, e.get("f"), e.get("args", []), S, fr, copy=e.get("copy") or e.get("mv"))

    def find_ctor(self, t, nargs):
        """constructor of a class instance by number of arguments"""
        c = []
        for f in self.p.funcs.values():
            if f["kind"] == "ctor" and f.get("cls") == t.get("r") and not f.get("copy") and not f.get("mv") \
                    and not f.get("implicit"):
                if [self.p.tstr(a) for a in f.get("ca") or []] != [self.p.tstr(a) for a in t.get("a") or []]:
                    continue
                req = sum(1 for p in f["params"] if "def" not in p and not p.get("hasdef"))
                if req <= nargs <= len(f["params"]):
                    c.append(f)
        return c[0] if len(c) == 1 else (c[0] if c else None)

    def construct_user(self, t, fid, args, S, fr, copy=False):
        cls = t.get("r")
        if copy and len(args) == 1:
            v = self.ev(args[0], S, fr)
            if cls in self.p.entities:
                return mk("new", t["s"], mk("str", "copy"), v)
            return v
        f = self.p.funcs.get(fid)
        if f is None:
            vs = [self.ev(a, S, fr) for a in args]
            if not vs:
                return self.default_obj(t, S, fr)
            return mk("new", t["s"], *[v for v in vs if isinstance(v, T.Node)])
        if f.get("defaulted") and not args:
            return self.default_obj(t, S, fr, f)
        if cls in self.p.entities:
            vals = []
            for i, prm in enumerate(f["params"]):
                if i < len(args):
                    v = self.ev(args[i], S, fr)
                elif "def" in prm:
                    v = self.ev(prm["def"], S, fr)
                else:
                    v = UNDEF
                if not isinstance(v, T.Node):
                    v = self.as_fn(v, S, fr)
                if self.kind(prm["t"]) == "b":
                    v = truth(v)
                elif self.kind(prm["t"]) in "iuf":
                    v = T.asnum(v)
                vals.append(self.escape(v, S))
            key = self.p.keys[fid]
            sm = self.sums.get(key)
            reads = []
            if sm is not None:
                for fl in sorted(sm.reads):
                    if not fl.startswith("A:"):
                        reads.append(S.g(fl))
            p = mk("new", t["s"], *vals, *reads)
            if sm is not None:
                self.may_throw(p, sm, S)
                for fl, own in sorted(sm.writes.items()):
                    if not own:
                        S.s(fl, T.eff(p, fl))
            else:
                # not compared separately: run the constructor on the new object
                self.run_ctor(f, ("ptr", p), args, S, fr)
            return p
        # value classes are built in place
        root = "t%d" % next(_ids)
        S.s(root, mk("obj", t["s"]))
        self.run_ctor(f, ("loc", loc(root)), args, S, fr)
        v = S.g(root)
        S.r.pop(root, None)
        return v

    def default_obj(self, t, S, fr, f=None):
        if t.get("r") in self.p.entities:
            return mk("new", t["s"])
        v = mk("obj", t["s"])
        if f is not None and f.get("inits"):
            root = "t%d" % next(_ids)
            S.s(root, v)
            self.run_ctor(f, ("loc", loc(root)), [], S, fr)
            v = S.g(root)
            S.r.pop(root, None)
        return v

    def run_ctor(self, f, this, args, S, fr):
        nf = Frame(f, this)
        self.bind_params(f, nf, args, S, fr)
        self.ctor_inits(f, nf, S)
        self.run_body(f, nf, S)

    def ctor_inits(self, f, nf, S):
        for i in f.get("inits") or []:
            e = i.get("e")
            if "f" in i:
                if e is None:
                    continue
                v = self.ev(e, S, nf)
                if not isinstance(v, T.Node):
                    v = self.as_fn(v, S, nf)
                ft = i.get("ft")
                if ft is not None:
                    v = self.fixb(v, ft)
                    if self.kind(ft) in "iuf":
                        v = T.asnum(v)
                    v = self.coerce(v, e, ft)
                wr(S, self.field_loc(nf, f["cls"], i["f"]), v)
            elif ("base" in i or i.get("deleg")) and e is not None and e["k"] == "ctor":
                b = self.p.funcs.get(e.get("f"))
                if b is None:
                    continue
                key = self.p.keys[e["f"]]
                if nf.this[0] == "ptr" and key in self.sums and key not in self.inline:
                    # constructor of the base part: its own comparison covers it
                    vals = [self.escape(self.argval(a, S, nf), S) for a in e.get("args", [])]
                    sm = self.sums[key]
                    reads = [S.g(fl) for fl in sorted(sm.reads) if not fl.startswith("A:")]
                    c = T.call("ctor " + key, nf.this[1], *vals, *reads)
                    self.may_throw(c, sm, S)
                    for fl, own in sorted(sm.writes.items()):
                        if own:
                            S.s(fl, st(S.g(fl), nf.this[1], T.eff(c, fl)))
                        else:
                            S.s(fl, T.eff(c, fl))
                elif not (b.get("implicit") or b.get("defaulted")):
                    self.run_ctor(b, nf.this, e.get("args", []), S, nf)

    def may_throw(self, c, sm, S):
        """the call may end with an exception: recorded with the caller's objects as they are then"""
        if sm.throws:
            outs = [S.r[r] for r in sorted(S.r, key=lambda r: (len(r), r)) if r[0] == "p" and S.r[r].op != "sym"]
            S.s("A:!tc", T.push(S.g("A:!tc"), mk("tc", c, *outs)))

    def argval(self, a, S, fr):
        v = self.ev(a, S, fr)
        if not isinstance(v, T.Node):
            v = self.as_fn(v, S, fr)
        return v

    def field_loc(self, fr, cls, name):
        if fr.this[0] == "ptr":
            return loc("H:%s.%s" % (cls, name), mk("si", fr.this[1]))
        return step(fr.this[1], mk("sf", name))

    def coerce(self, v, e, t):
        """implicit conversions to optional"""
        x = self.p.strip(t)
        if x.get("r") == "std::optional":
            y = self.p.strip(e["t"]) if e is not None and e.get("t") is not None else None
            if y is not None and y.get("r") not in ("std::optional", "std::nullopt_t") and v.op != "mk":
                return T.some(v)
        return v

    def bind_params(self, f, nf, args, S, fr, vals=None):
        """args: expressions evaluated in fr; vals: already evaluated values or ('loc', l)"""
        for i, prm in enumerate(f["params"]):
            t = self.p.ty(prm["t"])
            isref = t["c"] == "ref" and not self.p.is_entity(prm["t"])
            if vals is not None:
                v = vals[i] if i < len(vals) else UNDEF
                if isinstance(v, tuple) and v[0] == "loc":
                    if isref:
                        nf.env[prm["id"]] = ("ref", v[1])
                        continue
                    v = rd(S, v[1])
            else:
                if i < len(args):
                    a = args[i]
                    src = fr
                elif "def" in prm:
                    a = prm["def"]
                    src = nf
                else:
                    a = None
                if a is None:
                    v = UNDEF
                elif isref:
                    l = self.try_lv(a, S, src)
                    if l is not None:
                        nf.env[prm["id"]] = ("ref", l)
                        continue
                    v = self.ev(a, S, src)
                else:
                    v = self.ev(a, S, src)
                    if isinstance(v, T.Node):
                        v = self.coerce(v, a, prm["t"])
            if not isinstance(v, T.Node):
                nf.env[prm["id"]] = ("clo", v)
                continue
            v = self.fixb(v, prm["t"])
            if self.kind(prm["t"]) in "iuf":
                v = T.asnum(v)
            root = "v%s@%d" % (prm["id"], nf.id)
            S.s(root, v)
            nf.env[prm["id"]] = ("root", root)

    def run_body(self, f, nf, S):
        """Executes an inlined body in place; returns the return value."""
        before = set(S.r)
        self.stack.append(f["id"])
        if len(self.stack) > 60:
            raise Abort("inlining depth")
        sv = self.throws
        self.throws = []
        outs = self.exec(f.get("body"), S.copy(), nf)
        inner = self.throws
        self.throws = sv
        self.stack.pop()
        t = outs.get("t")
        for x in inner:
            self.throws.append(x)
        if t is not None:
            for exc, g in self.split_exc(t):
                self.throws.append((g, exc, t[1]))
        r = join(outs.get("n"), outs.get("r"))
        if r is None:
            return UNDEF
        ret = UNDEF
        if outs.get("r") is not None:
            ret = outs["r"][1].r.get("$ret", UNDEF)
        if outs.get("n") is not None and outs.get("r") is not None:
            pass
        S2 = r[1]
        S.r = {k: v for k, v in S2.r.items() if k in before or k[:2] in ("H:", "G:", "A:") or k[0] == "t"
               or "@c" in k}
        S.r.pop("$ret", None)
        return ret

    def split_exc(self, t):
        """(exception class, guard) of a throw outcome"""
        v = t[1].r.get("$exc")
        out = {}

        def go(n, g):
            if n.op == "ite":
                go(n.a[1], and_(g, n.a[0]))
                go(n.a[2], and_(g, not_(n.a[0])))
            else:
                s = n.a[0] if n.op == "str" else "?"
                out[s] = or_(out.get(s, T.F), g)
        if v is None:
            return [("?", t[0])]
        go(v, t[0])
        return sorted(out.items())

    def vkey(self, e):
        fid = e.get("f")
        f = self.p.funcs.get(fid)
        base = fid
        if f is not None and f.get("over"):
            base = f["over"][0]
        return "V:" + e["n"], base

    def user_call(self, e, S, fr, want_lv=False):
        k = e["k"]
        fid = e.get("f")
        f = self.p.funcs.get(fid)
        args = list(e.get("args", []))
        obj = None
        if k == "mcall":
            obj = e["o"]
        elif k == "opcall" and (e.get("cls") or (f is not None and f["kind"] in ("method", "lambda"))):
            obj = args[0]
            args = args[1:]
        # a closure
        if k == "opcall" and e["op"] == "()":
            c = self.ev(obj, S, fr)
            if isinstance(c, Closure):
                return self.call_closure(c, args, S, fr, fid)
        if e.get("virt") and not e.get("qualified"):
            key, base = self.vkey(e)
            ov = self.p.overriders.get(base, [])
            if key in self.sums:
                proto = f if f is not None else (self.p.funcs[ov[0]] if ov else None)
                return self.anchor(key, proto, e, obj, args, S, fr)
            if f is None or ov:
                return self.opaque("virtual call " + e["n"])
        if f is None or f.get("body") is None:
            if f is not None and (f.get("defaulted") or f.get("implicit")):
                return UNDEF
            for a in args:
                self.ev(a, S, fr)
            return self.opaque("call of " + str(e.get("q")))
        key = self.p.keys[fid]
        # free-standing lambdas converted to pointers etc.
        if key in self.sums and key not in self.inline:
            return self.anchor(key, f, e, obj, args, S, fr)
        if fid in self.stack:
            raise Abort("recursion of " + f["q"])
        self.stats["inlined"] += 1
        this = None
        if obj is not None and not f.get("static"):
            this = self.this_of(f, obj, e, S, fr)
        nf = Frame(f, this)
        self.bind_params(f, nf, args, S, fr)
        r = self.run_body(f, nf, S)
        return self.result(r, f, S, want_lv)

    def result(self, r, f, S, want_lv):
        if want_lv:
            return r
        if isinstance(r, T.Node) and self.p.ty(f["ret"])["c"] == "ref" and _isloc(r):
            return rd(S, r)
        return r

    def this_of(self, f, obj, e, S, fr):
        if f.get("cls") in self.p.entities:
            v = self.ev(obj, S, fr)
            return ("ptr", v)
        if obj["k"] == "this":
            return fr.this
        if e.get("arrow"):
            if obj["k"] == "opcall" and obj.get("op") == "->":
                return ("loc", self.lv(obj, S, fr))
            v = self.ev(obj, S, fr)
            if isinstance(v, T.Node) and v.op == "addr":
                return ("loc", v.a[0])
        return ("loc", self.lv(obj, S, fr))

    def escape(self, v, S):
        """iterators passed out of the function carry the container's value"""
        if not isinstance(v, T.Node):
            return self.opaque("function argument")
        if v.op == "mk" and v.a[0] in ("iter", "riter"):
            return mk("itv", v.a[0], rd(S, v.a[1]), v.a[2])
        if v.op == "ite" and _isiter(v):
            return ite(v.a[0], self.escape(v.a[1], S), self.escape(v.a[2], S))
        return v

    def anchor(self, key, f, e, obj, args, S, fr):
        """Call of a function that is compared on its own."""
        self.stats["calls"] += 1
        sm = self.sums[key]
        vals = []
        this = None
        tv = None
        if obj is not None and f is not None and not f.get("static"):
            this = self.this_of(f, obj, e, S, fr)
            tv = this[1] if this[0] == "ptr" else rd(S, this[1])
            vals.append(tv)
        locs = {}
        params = f["params"] if f is not None else [{"t": None}] * len(args)
        for i, prm in enumerate(params):
            if i < len(args):
                a, src = args[i], fr
            elif "def" in prm:
                a, src = prm["def"], fr
            else:
                vals.append(UNDEF)
                continue
            if prm["t"] is not None and self.p.is_mut_ref(prm["t"]) and not self.p.is_entity(prm["t"]):
                l = self.lv(a, S, src)
                locs[i] = l
                vals.append(self.escape(rd(S, l), S))
            else:
                v = self.argval(a, S, src)
                if prm["t"] is not None:
                    v = self.coerce(v, a, prm["t"])
                    v = self.fixb(v, prm["t"])
                    if self.kind(prm["t"]) in "iuf":
                        v = T.asnum(v)
                vals.append(self.escape(v, S))
        for fl, own in sorted(sm.reads.items()):
            if fl.startswith("A:"):
                continue
            g = S.g(fl)
            if own and this is not None and this[0] == "ptr":
                g = sl(g, tv)
            vals.append(g)
        c = T.call(key, *vals)
        self.may_throw(c, sm, S)
        for fl, own in sorted(sm.writes.items()):
            if own and this is not None and this[0] == "ptr":
                S.s(fl, st(S.g(fl), tv, T.eff(c, fl)))
            else:
                S.s(fl, T.eff(c, fl))
        for i in sorted(sm.outs):
            if i == -1:
                if this is not None and this[0] == "loc":
                    wr(S, this[1], T.eff(c, "this"))
            elif i in locs:
                wr(S, locs[i], self.fixb(T.eff(c, "p%d" % i), params[i]["t"]))
        if f is not None:
            return self.fixb(c, f["ret"])
        return self.fixb(c, e.get("t"))

    # -------------------------------------------------------------- closures
    def call_closure(self, c, args, S, fr, fid=None):
        vals = []
        for a in args:
            l = self.try_lv(a, S, fr)
            if l is not None and not self.p.is_entity(a["t"]):
                vals.append(("loc", l))
            else:
                vals.append(self.ev(a, S, fr))
        return self.apply_closure(c, vals, S, fid)

    def apply_closure(self, c, vals, S, fid=None):
        ops = [o for o in c.ast.get("ops", []) if o in self.p.funcs]
        if fid in ops:
            f = self.p.funcs[fid]
        else:
            ops = [o for o in ops if len(self.p.funcs[o]["params"]) == len(vals)]
            if not ops:
                return self.opaque("lambda without body")
            f = self.p.funcs[ops[0]]
        if f["id"] in self.stack:
            return self.opaque("recursive lambda")
        nf = Frame(f, c.this, dict(c.env))
        self.bind_params(f, nf, [], S, nf, vals)
        r = self.run_body(f, nf, S)
        return self.result(r, f, S, False)

    def apply(self, c, vals, S):
        """Calls a callable value with values (or ('loc', l))."""
        if isinstance(c, Closure):
            return self.apply_closure(c, vals, S)
        if isinstance(c, Functor):
            for f in self.p.funcs.values():
                if f["n"] == "operator()" and f.get("cls") == c.t.get("r") and len(f["params"]) == len(vals) and \
                        [self.p.tstr(a) for a in f.get("ca") or []] == [self.p.tstr(a) for a in c.t.get("a") or []]:
                    if f["id"] in self.stack:
                        break
                    nf = Frame(f, ("loc", c.loc))
                    self.bind_params(f, nf, [], S, nf, vals)
                    return self.result(self.run_body(f, nf, S), f, S, False)
            n = c.t.get("r", "")
            vs = [rd(S, v[1]) if isinstance(v, tuple) else v for v in vals]
            t = self.p.targ(c.t, 0)
            if t is not None and self.p.strip(t)["c"] not in ("int", "uint", "float", "bool", "rec", "enum", "ptr"):
                t = None
            if n in ("std::plus", "std::minus", "std::multiplies", "std::divides") and len(vs) == 2 and t is not None \
                    and self.kind(t) in "iuf" and (n != "std::divides" or self.kind(t) == "f"):
                x, y = T.asnum(vs[0]), T.asnum(vs[1])
                if n == "std::divides":
                    return T.div(x, y)
                return {"std::plus": T.add, "std::minus": T.sub, "std::multiplies": T.mul}[n](x, y)
            if n in ("std::less", "std::greater") and len(vs) == 2:
                return self.cmp("<" if n == "std::less" else ">", vs[0], vs[1], t, t) if t is not None else self.opaque(n)
            return self.opaque("functor " + n)
        vs = [rd(S, v[1]) if isinstance(v, tuple) else v for v in vals]
        if isinstance(c, T.Node):
            return self.apply_node(c, vs)
        return self.opaque("callable")

    def apply_node(self, c, vs):
        if c.op == "ite":
            return ite(c.a[0], self.apply_node(c.a[1], vs), self.apply_node(c.a[2], vs))
        if c.op == "fn":
            temps, bodies = T.open_binder(c)
            return T.subst(bodies[0], {t.a[0]: v for t, v in zip(temps, vs)})
        return T.call("apply", c, *vs)

    def callable(self, e, S, fr):
        """Evaluates an argument that is called by an algorithm."""
        v = self.ev(e, S, fr)
        if isinstance(v, (Closure, Functor)):
            return v
        x = self.p.strip(e["t"])
        if x["c"] == "rec" and x.get("r") != "std::function":
            return Functor(x, self.temp(v, S))
        return v

    def as_fn(self, c, S, fr):
        """Closed function value (std::function)."""
        if isinstance(c, T.Node):
            return c
        if isinstance(c, Closure):
            ops = [o for o in c.ast.get("ops", []) if o in self.p.funcs]
            if not ops:
                return self.opaque("generic lambda as value")
            f = self.p.funcs[ops[0]]
            self.ldepth += 1
            temps = [self.tmp("f%d" % i, "b" if self.kind(prm["t"]) == "b" else None)
                     for i, prm in enumerate(f["params"])]
            S2 = S.copy()
            r = self.apply_closure(c, temps, S2, ops[0])
            self.ldepth -= 1
            if not isinstance(r, T.Node):
                return self.opaque("lambda returning function")
            if self.kind(f["ret"]) == "b":
                r = truth(r)
            return T.close("fn", [], temps, [r])
        return self.opaque("function value")

    # ------------------------------------------------------------- statements
    def exec(self, s, S, fr):
        """Outcomes {kind: (guard, state)} of a statement."""
        if s is None:
            return {"n": (T.T, S)}
        if s.get("l"):
            self.curloc = s["l"]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            self.opaque("statement " + s["k"])
            S.s("H:opaque", self.opaque("statement " + s["k"]))
            return {"n": (T.T, S)}
        return m(s, S, fr)

    def flush(self, out):
        """Moves throws raised inside expressions of the statement into its outcomes."""
        if not self.throws:
            return out
        th = self.throws
        self.throws = []
        g = T.F
        t = out.get("t")
        for c, exc, X in th:
            c = and_(c, not_(g))
            X = X.copy()
            X.s("$exc", mk("str", exc))
            if c is not T.F:
                t = join(t, (c, X))
            g = or_(g, c)
        ng = not_(g)
        res = {}
        for k, v in out.items():
            if k == "t":
                continue
            gg = and_(ng, v[0])
            if gg is not T.F:
                res[k] = (gg, v[1])
        if t is not None:
            res["t"] = t
        return res

    def seq(self, out, nxt):
        """out followed by nxt(state) on normal completion"""
        n = out.pop("n", None)
        if n is None or n[0] is T.F:
            return out
        g, S = n
        o2 = nxt(S)
        for k, v in o2.items():
            gg = and_(g, v[0])
            if gg is T.F:
                continue
            out[k] = join(out.get(k), (gg, v[1]))
        return out

    def s_null(self, s, S, fr):
        return {"n": (T.T, S)}

    def s_opaque(self, s, S, fr):
        S.s("H:opaque", self.opaque("statement"))
        return {"n": (T.T, S)}

    def s_expr(self, s, S, fr):
        e = s["e"]
        if e["k"] == "throw":
            S = thrown(S)
            S.s("$exc", mk("str", e.get("exc") or "?"))
            return {"t": (T.T, S)}
        if self.ignored(e):
            return {"n": (T.T, S)}
        self.ev(e, S, fr)
        return self.flush({"n": (T.T, S)})

    def ignored(self, e):
        """output statements"""
        if e["k"] == "opcall" and e.get("op") == "<<":
            x = e
            while x["k"] == "opcall" and x.get("op") == "<<":
                x = x["args"][0]
            t = self.p.strip(x["t"]) if x.get("t") is not None else {}
            return "ostream" in (t.get("r") or "")
        if e["k"] == "cast" and e.get("ck") == "ToVoid":
            return True
        return False

    def s_block(self, s, S, fr):
        out = {"n": (T.T, S)}
        for x in s["b"]:
            out = self.seq(out, lambda S2: self.exec(x, S2, fr))
            if "n" not in out:
                break
        return out

    def s_decl(self, s, S, fr):
        for d in s["d"]:
            self.declare(d, S, fr)
        return self.flush({"n": (T.T, S)})

    def declare(self, d, S, fr):
        if d.get("l"):
            self.curloc = d["l"]
        t = self.p.ty(d["t"])
        init = d.get("init")
        if d.get("static") and not d.get("constexpr"):
            v = self.ev(init, S, fr) if d.get("const") and init is not None else None
            if isinstance(v, T.Node) and constant(v):
                # the same in every call
                root = "v%s@%d" % (d["id"], fr.id)
                S.s(root, self.fixb(v, d["t"]))
            else:
                root = "G:static %s" % d["n"]
            fr.env[d["id"]] = ("root", root)
            return
        if d.get("bind"):
            if t["c"] == "ref" and init is not None:
                l = self.try_lv(init, S, fr)
                if l is None:
                    l = self.temp(self.ev(init, S, fr), S)
            else:
                l = self.temp(self.ev(init, S, fr), S)
            self.bindings(d, l, fr)
            return
        if t["c"] == "ref" and not self.p.is_entity(d["t"]) and init is not None:
            l = self.try_lv(init, S, fr)
            if l is not None:
                fr.env[d["id"]] = ("ref", l)
                return
        if init is None:
            x = self.p.strip(d["t"])
            v = UNDEF if x["c"] != "rec" else self.default(d["t"])
        else:
            v = self.ev(init, S, fr)
        if not isinstance(v, T.Node):
            if self.p.rec(d["t"]) == "std::function":
                v = self.as_fn(v, S, fr)
            else:
                fr.env[d["id"]] = ("clo", v)
                return
        v = self.fixb(v, d["t"])
        if self.kind(d["t"]) in "iuf":
            v = T.asnum(v)
        if init is not None:
            v = self.coerce(v, init, d["t"])
        root = "v%s@%d" % (d["id"], fr.id)
        S.s(root, v)
        fr.env[d["id"]] = ("root", root)

    def bindings(self, d, l, fr):
        x = self.p.strip(d["t"])
        names = ("first", "second")
        if x.get("r") not in ("std::pair",):
            r = self.p.records.get(x.get("r"))
            if r is not None:
                names = [f["n"] for f in r["fields"]]
        for i, b in enumerate(d["bind"]):
            fr.env[b["id"]] = ("ref", step(l, mk("sf", names[i] if i < len(names) else "get%d" % i)))
            if b.get("hv") is not None:
                fr.env[b["hv"]] = fr.env[b["id"]]

    def s_if(self, s, S, fr):
        out = {"n": (T.T, S)}
        if s.get("init"):
            out = self.exec(s["init"], S, fr)
        return self.seq(out, lambda S2: self.if_(s, S2, fr))

    def if_(self, s, S, fr):
        if s.get("cv"):
            self.declare(s["cv"], S, fr)
        c = truth(self.ev(s["c"], S, fr))
        self.stats["joins"] += 1
        out = {}
        if c is not T.F:
            for k, v in self.exec(s.get("a"), S.copy(), fr).items():
                g = and_(c, v[0])
                if g is not T.F:
                    out[k] = (g, v[1])
        nc = not_(c)
        if nc is not T.F:
            for k, v in self.exec(s.get("b"), S.copy(), fr).items():
                g = and_(nc, v[0])
                if g is not T.F:
                    out[k] = join(out.get(k), (g, v[1]))
        return self.flush(out)

    def s_return(self, s, S, fr):
        e = s.get("e")
        if e is not None:
            ret = self.p.ty(fr.fn["ret"])
            v = None
            if ret["c"] == "ref" and not self.p.is_entity(fr.fn["ret"]):
                v = self.try_lv(e, S, fr)
            if v is None:
                v = self.ev(e, S, fr)
                if not isinstance(v, T.Node):
                    v = self.as_fn(v, S, fr)
                v = self.fixb(v, fr.fn["ret"])
                if self.kind(fr.fn["ret"]) in "iuf":
                    v = T.asnum(v)
                v = self.coerce(v, e, fr.fn["ret"])
            S.s("$ret", v)
        return self.flush({"r": (T.T, S)})

    def s_break(self, s, S, fr):
        return {"b": (T.T, S)}

    def s_continue(self, s, S, fr):
        return {"c": (T.T, S)}

    def s_try(self, s, S, fr):
        out = self.exec(s.get("b"), S, fr)
        if "t" in out:
            self.opaque("try block")
        return out

    # switch: entry guards per case, executed with fall-through
    def s_switch(self, s, S, fr):
        out = {"n": (T.T, S)}
        if s.get("init"):
            out = self.exec(s["init"], S, fr)
        return self.seq(out, lambda S2: self.switch(s, S2, fr))

    def switch(self, s, S, fr):
        v = self.ev(s["c"], S, fr)
        kd = self.kind(s["c"]["t"])
        items = []

        def flat(x):
            if x is None:
                return
            if x["k"] == "case":
                items.append(("case", x["v"]))
                flat(x.get("b"))
            elif x["k"] == "default":
                items.append(("default", None))
                flat(x.get("b"))
            else:
                items.append(("stmt", x))
        body = s["b"]
        for x in (body["b"] if body["k"] == "block" else [body]):
            flat(x)
        guards = []
        allc = T.F
        for k, x in items:
            if k == "case":
                cv = self.ev(x, S, fr) if isinstance(x, dict) else num(int(x))
                g = eq(T.asnum(v), T.asnum(cv), kd if kd != "b" else "i")
                guards.append(g)
                allc = or_(allc, g)
            else:
                guards.append(None)
        out = {}
        cur = None
        hasdef = False
        for (k, x), g in zip(items, guards):
            if k == "case":
                cur = join(cur, (g, S.copy())) if g is not T.F else cur
            elif k == "default":
                hasdef = True
                g = not_(allc)
                if g is not T.F:
                    cur = join(cur, (g, S.copy()))
            elif cur is not None:
                res = self.exec(x, cur[1], fr)
                g0 = cur[0]
                cur = None
                for kk, vv in res.items():
                    gg = and_(g0, vv[0])
                    if gg is T.F:
                        continue
                    if kk == "n":
                        cur = (gg, vv[1])
                    else:
                        kk = "n" if kk == "b" else kk
                        out[kk] = join(out.get(kk), (gg, vv[1]))
        if cur is not None:
            out["n"] = join(out.get("n"), cur)
        if not hasdef:
            g = not_(allc)
            if g is not T.F:
                out["n"] = join(out.get("n"), (g, S.copy()))
        return self.flush(out)

    # ------------------------------------------------------------------ loops
    def s_for(self, s, S, fr):
        out = {"n": (T.T, S)}
        if s.get("init"):
            out = self.exec(s["init"], S, fr)

        def once(S1, k):
            x = T.F
            if s.get("c") is not None:
                x = not_(truth(self.ev(s["c"], S1, fr)))
            Sh = S1.copy()
            o = self.exec(s.get("b"), S1, fr)
            return x, Sh, self.after_body(o, s.get("inc"), fr)
        return self.seq(out, lambda S2: self.loop(S2, fr, once, id(s)))

    def after_body(self, o, inc, fr):
        n = join(o.pop("n", None), o.pop("c", None))
        if n is not None:
            if inc is not None:
                self.ev(inc, n[1], fr)
            o["n"] = n
        return o

    def s_while(self, s, S, fr):
        def once(S1, k):
            if s.get("cv"):
                self.declare(s["cv"], S1, fr)
            x = not_(truth(self.ev(s["c"], S1, fr)))
            Sh = S1.copy()
            o = self.exec(s.get("b"), S1, fr)
            return x, Sh, self.after_body(o, None, fr)
        return self.loop(S, fr, once, id(s))

    def s_do(self, s, S, fr):
        # body once, then while
        o = self.exec(s.get("b"), S, fr)
        br = o.pop("b", None)
        o = self.after_body(o, None, fr)
        w = {"k": "while", "c": s["c"], "b": s.get("b"), "l": s.get("l")}
        key = id(s)

        def once(S1, k):
            x = not_(truth(self.ev(s["c"], S1, fr)))
            Sh = S1.copy()
            oo = self.exec(s.get("b"), S1, fr)
            return x, Sh, self.after_body(oo, None, fr)
        out = self.seq(o, lambda S2: self.loop(S2, fr, once, key))
        if br is not None:
            out["n"] = join(out.get("n"), br)
        return out

    def s_rfor(self, s, S, fr):
        if s.get("init"):
            o = self.exec(s["init"], S, fr)
            S = o["n"][1]
        l = self.try_lv(s["range"], S, fr)
        if l is None:
            v = self.ev(s["range"], S, fr)
            l = self.temp(v, S)
        l = self.freeze(l)
        d = s["var"]
        t = self.p.ty(d["t"])
        ck = self.p.cls_kind(self.p.rec(s["range"]["t"]))
        distinct = ck in ("set", "map")
        if ck:
            T.note_kind(rd(S, l), self.nil(self.p.strip(s["range"]["t"])).a[0])

        def once(S1, k):
            C = rd(S1, l)
            n = size(C)
            T.note_range(k, n)
            if distinct:
                T.note_set(C)
            x = not_(gt(n, k, False, True))
            Sh = S1.copy()
            el = step(l, mk("si", k))
            if d.get("bind"):
                if t["c"] == "ref":
                    self.bindings(d, el, fr)
                else:
                    self.bindings(d, self.temp(rd(S1, el), S1), fr)
            elif t["c"] == "ref" and not self.p.is_entity(d["t"]):
                fr.env[d["id"]] = ("ref", el)
            else:
                root = "v%s@%d" % (d["id"], fr.id)
                S1.s(root, self.fixb(rd(S1, el), d["t"]))
                fr.env[d["id"]] = ("root", root)
            o = self.exec(s.get("b"), S1, fr)
            return x, Sh, self.after_body(o, None, fr)
        return self.loop(S, fr, once, id(s), size(rd(S, l)))

    def freeze(self, l):
        return l

    def loop(self, S, fr, once, key, n0=None):
        self.ldepth += 1
        try:
            return self.loop_(S, fr, once, key, n0)
        finally:
            self.ldepth -= 1

    def loop_(self, S, fr, once, key, n0):
        self.stats["loops"] += 1
        ck = (key, tuple(self.stack))
        plan = {}
        cached = self.loopcache.get(ck)
        hints = {}
        if cached:
            for r in cached:
                if r in S.r or r[:2] in ("H:", "G:", "A:"):
                    plan[r] = ("mu",) if False else None
            plan = {}
        env0 = dict(fr.env)
        for attempt in range(14):
            k = self.tmp("k" + (n0.h.hex()[:8] if n0 is not None else ""), "n")
            T.new_range(k)
            bound = {k.a[0]}
            used = {}
            cur = [""]

            def name(v, kind):
                h = cur[0] if cur[0][:2] in ("H:", "G:", "A:") else v.h.hex()[:10]
                used[h, kind] = used.get((h, kind), 0) + 1
                return self.tmp("%s.%d" % (h, used[h, kind]), kind)
            S1 = S.copy()
            insts = {}
            for r, t in sorted(plan.items(), key=lambda x: rkey(x[0])):
                mus = []
                v0 = S.g(r)
                cur[0] = r
                vin = tinst(t, v0, hints.get(r), mus, name)
                bound |= {m.a[0] for m in mus}
                insts[r] = (v0, vin)
                S1.s(r, vin)
            Sin = S1.copy()
            fr.env.clear()
            fr.env.update(env0)
            sv = self.throws
            self.throws = []
            x, Sh, outs = once(S1, k)
            inner = self.throws
            self.throws = sv
            if inner:
                # throws in loop conditions
                t = outs.get("t")
                for c, exc, X in inner:
                    X = X.copy()
                    X.s("$exc", mk("str", exc))
                    t = join(t, (c, X))
                outs["t"] = t
            n = outs.get("n")
            if n is None:
                mus = []
                break
            Sn = n[1]
            ok = True
            mus = []
            roots = set(Sin.r) | {r for r in Sn.r if r[:2] in ("H:", "G:", "A:")}
            for r in sorted(roots, key=rkey):
                vin = Sin.g(r)
                vn = Sn.r.get(r)
                if vn is None:
                    continue
                if r in plan:
                    v0 = insts[r][0]
                    got = []
                    if tmatch(plan[r], v0, vin, vn, got):
                        mus.extend(got)
                    else:
                        ok = False
                        plan[r] = tgen(plan[r], v0, vin, vn, bound) if attempt < 9 else ("mu",)
                    hints[r] = vn
                elif vn is not vin:
                    ok = False
                    plan[r] = tmpl(vin, vn, bound)
                    hints[r] = vn
            if ok and self.kinds_ok(mus):
                break
        else:
            raise Abort("loop plan does not stabilise")
        self.loopcache[ck] = set(plan)
        fr.env.clear()
        fr.env.update(env0)
        nx = not_(x)
        X = x
        for kd in ("b", "r", "t"):
            if kd in outs:
                X = or_(X, outs[kd][0])
        # exits
        res = {}
        items = []      # (kind, root or None, term)
        nstate = {}
        b = outs.get("b")
        gb = and_(nx, b[0]) if b is not None else T.F
        gn = or_(x, gb)
        base = set(S.r)
        if gn is not T.F:
            rts = {r for r in Sh.r if r in base or r[:2] in ("H:", "G:", "A:")}
            if b is not None:
                rts |= {r for r in b[1].r if r in base or r[:2] in ("H:", "G:", "A:")}
            for r in sorted(rts, key=rkey):
                v = Sh.g(r)
                if b is not None and gb is not T.F:
                    v = ite(x, v, b[1].g(r)) if x is not T.F else b[1].g(r)
                if v is not S.r.get(r):
                    items.append(("n", r, v))
        multi = "r" in outs or "t" in outs
        if multi:
            items.append(("n", None, gn))
        for kd in ("r", "t"):
            if kd in outs:
                g = and_(nx, outs[kd][0])
                items.append((kd, None, g))
                for r, v in sorted(outs[kd][1].r.items(), key=lambda x: rkey(x[0])):
                    if (r in base or r[:2] in ("H:", "G:", "A:") or r in ("$ret", "$exc")) and v is not S.r.get(r):
                        items.append((kd, r, v))
        vals = T.solve(k, None, X, mus, [v for _, _, v in items])
        guards = {"n": T.T if not multi else T.F}
        if gn is T.F:
            guards["n"] = T.F
        states = {"n": S.copy()}
        for (kd, r, _), v in zip(items, vals):
            if r is None:
                guards[kd] = v
                states.setdefault(kd, S.copy())
            else:
                states.setdefault(kd, S.copy()).s(r, v)
        for kd, g in guards.items():
            if g is not T.F:
                res[kd] = (g, states[kd])
        return res

    def kinds_ok(self, mus):
        return True


def _isloc(n):
    return n.op == "loc" or (n.op == "ite" and _isloc(n.a[1]))


def _isiter(n):
    if n.op == "ite":
        return _isiter(n.a[1]) and _isiter(n.a[2])
    return n.op == "mk" and n.a[0] in ("iter", "riter")
