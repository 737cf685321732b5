"""Meaning of the standard library operations used by the analysed code."""
import terms as T
from terms import (ite, not_, and_, or_, add, sub, mul, neg, num, fresh, gt, eq, size, contains, sl, st, mk, truth,
                   UNDEF, ZERO, ONE)
from program import PTR
import evalr
from evalr import Abort, Closure, Functor, rd, wr, loc, step, _isiter


def it(l, p):
    return T.aggregate("iter", l, p)


def rit(l, p):
    return T.aggregate("riter", l, p)


def real(args):
    return [a for a in args if not a.get("defarg")]


class Range:
    """[b, e) over a container location"""

    def __init__(self, ev, b, e, S):
        if b.op != "mk" or e.op != "mk" or b.a[0] != e.a[0]:
            raise Abort("iterator range")
        self.rev = b.a[0] == "riter"
        self.l = b.a[1]
        self.lo = b.a[2]
        self.n = sub(e.a[2], b.a[2])
        self.b = b

    def idx(self, S, k):
        i = add(self.lo, k)
        if self.rev:
            i = sub(sub(size(rd(S, self.l)), ONE), i)
        return i

    def el(self, S, k):
        return step(self.l, mk("si", self.idx(S, k)))

    def at(self, S, k):
        return rd(S, self.el(S, k))

    def value(self, S):
        C = rd(S, self.l)
        r = T.rng(C, self.lo, add(self.lo, self.n))
        return mk("rev", r) if self.rev else r

    def pos(self, k):
        return T.aggregate(self.b.a[0], self.l, add(self.lo, k))


def float_elements(p, e):
    """whether an iterator expression designates floating point elements"""
    x = p.strip(e["t"])
    if x["c"] == "rec" and x.get("a") and "t" in x["a"][0]:
        x = p.strip(x["a"][0]["t"])
    if x["c"] == "ptr":
        x = p.strip(x["p"])
    return x["c"] == "float"


def mkrange(ev, b, e, S):
    if b.op == "ite" or e.op == "ite":
        raise Abort("conditional range")
    return Range(ev, b, e, S)


def bindk(ev, R, S):
    k = ev.tmp("k" + R.n.h.hex()[:8], "n")
    T.note_range(k, R.n)
    if R.lo is ZERO and not R.rev:
        T.note_range(k, size(rd(S, R.l)))
    return k


def elem_type(ev, e):
    """type of the elements an iterator expression designates"""
    x = ev.p.strip(e["t"])
    for i in range(3):
        a = ev.p.targ(x, 0)
        if a is None:
            return None
        y = ev.p.strip(a)
        if y["c"] == "rec" and "iterator" in (y.get("r") or ""):
            x = y
            continue
        if y["c"] == "ptr":
            return y["p"]
        return a
    return None


def pure(ev, f, vals, S):
    S2 = S.copy()
    return ev.apply(f, vals, S2)


# ------------------------------------------------------------- free functions
MATH = {"sqrt", "cbrt", "fabs", "abs", "pow", "floor", "ceil", "round", "exp", "log", "hypot", "sin", "cos", "isnan",
        "isfinite", "trunc", "fma", "fmin", "fmax", "lround"}


def free_call(ev, e, S, fr):
    q = e.get("q") or ""
    n = e.get("n") or q.split("::")[-1]
    args = e.get("args", [])
    if q == "" or "fn" in e and not q:
        return ev.opaque("indirect call")
    if q.startswith("__builtin_") or n.startswith("__builtin_"):
        n = n.replace("__builtin_", "")
    if n in ("move", "forward", "as_const", "ref", "cref") and len(args) == 1:
        return ev.ev(args[0], S, fr)
    if n in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
        return ev.ev(args[0], S, fr)
    if n in ("addressof",):
        return mk("addr", ev.lv(args[0], S, fr))
    if n in MATH:
        vs = [T.asnum(ev.ev(a, S, fr)) for a in args]
        if n == "fabs":
            n = "abs"
        if n in ("fmin", "fmax"):
            return minmax(n[1:], vs[0], vs[1], True)
        if n == "pow" and vs[1].op == "num" and vs[1].a[0] in (2, 3):
            r = vs[0]
            for _ in range(int(vs[1].a[0]) - 1):
                r = mul(r, vs[0])
            return r
        return T.func(n, *vs)
    if n in ("min", "max"):
        if len(args) == 1:
            v = ev.ev(args[0], S, fr)
            t = ev.p.targ(ev.p.strip(args[0]["t"]), 0)
            xs = []
            while isinstance(v, T.Node) and v.op == "push":
                xs.append(T.asnum(v.a[1]))
                v = v.a[0]
            if not xs or v.op != "nil" or t is None or ev.kind(t) == "o":
                return ev.opaque("min of list")
            r = xs.pop()
            while xs:
                r = minmax(n, r, xs.pop(), ev.kind(t) == "f")
            return r
        vs = [ev.ev(a, S, fr) for a in args]
        k = ev.kind(args[0]["t"])
        if len(vs) == 3:
            return ev.opaque("min with comparison")
        if k == "o":
            c = ev.cmp("<", vs[1], vs[0], args[1]["t"], args[0]["t"])
            d = ev.cmp("<", vs[0], vs[1], args[0]["t"], args[1]["t"])
            return ite(c, vs[1], vs[0]) if n == "min" else ite(d, vs[1], vs[0])
        return minmax(n, T.asnum(vs[0]), T.asnum(vs[1]), k == "f")
    if n == "clamp" and len(args) == 3:
        vs = [T.asnum(ev.ev(a, S, fr)) for a in args]
        f = ev.kind(args[0]["t"]) == "f"
        return minmax("min", minmax("max", vs[0], vs[1], f), vs[2], f)
    if n in ("make_shared", "make_unique"):
        pt = e["ta"][0]["t"]
        return allocate(ev, pt, args, S, fr)
    if n == "make_pair":
        return T.aggregate("pair", val(ev, args[0], S, fr), val(ev, args[1], S, fr))
    if n in ("make_tuple", "tie", "forward_as_tuple"):
        return T.aggregate("tuple", *[val(ev, a, S, fr) for a in args])
    if n == "make_optional":
        return T.some(ev.ev(args[0], S, fr))
    if n == "get" and len(args) == 1:
        l = ev.try_lv(e, S, fr)
        if l is not None:
            return rd(S, l)
        i = int(e["ta"][0]["v"]) if e.get("ta") and "v" in e["ta"][0] else 0
        return T.fld(ev.ev(args[0], S, fr), ("first", "second")[i])
    if n == "to_string":
        return mk("str", "s")
    if n in ("swap", "iter_swap"):
        a, b = ev.lv(args[0], S, fr), ev.lv(args[1], S, fr)
        if n == "iter_swap":
            a, b = ev.deref(rd(S, a), S), ev.deref(rd(S, b), S)
        va, vb = rd(S, a), rd(S, b)
        wr(S, a, vb)
        wr(S, b, va)
        return UNDEF
    if n == "exchange":
        l = ev.lv(args[0], S, fr)
        v = rd(S, l)
        wr(S, l, ev.fixb(ev.ev(args[1], S, fr), args[0]["t"]))
        return v
    if n in ("back_inserter", "front_inserter", "inserter"):
        l = ev.lv(args[0], S, fr)
        k = ev.p.cls_kind(ev.p.rec(args[0]["t"]))
        if n == "inserter":
            p = ev.ev(args[1], S, fr)
            if k == "seq":
                if not (_isiter(p) and p.op == "mk" and p.a[2] is size(rd(S, l))):
                    return ev.opaque("inserter")
        return T.aggregate("outit", l, mk("str", "f" if n == "front_inserter" else k))
    if n in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "crbegin", "crend", "size", "empty") and len(args) == 1:
        l = ev.lv(args[0], S, fr)
        return basic(ev, n, l, S, ev.p.cls_kind(ev.p.rec(args[0]["t"])))
    if n in ("distance",):
        a, b = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        return iterdiff(b, a)
    if n in ("next", "prev"):
        a = ev.ev(args[0], S, fr)
        d = T.asnum(ev.ev(args[1], S, fr)) if len(args) > 1 else ONE
        return ev.advance(a, d if n == "next" else neg(d))
    if n == "advance":
        l = ev.lv(args[0], S, fr)
        wr(S, l, ev.advance(rd(S, l), T.asnum(ev.ev(args[1], S, fr))))
        return UNDEF
    if n == "make_reverse_iterator":
        v = ev.ev(args[0], S, fr)
        return rit(v.a[1], sub(size(rd(S, v.a[1])), v.a[2]))
    try:
        ev.ldepth += 1
        try:
            r = algorithm(ev, n, e, args, S, fr)
        finally:
            ev.ldepth -= 1
    except Abort as x:
        return ev.opaque("%s: %s" % (n, x))
    if r is not None:
        return r
    if n in ("operator<<", "endl", "__assert_fail", "abort", "exit", "terminate"):
        return UNDEF
    vs = []
    for a in args:
        v = ev.ev(a, S, fr)
        vs.append(v)
    return ev.opaque("call of " + q, *vs)


def val(ev, a, S, fr):
    v = ev.ev(a, S, fr)
    if not isinstance(v, T.Node):
        v = ev.as_fn(v, S, fr)
    return v


def minmax(n, a, b, isf):
    """symmetric in its arguments (ties have the same value)"""
    if a is b:
        return a
    x, y = (a, b) if a.h <= b.h else (b, a)
    c = gt(x, y, isf)
    return ite(c, x, y) if n == "max" else ite(c, y, x)


def iterdiff(b, a):
    if a.op == "ite":
        return ite(a.a[0], iterdiff(b, a.a[1]), iterdiff(b, a.a[2]))
    if b.op == "ite":
        return ite(b.a[0], iterdiff(b.a[1], a), iterdiff(b.a[2], a))
    if a.op == "mk" and b.op == "mk":
        return sub(b.a[2], a.a[2])
    raise Abort("iterator difference")


def kind_of_cmp(ev, f, S, t):
    """Recognises an ordering of the form key(x) < key(y) (or >); returns (kind, key function)."""
    if f is None:
        isb = ev.kind(t) if t is not None else "o"
        if isb == "o":
            return None
        return "less", lambda v: T.asnum(v)
    x, y = ev.tmp("c1"), ev.tmp("c2")
    r = pure(ev, f, [x, y], S)
    if not isinstance(r, T.Node):
        return None
    r = truth(r)
    sgn = True
    if r.op == "ite" and r.a[1] is T.F and r.a[2] is T.T:
        sgn = False
        r = r.a[0]
    elif r.op == "ite" and r.a[1] is T.T and r.a[2] is T.F:
        r = r.a[0]
    # strict comparison: L > 0 or not(L >= 0) [float], L > 0 or not (L > -1) [int]
    if r.op == "fgt" and sgn and r.a[1] == 0:
        L = r.a[0]
    elif r.op == "fge" and not sgn and r.a[1] == 0:
        L = neg(r.a[0])
    elif r.op == "gt" and sgn and r.a[1] == 0:
        L = r.a[0]
    elif r.op == "gt" and not sgn and r.a[1] == -1:
        L = neg(r.a[0])
    else:
        return None
    # L > 0 with L = key(y) - key(x) means less
    ky = ZERO
    kx = ZERO
    P = L.a if L.op == "poly" else (L,)
    for m in P:
        hx, hy = x.a[0] in m.bv, y.a[0] in m.bv
        if hx and hy or not (hx or hy):
            return None
        if hx:
            kx = add(kx, m)
        else:
            ky = add(ky, m)
    if T.subst(ky, {y.a[0]: x}) is not neg(kx):
        return None
    # sign: is ky the key or its negative?
    lead = ky.a[0] if ky.op == "poly" else ky
    if lead.op == "mono" and lead.a[0] < 0:
        key = neg(ky)
        kind = "greater"
    else:
        key = ky
        kind = "less"
    return kind, lambda v: T.subst(key, {y.a[0]: v})


def out_write(ev, o, S, k, v):
    """writes v through output iterator o at step k; o is updated by the caller for plain iterators"""
    if o.op == "mk" and o.a[0] == "outit":
        l = o.a[1]
        w = o.a[2].a[0]
        C = rd(S, l)
        if w == "f":
            wr(S, l, T.pushf(C, v))
        elif w == "seq":
            wr(S, l, T.push(C, v))
        elif w == "set":
            wr(S, l, T.ins(C, v))
        else:
            wr(S, l, map_insert(C, T.fld(v, "first"), T.fld(v, "second")))
        return
    if o.op == "mk" and o.a[0] == "iter":
        wr(S, step(o.a[1], mk("si", add(o.a[2], k))), v)
        return
    raise Abort("output iterator")


def map_insert(M, k, v):
    return ite(contains(M, k), M, T.put(M, k, v))


def run_loop(ev, R, S, fr, body, key):
    """executes body(S, k) for each position of the range"""
    n = R.n

    def once(S1, k):
        T.note_range(k, n)
        if R.lo is ZERO and not R.rev:
            T.note_range(k, size(rd(S1, R.l)))
        x = not_(gt(n, k, False, True))
        Sh = S1.copy()
        g = body(S1, k)
        o = {"n": (T.T, S1)}
        if g is not None:
            o = g
        return x, Sh, o
    ev.ldepth -= 1
    out = ev.loop(S, fr, once, key, n)
    ev.ldepth += 1
    if "t" in out:
        t = out["t"]
        for exc, g in ev.split_exc(t):
            ev.throws.append((g, exc, t[1]))
    if "n" in out:
        S.r = out["n"][1].r


def algorithm(ev, n, e, args, S, fr):
    if n in ("min_element", "max_element"):
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        f = ev.callable(args[2], S, fr) if len(args) > 2 else None
        kk = kind_of_cmp(ev, f, S, elem_type(ev, args[0]))
        k = bindk(ev, R, S)
        if kk is None:
            if f is None:
                return R.pos(mk(n, R.value(S)))
            x, y = ev.tmp("c1"), ev.tmp("c2")
            r = pure(ev, f, [x, y], S)
            if not isinstance(r, T.Node):
                return None
            return R.pos(mk(n, R.value(S), T.close("fn", [], [x, y], [truth(r)])))
        kind = "min" if (n == "min_element") == (kk[0] == "less") else "max"
        return R.pos(T.argm(kind, R.n, k, kk[1](R.at(S, k))))
    if n in ("count", "count_if", "find", "find_if", "find_if_not", "any_of", "all_of", "none_of"):
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        k = bindk(ev, R, S)
        x = R.at(S, k)
        if n in ("count", "find"):
            v = ev.ev(args[2], S, fr)
            t = elem_type(ev, args[0])
            p = ev.cmp("==", x, v, t if t is not None else args[2]["t"], args[2]["t"])
        else:
            f = ev.callable(args[2], S, fr)
            p = pure(ev, f, [("loc", R.el(S, k))], S)
            if not isinstance(p, T.Node):
                return None
            p = truth(p)
        if n in ("count", "count_if"):
            return T.sum_(R.n, k, T.asnum(p))
        if n in ("find", "find_if"):
            return R.pos(T.first(R.n, k, p))
        if n == "find_if_not":
            return R.pos(T.first(R.n, k, not_(p)))
        if n == "any_of":
            return T.exists(R.n, k, p)
        if n == "none_of":
            return not_(T.exists(R.n, k, p))
        return not_(T.exists(R.n, k, not_(p)))
    if n in ("accumulate", "reduce"):
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        init = ev.ev(args[2], S, fr) if len(args) > 2 else ZERO
        if len(args) > 3:
            f = ev.callable(args[3], S, fr)
            acc = ev.temp(init, S)

            def body(S1, k):
                wr(S1, acc, ev.apply(f, [rd(S1, acc), ("loc", R.el(S1, k))], S1))
            run_loop(ev, R, S, fr, body, id(e))
            return rd(S, acc)
        k = bindk(ev, R, S)
        v = add(init, T.sum_(R.n, k, R.at(S, k)))
        if ev.p.strip(e["t"])["c"] in ("int", "uint", "bool") and float_elements(ev.p, args[0]):
            v = mk("accumulate-integral", v)
        return v
    if n in ("inner_product", "transform_reduce"):
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        two = n == "inner_product" or len(args) == 4 or len(args) == 6
        rest = args[3:] if two else args[2:]
        R2 = None
        if two:
            b2 = ev.ev(args[2], S, fr)
            if not _isiter(b2) or b2.op != "mk":
                return None
            R2 = Range(ev, b2, ev.advance(b2, R.n), S)
        if float_elements(ev.p, args[0]) and ev.p.strip(e["t"])["c"] != "float":
            return None
        fs = [ev.callable(a, S, fr) for a in rest[1:]]
        acc = ev.temp(ev.ev(rest[0], S, fr), S)

        def body(S1, k):
            xs = [("loc", r.el(S1, k)) for r in (R, R2) if r is not None]
            if fs:
                x = ev.apply(fs[1], xs, S1)
                wr(S1, acc, ev.apply(fs[0], [rd(S1, acc), x], S1))
            else:
                wr(S1, acc, add(rd(S1, acc), mul(rd(S1, xs[0][1]), rd(S1, xs[1][1]))))
        run_loop(ev, R, S, fr, body, id(e))
        return rd(S, acc)
    if n in ("replace", "replace_if"):
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        v = ev.ev(args[3], S, fr)
        f = ev.callable(args[2], S, fr) if n == "replace_if" else None
        o = ev.ev(args[2], S, fr) if f is None else None

        def body(S1, k):
            x = R.at(S1, k)
            if f is None:
                t = elem_type(ev, args[0])
                c = ev.cmp("==", x, o, t if t is not None else args[2]["t"], args[2]["t"])
            else:
                c = truth(ev.apply(f, [("loc", R.el(S1, k))], S1))
            wr(S1, R.el(S1, k), ite(c, v, x))
        run_loop(ev, R, S, fr, body, id(e))
        return UNDEF
    if n == "for_each":
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        f = ev.callable(args[2], S, fr)

        def body(S1, k):
            ev.apply(f, [("loc", R.el(S1, k))], S1)
        run_loop(ev, R, S, fr, body, id(e))
        return UNDEF
    if n in ("copy", "copy_if", "replace_copy_if", "remove_copy_if", "transform", "copy_n"):
        b = ev.ev(args[0], S, fr)
        if n == "copy_n":
            en = ev.advance(b, T.asnum(ev.ev(args[1], S, fr)))
        else:
            en = ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        if n == "transform" and len(args) == 5:
            b2 = ev.ev(args[2], S, fr)
            if not _isiter(b2) or b2.op != "mk":
                return None
            R2 = Range(ev, b2, ev.advance(b2, R.n), S)
            o = ev.ev(args[3], S, fr)
            f = ev.callable(args[4], S, fr)

            def body(S1, k):
                out_write(ev, o, S1, k, ev.apply(f, [("loc", R.el(S1, k)), ("loc", R2.el(S1, k))], S1))
            run_loop(ev, R, S, fr, body, id(e))
            return end_out(ev, o, R.n)
        o = ev.ev(args[2], S, fr)
        f = ev.callable(args[3], S, fr) if len(args) > 3 else None
        v = ev.ev(args[4], S, fr) if len(args) > 4 else None
        if o.op == "mk" and o.a[0] == "iter" and n in ("copy_if", "remove_copy_if"):
            return None

        def body(S1, k):
            x = R.at(S1, k)
            if n in ("copy", "copy_n"):
                out_write(ev, o, S1, k, x)
            elif n == "transform":
                out_write(ev, o, S1, k, ev.apply(f, [("loc", R.el(S1, k))], S1))
            else:
                c = truth(ev.apply(f, [("loc", R.el(S1, k))], S1))
                if n == "replace_copy_if":
                    out_write(ev, o, S1, k, ite(c, v, x))
                else:
                    if n == "remove_copy_if":
                        c = not_(c)
                    S2 = S1.copy()
                    out_write(ev, o, S2, k, x)
                    S1.r = evalr.merge(c, S2, S1.copy()).r
        if n in ("copy", "copy_n") and o.op == "mk" and o.a[0] == "outit" and o.a[2].a[0] in ("seq", "set"):
            C = rd(S, o.a[1])
            V = R.value(S)
            wr(S, o.a[1], T.append(C, V) if o.a[2].a[0] == "seq" else T.union(C, V))
            return o
        run_loop(ev, R, S, fr, body, id(e))
        return end_out(ev, o, R.n)
    if n in ("fill", "fill_n", "iota", "generate"):
        b = ev.ev(args[0], S, fr)
        en = ev.advance(b, T.asnum(ev.ev(args[1], S, fr))) if n == "fill_n" else ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        if n == "generate":
            return None
        v = ev.ev(args[2], S, fr)
        t = elem_type(ev, args[0])
        if t is not None:
            v = ev.fixb(v, t)
        C = rd(S, R.l)
        if n in ("fill", "fill_n") and R.lo is ZERO and R.n is size(C):
            wr(S, R.l, T.fill(R.n, v))
            return UNDEF

        def body(S1, k):
            wr(S1, R.el(S1, k), v if n != "iota" else add(v, k))
        run_loop(ev, R, S, fr, body, id(e))
        return UNDEF
    if n in ("sort", "stable_sort"):
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        C = rd(S, R.l)
        if not (R.lo is ZERO and R.n is size(C)):
            return None
        f = ev.callable(args[2], S, fr) if len(args) > 2 else None
        wr(S, R.l, T.sort(C, ordering(ev, f, S, elem_type(ev, args[0]))))
        return UNDEF
    if n == "reverse":
        b, en = ev.ev(args[0], S, fr), ev.ev(args[1], S, fr)
        R = mkrange(ev, b, en, S)
        C = rd(S, R.l)
        if not (R.lo is ZERO and R.n is size(C)):
            return None
        wr(S, R.l, mk("rev", C))
        return UNDEF
    return None


def ordering(ev, f, S, t):
    kk = kind_of_cmp(ev, f, S, t)
    if kk is not None:
        z = ev.tmp("c3")
        return T.close("fn", [kk[0]], [z], [kk[1](z)])
    if f is None:
        return mk("str", "less")
    x, y = ev.tmp("c1"), ev.tmp("c2")
    r = pure(ev, f, [x, y], S)
    return T.close("fn", [], [x, y], [truth(r)])


def end_out(ev, o, n):
    if o.a[0] == "iter":
        return ev.advance(o, n)
    return o


# --------------------------------------------------------------- construction
def allocate(ev, pt, args, S, fr):
    t = ev.p.strip(pt)
    if t["c"] == "rec" and t["r"] in ev.p.entities:
        if len(args) == 1 and ev.p.rec(args[0]["t"]) == t["r"]:
            return ev.construct_user(t, None, args, S, fr, copy=True)
        f = ev.find_ctor(t, len(args))
        return ev.construct_user(t, f["id"] if f else None, args, S, fr)
    name = ev.p.plain(t)
    v = make(ev, pt, args, S, fr)
    root = "A:" + name
    p = mk("new", "*" + name, S.g(root))
    S.s(root, add(S.g(root), ONE))
    H = "H:*" + name
    S.s(H, st(S.g(H), p, v))
    return p


def make(ev, t, args, S, fr):
    """value of type t built from argument expressions"""
    x = ev.p.strip(t)
    args = real(args)
    if x["c"] != "rec":
        if not args:
            return ev.default(t)
        v = val(ev, args[0], S, fr)
        v = ev.fixb(v, t)
        if ev.kind(t) in "iuf":
            v = T.asnum(v)
        return v
    if len(args) == 1 and ev.p.rec(args[0]["t"]) == x["r"]:
        return val(ev, args[0], S, fr)
    if x["r"].startswith(("std::", "__gnu")):
        return construct(ev, x, args, S, fr)
    f = ev.find_ctor(x, len(args))
    return ev.construct_user(x, f["id"] if f else None, args, S, fr)


def construct(ev, x, args, S, fr, e=None):
    r = x["r"]
    args = real(args)
    e = e or {}
    k = ev.p.cls_kind(r)
    if k:
        if not args:
            return ev.nil(x)
        if len(args) == 1 and (e.get("copy") or e.get("mv") or ev.p.rec(args[0]["t"]) == r):
            return ev.ev(args[0], S, fr)
        first = args[0]
        islist = e.get("stdlist") or ev.p.rec(first["t"]) == "std::initializer_list"
        if islist:
            v = ev.ev(first, S, fr)
            if k == "seq":
                return v
            return from_list(ev, x, v, k)
        v = ev.ev(first, S, fr)
        if isinstance(v, T.Node) and _isiter(v):
            w = ev.ev(args[1], S, fr)
            if v.op != "mk" or w.op != "mk":
                return ev.opaque("conditional range")
            V = Range(ev, v, w, S).value(S)
            if k == "seq":
                return T.append(T.nil("seq"), V)
            if k == "set":
                return T.union(ev.nil(x), V)
            return ev.opaque("map from range")
        if k == "seq":
            if r in ("std::queue", "std::stack"):
                return v
            if len(args) == 1:
                return T.fill(T.asnum(v), ev.default(ev.p.targ(x, 0)))
            w = val(ev, args[1], S, fr)
            w = ev.fixb(w, ev.p.targ(x, 0))
            return T.fill(T.asnum(v), w)
        return ev.nil(x)
    if r == "std::optional":
        if not args:
            return T.nullopt()
        v = val(ev, args[0], S, fr)
        ar = ev.p.rec(args[0]["t"])
        if ar in ("std::optional", "std::nullopt_t"):
            return v
        return T.some(v)
    if r == "std::nullopt_t":
        return T.nullopt()
    if r == "std::pair":
        if len(args) == 2:
            a, b = val(ev, args[0], S, fr), val(ev, args[1], S, fr)
            t0, t1 = ev.p.targ(x, 0), ev.p.targ(x, 1)
            return T.aggregate("pair", conv(ev, a, t0), conv(ev, b, t1))
        if len(args) == 1:
            return ev.ev(args[0], S, fr)
        return ev.default_t(x) if hasattr(ev, "default_t") else T.aggregate(
            "pair", ev.default(ev.p.targ(x, 0)), ev.default(ev.p.targ(x, 1)))
    if r in PTR:
        if not args:
            return mk("null")
        return val(ev, args[0], S, fr)
    if r == "std::function":
        if not args:
            return mk("null")
        v = ev.ev(args[0], S, fr)
        if isinstance(v, T.Node):
            if ev.p.rec(args[0]["t"]) == "std::function" or v.op in ("null", "fn"):
                return v
            y = ev.p.strip(args[0]["t"])
            if y["c"] == "rec" and not y["r"].startswith("std::"):
                return functor_fn(ev, Functor(y, ev.temp(v, S)), S)
            return v
        return ev.as_fn(v, S, fr)
    if "iterator" in r:
        if len(args) == 1:
            v = ev.ev(args[0], S, fr)
            if r == "std::reverse_iterator" and isinstance(v, T.Node) and v.op == "mk" and v.a[0] == "iter":
                return rit(v.a[1], sub(size(rd(S, v.a[1])), v.a[2]))
            return v
        return UNDEF
    if len(args) == 1 and (e.get("copy") or e.get("mv")):
        return ev.ev(args[0], S, fr)
    if "basic_string" in r or "error" in r or "exception" in r or "argument" in r:
        return mk("str", "s")
    vs = [val(ev, a, S, fr) for a in args]
    return mk("obj", x["s"], *vs)


def functor_fn(ev, f, S):
    for g in ev.p.funcs.values():
        if g["n"] == "operator()" and g.get("cls") == f.t.get("r"):
            ev.ldepth += 1
            temps = [ev.tmp("f%d" % i, "b" if ev.kind(p["t"]) == "b" else None) for i, p in enumerate(g["params"])]
            r = pure(ev, f, temps, S)
            ev.ldepth -= 1
            return T.close("fn", [], temps, [r])
    return ev.opaque("functor as function")


def conv(ev, v, t):
    if t is None:
        return v
    v = ev.fixb(v, t)
    if ev.kind(t) in "iuf":
        v = T.asnum(v)
    return v


def from_list(ev, x, v, k):
    """set or map from the pushes of an initialiser list"""
    items = []
    while v.op == "push":
        items.append(v.a[1])
        v = v.a[0]
    if v.op != "nil":
        return ev.opaque("initialiser list")
    r = ev.nil(x)
    for i in reversed(items):
        if k == "set":
            r = T.ins(r, i)
        else:
            r = map_insert(r, T.fld(i, "first"), T.fld(i, "second"))
    return r


# ------------------------------------------------------------ member functions
def basic(ev, n, l, S, kind=None):
    n2 = n[1:] if n in ("cbegin", "cend", "crbegin", "crend") else n
    if n2 == "begin":
        if kind in ("set", "map"):
            T.note_set(rd(S, l))
        return it(l, ZERO)
    if n2 == "end":
        return it(l, size(rd(S, l)))
    if n2 == "rbegin":
        return rit(l, ZERO)
    if n2 == "rend":
        return rit(l, size(rd(S, l)))
    if n2 in ("size", "length"):
        return size(rd(S, l))
    if n2 == "empty":
        return not_(gt(size(rd(S, l)), ZERO))
    return None


def member_call(ev, e, S, fr):
    n = e["n"]
    o = e["o"]
    args = e.get("args", [])
    x = ev.obj_type(e)
    if e.get("arrow") and o["k"] == "opcall" and o.get("op") == "->":
        x = ev.p.strip(o["t"])
        if x["c"] == "ptr":
            x = ev.p.strip(x["p"])
    r = x.get("r") or e.get("cls") or ""
    if "_Bit_reference" in r or "_Bit_reference" in (e.get("q") or ""):
        if n == "operator bool":
            return truth(ev.ev(o, S, fr))
        if n == "flip":
            l = ev.lv(o, S, fr)
            wr(S, l, not_(truth(rd(S, l))))
            return UNDEF
    try:
        return member(ev, e, n, o, args, x, r, S, fr)
    except Abort as z:
        return ev.opaque("%s::%s: %s" % (r, n, z))


def member(ev, e, n, o, args, x, r, S, fr):
    k = ev.p.cls_kind(r)
    args = real(args)
    if k:
        l = ev.obj_loc(e, S, fr)
        v = container(ev, e, n, l, args, x, r, k, S, fr)
        if v is not None:
            return v
        for a in args:
            ev.ev(a, S, fr)
        op = ev.opaque("%s::%s" % (r, n))
        wr(S, l, op)
        return op
    if r == "std::optional":
        if n == "has_value" or n == "operator bool":
            return T.has(ev.ev(o, S, fr))
        if n == "value":
            return T.val(ev.ev(o, S, fr))
        if n == "value_or":
            v = ev.ev(o, S, fr)
            return ite(T.has(v), T.val(v), conv(ev, ev.ev(args[0], S, fr), ev.p.targ(x, 0)))
        if n == "reset":
            wr(S, ev.lv(o, S, fr), T.nullopt())
            return UNDEF
        if n == "emplace":
            v = make(ev, ev.p.targ(x, 0), args, S, fr)
            wr(S, ev.lv(o, S, fr), T.some(v))
            return v
    if r in PTR:
        if n in ("get", "lock"):
            return ev.ev(o, S, fr)
        if n == "operator bool":
            return not_(eq(ev.ev(o, S, fr), mk("null"), "o"))
        if n == "reset":
            l = ev.lv(o, S, fr)
            wr(S, l, ev.ev(args[0], S, fr) if args else mk("null"))
            return UNDEF
        if n == "release":
            l = ev.lv(o, S, fr)
            v = rd(S, l)
            wr(S, l, mk("null"))
            return v
        if n == "operator=":
            l = ev.lv(o, S, fr)
            wr(S, l, ev.ev(args[0], S, fr))
            return rd(S, l)
    if r == "std::function":
        if n == "operator bool":
            return not_(eq(ev.ev(o, S, fr), mk("null"), "o"))
        if n == "operator()":
            return call_function(ev, o, args, S, fr)
        if n == "operator=":
            v = ev.ev(args[0], S, fr)
            wr(S, ev.lv(o, S, fr), v if isinstance(v, T.Node) else ev.as_fn(v, S, fr))
            return UNDEF
    if r == "std::pair":
        if n == "swap":
            a, b = ev.lv(o, S, fr), ev.lv(args[0], S, fr)
            va, vb = rd(S, a), rd(S, b)
            wr(S, a, vb)
            wr(S, b, va)
            return UNDEF
        if n == "operator=":
            v = ev.ev(args[0], S, fr)
            wr(S, ev.lv(o, S, fr), v)
            return v
    if "Node_handle" in r or "_Node_handle" in (e.get("q") or ""):
        v = ev.ev(o, S, fr)
        if n == "key":
            return T.fld(v, "first")
        if n == "mapped":
            return T.fld(v, "second")
        if n == "value":
            return v
        if n == "empty":
            return T.F
    if "iterator" in r:
        v = ev.ev(o, S, fr)
        if n == "base" and v.op == "mk" and v.a[0] == "riter":
            return it(v.a[1], sub(size(rd(S, v.a[1])), v.a[2]))
        if n == "base":
            return v
    if n == "operator=" and args:
        v = val(ev, args[0], S, fr)
        wr(S, ev.lv(o, S, fr), v)
        return v
    if "ostream" in r or "basic_string" in r or "exception" in r or "error" in r or "argument" in r:
        return UNDEF
    for a in args:
        ev.ev(a, S, fr)
    return ev.opaque("%s::%s" % (r, n))


def container(ev, e, n, l, args, x, r, k, S, fr):
    if n in ("begin", "cbegin", "end", "cend", "rbegin", "size"):
        T.note_kind(rd(S, l), ev.nil(x).a[0])
    b = basic(ev, n, l, S, k) if not args else None
    if b is not None:
        return b
    et = ev.p.targ(x, 0)
    C = rd(S, l)
    if n in ("reserve", "shrink_to_fit", "rehash", "max_load_factor"):
        return UNDEF
    if n == "capacity":
        return ev.opaque("capacity")
    if n == "clear":
        wr(S, l, ev.nil(x))
        return UNDEF
    if n == "swap":
        l2 = ev.lv(args[0], S, fr)
        v2 = rd(S, l2)
        wr(S, l2, C)
        wr(S, l, v2)
        return UNDEF
    if n == "operator=":
        a = args[0]
        v = ev.ev(a, S, fr)
        if ev.p.rec(a["t"]) == "std::initializer_list" and k != "seq":
            v = from_list(ev, x, v, k)
        wr(S, l, v)
        return v
    if k == "seq":
        if n in ("push_back", "emplace_back") or (r in ("std::queue", "std::stack") and n in ("push", "emplace")):
            v = make(ev, et, args, S, fr)
            wr(S, l, T.push(rd(S, l), v))
            return UNDEF
        if n in ("push_front", "emplace_front"):
            v = make(ev, et, args, S, fr)
            wr(S, l, T.pushf(rd(S, l), v))
            return UNDEF
        if n == "pop_back" or r == "std::stack" and n == "pop":
            wr(S, l, T.popb(C))
            return UNDEF
        if n == "pop_front" or n == "pop":
            wr(S, l, T.popf(C))
            return UNDEF
        if n == "at":
            return sl(C, ev.ev(args[0], S, fr))
        if n == "front" or n == "top" and r != "std::stack":
            return sl(C, ZERO)
        if n in ("back", "top"):
            return sl(C, sub(size(C), ONE))
        if n == "resize":
            nn = T.asnum(ev.ev(args[0], S, fr))
            v = conv(ev, val(ev, args[1], S, fr), et) if len(args) > 1 else ev.default(et)
            wr(S, l, T.resize(C, nn, v))
            return UNDEF
        if n == "assign":
            a = ev.ev(args[0], S, fr)
            if len(args) == 2:
                bb = val(ev, args[1], S, fr)
                if isinstance(a, T.Node) and _isiter(a):
                    V = T.append(T.nil("seq"), mkrange(ev, a, bb, S).value(S))
                else:
                    V = T.fill(T.asnum(a), conv(ev, bb, et))
            else:
                V = a
            wr(S, l, V)
            return UNDEF
        if n in ("insert", "emplace"):
            p = ev.ev(args[0], S, fr)
            if not _isiter(p) or p.op != "mk":
                return None
            i = p.a[2]
            if p.a[0] == "riter":
                return None
            if len(args) == 2:
                if ev.p.rec(args[1]["t"]) == "std::initializer_list":
                    V = ev.ev(args[1], S, fr)
                    C = rd(S, l)
                    wr(S, l, T.append(C, V) if i is size(C) else mk("seqinsr", C, i, V))
                else:
                    v = make(ev, et, args[1:], S, fr)
                    wr(S, l, T.seqins(rd(S, l), i, v))
                return it(l, i)
            if len(args) == 3:
                a = ev.ev(args[1], S, fr)
                bb = ev.ev(args[2], S, fr)
                if isinstance(a, T.Node) and _isiter(a):
                    V = mkrange(ev, a, bb, S).value(S)
                else:
                    V = T.fill(T.asnum(a), conv(ev, bb, et))
                if i is size(C):
                    wr(S, l, T.append(C, V))
                elif i is ZERO and V.op != "rev":
                    wr(S, l, T.append(V, C) if C.op == "nil" else mk("seqinsr", C, i, V))
                else:
                    wr(S, l, mk("seqinsr", C, i, V))
                return it(l, i)
            return None
        if n == "erase":
            p = ev.ev(args[0], S, fr)
            if p.op == "ite":
                return erase_ite(ev, l, p, S)
            if not _isiter(p) or p.a[0] == "riter":
                return None
            i = p.a[2]
            if len(args) == 1:
                wr(S, l, T.seqera(C, i))
            else:
                q2 = ev.ev(args[1], S, fr)
                if q2.op != "mk":
                    return None
                j = q2.a[2]
                wr(S, l, cut(C, i, j))
            return it(l, i)
        if n == "data":
            return it(l, ZERO)
        return None
    # associative containers
    keyed = k == "map"
    if n in ("find", "count", "contains", "at", "lower_bound", "upper_bound"):
        key = conv(ev, val(ev, args[0], S, fr), et)
        if n == "find":
            return it(l, (T.mpos if keyed else T.kpos)(C, key))
        if n == "count":
            return T.asnum(contains(C, key))
        if n == "contains":
            return contains(C, key)
        if n == "at":
            return T.get(C, key)
        return None
    if n in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
        if n == "emplace_hint":
            ev.ev(args[0], S, fr)
            args = args[1:]
        if n == "insert" and len(args) == 2:
            a = ev.ev(args[0], S, fr)
            if isinstance(a, T.Node) and _isiter(a):
                bb = ev.ev(args[1], S, fr)
                if isinstance(bb, T.Node) and _isiter(bb) and not _isiter_elem(ev, et):
                    if keyed:
                        return None
                    V = mkrange(ev, a, bb, S).value(S)
                    wr(S, l, T.union(rd(S, l), V))
                    return UNDEF
                args = args[1:]      # hint
        if not keyed:
            if n == "insert" and ev.p.rec(args[0]["t"]) == "std::initializer_list":
                V = ev.ev(args[0], S, fr)
                wr(S, l, T.union(rd(S, l), V))
                return UNDEF
            v = make(ev, et, args, S, fr)
            C = rd(S, l)
            wr(S, l, T.ins(C, v))
            return T.aggregate("pair", it(l, T.kpos(rd(S, l), v)), not_(contains(C, v)))
        mt = ev.p.targ(x, 1)
        if len(args) == 1:
            p = val(ev, args[0], S, fr)
            key, v = T.fld(p, "first"), T.fld(p, "second")
        else:
            key = conv(ev, val(ev, args[0], S, fr), et)
            v = make(ev, mt, args[1:], S, fr)
        C = rd(S, l)
        if n == "insert_or_assign":
            wr(S, l, T.put(C, key, v))
        else:
            wr(S, l, map_insert(C, key, v))
        return T.aggregate("pair", it(l, T.mpos(rd(S, l), key)), not_(contains(C, key)))
    if n == "erase":
        a = ev.ev(args[0], S, fr)
        if isinstance(a, T.Node) and _isiter(a):
            if len(args) > 1:
                return None
            if a.op == "ite":
                return erase_ite(ev, l, a, S)
            wr(S, l, T.erat(C, a.a[2]))
            return a
        key = conv(ev, a, et)
        wr(S, l, T.dele(C, key))
        return T.asnum(contains(C, key))
    if n == "extract":
        a = ev.ev(args[0], S, fr)
        if isinstance(a, T.Node) and _isiter(a):
            if a.op != "mk":
                return None
            v = sl(C, a.a[2])
            wr(S, l, T.erat(C, a.a[2]))
            return v
        key = conv(ev, a, et)
        wr(S, l, T.dele(C, key))
        return T.aggregate("pair", key, T.get(C, key)) if keyed else key
    return None


def _isiter_elem(ev, t):
    return ev.is_iter_type(t) if t is not None else False


def erase_ite(ev, l, p, S):
    a, b = S.copy(), S.copy()
    for s, q in ((a, p.a[1]), (b, p.a[2])):
        C = rd(s, l)
        if q.op == "ite":
            erase_ite(ev, l, q, s)
        else:
            wr(s, l, T.seqera(C, q.a[2]) if q.a[2].op not in ("kpos", "mpos") else T.erat(C, q.a[2]))
    S.r = evalr.merge(p.a[0], a, b).r
    return p


def cut(C, i, j):
    if j is size(C):
        return T.rng(C, ZERO, i)
    if i is ZERO:
        return T.rng(C, j, size(C))
    return T.append(T.rng(C, ZERO, i), T.rng(C, j, size(C)))


# ------------------------------------------------------------------- operators
def call_function(ev, o, args, S, fr):
    f = ev.ev(o, S, fr)
    if isinstance(f, (Closure,)):
        return ev.call_closure(f, args, S, fr)
    vs = [val(ev, a, S, fr) for a in args]
    return ev.apply(f, vs, S)


def op_call(ev, e, S, fr):
    op = e["op"]
    args = e["args"]
    try:
        return op_call_(ev, e, op, args, S, fr)
    except Abort as z:
        return ev.opaque("operator%s: %s" % (op, z))


def op_call_(ev, e, op, args, S, fr):
    if op in ("[]", "*", "->") and not (op == "*" and len(args) == 2):
        t0 = ev.p.strip(args[0]["t"])
        l = ev.std_lv_op(e, S, fr)
        if l is not None:
            if op == "->":
                return mk("addr", l)
            return rd(S, l)
        return ev.ev(args[0], S, fr)
    if op == "<<" or op == ">>":
        t0 = ev.p.strip(args[0]["t"])
        return UNDEF
    if op == "()":
        return call_function(ev, args[0], args[1:], S, fr)
    if op == "=":
        x = ev.p.strip(args[0]["t"])
        a = args[1]
        v = ev.ev(a, S, fr)
        l = ev.lv(args[0], S, fr)
        if x.get("r") == "std::function" and not isinstance(v, T.Node):
            v = ev.as_fn(v, S, fr)
        if not isinstance(v, T.Node):
            raise Abort("assignment of closure")
        if x.get("r") == "std::_Bit_reference":
            v = truth(v)
        if x.get("r") == "std::optional" and ev.p.rec(a["t"]) not in ("std::optional", "std::nullopt_t"):
            if a["k"] == "ilist" and not a["args"]:
                v = T.nullopt()
            else:
                v = T.some(conv(ev, v, ev.p.targ(x, 0)))
        k = ev.p.cls_kind(x.get("r"))
        if k in ("set", "map") and ev.p.rec(a["t"]) == "std::initializer_list":
            v = from_list(ev, x, v, k)
        wr(S, l, v)
        return v
    if op in ("++", "--"):
        l = ev.lv(args[0], S, fr)
        old = rd(S, l)
        new = ev.advance(old, ONE if op == "++" else num(-1))
        wr(S, l, new)
        return old if len(args) == 2 else new
    if op in ("+=", "-="):
        d = ev.ev(args[1], S, fr)
        l = ev.lv(args[0], S, fr)
        if "basic_string" in (ev.p.rec(args[0]["t"]) or ""):
            return UNDEF
        new = ev.advance(rd(S, l), d if op == "+=" else neg(d))
        wr(S, l, new)
        return new
    a = ev.ev(args[0], S, fr)
    if len(args) == 1:
        return ev.opaque("operator" + op, a)
    b = ev.ev(args[1], S, fr)
    if op in ("+", "-"):
        if isinstance(a, T.Node) and isinstance(b, T.Node):
            if _isiter(a) and _isiter(b):
                return iterdiff(a, b)
            if _isiter(a):
                return ev.advance(a, b if op == "+" else neg(b))
            if _isiter(b):
                return ev.advance(b, a)
            if "basic_string" in (ev.p.rec(e["t"]) or ""):
                return mk("str", "s")
    if op in ("==", "!=", "<", ">", "<=", ">="):
        return ev.cmp(op, a, b, args[0]["t"], args[1]["t"])
    return ev.opaque("operator" + op, a, b)
