"""Hash-consed value graph with a normal form.

Every value computed by a function is a node.  Nodes are interned, so equality
is identity, and the smart constructors below keep them in a normal form:

 * arithmetic is a polynomial over atoms (negative exponents for division);
 * conditions are ordered decision diagrams whose atoms are comparisons of a
   constant-free linear form with a constant or opaque predicates;
 * containers, objects and heaps are functional update chains;
 * loops are closed recurrence nodes (counted sums, folds, first exits), their
   carried values numbered by optimistic partition refinement.
"""
import hashlib
import itertools
import time
from fractions import Fraction
from math import gcd, floor, ceil

LIFT = 24          # maximal number of leaves when an ite is lifted


class Budget(Exception):
    """the function is too large for the analysis"""


DEADLINE = [None, None]     # time and number of nodes


_SPEED = [1.0]


def clock():
    """processor time in seconds of the machine the limits were set on"""
    return time.process_time() / _SPEED[0]


def calibrate(factor):
    _SPEED[0] = min(4.0, max(1.0, factor))


def budget(seconds=None, nodes=None):
    DEADLINE[:] = [None if seconds is None else clock() + seconds, None if nodes is None else len(_nodes) + nodes]


class Node:
    __slots__ = ("op", "a", "h", "id", "bv", "ht", "cnd", "nl", "isb", "nn", "opq", "lv", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_nodes = []
BINDERS = {"loop", "sum", "exists", "first", "fn", "minv", "argm"}
_BOOL_OPS = {"gt", "fgt", "fge", "eq", "contains", "exists", "has", "bapp", "not", "nempty"}
_NN_OPS = {"size", "first", "cnt", "argm", "kpos", "mpos"}


def _h(x):
    return hashlib.blake2b(x, digest_size=8).digest()


_E = frozenset()


def mk(op, *a):
    """Interns a node without any normalisation."""
    key = (op, a)
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.a = a
    parts = [op.encode()]
    bv = _E
    ht = 0
    cnd = _E
    opq = op == "opaque"
    lv = 0
    for x in a:
        if isinstance(x, Node):
            parts.append(b"n" + x.h)
            if x.bv:
                bv = bv | x.bv if bv else x.bv
            if x.ht > ht:
                ht = x.ht
            if x.cnd:
                cnd = cnd | x.cnd if cnd else x.cnd
            opq = opq or x.opq
            if x.lv > lv:
                lv = x.lv
        else:
            parts.append(b"p" + type(x).__name__[:1].encode() + str(x).encode())
    n.h = _h(b"\0".join(parts))
    n.id = len(_nodes)
    if not n.id & 255 and DEADLINE[0] is not None and (clock() > DEADLINE[0] or n.id > DEADLINE[1]):
        DEADLINE[:] = [None, None]
        raise Budget("more than the time or the nodes given to one function")
    n.opq = opq
    if op == "sym":
        if a[0][0] in "$#":
            bv = frozenset((a[0],))
        n.isb = len(a) > 1 and a[1] == "b"
        n.nn = len(a) > 1 and a[1] == "n"
    elif op == "ite":
        n.isb = a[1].isb and a[2].isb
        n.nn = False
    else:
        n.isb = op in _BOOL_OPS or op in ("true", "false")
        n.nn = op in _NN_OPS or (op == "num" and a[0] >= 0) or \
            op == "sum" and all(not x.isb and x.nn for x in _leaves(a[3]))
    if op in BINDERS:
        # a[0] is the height, a[1] the kinds of the bound symbols
        own = frozenset("#%d.%d" % (a[0], i) for i in range(len(a[1])))
        bv = bv - own
        ht = max(ht, a[0] + 1)
    if op in ("gt", "fgt", "fge"):
        cnd = cnd | {a[0].id}
    elif n.isb and op not in ("true", "false", "ite", "not"):
        cnd = cnd | {n.id}
    n.bv = bv
    n.ht = ht
    n.cnd = cnd
    n.nl = (a[1].nl + a[2].nl) if op == "ite" else 1
    n.lv = max(lv, a[0].lv + 1) if op == "ite" else lv
    _table[key] = n
    _nodes.append(n)
    return n


T = mk("true")
F = mk("false")
UNDEF = mk("undef")
BOT = mk("bot")
_fresh = itertools.count()


def sym(name, kind=None):
    return mk("sym", name, kind) if kind else mk("sym", name)


def fresh(kind=None, pre="$"):
    return sym("%s%st%d" % (pre, kind or "-", next(_fresh)), kind)


def num(v):
    if isinstance(v, float):
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = v.numerator
    return mk("num", v)


ZERO = num(0)
ONE = num(1)


def boolean(b):
    return T if b else F


# ------------------------------------------------------------------ ordering
SALT = [b""]


def reorder(salt):
    """Another order of the conditions; terms built before must not be used together with new ones."""
    SALT[0] = salt
    for m in (_ite_memo, _assume_memo, _opened, _subst_memos, _at_memo):
        m.clear()


def okey(atom):
    """Order of the conditions: those that others contain come first."""
    if atom.op in ("gt", "fgt", "fge"):
        L = atom.a[0]
        return (L.lv, _h(SALT[0] + L.h) if SALT[0] else L.h, atom.a[1], 0 if atom.op == "fge" else 1)
    return (atom.lv, _h(SALT[0] + atom.h) if SALT[0] else atom.h, 0, 0)


def _top(n):
    """Top decision atom of a node, or None."""
    if n.op == "ite":
        return n.a[0]
    if n.isb and n is not T and n is not F:
        return n
    return None


def _implied(a, val, b):
    """Truth of atom b when atom a has value val (None if unknown)."""
    if a is b:
        return val
    if a.op in ("gt", "fgt", "fge") and b.op in ("gt", "fgt", "fge") and a.a[0] is b.a[0]:
        ka = (a.a[1], 0 if a.op == "fge" else 1)
        kb = (b.a[1], 0 if b.op == "fge" else 1)
        if val and kb <= ka:
            return True
        if not val and kb >= ka:
            return False
    return None


def _cof(n, atom, val):
    """Cofactor on the spine."""
    while True:
        t = _top(n)
        if t is None:
            return n
        r = _implied(atom, val, t)
        if r is None:
            return n
        if n.op == "ite":
            n = n.a[1] if r else n.a[2]
        else:
            return T if r else F


_ite_memo = {}


def ite(f, g, h):
    if f is T:
        return g
    if f is F:
        return h
    if g is h:
        return g
    if g is T and h is F:
        return f
    if g is UNDEF:
        return h
    if h is UNDEF:
        return g
    key = (f.id, g.id, h.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    tf = _top(f)
    if tf is None:          # non-boolean used as condition
        f2 = mk("bapp", f)
        r = ite(f2, g, h)
        _ite_memo[key] = r
        return r
    top = tf
    k = okey(tf)
    for x in (g, h):
        t = _top(x)
        if t is not None and (x.op == "ite" or x.isb):
            kk = okey(t)
            if kk < k:
                top, k = t, kk
    t1 = ite(_cof(f, top, True), _cof(g, top, True), _cof(h, top, True))
    t0 = ite(_cof(f, top, False), _cof(g, top, False), _cof(h, top, False))
    r = _mkite(top, t1, t0)
    _ite_memo[key] = r
    return r


SEQOPS = {"push", "pushf", "ins"}
SPREAD = 8         # leaves up to which updates of a conditional container are decided per leaf


def _stbase(n, key):
    """Strip updates of other keys: returns the value stored at key if it is the case."""
    return None


def _mkite(atom, t, e):
    if t is e:
        return t
    t = assume(t, atom, True)
    e = assume(e, atom, False)
    if t is e:
        return t
    if t is T and e is F:
        return atom
    if t is UNDEF:
        return e
    if e is UNDEF:
        return t
    # a weaker comparison that decides nothing
    if atom.op in ("gt", "fgt", "fge"):
        if t.op == "ite" and t.a[2] is e and _implied(atom, False, t.a[0]) is False:
            return t
        if e is F and t.isb and t.op != "ite" and t is not T and _implied(atom, False, t) is False:
            return t
    # where the compared numbers are equal one of them stands for the other
    if atom.op == "gt" and t.nl <= 24 and e.nl <= 24 and not t.isb and not e.isb:
        L, v = atom.a[0], atom.a[1] + 1
        if t.op == "ite" and t.a[0].op == "gt" and t.a[0].a[0] is L and t.a[0].a[1] == v:
            b = _at(t.a[2], L, v)
            if b is _at(e, L, v):
                return _mkite(t.a[0], t.a[1], e)
            if b is _at(t.a[1], L, v):
                return _mkite(atom, t.a[1], e)
            if b is not t.a[2]:
                t = mk("ite", t.a[0], t.a[1], b)
        elif _at(t, L, v) is _at(e, L, v):
            return _mkite(mk("gt", L, v), t, e)
    if atom.op == "fge" and not t.isb and not e.isb and t.nl <= 8 and e.nl <= 8 and _difference(atom.a[0]) and \
            _at(t, atom.a[0], atom.a[1]) is _at(e, atom.a[0], atom.a[1]):
        return _mkite(mk("fgt", *atom.a), t, e)
    # nothing is done for an empty container
    if atom.op == "gt" and atom.a[1] == 0 and atom.a[0].op == "size" and t.op in BINDERS:
        z = _when_empty(t, atom.a[0])
        if z is not None and (z is e or z.op == "nil" and e is atom.a[0].a[0]):
            return t
    # componentwise for small aggregates
    if t.op == "mk" or e.op == "mk":
        kind = t.a[0] if t.op == "mk" else e.a[0]
        m = len(t.a if t.op == "mk" else e.a) - 1
        if not (t.op == "mk" and e.op == "mk" and (t.a[0] != e.a[0] or len(t.a) != len(e.a))):
            return aggregate(kind, *[ite(atom, comp(t, kind, i), comp(e, kind, i)) for i in range(m)])
    if t.op == e.op:
        o = t.op
        if o in SEQOPS and (t.nl + e.nl > SPREAD or t.a[0].op == "ite" or e.a[0].op == "ite"):
            return CONS[o](ite(atom, t.a[0], e.a[0]), ite(atom, t.a[1], e.a[1]))
        if o in ("popf", "popb") and (t.nl + e.nl > SPREAD or t.a[0].op == "ite" or e.a[0].op == "ite"):
            return CONS[o](ite(atom, t.a[0], e.a[0]))
        if o == "sort" and t.a[1:] == e.a[1:]:
            return CONS[o](ite(atom, t.a[0], e.a[0]), *t.a[1:])
        if o in ("st", "put", "fst") and t.a[1] is e.a[1]:
            return CONS[o](ite(atom, t.a[0], e.a[0]), t.a[1], ite(atom, t.a[2], e.a[2]))
        if o == "fst" and t.a[1] == e.a[1]:
            return fst(ite(atom, t.a[0], e.a[0]), t.a[1], ite(atom, t.a[2], e.a[2]))
        if o == "fill":
            return fill(ite(atom, t.a[0], e.a[0]), ite(atom, t.a[1], e.a[1]))
        if o in ("call", "new", "itv") and len(t.a) == len(e.a) and t.a[0] == e.a[0] and \
                all(isinstance(x, Node) == isinstance(y, Node) and (isinstance(x, Node) or x == y)
                    for x, y in zip(t.a, e.a)):
            # decided inside the arguments
            return mk(o, *[(ite(atom, x, y) if isinstance(x, Node) else x) for x, y in zip(t.a, e.a)])
        if o == "fn" and t.a[1] == e.a[1] and len(t.a) == 3 and len(e.a) == 3:
            temps, bs = open_binder(t)
            be = subst(e.a[2], {"#%d.%d" % (e.a[0], i): x for i, x in enumerate(temps)})
            return close("fn", [], temps, [ite(atom, bs[0], be)])
        if o == "eff" and t.a[1] == e.a[1] and t.a[0].op == e.a[0].op:
            j = ite(atom, t.a[0], e.a[0])
            if j.op != "ite":
                return eff(j, t.a[1])
    if t.op == "fst" or e.op == "fst":
        f = max(x.a[1] for x in (t, e) if x.op == "fst")
        return fst(ite(atom, t.a[0] if t.op == "fst" and t.a[1] == f else t,
                       e.a[0] if e.op == "fst" and e.a[1] == f else e),
                   f, ite(atom, fld(t, f), fld(e, f)))
    if t.op == "st" or e.op == "st":
        bt, be = _strip(t), _strip(e)
        if bt is be:
            # updates of one object: decide per key
            kt = [x.a[1] for x in _updates(t)]
            ke = [x.a[1] for x in _updates(e)]
            if t.op == "st" and e.op == "st":
                # keep the longer common prefix in place
                if t.a[1] in ke:
                    k = e.a[1]
                else:
                    k = t.a[1]
            else:
                k = t.a[1] if t.op == "st" else e.a[1]
            t2 = t.a[0] if t.op == "st" and t.a[1] is k else t
            e2 = e.a[0] if e.op == "st" and e.a[1] is k else e
            return st(ite(atom, t2, e2), k, ite(atom, sl(t, k), sl(e, k)))
    if atom.op == "contains":
        if t.op == "get" and t.a[0] is atom.a[0] and t.a[1] is atom.a[1] and (e is ZERO or e.op == "nil" or e is F):
            return t
        if e.op == "ins" and e.a[0] is t and t is atom.a[0] and e.a[1] is atom.a[1]:
            return e
        if t.op == "dele" and t.a[0] is e and e is atom.a[0] and t.a[1] is atom.a[1]:
            return t
    return mk("ite", atom, t, e)


_at_memo = {}


def _at(n, L, v):
    """n with the leading variable of L eliminated from the numbers it selects, for L = v"""
    key = (n.id, L.id, v)
    r = _at_memo.get(key)
    if r is not None:
        return r
    pl = _poly(L)
    m, c = min(pl.items(), key=lambda mc: _mkey(mc[0]))
    r = n
    if c in (1, -1) and len(m) == 2 and m[1] == 1:
        r = _at_leaf(n, m, c, pl, v)
    _at_memo[key] = r
    return r


def _at_leaf(n, m, c, pl, v):
    if n.op == "ite":
        t, e = _at_leaf(n.a[1], m, c, pl, v), _at_leaf(n.a[2], m, c, pl, v)
        return n if t is n.a[1] and e is n.a[2] else ite(n.a[0], t, e)
    if n.op == "mono" or n.op == "poly" or n is m[0]:
        p = _poly(n)
        k = p.get(m)
        if k:
            # m = c (v - rest)
            d = dict(p)
            del d[m]
            for x, y in pl.items():
                if x != m:
                    d[x] = d.get(x, 0) - k * c * y
            d[()] = d.get((), 0) + k * c * v
            return _unpoly({x: y for x, y in d.items() if y})
    return n


def _difference(L):
    return L.op == "poly" and len(L.a) == 2 and all(m.op == "mono" and m.a[0] in (1, -1) and len(m.a) == 3 and m.a[2] == 1
                                                    for m in L.a)


def _when_empty(n, sz):
    """value of a loop over a container that has no element"""
    if n.op == "loop":
        idx, N, inits, X, nexts = _loop_parts(n)
        return inits[idx] if N is sz else None
    if n.op == "sum" and n.a[2] is sz:
        return ZERO
    if n.op == "exists" and n.a[2] is sz:
        return F
    return None


def _updates(n):
    out = []
    while n.op == "st":
        out.append(n)
        n = n.a[0]
    return out


def _strip(n):
    while n.op == "st":
        n = n.a[0]
    return n


_assume_memo = {}


_busy = set()


def assume(n, atom, val):
    """Replaces the condition atom (and what it implies) everywhere in n."""
    cid = atom.a[0].id if atom.op in ("gt", "fgt", "fge") else atom.id
    if cid not in n.cnd:
        return n
    return _assume(n, atom, val, cid)


def _assume(n, atom, val, cid):
    if cid not in n.cnd:
        return n
    key = (n.id, atom.id, val)
    r = _assume_memo.get(key)
    if r is not None:
        return r
    if n.isb and n.op not in ("ite", "true", "false", "not"):
        i = _implied(atom, val, n)
        if i is not None:
            r = T if i else F
            _assume_memo[key] = r
            return r
    if key in _busy:
        return n
    _busy.add(key)
    try:
        if n.op == "ite":
            c = n.a[0]
            i = _implied(atom, val, c)
            if i is not None:
                r = _assume(n.a[1] if i else n.a[2], atom, val, cid)
            else:
                r = ite(_assume(c, atom, val, cid), _assume(n.a[1], atom, val, cid), _assume(n.a[2], atom, val, cid))
        elif n.op in BINDERS:
            r = _binder_map(n, lambda x: _assume(x, atom, val, cid))
        else:
            args = [(_assume(x, atom, val, cid) if isinstance(x, Node) else x) for x in n.a]
            r = rebuild(n.op, args)
    finally:
        _busy.discard(key)
    _assume_memo[key] = r
    return r


def not_(a):
    return ite(a, F, T)


def and_(a, b):
    return ite(a, b, F)


def or_(a, b):
    return ite(a, T, b)


def conj(*xs):
    r = T
    for x in xs:
        r = and_(r, x)
    return r


def constrain(f, c):
    """Generalised cofactor: canonical representative of f on the care set c."""
    if c is T or c is F:
        return f
    memo = {}

    def go(f, c):
        if c is T or c is F:
            return f
        key = (f.id, c.id)
        if key in memo:
            return memo[key]
        tc = _top(c)
        top = tc
        t = _top(f)
        if t is not None and (f.op == "ite" or f.isb) and okey(t) < okey(tc):
            top = t
        c1, c0 = _cof(c, top, True), _cof(c, top, False)
        if top is tc and top is not t and c1 is not F and c0 is not F:
            # f does not test this condition: forget it
            r = go(f, or_(c1, c0))
            memo[key] = r
            return r
        f1, f0 = _cof(f, top, True), _cof(f, top, False)
        if c1 is F:
            r = go(f0, c0)
            r = assume(r, top, False)
        elif c0 is F:
            r = go(f1, c1)
            r = assume(r, top, True)
        else:
            r = _mkite(top, go(f1, c1), go(f0, c0))
        memo[key] = r
        return r
    return go(f, c)


def lift(fn, args, pos, limit=LIFT):
    """Applies fn to args after moving ites in the positions pos outwards."""
    best = None
    n = 1
    for i in pos:
        x = args[i]
        if x.op == "ite":
            n *= x.nl
            if best is None or okey(x.a[0]) < okey(best):
                best = x.a[0]
    if best is None or n > limit:
        return None
    a1 = list(args)
    a0 = list(args)
    for i in pos:
        a1[i] = _cof(args[i], best, True) if args[i].op == "ite" else args[i]
        a0[i] = _cof(args[i], best, False) if args[i].op == "ite" else args[i]
    return ite(best, fn(*a1), fn(*a0))


# ---------------------------------------------------------------- arithmetic
def asnum(n):
    if n.isb:
        return ite(n, ONE, ZERO)
    return n


def _poly(n):
    if n.op == "num":
        return {(): n.a[0]} if n.a[0] != 0 else {}
    if n.op == "poly":
        d = {}
        for m in n.a:
            if m.op == "num":
                d[()] = m.a[0]
            else:
                d[m.a[1:]] = m.a[0]
        return d
    if n.op == "mono":
        return {n.a[1:]: n.a[0]}
    return {(n, 1): 1}


def _mkey(m):
    return tuple((m[i].h, m[i + 1]) for i in range(0, len(m), 2))


def _unpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 2 and m[1] == 1:
            return m[0]
    items.sort(key=lambda mc: (len(mc[0]) == 0, _mkey(mc[0])))
    args = []
    for m, c in items:
        if isinstance(c, Fraction) and c.denominator == 1:
            c = c.numerator
        args.append(num(c) if m == () else mk("mono", c, *m))
    return mk("poly", *args)


def add(a, b):
    a, b = asnum(a), asnum(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    r = lift(add, (a, b), (0, 1))
    if r is not None:
        return r
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _unpoly(d)


def scale(a, k):
    a = asnum(a)
    if a is UNDEF:
        return a
    r = lift(lambda x: scale(x, k), (a,), (0,))
    if r is not None:
        return r
    return _unpoly({m: c * k for m, c in _poly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    e = {}
    nodes = {}
    for m in (m1, m2):
        for i in range(0, len(m), 2):
            e[m[i].id] = e.get(m[i].id, 0) + m[i + 1]
            nodes[m[i].id] = m[i]
    fs = [(nodes[i], x) for i, x in e.items() if x != 0]
    fs.sort(key=lambda p: p[0].h)
    return tuple(y for p in fs for y in p)


def mul(a, b):
    a, b = asnum(a), asnum(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    r = lift(mul, (a, b), (0, 1))
    if r is not None:
        return r
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 64:
        x, y = sorted((a, b), key=lambda n: n.h)
        return _unpoly({_mulmono((x, 1), (y, 1)): 1})
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d)


def inv(a):
    a = asnum(a)
    if a is UNDEF:
        return a
    r = lift(inv, (a,), (0,))
    if r is not None:
        return r
    p = _poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 0:
            return mk("inv0")
        m2 = tuple(-x if i % 2 else x for i, x in enumerate(m))
        return _unpoly({m2: Fraction(1) / Fraction(c)})
    if not p:
        return mk("inv0")
    return _unpoly({(a, -1): 1})


def fdiv(a, b):
    return mul(a, inv(b))


def idiv(a, b):
    a, b = asnum(a), asnum(b)
    r = lift(idiv, (a, b), (0, 1))
    if r is not None:
        return r
    if a.op == "num" and b.op == "num" and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b is ONE:
        return a
    return mk("idiv", a, b)


def mod(a, b):
    a, b = asnum(a), asnum(b)
    r = lift(mod, (a, b), (0, 1))
    if r is not None:
        return r
    if a.op == "num" and b.op == "num" and b.a[0] > 0 and a.a[0] >= 0:
        return num(a.a[0] % b.a[0])
    return mk("mod", a, b)


def func(name, *args):
    r = lift(lambda *x: func(name, *x), args, range(len(args)))
    if r is not None:
        return r
    if name == "trunc" and args[0].op == "num" and isinstance(args[0].a[0], int):
        return args[0]
    return mk("f:" + name, *args)


# ---------------------------------------------------------------- comparisons
def _split(d):
    """poly dict -> (dict without constant, constant)."""
    c = d.get((), 0)
    return {m: k for m, k in d.items() if m != ()}, c


def pos(d, isf=False, unsigned=False):
    """d > 0"""
    if d is UNDEF:
        return UNDEF
    if d.op == "ite":
        return ite(d.a[0], pos(d.a[1], isf, unsigned), pos(d.a[2], isf, unsigned))
    r = unsunk(d, lambda x: pos(x, isf, unsigned))
    if r is not None:
        return r
    L, c = _split(_poly(d))
    if not L:
        return boolean(c > 0)
    lead = min(L.items(), key=lambda mc: _mkey(mc[0]))
    if isf:
        k = abs(lead[1])
        s = 1 if lead[1] > 0 else -1
        L = {m: Fraction(v) / k * s for m, v in L.items()}
        c = Fraction(c) / k
        Ln = _unpoly(L)
        if s > 0:     # L + c > 0
            return _cmpatom("fgt", Ln, _fr(-c))
        return not_(_cmpatom("fge", Ln, _fr(c)))   # L < c
    if any(isinstance(v, Fraction) for v in L.values()):
        return pos(d, True)
    g = 0
    for v in L.values():
        g = gcd(g, abs(v))
    s = 1 if lead[1] > 0 else -1
    L = {m: v // g * s for m, v in L.items()}
    Ln = _unpoly(L)
    if s > 0:        # g L + c > 0
        r = _gt(Ln, floor(Fraction(-c) / g), unsigned)
        return r
    # -g L + c > 0  <=>  L < c/g
    return not_(_gt(Ln, ceil(Fraction(c) / g) - 1, unsigned))


def _fr(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _cmpatom(op, L, c):
    if L.op == "num":
        v = L.a[0]
        return boolean(v > c if op == "fgt" else v >= c)
    if L.nn and c < 0:
        return T
    return mk(op, L, c)


def _gt(L, c, unsigned=False):
    """integer L > c"""
    if L.op == "num":
        return boolean(L.a[0] > c)
    if c < 0:
        if L.nn or (unsigned and L.op not in ("poly",)):
            return T
        if L.op == "poly" and all(m.op != "num" and m.a[0] > 0 and all(x.nn for x in m.a[1:] if isinstance(x, Node))
                                  for m in L.a):
            return T
    # size of a counted filter, first exit against the bound, ...
    if L.op == "poly":
        for m in L.a:
            if m.op == "mono" and len(m.a) == 3 and m.a[2] == 1 and m.a[1].op in ("first", "kpos", "mpos") \
                    and m.a[0] in (1, -1):
                fn = m.a[1]
                rest = sub(L, scale(fn, m.a[0]))        # L = s*first + rest
                n = fn.a[2] if fn.op == "first" else size(fn.a[0]) if fn.a[0].op not in ("ins", "put") else \
                    add(size(fn.a[0].a[0]), ONE)
                s = m.a[0]
                # s*first + rest > c ; compare with n
                if s == 1:
                    k = add(rest, n)                    # first - n + k > c
                    if k.op == "num":
                        # first - n > c - k ; first - n <= 0
                        lim = c - k.a[0]
                        if lim >= 0:
                            return F
                        if lim == -1:
                            return not_(exists_of_first(fn))
                else:
                    k = sub(rest, n)                    # n - first + k > c
                    if k.op == "num":
                        lim = c - k.a[0]
                        if lim < 0:
                            return T
                        if lim == 0:
                            return exists_of_first(fn)
            if m.op == "mono" and len(m.a) == 3 and m.a[2] == 1 and m.a[1].op == "sum" and m.a[0] in (1, -1):
                k, body = open_binder(m.a[1])
                d = scale(sub(L, scale(m.a[1], m.a[0])), -m.a[0])       # L = s (sum - d), sum <= n
                d = sub(d, m.a[1].a[2]) if _is01(body[0]) else None
                if d is not None and d.op == "num":
                    lim = c + d.a[0] if m.a[0] == 1 else c - d.a[0]      # sum - n > lim or n - sum > lim
                    if m.a[0] == 1 and lim >= 0:
                        return F
                    if m.a[0] == -1 and lim < 0:
                        return T
                    if lim == (-1 if m.a[0] == 1 else 0):
                        r = exists(m.a[1].a[2], k[0], not_(pos(body[0])))
                        return not_(r) if m.a[0] == 1 else r
    if L.op == "sum" and c == 0:
        k, body = open_binder(L)
        if _is01(body[0]):
            return exists(L.a[2], k[0], pos(body[0]))
    if L.op == "size":
        r = _size_gt(L.a[0], c)
        if r is not None:
            return r
    return mk("gt", L, c)


def _is01(n):
    if n is ZERO or n is ONE:
        return True
    return n.op == "ite" and _is01(n.a[1]) and _is01(n.a[2])


def _size_gt(C, c):
    return None


def gt(a, b, isf=False, unsigned=False):
    return pos(sub(a, b), isf, unsigned)


def eq(a, b, kind="i"):
    """kind: i(nt) u(nsigned) f(loat) b(ool) o(ther)"""
    if a is b:
        return T
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if kind == "b":
        return ite(a, b, not_(b))
    if kind in "iuf":
        d = sub(a, b)
        if d.op == "num":
            return boolean(d.a[0] == 0)
        p = pos(d, kind == "f", kind == "u")
        q = pos(neg(d), kind == "f", kind == "u")
        return and_(not_(p), not_(q))
    r = lift(lambda x, y: eq(x, y, "o"), (a, b), (0, 1))
    if r is not None:
        return r
    if a.op == "mk" and b.op == "mk" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        return conj(*[eq(x, y, "i") for x, y in zip(a.a[1:], b.a[1:])])
    if a.op in ("num", "str", "null", "new") and b.op in ("num", "str", "null", "new") \
            and (a.op != "new" or b.op != "new"):
        return F
    x, y = sorted((a, b), key=lambda n: n.h)
    return mk("eq", x, y)


# -------------------------------------------------------------- aggregates
def aggregate(kind, *xs):
    """pair / optional / tuple values, with eta contraction."""
    if kind == "opt":
        h, v = xs
        if h is F:
            v = UNDEF
        if h.op == "has" and v.op == "val" and h.a[0] is v.a[0]:
            return h.a[0]
        return mk("mk", kind, h, v)
    if all(x.op == "fld" for x in xs) and len({x.a[0].id for x in xs}) == 1 \
            and [x.a[1] for x in xs] == [_cname(kind, i) for i in range(len(xs))]:
        return xs[0].a[0]
    return mk("mk", kind, *xs)


def _cname(kind, i):
    if kind == "pair":
        return ("first", "second")[i]
    return "get%d" % i


def comp(x, kind, i):
    if kind == "opt":
        return has(x) if i == 0 else val(x)
    return fld(x, _cname(kind, i))


def nullopt():
    return aggregate("opt", F, UNDEF)


def some(v):
    return aggregate("opt", T, v)


def has(x):
    if x is UNDEF:
        return UNDEF
    if x.op == "mk" and x.a[0] == "opt":
        return x.a[1]
    r = lift(has, (x,), (0,))
    if r is not None:
        return r
    return mk("has", x)


def val(x):
    if x is UNDEF:
        return UNDEF
    if x.op == "mk" and x.a[0] == "opt":
        return x.a[2]
    r = lift(val, (x,), (0,))
    if r is not None:
        return r
    return mk("val", x)


def fld(x, f):
    if x is UNDEF:
        return UNDEF
    if x.op == "mk":
        k = x.a[0]
        for i in range(len(x.a) - 1):
            if k != "opt" and _cname(k, i) == f:
                return x.a[1 + i]
    if x.op == "fst":
        return x.a[2] if x.a[1] == f else fld(x.a[0], f)
    r = lift(lambda y: fld(y, f), (x,), (0,))
    if r is not None:
        return r
    n = mk("fld", x, f)
    return _argm_value(n)


def fst(x, f, v):
    """object x with field f set to v (fields sorted)."""
    if x.op == "mk" and x.a[0] != "opt":
        k = x.a[0]
        xs = list(x.a[1:])
        for i in range(len(xs)):
            if _cname(k, i) == f:
                xs[i] = v
                return aggregate(k, *xs)
    if x.op == "fst":
        if x.a[1] == f:
            return fst(x.a[0], f, v)
        if x.a[1] > f:
            return fst(fst(x.a[0], f, v), x.a[1], x.a[2])
        if f == "second" and x.a[1] == "first":
            return aggregate("pair", x.a[2], v)
    if fld(x, f) is v:
        return x
    return mk("fst", x, f, v)


# -------------------------------------------------------------- containers
def nil(kind):
    return mk("nil", kind)


def fill(n, v):
    if n is ZERO:
        return nil("seq")
    return mk("fill", n, v)


def size(c):
    if c is UNDEF:
        return UNDEF
    o = c.op
    if o == "nil":
        return ZERO
    if o in ("fill",):
        return c.a[0]
    if o in ("push", "pushf", "seqins"):
        return add(size(c.a[0]), ONE)
    if o in ("popf", "popb", "seqera"):
        return sub(size(c.a[0]), ONE)
    if o in ("st", "sort"):
        return size(c.a[0])
    if o == "resize":
        return c.a[1]
    if o == "range":
        return sub(c.a[2], c.a[1])
    if o == "ins":
        return add(size(c.a[0]), ite(contains(c.a[0], c.a[1], c.a[2] if len(c.a) > 2 else "i"), ZERO, ONE))
    if o == "put":
        return add(size(c.a[0]), ite(contains(c.a[0], c.a[1], "i"), ZERO, ONE))
    if o == "append":
        return add(size(c.a[0]), size(c.a[1]))
    if o == "union" and c.a[0].op == "nil" and False:
        return size(c.a[1])
    r = lift(size, (c,), (0,))
    if r is not None:
        return r
    if o == "eff" and (c.a[0].a[0], c.a[1]) in KEEP:
        return size(c.a[0].a[KEEP[c.a[0].a[0], c.a[1]]])
    if o == "loop":
        r = _loop_size(c)
        if r is not None:
            return r
    if o == "sl" and c.a[0].op == "loop":
        r = _elem_size(c.a[0])
        if r is not None:
            return r
    return mk("size", c)


def contains(c, x, kind="i"):
    if c is UNDEF:
        return UNDEF
    o = c.op
    if o == "nil":
        return F
    if o in ("ins", "push", "pushf", "put"):
        return or_(eq(x, c.a[1], kind if x.op != "mk" else "o"), contains(c.a[0], x, kind))
    if o == "sort":
        return contains(c.a[0], x, kind)
    if o in ("append", "union"):
        return or_(contains(c.a[0], x, kind), contains(c.a[1], x, kind))
    if o == "dele":
        return and_(not_(eq(x, c.a[1], kind if x.op != "mk" else "o")), contains(c.a[0], x, kind))
    if o == "range" and c.a[1].op == "num" and c.a[2] is size(c.a[0]) and False:
        return None
    if o == "fill":
        return and_(pos(c.a[0]), eq(x, c.a[1], kind))
    r = lift(lambda y, z: contains(y, z, kind), (c, x), (0, 1))
    if r is not None:
        return r
    return mk("contains", c, x)


KEEP = {}           # (function, component): the size is the one of this argument
FRESH = set()       # functions that return an object they create
KIND = {}           # containers of known kind


def note_kind(c, kind):
    for x in _leaves(c):
        KIND.setdefault(x, kind)


def _neq_known(i, j):
    """True if the keys are known to differ."""
    for x, y in ((i, j), (j, i)):
        if x.op == "call" and x.a[0] in FRESH and x is not y and \
                (y.op == "sym" and y.a[0][0] not in "#$" or y.op == "sl" and y.a[0].op == "sym" and y.a[0].a[0][:2] == "H:"):
            return True
    d = sub(i, j) if not (i.op in ("new", "str", "null") or j.op in ("new", "str", "null")) else None
    if d is not None:
        return d.op == "num" and d.a[0] != 0
    if i.op == "new" and j.op == "new":
        return i is not j
    # an object created here is not one that existed before
    if i.op == "new" or j.op == "new":
        return True
    return False


def sl(c, i):
    """element i of a sequence, i-th element in iteration order of a set or map, heap cell"""
    if c is UNDEF or i is UNDEF:
        return UNDEF
    o = c.op
    if i.op == "ite" or o == "ite":
        r = lift(sl, (c, i), (0, 1))
        if r is not None:
            return r
    if o == "st":
        if c.a[1] is i:
            return c.a[2]
        if _neq_known(c.a[1], i):
            return sl(c.a[0], i)
    elif o == "fill":
        return c.a[1]
    elif o == "nil":
        return UNDEF
    elif o == "range":
        return sl(c.a[0], add(c.a[1], i))
    elif o == "push":
        d = sub(i, size(c.a[0]))
        if d.op == "num":
            return c.a[1] if d.a[0] == 0 else sl(c.a[0], i)
    elif o == "pushf":
        if i is ZERO:
            return c.a[1]
        if i.op == "num":
            return sl(c.a[0], num(i.a[0] - 1))
    elif o == "popf":
        return sl(c.a[0], add(i, ONE))
    elif o == "popb":
        return sl(c.a[0], i)
    elif o == "ins" and c.a[0].op == "nil" and i is ZERO:
        return c.a[1]
    elif o == "append" and c.a[0].op == "nil":
        return sl(c.a[1], i)
    if i.op == "kpos" and i.a[0] is c:
        return i.a[1]
    if i.op == "mpos" and i.a[0] is c:
        return aggregate("pair", i.a[1], get(c, i.a[1]))
    if o == "nil":
        pass
    if o == "loop":
        r = _loop_sel(c, i)
        if r is not None:
            return r
    n = mk("sl", c, i)
    return _argm_value(n)


def st(c, i, v):
    if i.op == "ite":
        r = lift(lambda k: st(c, k, v), (i,), (0,))
        if r is not None:
            return r
    if c.op == "st":
        if c.a[1] is i:
            return st(c.a[0], i, v)
        if c.a[1].h > i.h and _neq_known(c.a[1], i):
            return st(st(c.a[0], i, v), c.a[1], c.a[2])
    if c.op == "fill" and c.a[1] is v:
        return c
    if sl(c, i) is v or (v.op == "bapp" and v.a[0] is sl(c, i)):
        return c
    if i.op == "mpos" and v.op == "mk" and i.a[0] is c:
        return put(c, i.a[1], v.a[2])
    return mk("st", c, i, v)


def push(c, v):
    r = lift(push, (c, v), (0, 1), SPREAD)
    if r is not None:
        return r
    return mk("push", c, v)


def pushf(c, v):
    r = lift(pushf, (c, v), (0, 1), SPREAD)
    if r is not None:
        return r
    return mk("pushf", c, v)


def popf(c):
    if c.op == "pushf":
        return c.a[0]
    if c.op == "push" and c.a[0].op == "nil":
        return c.a[0]
    r = lift(popf, (c,), (0,), SPREAD)
    if r is not None:
        return r
    return mk("popf", c)


def popb(c):
    if c.op == "push":
        return c.a[0]
    r = lift(popb, (c,), (0,), SPREAD)
    if r is not None:
        return r
    return mk("popb", c)


def ins(s, x):
    """set insertion (commutes)"""
    r = lift(ins, (s, x), (0, 1), SPREAD)
    if r is not None:
        return r
    if s.op == "ins":
        if s.a[1] is x:
            return s
        if s.a[1].h > x.h:
            return ins(ins(s.a[0], x), s.a[1])
    if s.op == "put":       # element into a map is a pair
        pass
    return mk("ins", s, x)


def dele(s, x):
    """removal of a key from a set or map"""
    if s.op == "nil":
        return s
    if s.op in ("ins", "put") and s.a[1] is x:
        return dele(s.a[0], x)
    if s.op == "loop" and s.a[1] == "n-" and s.a[3] is not F and s.a[5] is F and s.a[4].op == "nil" and s.a[6].op == "ins":
        # elements put in one after the other without x
        (k, m), (_, nx) = open_binder(s)
        if nx.a[0] is m and m.a[0] not in nx.a[1].bv:
            return solve(k, s.a[3], F, [(m, s.a[4], ite(eq(nx.a[1], x), m, nx))], [m])[0]
    return mk("dele", s, x)


def _literal(m):
    """few constant entries"""
    n = 0
    while m.op == "put" and m.a[1].op == "num" and n < 5:
        m = m.a[0]
        n += 1
    return m.op == "nil"


def get(m, k, d=UNDEF):
    if m is UNDEF or k is UNDEF:
        return UNDEF
    o = m.op
    if m.op == "ite" or k.op == "ite":
        r = lift(lambda a, b: get(a, b, d), (m, k), (0, 1))
        if r is not None:
            return r
    if o == "put":
        if m.a[1] is k:
            return m.a[2]
        if _neq_known(m.a[1], k):
            return get(m.a[0], k, d)
        if _literal(m):
            return ite(eq(k, m.a[1]), m.a[2], get(m.a[0], k, d))
    elif o == "nil":
        return d
    elif o == "dele" and m.a[1] is k:
        return d
    if k.op == "fld" and k.a[1] == "first" and k.a[0].op == "sl" and k.a[0].a[0] is m:
        return fld(k.a[0], "second")
    return mk("get", m, k)


def put(m, k, v):
    if k.op == "ite":
        r = lift(lambda a: put(m, a, v), (k,), (0,))
        if r is not None:
            return r
    if m.op == "put":
        if m.a[1] is k:
            return put(m.a[0], k, v)
        if m.a[1].h > k.h and _neq_known(m.a[1], k):
            return put(put(m.a[0], k, v), m.a[1], m.a[2])
    m2 = _unput(m, k)
    if m2 is not m:
        return put(m2, k, v)
    return mk("put", m, k, v)


def _unput(m, k):
    if m.op == "put" and m.a[1] is k:
        return m.a[0]
    if m.op == "ite" and m.nl <= 8:
        t, e = _unput(m.a[1], k), _unput(m.a[2], k)
        if t is not m.a[1] or e is not m.a[2]:
            return ite(m.a[0], t, e)
    return m


def _within(c):
    """was the element added to the set or map already there"""
    return contains(c.a[0], c.a[1], c.a[2] if c.op == "ins" and len(c.a) > 2 else "i")


def kpos(c, x):
    """position of key x in a set, its size if absent"""
    r = lift(kpos, (c, x), (0, 1))
    if r is not None:
        return r
    if c.op == "nil":
        return ZERO
    if c.op in ("ins", "put"):
        # c.a[1] is new in what is left
        return ite(_within(c), kpos(c.a[0], x), mk("kpos", c, x))
    return mk("kpos", c, x)


def mpos(c, x):
    r = lift(mpos, (c, x), (0, 1))
    if r is not None:
        return r
    if c.op == "nil":
        return ZERO
    if c.op in ("ins", "put"):
        # c.a[1] is new in what is left
        return ite(_within(c), mpos(c.a[0], x), mk("mpos", c, x))
    return mk("mpos", c, x)


def union(a, b):
    """set a with all elements of the container b"""
    if b.op == "nil":
        return a
    if a is b:
        return a
    r = lift(union, (b,), ()) if False else None
    if b.op == "ins":
        return ins(union(a, b.a[0]), b.a[1])
    if a.op == "nil" and (b.op in ("ins", "union") and _nilkind(b) == a.a[0] or KIND.get(b) == a.a[0]):
        return b
    if a.op == "ins":
        return ins(union(a.a[0], b), a.a[1])
    return mk("union", a, b)


def _nilkind(c):
    while c.op in ("ins", "union", "dele"):
        c = c.a[0]
    return c.a[0] if c.op == "nil" else None


def append(a, b):
    """sequence a followed by the elements of b"""
    if b.op == "nil":
        return a
    if b.op == "push":
        return push(append(a, b.a[0]), b.a[1])
    if b.op == "ite" and b.nl <= 4:
        return ite(b.a[0], append(a, b.a[1]), append(a, b.a[2]))
    if b.op == "append" and b.a[0].op == "nil" and a.op == "nil":
        return b
    if b.op == "append":
        return append(append(a, b.a[0]), b.a[1])
    if b.op == "fill" and a.op == "nil":
        return b
    if a.op == "nil" and KIND.get(b.a[0] if b.op == "range" else b) == "seq":
        return b
    return mk("append", a, b)


def erat(c, i):
    """removal of the element at an iteration position of a set or map"""
    if i.op in ("kpos", "mpos") and i.a[0] is c:
        return dele(c, i.a[1])
    return mk("erat", c, i)


def eff(c, name):
    """state component `name` after the call c"""
    if c.op == "ite":
        return ite(c.a[0], eff(c.a[1], name), eff(c.a[2], name))
    return mk("eff", c, name)


def seqins(c, i, v):
    if i is size(c):
        return push(c, v)
    if i is ZERO:
        return pushf(c, v)
    return mk("seqins", c, i, v)


def seqera(c, i):
    if i is ZERO:
        return popf(c)
    if i is sub(size(c), ONE):
        return popb(c)
    return mk("seqera", c, i)


def rng(c, lo, hi):
    if lo is ZERO and hi is size(c):
        return c
    if c.op == "range":
        return rng(c.a[0], add(c.a[1], lo), add(c.a[1], hi))
    return mk("range", c, lo, hi)


def resize(c, n, v):
    if c.op == "nil":
        return fill(n, v)
    if size(c) is n:
        return c
    return mk("resize", c, n, v)


def sort(c, comp):
    if c.op == "nil":
        return c
    return mk("sort", c, comp)


# ------------------------------------------------------------------- binders
def _kindstr(temps):
    return "".join(t.a[1] if len(t.a) > 1 else "-" for t in temps)


def close(op, outer, temps, bodies):
    """Binds the temporaries in the bodies; outer arguments are outside the scope."""
    h = 0
    for b in bodies:
        if b.ht > h:
            h = b.ht
    m = {t.a[0]: sym("#%d.%d" % (h, i), t.a[1] if len(t.a) > 1 else None) for i, t in enumerate(temps)}
    bs = [subst(b, m) for b in bodies]
    # normalisation after the renaming may change heights downwards only
    return mk(op, h, _kindstr(temps), *outer, *bs)


_opened = {}


def open_binder(n):
    """Temporaries and the bodies of a binder."""
    r = _opened.get(n.id)
    if r is None:
        h = n.a[0]
        _, bodies = BSPEC[n.op](n)
        temps = [sym("$%so%d.%d" % (c, n.id, i), c if c != "-" else None) for i, c in enumerate(n.a[1])]
        m = {"#%d.%d" % (h, i): t for i, t in enumerate(temps)}
        r = (temps, [subst(b, m) for b in bodies])
        _opened[n.id] = r
    return r


BSPEC = {
    # outer args, bodies
    "sum": lambda n: ([n.a[2]], [n.a[3]]),
    "exists": lambda n: ([n.a[2]], [n.a[3]]),
    "first": lambda n: ([n.a[2]], [n.a[3]]),
    "minv": lambda n: ([n.a[2], n.a[3]], [n.a[4]]),
    "argm": lambda n: ([n.a[2], n.a[3]], [n.a[4]]),
    "fn": lambda n: (list(n.a[2:-1]), [n.a[-1]]),
    # loop: h, nb, index, N, inits..., X, nexts...
    "loop": lambda n: (list(n.a[2:4]) + list(n.a[4:4 + len(n.a[1]) - 1]), list(n.a[4 + len(n.a[1]) - 1:])),
}


def _binder_map(n, fn):
    """Rebuilds a binder after mapping its arguments."""
    temps, bodies = open_binder(n)
    outer, _ = BSPEC[n.op](n)
    outer = [fn(x) if isinstance(x, Node) else x for x in outer]
    bodies = [fn(b) for b in bodies]
    return rebuild_binder(n.op, outer, temps, bodies)


def rebuild_binder(op, outer, temps, bodies):
    if op == "sum":
        return sum_(outer[0], temps[0], bodies[0])
    if op == "exists":
        return exists(outer[0], temps[0], bodies[0])
    if op == "first":
        return first(outer[0], temps[0], bodies[0])
    if op == "minv":
        return minv(outer[0], outer[1], temps[0], bodies[0])
    if op == "argm":
        return argm(outer[0], outer[1], temps[0], bodies[0])
    if op == "fn":
        return close("fn", outer, temps, bodies)
    if op == "loop":
        idx, N = outer[0], outer[1]
        inits = outer[2:]
        X = bodies[0]
        nexts = bodies[1:]
        mus = [(temps[i + 1], inits[i], nexts[i]) for i in range(len(inits))]
        r = solve(temps[0], N if N is not F else None, X, mus, [temps[idx + 1]])
        return r[0]
    raise AssertionError(op)


_subst_memos = {}


def subst(n, m, memo=None):
    """Simultaneous substitution of (bound or temporary) symbols."""
    if not n.bv or n.bv.isdisjoint(m):
        return n
    key = tuple(sorted((k, v.id) for k, v in m.items()))
    e = _subst_memos.get(key)
    if e is None:
        if len(_subst_memos) > 4000:
            _subst_memos.clear()
        vs = list(m.values())
        ren = all(v.op == "sym" and v.a[0][0] in "$#" for v in vs)
        e = _subst_memos[key] = (frozenset(m), ren, {})
    return _subst(n, m, e[0], e[2], e[1])


def _subst(n, m, keys, memo, ren):
    if not n.bv or n.bv.isdisjoint(keys):
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == "sym":
        r = m.get(n.a[0], n)
    elif n.op in BINDERS:
        if ren and n in TIED:
            temps, bodies = open_binder(n)
            outer = [(_subst(x, m, keys, memo, ren) if isinstance(x, Node) else x) for x in BSPEC["loop"](n)[0]]
            bodies = [_subst(b, m, keys, memo, ren) for b in bodies]
            r = _mkloop(temps[0], outer[1] if outer[1] is not F else None, bodies[0],
                        list(zip(temps[1:], outer[2:], bodies[1:])), temps[1 + outer[0]].a[0])
        elif ren:
            r = mk(n.op, *[(_subst(x, m, keys, memo, ren) if isinstance(x, Node) else x) for x in n.a])
        else:
            r = _binder_map(n, lambda x: _subst(x, m, keys, memo, ren))
    elif n.op == "ite":
        r = ite(_subst(n.a[0], m, keys, memo, ren), _subst(n.a[1], m, keys, memo, ren),
                _subst(n.a[2], m, keys, memo, ren))
    else:
        r = rebuild(n.op, [(_subst(x, m, keys, memo, ren) if isinstance(x, Node) else x) for x in n.a])
    memo[n.id] = r
    return r


TIED = set()        # loops whose order of carried values depends on the names of enclosing symbols


def _has(n, name):
    return name in n.bv


def _inv_conds(n, names, limit=3):
    """A spine condition of n free of the given symbols."""
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        t = _top(x)
        if t is None or (x.op != "ite" and not x.isb):
            continue
        if t.bv.isdisjoint(names):
            return t
        if x.op == "ite":
            stack.append(x.a[1])
            stack.append(x.a[2])
    return None


def _cofdeep(n, atom, val):
    """Cofactor of a spine condition wherever it is on the spine (and below)."""
    return assume(n, atom, val)


def _nonempty(n):
    return pos(n)


def sum_(n, k, t):
    """sum of t over k in [0,n)"""
    kn = k.a[0]
    t = asnum(t)
    if t is ZERO:
        return ZERO
    if n is ZERO:
        return ZERO
    if n is ONE:
        return subst(t, {kn: ZERO})
    if n.op == "ite" and n.nl <= 4:
        return ite(n.a[0], sum_(n.a[1], k, t), sum_(n.a[2], k, t))
    c = _inv_conds(t, {kn})
    if c is not None:
        return ite(c, sum_(n, k, assume(t, c, True)), sum_(n, k, assume(t, c, False)))
    if kn not in t.bv:
        return mul(n, t)
    if t.op in ("poly", "num") and t.op == "poly":
        r = ZERO
        for m in t.a:
            if m.op == "num":
                r = add(r, mul(n, m))
                continue
            coef = m.a[0]
            invn = num(coef)
            dep = ()
            for i in range(1, len(m.a), 2):
                f = _unpoly({(m.a[i], m.a[i + 1]): 1})
                if kn in m.a[i].bv:
                    dep = dep + (m.a[i], m.a[i + 1])
                else:
                    invn = mul(invn, f)
            if dep == ():
                r = add(r, mul(n, invn))
            elif len(dep) == 2 and dep[0] is k and dep[1] == 1:
                # 0+1+...+n-1
                r = add(r, mul(invn, mk("tri", n)))
            else:
                r = add(r, mul(invn, close("sum", [n], [k], [_unpoly({dep: 1})])))
        return r
    if t.op == "ite":
        ls = set(_leaves(t))
        if len(ls) == 2 and all(x.op == "num" for x in ls):
            # a count, or what is left of all
            o, e = sorted(ls, key=lambda x: x.a[0])
            r = close("sum", [n], [k], [_count(t, o)])
            b = r.a[3]
            while b.op == "ite":
                b = b.a[2]
            if b is ONE:
                o, e = e, o
                r = close("sum", [n], [k], [_count(t, o)])
            return add(mul(e, n), mul(sub(o, e), r))
    return close("sum", [n], [k], [t])


def _count(n, v):
    return ite(n.a[0], _count(n.a[1], v), _count(n.a[2], v)) if n.op == "ite" else ONE if n is v else ZERO


def _as_eq(b):
    """b is the decision diagram of L == c: returns (L, c)."""
    # ite(gt(L,c-1), not gt(L,c), F)
    if b.op == "ite" and b.a[2] is F and b.a[0].op == "gt":
        i = b.a[1]
        if i.op == "ite" and i.a[0].op == "gt" and i.a[0].a[0] is b.a[0].a[0] and i.a[0].a[1] == b.a[0].a[1] + 1 \
                and i.a[1] is F and i.a[2] is T:
            return b.a[0].a[0], i.a[0].a[1]
    if b.op == "ite" and b.a[0].op == "gt" and b.a[1] is F and b.a[2] is T and b.a[0].a[1] == 0 and \
            (b.a[0].a[0].nn):
        return b.a[0].a[0], 0
    return None


def exists(n, k, b):
    """some k in [0,n) with b"""
    kn = k.a[0]
    if b is F or n is ZERO:
        return F
    if n.op == "ite" and n.nl <= 4:
        return ite(n.a[0], exists(n.a[1], k, b), exists(n.a[2], k, b))
    if b is T or kn not in b.bv:
        return and_(pos(n), b)
    if n.op == "num" and n.a[0] <= 4:
        r = F
        for j in range(n.a[0]):
            r = or_(r, subst(b, {kn: num(j)}))
        return r
    c = _inv_conds(b, {kn})
    if c is not None:
        return ite(c, exists(n, k, assume(b, c, True)), exists(n, k, assume(b, c, False)))
    e = _as_eq(b)
    if e is not None:
        L, c0 = e
        for m, co in _poly(L).items():
            if len(m) == 2 and m[1] == 1 and co in (1, -1):
                at = m[0]
                if at is k:
                    rest = sub(num(c0), sub(L, scale(at, co)))
                    x = scale(rest, co)
                    if kn not in x.bv:
                        # k == x for some k in [0,n)
                        return and_(gt(n, x), pos(add(x, ONE)))
                cont, idx, sel = None, None, None
                if at.op == "sl":
                    cont, idx = at.a
                elif at.op == "fld" and at.a[1] == "first" and at.a[0].op == "sl":
                    cont, idx = at.a[0].a
                if cont is not None and idx is k and kn not in cont.bv and size(cont) is n:
                    rest = sub(num(c0), sub(L, scale(at, co)))
                    x = scale(rest, co)
                    if kn not in x.bv:
                        return contains(cont, x)
    b = _dom(b, n, k)
    if b is F or b is T or kn not in b.bv:
        return exists(n, k, b)
    return close("exists", [n], [k], [b])


def _dom(b, n, k):
    """Simplifies b under 0 <= k < n."""
    a = gt(n, k)
    for _ in range(2):
        if a is T or a is F:
            break
        if a.op == "ite" and a.a[1] is F and a.a[2] is T:
            b = assume(b, a.a[0], False)
        elif a.op != "ite":
            b = assume(b, a, True)
        break
    return b


def first(n, k, b):
    """smallest k in [0,n) with b, n if there is none"""
    kn = k.a[0]
    if b is F:
        return n
    if b is T:
        return ite(pos(n), ZERO, n)
    if n.op == "num" and n.a[0] <= 4:
        r = n
        for j in reversed(range(n.a[0])):
            r = ite(subst(b, {kn: num(j)}), num(j), r)
        return r
    c = _inv_conds(b, {kn})
    if c is not None:
        return ite(c, first(n, k, assume(b, c, True)), first(n, k, assume(b, c, False)))
    b = _dom(b, n, k)
    if b is F or b is T:
        return first(n, k, b)
    return close("first", [n], [k], [b])


def exists_of_first(fn):
    if fn.op in ("kpos", "mpos"):
        return contains(fn.a[0], fn.a[1], "o" if fn.a[1].op == "mk" else "i")
    temps, bodies = open_binder(fn)
    return exists(fn.a[2], temps[0], bodies[0])


def minv(kind, n, k, t):
    """minimum (kind 'min') or maximum over k in [0,n) of t"""
    kn = k.a[0]
    if kn not in t.bv:
        return t
    return close("minv", [kind, n], [k], [t])


def argm(kind, n, k, t):
    """first position of the minimum or maximum of t"""
    if k.a[0] not in t.bv:
        return ZERO
    return close("argm", [kind, n], [k], [t])


def _argm_value(n):
    """t[argm(t)] is the extreme value itself."""
    idx = None
    x = n
    while x.op == "fld":
        x = x.a[0]
    if x.op == "sl":
        idx = x.a[1]
    if idx is None or idx.op != "argm":
        return n
    h = idx.a[0]
    body = idx.a[4]
    if _same_inst(body, n, "#%d.0" % h, idx):
        return mk("minv", h, "n", idx.a[2], idx.a[3], body)
    return n


def _same_inst(body, n, name, idx):
    """body with name := idx equals n (only selection chains)."""
    while True:
        if body.op != n.op:
            return False
        if body.op == "fld":
            if body.a[1] != n.a[1]:
                return False
            body, n = body.a[0], n.a[0]
            continue
        if body.op == "sl":
            return body.a[1].op == "sym" and body.a[1].a[0] == name and n.a[1] is idx and body.a[0] is n.a[0]
        return False


# --------------------------------------------------------------------- loops
class Loop:
    pass


def solve(k, N, X, mus, outs):
    """Values of outs when the loop exits.

    k     iteration counter (temporary symbol)
    N     number of iterations if known (counted loop), else None
    X     exit condition at the head of iteration k (in terms of k and the carried symbols)
    mus   [(symbol, initial value, next value)]
    outs  terms over k and the carried symbols, evaluated in the exit state
    Returns the list of closed terms.
    """
    kn = k.a[0]
    mus = list(mus)
    outs = list(outs)
    mus, X, outs = _signs(mus, X, outs)
    # flags start lowered
    up = {s.a[0]: not_(s) for s, i, nx in mus if s.isb and i is T}
    if up:
        memo = {}
        mus = [(s, F, not_(subst(nx, up, memo))) if s.a[0] in up else (s, i, subst(nx, up, memo)) for s, i, nx in mus]
        X = subst(X, up, memo)
        outs = [subst(o, up, memo) for o in outs]
    # ---- drop invariant and induction variables
    while True:
        sub_ = {}
        names = {m[0].a[0] for m in mus}
        live = _live(X, outs, mus)
        mus = [m for m in mus if m[0].a[0] in live]
        names = {m[0].a[0] for m in mus}
        for s, i, nx in mus:
            if X is not F and X.op != "ite":
                nx = _constrain_not(nx, X)
            if nx is s:
                sub_[s.a[0]] = i
                break
            if not s.isb and nx.op in ("poly", "num") or nx.op == "poly":
                d = sub(nx, s)
                if d.bv.isdisjoint(names | {kn}) and not i.isb:
                    sub_[s.a[0]] = add(i, mul(d, k))
                    break
        if not sub_:
            break
        dead = set(sub_)
        memo = {}
        f = lambda x: subst(x, sub_, memo)
        X = f(X)
        outs = [f(o) for o in outs]
        mus = [(s, i, f(nx)) for s, i, nx in mus if s.a[0] not in dead]
    names = {m[0].a[0] for m in mus}
    r = _scalars(k, X, mus, outs)
    if r is not None:
        return solve(k, N, *r)
    r = _reads(k, N, X, mus, outs)
    if r is not None:
        return solve(k, N, r[0], r[1], outs)
    # ---- recognise a counted loop
    if N is None and X is not F:
        N, X = _domain(X, k, names)
    if N is not None:
        # simplify under k < N
        if X is not F:
            X = _dom(X, N, k)
        mus = [(s, i, _dom(nx, N, k)) for s, i, nx in mus]
        # entries written by an earlier loop over the same range
        was = _ranges.get(kn)
        note_range(k, N)
        memo = {}
        mus = [(s, i, _entries(nx, k, memo)) for s, i, nx in mus]
        X = _entries(X, k, memo)
        if was is None:
            del _ranges[kn]
        else:
            _ranges[kn] = was
    r = _distinct_keys(k, names, mus, X)
    if r is not None:
        mus, X = r
    # ---- exits that do not depend on carried values bound the loop
    E = N
    if N is not None and X is not F and X.bv.isdisjoint(names):
        E = first(N, k, X)
        # in the loop the exit condition does not hold
        mus = [(s, i, constrain(nx, not_(X))) for s, i, nx in mus]
        X = F
    if N is not None and X is F:
        m = {kn: E}
        for nm in sorted(_needed(outs, names)):
            m[nm] = _fold(k, E, mus, nm)
        memo = {}
        return [subst(o, m, memo) for o in outs]
    if N is not None and X.op == "sym" and X.isb:
        # flag tested at the head of the next iteration
        me = next((m for m in mus if m[0] is X), None)
        if me is not None and me[1] is F and me[2].bv.isdisjoint(names):
            b = me[2]
            found = exists(N, k, b)
            cnt = ite(found, add(first(N, k, b), ONE), N)
            m = {kn: cnt, X.a[0]: found}
            rest = [(s, i, assume(nx, X, False)) for s, i, nx in mus if s is not X]
            for nm in sorted(_needed(outs, names - {X.a[0]})):
                m[nm] = _fold(k, cnt, rest, nm)
            memo = {}
            return [subst(o, m, memo) for o in outs]
    if N is None:
        r = _lastround(k, X, mus, outs)
        if r is not None:
            return solve(k, N, *r)
    # ---- general loop
    mus = [(s, i, constrain(nx, not_(X))) for s, i, nx in mus]
    if N is None:
        outs = [constrain(o, X) for o in outs]
    # sequence filtered in place
    r = _erase_filter(k, N, X, mus, outs)
    if r is not None:
        return r
    m = {}
    need = set()
    for o in outs:
        need |= {b for b in o.bv if b in names}
    for nm in sorted(need):
        m[nm] = _general(k, N, X, mus, nm)
    if any(kn in o.bv for o in outs):
        # number of iterations as a carried value
        c = sym("$nCNT", "n")
        m[kn] = _general(k, N, X, mus + [(c, ZERO, add(c, ONE))], c.a[0])
    memo = {}
    return [subst(o, m, memo) for o in outs]


def _lastround(k, X, mus, outs):
    """A flag that ends the loop at the next test: the loop ends where the flag is raised and the last round is
    done after it."""
    names = {m[0].a[0] for m in mus}
    for f, i, g in mus:
        if i is not F or not f.isb or f.a[0] not in X.bv or assume(X, f, True) is not T:
            continue
        Y = assume(X, f, False)
        g = constrain(assume(g, f, False), not_(Y))
        if not Y.bv.isdisjoint(names) or not g.bv.isdisjoint(names):
            continue
        rest = [(s, j, assume(nx, f, False)) for s, j, nx in mus if s is not f]
        if any(f.a[0] in nx.bv for s, j, nx in rest):
            continue
        X2 = or_(Y, g)
        one = {s.a[0]: constrain(nx, g) for s, j, nx in rest}
        one[k.a[0]] = add(k, ONE)
        one[f.a[0]] = T
        memo, memo2 = {}, {}
        outs = [ite(Y, subst(o, {f.a[0]: F}, memo), subst(o, one, memo2)) for o in outs]
        return X2, [(s, j, constrain(nx, not_(X2))) for s, j, nx in rest], outs
    return None


def nonneg(n):
    if n.nn:
        return True
    if n.op == "num":
        return n.a[0] >= 0
    if n.op == "ite":
        return nonneg(n.a[1]) and nonneg(n.a[2])
    if n.op in ("poly", "mono"):
        return all(c >= 0 and all(x.nn for x in m if isinstance(x, Node)) for m, c in _poly(n).items())
    return False


def _signs(mus, X, outs):
    """Carried numbers that are never negative are marked as such."""
    cand = {s.a[0]: sym("$n" + s.a[0][2:] + "+", "n") for s, i, nx in mus
            if not s.isb and not s.nn and not i.isb and nonneg(i) and s.a[0][0] == "$"}
    while cand:
        memo = {}
        bad = [s.a[0] for s, i, nx in mus if s.a[0] in cand and not nonneg(subst(nx, cand, memo))]
        if not bad:
            break
        for b in bad:
            del cand[b]
    if not cand:
        return mus, X, outs
    memo = {}
    return [(cand.get(s.a[0], s), i, subst(nx, cand, memo)) for s, i, nx in mus], subst(X, cand, memo), \
        [subst(o, cand, memo) for o in outs]


def _uses(roots, old):
    """is the node among the subterms of the roots"""
    nm = next(iter(old.bv))
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n is old:
            return True
        if n.id in seen or nm not in n.bv:
            continue
        seen.add(n.id)
        stack.extend(x for x in n.a if isinstance(x, Node))
    return False


def _exchange(n, old, new, memo):
    """replaces a subterm over free temporaries, in loop bodies as well"""
    if n is old:
        return new
    if not old.bv <= n.bv:
        return n
    r = memo.get(n.id)
    if r is None:
        if n.op in BINDERS:
            r = _binder_map(n, lambda x: _exchange(x, old, new, memo))
        elif n.op in ("sym", "num", "true", "false"):
            r = n
        else:
            r = rebuild(n.op, [(_exchange(x, old, new, memo) if isinstance(x, Node) else x) for x in n.a])
        memo[n.id] = r
    return r


def _scalars(k, X, mus, outs):
    """A container changed at fixed places only is its initial value with these places carried."""
    names = {m[0].a[0] for m in mus} | {k.a[0]}
    for s, i, nx in mus:
        if s.isb or s.nn or nx.op != "st":
            continue
        keys = []
        x = nx
        while x.op == "st":
            keys.append(x.a[1])
            x = x.a[0]
        if x is not s or not all(y.bv.isdisjoint(names) for y in keys) or len(set(keys)) != len(keys):
            continue
        if any(not _neq_known(a, b) for j, a in enumerate(keys) for b in keys[:j]):
            continue
        ys = []
        now = i
        for key in reversed(keys):
            _rd[0] += 1
            v = sl(nx, key)
            kind = "b" if v.isb else None
            y = sym("$%sSC%d" % (kind or "-", _rd[0]), kind)
            ys.append((y, sl(i, key), v))
            now = st(now, key, y)
        memo = {}
        f = lambda z: subst(z, {s.a[0]: now}, memo)
        return f(X), [(a, b, f(c)) for a, b, c in mus if a is not s] + [(a, b, f(c)) for a, b, c in ys], [f(o) for o in outs]
    return None


def _reads(k, N, X, mus, outs):
    """The last element and the size of a carried sequence, read inside the loop, become carried
    values of their own when their next value does not need the sequence."""
    roots = [X] + [m[2] for m in mus]
    names = {m[0].a[0] for m in mus} | {k.a[0]}
    for s, i, nx in mus:
        if s.isb or s.nn:
            continue
        zs = mk("size", s)
        last = mk("sl", s, sub(zs, ONE))
        olds = [x for x in (last, zs) if _uses(roots, x)]
        olds += [mk("sl", s, key) for key in _cells(roots, s) if key.bv.isdisjoint(names)]
        for old in olds:
            if old is last:
                ini, nxt = sl(i, sub(size(i), ONE)), sl(nx, sub(size(nx), ONE))
            elif old is zs:
                ini, nxt = size(i), size(nx)
            else:
                ini, nxt = sl(i, old.a[1]), sl(nx, old.a[1])
            if ini is UNDEF and old is not last:
                continue
            _rd[0] += 1
            kind = "n" if old is zs else "b" if nxt.isb or ini.isb else None
            y = sym("$%sRD%d" % (kind or "-", _rd[0]), kind)
            memo = {}
            nxt = _exchange(nxt, old, y, memo)
            if s.a[0] in nxt.bv or nxt is UNDEF:
                continue
            f = lambda x: _exchange(x, old, y, memo)
            if len(mus) == 2 and old is zs and _erase_filter(k, N, X, mus, outs) is not None:
                continue
            return f(X), [(a, b, f(c)) for a, b, c in mus] + [(y, ini, nxt)]
    return None


def _cells(roots, s):
    """places of a carried container read directly"""
    out = {}
    nm = s.a[0]
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen or nm not in n.bv:
            continue
        seen.add(n.id)
        if n.op == "sl" and n.a[0] is s and nm not in n.a[1].bv and not any(b[0] == "#" for b in n.a[1].bv):
            out[n.a[1].h] = n.a[1]
        stack.extend(x for x in n.a if isinstance(x, Node))
    return [out[h] for h in sorted(out)]


_rd = [0]
SETLIKE = set()     # containers whose elements (keys) are pairwise distinct


def note_set(c):
    for x in _leaves(c):
        SETLIKE.add(x)


def _leaves(n):
    while n.op == "ite":
        yield from _leaves(n.a[1])
        n = n.a[2]
    yield n


def _distinct_key(x, k, names):
    """x takes a different value in every iteration"""
    if x is k:
        return True
    if x.op == "fld" and x.a[1] == "first":
        x = x.a[0]
    return x.op == "sl" and x.a[1] is k and x.a[0] in SETLIKE and x.a[0].bv.isdisjoint(names | {k.a[0]})


def _distinct_keys(k, names, mus, X):
    """A container that starts empty and gains one new key per iteration does not contain it yet."""
    rep = {}
    for s, i, nx in mus:
        if i.op != "nil":
            continue
        keys = set()
        for x in _leaves(nx):
            while x is not s:
                if x.op in ("put", "ins") and _distinct_key(x.a[1], k, names):
                    keys.add(x.a[1])
                    x = x.a[0]
                    if x.op == "ite":
                        if all(y is s for y in _leaves(x)):
                            x = s
                else:
                    keys = None
                    break
            if keys is None:
                break
        if keys and len(keys) == 1:
            key = keys.pop()
            rep[mk("contains", s, key)] = F
    if not rep:
        return None

    def go(n):
        for a in rep:
            n = assume(n, a, False)
        return n
    return [(s, i, go(nx)) for s, i, nx in mus], go(X)


def _constrain_not(nx, X):
    t = _top(X)
    if t is X:
        return assume(nx, X, False)
    return nx


def _needed(outs, names):
    r = set()
    for o in outs:
        r |= {b for b in o.bv if b in names}
    return r


def _live(X, outs, mus):
    nx = {m[0].a[0]: m[2] for m in mus}
    live = set()
    work = [b for t in [X] + outs for b in t.bv if b in nx]
    while work:
        b = work.pop()
        if b in live:
            continue
        live.add(b)
        work.extend(x for x in nx[b].bv if x in nx)
    return live


def _domain(X, k, names):
    """X = (k >= n) or B  ->  (n, B) ; (None, X) if there is no such n."""
    kn = k.a[0]
    cands = []
    seen = set()
    stack = [X]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        t = _top(x)
        if t is None:
            continue
        if t.op == "gt" and kn in t.bv:
            p = _poly(t.a[0])
            co = p.get((k, 1))
            rest = sub(t.a[0], scale(k, co)) if co is not None else None
            if co in (1, -1) and kn not in rest.bv and rest.bv.isdisjoint(names):
                cands.append((t, co, rest))
        if x.op == "ite":
            stack += [x.a[1], x.a[2]]
    # equality tests: k never passes the bound
    for t, co, rest in cands:
        for t2, co2, rest2 in cands:
            if t2.a[0] is t.a[0] and t2.a[1] == t.a[1] + 1:
                if co == 1:
                    # k + rest == c2 : exit; k + rest > c2 never
                    X2 = assume(X, t2, False)
                    a, v = t, True
                    n = sub(num(t2.a[1]), rest)
                else:
                    # rest - k == c2 ; rest - k < c2 never: gt(rest-k, c1) true
                    X2 = assume(X, t, True)
                    a, v = t2, False
                    n = sub(rest, num(t2.a[1]))
                if assume(X2, a, v) is T:
                    return n, assume(X2, a, not v)
    for t, co, rest in cands:
        if co == 1:      # k + rest > c : k >= c - rest + 1
            if assume(X, t, True) is T:
                return sub(num(t.a[1] + 1), rest), assume(X, t, False)
        else:            # rest - k > c : k < rest - c
            if assume(X, t, False) is T:
                return sub(rest, num(t.a[1])), assume(X, t, True)
    return None, X


def _closure(mus, start):
    nx = {m[0].a[0]: m[2] for m in mus}
    need = set()
    work = [b for b in start if b in nx]
    while work:
        b = work.pop()
        if b in need:
            continue
        need.add(b)
        work.extend(x for x in nx[b].bv if x in nx)
    return need


def _fold(k, N, mus, name):
    """Value of carried symbol `name` after N iterations."""
    kn = k.a[0]
    if N is ZERO:
        return next(i for s, i, nx in mus if s.a[0] == name)
    need = _closure(mus, [name])
    ms = [m for m in mus if m[0].a[0] in need]
    s, i, nx = next(m for m in ms if m[0].a[0] == name)
    own = {m[0].a[0] for m in ms}
    # invariant conditions are decided outside
    bound = own | {kn}
    for m in ms:
        c = _inv_conds(m[2], bound)
        if c is not None:
            y, z = (_fold(k, assume(N, c, v), [(a, assume(b, c, v), assume(x, c, v)) for a, b, x in ms], name)
                    for v in (True, False))
            return ite(c, y, z)
    if N.op == "ite" and N.nl <= 4:
        return ite(N.a[0], _fold(k, N.a[1], ms, name), _fold(k, N.a[2], ms, name))
    if nx is s:
        return i
    if nx.bv.isdisjoint(own):
        # last value
        return ite(pos(N), subst(nx, {kn: sub(N, ONE)}), i)
    if len(ms) == 1:
        r = _single(k, N, s, i, nx)
        if r is not None:
            return r
    for j, (s, i, nx) in enumerate(ms):
        # every place of a sequence is set in turn
        if nx.op == "st" and nx.a[0] is s and nx.a[1] is k and kn not in i.bv:
            own, was = mk("sl", s, k), sl(i, k)
            ws = [_exchange(m[2].a[2] if m[0] is s else m[2], own, was, {}) for m in ms]
            if all(s.a[0] not in w.bv for w in ws) and size(i) is N:
                ms = [(a, b, w) if a is not s else (s, mk("nil", "seq"), push(s, w)) for (a, b, _), w in zip(ms, ws)]
                return _fold(k, N, ms, name)
            ws = [st(s, k, w) if m[0] is s else w for m, w in zip(ms, ws)]
            if any(w is not m[2] for m, w in zip(ms, ws)):
                return _fold(k, N, [(a, b, w) for (a, b, _), w in zip(ms, ws)], name)
    return _mkloop(k, N, F, ms, name)


def _single(k, N, s, i, nx):
    kn, sn = k.a[0], s.a[0]
    # sum
    if nx.op == "poly" or nx.op == "ite":
        d = _delta(nx, s)
        if d is not None and sn not in d.bv:
            return add(i, sum_(N, k, d))
    if nx.op == "ite":
        # minimum / maximum
        c, t, e = nx.a
        if c.op in ("gt", "fgt", "fge") and (t is s or e is s):
            o = e if t is s else t
            if sn not in o.bv:
                isf = c.op != "gt"
                up = gt(o, s, isf)
                upe = not_(gt(s, o, isf))
                dn = gt(s, o, isf)
                dne = not_(gt(o, s, isf))
                cc = c if t is not s else not_(c)
                kind = "max" if cc in (up, upe) else "min" if cc in (dn, dne) else None
                if kind:
                    return _minmax(kind, i, N, k, o)
        r = _extremum(k, N, s, i, nx)
        if r is not None:
            return r
    if nx.isb or i.isb or nx is T or nx is F:
        # exists / for all
        t1 = assume(subst(nx, {sn: T}), s, True)
        t0 = assume(subst(nx, {sn: F}), s, False)
        if t1 is T and sn not in t0.bv:
            return or_(i, exists(N, k, t0))
        if t0 is F and sn not in t1.bv:
            return and_(i, not_(exists(N, k, not_(t1))))
    if nx.op == "push" and nx.a[0] is s and i.op == "nil" and nx.a[1].bv.isdisjoint((kn, sn)):
        return fill(N, nx.a[1])
    # copies of a range
    if nx.op in ("ins", "push") and nx.a[0] is s and sn not in nx.a[1].bv and nx.a[1].op == "sl":
        C, p = nx.a[1].a
        if kn not in C.bv:
            lo = sub(p, k)
            if kn not in lo.bv:
                R = rng(C, lo, add(lo, N))
                return union(i, R) if nx.op == "ins" else append(i, R)
    if nx.op == "put" and nx.a[0] is s and i.op == "nil" and nx.a[1].op == nx.a[2].op == "fld" and \
            nx.a[1].a[1] == "first" and nx.a[2].a[1] == "second" and nx.a[1].a[0] is nx.a[2].a[0]:
        e = nx.a[1].a[0]
        if e.op == "sl" and e.a[1] is k and e.a[0].bv.isdisjoint((kn, sn)) and KIND.get(e.a[0]) == i.a[0] and \
                N is size(e.a[0]):
            return e.a[0]
    # whole-range store
    if nx.op == "st" and nx.a[0] is s and nx.a[1] is k and sn not in nx.a[2].bv and size(i) is N:
        if kn not in nx.a[2].bv:
            return fill(N, nx.a[2])
    return None


def _extremum(k, N, s, i, nx):
    """position of the first extreme value, kept while running over the positions"""
    c, t, e = nx.a
    kn, sn = k.a[0], s.a[0]
    if c.op not in ("gt", "fgt", "fge") or (t is s) == (e is s):
        return None
    o = e if t is s else t
    if sn in o.bv:
        return None
    d = sub(o, k)
    if i is not ZERO or d is not ZERO and d is not ONE:
        # the element itself is kept
        if subst(o, {kn: ZERO}) is not i:
            return None
        d = None
    a, b = {}, {}
    for m, co in _poly(c.a[0]).items():
        bv = frozenset().union(*(x.bv for x in m if isinstance(x, Node))) if m else frozenset()
        if (sn in bv) == (kn in bv):
            return None
        (a if sn in bv else b)[m] = co
    a, b = _unpoly(a), _unpoly(b)
    isf = c.op != "gt"
    take = c if e is s else not_(c)
    lead = next(iter(_poly(a).values()), 1) if a.op in ("poly", "mono") else 1
    for sg in (1, -1) if lead > 0 else (-1, 1):
        old, new = scale(a, sg), scale(b, -sg)
        if subst(old, {sn: o}) is new:
            kind = "max" if take is gt(new, old, isf) else "min" if take is gt(old, new, isf) else None
            if kind:
                if d is None:
                    return ite(pos(N), subst(o, {kn: argm(kind, N, k, new)}), i)
                r = argm(kind, add(N, d), k, subst(old, {sn: k}))
                return r if d is ONE else ite(pos(N), r, ZERO)
    return None


def _at_extremum(k, N, m, best):
    """value kept together with a running minimum or maximum"""
    (s, i, nx), (b, ib, nb) = m, best
    if nx.op != "ite" or nb.op != "ite" or not nx.a[0].op == nb.a[0].op in ("gt", "fgt", "fge"):
        return None
    c = nx.a[0]
    take, g = (c, nx.a[1]) if nx.a[2] is s else (not_(c), nx.a[2])
    f = nb.a[1] if nb.a[2] is b else nb.a[2]
    own = (s.a[0], b.a[0])
    if (nx.a[1] is s) == (nx.a[2] is s) or (nb.a[1] is b) == (nb.a[2] is b) or \
            not g.bv.isdisjoint(own) or not f.bv.isdisjoint(own):
        return None
    isf = c.op != "gt"
    up, dn = gt(f, b, isf), gt(b, f, isf)
    kept = nb.a[0] if nb.a[2] is b else not_(nb.a[0])
    kind = "max" if take is up and kept in (up, not_(dn)) else "min" if take is dn and kept in (dn, not_(up)) else None
    if not kind:
        return None
    kn = k.a[0]
    if subst(f, {kn: ZERO}) is ib and subst(g, {kn: ZERO}) is i:
        return ite(pos(N), subst(g, {kn: argm(kind, N, k, f)}), i)
    return None


def _minmax(kind, i, N, k, t):
    x = minv(kind, N, k, t)
    if i is subst(t, {k.a[0]: ZERO}):
        return x
    if i.op == "num":
        big = abs(i.a[0]) >= 2**31 - 1
        if big and ((kind == "min") == (i.a[0] > 0)):
            return x
    return mk("mm", kind, i, x)


def _delta(nx, s):
    """nx - s when every leaf of nx contains s additively."""
    if nx.op == "ite":
        a, b = _delta(nx.a[1], s), _delta(nx.a[2], s)
        if a is None or b is None or s.a[0] in nx.a[0].bv:
            return None
        return ite(nx.a[0], a, b)
    if nx.op == "poly" or nx is s:
        d = sub(nx, s)
        if s.a[0] in d.bv:
            return None
        return d
    return None


def _general(k, N, X, mus, name):
    need = _closure(mus, [name] + [b for b in X.bv])
    ms = [m for m in mus if m[0].a[0] in need]
    s, i, nx = next(m for m in ms if m[0].a[0] == name)
    if nx is s:
        return i
    bound = {m[0].a[0] for m in ms} | {k.a[0]}
    # loop never entered
    first_exit = subst(X, {**{m[0].a[0]: m[1] for m in ms}, k.a[0]: ZERO})
    if first_exit is T:
        return i
    for t in [X] + [m[2] for m in ms]:
        c = _inv_conds(t, bound)
        if c is not None:
            y, z = ([(a, b, assume(x, c, v)) for a, b, x in ms] for v in (True, False))
            if N is None and t is X:
                # the exit condition may be a number of rounds then
                return ite(c, solve(k, None, assume(X, c, True), y, [s])[0],
                           solve(k, None, assume(X, c, False), z, [s])[0])
            return ite(c, _general(k, N, assume(X, c, True), y, name), _general(k, N, assume(X, c, False), z, name))
    r = _unflag(k, X, ms, name)
    if r is not None:
        return _general(k, N, r[0], r[1], name)
    return _mkloop(k, N, X, ms, name)


def _unflag(k, X, ms, name):
    """A flag that ends the loop at the next test: the loop ends where the flag is raised if the wanted value does
    not change in that iteration."""
    for f, i, g in ms:
        if i is not F or not f.isb or f.a[0] == name or f.a[0] not in X.bv or assume(X, f, True) is not T:
            continue
        Y = assume(X, f, False)
        g = assume(g, f, False)
        if f.a[0] in Y.bv or f.a[0] in g.bv:
            continue
        rest = [(s, j, assume(nx, f, False)) for s, j, nx in ms if s is not f]
        if any(f.a[0] in nx.bv for s, j, nx in rest):
            continue
        s, j, nx = next(m for m in rest if m[0].a[0] == name)
        if ite(and_(not_(Y), g), nx, s) is not s:
            continue
        X2 = or_(Y, g)
        run = not_(X2)
        return X2, [(s, j, constrain(nx, run)) for s, j, nx in rest]
    return None


def _labels(k, ms):
    """Partition refinement of the carried symbols."""
    base = {k.a[0]: sym("$nK", "n")}
    ini = {s.a[0]: i for s, i, nx in ms}
    label = {s.a[0]: _h(b"init" + ini[s.a[0]].h + (b"b" if s.isb else b"n")) for s, i, nx in ms}
    ncls = len(set(label.values()))
    for r in range(len(ms) + 2):
        mp = dict(base)
        for s, i, nx in ms:
            mp[s.a[0]] = sym("$%sL%s" % (s.a[0][1], label[s.a[0]].hex()), s.a[1] if len(s.a) > 1 else None)
        new = {s.a[0]: _h(b"st" + _h(b"i" + ini[s.a[0]].h) + subst(nx, mp).h) for s, i, nx in ms}
        n2 = len(set(new.values()))
        label = new
        if n2 == ncls and (r >= 2 or n2 == len(ms)):
            break
        ncls = n2
    return label


def _mkloop(k, N, X, ms, name):
    """Closed loop node with canonically numbered carried values."""
    if len(ms) == 2 and X is F and N is not None:
        r = _at_extremum(k, N, *sorted(ms, key=lambda m: m[0].a[0] != name))
        if r is not None:
            return r
    tied = False
    if len(ms) > 1:
        exact = _labels(k, ms)
        classes = {}
        for j, (s, i, nx) in enumerate(ms):
            classes.setdefault(exact[s.a[0]], []).append(j)
        rep = [ms[c[0]] for c in classes.values()]
        merge = {}
        for c in classes.values():
            for j in c[1:]:
                merge[ms[j][0].a[0]] = ms[c[0]][0]
        if merge:
            rep = [(s, i, subst(nx, merge)) for s, i, nx in rep]
            X = subst(X, merge)
            name = merge[name].a[0] if name in merge else name
        if len(rep) > 1:
            rep = sorted(rep, key=lambda m: exact[m[0].a[0]])
            own = {m[0].a[0] for m in rep} | {k.a[0]}
            tied = any(not (nx.bv | i.bv) <= own for s, i, nx in rep) or not X.bv <= own
        ms = rep
    idx = next(j for j, m in enumerate(ms) if m[0].a[0] == name)
    temps = [k] + [r[0] for r in ms]
    bodies = [X] + [r[2] for r in ms]
    h = 0
    for b in bodies:
        h = max(h, b.ht)
    m = {t.a[0]: sym("#%d.%d" % (h, i), t.a[1] if len(t.a) > 1 else None) for i, t in enumerate(temps)}
    bs = [subst(b, m) for b in bodies]
    r = mk("loop", h, _kindstr(temps), idx, N if N is not None else F, *[r[1] for r in ms], *bs)
    if tied:
        TIED.add(r)
    return r


def _symkind(ms, nm):
    for s, i, nx in ms:
        if s.a[0] == nm:
            return s.a[1] if len(s.a) > 1 else None
    return None


def _loop_parts(n):
    nb = len(n.a[1])
    return n.a[2], n.a[3], n.a[4:4 + nb - 1], n.a[4 + nb - 1], n.a[4 + nb:]


def _loop_size(n):
    """size of a container carried by a loop"""
    idx, N, inits, X, nexts = _loop_parts(n)
    h = n.a[0]
    me = sym("#%d.%d" % (h, idx + 1))
    nx = nexts[idx]
    if "#%d.%d" % (h, idx + 1) not in nx.bv:
        return None
    if nx.op in ("put", "ins") and nx.a[0] is me and inits[idx].op == "nil" and \
            _distinct_key(nx.a[1], sym("#%d.0" % h, n.a[1][0]), {me.a[0]}):
        s = ONE
    else:
        s = _size_delta(nx, me)
    if s is None:
        return None
    if s is ZERO:
        return size(inits[idx])
    if N is not F and X is F and all("#%d.%d" % (h, j + 1) not in s.bv for j in range(len(inits))):
        k = sym("$nSZ", "n")
        return add(size(inits[idx]), sum_(N, k, subst(s, {"#%d.0" % h: k})))
    return None


def _elem_size(c):
    """size that all the elements of c have"""
    if c.op == "fill":
        return size(c.a[1])
    if c.op == "st":
        e = _elem_size(c.a[0])
        return e if e is not None and size(c.a[2]) is e else None
    if c.op != "loop":
        return None
    idx, N, inits, X, nexts = _loop_parts(c)
    e = _elem_size(inits[idx])
    if e is None:
        return None
    me = sym("#%d.%d" % (c.a[0], idx + 1))

    def base(x):
        while x.op == "st":
            x = x.a[0]
        return x is me

    def keep(x):
        if x is me:
            return True
        if x.op == "ite":
            return keep(x.a[1]) and keep(x.a[2])
        if x.op == "st":
            z = size(x.a[2])
            return (z is e or z.op == "size" and z.a[0].op == "sl" and base(z.a[0].a[0])) and keep(x.a[0])
        return False
    return e if keep(nexts[idx]) else None


def _size_delta(nx, me):
    if nx is me:
        return ZERO
    if nx.op in ("push", "pushf", "seqins"):
        d = _size_delta(nx.a[0], me)
        return None if d is None else add(d, ONE)
    if nx.op == "st":
        return _size_delta(nx.a[0], me)
    if nx.op == "ite":
        a, b = _size_delta(nx.a[1], me), _size_delta(nx.a[2], me)
        if a is None or b is None:
            return None
        return ite(nx.a[0], a, b)
    if nx.op == "eff" and (nx.a[0].a[0], nx.a[1]) in KEEP:
        return _size_delta(nx.a[0].a[KEEP[nx.a[0].a[0], nx.a[1]]], me)
    if nx.op == "loop":
        d = sub(size(nx), mk("size", me))
        return d if me.a[0] not in d.bv else None
    return None


def keeps(n, base, extra=()):
    """n has the size of base: elements are only overwritten"""
    while n is not base:
        if n.op == "st":
            n = n.a[0]
        elif n.op == "ite":
            return keeps(n.a[1], base, extra) and keeps(n.a[2], base, extra)
        elif n.op == "eff" and n.a[0].op == "call":
            pos_ = KEEP.get((n.a[0].a[0], n.a[1])) or (extra.get((n.a[0].a[0], n.a[1])) if extra else None)
            if pos_ is None:
                return False
            n = n.a[0].a[pos_]
        elif n.op == "loop":
            idx, N, inits, X, nexts = _loop_parts(n)
            if not keeps(nexts[idx], sym("#%d.%d" % (n.a[0], idx + 1)), extra):
                return False
            n = inits[idx]
        else:
            return False
    return True


def _loop_sel(n, i):
    """element of a sequence written entry by entry in a counted loop"""
    idx, N, inits, X, nexts = _loop_parts(n)
    if len(inits) != 1 or N is F or X is not F:
        return None
    h = n.a[0]
    me = "#%d.1" % h
    nx = nexts[0]
    kk = "#%d.0" % h
    if nx.op == "st" and nx.a[0].op == "sym" and nx.a[0].a[0] == me and nx.a[1].op == "sym" and nx.a[1].a[0] == kk \
            and me not in nx.a[2].bv:
        inside = _in_range(i, N)
        if inside:
            return subst(nx.a[2], {kk: i})
    # read-modify-write of the own entry
    if nx.op == "st" and nx.a[0].op == "sym" and nx.a[0].a[0] == me and nx.a[1].op == "sym" and nx.a[1].a[0] == kk:
        inside = _in_range(i, N)
        if inside:
            old = sl(inits[0], i)
            own = mk("sl", nx.a[0], nx.a[1])
            v = _replace(nx.a[2], own, sym("$-own"))
            if me not in v.bv:
                return subst(subst(v, {kk: i}), {"$-own": old})
    # appended entries
    if nx.op == "push" and nx.a[0].op == "sym" and nx.a[0].a[0] == me and me not in nx.a[1].bv \
            and inits[0].op == "nil" and _in_range(i, N):
        return subst(nx.a[1], {kk: i})
    return None


_ranges = {}


def note_range(k, n):
    """Records that the temporary k runs over [0,n)."""
    _ranges[k.a[0]] = _ranges.get(k.a[0], ()) + (n,)


def new_range(k):
    _ranges.pop(k.a[0], None)


def _in_range(i, N):
    if i.op == "num" and N.op == "num":
        return 0 <= i.a[0] < N.a[0]
    if i.op == "sym":
        return any(n is N for n in _ranges.get(i.a[0], ()))
    return False


def _entries(n, k, memo):
    """the elements at k of sequences made by loops, now that the range of k is known"""
    if k.a[0] not in n.bv or n.op == "sym":
        return n
    if n.id in memo:
        return memo[n.id]
    if n.op in BINDERS:
        r = n
    else:
        a = [(_entries(x, k, memo) if isinstance(x, Node) else x) for x in n.a]
        hit = n.op == "sl" and n.a[1] is k and n.a[0].op == "loop"
        r = rebuild(n.op, a) if hit or any(x is not y for x, y in zip(a, n.a)) else n
    memo[n.id] = r
    return r


def _replace(n, old, new, memo=None):
    if memo is None:
        memo = {}
    if n is old:
        return new
    if n.id in memo:
        return memo[n.id]
    if n.op in ("sym", "num", "true", "false") or n.op in BINDERS:
        r = n
    else:
        r = rebuild(n.op, [(_replace(x, old, new, memo) if isinstance(x, Node) else x) for x in n.a])
    memo[n.id] = r
    return r


def _erase_filter(k, N, X, mus, outs):
    """while pos != size(C): p(C[pos]) ? erase(C,pos) : ++pos   ->   entries of C without p"""
    if len(mus) != 2:
        return None
    for (c, ci, cn), (p, pi, pn) in (mus, mus[::-1]):
        if pi is not ZERO:
            continue
        if eq(p, size(c)) is not X and not_(gt(size(c), p)) is not X:
            continue
        if cn.op != "ite" or pn.op != "ite":
            continue
        el = mk("sl", c, p)
        b = cn.a[0]
        er = mk("seqera", c, p)
        cond = None
        full = ite(_spine_eq(cn, er), T, F) if False else None
        # condition under which the entry is erased
        e = _leafcond(cn, {er: T, c: F})
        a = _leafcond(pn, {p: F, add(p, ONE): T})
        if e is None or a is None or not_(e) is not a:
            continue
        kk = sym("$nEF", "n")
        elem0 = sl(ci, kk)
        q = _replace(e, el, sym("$-el"))
        if c.a[0] in q.bv or p.a[0] in q.bv:
            continue
        q = subst(q, {"$-el": elem0})
        cur = sym("$-EF")
        n = size(ci)
        r = _fold(kk, n, [(cur, nil("seq"), ite(q, cur, push(cur, elem0)))], cur.a[0])
        m = {c.a[0]: r, p.a[0]: size(r)}
        return [subst(o, m) for o in outs]
    return None


def _leafcond(n, mp):
    if n in mp:
        return mp[n]
    if n.op == "ite":
        a, b = _leafcond(n.a[1], mp), _leafcond(n.a[2], mp)
        if a is None or b is None:
            return None
        return ite(n.a[0], a, b)
    return None


# ------------------------------------------------------------------- rebuild
CONS = {
    "push": push, "pushf": pushf, "popf": popf, "popb": popb, "ins": ins, "dele": dele, "st": st, "sl": sl,
    "put": put, "get": lambda m, k: get(m, k), "fld": fld, "fst": fst, "has": has, "val": val, "size": size,
    "contains": lambda c, x: contains(c, x), "fill": fill, "seqins": seqins, "seqera": seqera, "range": rng,
    "kpos": kpos, "mpos": mpos, "union": union, "append": append, "erat": erat, "eff": eff,
    "resize": resize, "sort": sort, "idiv": idiv, "mod": mod, "not": not_,
}


def rebuild(op, args):
    f = CONS.get(op)
    if f is not None:
        return f(*args)
    if op == "poly":
        r = ZERO
        for m in args:
            r = add(r, m)
        return r
    if op == "mono":
        r = num(args[0])
        for i in range(1, len(args), 2):
            x, e = args[i], args[i + 1]
            y = x if e > 0 else inv(x)
            for _ in range(abs(e)):
                r = mul(r, y)
        return r
    if op in ("gt", "fgt", "fge"):
        L, c = args
        if op == "gt":
            return pos(sub(L, num(c)))
        if op == "fgt":
            return pos(sub(L, num(c)), True)
        return not_(pos(sub(num(c), L), True))
    if op == "ite":
        return ite(*args)
    if op == "mk":
        return aggregate(*args)
    if op == "eq":
        return eq(args[0], args[1], "o")
    if op.startswith("f:"):
        return func(op[2:], *args)
    if op == "bapp":
        x = args[0]
        if x.isb:
            return x
        if x.op == "ite":
            return ite(x.a[0], rebuild("bapp", [x.a[1]]), rebuild("bapp", [x.a[2]]))
        return truth(x)
    if op == "call":
        return call(*args)
    if op == "mm":
        return mk("mm", *args)
    return mk(op, *args)


def truth(n):
    """Boolean reading of a node of unknown sort."""
    if n.isb or n is UNDEF:
        return n
    if n.op == "ite":
        return ite(n.a[0], truth(n.a[1]), truth(n.a[2]))
    if n.op == "num":
        return boolean(n.a[0] != 0)
    r = unsunk(n, truth)
    if r is not None:
        return r
    return mk("bapp", n)


def call(*args):
    """uninterpreted call: key, arguments..."""
    return mk("call", *args)


def _callite(n):
    """an ite in the arguments of the calls of a scalar"""
    stack = [n]
    seen = 0
    while stack:
        x = stack.pop()
        seen += 1
        if seen > 40:
            return None
        if x.op == "call":
            for y in x.a[1:]:
                if isinstance(y, Node) and y.op == "ite":
                    return y.a[0]
        elif x.op in ("eff", "poly", "mono", "bapp", "fld"):
            stack.extend(y for y in x.a if isinstance(y, Node))
    return None


def unsink(n, limit=8):
    """leaves of n with the conditions inside call arguments moved out; None if there are none or too many"""
    c = _callite(n)
    if c is None:
        return None
    work = [(n, T)]

    def go(x, k):
        c = _callite(x)
        if c is None:
            return mk("leaf", x) if False else x, k - 1
        if k <= 0:
            return None, 0
        a, k = go(assume(x, c, True), k)
        if a is None:
            return None, 0
        b, k = go(assume(x, c, False), k)
        if b is None or k < 0:
            return None, 0
        return (c, a, b), k
    r, k = go(n, limit)
    return r


def unsunk(n, fn):
    r = unsink(n)
    if r is None:
        return None

    def go(x):
        return ite(x[0], go(x[1]), go(x[2])) if isinstance(x, tuple) else fn(x)
    return go(r)


# ------------------------------------------------------------------ printing
def show(n, depth=6):
    if not isinstance(n, Node):
        return str(n)
    if n.op == "sym":
        return n.a[0]
    if n.op == "num":
        return str(n.a[0]) if not isinstance(n.a[0], Fraction) else repr(float(n.a[0]))
    if n.op in ("true", "false", "undef"):
        return n.op
    if depth <= 0:
        return "..."
    d = depth - 1
    if n.op == "poly":
        return "(" + " + ".join(show(x, d) for x in n.a) + ")"
    if n.op == "mono":
        s = "" if n.a[0] == 1 else (str(n.a[0]) if not isinstance(n.a[0], Fraction) else repr(float(n.a[0]))) + "*"
        return s + "*".join(show(n.a[i], d) + ("" if n.a[i + 1] == 1 else "^%d" % n.a[i + 1])
                            for i in range(1, len(n.a), 2))
    if n.op in ("gt", "fgt"):
        return "%s > %s" % (show(n.a[0], d), n.a[1] if not isinstance(n.a[1], Fraction) else float(n.a[1]))
    if n.op == "fge":
        return "%s >= %s" % (show(n.a[0], d), n.a[1] if not isinstance(n.a[1], Fraction) else float(n.a[1]))
    if n.op == "ite":
        return "(%s ? %s : %s)" % (show(n.a[0], d), show(n.a[1], d), show(n.a[2], d))
    if n.op == "sl":
        return "%s[%s]" % (show(n.a[0], d), show(n.a[1], d))
    if n.op == "fld":
        return "%s.%s" % (show(n.a[0], d), n.a[1])
    return "%s(%s)" % (n.op, ", ".join(show(x, d) for x in n.a))
