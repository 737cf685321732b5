"""Equality of terms whose normal forms differ: congruence with case distinction on the conditions inside."""
import itertools

import terms as T
from terms import Node


import os
TRACE = int(os.environ.get('VTRACE', 0))


NTRY = 6


class Out(Exception):
    pass


def extent(n):
    """number of different subterms"""
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id not in seen:
            seen.add(x.id)
            stack.extend(y for y in x.a if isinstance(y, Node))
    return len(seen)


def conditions(n, limit=400):
    """conditions of the alternatives inside n, outside loop bodies"""
    out = []
    seen = set()
    stack = [n]
    while stack and len(seen) < limit:
        x = stack.pop()
        if x.id in seen or not x.cnd:
            continue
        seen.add(x.id)
        if x.op == "ite":
            out.append(x.a[0])
        if x.op in T.BINDERS:
            outer, _ = T.BSPEC[x.op](x)
            stack.extend(y for y in outer if isinstance(y, Node))
        else:
            stack.extend(y for y in x.a if isinstance(y, Node))
    return out


def spine(n, limit=40):
    out = []
    seen = set()
    stack = [n]
    while stack and len(seen) < limit:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        t = T._top(x)
        if t is not None:
            out.append(t)
        if x.op == "ite":
            stack += [x.a[1], x.a[2]]
    return out


class Same:
    def __init__(self, steps=60000):
        self.steps = steps
        self.memo = {}
        self.reason = {}
        self.uses = {}
        self.facts = []     # conditions decided so far, each simplified by the later ones
        self.given = []     # as they were
        self.subs = []      # variables that are determined by them
        self.vacuous = False
        self.why = None

    def equal(self, x, y, seconds=15):
        """True, False or None (not decided within the budget)"""
        self.left = self.steps
        self.end = T.clock() + seconds
        self.facts = []
        self.given = []
        self.subs = []
        self.vacuous = False
        try:
            r = self.same(x, y, ())
            while TRACE and not r and self.why:
                x, y, self.why = self.reason[self.why]
                print("no", T.show(x, TRACE)[:1700], "\n ||", T.show(y, TRACE)[:1700], flush=True)
            return r
        except (Out, RecursionError):
            return None

    # ctx: ((L, lo, hi), ...) known bounds
    def same(self, x, y, ctx):
        if x is y:
            return True
        if not isinstance(x, Node) or not isinstance(y, Node):
            return x == y
        self.left -= 1
        if self.left < 0 or T.clock() > self.end:
            raise Out
        key = (x.id, y.id, frozenset((c[0].id, c[1], c[2]) for c in ctx if c[0].id in x.cnd or c[0].id in y.cnd),
               frozenset((f.id, v) for f, v in self.facts if f.op == "contains" and
                         (self.tests(x, f.a[0]) or self.tests(y, f.a[0])) or
                         f.op == "has" and (self.occurs(x, f.a[0]) or self.occurs(y, f.a[0]))))
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            old, self.why = self.why, None
            was, self.vacuous = self.vacuous, False
            try:
                r = self.memo[key] = self.work(x, y, ctx)
            except (Out, RecursionError, T.Budget):
                del self.memo[key]
                raise
            if r and self.vacuous:
                # holds for the conditions decided around it
                del self.memo[key]
            self.vacuous = was or r and self.vacuous
            self.reason[key] = (x, y, self.why)
            self.why = old
        if not r:
            self.why = key
        return r

    def match(self, a, b, ctx):
        """True: the conditions are equal; False: they compare opposite values; None: not known"""
        if self.congruent(a, b, ctx):
            return True
        if a.op == "gt" and a.a[0].op == "poly" and b.a[0].op == "poly" and \
                len(a.a[0].a) == len(b.a[0].a) and self.congruent(a.a[0], T.scale(b.a[0], -1), ctx):
            return False
        return None

    def unified(self, y, a, b, agree, ctx):
        """y with what condition b is about replaced by the equal values of condition a"""
        if a.op != "gt" or a.a[0].op != "poly" or b.a[0].op != "poly":
            return None
        px, py = T._poly(a.a[0]), T._poly(b.a[0] if agree else T.scale(b.a[0], -1))
        one = [(m, c) for m, c in px.items() if py.get(m) != c]
        two = [(m, c) for m, c in py.items() if px.get(m) != c]
        w = y
        for m, c in one:
            for n, d in two:
                if c == d and len(m) == len(n) == 2 and m[1] == n[1] == 1 and self.monos((m, c), (n, d), ctx):
                    if T._exchange(m[0], n[0], T.ZERO, {}) is m[0]:
                        w = T._exchange(w, n[0], m[0], {})
                    two.remove((n, d))
                    break
        return None if w is y else w

    def tests(self, n, c):
        """does n depend on which elements c has"""
        key = (n.id, c.id)
        r = self.uses.get(key)
        if r is None:
            if n.op == "contains" and n.a[0] is c:
                r = True
            elif not n.cnd or not c.bv <= n.bv:
                r = False
            else:
                r = any(self.tests(x, c) for x in n.a if isinstance(x, Node))
            self.uses[key] = r
        return r

    def occurs(self, n, c):
        key = (n.id, c.id, 0)
        r = self.uses.get(key)
        if r is None:
            r = n is c or c.bv <= n.bv and any(self.occurs(x, c) for x in n.a if isinstance(x, Node))
            self.uses[key] = r
        return r

    def now(self, n):
        """n where the conditions decided so far hold"""
        for f, v in self.given + self.facts:
            if f is not T.T and f is not T.F and f.op != "ite":
                n = T.assume(n, f, v)
        return n

    def parts(self, x, y, ctx):
        """one side is put together from parts, the other one is not"""
        for p, q in ((x, y), (y, x)):
            if p.op == "mk" and p.a[0] == "opt" and q.op != "mk":
                h, v = self.now(T.has(q)), self.now(T.val(q))
                return self.same(self.now(p.a[1]), h, ctx) and \
                    (h is T.F or self.same(T.ite(h, p.a[2], T.UNDEF), T.ite(h, v, T.UNDEF), ctx))
            if p.op == "st" and q.op != "st":
                return self.same(p.a[0], q, ctx) and self.same(p.a[2], self.now(T.sl(q, p.a[1])), ctx)
        return False

    def split(self, x, y, a, b, ctx, agree=True):
        """case distinction on condition a of x (b of y)"""
        for v in (True, False):
            c2, s = self.bound(ctx, a, v)
            if c2 is None:
                continue
            u, w = T.assume(x, a, v), T.assume(y, b, v is agree)
            if a is not b:
                u, w = T.assume(u, b, v is agree), T.assume(w, a, v)
            for c, z in ((a, v), (b, v is agree)):
                # a missing entry counts as zero
                if c.op == "contains" and not z:
                    g = T.mk("get", *c.a)
                    u, w = T._exchange(u, g, T.ZERO, {}), T._exchange(w, g, T.ZERO, {})
            known, given = self.facts, self.given
            self.given = given + ([(a, v)] if a is b else [(a, v), (b, v is agree)])
            self.facts = [(T.assume(f, a, v), z) for f, z in known] + [(a, v)]
            if a is not b:
                self.facts = [(T.assume(f, b, v is agree), z) for f, z in self.facts] + [(b, v is agree)]
            subs = self.subs
            if s is not None:
                # the other determined variables may appear in another form now
                self.subs = [s] + [t for t in ((T._exchange(p, *s, {}), T._exchange(q, *s, {})) for p, q in subs)
                                   if t[0].op not in ("num", "true", "false")]
                for p, q in self.subs:
                    memo = {}
                    u, w = T._exchange(u, p, q, memo), T._exchange(w, p, q, memo)
                    self.facts = [(T._exchange(f, p, q, memo), z) for f, z in self.facts]
            if not self.same(u, w, c2):
                if not self.contradiction() and not self.cases(u, w, c2):
                    self.facts, self.given, self.subs = known, given, subs
                    return False
                self.vacuous = True
            self.facts, self.given, self.subs = known, given, subs
        return True

    def cases(self, u, w, ctx):
        """do the conditions exclude each of the few values a variable can have"""
        if u not in (T.T, T.F) or w not in (T.T, T.F):
            return False
        for L, lo, hi in ctx:
            if lo is not None and hi is not None and 0 < hi - lo < 4:
                a = T.gt(L, T.num(lo))
                if a.op == "gt" and a.a[0] is L:
                    return self.split(u, w, a, a, ctx)
        return False

    def contradiction(self):
        """can the conditions decided so far not hold together"""
        fs = self.facts
        for i, (f, v) in enumerate(fs):
            if f is T.T or f is T.F:
                if (f is T.T) != v:
                    return True
                continue
            if f.op == "ite":
                continue
            for j, (g, w) in enumerate(fs):
                if i != j:
                    h = T.assume(g, f, v)
                    if h is T.F if w else h is T.T:
                        return True
        return any(self.now(n) is T.F for n in ended(self.given))

    def inside(self, ctx, k, n):
        """k < n"""
        c = T.pos(T.sub(n, k))
        if c.op == "gt":
            c2, s = self.bound(ctx, c, True)
            return ctx if c2 is None or s else c2
        if c.op == "ite" and c.a[0].op == "gt" and c.a[1] is T.F and c.a[2] is T.T:
            c2, s = self.bound(ctx, c.a[0], False)
            return ctx if c2 is None or s else c2
        return ctx

    def bound(self, ctx, a, v):
        """bounds after condition a has value v, and a variable that is determined then"""
        if a.op != "gt":
            return ctx, None
        L, c = a.a
        lo, hi = None, None
        rest = []
        for e in ctx:
            if e[0] is L:
                lo, hi = e[1], e[2]
            else:
                rest.append(e)
        if L.nn and (lo is None or lo < 0):
            lo = 0
        lo, hi = rounds(L, lo, hi)
        was = lo == hi and lo is not None
        if v:
            lo = c + 1 if lo is None else max(lo, c + 1)
        else:
            hi = c if hi is None else min(hi, c)
        if lo is not None and hi is not None and lo > hi:
            return None, None
        s = None
        if lo is not None and lo == hi and not was:
            pl = T._poly(L)
            for m, k in sorted(pl.items(), key=lambda mc: T._mkey(mc[0])):
                if k in (1, -1) and len(m) == 2 and m[1] == 1:
                    d = {x: -y * k for x, y in pl.items() if x != m}
                    d[()] = d.get((), 0) + k * lo
                    e = T._unpoly({x: y for x, y in d.items() if y})
                    if T._exchange(e, m[0], T.ZERO, {}) is e:
                        s = (m[0], e)
                        break
        return tuple(rest) + ((L, lo, hi),), s

    def work(self, x, y, ctx):
        if x.op == "ite" or y.op == "ite" or x.isb or y.isb:
            if x.op == y.op and x.op not in ("ite", "sym") and self.congruent(x, y, ctx):
                return True
            a, b = T._top(x), T._top(y)
            if a is None and b is None:
                return False
            if a is not None and b is not None and a is not b:
                # conditions that differ in form only
                if not _has(y, a):
                    for z in spine(y):
                        if z.op == a.op and z is not a and not _has(x, z):
                            m = self.match(a, z, ctx)
                            if m is not None:
                                w = self.unified(y, a, z, m, ctx)
                                if w is not None:
                                    return self.same(x, w, ctx)
                                if m or a.a[1] == -1 - z.a[1]:
                                    return self.split(x, y, a, z, ctx, m)
                if not _has(x, b):
                    for z in spine(x):
                        if z.op == b.op and z is not b and not _has(y, z):
                            m = self.match(z, b, ctx)
                            if m is not None:
                                w = self.unified(y, z, b, m, ctx)
                                if w is not None:
                                    return self.same(x, w, ctx)
                                if m or z.a[1] == -1 - b.a[1]:
                                    return self.split(x, y, z, b, ctx, m)
            c = min((z for z in (a, b) if z is not None), key=T.okey)
            if not (_has(x, c) and _has(y, c)):
                # a condition on alternatives: decide between these first
                for z in sorted(conditions(c), key=T.okey):
                    if T.assume(c, z, True) is not c and T.assume(c, z, False) is not c:
                        return self.split(x, y, z, z, ctx)
            return self.split(x, y, c, c, ctx)
        if x.op == y.op and self.congruent(x, y, ctx) or self.parts(x, y, ctx):
            return True
        # alternatives inside the arguments
        cs = conditions(x) or conditions(y)
        if cs:
            c = min(cs, key=T.okey)
            u = [(T.assume(x, c, v), T.assume(y, c, v)) for v in (True, False)]
            if any(p is not x or q is not y for p, q in u):
                return self.split(x, y, c, c, ctx)
        return False

    def congruent(self, x, y, ctx):
        if x.op != y.op:
            return False
        if x.op in ("poly", "mono"):
            return self.sums(x, y, ctx)
        if x.op in ("sym", "num", "str"):
            return x is y
        if x.op == "loop":
            return self.loops(x, y, ctx)
        if x.op in T.BINDERS:
            if x.a[1] != y.a[1]:
                return False
            ox, bx = T.BSPEC[x.op](x)
            oy, by = T.BSPEC[y.op](y)
            if len(ox) != len(oy) or not all(self.same(u, v, ctx) for u, v in zip(ox, oy)):
                return False
            tag = max(x.ht, y.ht)
            bx, by = self.opened(x, bx, tag), self.opened(y, by, tag)
            if x.op != "fn" and isinstance(ox[-1], Node):
                ctx = self.inside(ctx, T.sym("$ne%d.0" % tag, "n"), ox[-1])
            return all(self.same(u, v, ctx) for u, v in zip(bx, by))
        if len(x.a) != len(y.a):
            return False
        for u, v in zip(x.a, y.a):
            if isinstance(u, Node) != isinstance(v, Node) or not isinstance(u, Node) and u != v:
                return False
        if x.op == "ins":
            return self.insertions(x, y, ctx)
        if x.op == "union" and T._nilkind(x.a[0]) == T._nilkind(y.a[0]) and \
                self.same(x.a[0], y.a[1], ctx) and self.same(x.a[1], y.a[0], ctx):
            return True
        if x.op in ("gt", "fgt", "fge"):
            return x.a[1] == y.a[1] and self.same(x.a[0], y.a[0], ctx)
        for u, v in zip(x.a, y.a):
            if isinstance(u, Node) and not self.same(u, v, ctx):
                return False
        return True

    def opened(self, n, bodies, tag):
        m = {"#%d.%d" % (n.a[0], i): T.sym("$%se%d.%d" % (c, tag, i), c if c != "-" else None) for i, c in enumerate(n.a[1])}
        return [T.subst(b, m) for b in bodies]

    def sums(self, x, y, ctx):
        px, py = T._poly(x), T._poly(y)
        a = [(m, c) for m, c in px.items() if py.get(m) != c]
        b = [(m, c) for m, c in py.items() if px.get(m) != c]
        return self.pair(a, b, lambda u, v: self.monos(u, v, ctx))

    def pair(self, a, b, eq):
        if len(a) != len(b) or len(a) > 6:
            return False
        if not a:
            return True
        for j, v in enumerate(b):
            if eq(a[0], v) and self.pair(a[1:], b[:j] + b[j + 1:], eq):
                return True
        return False

    def monos(self, u, v, ctx):
        (m, c), (n, d) = u, v
        if c != d or len(m) != len(n):
            return False
        fa = [(m[i], m[i + 1]) for i in range(0, len(m), 2)]
        fb = [(n[i], n[i + 1]) for i in range(0, len(n), 2)]
        return self.pair(fa, fb, lambda p, q: p[1] == q[1] and p[0].op == q[0].op and self.same(p[0], q[0], ctx))

    def insertions(self, x, y, ctx):
        def chain(n):
            out = []
            while n.op == "ins":
                out.append(n.a[1:])
                n = n.a[0]
            return n, out
        bx, ex = chain(x)
        by, ey = chain(y)
        if not self.same(bx, by, ctx):
            return False
        a = [e for e in ex if e not in ey]
        b = [e for e in ey if e not in ex]
        return self.pair(a, b, lambda p, q: len(p) == len(q) and p[1:] == q[1:] and self.same(p[0], q[0], ctx))

    def loops(self, x, y, ctx):
        if len(x.a[1]) != len(y.a[1]) or sorted(x.a[1]) != sorted(y.a[1]):
            return False
        ix, Nx, inx, Xx, nxx = T._loop_parts(x)
        iy, Ny, iny, Xy, nxy = T._loop_parts(y)
        if not self.same(Nx, Ny, ctx):
            return False
        kx, ky = x.a[1], y.a[1]
        m = len(inx)
        cand = []
        for j in range(m):
            c = [l for l in range(m) if kx[j + 1] == ky[l + 1] and inx[j] is iny[l]] or \
                [l for l in range(m) if kx[j + 1] == ky[l + 1] and self.same(inx[j], iny[l], ctx)]
            if j == ix:
                c = [l for l in c if l == iy]
            else:
                c = [l for l in c if l != iy]
            if not c:
                return False
            cand.append(c)
        tag = max(x.ht, y.ht)
        cx = {"#%d.0" % x.a[0]: T.sym("$ne%d.k" % tag, "n")}
        for j in range(m):
            k = kx[j + 1]
            cx["#%d.%d" % (x.a[0], j + 1)] = T.sym("$%se%d.%d" % (k, tag, j), k if k != "-" else None)
        own = [cx["#%d.%d" % (x.a[0], j + 1)] for j in range(m)]
        if Nx is not T.F:
            ctx = self.inside(ctx, cx["#%d.0" % x.a[0]], Nx)
        bx = [T.subst(b, cx) for b in (Xx,) + tuple(nxx)]

        def going(bodies):
            # what the values become where the loop ends is not used
            return [bodies[0]] + [T.ite(bodies[0], s, b) for s, b in zip(own, bodies[1:])]
        tried = []
        for pm in itertools.islice(assignments(cand), 120):
            cy = {"#%d.0" % y.a[0]: cx["#%d.0" % x.a[0]]}
            for j, l in enumerate(pm):
                cy["#%d.%d" % (y.a[0], l + 1)] = cx["#%d.%d" % (x.a[0], j + 1)]
            by = [T.subst(Xy, cy)] + [T.subst(nxy[l], cy) for l in pm]
            n = sum(u is v for u, v in zip(bx, by))
            if n == m + 1:
                return True
            alike = sum(len(u.bv & v.bv) - len(u.bv ^ v.bv) for u, v in zip(bx, by) if u is not v)
            tried.append((10 * n + alike, len(tried), by))
        tried.sort(key=lambda t: (-t[0], t[1]))
        if Xx is not T.F:
            bx = going(bx)
            tried = [(n, k, going(by)) for n, k, by in tried[:NTRY]]
        for n, _, by in tried[:NTRY]:
            if all(self.same(u, v, ctx) for u, v in zip(bx, by)):
                return True
        return False


def rounds(L, lo, hi):
    """bounds of L: the number of rounds of a loop is not above its limit"""
    if L.op == "poly":
        for m, c in T._poly(L).items():
            if c in (1, -1) and len(m) == 2 and m[1] == 1 and m[0].op == "loop" and m[0].a[3] is not T.F:
                idx, N, inits, X, nexts = T._loop_parts(m[0])
                me = T.sym("#%d.%d" % (m[0].a[0], idx + 1), "n")
                d = T.add(L, T.scale(T.sub(m[0], N), -c))
                if inits[idx] is T.ZERO and nexts[idx] is T.add(me, T.ONE) and d.op == "num":
                    d = d.a[0]
                    if c == 1:
                        hi = d if hi is None else min(hi, d)
                    else:
                        lo = d if lo is None else max(lo, d)
    return lo, hi


def ended(facts):
    """exit conditions, in the last state, of the loops that the facts are about"""
    out = []
    seen = set()
    for f, v in facts:
        # not run to the end of the sequence that it empties
        n = f.a[0].a[0] if v and f.op == "gt" and f.a[1] >= 0 and f.a[0].op == "size" else None
        if n is not None and n.op == "loop" and n.a[3] is not T.F:
            idx, N, inits, X, nexts = T._loop_parts(n)
            me = T.sym("#%d.%d" % (n.a[0], idx + 1))
            if N is T.size(inits[idx]) and T.sub(T.size(nexts[idx]), T.size(me)) is T.num(-1):
                out.append(exited(n))
        if v and f.op == "exists":
            # the first position has what the condition asks for
            out.append(T.subst(f.a[3], {"#%d.0" % f.a[0]: T.mk("first", *f.a)}))
        stack = [f]
        while stack and len(seen) < 400:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "loop" and x.a[3] is T.F:
                out.append(exited(x))
            stack.extend(y for y in (T.BSPEC[x.op](x)[0] if x.op in T.BINDERS else x.a) if isinstance(y, Node))
    return [x for x in out if x is not None]


def exited(n):
    """the exit condition in the last state of a loop"""
    h = n.a[0]
    idx, N, inits, X, nexts = T._loop_parts(n)
    last = {"#%d.%d" % (h, j + 1): T.mk("loop", h, n.a[1], j, *n.a[3:]) for j in range(len(inits))}
    if "#%d.0" % h in X.bv:
        for j, (i, nx) in enumerate(zip(inits, nexts)):
            if i is T.ZERO and nx is T.add(T.sym("#%d.%d" % (h, j + 1), "n"), T.ONE):
                last["#%d.0" % h] = last["#%d.%d" % (h, j + 1)]
                break
        else:
            return None
    return T.subst(X, last)


def assignments(cand):
    """one-to-one choices from the lists of candidates"""
    order = sorted(range(len(cand)), key=lambda j: len(cand[j]))
    pick = [None] * len(cand)

    def go(i, used):
        if i == len(order):
            yield list(pick)
            return
        j = order[i]
        for l in cand[j]:
            if l not in used:
                pick[j] = l
                yield from go(i + 1, used | {l})
    yield from go(0, frozenset())


def _has(n, atom):
    return (atom.a[0].id if atom.op in ("gt", "fgt", "fge") else atom.id) in n.cnd
