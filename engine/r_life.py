"""Lifetimes: retained references, escaping locals, destructors, ownership, slicing, moved-from and invalidated objects."""
from walk import walk, functions, where
from r_state import base_ref

TEXT = {
    "retained-reference": "an object that keeps a reference to an argument does not outlive what the reference is bound to "
                          "(propagated from members through constructors, factories and returned objects)",
    "no-escaping-local": "no reference, pointer, iterator or by-reference closure to a local leaves its function",
    "virtual-destructor": "a class with virtual functions that is used as a base has a virtual destructor",
    "ownership": "library objects are held by value or owning pointer: no raw pointer members, no naked new or delete, no "
                 "second owner made from a raw pointer",
    "ownership-cycle": "the graph of owning pointers between classes has no cycle",
    "no-slicing": "no object of a derived class is copied as one of its base",
    "use-after-move": "a variable is not read after its content was moved away, before it is given a new value",
    "invalidation": "no reference, iterator or range loop is used after the container element it designates was destroyed or moved",
}

SMART = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")
SEQV = ("std::vector",)
SEQD = ("std::deque",)
UNORD = ("std::unordered_set", "std::unordered_map")
ORD = ("std::set", "std::map", "std::multiset", "std::list")


def is_ref(p, t):
    return p.ty(t)["c"] == "ref"


def is_iter(p, t):
    x = p.strip(t)
    return x["c"] == "rec" and "iterator" in (x.get("r") or "").lower()


# ---------------------------------------------------------------------------------------------- retained references
class Retention:
    def __init__(self, p):
        self.p = p
        self.ret = {}           # function id -> {param index: member it is bound to}
        self.out = []
        self.sites = 0
        self.refvars = {}
        self.ctors = {}
        for f in p.funcs.values():
            if f["kind"] == "ctor" and not f.get("copy") and not f.get("mv"):
                self.ctors.setdefault(f["cls"], []).append(f)
        self.derived = p.overriders

    def params(self, f):
        return {a["id"]: i for i, a in enumerate(f["params"])}

    def root(self, e, depth=0):
        """('tmp',) | ('var', ref node) | ('other',): what a reference bound to e designates"""
        p = self.p
        while isinstance(e, dict) and depth < 40:
            depth += 1
            k = e.get("k")
            if k == "ref":
                i = e.get("id")
                if i in self.refvars and e.get("dk") != "param":
                    init = self.refvars[i]
                    if init is None:
                        return ("other",)
                    e = init
                    continue
                return ("var", e)
            if k == "mem":
                if e.get("arrow") or e.get("b") is None:
                    return ("other",)
                e = e["b"]
                continue
            if k == "sub":
                e = e["a"]
                continue
            if k == "opcall" and e.get("op") == "[]":
                r = p.strip(e["args"][0]["t"]).get("r") if e["args"][0].get("t") is not None else None
                e = e["args"][0]
                continue
            if k == "mcall" and e.get("n") in ("at", "front", "back", "operator[]", "begin", "end", "cbegin", "cend", "data", "value"):
                e = e["o"]
                continue
            if k == "cast":
                e = e["a"]
                continue
            if k in ("call",) and e.get("move") and e.get("args"):
                e = e["args"][0]
                continue
            if k == "cond":
                a, b = self.root(e["a"], depth), self.root(e["b"], depth)
                return a if a[0] != "other" else b
            if e.get("mat"):
                return ("tmp", e)
            if k in ("ctor", "ilist") and not e.get("lv"):
                return ("tmp", e)
            if k in ("call", "mcall", "opcall") and not e.get("lv"):
                return ("tmp", e)
            return ("other",)
        return ("other",)

    def creations(self, e):
        """(class constructors or functions called by e, arguments) when e makes an object or calls a retaining function"""
        p = self.p
        k = e.get("k")
        if k == "call" and e.get("n") in ("make_shared", "make_unique") and e.get("ta") and "t" in e["ta"][0]:
            q = p.rec(e["ta"][0]["t"])
            cs = [c for c in self.ctors.get(q, []) if len(c["params"]) >= len(e["args"])
                  and all("def" in a or "hasdef" in a for a in c["params"][len(e["args"]):])]
            return cs, e["args"]
        if k == "ctor" and e.get("f") in p.funcs:
            return [p.funcs[e["f"]]], e.get("args") or []
        if k == "mcall" and e.get("in"):
            fs = []
            f = p.funcs.get(e.get("f"))
            if f is not None:
                fs.append(f)
            base = f["over"][0] if f is not None and f.get("over") else e.get("f")
            fs += [p.funcs[i] for i in p.overriders.get(base, []) if i in p.funcs] if e.get("virt") else []
            return fs, e.get("args") or []
        if k == "call" and e.get("in") and e.get("f") in p.funcs:
            return [p.funcs[e["f"]]], e.get("args") or []
        return [], []

    def kept(self, e):
        """indices of the arguments that the object made by e refers to"""
        fs, args = self.creations(e)
        out = {}
        for f in fs:
            out.update(self.ret.get(f["id"], {}))
        return out, args

    def run(self):
        p = self.p
        for rnd in range(6):
            self.out = []
            self.sites = 0
            changed = False
            for f in functions(p):
                if f["kind"] == "lambda":
                    continue
                r = dict(self.ret.get(f["id"], {}))
                self.function(f, r)
                if r != self.ret.get(f["id"], {}):
                    self.ret[f["id"]] = r
                    changed = True
            if not changed:
                break
        return self

    def bad(self, f, e, what):
        self.out.append((f, where(self.p, e, f), what))

    def function(self, f, r):
        p = self.p
        idx = self.params(f)
        scopes = {}        # variable id -> scope path
        self.refvars = {}
        byval = {a["id"] for a in f["params"] if not is_ref(p, a["t"])}

        # member initialisers
        for i in f.get("inits") or []:
            e = i.get("e")
            if i.get("f") and e is not None:
                t = p.ty(i["ft"])
                if t["c"] == "ref" or t["c"] == "ptr" or is_iter(p, i["ft"]):
                    self.sites += 1
                    x = e
                    if t["c"] == "ptr":
                        if e.get("k") == "un" and e.get("op") == "&":
                            x = e["a"]
                        elif e.get("k") == "mcall" and e.get("n") == "data":
                            x = e["o"]
                        else:
                            continue
                    ro = self.root(x)
                    if ro[0] == "tmp":
                        self.bad(f, e, "member %s refers to a temporary" % i["f"])
                    elif ro[0] == "var":
                        v = ro[1].get("id")
                        if v in byval:
                            self.bad(f, e, "member %s refers to the argument %s passed by value" % (i["f"], ro[1].get("n")))
                        elif v in idx:
                            r[idx[v]] = i["f"]
                elif e.get("k") in ("ctor", "call", "mcall"):
                    self.escape(f, e, idx, byval, r, {}, "member %s" % i["f"])
            elif e is not None and (i.get("base") or i.get("deleg")):
                self.escape(f, e, idx, byval, r, {}, "the object")

        def scan(s, path):
            """collects declarations with their scope"""
            if isinstance(s, list):
                for x in s:
                    scan(x, path)
                return
            if not isinstance(s, dict):
                return
            k = s.get("k")
            if k == "lambda":
                return
            if k == "decl":
                for d in s["d"]:
                    decl(d, path)
                    scan(d.get("init"), path)
                return
            if k in ("block", "if", "for", "while", "do", "rfor", "switch"):
                path = path + (id(s),)
                if k == "rfor":
                    d = s["var"]
                    scopes[d["id"]] = path
                    if is_ref(p, d["t"]):
                        self.refvars[d["id"]] = s["range"]
                if s.get("cv"):
                    decl(s["cv"], path)
            for v in s.values():
                if isinstance(v, (dict, list)):
                    scan(v, path)

        def decl(d, path):
            scopes[d["id"]] = path
            for b in d.get("bind") or []:
                scopes[b["id"]] = path
                if is_ref(p, d["t"]):
                    self.refvars[b["id"]] = d.get("init")
            if d.get("static"):
                scopes.pop(d["id"])
                self.refvars[d["id"]] = None
            elif is_ref(p, d["t"]):
                init = d.get("init")
                # a temporary bound to a local reference lives as long as it
                self.refvars[d["id"]] = None if init is None else ({"k": "ref", "id": d["id"], "dk": "local", "n": d["n"]}
                                                                   if init.get("mat") else init)
                if init is not None and init.get("mat"):
                    self.refvars.pop(d["id"])
        scan(f.get("body"), ())

        def visit(s, path):
            if isinstance(s, list):
                for x in s:
                    visit(x, path)
                return
            if not isinstance(s, dict):
                return
            k = s.get("k")
            if k == "lambda":
                return
            if k in ("block", "if", "for", "while", "do", "rfor", "switch"):
                path = path + (id(s),)
            if k == "decl":
                for d in s["d"]:
                    if d.get("init"):
                        self.held(f, d["init"], scopes.get(d["id"]), idx, byval, r, scopes, d["n"])
            elif k == "return" and s.get("e"):
                self.escape(f, s["e"], idx, byval, r, scopes, "the returned object")
            elif k in ("assign",) or k == "opcall" and s.get("op") == "=":
                a, b = (s["a"], s["b"]) if k == "assign" else (s["args"][0], s["args"][1] if len(s["args"]) > 1 else None)
                ro = self.root(a)
                if b is not None:
                    if ro[0] == "var" and ro[1].get("id") in scopes:
                        self.held(f, b, scopes[ro[1]["id"]], idx, byval, r, scopes, ro[1].get("n"))
                    else:
                        self.escape(f, b, idx, byval, r, scopes, "the stored object")
            elif k == "mcall" and s.get("n") in ("push_back", "emplace_back", "insert", "emplace", "push_front", "reset", "push"):
                ro = self.root(s["o"])
                for b in s.get("args") or []:
                    if ro[0] == "var" and ro[1].get("id") in scopes:
                        self.held(f, b, scopes[ro[1]["id"]], idx, byval, r, scopes, ro[1].get("n"))
                    elif ro[0] == "other":
                        self.escape(f, b, idx, byval, r, scopes, "the stored object")
            for v in s.values():
                if isinstance(v, (dict, list)):
                    visit(v, path)
        visit(f.get("body"), ())

    def held(self, f, e, scope, idx, byval, r, scopes, name):
        """an object made by e is held by a variable of the given scope"""
        if not isinstance(e, dict) or scope is None:
            return
        kept, args = self.kept(e)
        if e.get("k") == "ctor" and not kept and len(e.get("args") or []) == 1:
            return self.held(f, e["args"][0], scope, idx, byval, r, scopes, name)
        if e.get("k") == "cond":
            self.held(f, e["a"], scope, idx, byval, r, scopes, name)
            self.held(f, e["b"], scope, idx, byval, r, scopes, name)
            return
        for i, member in kept.items():
            if i >= len(args):
                continue
            self.sites += 1
            ro = self.root(args[i])
            if ro[0] == "tmp":
                self.bad(f, e, "%s keeps a reference (%s) to a temporary" % (name, member))
            elif ro[0] == "var" and ro[1].get("id") in scopes:
                s = scopes[ro[1]["id"]]
                if s != scope[:len(s)]:
                    self.bad(f, e, "%s keeps a reference (%s) to %s, which is destroyed earlier" % (name, member, ro[1].get("n")))

    def escape(self, f, e, idx, byval, r, scopes, name):
        """an object made by e outlives the function"""
        if not isinstance(e, dict):
            return
        kept, args = self.kept(e)
        if e.get("k") == "ctor" and not kept and len(e.get("args") or []) == 1:
            return self.escape(f, e["args"][0], idx, byval, r, scopes, name)
        if e.get("k") == "cond":
            self.escape(f, e["a"], idx, byval, r, scopes, name)
            self.escape(f, e["b"], idx, byval, r, scopes, name)
            return
        for i, member in kept.items():
            if i >= len(args):
                continue
            self.sites += 1
            ro = self.root(args[i])
            if ro[0] == "tmp":
                self.bad(f, e, "%s keeps a reference (%s) to a temporary" % (name, member))
            elif ro[0] == "var":
                v = ro[1].get("id")
                if v in scopes or v in byval:
                    self.bad(f, e, "%s keeps a reference (%s) to the local %s" % (name, member, ro[1].get("n")))
                elif v in idx:
                    r[idx[v]] = member


# ------------------------------------------------------------------------------------------------- escaping locals
def escaping(p, add):
    for f in sorted(functions(p), key=lambda f: f["id"]):
        bad = []
        local = {}
        par = {a["id"]: a for a in f["params"]}

        def decls(e, pr):
            if e.get("k") == "decl":
                for d in e["d"]:
                    if not d.get("static"):
                        local[d["id"]] = d
            elif e.get("k") == "rfor":
                local[e["var"]["id"]] = e["var"]
        walk(f.get("body"), decls)
        rt = f.get("ret")
        kind = None
        if rt is not None and f["kind"] not in ("ctor", "dtor"):
            t = p.ty(rt)
            kind = "reference" if t["c"] == "ref" else "pointer" if t["c"] == "ptr" else "iterator" if is_iter(p, rt) else None
        own = set()

        def returns(e, pr):
            if e.get("k") == "lambda":
                own.add(id(e))
            if e.get("k") != "return" or not e.get("e") or kind is None:
                return
            x = e["e"]
            if kind == "pointer":
                if x.get("k") == "un" and x.get("op") == "&":
                    x = x["a"]
                elif x.get("k") == "mcall" and x.get("n") == "data":
                    x = x["o"]
                else:
                    return
            if kind == "reference" and x.get("mat"):
                bad.append("returns a reference to a temporary at %s" % where(p, e, f))
                return
            b = x
            if kind == "iterator":
                while isinstance(b, dict) and b.get("k") in ("ctor", "cast", "opcall") and (b.get("args") or b.get("a")):
                    b = b["args"][0] if b.get("args") else b["a"]
                if not (isinstance(b, dict) and b.get("k") == "mcall" and b.get("n") in
                        ("begin", "end", "cbegin", "cend", "find", "rbegin", "rend", "lower_bound", "upper_bound")):
                    return
                b = b["o"]
            v = Retention(p).root(b) if False else simple_root(p, b)
            if v is None:
                return
            i = v.get("id")
            d = local.get(i) or par.get(i)
            if d is not None and p.ty(d["t"])["c"] not in ("ref", "ptr") and not is_iter(p, d["t"]) \
                    and p.strip(d["t"]).get("r") not in SMART:
                bad.append("returns a %s to the local %s at %s" % (kind, d["n"], where(p, e, f)))
        walk(f.get("body"), returns)

        def closures(e, pr):
            """closures stored in members or returned must not hold references to locals"""
            if e.get("k") == "return" and e.get("e"):
                hit(e["e"], e)
            elif e.get("k") == "assign" and member(e["a"]):
                hit(e["b"], e)
            elif e.get("k") == "opcall" and e.get("op") == "=" and len(e["args"]) == 2 and member(e["args"][0]):
                hit(e["args"][1], e)

        def member(x):
            return isinstance(x, dict) and (x.get("k") == "mem" or x.get("k") == "opcall" and member(x["args"][0]))

        def hit(x, st):
            while isinstance(x, dict) and x.get("k") in ("ctor", "cast", "ilist"):
                if x["k"] == "cast":
                    x = x["a"]
                elif len(x.get("args") or []) == 1:
                    x = x["args"][0]
                else:
                    return
            if isinstance(x, dict) and x.get("k") == "cond":
                hit(x["a"], st)
                hit(x["b"], st)
                return
            if isinstance(x, dict) and x.get("k") == "lambda":
                for c in x.get("caps") or []:
                    if c.get("byref") and c.get("id") is not None and not c.get("init"):
                        d = local.get(c["id"]) or par.get(c["id"])
                        bad.append("a stored closure refers to %s at %s" % (d["n"] if d else c.get("n"), where(p, st, f)))
        walk(f.get("body"), closures)
        for i in f.get("inits") or []:
            if i.get("f"):
                hit(i.get("e"), i if i.get("l") else f)
        add("C23", rule="no-escaping-local", id="escape:%s" % p.keys[f["id"]], fn=f["q"], where=p.where(f["l"]),
            status="violated" if bad else "ok", detail="; ".join(bad[:3]))


def simple_root(p, e):
    while isinstance(e, dict):
        k = e.get("k")
        if k == "ref":
            return e
        if k == "mem":
            if e.get("arrow"):
                return None
            e = e.get("b")
        elif k == "sub":
            e = e.get("a")
        elif k == "opcall" and e.get("op") == "[]":
            e = e["args"][0]
        elif k == "mcall" and e.get("n") in ("at", "front", "back", "value"):
            e = e["o"]
        elif k == "cast":
            e = e.get("a")
        else:
            return None
    return None


# ------------------------------------------------------------------------------------------------------- ownership
def ownership(p, add):
    recs = {}
    for r in p.reclist:
        recs.setdefault(r["q"], r)
    bases = {b["q"] for r in p.reclist for b in r.get("bases", [])}
    for q, r in sorted(recs.items()):
        if r.get("poly"):
            bad = q in bases and not r.get("vdtor")
            add("C23", rule="virtual-destructor", id="dtor:%s" % q, where=p.where(r["l"]), status="violated" if bad else "ok",
                detail="%s is a base class without virtual destructor" % q if bad else "")
        else:
            # a base held by owning pointers without virtual destructor
            if q in bases and q in p.entities:
                bad = not r.get("vdtor")
                add("C23", rule="virtual-destructor", id="dtor:%s" % q, where=p.where(r["l"]),
                    status="violated" if bad else "ok", detail="%s is owned as a base without virtual destructor" % q)
        hit = []
        for fl in r["fields"]:
            t = p.ty(fl["t"])
            if t["c"] in ("ptr", "ref"):
                x = p.ty(t["p"])
                if x.get("r") in p.entities:
                    hit.append("%s refers to a %s without owning it" % (fl["n"], x["r"]))
                elif t["c"] == "ptr":
                    hit.append("%s is a raw pointer" % fl["n"])
                elif x.get("r") in SMART:
                    hit.append("%s refers to an owning pointer held elsewhere" % fl["n"])
        add("C23", rule="ownership", id="members:%s" % q, where=p.where(r["l"]), status="violated" if hit else "ok",
            detail="%s: %s" % (q, "; ".join(hit)) if hit else "")
    # graph of owning pointers
    edges = {}
    for r in p.reclist:
        for fl in r["fields"]:
            for t in owned(p, fl["t"], set()):
                edges.setdefault(r["q"], set()).add(t)
        for b in r.get("bases", []):
            edges.setdefault(r["q"], set()).add(b["q"])
    sub = {}
    for r in p.reclist:
        for b in r.get("bases", []):
            sub.setdefault(b["q"], set()).add(r["q"])

    def reach(a):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            for y in edges.get(x, ()):
                for z in [y] + sorted(sub.get(y, ())):
                    if z not in seen:
                        seen.add(z)
                        work.append(z)
        return seen
    base_only = {r["q"]: {b["q"] for b in r.get("bases", [])} for r in p.reclist}
    for q in sorted(edges):
        tgt = {t for r in p.reclist if r["q"] == q for fl in r["fields"] for t in owned(p, fl["t"], set())}
        cyc = [t for t in tgt if q in reach(t) or t == q or any(s == q for s in sub.get(t, ()))]
        if tgt:
            add("C23", rule="ownership-cycle", id="cycle:%s" % q, where=p.where(recs[q]["l"]) if q in recs else "?",
                status="violated" if cyc else "ok", detail="%s and %s own each other" % (q, ", ".join(cyc)) if cyc else "")
    # new, delete, second owners, slicing
    derived = {}
    for r in p.reclist:
        for b in r.get("bases", []):
            derived.setdefault(r["q"], set()).add(b["q"])

    def is_derived(a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            if x == b and x != a:
                return True
            for y in derived.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False
    for f in sorted(functions(p), key=lambda f: f["id"]):
        bad, sl = [], []

        def visit(e, par):
            k = e.get("k")
            if k == "delete":
                bad.append("delete at %s" % where(p, e, f))
            elif k == "new":
                ok = par is not None and (par.get("k") == "ctor" and par.get("rt") in SMART or
                                          par.get("k") == "mcall" and par.get("n") == "reset")
                if not ok:
                    bad.append("new without an owner at %s" % where(p, e, f))
            elif k == "ctor" and e.get("rt") in SMART[:2] and not e.get("copy") and not e.get("mv"):
                for a in (e.get("args") or [])[:1]:
                    if a.get("t") is not None and p.ty(a["t"])["c"] == "ptr" and a.get("k") not in ("new", "nullptr"):
                        bad.append("a second owner is made from a raw pointer at %s" % where(p, e, f))
            elif k == "mcall" and e.get("n") == "reset" and (e.get("cls") or "").startswith("std::__shared_ptr"):
                for a in (e.get("args") or [])[:1]:
                    if a.get("t") is not None and p.ty(a["t"])["c"] == "ptr" and a.get("k") not in ("new", "nullptr"):
                        bad.append("a second owner is made from a raw pointer at %s" % where(p, e, f))
            elif k == "mcall" and e.get("n") == "release" and (e.get("cls") or "") == "std::unique_ptr":
                bad.append("ownership is given up at %s" % where(p, e, f))
            if k == "ctor" and (e.get("copy") or e.get("mv")) and e.get("args"):
                a = e["args"][0]
                q = p.rec(a["t"]) if a.get("t") is not None else None
                if q and q != e.get("rt") and is_derived(q, e.get("rt")):
                    sl.append("a %s is copied as %s at %s" % (q, e["rt"], where(p, e, f)))
        walk(f.get("body"), visit)
        for i in f.get("inits") or []:
            if i.get("f"):
                walk(i.get("e"), visit)
        for a in f["params"]:
            q = p.rec(a["t"])
            if q and not is_ref(p, a["t"]) and recs.get(q, {}).get("poly") and q in bases:
                sl.append("%s takes a %s by value" % (a["n"], q))
        add("C23", rule="ownership", id="owners:%s" % p.keys[f["id"]], fn=f["q"], where=p.where(f["l"]),
            status="violated" if bad else "ok", detail="; ".join(bad[:3]))
        if not f.get("implicit"):
            add("C23", rule="no-slicing", id="slice:%s" % p.keys[f["id"]], fn=f["q"], where=p.where(f["l"]),
                status="violated" if sl else "ok", detail="; ".join(sl[:3]))


def owned(p, t, seen):
    """library classes owned through smart pointers by a type"""
    x = p.strip(t)
    out = set()
    if x["s"] in seen:
        return out
    seen.add(x["s"])
    if x["c"] == "rec":
        if x.get("r") in SMART[:2] and x.get("a") and "t" in x["a"][0]:
            y = p.strip(x["a"][0]["t"])
            if y.get("r") and not y["r"].startswith("std::"):
                out.add(y["r"])
            else:
                out |= owned(p, x["a"][0]["t"], seen)
        elif (x.get("r") or "").startswith("std::") and x.get("r") != "std::weak_ptr":
            for a in x.get("a") or []:
                if "t" in a:
                    out |= owned(p, a["t"], seen)
    return out


# -------------------------------------------------------------------------------------------- moved / invalidated
class Flow:
    """Which variables are moved-from or designate destroyed elements, statement by statement (joins at merges)."""

    def __init__(self, p, f, summ=None, consts=()):
        self.p = p
        self.f = f
        self.summ = summ or Summaries(p)
        self.consts = {f["params"][i]["id"]: v for i, v in consts}
        self.events = set()     # (container path, kind, operation) done here or in called functions
        self.views = {}         # variable id -> (container path, kind, how, key text, is iterator, name)
        self.alias = {}         # reference variable id -> path
        self.moved = []
        self.inval = []
        self.nviews = 0
        self.nmoves = 0
        self.ranges = []
        self.types = {a["id"]: a["t"] for a in f["params"]}

    # paths
    def path(self, e):
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "this":
            return "this"
        if k == "ref":
            if e.get("id") in self.alias:
                return self.alias[e["id"]]
            return "v%s" % e.get("id")
        if k == "mem":
            b = self.path(e.get("b")) if e.get("b") is not None else "this"
            return None if b is None else "%s.%s" % (b, e.get("n"))
        if k == "opcall" and e.get("op") in ("->", "*") and e.get("args"):
            return self.path(e["args"][0])
        if k == "un" and e.get("op") == "*":
            return self.path(e["a"])
        if k == "opcall" and e.get("op") == "[]":
            b, i = self.path(e["args"][0]), self.text(e["args"][1])
            return None if b is None or i is None else "%s[%s]" % (b, i)
        if k == "mcall" and e.get("n") == "at" and e.get("args"):
            b, i = self.path(e["o"]), self.text(e["args"][0])
            return None if b is None or i is None else "%s[%s]" % (b, i)
        if k == "cast":
            return self.path(e.get("a"))
        if k == "mcall" and e.get("in") and e.get("f") in self.summ.access:
            b = self.path(e.get("o"))
            return None if b is None else b + self.summ.access[e["f"]]
        return None

    def text(self, e):
        """text of a key expression, None if it may have effects"""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k in ("int", "bool", "flt"):
            return str(e.get("v"))
        if k in ("ref", "mem", "this"):
            return self.path(e)
        if k == "bin":
            a, b = self.text(e["a"]), self.text(e["b"])
            return None if a is None or b is None else "(%s%s%s)" % (a, e["op"], b)
        if k == "un" and e.get("op") in ("-", "*"):
            a = self.text(e["a"])
            return None if a is None else e["op"] + a
        if k == "opcall" and e.get("op") in ("*", "->"):
            a = self.text(e["args"][0])
            return None if a is None else "*" + a
        if k == "cast":
            return self.text(e["a"])
        if k == "mcall" and e.get("n") == "value":
            return self.text(e["o"])
        return None

    def ckind(self, e):
        r = self.p.rec(e["t"]) if e.get("t") is not None else None
        for n, s in (("vector", SEQV), ("deque", SEQD), ("unordered", UNORD), ("ordered", ORD)):
            if r in s:
                return n
        return None

    def source(self, e, it):
        """container element or position an initialiser designates"""
        while isinstance(e, dict) and e.get("k") in ("cast",):
            e = e["a"]
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "ctor" and len(e.get("args") or []) == 1 and it:
            return self.source(e["args"][0], it)
        if it:
            if k == "mcall" and e.get("n") in ("begin", "end", "cbegin", "cend", "find", "rbegin", "rend", "lower_bound",
                                               "upper_bound"):
                c = self.path(e["o"])
                kd = self.ckind(e["o"])
                if c and kd:
                    n = e["n"].lstrip("c")
                    key = self.text(e["args"][0]) if e.get("args") else None
                    return (c, kd, n, key)
            if k == "call" and (e.get("q") or "").startswith("std::") and e.get("args") and \
                    e.get("n") in ("find", "find_if", "max_element", "min_element", "lower_bound", "upper_bound", "next", "prev"):
                return self.source(e["args"][0], True)
            if k == "ref" and e.get("id") in self.views:
                return self.views[e["id"]][:4]
            if k == "opcall" and e.get("op") in ("+", "-") and len(e["args"]) == 2 and is_iter(self.p, e["args"][0]["t"]):
                s = self.source(e["args"][0], True)
                return s and (s[0], s[1], "pos", None)
            if k == "mcall" and e.get("in") and e.get("f") in self.summ.position:
                b = self.path(e.get("o"))
                if b is not None:
                    suf, kd = self.summ.position[e["f"]]
                    return (b + suf, kd, "pos", None)
            return None
        if k == "ref" and e.get("id") in self.views and not self.views[e["id"]][4]:
            return self.views[e["id"]][:4]
        if k == "opcall" and e.get("op") == "[]" or k == "mcall" and e.get("n") == "at":
            o = e["args"][0] if k == "opcall" else e["o"]
            i = e["args"][1] if k == "opcall" else e["args"][0]
            c, kd = self.path(o), self.ckind(o)
            if c and kd:
                return (c, kd, "key", self.text(i))
            return None
        if k == "mcall" and e.get("n") in ("front", "back"):
            c, kd = self.path(e["o"]), self.ckind(e["o"])
            if c and kd:
                return (c, kd, e["n"], None)
            return None
        if k == "opcall" and e.get("op") == "*" or k == "un" and e.get("op") == "*":
            x = e["args"][0] if k == "opcall" else e["a"]
            if x.get("k") == "ref" and x.get("id") in self.views and self.views[x["id"]][4]:
                v = self.views[x["id"]]
                return (v[0], v[1], "of", "v%s" % x["id"])
            if x.get("k") == "mcall" and x.get("n") in ("begin", "cbegin", "rbegin"):
                c, kd = self.path(x["o"]), self.ckind(x["o"])
                if c and kd:
                    return (c, kd, "front" if "r" not in x["n"][:1] else "back", None)
            return None
        if k == "mem" and e.get("n") in ("first", "second"):
            b = e.get("b")
            if isinstance(b, dict) and b.get("k") == "opcall" and b.get("op") == "->":
                b = b["args"][0]
                if b.get("k") == "ref" and b.get("id") in self.views and self.views[b["id"]][4]:
                    v = self.views[b["id"]]
                    return (v[0], v[1], "of", "v%s" % b["id"])
                return None
            return self.source(b, False)
        if k == "mem" and isinstance(e.get("b"), dict):
            b = e["b"]
            if b.get("k") == "opcall" and b.get("op") == "->" or b.get("k") in ("opcall", "un") and b.get("op") == "*":
                # a part of the object owned by an element
                x = b["args"][0] if b.get("args") else b["a"]
                if x.get("t") is not None and self.p.rec(x["t"]) in SMART[:2]:
                    s = self.source(x, False)
                    return s and (s[0], s[1], s[2] if s[2].startswith("p:") else "p:" + s[2], s[3])
                return None
            if not e.get("arrow"):
                return self.source(b, False)
        return None

    # execution
    def run(self):
        self.exec(self.f.get("body"), {})
        return self

    def use(self, e, st):
        i = e.get("id")
        if i in st and st[i] is not None:
            what, kind = st[i]
            (self.moved if kind == "moved" else self.inval).append("%s is used at %s after %s" % (
                e.get("n"), where(self.p, e, self.f), what))
            st = dict(st)
            st[i] = None
        return st

    def expr(self, e, st):
        if isinstance(e, list):
            for x in e:
                st = self.expr(x, st)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "lambda":
            for c in e.get("caps") or []:
                if c.get("id") is not None:
                    st = self.use({"id": c["id"], "n": c.get("n"), "l": e.get("l")}, st)
            return st
        if k == "ref":
            return self.use(e, st)
        if k == "assign" or k == "opcall" and e.get("op") == "=":
            a, b = (e["a"], e["b"]) if k == "assign" else (e["args"][0], e["args"][1] if len(e["args"]) > 1 else None)
            st = self.expr(b, st)
            if a.get("k") == "ref":
                if a.get("id") not in self.views:
                    self.rekey(a.get("id"))
                if a.get("t") is not None and self.p.rec(a["t"]) in SMART:
                    self.alias.pop(a.get("id"), None)
                st = self.reset(a.get("id"), st)
                st = self.mutation(a, "=", [b], e, st, self_assign=True)
                v = self.views.get(a.get("id"))
                if v is not None and v[4]:
                    s = self.source(b, True)
                    if s is not None:
                        self.views[a["id"]] = s + (True, v[5])
                    st = dict(st)
                    st.pop(a["id"], None)
            else:
                st = self.expr(a, st)
                st = self.mutation(a, "=", [b], e, st)
            return self.moves(e, b, st)
        if k == "cond":
            st = self.expr(e["c"], st)
            return join(self.expr(e["a"], st), self.expr(e["b"], st))
        if k == "bin" and e.get("op") in ("&&", "||"):
            st = self.expr(e["a"], st)
            return join(st, self.expr(e["b"], st))
        if k == "mcall":
            o = e.get("o")
            if isinstance(o, dict) and o.get("k") == "ref" and e.get("n") in ("clear", "assign", "reset") and \
                    st.get(o.get("id")) is not None and st[o["id"]][1] == "moved":
                st = self.expr(e.get("args"), st)
                st = self.reset(o.get("id"), st)
            else:
                st = self.expr(o, st)
                st = self.expr(e.get("args"), st)
            st = self.mutation(o, e.get("n"), e.get("args") or [], e, st)
            st = self.called(e, st)
            for a, t in zip(e.get("args") or [], e.get("pt") or []):
                st = self.moved_into(a, t, st)
            return st
        if k in ("call", "ctor", "opcall"):
            st = self.expr(e.get("args"), st)
            args = e.get("args") or []
            if k == "opcall" and e.get("cls"):
                args = args[1:]
            if not e.get("move"):
                for a, t in zip(args, e.get("pt") or []):
                    st = self.moved_into(a, t, st)
            st = self.called(e, st)
            if k == "call" and e.get("n") == "swap" and len(args) == 2:
                for a in args:
                    st = self.mutation(a, "swap", [], e, st)
            return st
        if (k == "cassign" or k == "un" and e.get("op") in ("++", "--")) and e["a"].get("k") == "ref":
            self.rekey(e["a"].get("id"))
        for v in e.values():
            if isinstance(v, (dict, list)):
                st = self.expr(v, st)
        return st

    def rekey(self, i):
        """a variable used as key gets another value"""
        v = "v%s" % i
        for j, w in list(self.views.items()):
            if w[3] is not None and v in w[3]:
                self.views[j] = w[:3] + (None,) + w[4:]

    def reset(self, i, st):
        if i in st:
            st = dict(st)
            st.pop(i)
        return st

    def moves(self, e, b, st):
        if e.get("k") == "opcall" and (e.get("pt") or []):
            return self.moved_into(b, e["pt"][0], st)
        if e.get("k") == "opcall":
            return self.moved_into(b, None, st)
        return st

    def moved_into(self, a, t, st):
        """std::move(x) given to something that takes the content"""
        if not isinstance(a, dict):
            return st
        if a.get("k") == "ctor" and a.get("mv") and a.get("args"):
            a = a["args"][0]
        elif t is not None:
            x = self.p.ty(t)
            if x["c"] == "ref" and not x.get("rv"):
                return st
        if a.get("k") == "call" and a.get("move") and a.get("args"):
            x = a["args"][0]
            if x.get("k") == "ref" and x.get("dk") in ("var", "param", "binding"):
                ty = self.p.ty(x["t"])
                y = self.p.strip(x["t"])
                if y.get("const") or y["c"] in ("int", "uint", "bool", "float", "enum", "ptr"):
                    return st
                self.nmoves += 1
                st = dict(st)
                st[x["id"]] = ("its content was moved away at %s" % where(self.p, a, self.f), "moved")
        return st

    def mutation(self, o, n, args, e, st, self_assign=False):
        """effect of a modifying call on the views of the container"""
        if n is None or not isinstance(o, dict) or o.get("t") is None:
            return st
        kd = self.ckind(o)
        c = self.path(o)
        if kd is None or c is None:
            return st
        if e.get("k") == "mcall" and e.get("cm"):
            return st
        return self.change(c, kd, n, args, e, st)

    def truth(self, e):
        """value of a condition made of constants"""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "bool" or k == "int" and e.get("v") in (0, 1):
            return bool(e.get("v"))
        if k == "defarg":
            return self.truth(e.get("e") or e.get("a"))
        if k == "ref":
            return self.consts.get(e.get("id"))
        if k == "cast":
            return self.truth(e.get("a"))
        if k == "un" and e.get("op") == "!":
            a = self.truth(e["a"])
            return None if a is None else not a
        if k == "bin" and e.get("op") in ("&&", "||"):
            a, b = self.truth(e["a"]), self.truth(e["b"])
            if e["op"] == "&&":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        return None

    def called(self, e, st):
        """what a called function does to the containers it reaches"""
        f = self.p.funcs.get(e.get("f"))
        if f is None or not e.get("in") or e.get("k") == "ctor":
            return st
        known = tuple((i, c) for i, c in enumerate(self.truth(a) for a in e.get("args") or []) if c is not None)
        for g in self.summ.targets(e, f):
            for root, suf, kd, n in sorted(self.summ.effect(g, known), key=str):
                if root == "this":
                    b = self.path(e.get("o")) if e.get("k") == "mcall" else None
                else:
                    a = e.get("args") or []
                    b = self.path(a[root]) if root < len(a) else None
                if b is not None:
                    st = self.change(b + suf, kd, n, [], e, st)
        return st

    def change(self, c, kd, n, args, e, st):
        if n in CHANGES:
            self.events.add((c, kd, n))
        st2 = None
        for i, v in self.views.items():
            if not self.invalid(i, v, c, kd, n, args):
                continue
            if st2 is None:
                st2 = dict(st)
            if st2.get(i) is None:
                st2[i] = ("%s of its container at %s" % (n, where(self.p, e, self.f)), "inval")
        for rg in self.ranges:
            if rg["c"] == c and rg["kd"] == kd and self.invalid(None, (c, kd, "range", rg["key"], True, ""), c, kd, n, args):
                if st2 is None:
                    st2 = dict(st)
                st2["range%d" % rg["id"]] = ("%s at %s" % (n, where(self.p, e, self.f)), "inval")
        return st if st2 is None else st2

    def invalid(self, i, v, c, kd, n, args):
        vc, vk, how, key, it = v[:5]
        if how.startswith("p:"):
            # the object an element owns stays where it is when the elements are moved
            if n not in ("erase", "clear", "=", "assign", "pop_front", "pop_back"):
                return False
            if vc == c and kd == "vector" and n == "erase" or vc != c and n not in ("clear", "=", "assign"):
                return False
            how = how[2:]
        nested = vc.startswith(c + "[")
        if vc != c and not nested:
            return False
        if nested:
            if kd == "vector":
                return n in ("push_back", "emplace_back", "insert", "emplace", "erase", "resize", "clear", "assign", "reserve",
                             "=", "swap")
            return n in ("clear", "=", "assign")
        if vk != kd:
            return False
        if n in ("clear", "=", "assign"):
            return how != "end" or kd in ("vector", "deque")
        if kd == "vector":
            if n in ("push_back", "emplace_back", "insert", "emplace", "erase", "resize", "reserve", "shrink_to_fit"):
                return True
            return n == "pop_back" and how in ("back", "end", "rbegin")
        if kd == "deque":
            if n in ("insert", "emplace", "erase", "resize"):
                return True
            if n in ("push_back", "push_front", "emplace_back", "emplace_front"):
                return it
            if n == "pop_front":
                return how in ("front", "begin") or how == "range"
            if n == "pop_back":
                return how in ("back", "end", "rbegin") or how == "range"
            return False
        if n in ("erase", "extract") and args:
            a = args[0]
            while isinstance(a, dict) and a.get("k") in ("ctor", "cast") and (a.get("args") or a.get("a")):
                a = a["args"][0] if a.get("args") else a["a"]
            if isinstance(a, dict) and a.get("k") == "ref":
                if n == "extract" and not it:
                    return False
                if a.get("id") == i or how == "of" and key == "v%s" % a.get("id"):
                    return True
            t = self.text(a)
            return t is not None and key is not None and t == key and len(args) == 1
        if kd == "unordered" and n in ("insert", "emplace", "rehash", "reserve"):
            return it and how != "end"
        return False

    def temporary(self, e):
        """the temporary whose part an expression designates"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "mcall":
                n = e.get("n")
                std = n in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "front", "back", "value", "data")
                own = e.get("in") and (e.get("f") in self.summ.access or e.get("f") in self.summ.position)
                if not (std and (e.get("lv") or e.get("t") is not None and is_iter(self.p, e["t"])) or own):
                    return None
                o = e.get("o")
                if isinstance(o, dict) and o.get("k") == "opcall" and o.get("op") in ("->", "*"):
                    x = o["args"][0]
                    if x.get("k") in ("call", "mcall") and not x.get("lv") and self.fresh(x):
                        return x
                    o = x
                if isinstance(o, dict) and not o.get("lv") and o.get("k") in ("call", "mcall", "ctor", "opcall") \
                        and o.get("t") is not None and self.p.ty(o["t"])["c"] == "rec" and not is_iter(self.p, o["t"]) \
                        and self.p.rec(o["t"]) not in SMART:
                    return o
                e = o
            elif k == "opcall" and e.get("op") in ("+", "-", "[]"):
                e = e["args"][0]
            elif k == "call" and (e.get("q") or "").startswith("std::") and e.get("n") in ("next", "prev", "find", "find_if",
                                                                                         "max_element", "min_element"):
                e = e["args"][0]
            elif k == "ctor" and len(e.get("args") or []) == 1 and e.get("t") is not None and is_iter(self.p, e["t"]):
                e = e["args"][0]
            elif k == "cast":
                e = e["a"]
            else:
                return None
        return None

    def fresh(self, x):
        if x.get("n") in ("make_shared", "make_unique"):
            return True
        f = self.p.funcs.get(x.get("f"))
        if f is None:
            return False
        hit = []
        for g in self.summ.targets(x, f):
            walk(self.p.funcs.get(g, {}).get("body"), lambda e, par: hit.append(e) if e.get("k") == "return" and e.get("e") and
                 any_make(e["e"]) else None)
        return bool(hit)

    def declare(self, d, st):
        p = self.p
        if d.get("init") is not None:
            st = self.expr(d["init"], st)
        st = self.reset(d["id"], st)
        self.types[d["id"]] = d["t"]
        if d.get("init") is not None and p.ty(d["t"]).get("const") and self.truth(d["init"]) is not None:
            self.consts[d["id"]] = self.truth(d["init"])
        init = d.get("init")
        if init is None:
            return st
        if is_ref(p, d["t"]) and not init.get("mat") or is_iter(p, d["t"]):
            t = self.temporary(init)
            if t is not None:
                self.inval.append("%s designates a part of a temporary at %s" % (d["n"], where(p, t, self.f)))
        if is_ref(p, d["t"]) and not init.get("mat"):
            s = self.source(init, False)
            pa = self.path(init)
            if s is not None and (s[2] in ("key", "front", "back", "of") or s[2].startswith("p:")):
                self.views[d["id"]] = s + (False, d["n"])
                self.nviews += 1
            if pa is not None:
                self.alias[d["id"]] = pa
            for b in d.get("bind") or []:
                if s is not None:
                    self.views[b["id"]] = s + (False, b["n"])
        elif p.rec(d["t"]) in SMART[:1]:
            # another owner of the same object
            x = init["args"][0] if init.get("k") == "ctor" and len(init.get("args") or []) == 1 else init
            pa = self.path(x)
            if pa is not None and "[" not in pa:
                self.alias[d["id"]] = pa
        elif is_iter(p, d["t"]):
            s = self.source(init, True)
            if s is not None:
                self.views[d["id"]] = s + (True, d["n"])
                self.nviews += 1
        # a variable made from a moved one
        st = self.moved_into(init, None if init.get("k") != "call" else d["t"], st) if init.get("k") in ("ctor", "call") else st
        return st

    def exec(self, s, st):
        """state after s; a dict of the states at the exits n (next), b (break), c (continue)"""
        if s is None or st is None:
            return {"n": st}
        k = s.get("k")
        if k == "block":
            out = {"n": st}
            for x in s["b"]:
                o = self.exec(x, out.pop("n", None))
                out = merge(out, o)
            return out
        if k == "expr":
            return {"n": self.expr(s["e"], st)}
        if k == "decl":
            for d in s["d"]:
                st = self.declare(d, st)
            return {"n": st}
        if k == "if":
            if s.get("init"):
                st = self.exec(s["init"], st).get("n")
            if s.get("cv"):
                st = self.declare(s["cv"], st)
            st = self.expr(s["c"], st)
            t = self.truth(s["c"])
            if t is not None:
                return self.exec(s["a"] if t else s.get("b"), st)
            a = self.exec(s["a"], st)
            b = self.exec(s.get("b"), st) if s.get("b") else {"n": st}
            return merge(a, b)
        if k in ("for", "while", "do"):
            if s.get("init"):
                st = self.exec(s["init"], st).get("n")
            out = None
            for rnd in range(2):
                if s.get("cv"):
                    st = self.declare(s["cv"], st)
                if k != "do" and s.get("c"):
                    st = self.expr(s["c"], st)
                leave = st if k != "do" else None
                o = self.exec(s["b"], st)
                end = join(o.get("n"), o.get("c"))
                if end is not None and s.get("inc"):
                    end = self.expr(s["inc"], end)
                if end is not None and k == "do":
                    end = self.expr(s["c"], end)
                out = join(join(leave, o.get("b")), end)
                st = join(st, end)
            return {"n": out if out is not None else st}
        if k == "rfor":
            if s.get("init"):
                st = self.exec(s["init"], st).get("n")
            st = self.expr(s["range"], st)
            t = self.temporary(s["range"]) if not s["range"].get("mat") else None
            if t is not None:
                self.inval.append("the loop runs over a part of a temporary at %s" % where(self.p, t, self.f))
            rg = None
            kd, c = self.ckind(s["range"]), self.path(s["range"])
            if kd and c:
                d = s["var"]
                key = "v%s" % d["id"]
                for b in d.get("bind") or []:
                    key = "v%s" % b["id"]
                    break
                rg = {"c": c, "kd": kd, "id": len(self.ranges), "key": key}
                self.nviews += 1
            out = st
            for rnd in range(2):
                st2 = self.reset(s["var"]["id"], st)
                for b in s["var"].get("bind") or []:
                    st2 = self.reset(b["id"], st2)
                if rg:
                    self.ranges.append(rg)
                    if is_ref(self.p, s["var"]["t"]):
                        self.views[s["var"]["id"]] = (c, kd, "elem", "v%s" % s["var"]["id"], False, s["var"]["n"])
                o = self.exec(s["b"], st2)
                if rg:
                    self.ranges.pop()
                    self.views.pop(s["var"]["id"], None)
                end = join(o.get("n"), o.get("c"))
                if rg and end is not None and end.get("range%d" % rg["id"]):
                    self.inval.append("the loop over %s goes on after %s" % (
                        s["range"].get("n", "the container"), end["range%d" % rg["id"]][0]))
                    end = dict(end)
                    end["range%d" % rg["id"]] = None
                out = join(join(out, o.get("b")), end)
                st = join(st, end)
            out = {i: v for i, v in out.items() if not str(i).startswith("range")}
            return {"n": out}
        if k == "switch":
            st = self.expr(s["c"], st)
            o = self.cases(s["b"], st)
            return {"n": join(join(o.get("n"), o.get("b")), st), **({"c": o["c"]} if o.get("c") is not None else {})}
        if k in ("case", "default"):
            return self.exec(s.get("b"), st)
        if k == "return":
            self.expr(s.get("e"), st)
            return {}
        if k == "break":
            return {"b": st}
        if k == "continue":
            return {"c": st}
        if k == "try":
            o = self.exec(s["b"], st)
            for h in s.get("h") or []:
                o = merge(o, self.exec(h, st))
            return o
        return {"n": st}

    def cases(self, b, st):
        out = {"n": None}
        for x in (b["b"] if b.get("k") == "block" else [b]):
            cur = out.pop("n", None)
            if x.get("k") in ("case", "default"):
                cur = join(cur, st)
            o = self.exec(x, cur) if cur is not None else {}
            out = merge(out, o)
        return out


def any_make(e):
    while isinstance(e, dict) and e.get("k") in ("ctor", "cast") and (e.get("args") or e.get("a")):
        e = e["args"][0] if e.get("args") else e["a"]
    return isinstance(e, dict) and e.get("k") == "call" and e.get("n") in ("make_shared", "make_unique")


CHANGES = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "erase", "resize", "clear", "assign",
           "reserve", "shrink_to_fit", "pop_back", "pop_front", "=", "swap", "extract", "rehash"}


class Summaries:
    """Per function: members it returns references or positions into, containers of its object and arguments it changes."""

    def __init__(self, p):
        self.p = p
        self.access = {}
        self.position = {}
        self.effects = {}

    def targets(self, e, f):
        out = {f["id"]}
        if e.get("virt"):
            base = f["over"][0] if f.get("over") else f["id"]
            out |= {i for i in self.p.overriders.get(base, [])} | {i for i in self.p.overriders.get(f["id"], [])}
        return sorted(out)

    def build(self):
        p = self.p
        fs = sorted((f for f in functions(p) if f.get("body") and f["kind"] not in ("ctor", "dtor")), key=lambda f: f["id"])
        for f in fs:
            b = f["body"].get("b") or []
            if len(b) != 1 or b[0].get("k") != "return" or not b[0].get("e") or f.get("ret") is None:
                continue
            fl = Flow(p, f, self)
            if is_ref(p, f["ret"]):
                x = fl.path(b[0]["e"])
                if x and x.startswith("this.") and "[" not in x:
                    self.access[f["id"]] = x[4:]
            elif is_iter(p, f["ret"]):
                x = fl.source(b[0]["e"], True)
                if x and x[0].startswith("this.") and "[" not in x[0]:
                    self.position[f["id"]] = (x[0][4:], x[1])
        return self

    def effect(self, i, known):
        """changes of a function called with the given constant arguments"""
        if (i, known) in self.effects:
            return self.effects[i, known]
        self.effects[i, known] = out = set()
        f = self.p.funcs.get(i)
        if f is None or not f.get("body"):
            return out
        fl = Flow(self.p, f, self, [(j, c) for j, c in known if j < len(f["params"])])
        try:
            fl.exec(f["body"], {})
        except RecursionError:
            return out
        ps = {"v%s" % a["id"]: j for j, a in enumerate(f["params"]) if is_ref(self.p, a["t"]) or self.p.rec(a["t"]) in SMART}
        for c, kd, n in fl.events:
            root, suf = (c[:c.index(".")], c[c.index("."):]) if "." in c else (c, "")
            if "[" in suf or "[" in root or suf.count(".") > 4:
                continue
            if root == "this":
                out.add(("this", suf, kd, n))
            elif root in ps:
                out.add((ps[root], suf, kd, n))
        return out


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    out = dict(a)
    for k, v in b.items():
        if out.get(k) is None:
            out[k] = v
    return out


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = join(out.get(k), v)
    return out


def flows(p, add):
    summ = Summaries(p).build()
    for f in sorted(functions(p), key=lambda f: f["id"]):
        if f.get("implicit") or f.get("defaulted"):
            continue
        fl = Flow(p, f, summ)
        st = {}
        # initialisers run before the body, in their order
        try:
            for i in f.get("inits") or []:
                if i.get("e") is not None:
                    st = fl.expr(i["e"], st)
                    st = fl.moved_into(i["e"], None, st) if i["e"].get("k") in ("ctor", "call") else st
            fl.exec(f.get("body"), st)
        except RecursionError:
            continue
        key = p.keys[f["id"]]
        if fl.nmoves or fl.moved:
            add("C23", rule="use-after-move", id="move:%s" % key, fn=f["q"], where=p.where(f["l"]),
                status="violated" if fl.moved else "ok", detail="; ".join(sorted(set(fl.moved))[:3]))
        if fl.nviews or fl.inval:
            add("C23", rule="invalidation", id="views:%s" % key, fn=f["q"], where=p.where(f["l"]),
                status="violated" if fl.inval else "ok", detail="; ".join(sorted(set(fl.inval))[:3]))


def run(R, M, add):
    r = Retention(R).run()
    bad = {}
    for f, w, what in r.out:
        bad.setdefault(f["id"], []).append("%s at %s" % (what, w))
    for f in sorted(functions(R), key=lambda f: f["id"]):
        if f["id"] in bad or r.ret.get(f["id"]):
            add("C23", rule="retained-reference", id="retains:%s" % R.keys[f["id"]], fn=f["q"], where=R.where(f["l"]),
                status="violated" if f["id"] in bad else "ok", detail="; ".join(sorted(set(bad.get(f["id"], [])))[:3]))
    escaping(R, add)
    ownership(R, add)
    flows(R, add)
