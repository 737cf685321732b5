"""The Python module: registered functions, keywords, defaults, enumerations, attributes."""
from walk import walk
from analysis import Analysis
import compare

TEXT = {
    "python-function": "the value graph of a function registered for Python (returned value, modified arguments, "
                       "exceptions) equals that of the reference model",
    "python-keywords": "the keywords of a registered function, their order, defaults and argument types are those of the model",
    "python-enum": "each name of an exposed enumeration stands for the enumerator of the same meaning",
    "python-attribute": "the attributes of the module have the documented values",
    "python-defaults": "the default of a Python keyword equals the default of the C++ argument in the same slot",
}


class Unknown(Exception):
    pass


def text_of(e):
    """string an expression denotes"""
    while isinstance(e, dict):
        if e.get("k") == "str":
            return e["v"]
        if e.get("k") in ("call", "ctor", "opcall") and e.get("args"):
            e = e["args"][0]
        elif e.get("k") == "cast":
            e = e.get("a")
        else:
            break
    raise Unknown("name that is not a literal")


def const_of(p, e):
    if e is None:
        return None
    k = e.get("k")
    if k in ("int", "flt"):
        return str(e.get("v"))
    if k == "bool":
        return "1" if e["v"] else "0"
    if k == "str":
        return repr(e["v"])
    if k == "zero":
        return "0"
    if k == "ref" and e.get("dk") == "global":
        return e.get("q")
    if k in ("cast",):
        return const_of(p, e.get("a"))
    if k in ("ctor", "ilist") and len(e.get("args") or []) == 1:
        return const_of(p, e["args"][0])
    if k == "ctor" and not e.get("args"):
        return "std::nullopt" if e.get("rt") in ("std::optional", "std::nullopt_t") else "%s()" % e.get("rt")
    raise Unknown("default that is not a constant")


def target(p, e):
    """function behind the callable of a registration"""
    got = []

    def visit(x, par):
        if x.get("k") == "lambda":
            got.extend(x.get("ops", []))
        elif x.get("k") == "fref" and x.get("f") is not None:
            got.append(x["f"])
    if isinstance(e, dict) and e.get("k") in ("lambda", "fref", "un", "cast", "ctor"):
        if e["k"] == "lambda":
            got = list(e.get("ops", []))
        else:
            walk(e, visit)
    if len(got) != 1 or got[0] not in p.funcs:
        raise Unknown("callable that is not a lambda or function")
    return p.funcs[got[0]]


def module(p):
    """what the module registers"""
    defs, enums, attrs = {}, {}, {}
    for f in sorted(p.funcs.values(), key=lambda f: f["id"]):
        if f.get("body") is None or f.get("cls"):
            continue

        def visit(e, par):
            k = e.get("k")
            if k == "mcall" and e.get("n") == "def" and (e.get("cls") or "").startswith("pybind11::module"):
                d = {"l": e.get("l") or f["l"]}
                a = e["args"]
                try:
                    name = text_of(a[0])
                except Unknown as x:
                    name = "?%d" % len(defs)
                    d["unknown"] = str(x)
                defs[name] = d
                try:
                    d["f"] = target(p, a[1])
                    kw = []
                    for x in a[2:]:
                        rec = p.rec(x["t"]) or ""
                        if rec == "pybind11::arg":
                            kw.append((text_of(x), None))
                        elif rec == "pybind11::arg_v":
                            if x.get("k") == "opcall" and x.get("op") == "=":
                                kw.append((text_of(x["args"][0]), const_of(p, x["args"][1])))
                            elif x.get("k") == "ctor" and len(x["args"]) >= 2:
                                kw.append((text_of(x["args"][0]), const_of(p, x["args"][1])))
                            else:
                                raise Unknown("keyword")
                        elif x.get("k") == "str" or rec in ("pybind11::doc",):
                            pass
                        else:
                            raise Unknown("extra of type %s" % p.ty(x["t"])["s"])
                    d["kw"] = kw
                except Unknown as x:
                    d["unknown"] = str(x)
            elif k == "mcall" and e.get("n") == "value" and e.get("cls") == "pybind11::enum_":
                x = p.strip(e["o"]["t"])
                t = p.ty(x["a"][0]["t"])["s"] if x.get("a") else "?"
                try:
                    n = text_of(e["args"][0])
                    enums[(t, n)] = (const_of(p, e["args"][1]), e.get("l") or f["l"])
                except Unknown as u:
                    enums[(t, "?")] = (None, e.get("l") or f["l"])
            elif k == "opcall" and e.get("op") == "=" and e["args"][0].get("k") == "mcall" and e["args"][0].get("n") == "attr":
                try:
                    attrs[text_of(e["args"][0]["args"][0])] = (const_of(p, e["args"][1]), e.get("l") or f["l"])
                except Unknown:
                    attrs["?"] = (None, e.get("l") or f["l"])
        walk(f["body"], visit)
    return defs, enums, attrs


def ptype(p, t):
    x = p.strip(t)
    s = p.plain(x)
    return s + "&" if p.is_mut_ref(t) else s


def run(R, M, c, lib, add):
    """R, M: programs of the Python module here and in the model; c: comparison of the library; lib: program of the library"""
    rd, re_, ra = module(R)
    md, me, ma = module(M)
    for p in (R, M):
        # constness of methods does not matter (as in the comparison of the library)
        for i, k in list(p.keys.items()):
            if k.endswith(")c") and k[:-1] not in p.bykey:
                p.keys[i] = k[:-1]
    A = Analysis(R, c.sums, set(), budget=(60, 800000, 120))
    B = Analysis(M, c.sums, set())
    home = R.where([i for i, f in enumerate(R.files) if f.endswith("src/CoMMA.cpp")][:1] + [1]) \
        if any(f.endswith("src/CoMMA.cpp") for f in R.files) else "src/CoMMA.cpp"
    unknown = [d for d in rd.values() if "unknown" in d]
    for name, m in sorted(md.items()):
        d = rd.get(name)
        if d is None:
            add("C12", rule="python-function", id="python:%s" % name, fn=name, where=home,
                status="undecided" if unknown else "violated", detail="%s is not registered" % name)
            continue
        wh = R.where(d["l"])
        if "unknown" in d:
            add("C12", rule="python-function", id="python:%s" % name, fn=name, where=wh, status="undecided",
                detail=d["unknown"])
            continue
        f, g = d["f"], m["f"]
        x, y = A.observe(f["id"], tstate=True), B.observe(g["id"], tstate=True)
        for o in sorted(set(x or {}) | set(y)):
            if o[:2] == "H:":
                continue
            st, det = "ok", ""
            u, v = (x or {}).get(o), y.get(o)
            if x is None:
                st, det = "undecided", A.errors.get(f["id"])
            elif u is not v:
                st = "undecided" if u is not None and u.opq else "violated"
                if u is None or v is None:
                    det = "here %s; in the model %s" % (compare.text(u), compare.text(v))
                else:
                    a, b = compare.first_diff(u, v)
                    det = "here %s; in the model %s" % (compare.text(a), compare.text(b))
            pids = ["C12"]
            if o != "ret":
                pids.append("C07")
            for pid in pids:
                add(pid, rule="python-function", id="python:%s:%s" % (name, o), fn=name, where=R.where(f["l"]), status=st,
                    detail=det)
        a = [ptype(R, q["t"]) for q in f["params"]], d["kw"]
        b = [ptype(M, q["t"]) for q in g["params"]], m["kw"]
        det = ""
        if a != b:
            det = "; ".join("%s here, %s in the model" % (s, t) for s, t in zip(a[0] + a[1], b[0] + b[1]) if s != t)[:300]
            det = det or "different number of keywords or arguments"
        add("C12", rule="python-keywords", id="keywords:%s" % name, fn=name, where=wh, status="violated" if det else "ok",
            detail=det)
        # defaults against the C++ function of the same name
        cpp = [h for h in lib.funcs.values() if h["q"] == "comma::" + name and any("def" in q for q in h["params"])]
        if len(cpp) == 1:
            names = [q["n"] for q in cpp[0]["params"]]
            for n, v in d["kw"]:
                if v is None:
                    continue
                # by position: the outputs that Python does not take are skipped
                i = [k for k, _ in d["kw"]].index(n)
                off = len(names) - len(d["kw"])
                q = cpp[0]["params"][i + off] if 0 <= i + off < len(names) else {}
                try:
                    w = const_of(lib, q.get("def"))
                except Unknown:
                    continue
                bad = w is not None and w != v
                add("C12", rule="python-defaults", id="default:%s:%s" % (name, n), fn=name, where=wh,
                    status="violated" if bad else "ok",
                    detail="%s=%s in Python, %s=%s in C++" % (n, v, q.get("n"), w) if bad else "")
    for k, (v, l) in sorted(me.items()):
        got = re_.get(k)
        if got is None:
            st = "undecided" if any(n == "?" for _, n in re_) else "violated"
            add("C12", rule="python-enum", id="enum:%s.%s" % k, where=home, status=st, detail="%s.%s is not exposed" % k)
            continue
        add("C12", rule="python-enum", id="enum:%s.%s" % k, where=R.where(got[1]),
            status="violated" if got[0] != v else "ok",
            detail="%s stands for enumerator %s instead of %s" % (k[1], got[0], v) if got[0] != v else "")
    for k, (v, l) in sorted(ma.items()):
        if k == "__version__":
            continue
        got = ra.get(k)
        if got is None and "?" in ra:
            continue
        bad = got is None or got[0] != v
        add("C12", rule="python-attribute", id="attribute:%s" % k, where=R.where(got[1]) if got else home,
            status="violated" if bad else "ok", detail="%s is %s instead of %s" % (k, got and got[0], v) if bad else "")
