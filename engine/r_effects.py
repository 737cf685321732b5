"""Effects on the containers of the caller: outputs are replaced, inputs are not written."""
import terms as T
from terms import sym

TEXT = {
    "output-replaced": "the final value of an output argument does not depend on its value at the call",
    "input-kept": "an argument that is an input is not written, not even through a cast",
    "no-const-cast": "no cast removes the const qualification of an argument",
}

PUBLIC = ("agglomerate_one_level", "build_coarse_graph", "compute_neighbourhood_based_wall_distance",
          "filter_cells_by_n_edges")


def contains(n, s):
    seen = set()
    work = [n]
    while work:
        x = work.pop()
        if x is s:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        work += [y for y in x.a if isinstance(y, T.Node)]
    return False


def const_target(p, t):
    x = p.ty(t)
    if x["c"] in ("ref", "ptr"):
        x = p.ty(x["p"])
    return bool(x.get("const"))


def run(R, M, c, add):
    for f in sorted(R.funcs.values(), key=lambda f: f["id"]):
        k = R.keys[f["id"]]
        mid = M.bykey.get(k)
        ro, mo = c.ran.obs.get(f["id"]), c.man.obs.get(mid)
        if ro is None or mo is None:
            continue
        g = M.funcs[mid]
        wh = R.where(f["l"])
        for i, (p, q) in enumerate(zip(f["params"], g["params"])):
            if R.ty(p["t"])["c"] != "ref" or R.is_entity(p["t"]):
                continue
            o = "p%d" % i
            x, y = ro.get(o), mo.get(o)
            s = sym(o)
            if y is None:
                # input in the model
                if x is None:
                    if f["n"] in PUBLIC:
                        add("C07", rule="input-kept", id="input:%s:%d" % (k, i), fn=f["q"], where=wh, status="ok")
                else:
                    add("C07", rule="input-kept", id="input:%s:%d" % (k, i), fn=f["q"], where=wh,
                        status="undecided" if x.opq else "violated", detail="argument %s is written" % p["n"])
                continue
            if contains(y, s):
                # in and out: the old content is used only when the caller provides it
                if f["n"] == "agglomerate_one_level" and len(f["params"]) == 28 and i in (14, 15):
                    t = [T.assume(T.assume(v, sym("p8", "b"), True), sym("p9", "b"), True) for v in (x, y) if v is not None]
                    if len(t) == 2 and not contains(t[1], s):
                        bad = contains(t[0], s)
                        add("C07", rule="output-replaced", id="output:%s:%d" % (k, i), fn=f["q"], where=wh,
                            status="undecided" if bad and x.opq else "violated" if bad else "ok",
                            detail="%s depends on its old content although lines are built" % p["n"] if bad else "")
                continue
            bad = x is None or contains(x, s)
            add("C07", rule="output-replaced", id="output:%s:%d" % (k, i), fn=f["q"], where=wh,
                status="undecided" if bad and x is not None and x.opq else "violated" if bad else "ok",
                detail="%s depends on its old content" % p["n"] if bad else "")
    from walk import walk, functions, where
    for f in sorted(functions(R), key=lambda f: f["id"]):
        hit = []

        def visit(e, par):
            if e.get("k") == "cast" and e.get("cc") and not const_target(R, e["t"]):
                hit.append(where(R, e, f))
        walk(f.get("body"), visit)
        if hit or f["n"] in PUBLIC:
            add("C07", rule="no-const-cast", id="cast:%s" % R.keys[f["id"]], fn=f["q"], where=hit[0] if hit else R.where(f["l"]),
                status="violated" if hit else "ok", detail="const is cast away at %s" % ", ".join(hit) if hit else "")
