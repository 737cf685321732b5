"""Constants of the C++ interface: enumerators and default arguments."""
from r_python import const_of, Unknown

TEXT = {
    "enum-value": "each enumerator of an option type keeps its numeric value",
    "default-argument": "the default of an argument of an entry point or argument structure is that of the model",
    "same-default": "an option has the same default in the positional entry point and in the argument structures",
}

OPTIONS = ("comma::CoMMANeighbourhoodT", "comma::CoMMASeedsPoolT", "comma::CoMMAAspectRatioT", "comma::CoMMACellCouplingT")
PUBLIC = ("comma::agglomerate_one_level", "comma::GraphArgs::GraphArgs", "comma::AgglomerationArgs::AgglomerationArgs",
          "comma::AnisotropicArgs::AnisotropicArgs", "comma::compute_neighbourhood_based_wall_distance",
          "comma::filter_cells_by_n_edges", "comma::build_coarse_graph")


def run(R, M, add):
    def enums(p):
        return {(e["q"], x["n"]): (x["v"], e["l"]) for e in p.enums for x in e["e"] if e["q"] in OPTIONS}
    a, b = enums(R), enums(M)
    for k in sorted(b):
        got = a.get(k)
        bad = got is None or got[0] != b[k][0]
        for pid in ("C13", "C12"):
            add(pid, rule="enum-value", id="enumerator:%s::%s" % k, where=R.where(got[1]) if got else "?",
                status="violated" if bad else "ok",
                detail="%s::%s is %s instead of %s" % (k[0], k[1], got and got[0], b[k][0]) if bad else "")
    for mf in sorted(M.funcs.values(), key=lambda f: f["id"]):
        if mf["q"] not in PUBLIC or mf.get("implicit"):
            continue
        rf = R.funcs.get(R.bykey.get(M.keys[mf["id"]]))
        if rf is None:
            continue
        for i, (x, y) in enumerate(zip(rf["params"], mf["params"])):
            if "def" not in y and "hasdef" not in y:
                if "def" in x or "hasdef" in x:
                    continue
                continue
            bad, und = "", False
            try:
                u, v = const_of(R, x.get("def")), const_of(M, y.get("def"))
                if "def" not in x and "hasdef" not in x:
                    bad = "argument %s has no default any more" % x["n"]
                elif u is None or v is None:
                    und = True
                elif u != v:
                    bad = "argument %s defaults to %s instead of %s" % (x["n"], u, v)
            except Unknown:
                und = True
            for pid in ("C12",):
                add(pid, rule="default-argument", id="default:%s:%d" % (M.keys[mf["id"]], i), fn=mf["q"],
                    where=R.where(rf["l"]), status="undecided" if und else "violated" if bad else "ok", detail=bad)
