"""Effects outside the arguments: mutable static state, random numbers, clocks, environment, addresses, threads."""
import re

from walk import walk, functions, where

TEXT = {
    "static-state": "a variable with static or thread storage duration is a constant whose initial value depends on "
                    "no argument, object or local, or is never written",
    "ambient": "no call reaches a source of values outside the arguments (random numbers, time, environment, files, "
               "threads, addresses turned into numbers)",
    "address-order": "no container is ordered or hashed by addresses and no addresses are compared for order",
}

MUTATING = {"insert", "emplace", "emplace_back", "emplace_front", "push_back", "push_front", "push", "pop", "pop_back",
            "pop_front", "clear", "erase", "resize", "assign", "reserve", "swap", "operator[]", "operator=", "extract", "merge",
            "try_emplace", "insert_or_assign", "reset", "operator+=", "operator-=", "operator++", "operator--", "store",
            "fetch_add", "operator()"}

AMBIENT = re.compile(
    r"(std::)?(rand|srand|random|drand48|lrand48|time|clock|clock_gettime|gettimeofday|getenv|secure_getenv|getpid|gettid|"
    r"pthread_self|sched_getcpu|system)$"
    r"|std::chrono::.*::now|std::(random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|"
    r"shuffle|random_shuffle|sample|uniform_\w+_distribution|normal_distribution|bernoulli_distribution)(::.*)?$"
    r"|std::(thread|jthread|async|atomic|mutex|condition_variable|this_thread)(::.*)?$"
    r"|std::(basic_ifstream|basic_fstream)(::.*)?$")

PTRTYPES = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")


def is_ptr(p, t):
    x = p.strip(t)
    return x["c"] == "ptr" or x.get("r") in PTRTYPES


def base_ref(e):
    """the variable an expression designates (possibly a part of)"""
    while isinstance(e, dict):
        k = e.get("k")
        if k == "ref":
            return e
        if k == "mem":
            e = e.get("b")
        elif k == "sub":
            e = e.get("a")
        elif k in ("cast",):
            e = e.get("a")
        elif k == "un" and e.get("op") in ("*", "&"):
            e = e.get("a")
        elif k == "opcall" and e.get("op") in ("[]", "*", "->") and e.get("args"):
            e = e["args"][0]
        elif k == "mcall" and e.get("n") in ("at", "front", "back", "value", "operator[]", "find", "begin", "end", "data"):
            e = e.get("o")
        else:
            return None
    return None


def written(p, ids):
    """declarations (of the given ids) that some function may write, with one place"""
    out = {}
    for f in functions(p):
        def visit(e, par):
            k = e.get("k")
            tgt = []
            if k in ("assign", "cassign"):
                tgt.append(e.get("a"))
            elif k == "un" and e.get("op") in ("++", "--"):
                tgt.append(e.get("a"))
            elif k == "opcall" and e.get("args"):
                op = "operator" + (e.get("op") or "")
                a0 = e["args"][0]
                if op in MUTATING and not e.get("cm"):
                    # operator[] of sequences only reads unless its result is written (seen there)
                    rec = p.rec(a0["t"]) if a0.get("t") is not None else None
                    if op != "operator[]" or rec in ("std::map", "std::unordered_map"):
                        tgt.append(a0)
            elif k == "mcall" and e.get("n") in MUTATING and not e.get("cm"):
                tgt.append(e.get("o"))
            if k in ("call", "mcall", "opcall", "ctor"):
                args = e.get("args") or []
                pt = e.get("pt") or []
                if k == "opcall" and e.get("cls"):
                    args = args[1:]
                for a, t in zip(args, pt):
                    if p.is_mut_ref(t) and not e.get("move"):
                        tgt.append(a)
            for x in tgt:
                r = base_ref(x)
                if r is not None and r.get("id") in ids:
                    out.setdefault(r["id"], where(p, e, f))
        walk(f.get("body"), visit)
        for i in f.get("inits") or []:
            walk(i.get("e"), visit)
    return out


def depends(e):
    """arguments, objects or locals an initialiser depends on"""
    out = []

    def visit(x, par):
        if x.get("k") == "this" or x.get("k") == "ref" and x.get("dk") in ("param", "var", "binding"):
            out.append(x.get("n", "this"))
    walk(e, visit)
    # names bound inside the initialiser itself (a lambda) are no dependence
    return out


def run(R, M, add):
    # ---- static variables
    by = {}
    for g in R.globals:
        by.setdefault((tuple(g["l"] or ()), g["q"]), g)
    wr = written(R, {g["id"] for g in R.globals if "id" in g})
    n = 0
    for (l, q), g in sorted(by.items(), key=lambda x: str(x[0])):
        n += 1
        wh = R.where(g["l"])
        st, d = "ok", ""
        same = [h for h in R.globals if h["q"] == q and h["l"] == g["l"]]
        dep = [x for h in same for x in depends(h.get("init"))]
        hit = [wr[h["id"]] for h in same if h.get("id") in wr]
        if g.get("local") and dep:
            st, d = "violated", "%s keeps the value computed by the first call from %s" % (q, ", ".join(sorted(set(dep))))
        elif not g["const"] and hit:
            st, d = "violated", "%s outlives the call and is written at %s" % (q, hit[0])
        elif not g["const"] and g.get("local") is False and not g.get("internal") and False:
            pass
        add("C08", rule="static-state", id="static:%s" % q, fn=q, where=wh, status=st, detail=d)
    # ---- ambient values
    for f in sorted(functions(R), key=lambda f: f["id"]):
        bad = []

        def visit(e, par):
            k = e.get("k")
            if k in ("call", "mcall", "opcall", "ctor", "fref"):
                q = e.get("q") or ""
                if AMBIENT.match(q) or e.get("rt") and AMBIENT.match(e["rt"]):
                    bad.append(("ambient", "calls %s" % q, where(R, e, f)))
            if k == "cast" and e.get("ck") == "PointerToIntegral":
                bad.append(("ambient", "turns an address into a number", where(R, e, f)))
            if k == "cast" and e.get("rc") and R.ty(e["t"])["c"] in ("int", "uint"):
                bad.append(("ambient", "turns an address into a number", where(R, e, f)))
            if k == "bin" and e.get("op") in ("<", ">", "<=", ">="):
                if all(x.get("t") is not None and R.ty(x["t"])["c"] == "ptr" for x in (e["a"], e["b"])):
                    bad.append(("address-order", "orders by address", where(R, e, f)))
            if k == "opcall" and e.get("op") in ("<", ">", "<=", ">="):
                if all(x.get("t") is not None and R.rec(x["t"]) in PTRTYPES for x in e.get("args") or []):
                    bad.append(("address-order", "orders by address", where(R, e, f)))
        walk(f.get("body"), visit)
        for i in f.get("inits") or []:
            walk(i.get("e"), visit)
        key = R.keys[f["id"]]
        add("C08", rule="ambient", id="ambient:%s" % key, fn=f["q"], where=R.where(f["l"]),
            status="violated" if bad else "ok", detail="; ".join("%s at %s" % (d, w) for _, d, w in bad[:3]))
    # ---- containers keyed by addresses
    kinds = {"std::set": 0, "std::map": 0, "std::unordered_set": 0, "std::unordered_map": 0, "std::multiset": 0,
             "std::multimap": 0}
    k = 0
    for x in R.types:
        if x and x.get("c") == "rec" and x.get("r") in kinds and x.get("a") and "t" in x["a"][0]:
            k += 1
            bad = is_ptr(R, x["a"][0]["t"])
            add("C08", rule="address-order", id="keys:%s" % x["s"], where="types", status="violated" if bad else "ok",
                detail="the order of %s is that of addresses" % x["s"] if bad else "")
