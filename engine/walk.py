"""Traversal of the extracted syntax trees."""


def walk(e, fn, par=None):
    """calls fn(node, parent) for every statement and expression, parents first"""
    if isinstance(e, dict):
        if "k" in e:
            fn(e, par)
            par = e
        for v in e.values():
            if isinstance(v, (dict, list)):
                walk(v, fn, par)
    elif isinstance(e, list):
        for v in e:
            if isinstance(v, (dict, list)):
                walk(v, fn, par)


def functions(p):
    return [f for f in p.funcs.values() if f.get("body") is not None or f["kind"] == "ctor"]


def where(p, e, f):
    return p.where(e.get("l") or f["l"])
