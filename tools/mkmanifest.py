#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = ("static analysis: interprocedural value-flow graph (gated global value numbering, loops as closed "
       "recurrences) of every function compared with the one of a reference model; no execution, no solver")
NOTE = ("Each obligation is one observable (return value, output parameter, field, throw condition) of one function "
        "for all inputs; the verdict is relative to the reference model and the description of the standard library "
        "in engine/stdmodel.py; undecided obligations are counted in the evidence and never reported.")
EXTRA = {
    "C07": (GVN + "; effect rule: no path of an output container's value graph starts from its old content, no input is written "
            "or has its constness removed", NOTE),
    "C08": (GVN + "; state rule over all declarations and callees (mutable static storage, ambient inputs, address-valued keys)", NOTE),
    "C12": (GVN + "; value graph of the Python module (functions, keywords, defaults, enumerations) against the C++ interface", NOTE),
    "C13": (GVN + "; enumeration values and default arguments read from the declarations", NOTE),
    "C14": ("static analysis: type-level witnesses (the library is type-checked for the combinations of index, weight and integer "
            "types, rejected ones must fail with the library's own message, each header alone and twice in a program), narrowing "
            "conversions collected from the instantiations with wide types, external definitions collected from the declarations",
            "Witnesses cover the listed combinations of types; templates are instantiated but never run."),
    "C23": ("static analysis: reference-retention fixpoint over constructors and factories with scope nesting, escape rules, ownership "
            "graph, slicing, and a flow-sensitive typestate (moved-from, invalidated elements and iterators) with interprocedural "
            "effect summaries",
            "May-analysis by statement order with joins at merges; aliases are tracked through references, accessors and shared "
            "pointers named by access paths; containers reached only through unknown indices are not tracked."),
}
NA = {
    "C26": "what happens on degenerate geometry (coincident centres, zero volumes) depends on values of floating-point "
           "operations at run time (NaN, infinities); no static argument in reach bounds them",
}
PENDING = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = dict(NA)
    na.update(PENDING)
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": EXTRA.get(i, (GVN, NOTE))[0],
            "level": "other",
            "level_note": EXTRA.get(i, (GVN, NOTE))[1],
        } for i in ids if i not in na],
        "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
