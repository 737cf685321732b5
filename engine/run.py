"""Whole analysis: run.py <work directory> <repository> <verif directory>; writes result.json."""
import json
import os
import resource
import sys
import time

sys.setrecursionlimit(200000)
resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) \
    if resource.getrlimit(resource.RLIMIT_STACK)[1] == resource.RLIM_INFINITY else None
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import compare
import tags
from program import Program

RULES = {
    "value-graph": "the normalised value graph of the observable equals that of the reference model "
                   "(gated value numbering: joins at merge points, loops as recurrences, callees as numbered calls)",
}


def main(work, repo, here):
    t0 = time.time()
    R = Program(os.path.join(work, "repo.json"))
    M = Program(os.path.join(work, "model.json"))
    times = {"load": round(time.time() - t0, 2)}
    c = compare.Comparison(R, M).run()
    times.update({k: round(v, 2) for k, v in c.times.items()})
    props = {}

    def add(pid, **o):
        props.setdefault(pid, {"obligations": []})["obligations"].append(o)
    dif = {(d.key, d.obs): d for d in c.diffs}
    for key, f, obs, status in c.compared:
        d = dif.get((key, obs))
        path = R.files[f["l"][0]]
        where = "%s:%d" % (path, f["l"][1])
        names = [obs] if obs != "*" else sorted(c.man.obs.get(M.bykey[key], {}))
        for o in names:
            ids = tags.tags(f["q"], o, path, d.ctx if d is not None else None)
            if d is not None and status == "differs":
                ids = ids + [x for k in d.kinds for x in tags.KINDS[k] if x not in ids]
            for pid in ids:
                add(pid, rule="value-graph", id="%s:%s" % (key, o), fn=f["q"], where=where,
                    status={"equal": "ok", "differs": "violated"}.get(status, status),
                    detail=d.detail if d is not None else "")
    import rules
    rules.run(R, M, c, repo, here, work, add)
    RULES.update(rules.TEXTS)
    st = c.ran.stats.values()
    stats = {
        "functions": len(R.funcs), "functions_evaluated": len(c.ran.obs), "functions_matched": len({k for k, _, _, _ in c.compared}),
        "observables": len(c.compared), "renamed": c.renamed, "model_only": len(c.unmatched),
        "loops": sum(s["loops"] for s in st), "calls": sum(s["calls"] for s in st),
        "inlined_calls": sum(s["inlined"] for s in st), "joins": sum(s["joins"] for s in st),
    }
    json.dump({"props": props, "rules": RULES, "stats": stats, "times": times,
               "assumptions": ["standard library containers and algorithms behave as documented",
                               "arithmetic is exact (no rounding or overflow) for the purpose of equality",
                               "the reference model in /verif/model states the intended behaviour"]},
              open(os.path.join(work, "result.json"), "w"))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    err = []

    def go():
        try:
            main(*sys.argv[1:4])
        except BaseException:
            import traceback
            err.append(traceback.format_exc())
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if err:
        print(err[0])
        sys.exit(1)
