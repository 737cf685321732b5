"""Rules decided on the syntax tree, types and value graphs besides the comparison with the reference model."""
import os

import r_effects
import r_interface
import r_life
import r_python
import r_state
import r_types
from program import Program

TEXTS = {}
for m in (r_state, r_python, r_interface, r_types, r_effects, r_life):
    TEXTS.update(m.TEXT)


def run(R, M, c, repo, here, work, add):
    def rule(name, pids, fn, *args):
        """a construct the rule does not know leaves its properties undecided"""
        try:
            fn(*args)
        except Exception as x:
            if os.environ.get("VERIF_DEBUG"):
                raise
            for p in pids:
                add(p, rule=name, id=name, where=repo, status="undecided",
                    detail="not understood: %s %s" % (type(x).__name__, x))
    rule("state", ["C08"], r_state.run, R, M, add)
    rule("interface", ["C12", "C13"], r_interface.run, R, M, add)
    rule("effects", ["C07"], r_effects.run, R, M, c, add)
    rule("lifetime", ["C23"], r_life.run, R, M, add)
    a, b = os.path.join(work, "pyrepo.json"), os.path.join(work, "pymodel.json")
    if os.path.exists(a):
        rule("python-function", ["C12"], r_python.run, Program(a), Program(b), c, R, add)
    else:
        add("C12", rule="python-function", id="python", where=repo + "/src", status="undecided",
            detail="the sources of the Python module do not compile")
    w = os.path.join(work, "wide.json")
    rule("types", ["C14"], r_types.run, R, Program(w) if os.path.exists(w) else None, work, repo, add)
