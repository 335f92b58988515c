"""No backend exception escapes the public C interface."""
from ..common import *


class Exc(Rule):
    def __init__(self, P):
        thr = engine.compute_throwers(P)
        self.interesting_set = thr

    def descend(self, name):
        return False

    def init(self, f):
        return None

    def on_throw(self, E, st, i, name):
        st.ps = (i.id, name or "indirect call")

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "throw":
            self.thrown.append((st, st.ps))


def run(P, tier):
    R = Result()
    rule = Exc(P)
    prims = sorted({n for n in P.decl if engine.throwing(P, n)})
    if len(prims) < 30:
        raise Broken("only %d throwing backend primitives recognised" % len(prims))
    E = Engine(rule, P)
    roots = [f for f in P.public() if f.name in rule.interesting_set]
    if len(roots) < 40:
        raise Broken("only %d public functions reach the backend" % len(roots))
    pub = {f.name for f in P.public()}
    for f in roots:
        rule.thrown = []
        E.run(f.name)
        for st, w in rule.thrown:
            callee = w[1] if w else "?"
            if callee in pub:
                continue          # that operation has its own obligation
            at = f.byid[w[0]] if w else f
            via = E.P.demangle(callee).split("(")[0] if not callee.startswith("indirect") else callee
            E.violate(at, "escape", "a backend exception raised by %s can escape %s to its C caller" % (via, f.name), st,
                      key=("escape", f.name))
    R.add(E)
    R.cov = dict(public_functions_reaching_backend=len(roots), roots=[f.name for f in roots], throwing_primitives=len(prims), primitive_call_sites=count_calls(P, prims), analysis=stats(E))
    R.explain = "Exception-propagation analysis: every public function that can reach a throwing backend primitive is explored with the handlers on each path; an exceptional exit is an escape."
    return R
