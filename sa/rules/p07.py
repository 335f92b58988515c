"""Freezing: nothing is written while frozen, everything is written when the last freeze is undone."""
from . import msgsync as M
from ..common import *

RULES = ("frozen-write", "frozen-depth", "unmarked", "unwritten", "unbalanced")


def run(P, tier):
    R = Result()
    jobs = []
    r = M.Sync(P)
    allr = [f for f in M.roots(P, r) if r.msgs(P.fns[f])]
    for frozen, modified in ((0, 0), (1, 0), (1, 1), (2, 1)):
        rs = allr
        if frozen == 0:
            rs = [f for f in rs if f in M.FREEZERS or any(i.callee in M.FREEZERS for i in P.fns[f].calls())]
        jobs += [((frozen, modified), f) for f in rs]
    jobs.sort(key=lambda j: -len(M.reach(P, j[1])))
    vs, seen, st = parallel(P, lambda *a: M.Sync(P, *a), jobs)
    R.violations = [v for v in vs if v["rule"] in RULES]
    M.enough(seen, ("change", "write", "mark", "freeze"))
    R.cov = dict(operations=allr, initial_states=["depth %d, %s" % (a, "change pending" if b else "no change pending") for a, b in sorted({j[0] for j in jobs})], exempt=M.FILE_RENAMERS, analysis=st)
    R.explain = "The same typestate started from a message frozen once or twice, with and without pending changes."
    return R
