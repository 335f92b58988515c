"""A change to a message is written, with a fresh revision, before the operation reports success."""
from . import msgsync as M
from ..common import *

RULES = ("unwritten", "unstamped", "mark-dropped", "mark-left")
OLD = ("notmuch_database_index_file",)


def run(P, tier):
    R = Result()
    r = M.Sync(P)
    rs = M.roots(P, r)
    need(P, *OLD)
    old = P.enumval("NOTMUCH_FEATURE_GHOSTS")
    jobs = [((0, 0, 0), f) for f in sorted(rs, key=lambda f: -len(M.reach(P, f)))] + [((0, 0, old), f) for f in OLD]
    vs, seen, st = parallel(P, lambda *a: M.Sync(P, *a), jobs)
    R.violations = [v for v in vs if v["rule"] in RULES]
    M.enough(seen, ("change", "stamp", "write", "mark", "delete"))
    R.cov = dict(operations=rs, old_format=list(OLD), rules=list(RULES), events={k: len(v) for k, v in seen.items()}, write_sites=sorted(seen["write"]), analysis=st)
    R.explain = "Typestate of every message and directory record from its first in-memory change to the end of each public operation, on all paths (writable, open, current database features, message not frozen); indexing also for databases without ghost messages."
    return R
