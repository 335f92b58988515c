"""Compacting a database never loses it."""
from ..common import *
from .. import ir

REMOVERS = {"nftw": 0, "nftw64": 0, "unlink": 0, "rmdir": 0, "remove": 0, "unlinkat": 1}
X = ("rename", "renameat", "renameat2", "link")


class Compact(SymRule):
    """ps: (compacted, moved, installed, absent, removed)
    compacted: where the compacted database was written; moved: (from, to) of the original; absent: a path known not to exist;
    removed: what was removed before the compacted database existed"""
    pass_strings = True

    def __init__(self, P, keep):
        self.P, self.keep = P, keep
        self.prim = {n for n in by_dem(P, "Xapian::Database::compact") if "compact_" not in P.demangle(n)}
        if not self.prim:
            raise Broken("the backend's compaction not found")
        self.ctor = {n for n in P.callers if n and "basic_string" in n and ("C1" in n or "C2" in n)}
        self.interesting_set = {n for n in closure_callers(P, set(self.prim) | set(REMOVERS) | set(X) | {"stat", "lstat", "access"}) if P.fns[n].tu.startswith("lib/")}
        self.seen = {}

    def init(self, f):
        return (None, None, None, None, frozenset())

    def ev(self, i, what):
        self.seen.setdefault(what, set()).add(ir.loc(i))

    def on_call(self, E, st, i, name, args):
        if name is None:
            return None
        c, mv, ins, ab, rm = st.ps
        if name in self.ctor and len(args) > 1 and args[0][0] == "p" and args[1][0] in ("y", "p"):
            return [Outcome("ret", st.ps, outs=(((args[0][1], args[0][2]), (args[1], NONNULL)),))]
        if name in self.prim:
            self.ev(i, "compact")
            e = st.mem.get((args[1][1], args[1][2])) if args[1][0] == "p" else None
            v = e[0] if e else ("y", ("pm", "unknown"))
            if rm - {v}:
                E.violate(i, "removed", "something other than an earlier unfinished result is removed before the database is compacted", st, key=("removed", short(i.F)))
            return [Outcome("ret", (v, mv, ins, ab, frozenset())), Outcome("throw", st.ps, exc="_ZTIN6Xapian5ErrorE")]
        if name in ("stat", "lstat", "access"):
            return [Outcome("ret", st.ps, ("c", 0)), Outcome("ret", (c, mv, ins, args[0], rm), ("c", -1))]
        if name in X:
            k = 0 if name in ("rename", "link") else 1
            a, b = args[k], args[k + k + 1]
            self.ev(i, "move")
            bad = Outcome("ret", st.ps, ("c", -1))
            if c is not None and a == c:
                if mv is None:
                    E.violate(i, "overwrite", "the compacted database is put in place before the original was moved out of the way", st, key=("overwrite", short(i.F)))
                elif b != mv[0]:
                    E.violate(i, "misplaced", "the compacted database is not put where the original was", st, key=("misplaced", short(i.F)))
                return [Outcome("ret", (c, mv, "yes", ab, rm), ("c", 0)), Outcome("ret", (c, mv, "failed", ab, rm), ("c", -1))]
            if mv is not None and (a, b) == (mv[1], mv[0]):
                self.ev(i, "back")
                if ins == "yes":
                    E.violate(i, "undone", "the original is moved over the compacted database", st, key=("undone", short(i.F)))
                return [Outcome("ret", (c, None, None, ab, rm), ("c", 0)), Outcome("ret", (c, mv, "tried", ab, rm), ("c", -1))]
            if c is None:
                E.violate(i, "early", "the original is moved before a compacted database exists", st, key=("early", short(i.F)))
            if ab != b:
                E.violate(i, "clobber", "the original is moved to a path that may already exist", st, key=("clobber", short(i.F)))
            return [Outcome("ret", (c, (a, b), ins, None, rm), ("c", 0)), bad]
        if name in REMOVERS:
            a = args[REMOVERS[name]]
            self.ev(i, "remove")
            if c is None:
                return [Outcome("ret", (c, mv, ins, ab, rm | {a}))]
            if mv is not None and a == mv[1]:
                if ins != "yes":
                    E.violate(i, "lost", "the original is removed although the compacted database is not in place", st, key=("lost", short(i.F)))
                elif self.keep:
                    E.violate(i, "kept", "the backup that was asked for is removed", st, key=("kept", short(i.F)))
                return [Outcome("ret", (c, mv, ins, ab, rm), ("c", 0)), Outcome("ret", st.ps, ("c", -1))]
            if a == c and ins != "yes":
                return None
            E.violate(i, "live", "the database in use is removed", st, key=("live", short(i.F)))
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root:
            return
        c, mv, ins, ab, rm = st.ps
        if kind == "ret" and rv is not None and E.isnull(st, rv) is True:
            if ins != "yes":
                E.violate(f, "nothing", "compaction reports success although no compacted database was put in place", st, key=("nothing", f.name))
        elif mv is not None and ins not in ("yes", "tried"):
            E.violate(f, "gone", "a compaction that fails leaves no database where it was", st, key=("gone", f.name))


def run(P, tier):
    R = Result()
    r0 = Compact(P, 0)
    pub = sorted(f.name for f in P.public() if f.name in closure_callers(P, r0.prim))
    roots = [n for n in pub if not any(i.callee in pub and i.callee != n for i in P.fns[n].calls())]
    if not roots:
        raise Broken("no public operation compacts")
    seen = {}
    S = []
    for keep in (0, 1):
        for n in roots:
            r = Compact(P, keep)
            E = Engine(r, P)
            E.K = 60
            f = P.fns[n]
            k = next((j for j, v in enumerate(f.dtypes[1:]) if v.replace(" ", "") == "constchar*"), None)
            if k is None:
                raise Broken("%s has no path argument" % n)
            E.run(n, args={k: ("c", 0)} if not keep else {k: ("p", ("S", "backup"), 0)})
            R.add(E)
            S.append(stats(E))
            for a, b in r.seen.items():
                seen.setdefault(a, set()).update(b)
    for k in ("compact", "move", "remove"):
        if not seen.get(k):
            raise Broken("no %s event" % k)
    u = {v["key"]: v for v in R.violations}
    R.violations = list(u.values())
    R.cov = dict(operations=roots, backup=["kept", "discarded"], events={k: sorted(v) for k, v in seen.items()}, analysis=S)
    R.explain = "Typestate of the original, the compacted copy and the backup on every path of the compaction, with and without a requested backup, each step failing in turn."
    return R
