"""An upgrade of the database format happens completely or not at all."""
from ..common import *
from .. import ir
from .msgsync import off

DB = "%struct._notmuch_database"
ROOT = "notmuch_database_upgrade"
RECORD = ("features", "version")
W = "Xapian::WritableDatabase::"
OLD = ("pm", "features", 0)


class Upgrade(SymRule):
    """ps: (transaction none|open|done|undone, features as found, recorded metadata, did a step fail, armed, needed)"""
    wants_load = wants_store = pass_structs = pass_strings = True

    def __init__(self, P):
        self.P = P
        self.begin = set(by_dem(P, W + "begin_transaction("))
        self.commit = set(by_dem(P, W + "commit_transaction("))
        self.cancel = set(by_dem(P, W + "cancel_transaction("))
        self.meta = set(by_dem(P, W + "set_metadata("))
        self.write = {n for x in ("replace_document(", "add_document(", "delete_document(") for n in by_dem(P, W + x)} | self.meta
        for n, s in (("begin_transaction", self.begin), ("commit_transaction", self.commit), ("cancel_transaction", self.cancel), ("set_metadata", self.meta)):
            if not s:
                raise Broken("no %s" % n)
        self.ctor = {n for n in P.callers if n and "basic_string" in n and ("C1" in n or "C2" in n)}
        self.features = (DB, off(P, DB, "features"))
        self.interesting_set = {n for n in closure_callers(P, self.begin | self.commit | self.cancel | self.write | {"setitimer", "sigaction", "alarm", "signal"}) if P.fns[n].tu.startswith("lib/")}
        self.seen = {}

    def init(self, f):
        return ("none", True, frozenset(), False, frozenset(), None)

    def ev(self, i, what):
        self.seen.setdefault(what, set()).add(ir.loc(i))

    def on_load(self, E, st, i, av, key):
        if key == self.features and st.ps[1]:
            return ("y", OLD)

    def on_store(self, E, st, i, addr, val, key):
        if key == self.features:
            self.ev(i, "features")
            t, ft, m, bad, arm, nd = st.ps
            st.ps = (t, val == ("y", OLD), m, bad, arm, nd)

    def on_throw(self, E, st, i, name):
        t, ft, m, bad, arm, nd = st.ps
        if t == "open":
            st.ps = (t, ft, m, True, arm, nd)

    def on_call(self, E, st, i, name, args):
        t, ft, m, bad, arm, nd = st.ps
        def out(t=t, m=m, bad=bad, arm=arm, ret=None):
            return Outcome("ret", (t, ft, m, bad, arm, nd), ret)
        def thr(t=t, bad=True):
            return Outcome("throw", (t, ft, m, bad, arm, nd), exc="_ZTIN6Xapian5ErrorE")
        if name in self.ctor and len(args) > 1 and args[1][0] == "p" and args[1][1][0] == "S" and args[0][0] == "p":
            return [Outcome("ret", st.ps, outs=(((args[0][1], args[0][2]), (args[1], NONNULL)),))]
        if name in self.begin:
            self.ev(i, "begin")
            if t == "open":
                E.violate(i, "nested", "a transaction is begun while one is open", st, key=("nested", ROOT))
            return [out("open"), thr(t)]
        if name in self.commit:
            self.ev(i, "commit")
            if bad:
                E.violate(i, "half", "an upgrade of which a step failed is committed", st, key=("half", ROOT))
            for k in RECORD:
                if k not in m:
                    E.violate(i, "unrecorded", "the upgrade can be committed without recording the new %s with it" % k, st, key=("unrecorded", k))
            if t != "open":
                E.violate(i, "no-transaction", "commit without an open transaction", st, key=("no-transaction", "commit"))
            return [out("done"), thr("undone")]
        if name in self.cancel:
            self.ev(i, "cancel")
            if t != "open":
                E.violate(i, "no-transaction", "an upgrade that failed before its transaction was begun cancels one all the same", st, key=("no-transaction", "cancel"))
            return [out("undone", frozenset()), thr("undone")]
        if name in self.write:
            self.ev(i, "write")
            if t != "open":
                E.violate(i, "outside", "the database is changed outside the transaction of the upgrade", st, key=("outside", ROOT, short(i.F)))
            k = None
            if name in self.meta:
                e = st.mem.get((args[1][1], args[1][2])) if args[1][0] == "p" else None
                k = e[0][1][1] if e and e[0][0] == "p" and e[0][1][0] == "S" else None
            return [out(m=m | {k} if k in RECORD else m), thr()]
        if name == "setitimer":
            self.ev(i, "timer")
            e = [st.mem.get((args[1][1], args[1][2] + o)) for o in (16, 24)] if args[1][0] == "p" else [None]
            on = not all(x and x[0] == ("c", 0) for x in e)
            return [out(arm=arm | {"timer"} if on else arm - {"timer"}, ret=("c", 0))]
        if name == "alarm":
            return [out(arm=arm | {"timer"} if args[0] != ("c", 0) else arm - {"timer"})]
        if name in ("sigaction", "signal"):
            self.ev(i, "handler")
            if name == "signal":
                h = args[1]
            else:
                e = st.mem.get((args[1][1], args[1][2])) if args[1][0] == "p" else None
                h = e[0] if e else None
            ours = not (h is not None and (h[0] in ("c", "y")))
            return [out(arm=arm | {"handler"} if ours else arm - {"handler"}, ret=("c", 0))]
        if name == "notmuch_database_needs_upgrade":
            return [Outcome("ret", (t, ft, m, bad, arm, False), ("c", 0)), Outcome("ret", (t, ft, m, bad, arm, True), ("c", 1))]
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root:
            return
        t, ft, m, bad, arm, nd = st.ps
        if kind == "throw":
            how = "ends with an exception"
        elif rv is not None and E.isnull(st, rv) is True:
            how = None
        else:
            how = "fails"
        if how is None:
            if t in ("open", "undone") or nd and t != "done":
                E.violate(f, "not-done", "the upgrade reports success although nothing was committed", st, key=("not-done", ROOT))
        elif t == "open":
            E.violate(f, "left-open", "an upgrade that %s leaves its transaction open" % how, st, key=("left-open", how))
        elif t != "done" and not ft:
            E.violate(f, "features", "an upgrade that %s leaves the handle believing that the database has the new format" % how, st, key=("features", how))
        for a in sorted(arm):
            E.violate(f, "armed", "the progress %s is still active after an upgrade that %s" % (a, how or "succeeded"), st, key=("armed", a, how or "succeeds"))


def run(P, tier):
    R = Result()
    need(P, ROOT)
    r = Upgrade(P)
    E = Engine(r, P)
    E.K = 100
    E.run(ROOT)
    R.add(E)
    for k in ("begin", "commit", "cancel", "write", "features"):
        if not r.seen.get(k):
            raise Broken("no %s event" % k)
    R.cov = dict(operation=ROOT, events={k: sorted(v) for k, v in r.seen.items()}, recorded=list(RECORD), analysis=stats(E))
    R.explain = "Typestate of the upgrade transaction, the features of the handle, the recorded metadata and the progress timer on every path of notmuch_database_upgrade, each backend operation failing in turn."
    return R
