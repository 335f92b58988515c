"""Atomic sections are balanced, and only the outermost close commits."""
from ..common import *

BEGIN = "notmuch_database_begin_atomic"
END = "notmuch_database_end_atomic"
CLOSE = ["notmuch_database_close", "notmuch_database_destroy"]
ERR = (1, 40, frozenset())


class Depth(Rule):
    """property state: (net sections opened, a begin failed while none was open)"""

    def __init__(self, P, cli):
        self.P = P
        self.cli = cli
        self.interesting_set = closure_callers(P, [BEGIN, END] + ([] if not cli else CLOSE))
        if cli:
            self.interesting_set = {n for n in self.interesting_set if not P.fns[n].tu.startswith("lib/")}
        self.sites = set()

    def init(self, f):
        return (0, False)

    def on_call(self, E, st, i, name, args):
        d, bf = st.ps
        if name == BEGIN:
            self.sites.add(ir.loc(i))
            ok = Outcome("ret", (min(d + 1, 6), bf), ("c", 0))
            return [ok, Outcome("ret", (d, True), None, ERR)] if d <= 0 else [ok]
        if name == END:
            self.sites.add(ir.loc(i))
            if d == 0 and bf:
                # the failed begin left no section: closing reports UNBALANCED_ATOMIC and changes nothing
                return [Outcome("ret", (0, bf), None, ERR)]
            if d <= 0 and not self.cli:
                E.violate(i, "unopened-close", "closes an atomic section this operation did not open", st)
                return [Outcome("ret", (0, bf))]
            return [Outcome("ret", (d - 1, bf), ("c", 0)), Outcome("ret", (d - 1, bf), None, ERR)]
        if self.cli and name in CLOSE and d > 0:
            return [Outcome("ret", (50, bf))]     # the open transaction is discarded
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root:
            return
        d, bf = st.ps
        if self.cli:
            if kind == "ret" and d != 0 and (rv is None or E.isnull(st, rv) is not False):
                E.violate(f, "open-at-success", "command can finish successfully with an atomic section left open, so its changes are discarded" if d > 0 else "command closes a section it did not open", st, key=("open-at-success", f.name))
            return
        if d != 0:
            E.violate(f, "unbalanced", "returns with an atomic section it opened still open (net %+d, %s exit)" % (d, kind), st, key=("unbalanced", f.name, kind))


class Impl(Rule):
    """nesting arithmetic of begin/end themselves; ps = set of events"""

    def __init__(self, P, which):
        self.P = P; self.which = which
        self.tx = by_dem(P, "Xapian::WritableDatabase::begin_transaction(")
        self.ct = by_dem(P, "Xapian::WritableDatabase::commit_transaction(")
        self.interesting_set = closure_callers(P, self.tx + self.ct) if which else set()
        self.S = "%struct._notmuch_database"
        fo = {n: o for o, n, t, s in P.structs["_notmuch_database"]["fields"]}
        for n in ("atomic_nesting", "atomic_dirty", "revision"):
            if n not in fo:
                raise Broken("field %s of the database handle not found" % n)
        self.nest = ("P", 0), fo["atomic_nesting"]
        self.dirty = ("P", 0), fo["atomic_dirty"]
        self.rev = ("P", 0), fo["revision"]
        self.exits = 0

    def init(self, f):
        # give the handle's counters names for the whole activation
        return (frozenset(), ("y", ("pm", 0, "nest")), ("y", ("pm", 0, "dirty")), ("y", ("pm", 0, "rev")))

    def seed(self, st):
        st.mem[self.nest] = (st.ps[1], (self.S, self.nest[1]))
        st.mem[self.dirty] = (st.ps[2], (self.S, self.dirty[1]))
        st.mem[self.rev] = (st.ps[3], (self.S, self.rev[1]))
        st.facts[("pm", 0, "nest")] = (0, engine.INF, frozenset())

    def on_call(self, E, st, i, name, args):
        ev, n0, d0, r0 = st.ps
        if name in self.tx:
            fa = E.fact(st, st.mem[self.nest][0]) if self.nest in st.mem else TOP
            if fa[1] > 0:
                E.violate(i, "inner-begin", "a backend transaction can be started while a section is already open", st)
            return [Outcome("ret", (ev | {"begin"}, n0, d0, r0)), Outcome("throw", st.ps, exc="_ZTIN6Xapian5ErrorE")]
        if name in self.ct:
            fa = E.fact(st, n0)
            if not (fa[0] == fa[1] == 1):
                E.violate(i, "inner-commit", "the backend transaction can be committed by a close that is not the outermost one", st)
            return [Outcome("ret", (ev | {"commit"}, n0, d0, r0)), Outcome("throw", st.ps, exc="_ZTIN6Xapian5ErrorE")]
        return None

    def delta(self, st, sym, cell):
        """net change of a counter at exit: 0, +1, -1 or None"""
        e = st.mem.get(cell)
        if e is None:
            return None
        av = e[0]
        if av == sym:
            return 0
        if av[0] == "y" and av[1][0] == "op" and av[1][2] == sym[1]:
            op, c = av[1][1], av[1][3]
            if op == "add" and c == ("c", 1) or op == "sub" and c == ("c", -1):
                return 1
            if op == "add" and c == ("c", -1) or op == "sub" and c == ("c", 1):
                return -1
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root:
            return
        self.exits += 1
        ev, n0, d0, r0 = st.ps
        dn = self.delta(st, n0, self.nest)
        dr = self.delta(st, r0, self.rev)
        zero = None if rv is None else E.isnull(st, rv)
        want = 1 if self.which == "begin" else -1
        if kind == "throw":
            E.violate(f, "throws", "lets a backend exception escape", st, key=("throws", f.name)); return
        if zero is not False and dn != want:
            E.violate(f, "nesting", "can report success without changing the nesting level by %+d" % want, st, key=("nesting-ok", f.name))
        if zero is not True and dn != 0:
            E.violate(f, "nesting", "can report failure although the nesting level changed", st, key=("nesting-err", f.name))
        if self.which == "end":
            fa = E.fact(st, n0)
            if zero is not False and fa[0] <= 0:
                E.violate(f, "unbalanced-accepted", "accepts a close when no section is open", st, key=("unb", f.name))
            if "commit" in ev:
                dt = E.truth(st, d0)
                if zero is not False:
                    if dt is not False and dr != 1:
                        E.violate(f, "revision", "commits a section that changed messages without advancing the database revision", st, key=("rev", f.name))
                    if dt is False and dr != 0:
                        E.violate(f, "revision-clean", "advances the revision although the section changed nothing", st, key=("rev0", f.name))
                    c = st.mem.get(self.dirty)
                    if dt is not False and (c is None or E.truth(st, c[0]) is not False):
                        E.violate(f, "dirty", "leaves the section's change flag set after committing it", st, key=("dirty", f.name))
            elif zero is not False:
                # success without a commit: only for an inner close or a read-only handle
                inner = fa[0] >= 2
                ro = self.readonly(E, st)
                if not inner and not ro:
                    E.violate(f, "no-commit", "closes the outermost section of a writable database successfully without committing it", st, key=("nocommit", f.name))
                if dr != 0:
                    E.violate(f, "revision-inner", "advances the revision without a commit", st, key=("revi", f.name))
        else:
            fa = E.fact(st, n0)
            if zero is not False and "begin" not in ev and not fa[0] >= 1 and not self.readonly(E, st):
                E.violate(f, "no-begin", "opens the outermost section of a writable database without starting a backend transaction", st, key=("nobegin", f.name))

    def readonly(self, E, st):
        # a handle without a writable backend object
        off = {n: o for o, n, t, s in self.P.structs["_notmuch_database"]["fields"]}["writable_xapian_db"]
        c = st.mem.get((("P", 0), off))
        if c is not None and E.isnull(st, c[0]) is True:
            return True
        # or through the mode query's result
        for k, v in st.facts.items():
            pass
        return "ro" in st.ps[0] if False else getattr(st, "_ro", False)


class ImplMode(Impl):
    MODE = "_notmuch_database_mode"

    def on_call(self, E, st, i, name, args):
        r = Impl.on_call(self, E, st, i, name, args)
        if r is not None:
            return r
        if name and E.P.demangle(name).split("(")[0] == self.MODE:
            ev, n0, d0, r0 = st.ps
            return [Outcome("ret", (ev | {"ro"}, n0, d0, r0), ("c", 0)), Outcome("ret", (ev | {"rw"}, n0, d0, r0), ("c", 1))]
        return None

    def readonly(self, E, st):
        return "ro" in st.ps[0] or Impl.readonly(self, E, st)


def run(P, tier):
    need(P, BEGIN, END, *CLOSE)
    R = Result()
    rule = Depth(P, False)
    E = Engine(rule, P)
    roots = [f.name for f in P.public() if f.name in rule.interesting_set and f.name not in (BEGIN, END)]
    if len(roots) < 2:
        raise Broken("only %d library operations open an atomic section" % len(roots))
    for n in roots:
        E.run(n)
    R.add(E)
    rule2 = Depth(P, True)
    E2 = Engine(rule2, P)
    croots = [n for n in commands(P) if n in rule2.interesting_set]
    for n in croots:
        E2.run(n)
    R.add(E2)
    ex = {}
    if P.enumval("NOTMUCH_DATABASE_MODE_READ_ONLY") != 0:
        raise Broken("database mode encoding changed")
    for n, w in ((BEGIN, "begin"), (END, "end")):
        r3 = ImplMode(P, w)
        if not r3.tx or not r3.ct:
            raise Broken("backend transaction primitives not found")
        E3 = Engine(r3, P)
        f = P.fns[n]
        st = engine.St(r3.init(f))
        for k in range(len(f.args)):
            st.env[("a", k)] = ("y", ("P", k))
        st.facts[("P", 0)] = NONNULL
        r3.seed(st)
        E3.explore(f, st, True)
        R.add(E3)
        ex[n] = r3.exits
    # who may drive backend transactions
    allowed = {BEGIN, END, "notmuch_database_close", "notmuch_database_upgrade", "notmuch_database_reopen"}
    sites = []
    for p in ("begin_transaction(", "commit_transaction(", "cancel_transaction(", "commit("):
        for n in by_dem(P, "Xapian::WritableDatabase::" + p):
            for i in P.callers.get(n, ()):
                sites.append(i)
                own = owners(P, i.F.name)
                bad = own - allowed
                if bad:
                    R.v(i, "transaction-owner", "backend transaction is driven outside the section, upgrade and close operations (reached from %s)" % ", ".join(sorted(bad)[:4]), "owner/%s/%s" % (i.F.name, p))
    if len(sites) < 4:
        raise Broken("backend transaction calls not found")
    R.cov = dict(library_roots=roots, command_roots=croots, section_call_sites=sorted(rule.sites | rule2.sites),
                 implementation_exits=ex, backend_transaction_sites=[ir.loc(i) for i in sites], library_analysis=stats(E), command_analysis=stats(E2),
                 obligations=len(roots) + len(croots) + 2 + len(sites))
    R.explain = "Path-sensitive section-depth dataflow over every library operation and command that opens an atomic section, plus the nesting/commit/revision arithmetic of the begin and end operations themselves."
    return R
