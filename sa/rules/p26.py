"""A command that could not do its work does not report success to the shell."""
from ..common import *

XE = 3


# deliberate: (operation, failing callee): reason
EXCEPT = {
    ("notmuch_new_command", "notmuch_database_get_directory"): "storing a directory's modification time only saves the next scan; without it the directory is scanned again",
    ("notmuch_new_command", "notmuch_directory_set_mtime"): "as above",
    ("show_message", "notmuch_indexopts_set_decrypt_policy"): "prepares that best-effort re-indexing",
    ("show_message", "notmuch_message_count_properties"): "only decides whether a best-effort re-indexing is attempted after the message was shown",
}


# commands whose purpose is to display mail: what they write to the index (stashed session keys, the
# re-indexing that follows) is documented as best effort and must not fail the display
BEST_EFFORT = {"notmuch_show_command": "stashing session keys while showing", "notmuch_reply_command": "stashing session keys while replying"}


def mutators(P):
    """public operations that a read-only handle refuses"""
    from . import p03
    w = set(p03.write_prims(P))
    c = closure_callers(P, w)
    return {f.name for f in P.public() if f.name in c and f.name not in p03.OPENERS and f.name not in p03.MAY_SUCCEED and f.dtypes and f.dtypes[0] == "notmuch_status_t"}


class Cli(Rule):
    """ps: None, or the (callee, function) that was made to fail on this path"""
    assume_options = {"keep": 0}      # insert --keep asks for success whatever happens after delivery

    def __init__(self, P, cands):
        self.P = P
        self.cands = cands
        self.interesting_set = {n for n in closure_callers(P, cands) if not P.fns[n].tu.startswith("lib/")}
        self.sites = set()
        self.bad = {}

    def init(self, f):
        return None

    def on_call(self, E, st, i, name, args):
        if name == "notmuch_database_destroy":
            if self.writes and not (st.ps and st.ps[0] == "closed") and not st.ps:
                return [Outcome("ret", ("destroyed", i.F.name, i.id))]
            return [Outcome("ret", st.ps)]
        if name not in self.cands:
            return None
        if name == "notmuch_database_close" and st.ps is None:
            self.sites.add((i.F.name, i.id))
            return [Outcome("ret", ("closed", "", 0), ("c", 0)), Outcome("ret", (name, i.F.name, i.id), ("c", XE))]
        if st.ps and st.ps[0] in ("closed", "destroyed"):
            return None
        if st.ps is not None:
            if (st.ps[0], st.ps[1]) == (name, i.F.name) and i.id == st.ps[2]:
                return [Outcome("ret", st.ps, ("c", XE))]
            return None
        self.sites.add((i.F.name, i.id))
        g = self.P.fns[name]
        base = [o for o in E.generic(i.F, st, i, name, g, args) if o.kind == "ret"]
        return base + [Outcome("ret", (name, i.F.name, i.id), ("c", XE))]

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and st.ps is not None and rv is not None:
            z = E.isnull(st, rv)
            if z is not False:
                if st.ps[0] != "closed":
                    self.bad.setdefault(st.ps, st)


def run(P, tier):
    R = Result()
    cands = {f.name for f in P.public() if f.dtypes and f.dtypes[0] == "notmuch_status_t"}
    cmds = commands(P)
    tot = {}
    used = set()
    mut = mutators(P)
    writers = closure_callers(P, mut) - {f.name for f in P.fns.values() if f.tu.startswith("lib/")}
    seen = set()
    for c in cmds:
        r = Cli(P, cands)
        E = Engine(r, P)
        if c not in r.interesting_set:
            continue
        r.writes = c in writers and c not in BEST_EFFORT
        E.run(c)
        tot[c] = len(r.sites)
        for (callee, fn, sid), st in sorted(r.bad.items()):
            i = P.fns[fn].byid[sid]
            for o in owners(P, fn):
                if (o, callee) in EXCEPT:
                    used.add((o, callee))
                    continue
                if callee == "destroyed":
                    E.violate(i, "exit-code", "%s discards its handle without closing it first, so a failure to commit its changes is not reported" % c, st, key=("commit", c))
                    continue
                if c in BEST_EFFORT and callee in mut:
                    continue
                E.violate(i, "exit-code", "%s reports success although %s failed in %s" % (c, callee, o), st, key=("exit", c, o, callee))
        R.add(E)
        seen |= r.sites
    if len(seen) < 60 or len(tot) < 10:
        raise Broken("only %d failure points in %d commands" % (len(seen), len(tot)))
    R.cov = dict(commands=tot, writing_commands=[c for c in cmds if c in writers], best_effort=BEST_EFFORT, failure_points=len(seen), deliberate={"/".join(k): EXCEPT[k] for k in sorted(used)})
    R.explain = ("Failure injection in the abstract: for every command, every reachable call of a status-returning library operation is made to fail once, and the "
                 "paths from there to the command's exit are explored; an exit that can report success is a violation (insert without --keep, which asks for the opposite). Commands that change the index must close it explicitly.")
    return R
