"""Failures reported by the backend or by an inner operation are never turned into success."""
from ..common import *

XE = 3
STAT = ("notmuch_status_t", "notmuch_private_status_t")


# deliberate: (operation, failing callee): reason
EXCEPT = {
    ("_notmuch_message_remove_term", "exception"): "removing a term that is not there is documented not to be a failure",
    ("_maybe_load_config_from_database", "_finish_open"): "the configuration stored in the database is optional when only the configuration is loaded",
    ("notmuch_database_create_with_config", "_trial_open"): "probes whether a database already exists; failing to open one is the expected case",
}


class Forced(Rule):
    """ps: None | (callee, id) -- one callee on the path failed with a backend failure"""
    wants_catch = True

    def __init__(self, P, f, cands):
        self.cands = cands
        self.P = P
        self.f = f
        self.sites = set()
        self.bad = {}

    def init(self, f):
        return None

    def interesting(self, name):
        return False

    def descend(self, name):
        return False

    def on_call(self, E, st, i, name, args):
        if st.ps is not None and st.ps[0] == name and i.id != st.ps[1] and i.line and i.line == self.f.byid[st.ps[1]].line:
            # one source expression evaluated again by a macro: it fails again
            return [Outcome("ret", st.ps, ("c", XE))]
        if st.ps is None and name in self.cands and i.F.name == self.f.name:
            self.sites.add(i.id)
            g = self.P.fns.get(name)
            base = None
            if g is not None:
                base = [o for o in E.generic(i.F, st, i, name, g, args) if o.kind == "throw" or not (o.ret and o.ret[0] == "c" and o.ret[1] == XE)]
            else:
                base = [Outcome("ret", None)]
            return base + [Outcome("ret", (name, i.id), ("c", XE))]
        return None

    def on_catch(self, E, st, i):
        if st.ps is None:
            self.sites.add(("catch", i.id))
            st.ps = ("exception", i.id)

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and st.ps is not None and rv is not None:
            z = E.isnull(st, rv)
            if z is not False:
                self.bad.setdefault(st.ps, (st, z))


def status_fns(P):
    return [f for f in P.fns.values() if f.dtypes and f.dtypes[0] in STAT]


def canfail(P, name, _c={}):
    """can this function report a backend failure at all?"""
    if name not in _c:
        outs = engine.generic_summary(P, name)
        _c[name] = outs is None or any(o.kind == "ret" and hit(o) for o in outs)
    return _c[name]


def hit(o):
    if o.ret and o.ret[0] == "c":
        return o.ret[1] == XE
    fa = o.fact or TOP
    return fa[0] <= XE <= fa[1] and XE not in fa[2]


def run(P, tier):
    R = Result()
    sf = {f.name: f for f in status_fns(P)}
    if len(sf) < 100:
        raise Broken("only %d status-returning functions" % len(sf))
    nsites = 0
    used = set()
    fns = 0
    for f in sorted(sf.values(), key=lambda f: f.name):
        if not f.tu.startswith("lib/"):
            continue
        cands = {i.callee for i in f.calls() if i.callee in sf and canfail(P, i.callee)}
        has_catch = any(i.callee == "__cxa_begin_catch" for i in f.calls())
        if not cands and not has_catch:
            continue
        fns += 1
        r = Forced(P, f, cands)
        E = Engine(r, P)
        E.K = 60
        E.run(f.name)
        nsites += len(r.sites)
        for (callee, sid), (st, z) in sorted(r.bad.items()):
            i = f.byid[sid]
            c = short(P.fns[callee]) if callee in P.fns else callee
            for o in owners(P, f.name):
                if (o, c) in EXCEPT:
                    used.add((o, c))
                    continue
                E.violate(i, "swallowed", "%s can report success although %s failed" % (o, "a backend operation" if callee == "exception" else c), st, key=("swallow", o, c))
        R.add(E)
    if nsites < 100:
        raise Broken("only %d failure points" % nsites)
    R.cov = dict(functions=fns, failure_points=nsites, deliberate={"/".join(k): EXCEPT[k] for k in sorted(used)})
    R.explain = ("Failure injection in the abstract: at every call whose callee can report a backend failure, and at every handler of a backend "
                 "exception, the failure is assumed and the paths to the function's exits are explored; an exit that may report success swallows it.")
    return R
