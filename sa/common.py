"""Shared tables and helpers for the rules."""
import os
from . import ir, engine
from .engine import Rule, Engine, Outcome, NONNULL, TOP, closure_callers

ZERO = (0, 0, frozenset())


class Broken(Exception):
    """the analysis itself cannot give a verdict (vanished anchor, zero instances)"""


class Result:
    def __init__(self):
        self.violations = []     # dicts: rule, where, function, what, key, path
        self.cov = {}
        self.explain = ""
        self.assumptions = []

    def add(self, E):
        self.violations += list(E.violations.values())

    def v(self, i, rule, what, key, path=None):
        where = ir.loc(i) if isinstance(i, ir.Instr) else ("%s:%d" % (i.rel, i.line) if isinstance(i, ir.Fn) else str(i))
        fn = i.F.dem.split("(")[0] if isinstance(i, ir.Instr) else (i.dem.split("(")[0] if isinstance(i, ir.Fn) else "")
        if isinstance(key, tuple):
            key = "/".join(str(x) for x in key)
        self.violations.append(dict(rule=rule, where=where, function=fn, what=what, key=key, path=path or [], entry=fn, stack=[]))


def short(f):
    return f.dem.split("(")[0] if isinstance(f, ir.Fn) else f


def commands(P):
    """the command entry points named in the CLI command table"""
    t = P.fpt.get(("%struct.command", 8))
    if not t:
        raise Broken("command table not found")
    return sorted(t)


def need(P, *names):
    for n in names:
        if n not in P.fns:
            raise Broken("anchor function %s not found" % n)


def by_dem(P, prefix):
    """external or internal function names whose demangled name starts with prefix"""
    r = []
    for n, d in P.decl.items():
        if d["dem"].startswith(prefix):
            r.append(n)
    for n, f in P.fns.items():
        if f.dem.startswith(prefix):
            r.append(n)
    return r


def count_calls(P, names):
    return sum(len(P.callers.get(n, ())) for n in names)


def stats(E):
    return dict(functions=len(E.stats["functions"]), contexts=E.stats["contexts"], states=E.stats["states"], call_events=E.stats["calls"], widenings=E.stats.get("widenings", 0))


_G = {}


def _pwork(job):
    _, key, fname = job
    w = _G.setdefault("eng", {})
    if key not in w:
        r = _G["mk"](*key)
        E = Engine(r, _G["P"])
        if _G["setup"]:
            _G["setup"](E)
        w[key] = (r, E)
    r, E = w[key]
    E.violations.clear()
    E.steps = 0
    E.cache.clear() if len(E.cache) > 4000 else None
    b = dict(functions=set(E.stats["functions"]), contexts=E.stats["contexts"], states=E.stats["states"], calls=E.stats["calls"], widenings=E.stats.get("widenings", 0))
    import time as _t
    t0 = _t.time()
    try:
        E.run(fname)
        if os.environ.get("SA_TIMES") and _t.time() - t0 > float(os.environ["SA_TIMES"]):
            print("TIME %.1f %s %s" % (_t.time() - t0, fname, str(key)[:60]), flush=True)
    except (Broken, engine.Budget) as e:
        return (key, fname, "broken", "%s: %s" % (type(e).__name__, e))
    st = dict(functions=set(E.stats["functions"]) - b["functions"], contexts=E.stats["contexts"] - b["contexts"], states=E.stats["states"] - b["states"],
              calls=E.stats["calls"] - b["calls"], widenings=E.stats.get("widenings", 0) - b["widenings"])
    return (key, fname, "ok", list(E.violations.values()), {k: set(v) for k, v in getattr(r, "seen", {}).items()}, st)


def parallel(P, mk, jobs, setup=None, workers=8):
    """run mk(*key) rules on their root functions; jobs: [(key tuple, root name)].
    Returns (violations, seen, stats). Workers are forked after the program is loaded."""
    import multiprocessing as mp
    _G.clear()
    _G.update(mk=mk, P=P, setup=setup)
    V, seen = {}, {}
    S = dict(functions=set(), contexts=0, states=0, calls=0, widenings=0)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, max(1, len(jobs)))) as pool:
        for r in pool.imap_unordered(_pwork, [(None, k, f) for k, f in jobs], chunksize=1):
            if r[2] == "broken":
                raise Broken("%s: %s" % (r[1], r[3]))
            for v in r[3]:
                V.setdefault((r[0], v["key"]), v)
            for k, x in r[4].items():
                seen.setdefault(k, set()).update(x)
            S["functions"] |= r[5]["functions"]
            for k in ("contexts", "states", "calls", "widenings"):
                S[k] += r[5][k]
    out = {}
    for (k, key), v in sorted(V.items(), key=repr):
        out.setdefault(key, v)
    return list(out.values()), seen, dict(functions=len(S["functions"]), contexts=S["contexts"], states=S["states"], call_events=S["calls"], widenings=S["widenings"])


def owners(P, name, stop=None):
    """attribute a function to named operations: itself when it existed in the
    reference program (or is externally visible), otherwise the callers of the
    helper it was extracted into."""
    base = baseline()
    seen = set(); out = set(); w = [name]
    while w:
        n = w.pop()
        if n in seen:
            continue
        seen.add(n)
        f = P.fns.get(n)
        if f is None:
            out.add(n); continue
        if base_name(f) in base or not f.internal:
            out.add(base_name(f)); continue
        cs = {i.F.name for i in P.callers.get(n, ())}
        if not cs:
            out.add(base_name(f))
        w += cs
    return out


def base_name(f):
    return f.dem.split("(")[0]


_base = None


def baseline():
    """names of the functions of the reference tree (used only to recognise newly extracted helpers)"""
    global _base
    if _base is None:
        import json, os
        p = os.path.join(os.path.dirname(__file__), "baseline_functions.json")
        _base = set(json.load(open(p)))
    return _base

ASSUME = [
    "clang -O0 IR of the shipped translation units is the program (compiler-correct; the configuration is the one this sandbox builds)",
    "external libraries (Xapian, GMime, GLib, talloc, libc) behave as modelled: backend calls that touch the database may throw Xapian::Error, out-of-memory exceptions of the C++ runtime are not modelled",
    "memory reached only through an escaped pointer is changed by a callee only through the fields the callee's code stores to",
]


class SymRule(Rule):
    """a rule whose property state mentions values: they are renamed to the callee's
    parameters on entry and back on return; values the callee cannot see become placeholders"""

    def ps_in(self, E, st, i, g, args, amap):
        inv = {}
        whole = {}
        for cs, av in amap.items():
            if av[0] == "y":
                inv.setdefault(av[1], cs)
            elif av[0] == "p" and av[2] == 0:
                inv.setdefault(av[1], cs)
            elif av[0] == "p":
                whole.setdefault(av, cs)
        m = {}
        back = {}
        n = 0
        for av, cs in whole.items():
            if av[1] not in inv:
                m[av] = ("Q", cs)
        ps = engine.subst(st.ps, m) if m else st.ps
        m = {}
        for s in psyms(ps):
            if s in inv:
                m[s] = inv[s]
            else:
                m[s] = ("X", n)
                back[("X", n)] = s
                n += 1
        if m:
            ps = engine.subst(ps, m)
        if whole:
            ps = engine.subst(ps, {("Q", cs): ("y", cs) for cs in whole.values()})
        return ps, back

    def ps_out(self, E, st, i, g, o, ctx, m):
        m2 = dict(m)
        m2.update(ctx)
        for s in psyms(o.ps):
            if s not in m2 and ("y", s) not in m2 and s[0] not in ("G", "X"):
                m2[s] = ("k", i.id, s if engine.depth(s) < 3 else "deep")
        return engine.subst(o.ps, m2)


def psyms(x):
    """symbols of a property state, outermost first, in order of appearance"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "Q":
                return
            if x and isinstance(x[0], str) and (x[0] in engine.SYMK or x[0] == "X") and len(x) > 1:
                if x not in out:
                    out.append(x)
                return
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    go(y)
        elif isinstance(x, frozenset):
            for y in sorted(x, key=repr):
                if isinstance(y, (tuple, frozenset)):
                    go(y)
    go(x)
    return out
