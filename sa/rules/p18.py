"""No object is used or freed again after it, or the object it belongs to, was freed."""
from ..common import *
from .. import flow, ir

FREE = {"_talloc_free": 0, "talloc_unlink": 1}
ALLOC = {"talloc_named_const": 0, "_talloc_zero": 0, "_talloc_array": 0, "_talloc_zero_array": 0, "_talloc_memdup": 0, "talloc_strdup": 0, "talloc_strndup": 0, "talloc_asprintf": 0, "talloc_vasprintf": 0,
         "talloc_strdup_append": 0, "talloc_strdup_append_buffer": 0}
DROP = {"_talloc_reference_loc", "talloc_increase_ref_count"}
# functions of the library whose result belongs to (and dies with) their first argument
OWNED_RESULT = "notmuch_"


class Lifetime(SymRule):
    """ps: None | (object, owner, state, freed at, tag): one talloc object, chosen when it is allocated or freed"""
    wants_load = wants_store = True

    def __init__(self, P, mode):
        self.P = P
        self.mode = mode
        self.free = closure_callers(P, set(FREE))
        self.destroy = {f.name for f in P.fns.values() if f.name.endswith("_destroy") and f.name.startswith(("notmuch_", "_notmuch_"))}
        self.interesting_set = set(self.free)
        self.borrow = {f.name for f in P.public() if f.dtypes[0].replace(" ", "").endswith("*") and len(f.args) >= 1 and f.name not in NOT_OWNED}
        self.seen = {}

    def ev(self, i, w):
        self.seen.setdefault(w, set()).add(ir.loc(i))

    def init(self, f):
        return None

    def base(self, av):
        return av[1] if av[0] in ("p", "y") else None

    def is_(self, av, obj):
        return obj is not None and av == obj

    def used(self, E, st, i, how):
        o = st.ps
        E.violate(i, "use-after-free", "%s is used (%s) after %s was freed" % (o[4], how, "it" if o[3][0] else "the object it belongs to"), st, key=("use-after-free", o[4], short(i.F)))
        st.ps = None

    def on_load(self, E, st, i, av, key):
        self.touch(E, st, i)

    def touch(self, E, st, i):
        ps = st.ps
        if ps is None or ps[2] != "freed":
            return
        p = E.val(st, i.d["p"])
        if p[0] in ("p", "y") and p[1] == ps[0][1]:
            self.used(E, st, i, "memory access")

    def on_store(self, E, st, i, addr, val, key):
        self.touch(E, st, i)

    def on_call(self, E, st, i, name, args):
        if name is None:
            return None
        ps = st.ps
        g = self.P.fns.get(name)
        if ps is not None and ps[2] == "freed" and not name.startswith("llvm."):
            if any(a == ps[0] for a in args):
                if name in FREE or name in self.destroy:
                    E.violate(i, "double-free", "%s is freed again after %s was freed" % (ps[4], "it" if ps[3][0] else "the object it belongs to"), st, key=("double-free", ps[4], short(i.F)))
                    st.ps = None
                else:
                    self.used(E, st, i, "passed to %s" % (g.dem.split("(")[0] if g else name))
                ps = None
        if name in FREE:
            a = args[FREE[name]]
            if a[0] not in ("y", "p"):
                return None
            self.ev(i, "free")
            outs = E.external(i.F, st, i, name, args)
            if ps is not None:
                if ps[2] == "live" and (a == ps[0] or a == ps[1]):
                    for o in outs:
                        o.ps = (ps[0], ps[1], "freed", (a == ps[0], ir.loc(i)), ps[4])
                return outs
            if self.mode == "object" and a[0] == "y":
                outs = outs + [Outcome(o.kind, (a, None, "freed", (True, ir.loc(i)), "the object freed in " + short(i.F)), o.ret, o.fact) for o in outs]
            return outs
        if name in DROP and ps is not None and any(a == ps[0] for a in args):
            outs = E.external(i.F, st, i, name, args)
            for o in outs:
                o.ps = None
            return outs
        if name == "_talloc_steal_loc" and ps is not None and args[1] == ps[0]:
            return [Outcome("ret", (ps[0], args[0]) + ps[2:], args[1])]
        if self.mode == "member" and ps is None:
            own = None
            if name in ALLOC:
                own = args[ALLOC[name]]
            elif name in self.borrow and not i.F.tu.startswith("lib/"):
                own = args[0]
            if own is not None and own[0] in ("y", "p") and (own[1][0] != "P" or any(n == i.F.name for n, k in self.freers())):
                self.ev(i, "member")
                tag = "the result of %s in %s" % (name if name in self.borrow else "an allocation", short(i.F))
                base = E.external(i.F, st, i, name, args) if g is None else E.generic(i.F, st, i, name, g, args)
                r = ("y", ("r", i.id))
                outs = list(base)
                for o in base:
                    if o.kind == "ret" and not (o.ret and o.ret[0] == "c"):
                        outs.append(Outcome("ret", (r, own, "live", None, tag), None, NONNULL, outs=o.outs))
                return outs
        if g is not None and name in self.free:
            # descend only when it can free what is followed
            if ps is None:
                if self.mode == "object" and any(a[0] == "y" and (name, n) in self.freers() for n, a in enumerate(args)):
                    return None
                return E.generic(i.F, st, i, name, g, args)
            if any((a == ps[0] or a == ps[1]) and (name, n) in self.freers() for n, a in enumerate(args)):
                return None
            return E.generic(i.F, st, i, name, g, args)
        return None

    def freers(self):
        if not hasattr(self, "_fr"):
            self._fr = param_freers(self.P)
        return self._fr

    def on_exit(self, E, st, f, kind, rv, i, root):
        if kind != "ret":
            if st.ps is not None and st.ps[2] == "live":
                st.ps = None
            return
        ps = st.ps
        if ps is None or not root:
            return
        if ps[2] == "freed":
            if rv is not None and rv == ps[0]:
                E.violate(f, "freed-result", "%s returns %s after it was freed" % (f.name, ps[4]), st, key=("freed-result", ps[4], f.name))


class Cached(SymRule):
    """an answer kept in a field of an object and handed out by a getter; ps: None | (answer, object, state, freed at, tag)"""
    wants_load = wants_store = pass_strings = True

    def __init__(self, P, key):
        self.P, self.key = P, key
        C, G = caches(P)
        self.getters = G[key]
        self.what = P.field(*key)
        self.deep = closure_callers(P, C[key]) | C[key]
        self.interesting_set = self.deep | self.getters
        self.seen = {}

    def init(self, f):
        return None

    on_exit = lambda self, E, st, f, kind, rv, i, root: None

    def mine(self, st, av):
        o = st.ps[1]
        if o[0] == "y":
            return av[0] == "p" and av[1] == o[1] and av[2] == self.key[1] or (av == o and self.key[1] == 0)
        return av[0] == "p" and av[1] == o[1] and av[2] == o[2] + self.key[1]

    def on_load(self, E, st, i, av, key):
        if st.ps is None:
            return None
        if st.ps[2] == "freed":
            p = E.val(st, i.d["p"])
            if p[0] in ("p", "y") and p[1] == st.ps[0][1]:
                self.used(E, st, i, "memory access")
        elif key == self.key and self.mine(st, E.val(st, i.d["p"])):
            return ("y", ("pm", "cached"))
        return None

    def on_store(self, E, st, i, addr, val, key):
        if st.ps is not None and st.ps[2] == "live" and key == self.key and self.mine(st, addr):
            st.ps = None

    def used(self, E, st, i, how):
        E.violate(i, "use-after-free", "%s is used (%s) after the object it belongs to dropped it" % (st.ps[4], how), st, key=("use-after-free", st.ps[4], short(i.F)))
        st.ps = None

    def on_call(self, E, st, i, name, args):
        ps = st.ps
        if name is None:
            return None
        if name == "strcmp":
            a, b = (x[1][1] if x[0] == "p" and x[1][0] == "S" and x[2] == 0 else None for x in args[:2])
            if a is not None and b is not None:
                return [Outcome("ret", ps, ("c", 0 if a == b else 1))]
        g = self.P.fns.get(name)
        if ps is not None and ps[2] == "freed" and not name.startswith("llvm.") and any(a == ps[0] for a in args):
            self.used(E, st, i, "passed to %s" % (g.dem.split("(")[0] if g else name))
            ps = None
        if name in FREE and ps is not None and ps[2] == "live" and args[FREE[name]] == ("y", ("pm", "cached")):
            self.seen.setdefault("dropped", set()).add(ir.loc(i))
            return [Outcome("ret", ps[:2] + ("freed", ir.loc(i), ps[4]))]
        if g is None:
            return None
        if name in self.getters and ps is None and args[0][0] in ("y", "p"):
            self.seen.setdefault("getter", set()).add(ir.loc(i))
            base = E.generic(i.F, st, i, name, g, args)
            r = ("y", ("r", i.id))
            return base + [Outcome("ret", (r, args[0], "live", None, "the %s of an object, obtained in %s" % (self.what.replace("_", " "), short(i.F))), r, NONNULL, outs=o.outs) for o in base if o.kind == "ret"][:1]
        if ps is None or name not in self.deep or ps[1] not in args:
            return E.generic(i.F, st, i, name, g, args)
        return None


def caches(P):
    """({field: functions that free what it held and set it anew}, {field: functions handing out what it holds})"""
    if hasattr(P, "_caches"):
        return P._caches
    C, G = {}, {}
    for f in P.fns.values():
        st = None
        for i in f.calls():
            if i.callee in FREE:
                v = i.args[FREE[i.callee]]
                d = f.byid.get(v[1]) if v[0] == "v" else None
                k = P.gepkey(f, d.d["p"]) if d is not None and d.op == "load" else None
                if k is not None:
                    if st is None:
                        st = {P.gepkey(f, j.d["p"]) for j in f.instrs() if j.op == "store"}
                    if k in st:
                        C.setdefault(k, set()).add(f.name)
    name = {(k[0], P.field(*k)): k for k in C}
    for f in P.fns.values():
        for i in f.instrs():
            if i.op == "ret" and i.d.get("ops"):
                for x in flow.origins(P, f, i.d["ops"][0], up=False):
                    if x[0] == "field" and x[1:] in name:
                        k = name[x[1:]]
                        if f.args and f.name not in C[k]:
                            G.setdefault(k, set()).add(f.name)
    P._caches = {k: v for k, v in C.items() if k in G}, G
    return P._caches


# strings belong to the message, directory or handle behind the iterator, not to the iterator
NOT_OWNED = {"notmuch_filenames_get", "notmuch_tags_get", "notmuch_config_values_get", "notmuch_config_pairs_key", "notmuch_config_pairs_value",
             "notmuch_status_to_string", "notmuch_database_status_string", "notmuch_built_with"}


def param_freers(P):
    """(function, parameter): the function may free, re-own or keep alive what it is given there"""
    prim = {(n, k) for n, k in FREE.items()} | {("_talloc_steal_loc", 1)} | {(n, k) for n in DROP for k in (0, 1)}
    r = set()
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            for i in f.calls():
                for k, a in enumerate(i.args):
                    if (i.callee, k) in r or (i.callee, k) in prim:
                        n = from_param(f, a)
                        if n is not None and (f.name, n) not in r:
                            r.add((f.name, n)); ch = True
    return r


def from_param(f, o, d=0):
    if o[0] == "a":
        return o[1]
    if o[0] != "v" or d > 4:
        return None
    i = f.byid.get(o[1])
    if i is None:
        return None
    if i.op == "load" and i.d["p"][0] == "v":
        a = f.byid.get(i.d["p"][1])
        if a is not None and a.op == "alloca":
            for s in f.instrs():
                if s.op == "store" and s.d["p"] == i.d["p"] and s.d["v"][0] == "a":
                    return s.d["v"][1]
    if i.op == "bitcast":
        return from_param(f, i.d["ops"][0], d + 1)
    return None


def run(P, tier):
    R = Result()
    r = Lifetime(P, "object")
    jobs = []
    for f in P.fns.values():
        if any(i.callee in r.free for i in f.calls()):
            jobs += [(("object",), f.name), (("member",), f.name)]
    jobs.sort(key=lambda j: -sum(1 for _ in P.fns[j[1]].instrs()))
    C, G = caches(P)
    if len(G) < 4:
        raise Broken("only %d cached answers found" % len(G))
    for k, g in sorted(G.items()):
        jobs += [((k,), n) for n in sorted({i.F.name for x in g for i in P.callers.get(x, ())})]
    vs, seen, st = parallel(P, lambda m: Cached(P, m) if isinstance(m, tuple) else Lifetime(P, m), jobs)
    R.violations = vs
    if not seen.get("free") or not seen.get("member") or not seen.get("getter") or not seen.get("dropped"):
        raise Broken("no frees or members analysed")
    R.cov = dict(functions=len({f for m, f in jobs}), cached_answers={"%s.%s" % (k[0], P.field(*k)): sorted(base_name(P.fns[x]) for x in g) for k, g in G.items()}, events={k: len(v) for k, v in seen.items()}, analysis=st)
    return R
