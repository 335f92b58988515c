"""Flow-insensitive, interprocedural value origins: where can an operand come from."""
from . import ir

# builders: the result is made of the arguments listed (None: all)
BUILD = {"talloc_asprintf": None, "talloc_strdup": (1,), "talloc_strndup": (1,), "strdup": None, "_talloc_steal_loc": (1,), "g_strdup": None,
         "talloc_asprintf_append": None, "talloc_strdup_append": None, "talloc_strdup_append_buffer": None, "talloc_asprintf_append_buffer": None, "dirname": None, "strtok": None,
         "strrchr": (0,), "strchr": (0,), "strstr": (0,), "canonicalize_file_name": (0,), "_notmuch_conffile_path": None}


def allocas(f):
    """alloca id -> operands stored into it (directly); None when it also escapes to a call"""
    r = {}
    for i in f.instrs():
        if i.op == "store" and i.d["p"][0] == "v":
            r.setdefault(i.d["p"][1], []).append(i.d["v"])
    return r


def origins(P, f, v, depth=8, seen=None, up=True, down=True):
    """set of ("call",name) ("param",fn,n) ("field",struct,off) ("const",c) ("global",g) ("out",callee,n) ("other",op)"""
    seen = set() if seen is None else seen
    out = set()
    w = [(f, v)]
    while w:
        f, v = w.pop()
        k = (f.name, v)
        if k in seen:
            continue
        seen.add(k)
        t = v[0]
        if t == "a":
            cs = [i for i in P.callers.get(f.name, ()) if v[1] < len(i.args or ())]
            if up and cs:
                w += [(i.F, i.args[v[1]]) for i in cs]
            if not cs or not up or f.name in P.addr_taken:
                out.add(("param", f.name, v[1]))
            continue
        if t != "v":
            out.add(("const", v) if t in ("c", "z") else ("global", v[1]) if t == "g" else ("other", t))
            continue
        i = f.byid[v[1]]
        if i.op == "load":
            p = i.d["p"]
            if p[0] == "g":
                out.add(("global", p[1]))
                continue
            key = P.gepkey(f, p)
            if key:
                out.add(("field", key[0], P.field(key[0], key[1])))
                continue
            if p[0] == "v":
                d = f.byid[p[1]]
                if d.op == "alloca":
                    st = f.__dict__.setdefault("_stores", None) or allocas(f)
                    f._stores = st
                    w += [(f, x) for x in st.get(d.id, ())]
                    for c in f.calls():
                        for n, a in enumerate(c.args or ()):
                            if a == ("v", d.id) and c.callee and not c.callee.startswith("llvm."):
                                g = P.fns.get(c.callee)
                                out.add(("out", c.callee, n))
                                if g and down:
                                    for j in g.instrs():
                                        if j.op == "store" and j.d["p"][0] == "v":
                                            q = g.byid[j.d["p"][1]]
                                            if q.op == "load" and is_param(g, q.d["p"], n):
                                                w.append((g, j.d["v"]))
                else:
                    w.append((f, p))
                    out.add(("load", d.op))
            elif p[0] == "a":
                out.add(("deref", f.name, p[1]))
            continue
        if i.op in ("call", "invoke"):
            c = i.callee
            if c is None:
                out.add(("call", "?"))
                continue
            out.add(("call", c))
            if c in BUILD and c not in P.fns:
                ix = BUILD[c]
                w += [(f, a) for n, a in enumerate(i.args) if ix is None or n in ix]
            elif c in P.fns and down:
                g = P.fns[c]
                for j in g.instrs():
                    if j.op == "ret" and "v" in j.d:
                        w.append((g, j.d["v"]))
            continue
        if i.op == "phi":
            w += [(f, x) for b, x in i.d["in"]]
            continue
        if i.op == "alloca":
            out.add(("local", f.name))
            continue
        ops = [o for o in ir.operands(i) if isinstance(o, tuple)]
        if i.op == "getelementptr":
            ops = ops[:1]
        w += [(f, o) for o in ops]
        if not ops:
            out.add(("other", i.op))
    return out


def is_param(g, p, n):
    if p == ("a", n):
        return True
    if p[0] == "v" and g.byid[p[1]].op == "alloca":
        st = g.__dict__.get("_stores")
        if st is None:
            st = g._stores = allocas(g)
        return ("a", n) in st.get(p[1], ())
    return False


def reach(P, roots, stop=()):
    """functions (defined or external) reachable through direct calls and resolved function pointers;
    name -> predecessor instruction"""
    pred = {r: None for r in roots}
    w = list(roots)
    while w:
        n = w.pop()
        f = P.fns.get(n)
        if f is None or n in stop:
            continue
        for i in f.calls():
            ts = [i.callee] if i.callee else P.targets(i)
            # callbacks handed to a callee count as called
            for a in i.args or ():
                if isinstance(a, tuple) and a[0] == "f":
                    ts = list(ts) + [a[1]]
            for t in ts:
                if t not in pred:
                    pred[t] = i
                    w.append(t)
    return pred


def path(P, pred, n):
    out = []
    while n is not None and pred.get(n) is not None:
        i = pred[n]
        out.append("%s calls %s at %s" % (i.F.dem.split("(")[0], P.demangle(n).split("(")[0], ir.loc(i)))
        n = i.F.name
    return out[::-1]
