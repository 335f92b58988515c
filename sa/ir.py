"""Whole-program model over the extractor's facts."""
import json, os, re, sys
from . import build as B

REPO = B.REPO


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


class Instr:
    __slots__ = ("id", "op", "ty", "line", "lf", "fn", "args", "d", "blk", "callee", "idx", "F")

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __repr__(self):
        return "<%s %s %s:%s>" % (self.id, self.op, self.callee or "", self.line)


class Fn:
    def __init__(self):
        self.blocks = []

    def __repr__(self):
        return "<Fn %s>" % self.name

    @property
    def rel(self):
        return os.path.relpath(self.file, REPO)

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op in ("call", "invoke"):
                    yield i

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i


class Global:
    pass


class Prog:
    def __init__(self, outs):
        self.fns = {}
        self.decl = {}          # external callee -> info
        self.globals = {}
        self.structs = {}
        self.enums = {}
        self.tus = []
        for rel, path in outs:
            self.load(rel, json.load(open(path)))
        self._index()

    def load(self, rel, d):
        self.tus.append(rel)
        loc = {}
        for f in d["functions"]:
            if f["internal"]:
                loc[f["name"]] = f["name"] + "@" + rel
        gloc = {}
        for g in d["globals"]:
            if g["internal"]:
                gloc[g["name"]] = g["name"] + "@" + rel

        def conv(x):
            """operand -> tuple"""
            k = x[0]
            if k == "n" or k == "z":
                return ("c", 0) if k == "n" else ("z",)
            if k == "f":
                return ("f", loc.get(x[1], x[1]))
            if k == "g":
                return ("g", gloc.get(x[1], x[1]), x[2])
            if k == "agg":
                return ("agg", tuple((o, conv(v)) for o, v in x[1]))
            return tuple(x)

        for n, s in d["structs"].items():
            self.structs.setdefault(n, s)
        for n, s in d["enums"].items():
            self.enums.setdefault(n, s)
        for x in d["decls"]:
            if x["name"] in self.decl and not x["file"]:
                continue
            self.decl[x["name"]] = x
        for g in d["globals"]:
            o = Global()
            o.name = gloc.get(g["name"], g["name"])
            o.dname = g.get("dname", g["name"])
            o.const = g["const"]; o.internal = g["internal"]; o.decl = g["decl"]; o.tls = g["tls"]
            o.type = g["type"]; o.size = g["size"]; o.file = g.get("file", ""); o.line = g.get("line", 0)
            o.dtype = g.get("dtype", ""); o.fnscope = g.get("fnscope"); o.tu = rel
            o.init = conv(g["init"]) if "init" in g else None
            if o.name in self.globals and o.decl:
                continue
            self.globals[o.name] = o
        for f in d["functions"]:
            F = Fn()
            F.sym = f["name"]
            F.name = loc.get(f["name"], f["name"])
            F.dem = f["dem"]; F.internal = f["internal"]; F.vis = f["vis"]
            F.file = f["file"]; F.line = f["line"]; F.tu = rel
            F.noreturn = f["noreturn"]; F.nounwind = f["nounwind"]; F.varargs = f["varargs"]
            F.fty = f["fty"]; F.dtypes = f["dtypes"]
            F.args = [tuple(a) for a in f["args"]]
            for bi, blk in enumerate(f["blocks"]):
                L = []
                for i in blk:
                    I = Instr()
                    I.F = F
                    I.id = i["i"]; I.op = i["op"]; I.ty = i["ty"]; I.line = i.get("l", 0); I.lf = i.get("lf")
                    I.blk = bi; I.callee = None; I.args = None
                    I.d = i
                    if "fn" in i:
                        I.callee = loc.get(i["fn"], i["fn"])
                    for k in ("p", "v", "a", "b", "c", "fp"):
                        if k in i and isinstance(i[k], list):
                            i[k] = conv(i[k])
                    if "args" in i:
                        I.args = [conv(a) for a in i["args"]]
                    if "ops" in i:
                        i["ops"] = [conv(a) for a in i["ops"]]
                    if I.op == "getelementptr":
                        i["ix"] = [conv(a) for a in i["ix"]]
                        i["sty"] = sty(i["sty"])
                    if "in" in i:
                        i["in"] = [(b, conv(v)) for b, v in i["in"]]
                    L.append(I)
                for n, I in enumerate(L):
                    I.idx = n
                F.blocks.append(L)
            if F.name in self.fns:
                # inline header function emitted in several units
                continue
            self.fns[F.name] = F

    def _index(self):
        for f in self.fns.values():
            prep(f)
        # address-taken functions through globals: (struct type or array) slots
        self.callers = {}
        for f in self.fns.values():
            for i in f.calls():
                if i.callee:
                    self.callers.setdefault(i.callee, []).append(i)
        self.addr_taken = {}
        for g in self.globals.values():
            if g.init is not None:
                for n in fnrefs(g.init):
                    self.addr_taken.setdefault(n, []).append(("global", g.name))
        for f in self.fns.values():
            for i in f.instrs():
                ops = []
                if i.args:
                    ops += i.args
                for k in ("v", "a", "b"):
                    if k in i.d and isinstance(i.d[k], tuple):
                        ops.append(i.d[k])
                for b, v in i.d.get("in", []) if i.op == "phi" else []:
                    ops.append(v)
                ops += i.d.get("ops", [])
                for o in ops:
                    if isinstance(o, tuple) and o and o[0] == "f":
                        self.addr_taken.setdefault(o[1], []).append(("code", f.name))
        self.by_base = {}
        for f in self.fns.values():
            self.by_base.setdefault(f.sym, []).append(f)
        self._fptargets()

    def _fptargets(self):
        """(struct, offset) -> set of functions stored there; plus by-type fallback"""
        t = {}
        for g in self.globals.values():
            if g.init is None:
                continue
            sname = sty(g.type)
            self._walkinit(sname, g.init, t)
        for f in self.fns.values():
            for i in f.instrs():
                if i.op == "store" and i.d["v"][0] == "f":
                    p = i.d["p"]
                    k = self.gepkey(f, p)
                    if k:
                        t.setdefault(k, set()).add(i.d["v"][1])
        self.fpt = t
        self.by_fty = {}
        for n in self.addr_taken:
            f = self.fns.get(n)
            if f:
                self.by_fty.setdefault(f.fty, set()).add(n)

    def sighandlers(self):
        h = set(self.fpt.get(("%struct.sigaction", 0), ())) | set(self.fpt.get(("%struct.sigaction", 8), ()))
        for n in ("signal", "bsd_signal", "sysv_signal"):
            for i in self.callers.get(n, ()):
                if len(i.args) > 1 and i.args[1][0] == "f":
                    h.add(i.args[1][1])
        return h

    def sigflags(self):
        """globals that signal handlers write: they can change between any two instructions"""
        if not hasattr(self, "_sigflags"):
            seen = set(); w = list(self.sighandlers()); r = set()
            while w:
                n = w.pop()
                f = self.fns.get(n)
                if f is None or n in seen:
                    continue
                seen.add(n)
                for i in f.instrs():
                    if i.op == "store" and i.d["p"][0] == "g":
                        r.add(i.d["p"][1])
                    elif i.op in ("call", "invoke") and i.callee:
                        w.append(i.callee)
            self._sigflags = r
        return self._sigflags

    def _walkinit(self, sname, init, t):
        m = re.match(r"\[(\d+) x (%?[^\]]+)\]$", sname)
        if init[0] != "agg":
            return
        if m:
            el = sty(m.group(2))
            for o, v in init[1]:
                self._walkinit(el, v, t)
            return
        for o, v in init[1]:
            if v[0] == "f":
                t.setdefault((sname, o), set()).add(v[1])
            elif v[0] == "agg":
                # nested struct / array
                for o2, v2 in v[1]:
                    if v2[0] == "f":
                        t.setdefault((sname, o + o2), set()).add(v2[1])

    def gepkey(self, f, p):
        """(struct, byte offset) addressed by operand p in f, when it is a constant GEP"""
        if p[0] == "v":
            i = f.byid[p[1]]
            if i.op == "getelementptr" and i.get("off") is not None and i.d["sty"].startswith("%"):
                return (i.d["sty"], i.d["off"])
        return None

    def vcall(self, i):
        """a C++ virtual call: the callee is loaded through a pointer stored in the object itself"""
        p = i.d.get("fp")
        if i.callee is not None or not p or p[0] != "v" or not i.F.tu.endswith(".cc") or not i.args:
            return False
        d = i.F.byid[p[1]]
        q = d.d["p"] if d.op == "load" else None
        for _ in range(2):
            if not q or q[0] != "v":
                return False
            d = i.F.byid[q[1]]
            if d.op == "load":
                return d.d["p"] == i.args[0]
            if d.op != "getelementptr":
                return False
            q = d.d["p"] if "p" in d.d else d.d["ops"][0]
        return False

    def targets(self, i):
        """possible repo targets of an indirect call"""
        f = i.F
        if self.vcall(i):
            return []
        p = i.d.get("fp")
        if p is None:
            return [i.callee] if i.callee in self.fns else []
        if p[0] == "f":
            return [p[1]]
        if p[0] == "v":
            d = f.byid[p[1]]
            if d.op == "load":
                k = self.gepkey(f, d.d["p"])
                if k and k in self.fpt:
                    return sorted(self.fpt[k])
                q = d.d["p"]
                if q[0] == "v" and k is None and f.byid[q[1]].op != "getelementptr":
                    # first field: pointer loaded without GEP -- any struct slot 0 with the type
                    c = set()
                    for (s, o), fs in self.fpt.items():
                        if o == 0:
                            c |= {x for x in fs if x in self.fns and self.fns[x].fty == i.get("fty")}
                    if c:
                        return sorted(c)
        return sorted(x for x in self.by_fty.get(i.get("fty"), ()))

    def field(self, sname, off):
        s = self.structs.get(re.sub(r"^%(struct|class|union)\.", "", sname))
        if not s:
            return None
        best = None
        for o, n, t, sz in s["fields"]:
            if o == off:
                return n
            if o <= off < o + max(sz, 1):
                best = n
        return best

    def demangle(self, name):
        f = self.fns.get(name)
        if f:
            return f.dem
        d = self.decl.get(name)
        return d["dem"] if d else name

    def enumval(self, name):
        for e in self.enums.values():
            if name in e:
                return e[name]
        raise KeyError(name)

    def public(self):
        """functions of the public C API (default visibility, defined under lib/)"""
        return sorted((f for f in self.fns.values()
                       if f.vis == "default" and not f.internal and f.sym.startswith("notmuch_")
                       and (f.tu.startswith("lib/"))), key=lambda f: f.name)


def sty(t):
    return re.sub(r"\.\d+$", "", t) if t.startswith("%") else t


def fnrefs(init):
    if init[0] == "f":
        yield init[1]
    elif init[0] == "agg":
        for o, v in init[1]:
            yield from fnrefs(v)


def operands(i):
    """SSA operands (tuples) used by instruction (phi excluded)"""
    d = i.d
    r = []
    if i.args:
        r += i.args
    for k in ("p", "v", "a", "b", "c", "fp"):
        x = d.get(k)
        if isinstance(x, tuple):
            r.append(x)
    if "ops" in d:
        r += d["ops"]
    if i.op == "getelementptr":
        r += d["ix"]
    return r


def succs(i):
    d = i.d
    if i.op == "br":
        return list(d["t"])
    if i.op == "switch":
        return [d["d"]] + [b for _, b in d["cs"]]
    if i.op == "invoke":
        return [d["n"], d["uw"]]
    return []


def prep(f):
    n = len(f.blocks)
    f.byid = {}
    f.succ = []
    f.pred = [[] for _ in range(n)]
    for bi, b in enumerate(f.blocks):
        for i in b:
            f.byid[i.id] = i
        s = []
        for x in succs(b[-1]):
            if x not in s:
                s.append(x)
        f.succ.append(s)
    for bi, s in enumerate(f.succ):
        for t in s:
            f.pred[t].append(bi)
    # RPO
    order = []
    seen = set()
    st = [(0, iter(f.succ[0]))] if n else []
    seen.add(0)
    while st:
        b, it = st[-1]
        for t in it:
            if t not in seen:
                seen.add(t); st.append((t, iter(f.succ[t]))); break
        else:
            order.append(b); st.pop()
    f.rpo = order[::-1]
    f.rpon = {b: k for k, b in enumerate(f.rpo)}
    # liveness of SSA ids and args
    use = []; deff = []
    phiuse = [set() for _ in range(n)]
    for bi, b in enumerate(f.blocks):
        u = set(); d = set()
        for i in b:
            if i.op == "phi":
                for pb, v in i.d["in"]:
                    if v[0] in ("v", "a"):
                        phiuse[pb].add(v)
            else:
                for o in operands(i):
                    if o[0] in ("v", "a") and o not in d:
                        u.add(o)
            d.add(("v", i.id))
        use.append(u); deff.append(d)
    livein = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for bi in reversed(f.rpo):
            out = set(phiuse[bi])
            for t in f.succ[bi]:
                out |= livein[t]
            new = use[bi] | (out - deff[bi])
            if new != livein[bi]:
                livein[bi] = new; ch = True
    f.livein = livein
    # ids defined by derived pointers: alloca liveness must include GEPs - handled by SSA liveness
    f.loophead = set()
    for bi, s in enumerate(f.succ):
        if bi not in f.rpon:
            continue
        for t in s:
            if f.rpon.get(t, 1 << 30) <= f.rpon[bi]:
                f.loophead.add(t)


_prog = None


def program():
    global _prog
    if _prog is None:
        outs, pk = B.build()
        _prog = Prog(outs)
        global CURRENT
        CURRENT = _prog
    return _prog


def loc(i):
    f = i.lf or i.F.file
    if f.startswith(REPO + "/"):
        f = os.path.relpath(f, REPO)
    return "%s:%d" % (f, i.line)
