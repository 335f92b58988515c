"""Path-sensitive, interprocedural property dataflow over the LLVM SSA facts.

ESP-style: a state is (block, property state, value facts). States that agree
on the property state and on the live values are merged; otherwise they are
kept apart up to a bound and then joined. Values are constants, intervals on
symbols, object addresses and comparisons. Calls to functions of the program
are analysed through summaries keyed by entry property state and argument
abstraction; recursion is solved by iteration. No solver is involved.
"""
import heapq, sys
from . import ir

INF = 1 << 70
TOP = (-INF, INF, frozenset())
NONNULL = (-INF, INF, frozenset((0,)))


def meet(a, b):
    lo = max(a[0], b[0]); hi = min(a[1], b[1]); ex = a[2] | b[2]
    return norm(lo, hi, ex)


def norm(lo, hi, ex):
    while lo in ex and lo <= hi:
        lo += 1
    while hi in ex and lo <= hi:
        hi -= 1
    if lo > hi:
        return None
    if ex:
        ex = frozenset(e for e in ex if lo < e < hi)
        if len(ex) > 40:
            ex = frozenset(sorted(ex, key=abs)[:40])
    return (lo, hi, ex)


def joinf(a, b):
    ex = frozenset(e for e in a[2] | b[2]
                   if not (a[0] <= e <= a[1] and e not in a[2]) and not (b[0] <= e <= b[1] and e not in b[2]))
    lo = min(a[0], b[0]); hi = max(a[1], b[1])
    # keep a hole at zero when it lies between the two pieces
    if lo < 0 < hi and 0 not in ex:
        if not (a[0] <= 0 <= a[1] and 0 not in a[2]) and not (b[0] <= 0 <= b[1] and 0 not in b[2]):
            ex = ex | {0}
    return (lo, hi, ex)


class St:
    __slots__ = ("ps", "env", "mem", "facts", "trace", "exc", "fresh_ids")

    def __init__(self, ps, env=None, mem=None, facts=None, trace=None, exc=None):
        self.ps = ps; self.env = env or {}; self.mem = mem or {}; self.facts = facts or {}
        self.trace = trace; self.exc = exc

    def copy(self):
        return St(self.ps, dict(self.env), dict(self.mem), dict(self.facts), self.trace, self.exc)


class Outcome:
    """effect of a call: kind ret|throw|noret"""
    __slots__ = ("kind", "ps", "ret", "fact", "outs", "exc", "note", "argfacts")

    def __init__(self, kind, ps, ret=None, fact=None, outs=None, exc=None, note=None, argfacts=None):
        self.kind = kind; self.ps = ps; self.ret = ret; self.fact = fact; self.outs = outs or (); self.exc = exc
        self.note = note; self.argfacts = argfacts or ()


def subst(x, m):
    """replace symbols inside tuples"""
    t = type(x)
    if t is tuple:
        if x in m:
            return m[x]
        if not x or x[0] == "c":
            return x
        r = None
        n = 0
        for y in x:
            ty = type(y)
            if ty is tuple or ty is frozenset:
                z = subst(y, m)
                if z is not y:
                    if r is None:
                        r = list(x)
                    r[n] = z
            n += 1
        return x if r is None else tuple(r)
    if t is frozenset:
        return frozenset([subst(y, m) for y in x])
    return x


_symcache = {}


def syms(x, acc):
    """collect ('y',sym)/('p',sym,..) symbols and nested"""
    if isinstance(x, tuple):
        if x and x[0] in SYMK and len(x) > 1:
            acc.add(x)
        for y in x:
            if isinstance(y, (tuple, frozenset)):
                syms(y, acc)
    elif isinstance(x, frozenset):
        for y in x:
            syms(y, acc)


def dispatch(f):
    """the selectors of switches that only ever hold constants (where to go after a clean-up), with those constants"""
    r = {}
    for i in f.instrs():
        if i.op == "switch" and i.d["c"][0] == "v":
            seen, w, cs = set(), [i.d["c"][1]], set()
            while w and cs is not None:
                n = w.pop()
                if n in seen:
                    continue
                seen.add(n)
                d = f.byid.get(n)
                if d is None or d.op != "phi":
                    cs = None
                    break
                for _, v in d.d["in"]:
                    if v[0] == "v":
                        w.append(v[1])
                    elif v[0] == "c":
                        cs.add(v[1])
                    else:
                        cs = None
                        break
            if cs:
                for n in seen:
                    r[("v", n)] = cs
    return r


def symset(x):
    acc = set()
    syms(x, acc)
    return acc


def phname(taken, key):
    """a name for the joined value at key that the property state does not already use for another value"""
    for n in range(4):
        s = ("old", ("ph", key) if n == 0 else ("ph", key, n))
        if s not in taken:
            return s
    return ("old", ("ph", key, 4))


SYMK = frozenset(("P", "r", "l", "w", "k", "pm", "old", "op", "A", "ph"))

SIGNED = {"slt": ("lt", 1), "sle": ("le", 1), "sgt": ("gt", 1), "sge": ("ge", 1),
          "ult": ("lt", 0), "ule": ("le", 0), "ugt": ("gt", 0), "uge": ("ge", 0)}
# external functions that return one of their arguments and change nothing the rules look at
IDENT = {"g_type_check_instance_cast": 0, "g_type_check_class_cast": 0, "_talloc_steal_loc": 1}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

# externals which never change memory reachable from their arguments in a way
# any rule cares about
PURE = set("""strcmp strncmp strcasecmp strncasecmp strlen strchr strrchr strstr strspn strcspn memcmp fprintf printf
fputs puts putchar fputc fflush talloc_free talloc_strdup talloc_strndup talloc_asprintf
_talloc_get_type_abort talloc_parent talloc_reference_count _talloc_steal_loc _talloc_reference_loc talloc_unlink
talloc_set_name_const g_object_unref g_object_ref g_free free g_error_free strtol strtoul atoi isspace
g_hash_table_lookup g_hash_table_lookup_extended g_hash_table_insert g_hash_table_destroy g_hash_table_unref
access unlink rename open close fsync mkdir exit strerror perror regexec fcloseall fileno""".split())


class Budget(Exception):
    pass


class Engine:
    K = 24

    def __init__(self, rule, prog=None, maxsteps=4000000):
        self.P = prog or ir.program()
        self.rule = rule
        rule.E = self
        self.cache = {}          # (fn, ps, argabs) -> list of outcomes
        self.stack = []
        self.inprog = {}
        self.seed = {}
        self.chg = False
        self.prov = {}
        self.deps = []
        self.steps = 0
        self.maxsteps = maxsteps
        self.violations = {}
        self.stats = dict(functions=set(), contexts=0, states=0, calls=0, joins=0)
        self.modsets = None

    # ---------- abstract values ----------
    def val(self, st, o):
        k = o[0]
        if k in ("v", "a"):
            a = st.env.get(o)
            if a is None:
                a = ("y", ("r", o[1])) if k == "v" else ("y", ("P", o[1]))
                st.env[o] = a
            return a
        if k == "c":
            return o
        if k == "n":
            return ("c", 0)
        if k == "s":
            return ("p", ("S", o[1]), 0)
        if k == "g":
            return ("p", ("G", o[1]), o[2])
        if k == "f":
            return o
        return ("u",)

    def fact(self, st, av):
        """interval of an abstract value"""
        k = av[0]
        if k == "c":
            return (av[1], av[1], frozenset())
        if k == "y":
            return st.facts.get(av[1], TOP)
        if k in ("p", "f"):
            return NONNULL
        if k in ("cmp", "not"):
            t = self.truth(st, av)
            if t is None:
                return (0, 1, frozenset())
            return (int(t), int(t), frozenset())
        return TOP

    def isnull(self, st, av):
        """True / False / None"""
        f = self.fact(st, av)
        if f[0] == f[1] == 0:
            return True
        if f[0] > 0 or f[1] < 0 or 0 in f[2]:
            return False
        return None

    def truth(self, st, av):
        """truth value of an i1-like AV: True/False/None"""
        k = av[0]
        if k == "c":
            return av[1] != 0
        if k == "not":
            t = self.truth(st, av[1])
            return None if t is None else not t
        if k == "cmp":
            return self.cmp(st, av[1], av[2], av[3])
        n = self.isnull(st, av)
        return None if n is None else not n

    def cmp(self, st, pr, a, b):
        if a[0] in ("p", "f") and b[0] in ("p", "f"):
            if a == b:
                e = True
            elif a[0] == "p" and b[0] == "p" and (a[1] == b[1]):
                e = False
            elif a[0] == "p" and b[0] == "p" and a[1][0] in ("A", "G") and b[1][0] in ("A", "G"):
                e = False
            elif a[0] == "f" and b[0] == "f":
                e = False
            else:
                return None
            return e if pr == "eq" else (not e) if pr == "ne" else None
        if a == b and a[0] == "y":
            return pr in ("eq", "sle", "sge", "ule", "uge")
        fa = self.fact(st, a); fb = self.fact(st, b)
        if pr in ("eq", "ne"):
            r = None
            if fa[0] == fa[1] == fb[0] == fb[1]:
                r = True
            elif fa[1] < fb[0] or fb[1] < fa[0]:
                r = False
            elif fb[0] == fb[1] and fb[0] in fa[2]:
                r = False
            elif fa[0] == fa[1] and fa[0] in fb[2]:
                r = False
            return r if pr == "eq" or r is None else not r
        if pr not in SIGNED:
            return None
        op, sg = SIGNED[pr]
        if not sg and (fa[0] < 0 or fb[0] < 0):
            if op == "lt" and fb[0] == fb[1] == 0:
                return False
            if op == "gt" and fb[0] == fb[1] == 0:
                z = self.isnull(st, a)
                return None if z is None else not z
            return None
        if op == "lt":
            return True if fa[1] < fb[0] else False if fa[0] >= fb[1] else None
        if op == "le":
            return True if fa[1] <= fb[0] else False if fa[0] > fb[1] else None
        if op == "gt":
            return True if fa[0] > fb[1] else False if fa[1] <= fb[0] else None
        return True if fa[0] >= fb[1] else False if fa[1] < fb[0] else None

    def assume(self, st, av, t):
        """refine st in place by av == t; False when infeasible"""
        k = av[0]
        if k == "c":
            return (av[1] != 0) == t
        if k == "not":
            return self.assume(st, av[1], not t)
        if k == "y":
            return self.refine(st, av[1], NONNULL if t else (0, 0, frozenset()))
        if k in ("p", "f"):
            return t
        if k == "cmp":
            pr, a, b = av[1], av[2], av[3]
            r = self.cmp(st, pr, a, b)
            if r is not None:
                return r == t
            if not t:
                pr = NEG.get(pr)
                if pr is None:
                    return True
            if a[0] in ("cmp", "not") and b[0] == "c" and pr in ("eq", "ne"):
                if b[1] == 0:
                    return self.assume(st, a, pr == "ne")
                if b[1] == 1:
                    return self.assume(st, a, pr == "eq")
                return True
            ok = True
            if a[0] == "y":
                ok = ok and self.refcmp(st, a[1], pr, self.fact(st, b))
            if ok and b[0] == "y":
                ok = ok and self.refcmp(st, b[1], SWAP[pr], self.fact(st, a)) if pr in SWAP else ok
            return ok
        return True

    def refcmp(self, st, sym, pr, f):
        cur = st.facts.get(sym, TOP)
        if pr == "eq":
            return self.refine(st, sym, f)
        if pr == "ne":
            if f[0] == f[1]:
                return self.refine(st, sym, (-INF, INF, frozenset((f[0],))))
            return True
        if pr not in SIGNED:
            return True
        op, sg = SIGNED[pr]
        if not sg:
            if f[0] < 0:
                return True
            if op in ("lt", "le"):
                if f[1] >= INF:
                    return True
                return self.refine(st, sym, (0, f[1] - (op == "lt"), frozenset()))
            lo = f[0] + (op == "gt")
            if cur[0] >= 0:
                return self.refine(st, sym, (lo, INF, frozenset()))
            if lo > 0:
                return self.refine(st, sym, NONNULL)
            return True
        if op == "lt":
            return self.refine(st, sym, (-INF, f[1] - 1 if f[1] < INF else INF, frozenset()))
        if op == "le":
            return self.refine(st, sym, (-INF, f[1], frozenset()))
        if op == "gt":
            return self.refine(st, sym, (f[0] + 1 if f[0] > -INF else -INF, INF, frozenset()))
        return self.refine(st, sym, (f[0], INF, frozenset()))

    def refine(self, st, sym, f):
        n = meet(st.facts.get(sym, TOP), f)
        if n is None:
            return False
        if n != TOP:
            st.facts[sym] = n
            # structural symbols: (op add sym c)
            if sym[0] == "op" and sym[1] == "id":
                return self.refine(st, sym[2], n)
        if self.rule.wants_refine:
            return self.rule.on_refine(self, st, sym, n) is not False
        return True

    # ---------- symbols ----------
    def fresh(self, st, sym, i):
        """introduce sym anew at i: any older incarnation is renamed"""
        if i is None or i.blk in i.F.cyc:
            if self.occurs(st, sym):
                self.rename(st, sym, ("old", sym) if sym[0] != "old" else sym)
        st.facts.pop(sym, None)
        return ("y", sym)

    def retire(self, st, iid):
        """values an earlier execution of call iid produced are not the ones it produces now"""
        acc = set(st.facts)
        for k, v in st.env.items():
            syms(v, acc)
        for k, v in st.mem.items():
            syms(k, acc); syms(v[0], acc)
        syms(st.ps, acc)
        m = {s: ("old", s) for s in acc if s[0] in ("r", "w", "k") and s[1] == iid}
        if m:
            self.rename_many(st, m)

    def occurs(self, st, sym):
        if sym in st.facts:
            return True
        acc = set()
        for v in st.env.values():
            syms(v, acc)
        for k, v in st.mem.items():
            syms(k, acc); syms(v[0], acc)
        syms(st.ps, acc)
        return sym in acc

    def canon(self, st, newv):
        """name values carried around a loop after the phi that holds them"""
        m = {}
        for k in sorted(newv):
            v = newv[k]
            if v[0] == "y" and v[1][0] in ("r", "old", "w", "l", "k", "op", "ph") and v[1] not in m:
                m[v[1]] = ("old", ("ph", k))
        m = {a: b for a, b in m.items() if a != b}
        if not m:
            return
        acc = set(st.facts)
        for v in st.env.values():
            syms(v, acc)
        for k, v in st.mem.items():
            syms(k, acc); syms(v[0], acc)
        syms(st.ps, acc)
        while True:
            bad = [a for a, b in m.items() if b in acc and b not in m]
            if not bad:
                break
            for a in bad:
                del m[a]
        if not m:
            return
        for b in list(m.values()):
            m.setdefault(b, b)
        st.env = {k: subst(v, m) for k, v in st.env.items()}
        st.mem = {subst(k, m): (subst(v[0], m), v[1]) for k, v in st.mem.items()}
        st.facts = {subst(k, m): v for k, v in st.facts.items()}
        st.ps = subst(st.ps, m)

    def rename(self, st, sym, new):
        self.rename_many(st, {sym: new})

    def rename_many(self, st, m):
        """rename symbols; what already bears a new name (an even older incarnation) is forgotten"""
        m = dict(m)
        news = set(m.values()) - set(m)
        for new in news:
            m[new] = new
        older = set()
        for k in st.mem:
            if k[0] in news:
                older.add(k)
        for k in older:
            del st.mem[k]
        for new in news:
            st.facts.pop(new, None)
        st.env = {k: subst(v, m) for k, v in st.env.items()}
        st.mem = {(subst(k[0], m), subst(k[1], m) if type(k[1]) is tuple else k[1]): (subst(v[0], m), v[1]) for k, v in st.mem.items()}
        nf = {}
        for k, v in st.facts.items():
            k2 = subst(k, m)
            if k2 in nf:
                nf[k2] = joinf(nf[k2], v)
            else:
                nf[k2] = v
        st.facts = nf
        st.ps = subst(st.ps, m)

    # ---------- memory ----------
    def addr(self, av):
        if av[0] == "p":
            return (av[1], av[2])
        if av[0] == "y":
            return (av[1], 0)
        return None

    def load(self, st, i):
        p = self.val(st, i.d["p"])
        a = self.addr(p)
        if a is None:
            return self.fresh(st, ("l", i.id), i)
        e = st.mem.get(a)
        if e is not None and not (a[0][0] == "G" and a[0][1] in self.P.sigflags() and self.isnull(st, e[0]) is not False):
            return e[0]
        if a[0][0] == "G":
            g = self.P.globals.get(a[0][1])
            if g is not None and g.const and g.init is not None:
                v = initat(g.init, a[1])
                if v is not None:
                    if v[0] in ("c", "s", "f"):
                        return self.val(st, v)
                    if v[0] == "g":
                        return ("p", ("G", v[1]), v[2])
        sig = a[0][0] == "G" and a[0][1] in self.P.sigflags()
        av = self.fresh(st, ("l", ("sig", a[0][1]) if sig else i.id), i)
        st.mem[a] = (av, self.memkey(i, i.d["p"]))
        return av

    def memkey(self, i, op):
        return self.P.gepkey(i.F, op)

    def store(self, st, i):
        v = self.val(st, i.d["v"])
        p = self.val(st, i.d["p"])
        a = self.addr(p)
        key = self.memkey(i, i.d["p"])
        if a is None:
            return
        if a[0][0] not in ("A",):
            # may-alias: other bases with the same field key
            if key is not None:
                for k in [k for k, e in st.mem.items() if e[1] == key and k != a]:
                    self.unknown(st, i, k)
        st.mem[a] = (v, key)

    # ---------- mod sets ----------
    def mods(self, name):
        if self.modsets is None:
            self.modsets = compute_mods(self.P)
        return self.modsets.get(name, frozenset())

    # ---------- driver ----------
    def run(self, fname, ps=None, args=None):
        """analyse fname as a root; returns its outcomes"""
        f = self.P.fns[fname]
        if ps is None:
            ps = self.rule.init(f)
        st = St(ps)
        for n, a in enumerate(f.args):
            st.env[("a", n)] = (args or {}).get(n, ("y", ("P", n)))
        for n, fa in self.rule.argfacts(f).items():
            st.facts[("P", n)] = fa
        outs = self.explore(f, st, root=True)
        return outs

    def summary(self, f, st0, key):
        c = self.cache.get(key)
        if c is not None:
            return c
        pv = self.prov.get(key)
        if pv is not None:
            if self.deps:
                self.deps[-1] |= pv[1]
            return pv[0]
        if key in self.inprog:
            self.inprog[key][1] = True
            if self.deps:
                self.deps[-1].add(key)
            return self.inprog[key][0]
        # mutual recursion: only the outermost member of a cycle iterates; the others do one
        # pass per round, starting from what they returned in the previous round
        rec = self.inprog[key] = [self.seed.get(key, []), False]
        rounds = 0
        saved = self.chg
        while True:
            rec[1] = False
            self.chg = False
            self.deps.append(set())
            for k in [k for k, v in self.prov.items() if key in v[1]]:
                del self.prov[k]
            outs = self.explore(f, st0.copy(), root=False)
            d = self.deps.pop()
            rounds += 1
            if rec[1] or d - {key}:
                stable = set(map(okey, outs)) == set(map(okey, rec[0]))
            else:
                stable = True
            rec[0] = outs
            if d - {key}:
                self.seed[key] = outs
                self.chg = self.chg or saved or not stable
                break
            if not rec[1] or (stable and not self.chg) or rounds > 8:
                self.chg = saved
                break
        del self.inprog[key]
        d.discard(key)
        for k in [k for k, v in self.prov.items() if key in v[1]]:
            v = self.prov[k]
            v[1].discard(key)
            if not v[1]:
                self.cache[k] = v[0]
                del self.prov[k]
        if not d:
            self.cache[key] = outs
        else:
            self.prov[key] = (outs, set(d))
            if self.deps:
                self.deps[-1] |= d
        return outs

    def explore(self, f, st, root):
        if not hasattr(f, "cyc"):
            f.cyc = cyclic(f)
            f.small = {i.id for i in f.instrs() if i.op == "alloca" and 0 < i.d["sz"] <= 16}
            f.dispatch = dispatch(f)
        self.stats["functions"].add(f.name)
        self.stats["contexts"] += 1
        self.stack.append(f)
        if len(self.stack) > 60:
            self.stack.pop()
            return [Outcome("ret", st.ps, None)]
        outs = {}
        seen = {}      # block -> {key: [state]}
        work = []
        cnt = 0

        def push(b, s, frm):
            nonlocal cnt
            # phis
            blk = f.blocks[b]
            newv = {}
            for i in blk:
                if i.op != "phi":
                    break
                for pb, v in i.d["in"]:
                    if pb == frm:
                        if v[0] in ("u", "?"):
                            newv[("v", i.id)] = self.fresh(s, ("ph", i.id), i)
                        else:
                            newv[("v", i.id)] = self.val(s, v)
                        break
            if newv:
                s.env.update(newv)
                if b in f.loophead:
                    self.canon(s, newv)
            self.prune(f, b, s)
            d = seen.setdefault(b, {})
            wk = ("W", s.ps, s.exc) + tuple(s.env.get(k) for k in f.dispatch)
            if wk in d:
                old = d[wk]
                m = self.widen(old, s)
                self.prune(f, b, m)
                if self.same(old, m):
                    return
                d[wk] = s = m
                k = wk
            else:
                k = self.skey(f, s)
                old = d.get(k)
                if old is not None:
                    m = self.merge(old, s)
                    if m is None:
                        return
                    d[k] = s = m
                    self.stats["joins"] += 1
                else:
                    same = [kk for kk in d if kk[0] == k[0] and kk[5] == k[5] and kk[6:] == k[6:]]
                    if len(same) >= self.K:
                        acc = s
                        for kk in same:
                            acc = self.widen(d.pop(kk), acc)
                        self.prune(f, b, acc)
                        d[wk] = s = acc
                        k = wk
                        self.stats["widenings"] = self.stats.get("widenings", 0) + 1
                    else:
                        d[k] = s
            cnt += 1
            heapq.heappush(work, (f.rpon[b], cnt, b, k))

        push(0, st, None)
        while work:
            _, _, b, k = heapq.heappop(work)
            s = seen[b].get(k)
            if s is None:
                continue
            self.steps += 1
            self.stats["states"] += 1
            if self.steps > self.maxsteps:
                raise Budget("step budget exceeded in %s" % f.name)
            for kind, x in self.block(f, b, s.copy()):
                if kind == "goto":
                    t, ns = x
                    push(t, ns, b)
                else:
                    o = x
                    ok = okey(o)
                    if ok not in outs:
                        outs[ok] = o
        self.stack.pop()
        return self.limit(list(outs.values()))

    def limit(self, outs):
        if len(outs) <= 64:
            return outs
        # merge outcomes that differ only in memory effects / intervals
        m = {}
        for o in outs:
            k = (o.kind, o.ps, o.ret if o.ret and o.ret[0] == "c" else None, o.exc)
            if k in m:
                p = m[k]
                fa = joinf(p.fact or TOP, o.fact or TOP)
                po = dict(p.outs); qo = dict(o.outs)
                no = {}
                for kk in set(po) | set(qo):
                    if po.get(kk) == qo.get(kk):
                        no[kk] = po[kk]
                    else:
                        fa1 = po[kk][1] if kk in po else TOP
                        fa2 = qo[kk][1] if kk in qo else TOP
                        no[kk] = (None, joinf(fa1 or TOP, fa2 or TOP))
                m[k] = Outcome(o.kind, o.ps, p.ret if p.ret == o.ret else None, fa, tuple(no.items()), o.exc, o.note)
            else:
                m[k] = o
        return list(m.values())

    def prune(self, f, b, s):
        live = f.livein[b]
        phis = [("v", i.id) for i in f.blocks[b] if i.op == "phi"]
        s.env = {k: v for k, v in s.env.items() if k in live or k in phis}
        acc = set()
        for v in s.env.values():
            syms(v, acc)
        syms(s.ps, acc)
        for n in range(len(f.args)):
            acc.add(("P", n))
        # reach through memory
        mem = s.mem
        ch = True
        keep = {}
        pend = list(mem.items())
        while ch:
            ch = False
            rest = []
            for k, e in pend:
                if k[0][0] == "G" or k[0] in acc:
                    keep[k] = e
                    n0 = len(acc)
                    syms(e[0], acc)
                    if len(acc) != n0:
                        ch = True
                else:
                    rest.append((k, e))
            pend = rest
        s.mem = keep
        nf = {}
        for k, v in s.facts.items():
            if k in acc:
                nf[k] = v
            elif k[0] == "op":
                a2 = set(); syms(k, a2)
                a2.discard(k)
                if a2 & acc:
                    nf[k] = v
        s.facts = nf

    def skey(self, f, s):
        e = frozenset(s.env.items())
        am = frozenset((k, v[0]) for k, v in s.mem.items() if k[0][0] == "A" and k[0][1] in f.small)
        sf = self.P.sigflags()
        pm = frozenset((k, fclass(self.fact(s, v[0]))) for k, v in s.mem.items() if k[1] == 0 and (k[0][0] == "P" or (k[0][0] == "G" and k[0][1] in sf)))
        acc = set()
        for v in s.env.values():
            syms(v, acc)
        for k, v in am:
            syms(v, acc)
        syms(s.ps, acc)
        fa = frozenset((k, c) for k, c in ((k, kclass(v)) for k, v in s.facts.items() if k in acc) if c is not None)
        return (s.ps, e, am, pm, fa, s.exc) + tuple(s.env.get(k) for k in f.dispatch)

    def merge(self, a, b):
        """merge heap facts of b into a; None if a already covers b"""
        ch = False
        mem = {}
        facts = {}
        taken = symset(a.ps)
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w == v or k[1] == "*":
                mem[k] = v
            elif k[0][0] == "P":
                js = phname(taken, k)
                if v[0] != ("y", js):
                    ch = True
                    fa = self.fact(a, v[0])
                else:
                    fa = a.facts.get(js, TOP)
                fb = self.fact(b, w[0]) if w is not None else TOP
                j = joinf(fa, fb)
                if j != fa:
                    ch = True
                mem[k] = (("y", js), v[1])
                if j != TOP:
                    facts[js] = j
            else:
                ch = True
        for k, v in b.mem.items():
            if k not in a.mem and k[0][0] == "P":
                ch = True
                mem[k] = v if k[1] == "*" else (("y", phname(taken, k)), v[1])
        for k, v in a.facts.items():
            if k in facts or (k[0] == "old" and k[1][0] == "ph" and len(k[1]) > 1 and k[1][1] in mem):
                continue
            w = b.facts.get(k)
            if w is None:
                ch = True; continue
            if w == v:
                facts[k] = v
            else:
                j = joinf(v, w)
                if j != v:
                    ch = True
                facts[k] = j
        if not ch:
            return None
        return St(a.ps, a.env, mem, facts, a.trace, a.exc)

    def widen(self, a, b):
        env = {}
        facts = {}
        taken = symset(a.ps)

        def j(key, x, y):
            if x == y:
                return x
            f = joinf(self.fact(a, x), self.fact(b, y))
            s = phname(taken, key)
            facts[s] = f
            return ("y", s)
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                continue
            env[k] = j(k, x, y)
        mem = {}
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if k[1] == "*":
                mem[k] = v
            elif w is None:
                if k[0][0] == "P":
                    mem[k] = (("y", phname(taken, k)), v[1])
            else:
                mem[k] = (j(k, v[0], w[0]), v[1])
        for k, v in b.mem.items():
            if k not in a.mem and k[0][0] == "P":
                mem[k] = v if k[1] == "*" else (("y", phname(taken, k)), v[1])
        for k, v in a.facts.items():
            if k in b.facts and k not in facts:
                facts[k] = joinf(v, b.facts[k])
        return St(a.ps, env, mem, {k: v for k, v in facts.items() if v != TOP}, a.trace, a.exc)

    def same(self, a, b):
        return a.env == b.env and a.mem == b.mem and a.facts == b.facts

    # ---------- transfer ----------
    def block(self, f, b, st):
        """yield ('goto',(blk,st)) / ('exit',Outcome)"""
        blk = f.blocks[b]
        todo = [(0, st)]
        while todo:
            n, st = todo.pop()
            while True:
                i = blk[n]
                op = i.op
                if op == "phi":
                    n += 1; continue
                if op in ("call", "invoke"):
                    res = self.call(f, st, i)
                    nxt = []
                    for kind, s2 in res:
                        if kind == "ret":
                            if op == "invoke":
                                yield ("goto", (i.d["n"], s2))
                            else:
                                nxt.append(s2)
                        elif kind == "throw":
                            if op == "invoke":
                                yield ("goto", (i.d["uw"], s2))
                            else:
                                yield ("exit", self.mkexit(f, s2, "throw", None, i))
                        elif kind == "noret":
                            pass
                    if op == "invoke" or not nxt:
                        break
                    for s2 in nxt[1:]:
                        todo.append((n + 1, s2))
                    st = nxt[0]
                    n += 1
                    continue
                if op == "br":
                    t = i.d["t"]
                    if len(t) == 1:
                        yield ("goto", (t[0], st))
                        break
                    c = self.val(st, i.d["c"])
                    for k, tr in ((0, True), (1, False)):
                        s2 = st.copy()
                        tv = self.truth(s2, c)
                        if tv is not None:
                            if tv != tr:
                                continue
                        elif not self.assume(s2, c, tr):
                            continue
                        if i.line and tv is None:
                            s2.trace = (s2.trace, "%d%s" % (i.line, "T" if tr else "F"))
                        if self.rule.wants_branch:
                            self.rule.on_branch(self, s2, i, c, tr)
                        yield ("goto", (t[k], s2))
                    break
                if op == "switch":
                    c = self.val(st, i.d["c"])
                    cs = i.d["cs"]
                    vals = [v for v, _ in cs]
                    for v, t in cs:
                        s2 = st.copy()
                        if self.assume(s2, ("cmp", "eq", c, ("c", v)), True):
                            if i.line:
                                s2.trace = (s2.trace, "%d=%d" % (i.line, v))
                            yield ("goto", (t, s2))
                    s2 = st.copy()
                    ok = True
                    for v in vals:
                        if not self.assume(s2, ("cmp", "eq", c, ("c", v)), False):
                            ok = False; break
                    if ok and i.d["c"][0] == "v" and f.dispatch.get(("v", i.d["c"][1]), {None}) <= set(vals):
                        ok = False
                    if ok:
                        yield ("goto", (i.d["d"], s2))
                    break
                if op == "ret":
                    rv = None
                    ops = i.d.get("ops")
                    if ops:
                        rv = self.val(st, ops[0])
                    yield ("exit", self.mkexit(f, st, "ret", rv, i))
                    break
                if op == "resume":
                    yield ("exit", self.mkexit(f, st, "throw", None, i))
                    break
                if op == "unreachable":
                    break
                r = self.simple(f, st, i)
                if isinstance(r, list):
                    if not r:
                        break
                    for s2 in r[1:]:
                        todo.append((n + 1, s2))
                    st = r[0]
                n += 1

    def mkexit(self, f, st, kind, rv, i):
        if kind == "throw" and f.nounwind:
            pass
        self.rule.on_exit(self, st, f, kind, rv, i, len(self.stack) == 1)
        fact = None
        ret = None
        if rv is not None:
            if rv[0] == "c":
                ret = rv
            elif rv[0] == "f":
                ret = rv
            elif rv[0] in ("y", "p") and (rv[1][0] == "P" or rv[1][0] == "G"):
                ret = rv; fact = self.fact(st, rv)
            elif rv[0] == "p" and rv[1][0] == "S" and rv[2] == 0 and self.rule.pass_strings:
                ret = rv; fact = NONNULL
            else:
                ret = ("x", "ret") if self._psref(st, rv) is None else ("sym", rv[1])
                fact = self.fact(st, rv)
                if fact[0] == fact[1]:
                    ret = ("c", fact[0])
        outs = []
        for k, e in st.mem.items():
            base = k[0]
            if base[0] == "P" or (base[0] == "l" and False):
                v = e[0]
                if k[1] == "*":
                    outs.append((k, (None, None)))
                    continue
                if v[0] == "y" and v[1][0] == "pm":
                    continue
                if v == ("y", ("l", None)):
                    continue
                outs.append((k, (v if v[0] in ("c", "f") or (v[0] in ("y", "p") and v[1][0] in ("P", "G")) or self._psref(st, v) is not None else None, self.fact(st, v))))
        argf = []
        for n in range(len(f.args)):
            fa = st.facts.get(("P", n))
            if fa is not None:
                argf.append((n, fa))
        return Outcome(kind, st.ps, ret, fact, tuple(sorted(outs, key=repr)), st.exc, st.trace, tuple(argf))

    def _psref(self, st, v):
        """symbol of v if the property state refers to it"""
        if v[0] != "y":
            return None
        acc = set(); syms(st.ps, acc)
        return v[1] if v[1] in acc else None

    def simple(self, f, st, i):
        op = i.op; d = i.d
        key = ("v", i.id)
        env = st.env
        if op == "load":
            st.env[key] = self.load(st, i)
            if self.rule.wants_load:
                r = self.rule.on_load(self, st, i, st.env[key], self.memkey(i, d["p"]))
                if isinstance(r, list):         # alternatives: (value, fact, ps)
                    out = []
                    for v, fa, ps in r:
                        s2 = st.copy() if r[-1] is not None and (v, fa, ps) != r[-1] else st
                        s2.env[key] = v
                        s2.ps = ps
                        if fa is not None and v[0] == "y":
                            s2.facts[v[1]] = fa
                        out.append(s2)
                    return out
                if r is not None:
                    st.env[key] = r
            return
        if op == "store":
            if self.rule.wants_store:
                self.rule.on_store(self, st, i, self.val(st, d["p"]), self.val(st, d["v"]), self.memkey(i, d["p"]))
            self.store(st, i)
            return
        if op == "alloca":
            st.env[key] = ("p", ("A", i.id), 0)
            return
        if op == "getelementptr":
            p = self.val(st, d["p"])
            off = d.get("off")
            if off is None:
                ix = d["ix"]
                if p[0] == "p" and p[1][0] == "S":
                    st.env[key] = ("p", ("S", p[1][1]), "?")
                    st.env[key] = ("y", ("op", "gep", i.id, p[1]))
                    st.facts[st.env[key][1]] = NONNULL
                    return
                b = p[1] if p[0] in ("p", "y") else ("r", i.id)
                iv = self.val(st, ix[-1])
                if p[0] in ("p", "y") and iv[0] == "y":
                    s = ("op", "gep", b, iv[1], p[2] if p[0] == "p" else 0)
                    st.env[key] = ("y", s)
                    st.facts[s] = NONNULL
                elif p[0] in ("p", "y") and iv[0] == "c":
                    s = ("op", "gepc", b, iv[1], i.d["sty"], p[2] if p[0] == "p" else 0)
                    st.env[key] = ("y", s)
                    st.facts[s] = NONNULL
                else:
                    st.env[key] = self.fresh(st, ("r", i.id), i)
                return
            if p[0] == "p":
                st.env[key] = ("p", p[1], p[2] + off if isinstance(p[2], int) else p[2])
            elif p[0] == "y":
                st.env[key] = p if off == 0 else ("p", p[1], off)
            else:
                st.env[key] = self.fresh(st, ("r", i.id), i)
            return
        if op == "icmp":
            a = self.val(st, d["a"]); b = self.val(st, d["b"])
            if a[0] == "lpv" and b[0] == "tid":
                m = excmatch(st.exc, b[1])
                if m is None:
                    st.env[key] = ("cmp", "eq", ("y", ("r", i.id)), ("c", 0))
                else:
                    st.env[key] = ("c", int(m))
                return
            r = self.cmp(st, d["pr"], a, b)
            if r is not None:
                st.env[key] = ("c", int(r)); return
            if a[0] in ("cmp", "not") and b[0] == "c" and d["pr"] in ("eq", "ne") and b[1] in (0, 1):
                same = (d["pr"] == "ne") == (b[1] == 0)
                st.env[key] = a if same else ("not", a)
                return
            st.env[key] = ("cmp", d["pr"], a, b)
            return
        if op in ("bitcast", "ptrtoint", "inttoptr", "zext", "sext", "addrspacecast", "freeze"):
            st.env[key] = self.val(st, d["ops"][0])
            return
        if op == "trunc":
            v = self.val(st, d["ops"][0])
            if i.ty == "i1":
                t = self.truth(st, v)
                if v[0] in ("cmp", "not", "c"):
                    st.env[key] = v if v[0] != "c" else ("c", v[1] & 1)
                elif t is not None:
                    st.env[key] = ("c", int(t))
                else:
                    st.env[key] = ("cmp", "ne", v, ("c", 0))
            elif v[0] == "c":
                w = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
                x = v[1] & ((1 << w) - 1)
                if x >> (w - 1):
                    x -= 1 << w
                st.env[key] = ("c", x)
            else:
                st.env[key] = v
            return
        if op == "select":
            c = self.val(st, d["ops"][0])
            t = self.truth(st, c)
            if t is not None:
                st.env[key] = self.val(st, d["ops"][1 if t else 2]); return
            s2 = st.copy()
            ok1 = self.assume(st, c, True); ok2 = self.assume(s2, c, False)
            st.env[key] = self.val(st, d["ops"][1])
            s2.env[key] = self.val(s2, d["ops"][2])
            if not ok1:
                return [s2]
            if not ok2:
                return [st]
            return [st, s2]
        if op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "ashr", "mul", "sdiv", "udiv", "srem", "urem"):
            a = self.val(st, d["ops"][0]); b = self.val(st, d["ops"][1])
            if op == "xor" and i.ty == "i1" and b == ("c", 1):
                st.env[key] = ("not", a) if a[0] != "c" else ("c", 1 - (a[1] & 1)); return
            if op == "xor" and b == ("c", 1) and a[0] in ("cmp", "not"):
                st.env[key] = ("not", a); return
            if i.ty == "i1" and op in ("and", "or"):
                ta, tb = self.truth(st, a), self.truth(st, b)
                if op == "and":
                    if ta is False or tb is False:
                        st.env[key] = ("c", 0); return
                    if ta is True:
                        st.env[key] = b; return
                    if tb is True:
                        st.env[key] = a; return
                else:
                    if ta is True or tb is True:
                        st.env[key] = ("c", 1); return
                    if ta is False:
                        st.env[key] = b; return
                    if tb is False:
                        st.env[key] = a; return
                # split on a
                s2 = st.copy()
                ok1 = self.assume(st, a, True); ok2 = self.assume(s2, a, False)
                st.env[key] = b if op == "and" else ("c", 1)
                s2.env[key] = ("c", 0) if op == "and" else b
                return [s for s, ok in ((st, ok1), (s2, ok2)) if ok] or [st]
            if a[0] == "c" and b[0] == "c":
                v = arith(op, a[1], b[1])
                if v is not None and abs(v) <= 4096:
                    if i.blk in f.cyc and op in ("add", "sub") and abs(v) > 1:
                        s = self.fresh(st, ("r", i.id), i)
                        st.facts[s[1]] = (2, INF, frozenset()) if v > 0 else (-INF, -2, frozenset())
                        st.env[key] = s
                        return
                    st.env[key] = ("c", v); return
                if v is not None and op in ("and", "or", "shl", "xor"):
                    st.env[key] = ("c", v); return
            if a[0] in ("y", "c") and b[0] in ("y", "c") and not (i.blk in f.cyc and op in ("add", "sub", "mul")):
                x = a[1] if a[0] == "y" else a
                y = b[1] if b[0] == "y" else b
                s = ("op", op, x, y)
                if depth(s) <= 4:
                    st.env[key] = ("y", s)
                    if s not in st.facts:
                        self.arithfact(st, op, a, b, s)
                    return
            r = self.fresh(st, ("r", i.id), i)
            st.env[key] = r
            self.arithfact(st, op, a, b, r[1])
            return
        if op == "landingpad":
            st.env[key] = ("lp", i.id)
            return
        if op == "extractvalue":
            v = self.val(st, d["ops"][0])
            if v[0] == "lp":
                st.env[key] = ("lpv", d["ix"][0], v[1])
            else:
                st.env[key] = self.fresh(st, ("r", i.id), i)
            return
        if op == "insertvalue":
            v = self.val(st, d["ops"][0])
            w = self.val(st, d["ops"][1])
            if w[0] == "lpv":
                st.env[key] = ("lp", w[2])
            elif v[0] == "lp":
                st.env[key] = v
            else:
                st.env[key] = ("u",)
            return
        st.env[key] = self.fresh(st, ("r", i.id), i)

    def arithfact(self, st, op, a, b, s):
        fa = self.fact(st, a); fb = self.fact(st, b)
        if op == "add":
            lo = fa[0] + fb[0] if fa[0] > -INF and fb[0] > -INF else -INF
            hi = fa[1] + fb[1] if fa[1] < INF and fb[1] < INF else INF
            if lo > 2:
                lo = 2 if lo < 1 << 40 else lo
            if hi > 64:
                hi = INF
            n = norm(lo, hi, frozenset())
            if n and n != TOP:
                st.facts[s] = n
        elif op == "and":
            if b[0] == "c" and b[1] >= 0:
                st.facts[s] = (0, b[1], frozenset())
        elif op == "or":
            if self.isnull(st, a) is False or self.isnull(st, b) is False:
                st.facts[s] = NONNULL

    # ---------- calls ----------
    def call(self, f, st, i):
        self.stats["calls"] += 1
        if i.blk in i.F.cyc:
            self.retire(st, i.id)
        name = i.callee
        args = [self.val(st, a) for a in i.args]
        if name is None:
            fp = self.val(st, i.d["fp"])
            if fp[0] == "f":
                name = fp[1]
        if name is not None and name.startswith("llvm."):
            return self.intrinsic(f, st, i, name, args)
        if name in ("__cxa_begin_catch", "__cxa_get_exception_ptr"):
            st.env[("v", i.id)] = self.fresh(st, ("r", i.id), i)
            if name == "__cxa_begin_catch" and self.rule.wants_catch:
                self.rule.on_catch(self, st, i)
            return [("ret", st)]
        if name == "__cxa_end_catch":
            return [("ret", st)]
        if name == "__cxa_rethrow":
            return [("throw", st)]
        if name == "__cxa_throw":
            t = args[1]
            st.exc = t[1][1] if t[0] == "p" and t[1][0] == "G" else "?"
            return [("throw", st)]
        if name in ("_ZSt9terminatev", "__clang_call_terminate"):
            return []
        outs = self.rule.on_call(self, st, i, name, args)
        if outs is None:
            if name is not None:
                if name in self.P.fns:
                    outs = self.known(f, st, i, name, args)
                else:
                    outs = self.external(f, st, i, name, args)
            else:
                ts = self.P.targets(i)
                if ts and len(ts) <= 12 and any(self.rule.interesting(t) for t in ts):
                    outs = []
                    for t in ts:
                        if t in self.P.fns:
                            r = self.rule.on_call(self, st, i, t, args)
                            outs += r if r is not None else self.known(f, st, i, t, args)
                else:
                    outs = self.opaque(f, st, i, None, args)
                    if self.rule.throws and not i.get("nu") and self.P.vcall(i):
                        outs.append(Outcome("throw", st.ps, exc="_ZTIN6Xapian5ErrorE"))
        res = []
        for o in outs:
            if o.kind == "noret":
                continue
            s2 = st.copy() if len(outs) > 1 else st
            if self.apply(f, s2, i, o, args):
                if o.kind == "throw":
                    self.rule.on_throw(self, s2, i, name)
                res.append((o.kind, s2))
        return res

    def apply(self, f, st, i, o, args):
        """apply an outcome already expressed in the caller's frame"""
        if o.note == "kill":
            pass
        st.ps = o.ps
        for n, fa in o.argfacts:
            if n < len(args) and args[n][0] == "y":
                if not self.refine(st, args[n][1], fa):
                    return False
            elif n < len(args) and args[n][0] in ("c", "p", "f"):
                if meet(self.fact(st, args[n]), fa) is None:
                    return False
        if o.kind == "throw":
            st.exc = o.exc or st.exc or "?"
            for (base, off), (av, fa) in o.outs:
                self.setmem(st, i, base, off, av, fa)
            return True
        for (base, off), (av, fa) in o.outs:
            self.setmem(st, i, base, off, av, fa)
        if i.ty != "void":
            if o.ret is not None and o.ret[0] in ("c", "f", "p", "y", "cmp", "not"):
                st.env[("v", i.id)] = o.ret
                if o.ret[0] == "y" and o.fact is not None:
                    if not self.refine(st, o.ret[1], o.fact):
                        return False
            else:
                st.facts.pop(("r", i.id), None)
                st.env[("v", i.id)] = ("y", ("r", i.id))
                if o.fact is not None and o.fact != TOP:
                    st.facts[("r", i.id)] = o.fact
        if o.exc is None and o.kind == "ret":
            pass
        return True

    def unknown(self, st, i, k):
        """forget what is at k, but not (for what the caller can see) that it was written"""
        if k[0][0] == "P" and k[1] != "*":
            s = ("w", i.id) + k
            st.facts.pop(s, None)
            st.mem[k] = (("y", s), st.mem[k][1])
        else:
            del st.mem[k]

    def clobber(self, st, base, off, deep=True):
        """code outside this program was given base (+off): it may have written there, but (unless
        given it directly: deep) not to the fields of this program's own structures"""
        for k in [k for k, e in st.mem.items() if k[0] == base and (deep or e[1] is None) and not (isinstance(off, int) and isinstance(k[1], int) and k[1] < off)]:
            del st.mem[k]
        if base[0] == "P":
            st.mem[(base, "*")] = (("c", 0), None)

    def setmem(self, st, i, base, off, av, fa):
        if type(off) is tuple and off[0] == "*":
            self.clobber(st, base, off[1], False)
            return
        if av is None:
            s = ("w", i.id, base, off)
            if depth(s) > 6:
                st.mem.pop((base, off), None)
                return
            st.facts.pop(s, None)
            if fa is not None and fa != TOP:
                st.facts[s] = fa
            av = ("y", s)
        elif av[0] == "y" and fa is not None and fa != TOP:
            n = meet(st.facts.get(av[1], TOP), fa)
            if n is not None and n != TOP:
                st.facts[av[1]] = n
        old = st.mem.get((base, off))
        st.mem[(base, off)] = (av, old[1] if old else None)

    def havoc_args(self, st, i, args, pure=False):
        if pure:
            return
        for a in args:
            if a[0] == "p" and a[1][0] == "A":
                for k in [k for k in st.mem if k[0] == a[1] and isinstance(k[1], int) and isinstance(a[2], int) and k[1] >= a[2]]:
                    del st.mem[k]
            elif a[0] == "y":
                self.clobber(st, a[1], 0)

    def havoc_indirect(self, st, args):
        """locals whose address the callee can find inside the memory it is given"""
        seen = {a[1] for a in args if a[0] == "p" and a[1][0] == "A"}
        if not seen:
            return
        w = list(seen)
        hit = set()
        while w:
            b = w.pop()
            for k, e in st.mem.items():
                v = e[0]
                if k[0] == b and v[0] == "p" and v[1][0] == "A" and v[1] not in seen:
                    seen.add(v[1]); hit.add(v[1]); w.append(v[1])
        if hit:
            for k in [k for k in st.mem if k[0] in hit]:
                del st.mem[k]
        if hit and self.rule.assume_options:
            self.option_values(st, seen)

    def option_values(self, st, bases):
        """fix the values of named command line options (the rule's assume_options)"""
        fields = self.P.structs["notmuch_opt_desc"]["fields"]
        noff = next(o for o, n, t, z in fields if n == "name")
        size = max(o + z for o, n, t, z in fields)
        size += -size % 8
        for k, e in list(st.mem.items()):
            v = e[0]
            if k[0] in bases and v[0] == "p" and v[1][0] == "S" and v[1][1] in self.rule.assume_options and isinstance(k[1], int):
                base = k[1] - noff
                for k2, e2 in list(st.mem.items()):
                    if k2[0] == k[0] and isinstance(k2[1], int) and base <= k2[1] < base + size and e2[0][0] == "p" and e2[0][1][0] == "A":
                        st.mem[(e2[0][1], e2[0][2])] = (("c", self.rule.assume_options[v[1][1]]), None)

    def opaque(self, f, st, i, name, args, fact=None, ret=None):
        self.havoc_args(st, i, args, name in PURE)
        if name not in PURE:
            self.havoc_indirect(st, args)
        outs = [Outcome("ret", st.ps, ret, fact)]
        return outs

    def external(self, f, st, i, name, args):
        d = self.P.decl.get(name)
        if i.get("nr") or (d and d["noreturn"]) or name in NORETURN:
            self.rule.on_noreturn(self, st, i, name, args)
            return []
        outs = None
        if name in IDENT and IDENT[name] < len(args) and args[IDENT[name]][0] in ("y", "p", "c"):
            return [Outcome("ret", st.ps, args[IDENT[name]])]
        m = EXTRET.get(name)
        if m == "nn":
            outs = self.opaque(f, st, i, name, args, NONNULL)
        else:
            outs = self.opaque(f, st, i, name, args)
        if self.rule.throws and throwing(self.P, name) and not i.get("nu") and not inmemory(self.P, i):
            outs.append(Outcome("throw", st.ps, exc="_ZTIN6Xapian5ErrorE"))
        return outs

    def known(self, f, st, i, name, args):
        g = self.P.fns[name]
        if g.noreturn or i.get("nr"):
            self.rule.on_noreturn(self, st, i, name, args)
            return []
        if not self.rule.descend(name) and not tiny(g):
            return self.generic(f, st, i, name, g, args)
        # build entry state
        s0 = St(None)
        amap = {}     # callee sym -> caller AV
        akey = []
        rec = g.name in recursive(self.P)
        for n in range(len(g.args)):
            a = args[n] if n < len(args) else ("u",)
            if a[0] in ("c", "f") or self.rule.pass_strings and a[0] == "p" and a[1][0] == "S" and a[2] == 0:
                s0.env[("a", n)] = a
                akey.append(a)
            else:
                sym = ("P", n)
                s0.env[("a", n)] = ("y", sym)
                fa = self.fact(st, a)
                if fa != TOP:
                    # abstract to nullness / sign to bound contexts
                    fa = self.rule.absfact(fa)
                    if rec and fclass(fa) == "nz":
                        fa = TOP
                    if fa != TOP:
                        s0.facts[sym] = fa
                amap[sym] = a
                k = [fa]
                if a[0] == "p" and a[1][0] == "A" and isinstance(a[2], int) and (a[1][1] in f.small or self.rule.pass_structs):
                    for (b, o), e in sorted(((kk, vv) for kk, vv in st.mem.items() if kk[0] == a[1] and isinstance(kk[1], int) and kk[1] >= a[2]), key=lambda z: z[0][1]):
                        v = e[0]
                        if v[0] in ("c", "f"):
                            s0.mem[(sym, o - a[2])] = (v, e[1]); k.append((o - a[2], v))
                        else:
                            ps = ("pm", n, o - a[2])
                            amap[ps] = v
                            s0.mem[(sym, o - a[2])] = (("y", ps), e[1])
                            fa2 = self.rule.absfact(self.fact(st, v))
                            if fa2 != TOP:
                                s0.facts[ps] = fa2
                            k.append((o - a[2], fa2))
                akey.append(tuple(k))
        self.havoc_indirect(st, args)
        psin, ctx = self.rule.ps_in(self, st, i, g, args, amap)
        s0.ps = psin
        key = (name, psin, tuple(akey))
        outs = self.summary(g, s0, key)
        self.killmods(st, name, i)
        res = []
        for n, o in enumerate(outs):
            if o.kind == "throw" and not crossthrow(f, g):
                continue
            res.append(self.translate(st, i, g, o, args, amap, ctx, n))
        if not outs:
            return []
        # de-duplicate
        u = {}
        for o in res:
            u.setdefault(okey(o), o)
        return list(u.values())

    def generic(self, f, st, i, name, g, args):
        """uninteresting callee: context-insensitive summary, property state untouched"""
        outs = generic_summary(self.P, name)
        self.havoc_indirect(st, args)
        amap = {("P", n): a for n, a in enumerate(args) if n < len(g.args)}
        self.killmods(st, name, i)
        if outs is None:
            self.havoc_args(st, i, args)
            outs = [Outcome("ret", ())]
            if not g.nounwind and self.throwset(name):
                outs.append(Outcome("throw", (), exc="_ZTIN6Xapian5ErrorE"))
        res = {}
        for n, o in enumerate(outs):
            if o.kind == "throw" and not (self.rule.throws and crossthrow(f, g)):
                continue
            # argument facts incompatible with this call
            bad = False
            for k, fa in o.argfacts:
                if k < len(args) and meet(self.fact(st, args[k]), fa) is None:
                    bad = True
            if bad:
                continue
            t = self.translate(st, i, g, o, args, amap, "generic", n)
            t.ps = st.ps
            res.setdefault(okey(t), t)
        return list(res.values())

    def translate(self, st, i, g, o, args, amap, ctx, n):
        m = {}
        for sym, av in amap.items():
            m[("y", sym)] = av
            if av[0] == "y":
                m[sym] = av[1]
            elif av[0] == "p" and av[2] == 0:
                m[sym] = av[1]
        new = {}

        def tr(av, fa=None):
            if av is None:
                return None
            if av[0] in ("c", "f"):
                return av
            if av[0] == "y":
                if av[1] in amap:
                    return amap[av[1]]
                if av[1][0] == "G":
                    return av
                s = ("k", i.id, subst(av[1], {}) if depth(av[1]) < 3 else ("d", hash(av[1])))
                new[av[1]] = s
                return ("y", s)
            if av[0] == "p":
                if av[1] in amap:
                    b = amap[av[1]]
                    if b[0] == "p":
                        return ("p", b[1], b[2] + av[2]) if isinstance(b[2], int) and isinstance(av[2], int) else None
                    if b[0] == "y":
                        return ("p", b[1], av[2])
                if av[1][0] == "G" or av[1][0] == "S" and av[2] == 0 and self.rule.pass_strings:
                    return av
                return None
            return None
        ret = None
        if o.ret is not None:
            if o.ret[0] == "sym":
                # a value the property state refers to
                new[o.ret[1]] = ("r", i.id)
                ret = None
            elif o.ret[0] != "x":
                ret = tr(o.ret)
        outs = []
        for (base, off), (av, fa) in o.outs:
            if base in amap:
                b = amap[base]
                if off == "*":
                    if b[0] == "p":
                        outs.append(((b[1], ("*", b[2])), (None, None)))
                    elif b[0] == "y":
                        outs.append(((b[1], ("*", 0)), (None, None)))
                    continue
                if b[0] == "p" and isinstance(b[2], int) and isinstance(off, int):
                    nb, no = b[1], b[2] + off
                elif b[0] == "y":
                    nb, no = b[1], off
                else:
                    continue
                v = None
                if av is not None:
                    if av[0] == "y" and av[1] in o_pssyms(o) and av[1] not in amap:
                        s = ("w", i.id, nb, no)
                        new[av[1]] = s
                        v = ("y", s)
                    else:
                        v = tr(av)
                outs.append(((nb, no), (v, fa)))
        m2 = dict(m)
        for a, b in new.items():
            m2[a] = b
            m2[("y", a)] = ("y", b)
        ps = self.rule.ps_out(self, st, i, g, o, ctx, m2) if ctx != "generic" else st.ps
        return Outcome(o.kind, ps, ret, o.fact, tuple(outs), o.exc, o.note, o.argfacts)

    def killmods(self, st, name, i):
        md = self.mods(name)
        if not md:
            return
        for k in [k for k, e in st.mem.items() if k[0][0] != "A" and (e[1] in md or (k[0][0] == "G" and ("G", k[0][1]) in md))]:
            self.unknown(st, i, k)

    def throwset(self, name):
        if not hasattr(self, "_thr"):
            self._thr = compute_throwers(self.P)
        return name in self._thr

    def intrinsic(self, f, st, i, name, args):
        if name.startswith("llvm.eh.typeid.for"):
            st.env[("v", i.id)] = ("tid", args[0][1][1] if args[0][0] == "p" else "*")
            return [("ret", st)]
        if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            d = args[0]
            a = self.addr(d)
            if a is not None:
                size = args[2][1] if args[2][0] == "c" else None
                if a[0][0] == "P":
                    self.clobber(st, a[0], a[1])
                for k in [k for k in st.mem if k[0] == a[0] and isinstance(k[1], int) and isinstance(a[1], int) and k[1] >= a[1] and (size is None or k[1] < a[1] + size)]:
                    del st.mem[k]
                if "memset" in name and args[1] == ("c", 0) and size is not None and isinstance(a[1], int):
                    for o in range(0, min(size, 512), 4):
                        st.mem[(a[0], a[1] + o)] = (("c", 0), None)
                if "memcpy" in name and size is not None and isinstance(a[1], int):
                    s = self.addr(args[1])
                    if s is not None and isinstance(s[1], int):
                        if s[0][0] == "G":
                            g = self.P.globals.get(s[0][1])
                            if g is not None and g.init is not None and g.const:
                                for o, v in flatinit(g.init):
                                    if s[1] <= o < s[1] + size and v[0] in ("c", "s", "f", "g"):
                                        st.mem[(a[0], a[1] + o - s[1])] = (self.val(st, v), None)
                                if g.init[0] == "z":
                                    for o in range(0, min(size, 512), 4):
                                        st.mem[(a[0], a[1] + o)] = (("c", 0), None)
                        else:
                            for k in [k for k in st.mem if k[0] == s[0] and isinstance(k[1], int) and s[1] <= k[1] < s[1] + size]:
                                st.mem[(a[0], a[1] + k[1] - s[1])] = st.mem[k]
            return [("ret", st)]
        if name.startswith("llvm.trap") or name.startswith("llvm.unreachable"):
            return []
        if i.ty != "void":
            st.env[("v", i.id)] = self.fresh(st, ("r", i.id), i)
        return [("ret", st)]

    # ---------- reporting ----------
    def violate(self, i_or_fn, rule, what, st=None, key=None, entry=None):
        w = ir.loc(i_or_fn) if isinstance(i_or_fn, ir.Instr) else "%s:%d" % (i_or_fn.rel, i_or_fn.line)
        fn = i_or_fn.F if isinstance(i_or_fn, ir.Instr) else i_or_fn
        k = key or (rule, fn.name, what)
        if k in self.violations:
            return
        tr = []
        t = st.trace if st is not None else None
        while t is not None:
            tr.append(t[1]); t = t[0]
        self.violations[k] = dict(rule=rule, where=w, function=fn.dem.split("(")[0], what=what, key="/".join(map(str, k)) if isinstance(k, tuple) else k,
                                  path=tr[::-1][-40:], entry=entry or (self.stack[0].dem.split("(")[0] if self.stack else None),
                                  stack=[x.dem.split("(")[0] for x in self.stack])


_generic = {}
_gprog = []
_rec = {}


def recursive(P):
    """functions that can call themselves, directly or through others"""
    if id(P) not in _rec:
        g = {n: {i.callee for i in f.calls() if i.callee in P.fns} for n, f in P.fns.items()}
        r = set()
        for n in g:
            seen = set(); w = list(g[n])
            while w:
                x = w.pop()
                if x == n:
                    r.add(n); break
                if x not in seen:
                    seen.add(x); w += g[x]
        _rec[id(P)] = r
    return _rec[id(P)]


OPAQUE_TU = ("parse-time-string/",)


class GRule:
    pass


def generic_summary(P, name):
    if name in _generic:
        return _generic[name]
    g = P.fns[name]
    _generic[name] = None          # recursion: opaque
    if g.tu.startswith(OPAQUE_TU) or len(g.blocks) > 400:
        return None
    E = Engine(GenericRule(), P, maxsteps=2500)
    E.K = 6
    E.coarse = True
    try:
        outs = E.run(name)
    except Budget:
        return None
    _generic[name] = compact(outs)
    return _generic[name]


def kclass(fa):
    """coarse class of an interval, for telling states apart"""
    lo, hi, ex = fa
    if lo == hi == 0:
        return 0
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if 0 in ex:
        return 2
    if lo == 0:
        return 3
    return None


def fclass(fa):
    if fa is None or fa == TOP:
        return "?"
    if fa[0] == fa[1]:
        return fa[0] if abs(fa[0]) < 64 else "k"
    if fa[0] > 0 or fa[1] < 0 or 0 in fa[2]:
        return "nz"
    return "?"


def compact(outs, lim=10):
    """merge outcomes into few classes by kind and return value"""
    def merge(keyf):
        m = {}
        for o in outs:
            k = keyf(o)
            if k not in m:
                m[k] = o
                continue
            p = m[k]
            po = dict(p.outs); qo = dict(o.outs)
            no = {}
            for kk in set(po) | set(qo):
                if po.get(kk) == qo.get(kk):
                    no[kk] = po[kk]
                elif kk in po and kk in qo:
                    no[kk] = (None, joinf(po[kk][1] or TOP, qo[kk][1] or TOP))
                else:
                    no[kk] = (None, TOP)
            pa = dict(p.argfacts); qa = dict(o.argfacts)
            na = {n: joinf(pa[n], qa[n]) for n in set(pa) & set(qa)}
            m[k] = Outcome(o.kind, (), p.ret if p.ret == o.ret else (("x", "ret") if p.ret is not None else None), joinf(p.fact or TOP, o.fact or TOP),
                           tuple(sorted(no.items(), key=repr)), o.exc if p.exc == o.exc else "_ZTIN6Xapian5ErrorE", None,
                           tuple(sorted(na.items())))
        return list(m.values())
    r = merge(lambda o: (o.kind, o.ret if o.ret and o.ret[0] in ("c", "y") else None, fclass(o.fact), tuple((k, fclass(v[1])) for k, v in o.outs)))
    if len(r) > lim:
        r = merge(lambda o: (o.kind, fclass(o.fact)))
    if len(r) > lim:
        r = merge(lambda o: (o.kind, "0" if fclass(o.fact) == 0 else "nz" if fclass(o.fact) != "?" else "?"))
    return r


def okey(o):
    return (o.kind, o.ps, o.ret, o.fact, o.outs, o.exc, o.argfacts)


def o_pssyms(o):
    acc = set(); syms(o.ps, acc)
    return acc


def depth(x):
    d = 0
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                d = max(d, depth(y))
        return d + 1
    return 0


def arith(op, a, b):
    try:
        if op == "add": return a + b
        if op == "sub": return a - b
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return a << b if 0 <= b < 63 else None
        if op == "lshr": return a >> b if a >= 0 and 0 <= b < 64 else None
        if op == "ashr": return a >> b if 0 <= b < 64 else None
        if op == "mul": return a * b
        if op == "sdiv": return int(a / b) if b else None
        if op == "udiv": return a // b if b > 0 and a >= 0 else None
        if op in ("urem",): return a % b if b > 0 and a >= 0 else None
    except Exception:
        return None
    return None


def initat(init, off):
    if init[0] == "agg":
        best = None
        for o, v in init[1]:
            if o <= off:
                best = (o, v)
        if best is None:
            return None
        if best[1][0] == "agg":
            return initat(best[1], off - best[0])
        if best[1][0] == "z":
            return ("c", 0)
        if best[0] == off:
            return best[1]
        return None
    if init[0] == "z":
        return ("c", 0)
    return init if off == 0 else None


def flatinit(init, base=0):
    if init[0] == "agg":
        for o, v in init[1]:
            yield from flatinit(v, base + o)
    else:
        yield base, init


def cyclic(f):
    """blocks that lie on a cycle"""
    r = set()
    for b in range(len(f.blocks)):
        seen = set(); w = list(f.succ[b])
        while w:
            x = w.pop()
            if x in seen:
                continue
            if x == b:
                break
            seen.add(x); w += f.succ[x]
        else:
            continue
        r.add(b)
    return r


def excmatch(exc, t):
    """does an exception of (at least) class exc match a handler for t: True/False/None"""
    if t == "*" or exc == t:
        return True
    x = "_ZTIN6Xapian"
    if exc is None or exc == "?":
        return None
    if exc.startswith(x) and t == x + "5ErrorE":
        return True
    if exc == x + "5ErrorE" and t.startswith(x):
        return None
    if exc.startswith(x) and t.startswith(x):
        for g in ("DatabaseError", "RuntimeError", "LogicError"):
            if g in t or g in exc:
                return None
        return False
    if exc.startswith(x) != t.startswith(x):
        return False
    return None


NORETURN = {"exit", "_exit", "abort", "_Exit", "__assert_fail", "_ZSt9terminatev", "longjmp", "execv"}
NORETURN.discard("execv")
EXTRET = {"g_malloc": "nn", "g_malloc0": "nn", "g_realloc": "nn", "g_strdup_printf": "nn", "g_hash_table_new": "nn",
          "g_hash_table_new_full": "nn", "g_ptr_array_new": "nn", "_Znwm": "nn", "_Znam": "nn", "g_byte_array_new": "nn",
          "__errno_location": "nn", "g_mime_stream_filter_new": "nn",
          "g_mime_stream_pipe_new": "nn", "strerror": "nn", "gettext": "nn", "dcgettext": "nn",
          "__cxa_allocate_exception": "nn"}

THROW_CLASSES = ("Database::", "WritableDatabase::")
THROW_METHODS = {
    "Document": ("add_term", "get_data", "get_value", "remove_term", "termlist_begin", "clear_terms"),
    "Enquire": ("get_mset",),
    "PostingIterator": ("operator*", "operator++", "skip_to"),
    "TermIterator": ("operator*", "operator++", "skip_to"),
    "ValueIterator": ("operator*", "operator++", "skip_to", "check", "get_docid"),
    "QueryParser": ("parse_query",),
}


def throwing(P, name):
    """does this external Xapian primitive touch the database (and so may throw Xapian::Error)?"""
    c = P.__dict__.setdefault("_throwing", {})
    if name in c:
        return c[name]
    r = False
    d = P.decl.get(name)
    if d and d["dem"].startswith("Xapian::"):
        dem = d["dem"].split("(")[0] if not "operator(" in d["dem"] else d["dem"]
        dem = dem.replace("[abi:cxx11]", "")
        if not d["nounwind"] and "::~" not in dem:
            parts = dem.split("::")
            cls, meth = parts[1], parts[-1]
            if cls in ("Database", "WritableDatabase"):
                r = not (meth == "Database" and "()" in d["dem"]) and "operator=" not in meth
            elif cls in THROW_METHODS:
                r = meth in THROW_METHODS[cls]
    c[name] = r
    return r


def inmemory(P, i):
    """a term iterator that walks a query object (in memory), not a database"""
    n = i.callee
    if not n or "TermIterator" not in n:
        return False
    c = P.__dict__.setdefault("_inmem", {})
    f = i.F
    if f.name in c:
        return c[f.name]
    c[f.name] = False

    def src(g):
        q = d = False
        for k in g.calls():
            x = k.callee and P.decl.get(k.callee)
            if x and x["dem"].startswith("Xapian::"):
                m = x["dem"].split("(")[0].split("::")[-1]
                if m in ("get_terms_begin", "get_unique_terms_begin", "get_terms_end") and "Query" in x["dem"]:
                    q = True
                elif m in ("termlist_begin", "allterms_begin", "spellings_begin", "synonyms_begin", "metadata_keys_begin", "get_matching_terms_begin"):
                    d = True
        return q, d
    q, d = src(f)
    if not q and not d and f.internal:
        cs = [k.F for k in P.callers.get(f.name, ())]
        r = [src(g) for g in cs]
        q = bool(r) and all(a for a, b in r); d = any(b for a, b in r)
    c[f.name] = q and not d
    return c[f.name]


def tiny(g):
    """small pure accessors and operators: always inlined"""
    t = getattr(g, "_tiny", None)
    if t is None:
        ins = list(g.instrs())
        t = g._tiny = len(ins) <= 14 and all(i.op not in ("call", "invoke", "store") or (i.callee or "").startswith("llvm.dbg") for i in ins)
    return t


def crossthrow(f, g):
    """exceptions do not travel through C frames of the CLI (that is the API rule's business)"""
    return not f.file.endswith(".c")


def compute_throwers(P):
    """functions from which a Xapian exception may propagate, ignoring handlers (over-approximation)"""
    r = set()
    ch = True
    direct = {}
    for f in P.fns.values():
        direct[f.name] = set()
        for i in f.calls():
            for t in ([i.callee] if i.callee else P.targets(i)):
                if t not in P.fns and inmemory(P, i):
                    continue
                direct[f.name].add(t)
            if not i.get("nu") and P.vcall(i):
                r.add(f.name)
    while ch:
        ch = False
        for n, cs in direct.items():
            if n in r:
                continue
            for c in cs:
                if c in r or (c not in P.fns and throwing(P, c)):
                    r.add(n); ch = True; break
    return r


def compute_mods(P):
    """transitive may-write sets: struct fields (type, offset) and globals"""
    direct = {}
    calls = {}
    for f in P.fns.values():
        s = set()
        for i in f.instrs():
            if i.op == "store":
                k = P.gepkey(f, i.d["p"])
                if k:
                    s.add(k)
                elif i.d["p"][0] == "g":
                    s.add(("G", i.d["p"][1]))
        direct[f.name] = s
        c = set()
        for i in f.calls():
            for t in ([i.callee] if i.callee else P.targets(i)):
                if t in P.fns:
                    c.add(t)
        calls[f.name] = c
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            b = len(direct[n])
            for c in cs:
                direct[n] |= direct[c]
            if len(direct[n]) != b:
                ch = True
    return {n: frozenset(s) for n, s in direct.items()}


class Rule:
    """base rule: no property"""
    throws = True
    wants_store = wants_load = wants_branch = wants_refine = wants_catch = False
    interesting_set = None
    pass_strings = False
    pass_structs = False
    assume_options = None

    def init(self, f): return ()
    def argfacts(self, f): return {}
    def interesting(self, name):
        return self.interesting_set is None or name in self.interesting_set
    def descend(self, name):
        return self.interesting(name)
    def absfact(self, fa):
        if fa[0] == fa[1]:
            return fa
        if fa[0] > 0 or fa[1] < 0 or 0 in fa[2]:
            return NONNULL
        return TOP
    def ps_in(self, E, st, i, g, args, amap): return st.ps, None
    def ps_out(self, E, st, i, g, o, ctx, m): return o.ps
    def on_call(self, E, st, i, name, args): return None
    def on_store(self, E, st, i, addr, val, key): pass
    def on_load(self, E, st, i, av, key): return None
    def on_branch(self, E, st, i, c, t): pass
    def on_refine(self, E, st, sym, f): pass
    def on_catch(self, E, st, i): pass
    def on_throw(self, E, st, i, name): pass
    def on_noreturn(self, E, st, i, name, args): pass
    def on_exit(self, E, st, f, kind, rv, i, root): pass


class GenericRule(Rule):
    def interesting(self, name): return False
    def descend(self, name): return False


def closure_callers(P, names):
    """all functions from which one of `names` can be reached"""
    rev = {}
    for f in P.fns.values():
        for i in f.calls():
            for t in ([i.callee] if i.callee else P.targets(i)):
                rev.setdefault(t, set()).add(f.name)
    r = set(); w = list(names)
    while w:
        n = w.pop()
        for c in rev.get(n, ()):
            if c not in r:
                r.add(c); w.append(c)
    return r
