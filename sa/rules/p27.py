"""Structured output is well formed: every structure printer is driven like a grammar."""
from ..common import *
from .. import ir
from ..engine import recursive

VALUES = {"string", "string_len", "integer", "boolean", "null"}
OPENING = {"begin_map": "K", "begin_list": "L"}
NEUTRAL = {"separator", "set_prefix"}
FRAME = {"L": "a list", "K": "a map that needs a key", "V": "a map entry that needs its value", "T": "the top level", "D": "after the end of the output"}
KEEP = 1
SEVERAL = {"notmuch_reply_command": "prints one value per matching message, having checked that exactly one matches"}


class Print(Rule):
    """ps: open structures, outermost first: T nothing printed yet, D done, L in a list, K map before a key, V map before a value"""
    wants_load = True

    def __init__(self, P):
        self.P = P
        self.f = {o: n for o, n, t, s in P.structs["sprinter"]["fields"]}
        self.text = ("%struct.sprinter", next(o for o, n in self.f.items() if n == "is_text_printer"))
        self.nch = next(o for n, x in P.structs.items() if "mime_node" in n and n.rstrip("_t").endswith("mime_node") for o, y, t, z in x["fields"] if y == "nchildren")
        has = set()
        self.calls = {}
        for f in P.fns.values():
            if f.tu.startswith(("lib/", "util/", "sprinter-")):
                continue
            for i in f.calls():
                m = self.method(i)
                if m:
                    has.add(f.name)
                    self.calls.setdefault(m, []).append(i)
        self.interesting_set = closure_callers(P, has) | has
        self.counted = {f for f in has if self.counts(P.fns[f])}
        self.rec = recursive(P) & self.interesting_set
        self.exits = 0
        self.assumed = set()
        self.seen = set()
        self.depth = 0

    def counts(self, f):
        """closes a number of structures that is counted at run time (an end in a loop that opens nothing)"""
        for i in f.calls():
            if self.method(i) != "end":
                continue
            other = {j.blk for j in f.calls() if j is not i and self.method(j)}
            if i.blk in other:
                continue
            seen = set(); w = list(f.succ[i.blk])
            while w:
                x = w.pop()
                if x == i.blk:
                    return True
                if x not in seen and x not in other:
                    seen.add(x)
                    w += f.succ[x]
        return False

    def method(self, i):
        if i.callee is not None or i.op not in ("call", "invoke"):
            return None
        p = i.d.get("fp")
        if not p or p[0] != "v":
            return None
        d = i.F.byid[p[1]]
        if d.op != "load":
            return None
        k = self.P.gepkey(i.F, d.d["p"])
        if k and k[0] == "%struct.sprinter":
            return self.f.get(k[1])
        return None

    def init(self, f):
        return ("T",)

    def ps_in(self, E, st, i, g, args, amap):
        if len(st.ps) > KEEP:
            return st.ps[-KEEP:], st.ps[:-KEEP]
        return st.ps, ()

    def ps_out(self, E, st, i, g, o, ctx, m):
        return tuple(ctx) + tuple(o.ps)

    def on_load(self, E, st, i, av, key):
        if key == self.text:
            return ("c", 0)
        return None

    def bad(self, E, st, i, m, what):
        if m == "a nested value" and i.F.name in self.counted:
            return        # how many children a node has is only known at run time
        E.violate(i, "grammar", "%s is printed %s" % (m, what), st, key=("grammar", base_name(i.F), m, what))

    def on_call(self, E, st, i, name, args):
        m = self.method(i)
        if m is None:
            if name == "g_mime_content_type_is_type" and [a[1][1] for a in args[1:3] if a[0] == "p" and a[1][0] == "S"] == ["text", "*"]:
                # a text part is a leaf of the MIME tree
                outs = tuple(((("P", n), self.nch), (("c", 0), None)) for n, t in enumerate(i.F.dtypes[1:]) if "mime_node" in t and "*" in t)
                return [Outcome("ret", st.ps, None, NONNULL, outs=outs), Outcome("ret", st.ps, ("c", 0))]
            if name in self.counted or name in self.rec and any(f.name == name for f in E.stack):
                # induction: the nested call prints one value (checked where it returns)
                self.assumed.add(name)
                top = st.ps[-1]
                if top not in ("L", "V", "T"):
                    self.bad(E, st, i, "a nested value", "in " + FRAME[top])
                    return []
                return [Outcome("ret", st.ps[:-1] + ({"L": "L", "V": "K", "T": "D"}[top],))]
            return None
        self.seen.add((i.F.name, i.id))
        if m in NEUTRAL:
            return [Outcome("ret", st.ps)]
        s = st.ps
        if not s:
            return []
        top = s[-1]
        if top == "D" and E.stack[0].name in SEVERAL:
            top = "T"
            s = s[:-1] + ("T",)
        if m == "map_key":
            if top != "K":
                self.bad(E, st, i, "a map key", "in " + FRAME[top])
                return []
            return [Outcome("ret", s[:-1] + ("V",))]
        if m == "end":
            if top not in ("K", "L"):
                self.bad(E, st, i, "the end of a structure", "in " + FRAME[top])
                return []
            s = s[:-1]
            return [Outcome("ret", s)]
        if m in VALUES or m in OPENING:
            what = "a value" if m in VALUES else "a list" if m == "begin_list" else "a map"
            if top not in ("L", "V", "T"):
                self.bad(E, st, i, what, "in " + FRAME[top])
                return []
            s = s[:-1] + ({"L": "L", "V": "K", "T": "D"}[top],)
            if m in OPENING:
                s = s + (OPENING[m],)
            if len(s) > 14:
                E.violate(i, "unbounded", "structures are opened in a loop without being closed", st, key=("unbounded", base_name(i.F)))
                return []
            self.depth = max(self.depth, len(s))
            return [Outcome("ret", s)]
        raise Broken("unknown printer method %s" % m)

    def on_exit(self, E, st, f, kind, rv, i, root):
        if f.name in self.rec and f.name not in self.counted and kind == "ret" and (rv is None or E.isnull(st, rv) is not False) and st.ps not in (("L",), ("K",), ("D",)):
            E.violate(f, "one-value", "%s does not print exactly one complete value" % base_name(f), st, key=("one-value", base_name(f), "".join(st.ps)))
        if not root or kind != "ret":
            return
        self.exits += 1
        if rv is not None and E.isnull(st, rv) is not False and st.ps not in (("T",), ("D",)):
            E.violate(f, "unclosed", "%s can report success with %s still open" % (f.name, FRAME.get(st.ps[-1], "?")), st, key=("unclosed", f.name, "".join(st.ps)))


def run(P, tier):
    R = Result()
    if "sprinter" not in P.structs:
        raise Broken("printer interface not found")
    r0 = Print(P)
    tot = sum(len(v) for v in r0.calls.values())
    if tot < 60:
        raise Broken("only %d printer calls" % tot)
    seen = set()
    assumed = set()
    S = {}
    ex = {}
    for c in commands(P):
        if c not in r0.interesting_set:
            continue
        r = Print(P)
        E = Engine(r, P)
        E.run(c)
        R.add(E)
        seen |= r.seen
        assumed |= r.assumed
        S[c] = stats(E)
        ex[c] = r.exits
    for c in sorted(r0.counted):
        r = Print(P)
        E = Engine(r, P)
        E.run(c, ("L",))
        R.add(E)
        seen |= r.seen
        S[c] = stats(E)
    miss = {(i.F.name, i.id) for v in r0.calls.values() for i in v} - seen
    R.cov = dict(printer_calls={k: len(v) for k, v in r0.calls.items()}, reached=len(seen), taken_on_trust=sorted(r0.counted), not_reached=sorted(ir.loc(P.fns[f].byid[n]) for f, n in miss), exits=ex, analysis=S)
    R.explain = "Every command that prints structured output is explored with the stack of open lists and maps as state; printing is checked against the grammar lists, maps and key/value pairs obey, and successful exits must have closed everything."
    return R
