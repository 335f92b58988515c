"""Interrupts: handlers that only set a flag, and commands that stop at the next message and say so."""
from ..common import *
from .. import flow, ir
from . import p26

SAFE = set("""write _exit _Exit sigaction sigemptyset sigaddset sigprocmask raise kill signal time clock_gettime alarm close dup dup2 fsync __errno_location""".split())
COMMANDS = {"notmuch_new_command": "index", "notmuch_tag_command": "messages", "notmuch_reindex_command": "messages"}
ARRIVE = {"index": {"notmuch_database_index_file"}, "messages": {"notmuch_messages_move_to_next"}}
STOP = {"index": {"notmuch_database_index_file", "notmuch_directory_set_mtime", "notmuch_directory_delete", "notmuch_database_remove_message"}}


class Intr(Rule):
    """ps: None, or "int" once the signal has arrived"""
    wants_load = True
    wants_refine = True

    def __init__(self, P, flags, kind, mut):
        self.P = P
        self.flags = flags
        self.arrive = ARRIVE[kind]
        self.stop = STOP.get(kind) or mut
        self.kind = kind
        names = set(self.arrive) | self.stop
        readers = {f.name for f in P.fns.values() for i in f.instrs() if i.op == "load" and i.d["p"][0] == "g" and i.d["p"][1] in flags}
        self.interesting_set = {n for n in closure_callers(P, list(names) + ["notmuch_run_hook"]) | closure_callers(P, list(readers)) | readers if not P.fns[n].tu.startswith(("lib/", "util/"))}
        self.seen = {}
        self.lsyms = set()

    def init(self, f):
        return None

    def on_load(self, E, st, i, av, key):
        p = i.d["p"]
        if p[0] == "g" and p[1] in self.flags:
            self.seen.setdefault("flag tests", set()).add(ir.loc(i))
            if st.ps == "int":
                return ("c", 1)
            if av[0] == "y":
                self.lsyms.add(av[1])
        return None

    def on_refine(self, E, st, sym, f):
        if st.ps is None and sym in self.lsyms and (f[0] > 0 or f[1] < 0 or 0 in f[2]):
            st.ps = "int"
        return True

    def on_call(self, E, st, i, name, args):
        if name in self.stop:
            self.seen.setdefault("work", set()).add(ir.loc(i))
            if st.ps == "int":
                E.violate(i, "goes-on", "%s is still reached after an interrupt arrived: work goes on instead of stopping at the next message" % name, st, key=("goes-on", E.stack[0].name, name))
        if name == "notmuch_run_hook" and st.ps == "int":
            E.violate(i, "hook", "a hook runs although the command was interrupted", st, key=("hook", E.stack[0].name))
        if name in self.arrive:
            self.seen.setdefault("arrival points", set()).add(ir.loc(i))
            if st.ps is None:
                g = self.P.fns[name]
                r = []
                for o in E.generic(i.F, st, i, name, g, args):
                    r.append(o)
                    if o.kind == "ret":
                        r.append(Outcome(o.kind, "int", o.ret, o.fact, o.outs, argfacts=o.argfacts))
                return r
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and st.ps == "int" and rv is not None and E.isnull(st, rv) is not False:
            E.violate(f, "exit", "%s can report success although it was interrupted" % f.name, st, key=("exit", f.name))


def run(P, tier):
    R = Result()
    hs = P.sighandlers()
    if len(hs) < 4:
        raise Broken("only %d signal handlers found" % len(hs))
    nh = 0
    seen = set()
    w = list(hs)
    while w:
        n = w.pop()
        if n in seen:
            continue
        seen.add(n)
        f = P.fns.get(n)
        if f is None:
            continue
        nh += 1
        for i in f.instrs():
            if i.op in ("call", "invoke"):
                for t in ([i.callee] if i.callee else P.targets(i) or ["an unknown function"]):
                    if t in P.fns:
                        w.append(t)
                    elif t not in SAFE and not str(t).startswith("llvm."):
                        R.v(i, "unsafe-handler", "a signal handler calls %s, which is not async-signal-safe" % P.demangle(t).split("(")[0], ("unsafe", base_name(f), t))
            if i.op == "store" and i.d["p"][0] == "g":
                g = P.globals[i.d["p"][1]]
                if g.dtype.replace("static ", "") not in ("volatile sig_atomic_t",) and not ("volatile" in g.dtype and "sig_atomic_t" in g.dtype):
                    R.v(i, "flag-type", "a signal handler writes %s, which is not a volatile sig_atomic_t" % g.dname, ("flag", g.dname))
            elif i.op == "store" and P.gepkey(f, i.d["p"]):
                R.v(i, "flag-type", "a signal handler writes into an object", ("flag", base_name(f), "object"))
    # flags that handlers set and nothing resets: the request to stop
    reset = set()
    for f in P.fns.values():
        if f.name in seen:
            continue
        for i in f.instrs():
            if i.op == "store" and i.d["p"][0] == "g" and i.d["p"][1] in P.sigflags():
                reset.add(i.d["p"][1])
    hflags = {}
    for h in hs:
        hflags[h] = {i.d["p"][1] for i in P.fns[h].instrs() if i.op == "store" and i.d["p"][0] == "g"} if h in P.fns else set()
    mut = p26.mutators(P)
    sigint = set()
    for n in ("sigaction", "signal"):
        for i in P.callers.get(n, ()):
            if i.args[0] == ("c", 2):
                sigint |= {j.d["v"][1] for j in i.F.instrs() if j.op == "store" and j.d["v"][0] == "f" and j.d["v"][1] in hs}
                if n == "signal" and i.args[1][0] == "f":
                    sigint.add(i.args[1][1])
    S = {}
    tot = {}
    for c, kind in sorted(COMMANDS.items()):
        need(P, c)
        fl = {g for h in sigint for g in hflags.get(h, ()) if P.globals[g].tu == P.fns[c].tu}
        for g in sorted(fl & reset):
            R.v(P.fns[c], "flag-reset", "the interrupt flag of %s is cleared again, so an interrupt can be lost" % c, ("reset", c))
        if not fl:
            R.v(P.fns[c], "no-handler", "%s installs no interrupt handler: an interrupt kills it in the middle of a change" % c, ("handler", c))
            continue
        inst = flow.reach(P, [c])
        if "sigaction" not in inst and "signal" not in inst:
            R.v(P.fns[c], "no-handler", "%s installs no interrupt handler" % c, ("handler", c))
        r = Intr(P, fl, kind, mut)
        E = Engine(r, P)
        E.run(c)
        R.add(E)
        S[c] = stats(E)
        for k in ("flag tests", "work", "arrival points"):
            if not r.seen.get(k):
                raise Broken("no %s in %s" % (k, c))
        tot[c] = {k: len(v) for k, v in r.seen.items()}
    R.cov = dict(handlers=sorted(hs), handler_functions=nh, commands=tot, analysis=S)
    R.explain = "Signal handlers and everything they call are scanned for calls that are not async-signal-safe and for flags of the wrong type; each interruptible command is explored with the signal arriving at any message boundary or not at all."
    return R
