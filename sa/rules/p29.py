"""Hooks and other programs: how they are started, when they run, and what their failure means."""
from ..common import *
from .. import flow, ir
from . import p26

NEG1 = ("c", -1)
RUN = "notmuch_run_hook"
EXECS = "execl execlp execle execv execvp execve execvpe posix_spawn posix_spawnp fexecve".split()
SHELLS = "system popen g_spawn_command_line_sync g_spawn_command_line_async g_spawn_sync g_spawn_async wordexp".split()
FORKS = "fork vfork clone _Fork daemon".split()
MAY = {
    ("notmuch_run_hook", "fork"): "runs a hook", ("notmuch_run_hook", "execl"): "the hook itself",
    ("exec_man", "execlp"): "shows a manual page",
    ("try_external_command", "execvp"): "notmuch-<command> found in the search path",
}
PATHS = {"execlp": ("s",)}


class Child(Rule):
    """ps: "parent", "child", "failed-exec" ; plus what is known of the hook's fate"""

    def __init__(self, P):
        self.P = P
        self.n = 0
        self.seen = {}
        self.interesting_set = {RUN} | {n for n in closure_callers(P, EXECS + FORKS + ["waitpid", "access"]) if not P.fns[n].tu.startswith(("lib/", "util/"))}

    def init(self, f):
        return ("none", "none")

    def on_call(self, E, st, i, name, args):
        proc, fate = st.ps
        if name in FORKS:
            self.seen.setdefault("fork", set()).add(ir.loc(i))
            if fate == "none":
                E.violate(i, "blind", "the hook is started without checking that it can be run", st, key=("blind",))
            if "flushed" not in fate:
                E.violate(i, "flush", "output is still buffered when the process forks, so it can be printed twice", st, key=("flush",))
            return [Outcome("ret", ("child", fate), ("c", 0)), Outcome("ret", ("parent", "unforked"), NEG1), Outcome("ret", ("parent", "running"), None, (1, 1 << 30, frozenset()))]
        if name in EXECS:
            self.seen.setdefault("exec", set()).add(ir.loc(i))
            if proc != "child":
                E.violate(i, "exec-parent", "the process replaces itself instead of a child", st, key=("exec-parent",))
            return [Outcome("ret", ("child", "exec-failed"), NEG1)]
        if name == "fflush":
            return [Outcome("ret", (proc, fate + "+flushed" if "flushed" not in fate else fate))]
        if name == "access":
            return [Outcome("ret", (proc, "present"), ("c", 0)), Outcome("ret", (proc, "absent"), NEG1)]
        if name == "setenv":
            return [Outcome("ret", st.ps, ("c", 0)), Outcome("ret", (proc, "unset"), NEG1)]
        if name == "waitpid":
            self.seen.setdefault("wait", set()).add(ir.loc(i))
            if proc == "child":
                E.violate(i, "wait-child", "the child waits for itself", st, key=("wait-child",))
            a = args[1]
            key = (a[1], a[2]) if a[0] == "p" else None
            if key is None:
                return None
            out = [Outcome("ret", (proc, "lost"), NEG1)]
            # exited with 0, exited with 1 and 255, killed by signal 9, killed with a core dump
            for v, w in ((0, "ok"), (0x100, "bad"), (0xff00, "bad"), (9, "bad"), (0x8b, "bad")):
                out.append(Outcome("ret", (proc, w), None, (1, 1 << 30, frozenset()), outs=((key, (("c", v), None)),)))
            return out
        return None

    def on_noreturn(self, E, st, i, name, args):
        if st.ps[0] == "child":
            self.seen.setdefault("child exit", set()).add(ir.loc(i))

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root:
            return
        self.n += 1
        proc, fate = st.ps
        if proc == "child":
            E.violate(f, "child-returns", "the child process can return into the program that started it", st, key=("child-returns",))
        z = None if rv is None else E.isnull(st, rv)
        fate = fate.split("+")[0]
        if kind == "ret" and z is not False and fate in ("bad", "lost", "unforked", "running", "unset"):
            E.violate(f, "hook-status", "success is reported although the hook %s" % {"bad": "failed or was killed", "lost": "could not be waited for", "unforked": "could not be started", "running": "was not waited for", "unset": "could not be told its configuration"}[fate], st, key=("hook-status", fate))
        if kind == "ret" and z is not True and fate == "ok":
            E.violate(f, "hook-status", "failure is reported although the hook succeeded", st, key=("hook-status", "ok"))


class When(p26.Cli):
    """when hooks run: ps is (database state, phase, failed call)"""

    def __init__(self, P, cands, hooks):
        p26.Cli.__init__(self, P, cands)
        self.assume_options = {"keep": 0, "hooks": hooks}
        self.hooks = hooks
        self.hookargs = {}
        self.mut = p26.mutators(P)
        self.interesting_set = self.interesting_set | {n for n in closure_callers(P, [RUN]) if not P.fns[n].tu.startswith("lib/")}
        self.interesting_set.discard(RUN)
        self.writes = False

    def init(self, f):
        return ("rw", "start", None)

    def on_call(self, E, st, i, name, args):
        db, ph, bad = st.ps
        cmd = E.stack[0].name
        if name == RUN:
            a = args[1]
            h = a[1][1] if a[0] == "p" and a[1][0] == "S" else "?"
            self.hookargs.setdefault(cmd, {}).setdefault(h, ir.loc(i))
            if not self.hooks:
                E.violate(i, "no-hooks", "the %s hook runs although hooks were turned off" % h, st, key=("no-hooks", cmd, h))
            if db == "rw":
                E.violate(i, "locked", "the %s hook runs while the database is held open for writing" % h, st, key=("locked", cmd, h))
            pre = h.startswith("pre-")
            if pre and ph != "start":
                E.violate(i, "order", "the %s hook runs after the work has started" % h, st, key=("order", cmd, h))
            if not pre and bad is not None:
                E.violate(i, "after-failure", "the %s hook runs although %s failed" % (h, bad[0]), st, key=("after-failure", cmd, h, bad[0]))
            if not pre and ph == "ran":
                E.violate(i, "twice", "the %s hook can run twice" % h, st, key=("twice", cmd, h))
            return [Outcome("ret", (db, "pre-ok" if pre else "ran", bad), ("c", 0)), Outcome("ret", (db, "pre-failed" if pre else "ran", bad), ("c", 1))]
        if name not in self.cands:
            return None
        if ph == "pre-failed" and name in self.mut:
            E.violate(i, "pre-failed", "%s is reached although the hook that runs first failed" % name, st, key=("pre-failed", cmd, name))
        if name == "notmuch_database_reopen":
            m = args[1][1] if args[1][0] == "c" else None
            if m is None:
                raise Broken("reopen mode in %s is not a constant" % i.F.name)
            out = [Outcome("ret", ("ro" if m == 0 else "rw", ph, bad), ("c", 0))]
            if bad is None:
                out.append(Outcome("ret", ("closed", ph, (name, i.F.name, i.id)), ("c", p26.XE)))
            return out
        if name in ("notmuch_database_close", "notmuch_database_destroy"):
            out = [Outcome("ret", ("closed", ph, bad), ("c", 0))]
            if name == "notmuch_database_close" and bad is None and db == "rw":
                out.append(Outcome("ret", ("closed", ph, (name, i.F.name, i.id)), ("c", p26.XE)))
            return out
        if name in self.mut and ph == "start":
            ph = "work"
        if bad is not None:
            if bad == (name, i.F.name, i.id):
                return [Outcome("ret", (db, ph, bad), ("c", p26.XE))]
            return [Outcome("ret", (db, ph, bad), o.ret, o.fact) for o in E.generic(i.F, st, i, name, self.P.fns[name], args) if o.kind == "ret"]
        g = self.P.fns[name]
        base = [Outcome("ret", (db, ph, bad), o.ret, o.fact, o.outs, argfacts=o.argfacts) for o in E.generic(i.F, st, i, name, g, args) if o.kind == "ret"]
        for o in owners(self.P, i.F.name):
            if (cmd, name) in p26.EXCEPT or (o, name) in p26.EXCEPT:
                return base
        self.sites.add((i.F.name, i.id))
        return base + [Outcome("ret", (db, ph, (name, i.F.name, i.id)), ("c", p26.XE))]

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and rv is not None:
            if st.ps[1] == "pre-failed" and E.isnull(st, rv) is not False:
                E.violate(f, "pre-failed", "%s can report success although the hook that runs first failed" % f.name, st, key=("pre-failed", f.name, "exit"))


def run(P, tier):
    R = Result()
    need(P, RUN)
    # who starts programs, and which
    n = 0
    have = {base_name(f) for f in P.fns.values()}
    gone = {k[1] for k in MAY if k[0] not in have}
    for name in EXECS + SHELLS + FORKS:
        for i in P.callers.get(name, ()):
            n += 1
            for o in owners(P, i.F.name):
                if (o, name) not in MAY and name not in gone:
                    R.v(i, "program", "%s starts a program with %s, which is not one of its jobs" % (o, name), ("program", o, name))
                if o == RUN and name in EXECS:
                    org = flow.origins(P, i.F, i.args[0])
                    if not any(x[0] == "call" and x[1] == "notmuch_config_get" for x in org):
                        R.v(i, "hook-path", "the program run as a hook is not looked up in the configured hook directory", ("hook-path",))
    if n < 3:
        raise Broken("only %d places that start programs" % n)
    ch = Child(P)
    E = Engine(ch, P)
    E.run(RUN)
    R.add(E)
    for w in ("fork", "exec", "wait"):
        if not ch.seen.get(w):
            raise Broken("no %s found in %s" % (w, RUN))
    cands = {f.name for f in P.public() if f.dtypes and f.dtypes[0] == "notmuch_status_t"}
    users = [c for c in commands(P) if c in closure_callers(P, [RUN])]
    hk = {}
    S = {}
    for c in users:
        for hooks in (1, 0):
            r = When(P, cands, hooks)
            E = Engine(r, P)
            E.run(c)
            R.add(E)
            if hooks:
                hk.update(r.hookargs)
                S[c] = stats(E)
    want = {"notmuch_new_command": {"pre-new", "post-new"}, "notmuch_insert_command": {"post-insert"}}
    for c, hs in want.items():
        got = set(hk.get(c, ()))
        for h in sorted(hs - got):
            R.v(P.fns[c] if c in P.fns else c, "missing", "%s never runs its %s hook" % (c, h), ("missing", c, h))
        for h in sorted(got - hs):
            R.v(P.fns[c], "unknown", "%s runs an undocumented hook %s" % (c, h), ("unknown", c, h))
    R.cov = dict(program_starts=n, hook_exits=ch.n, hooks=hk, analysis=S)
    R.explain = "Call sites that start programs are attributed to their operations; the process that runs a hook is followed through fork, exec and wait on all paths; every command that runs hooks is explored with hooks on and off and with every library call made to fail once."
    return R
