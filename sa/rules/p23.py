"""new: nothing is taken as scanned or removed on the strength of an incomplete or later scan."""
from ..common import *
from .. import flow, ir
from . import p26

NEG1 = ("c", -1)
CMD = "notmuch_new_command"
ADD = {"notmuch_database_index_file"}
REMOVE = {"notmuch_database_remove_message"}
MTIME = {"notmuch_directory_set_mtime"}
DELDIR = {"notmuch_directory_delete"}
T = ("y", ("pm", "mtime"))
STATS = {"stat", "lstat", "fstatat", "fstat", "stat64", "statx"}
GUESS = {"_entries_resemble_maildir"}      # only guesses at the kind of folder: its failures repeat in the scan itself


class Order(p26.Cli):
    """ps: (phase, failed call): additions, then removals, then directories, then modification times"""

    def __init__(self, P, cands):
        p26.Cli.__init__(self, P, cands)
        self.assume_options = {"hooks": 0}
        self.mut = p26.mutators(P)
        self.interesting_set = self.interesting_set | {n for n in closure_callers(P, ["scandir"]) if not P.fns[n].tu.startswith("lib/")}
        self.seen = {}
        self.adders = closure_callers(P, ADD)
        rec = {x for x in closure_callers(P, ["scandir"]) if any(c.callee in self.adders for c in P.fns[x].calls())}
        self.adders |= {i.F.name for i in P.callers.get("scandir", ()) if owners(P, i.F.name) & {base_name(P.fns[x]) for x in rec & self.adders}}
        self.oom = P.enumval("NOTMUCH_STATUS_OUT_OF_MEMORY")

    def init(self, f):
        return ("add", None)

    def on_call(self, E, st, i, name, args):
        ph, bad = st.ps
        if name == "scandir":
            if i.F.name not in self.adders:
                return None             # a count of what there is to do
            self.seen.setdefault("scan", set()).add(ir.loc(i))
            if bad is not None:
                return None
            return [Outcome("ret", (ph, None), None, (0, 1 << 30, frozenset())), Outcome("ret", (ph, (name, i.F.name, i.id)), NEG1)]
        if name in ADD or name in REMOVE or name in MTIME or name in DELDIR:
            k = "add" if name in ADD else "remove" if name in REMOVE else "mtime" if name in MTIME else "directory"
            self.seen.setdefault(k, set()).add(ir.loc(i))
            if k == "add" and ph != "add":
                E.violate(i, "order", "a file can be added after a removal: a renamed message may already have lost its tags", st, key=("order", "add", ph))
            if k in ("remove", "directory") and ph == "mtime":
                E.violate(i, "order", "something is removed after a directory was recorded as scanned", st, key=("order", "remove"))
            if bad is not None:
                what = {"mtime": "a directory is recorded as scanned", "remove": "files are removed from the index", "directory": "a directory is removed from the index", "add": "files are added"}[k]
                if not (k == "add") and not (name == bad[0]):
                    E.violate(i, "after-failure", "%s although %s failed: what was missed is never looked at again" % (what, bad[0]), st, key=("after-failure", k, bad[0], base_name(self.P.fns[bad[1]])))
            if k in ("remove", "directory") and ph == "add":
                ph = "remove"
            if k == "mtime":
                ph = "mtime"
        if name not in self.cands:
            return None
        g = self.P.fns[name]
        if bad is not None:
            if bad[:3] == (name, i.F.name, i.id):
                return [Outcome("ret", (ph, bad), ("c", bad[3]))]
            return [Outcome("ret", (ph, bad), o.ret, o.fact, o.outs, argfacts=o.argfacts) for o in E.generic(i.F, st, i, name, g, args) if o.kind == "ret"]
        base = [Outcome("ret", (ph, None), o.ret, o.fact, o.outs, argfacts=o.argfacts) for o in E.generic(i.F, st, i, name, g, args) if o.kind == "ret"]
        if name in MTIME or (name == "notmuch_database_get_directory" and ph != "add"):
            return base           # recording times is best effort: without it the directory is scanned again
        self.sites.add((i.F.name, i.id))
        return base + [Outcome("ret", (ph, (name, i.F.name, i.id, x)), ("c", x)) for x in ((p26.XE, self.oom) if name in ADD else (p26.XE,))]

    def on_exit(self, E, st, f, kind, rv, i, root):
        pass


class Scan(Rule):
    """one directory scan: ps (phase, the index knows the directory, its known files were asked for). mode: which assumption is being explored"""
    wants_load = True
    wants_store = True

    def __init__(self, P, root, mode):
        self.P = P
        self.root = root
        self.mode = mode
        n = next((n for n in P.structs if "filename_node" in n), None)
        if n is None:
            raise Broken("list node not found")
        fo = {x: o for o, x, t, s in P.structs[n]["fields"]}
        self.node = ("%struct." + n, fo["mtime"])
        fo = {x: o for o, x, t, s in P.structs["add_files_state_t"]["fields"]}
        self.full = ("%struct.add_files_state_t", fo["full_scan"])
        self.scanners = closure_callers(P, ["scandir"])
        self.sig = P.sigflags()
        self.interesting_set = {x for x in self.scanners | closure_callers(P, ["stat", "notmuch_directory_get_mtime", "notmuch_directory_get_child_files"]) if not P.fns[x].tu.startswith("lib/")}
        self.seen = {}
        self.must = mode in ("full", "changed", "older")

    def init(self, f):
        return ("start", 0, 0)

    def ps_in(self, E, st, i, g, args, amap):
        if g.name in self.scanners and st.ps[0] != "start":
            return ("start", 0, 0), st.ps
        if base_name(g) in GUESS:
            return ("guess", 0, 0), st.ps
        return st.ps, None

    def ps_out(self, E, st, i, g, o, ctx, m):
        return ctx if ctx is not None else o.ps

    def on_load(self, E, st, i, av, key):
        p = i.d["p"]
        if p[0] == "g" and p[1] in self.sig and self.must:
            return ("c", 0)           # nothing interrupts the scan
        if key == ("%struct.timespec", 0) and i.F.byid[p[1]].d["p"][0] == "v" and self.P.gepkey(i.F, i.F.byid[p[1]].d["p"]) == ("%struct.stat", 88):
            self.seen.setdefault("mtime read", set()).add(ir.loc(i))
            if st.ps[0] == "scanned" and i.F.name in self.scanners:
                return ("y", ("pm", "late"))
            st.facts[T[1]] = (1, 1 << 40, frozenset())
            return T
        if key == self.full and self.mode == "full":
            self.seen.setdefault("full-scan test", set()).add(ir.loc(i))
            return ("c", 1)
        return None

    def on_store(self, E, st, i, addr, val, key):
        if key == self.node:
            ph, d, c = st.ps
            self.seen.setdefault("record", set()).add(ir.loc(i))
            if ph not in ("scanned", "bad"):
                E.violate(i, "unscanned", "a directory is recorded as scanned before it was read", st, key=("unscanned",))
            if ph == "bad":
                E.violate(i, "bad-entry", "a directory with an entry that could not be examined is recorded as scanned", st, key=("bad-entry", "record"))
            elif val != T:
                E.violate(i, "late-mtime", "the time recorded for a directory was not taken from it before it was read, so later deliveries can be overlooked", st, key=("late-mtime",))
            if self.mode == "now":
                E.violate(i, "same-second", "a directory that changed in the current second is recorded as scanned: a delivery later in that second is overlooked", st, key=("same-second",))
            if self.must and d and not c:
                E.violate(i, "not-compared", "a directory is recorded as scanned without comparing it with the files the index knows there", st, key=("not-compared", self.mode))
            if ph == "scanned":
                st.ps = ("recorded", d, c)

    def on_call(self, E, st, i, name, args):
        ph, d, c = st.ps
        if name == "scandir":
            self.seen.setdefault("scan", set()).add(ir.loc(i))
            return [Outcome("ret", ("scanned", d, c), None, (0, 1 << 30, frozenset())), Outcome("ret", ("scan-failed", d, c), NEG1)]
        if name in STATS and self.mode == "entry" and ph in ("scanned", "bad"):
            self.seen.setdefault("entry test", set()).add(ir.loc(i))
            return [Outcome("ret", ("bad", d, c), NEG1)]
        if name == "time" and self.mode == "now":
            self.seen.setdefault("clock", set()).add(ir.loc(i))
            return [Outcome("ret", st.ps, T)]
        if name == "time" and self.must:
            return [Outcome("ret", st.ps, ("c", 1 << 41))]
        if name == "notmuch_directory_get_child_files":
            return [Outcome("ret", (ph, d, 1))]
        if name == "notmuch_directory_get_mtime":
            self.seen.setdefault("recorded mtime", set()).add(ir.loc(i))
            v = {"changed": ("c", 0), "older": ("c", 1 << 50)}.get(self.mode)
            return [Outcome("ret", (ph, 1, c), v)]
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if f.name != self.root or kind != "ret" or rv is None:
            return
        z = E.isnull(st, rv)
        ph, d, c = st.ps
        if z is False:
            return
        why = "a full scan was asked for" if self.mode == "full" else "its modification time differs from the one recorded"
        if ph == "start" and self.must:
            E.violate(f, "skipped", "a directory can be skipped without being read although %s" % why, st, key=("skipped", self.mode))
        if ph == "scanned" and self.must:
            E.violate(f, "skipped", "the files of a directory can be skipped although %s" % why, st, key=("skipped-files", self.mode))
        if ph == "bad":
            E.violate(f, "bad-entry", "a directory with an entry that could not be examined counts as scanned", st, key=("bad-entry", "exit"))
        if ph == "scan-failed":
            E.violate(f, "unreadable", "a directory that could not be read counts as scanned", st, key=("unreadable",))


def run(P, tier):
    R = Result()
    need(P, CMD)
    cands = {f.name for f in P.public() if f.dtypes and f.dtypes[0] == "notmuch_status_t"}
    r = Order(P, cands)
    E = Engine(r, P)
    E.run(CMD)
    R.add(E)
    for k in ("scan", "add", "remove", "mtime", "directory"):
        if not r.seen.get(k):
            raise Broken("no %s event in %s" % (k, CMD))
    S = {"order": stats(E)}
    idx = closure_callers(P, ADD)
    roots = sorted({i.F.name for i in P.callers.get("scandir", ()) if i.F.name in idx})
    if not roots:
        roots = [n for n in sorted(closure_callers(P, ["scandir"]) & idx) if any(i.callee == n for i in P.fns[n].calls())]
    if len(roots) != 1:
        raise Broken("directory scan function not found: %s" % roots)
    seen = {}
    for mode in ("now", "full", "changed", "older", "entry"):
        s = Scan(P, roots[0], mode)
        E = Engine(s, P)
        s.argfacts = lambda f: {}
        E.run(roots[0])
        R.add(E)
        for k, v in s.seen.items():
            seen.setdefault(k, set()).update(v)
        S[mode] = stats(E)
    for k in ("mtime read", "record", "scan", "clock", "recorded mtime", "full-scan test", "entry test"):
        if not seen.get(k):
            raise Broken("no %s found in the directory scan" % k)
    R.cov = dict(failure_points=len(r.sites), order_events={k: len(v) for k, v in r.seen.items()}, scan_function=roots, scan_events={k: len(v) for k, v in seen.items()}, analysis=S)
    R.explain = "The command is explored with every library call and every directory read made to fail once, over the phase its work has reached; the directory scan is explored under the assumptions that a full scan was asked for, that the directory changed, and that it changed in the current second."
    return R
