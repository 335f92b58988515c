"""dump: a complete file or no file."""
from ..common import *

NEG1 = ("c", -1)
ROOT = "notmuch_database_dump"
WRITE = {"gzprintf": 0, "gzputs": 0, "gzwrite": 0, "gzputc": 0, "gzvprintf": 0, "gzfwrite": 3}
PRIMS = {"mkstemp", "mkostemp", "open", "open64", "dup", "gzdopen", "gzopen", "gzflush", "gzclose", "gzclose_w", "fsync", "fdatasync", "rename", "unlink", "remove", "link", "fopen", "close"} | set(WRITE)
XE = 3


class Dump(SymRule):
    """ps: (temporary path, its descriptor, stream, flags, the call that was made to fail)
    flags: written, flushed, synced, closed, placed, removed"""

    def __init__(self, P, cands, to_file):
        self.P = P
        self.cands = cands
        self.to_file = to_file
        self.interesting_set = {n for n in closure_callers(P, list(PRIMS) + list(cands)) if not P.fns[n].tu.startswith(("lib/", "util/"))}
        self.seen = {}
        self.exits = 0

    def init(self, f):
        return (None, None, None, frozenset(), None)

    def ev(self, i, w):
        self.seen.setdefault(w, set()).add(ir.loc(i))

    def on_call(self, E, st, i, name, args):
        tmp, fd, gz, fl, bad = st.ps
        if name in self.cands:
            if bad is not None:
                if bad == (name, i.F.name, i.id):
                    return [Outcome("ret", st.ps, ("c", self.cands[name]))]
                return None
            self.ev(i, "fallible")
            base = [o for o in E.generic(i.F, st, i, name, self.P.fns[name], args) if o.kind == "ret"]
            return base + [Outcome("ret", (tmp, fd, gz, fl, (name, i.F.name, i.id)), ("c", self.cands[name]))]
        if name not in PRIMS:
            return None

        def fails(what, ret=NEG1):
            return Outcome("ret", (tmp, fd, gz, fl, bad or (what, i.F.name, i.id)), ret)
        if name in ("mkstemp", "mkostemp"):
            self.ev(i, "create")
            if not self.to_file:
                E.violate(i, "stdout", "a temporary file is created although the output goes to standard output", st, key=("stdout", "mkstemp"))
            return [Outcome("ret", (args[0], ("y", ("r", i.id)), None, fl - {"placed"}, bad), None, (0, 1 << 30, frozenset())), fails(name)]
        if name in ("open", "open64", "fopen", "gzopen"):
            E.violate(i, "direct", "the dump opens a file other than its temporary one", st, key=("direct", name))
            return None
        if name == "dup":
            return [Outcome("ret", (tmp, ("y", ("r", i.id)), None, fl, bad), None, (0, 1 << 30, frozenset())), fails(name)]
        if name == "gzdopen":
            self.ev(i, "stream")
            if fd is None or args[0] != fd:
                E.violate(i, "direct", "the dump is written to a descriptor that is not its output", st, key=("direct", "fd"))
            return [Outcome("ret", (tmp, fd, ("y", ("r", i.id)), fl, bad), None, NONNULL), fails(name, ("c", 0))]
        if name in WRITE:
            self.ev(i, "write")
            if fl & {"flushed", "closed"}:
                E.violate(i, "late-write", "the dump is written to after it was flushed or closed", st, key=("late-write",))
            # a failed write is remembered by zlib and reported by the flush
            return [Outcome("ret", (tmp, fd, gz, fl | {"written"}, bad))]
        if name == "gzflush":
            self.ev(i, "flush")
            return [Outcome("ret", (tmp, fd, gz, fl | {"flushed"}, bad), ("c", 0)), fails(name)]
        if name in ("fsync", "fdatasync"):
            self.ev(i, "sync")
            if "flushed" not in fl and "closed" not in fl:
                E.violate(i, "sync-order", "the file is synced before the stream was flushed", st, key=("sync-order",))
            if fd is None or args[0] != fd:
                return [Outcome("ret", st.ps, ("c", 0)), fails(name)]
            return [Outcome("ret", (tmp, fd, gz, fl | {"synced"}, bad), ("c", 0)), fails(name)]
        if name in ("gzclose", "gzclose_w"):
            self.ev(i, "close")
            return [Outcome("ret", (tmp, fd, gz, fl | {"closed"}, bad), ("c", 0)), Outcome("ret", (tmp, fd, gz, fl | {"closed"}, bad or (name, i.F.name, i.id)), NEG1)]
        if name == "close":
            return None
        if name in ("rename", "link"):
            self.ev(i, "place")
            if tmp is None or args[0] != tmp:
                E.violate(i, "source", "a file other than the temporary one is moved into place", st, key=("source",))
            if bad is not None:
                E.violate(i, "incomplete", "the dump is moved into place although %s failed" % bad[0], st, key=("incomplete", bad[0], base_name(self.P.fns[bad[1]])))
            for x, w in (("flushed", "flushed"), ("synced", "synced to disk"), ("closed", "closed")):
                if x not in fl:
                    E.violate(i, "place-early", "the dump is moved into place before it was %s" % w, st, key=("place-early", x))
            if args[1] != ("y", ("P", 1)):
                E.violate(i, "target", "the dump is moved to a path other than the one asked for", st, key=("target",))
            return [Outcome("ret", (tmp, fd, gz, fl | {"placed"}, bad), ("c", 0)), fails(name)]
        if name in ("unlink", "remove"):
            self.ev(i, "remove")
            if args[0] != tmp and not (bad and bad[0] in ("mkstemp", "mkostemp")):
                E.violate(i, "other-file", "a file other than the temporary one is removed", st, key=("other-file",))
            return [Outcome("ret", (tmp, fd, gz, fl | {"removed"}, bad), ("c", 0)), Outcome("ret", (tmp, fd, gz, fl | {"removed"}, bad), NEG1)]
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root or kind != "ret":
            return
        self.exits += 1
        tmp, fd, gz, fl, bad = st.ps
        z = None if rv is None else E.isnull(st, rv)
        w = "%s in %s" % (bad[0], base_name(self.P.fns[bad[1]])) if bad else ""
        if z is not False and bad is not None:
            E.violate(f, "exit", "the dump reports success although %s failed" % w, st, key=("exit", bad[0], base_name(self.P.fns[bad[1]])))
        elif z is not False:
            for x in ("flushed", "closed") + (("synced", "placed") if self.to_file else ()):
                if x not in fl:
                    E.violate(f, "exit", "the dump reports success without the output being %s" % x, st, key=("exit", x))
        if z is not True and tmp is not None and "placed" not in fl and "removed" not in fl and bad is not None:
            E.violate(f, "left-over", "a failed dump leaves its temporary file behind (%s failed)" % w, st, key=("left-over", bad[0], base_name(self.P.fns[bad[1]])))
        if "placed" in fl and "removed" in fl and bad is not None and bad[0] != "rename":
            E.violate(f, "removed", "a finished dump is removed again", st, key=("removed",))


def run(P, tier):
    R = Result()
    need(P, ROOT)
    cands = {f.name: XE for f in P.public() if f.dtypes and f.dtypes[0] == "notmuch_status_t"}
    cands.update({f.name: 2 for f in P.fns.values() if f.dtypes and f.dtypes[0] == "hex_status_t" and not f.internal})
    seen = {}
    ex = 0
    S = {}
    for to_file in (1, 0):
        r = Dump(P, cands, to_file)
        E = Engine(r, P)
        f = P.fns[ROOT]
        if len(f.dtypes) < 7 or f.dtypes[2] != "char *" and "char" not in f.dtypes[2]:
            raise Broken("signature of %s changed" % ROOT)
        if to_file:
            r.argfacts = lambda f: {1: NONNULL} if f.name == ROOT else {}
            E.run(ROOT)
        else:
            E.run(ROOT, args={1: ("c", 0)})
        for k, v in r.seen.items():
            seen.setdefault(k, set()).update(v)
        ex += r.exits
        R.add(E)
        S["file" if to_file else "stdout"] = stats(E)
    for k in ("create", "stream", "write", "flush", "sync", "close", "place", "remove", "fallible"):
        if not seen.get(k):
            raise Broken("no %s event found in the dump" % k)
    R.cov = dict(events={k: len(v) for k, v in seen.items()}, exits=ex, analysis=S)
    R.explain = "Typestate of the dump's output (created, written, flushed, synced, closed, moved into place, removed) on every path of the dump, with every system, compression and library call made to fail once."
    return R
