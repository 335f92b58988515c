"""Typestate of the message file that insert delivers."""
from ..common import *

O_CREAT, O_EXCL, O_TRUNC = 0o100, 0o200, 0o1000
NEG1 = ("c", -1)
CMD = "notmuch_insert_command"
INDEX = "notmuch_database_index_file"
PRIMS = ("open", "open64", "write", "read", "fsync", "fdatasync", "rename", "link", "unlink", "mkdir", "mkstemp", "mkostemp", "unlinkat", "remove")


def sym(av):
    return av if av[0] == "y" else None


class Delivery(SymRule):
    """ps: (stage, path, fd, flags) for the file being delivered.
    stage: none > dirty > synced > placed > durable; werr: a write failed; gone: removed again
    flags: eof, got, pend (data read but not written), rerr, idx-ok, idx-dup, idx-fail"""

    def __init__(self, P, keep):
        self.P = P
        self.assume_options = {"keep": keep, "world-readable": 0}
        self.keep = keep
        self.interesting_set = {n for n in closure_callers(P, list(PRIMS) + [INDEX]) if not P.fns[n].tu.startswith(("lib/", "util/"))}
        self.seen = {}
        self.exits = 0

    def init(self, f):
        return ("none", None, None, frozenset())

    def ev(self, i, what):
        self.seen.setdefault(what, set()).add(ir.loc(i))

    def on_call(self, E, st, i, name, args):
        if name is None or (name not in PRIMS and name != INDEX):
            return None
        stage, path, fd, fl = st.ps
        if name in ("mkstemp", "mkostemp"):
            self.ev(i, "create")
            return [Outcome("ret", ("dirty", sym(args[0]), ("y", ("r", i.id)), frozenset()), None, (0, 1 << 30, frozenset())), Outcome("ret", st.ps, NEG1)]
        if name in ("open", "open64"):
            flags = args[1][1] if args[1][0] == "c" else None
            if flags is not None and not flags & O_CREAT:
                return [Outcome("ret", st.ps, None, (0, 1 << 30, frozenset())), Outcome("ret", st.ps, NEG1)]
            self.ev(i, "create")
            if flags is None or not flags & O_EXCL:
                E.violate(i, "exclusive", "the delivered file is created without refusing an existing one", st, key=("exclusive", CMD))
            if len(args) > 2 and not (args[2][0] == "c" and args[2][1] & 0o077 == 0):
                E.violate(i, "private", "the delivered file is created readable by others although that was not requested", st, key=("private", "file"))
            # a loop that tries another name re-uses the same symbols
            return [Outcome("ret", ("dirty", sym(args[0]), ("y", ("r", i.id)), frozenset()), None, (0, 1 << 30, frozenset())), Outcome("ret", st.ps, NEG1)]
        if name == "mkdir":
            if not (args[1][0] == "c" and args[1][1] & 0o077 == 0):
                E.violate(i, "private", "a mail folder is created accessible to others although that was not requested", st, key=("private", "folder"))
            return [Outcome("ret", st.ps, ("c", 0)), Outcome("ret", st.ps, NEG1)]
        if name == "write":
            if args[0][0] == "c":           # a message on the terminal
                return None
            self.ev(i, "write")
            some = ((2, (1, engine.INF, frozenset())),)
            ok = "dirty" if stage in ("dirty", "synced", "werr") else stage
            if stage in ("placed", "durable"):
                E.violate(i, "late-write", "the delivered file is written after it was moved into place", st, key=("late-write", CMD))
            return [Outcome("ret", (ok, path, fd, fl - {"pend"}), None, (1, 1 << 40, frozenset()), argfacts=some),
                    Outcome("ret", ("werr", path, fd, fl) if stage in ("dirty", "synced", "werr") else st.ps, NEG1, argfacts=some),
                    Outcome("ret", ("werr", path, fd, fl) if stage in ("dirty", "synced", "werr") else st.ps, ("c", 0))]
        if name == "read":
            self.ev(i, "read")
            if stage in ("none", "gone"):
                return None
            if "pend" in fl and stage != "none":
                E.violate(i, "dropped", "data read from the input is not written before more is read", st, key=("dropped", CMD))
            b = fl - {"rerr", "eof", "pend"}
            return [Outcome("ret", (stage, path, fd, b | {"got", "pend"}), None, (1, 1 << 40, frozenset())),
                    Outcome("ret", (stage, path, fd, b | {"eof"}), ("c", 0)),
                    Outcome("ret", (stage, path, fd, b | {"rerr"}), NEG1)]
        if name in ("fsync", "fdatasync"):
            self.ev(i, "fsync")
            mine = fd is not None and args[0] == fd
            bad = Outcome("ret", st.ps, NEG1)
            if mine:
                return [Outcome("ret", ("synced" if stage == "dirty" else stage, path, fd, fl), ("c", 0)), bad]
            return [Outcome("ret", ("durable" if stage == "placed" else stage, path, fd, fl), ("c", 0)), bad]
        if name in ("rename", "link"):
            if path is None or args[0] != path:
                return None
            self.ev(i, "place")
            if stage != "synced":
                E.violate(i, "place-before-sync", "the file is moved into place %s" % ("after a write to it failed" if stage == "werr" else "before its contents reached the disk"), st, key=("place-before-sync", CMD))
            if "eof" not in fl or "rerr" in fl:
                E.violate(i, "incomplete", "the file can be moved into place although the input was not read to its end", st, key=("incomplete", CMD))
            if "got" not in fl:
                E.violate(i, "empty", "an empty message can be delivered", st, key=("empty", CMD))
            return [Outcome("ret", ("placed", sym(args[1]), fd, fl), ("c", 0)), Outcome("ret", st.ps, NEG1)]
        if name in ("unlink", "remove", "unlinkat"):
            self.ev(i, "unlink")
            a = args[1] if name == "unlinkat" else args[0]
            if path is not None and a == path:
                if self.keep and stage == "durable" and fl & {"idx-ok", "idx-dup", "idx-fail"}:
                    E.violate(i, "keep", "a delivered message is removed although it was to be kept", st, key=("keep", CMD))
                ns = ("gone", None, None, frozenset())
                return [Outcome("ret", ns, ("c", 0)), Outcome("ret", ns, NEG1)]
            if path is not None:
                E.violate(i, "other-file", "a file other than the one being delivered is removed", st, key=("other-file", CMD))
            return None
        if name == INDEX:
            self.ev(i, "index")
            if stage != "durable":
                E.violate(i, "index-before-durable", "the message is indexed before its delivery was made durable", st, key=("index-before-durable", CMD))
            if path is None or args[1] != path:
                E.violate(i, "index-other", "the file that is indexed is not the one that was delivered", st, key=("index-other", CMD))
            d = self.P.enumval("NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID")
            return [Outcome("ret", (stage, path, fd, fl | {"idx-ok"}), ("c", 0)), Outcome("ret", (stage, path, fd, fl | {"idx-dup"}), ("c", d)),
                    Outcome("ret", (stage, path, fd, fl | {"idx-fail"}), ("c", 3))]

    def left(self, E, i, st, how):
        stage, path, fd, fl = st.ps
        if stage not in ("none", "gone"):
            E.violate(i, "left-behind", "insert can end with failure (%s) and leave the %s file behind" % (how, "delivered" if stage in ("placed", "durable") else "temporary"), st,
                      key=("left-behind", "delivered" if stage in ("placed", "durable") else "temporary"))

    def on_noreturn(self, E, st, i, name, args):
        if name in ("exit", "_exit"):
            self.left(E, i, st, "exit")

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root or kind != "ret":
            return
        self.exits += 1
        stage, path, fd, fl = st.ps
        z = E.isnull(st, rv)
        if z is not False:
            if stage != "durable":
                E.violate(f, "success-undelivered", "insert can report success without a durably delivered file (stage %s)" % stage, st, key=("success-undelivered", stage))
            elif not fl & {"idx-ok", "idx-dup", "idx-fail"} or (not self.keep and "idx-fail" in fl):
                E.violate(f, "success-unindexed", "insert can report success although the message was not indexed", st, key=("success-unindexed", CMD))
        if z is not True:
            if not self.keep or not fl & {"idx-ok", "idx-dup", "idx-fail"}:
                self.left(E, f, st, "status")
            elif stage == "durable":
                E.violate(f, "keep-status", "insert can report failure although the message was delivered and was to be kept", st, key=("keep-status", CMD))


ORDER = ("exclusive", "late-write", "dropped", "place-before-sync", "incomplete", "empty", "index-before-durable", "index-other", "success-undelivered", "success-unindexed")
CLEAN = ("left-behind", "other-file", "keep", "keep-status", "private")


def analyse(P, which):
    need(P, CMD, INDEX)
    R = Result()
    cov = {}
    for keep in (0, 1):
        r = Delivery(P, keep)
        E = Engine(r, P)
        E.K = 40
        E.run(CMD)
        R.violations += [v for v in E.violations.values() if v["rule"] in which]
        for w in ("create", "write", "read", "unlink", "index"):
            if not r.seen.get(w):
                raise Broken("delivery step %s not found" % w)
        cov["keep=%d" % keep] = dict(exits=r.exits, events={k: sorted(v) for k, v in r.seen.items()}, analysis=stats(E))
    R.cov = dict(runs=cov, rules=list(which))
    R.explain = "Typestate of the delivered file over every path of the insert command, with every system call on it succeeding or failing, with and without --keep."
    return R
