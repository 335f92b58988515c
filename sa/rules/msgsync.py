"""Typestate of message documents: changed in memory > marked modified > stamped > written."""
from ..common import *

MSG = "%struct._notmuch_message"
DB = "%struct._notmuch_database"
ALLF = (1 << 31) - 1


def off(P, s, n):
    for o, name, t, z in P.structs[s.split(".")[1]]["fields"]:
        if name == n:
            return o
    raise Broken("field %s of %s not found" % (n, s))


class Sync(SymRule):
    """ps: frozenset of
    ("d", doc) changed since last written; ("u", doc) changed since last stamped;
    ("m", msg) marked modified; ("f", msg, n) frozen depth; ("rev",) a fresh revision was drawn"""
    wants_load = wants_store = True

    def __init__(self, P, frozen=0, modified=0, without=0):
        self.P = P
        self.frozen, self.modified = frozen, modified
        self.features = ALLF & ~without
        X = "Xapian::Document::"
        self.change = {n for p in ("add_term(", "add_posting(", "add_value(", "remove_term(", "remove_posting(", "remove_value(", "clear_terms(", "clear_values(", "set_data(", "add_boolean_term(") for n in by_dem(P, X + p)}
        self.value = set(by_dem(P, X + "add_value("))
        self.write = set(by_dem(P, "Xapian::WritableDatabase::replace_document("))
        self.delete = set(by_dem(P, "Xapian::WritableDatabase::delete_document("))
        self.docid = off(P, MSG, "doc_id")
        if len(self.change) < 4 or not self.write:
            raise Broken("Xapian document operations not found")
        self.interesting_set = closure_callers(P, self.change | self.write)
        self.doc = off(P, MSG, "doc")
        self.k_mod = (MSG, off(P, MSG, "modified"))
        self.k_fro = (MSG, off(P, MSG, "frozen"))
        self.k_wdb = (DB, off(P, DB, "writable_xapian_db"))
        self.k_rdb = (DB, off(P, DB, "xapian_db"))
        self.k_open = (DB, off(P, DB, "open"))
        self.k_feat = (DB, off(P, DB, "features"))
        self.k_rev = (DB, off(P, DB, "revision"))
        self.k_dirty = (DB, off(P, DB, "atomic_dirty"))
        for f in P.fns.values():       # helpers that only touch the tracked flags matter too
            for i in f.instrs():
                if i.op in ("store", "load") and P.gepkey(f, i.d["p"]) in (self.k_mod, self.k_fro, self.k_rev, self.k_dirty) and not f.name.startswith("notmuch_database_create"):
                    self.interesting_set.add(f.name)
        self.interesting_set = self.interesting_set | closure_callers(P, {n for n in self.interesting_set if n in P.fns and P.fns[n].tu.startswith("lib/message")} & self.interesting_set)
        for f in P.fns.values():       # and those that ask whether the database can be written
            if len(f.blocks) < 12 and any(i.op == "load" and P.gepkey(f, i.d["p"]) in (self.k_wdb, self.k_open) for i in f.instrs()):
                self.interesting_set.add(f.name)
        self.slot = P.enumval("NOTMUCH_VALUE_LAST_MOD")
        self.seen = {}

    def ev(self, i, w):
        self.seen.setdefault(w, set()).add(ir.loc(i))

    # ps: (tracked, flags, frozen, rev)
    #   tracked: the document followed on this path (chosen at its first change), flags of it:
    #     "d" changed since written, "u" changed since stamped, "m" marked to be written
    #   frozen: tuple of (message, depth), rev: a fresh revision number is at hand
    def msgs(self, f):
        return [n for n in range(len(f.args)) if n + 1 < len(f.dtypes) and f.dtypes[n + 1].replace(" ", "") == "notmuch_message_t*"]

    def init(self, f):
        fr = tuple((("y", ("P", n)), self.frozen) for n in self.msgs(f)) if self.frozen else ()
        for n in self.msgs(f):
            if self.modified:
                return (("p", ("P", n), self.doc), frozenset("dum"), fr, False)
        return (None, frozenset(), fr, False)

    def base(self, E, st, i):
        p = E.val(st, i.d["p"])
        return ("y", p[1]) if p[0] in ("p", "y") and p[1][0] not in ("S",) else None

    def frozen_of(self, ps, b):
        for m, n in ps[2]:
            if m == b:
                return n
        return 0

    def with_(self, ps, tracked=0, flags=None, frozen=None, rev=None):
        t = ps[0] if tracked == 0 else tracked
        fl = ps[1] if flags is None else frozenset(flags)
        if not fl:
            t = None
        if t is None:
            fl = frozenset()
        return (t, fl, ps[2] if frozen is None else frozen, ps[3] if rev is None else rev)

    def on_load(self, E, st, i, av, key):
        if key == self.k_wdb:
            return ("p", ("G", "writable database"), 0)
        if key == self.k_open:
            return ("c", 1)
        if key == self.k_feat:
            return ("c", self.features)
        if key == self.k_mod:
            b = self.base(E, st, i)
            if b and st.ps[0] == ("p", b[1], self.doc) and "m" in st.ps[1]:
                return ("c", 1)
        elif key == self.k_fro:
            return ("c", self.frozen_of(st.ps, self.base(E, st, i)))

    def on_store(self, E, st, i, addr, val, key):
        if key in (self.k_rev, self.k_dirty):
            if val != ("c", 0):
                st.ps = self.with_(st.ps, rev=True)
            return
        if key == self.k_mod:
            b = self.base(E, st, i)
            self.ev(i, "mark")
            if b and st.ps[0] == ("p", b[1], self.doc):
                if val == ("c", 0):
                    if "d" in st.ps[1]:
                        E.violate(i, "mark-dropped", "the modified mark of a message is cleared although its changes were not written", st, key=("mark-dropped", short(i.F)))
                    st.ps = self.with_(st.ps, flags=st.ps[1] - {"m"})
                else:
                    st.ps = self.with_(st.ps, flags=st.ps[1] | {"m"})
        elif key == self.k_fro:
            b = self.base(E, st, i)
            self.ev(i, "freeze")
            fr = tuple(t for t in st.ps[2] if t[0] != b)
            if val[0] == "c" and val[1] != 0:
                fr += ((b, val[1]),)
            st.ps = self.with_(st.ps, frozen=tuple(sorted(fr, key=repr)))

    def is_doc(self, a):
        # a document that is part of an object (not a local copy)
        return a[0] == "p" and a[1][0] != "A" and a[2] != 0 or a[0] == "y"

    def on_call(self, E, st, i, name, args):
        if name is None:
            return None
        if name in self.change:
            a = args[0]
            if not self.is_doc(a):
                return None
            self.ev(i, "change")
            new = []
            stamp = name in self.value and args[1] == ("c", self.slot)
            if stamp:
                self.ev(i, "stamp")
            if st.ps[0] == a:
                if stamp and st.ps[3]:
                    new = [self.with_(st.ps, flags=(st.ps[1] | {"d"}) - {"u"}, rev=False)]
                else:
                    new = [self.with_(st.ps, flags=st.ps[1] | {"d", "u"})]
            else:
                new = [self.with_(st.ps, rev=False) if stamp else st.ps]
                if st.ps[0] is None and not stamp:
                    fl = {"d", "u"}
                    if a[0] == "p":
                        e = st.mem.get((a[1], self.k_mod[1]))
                        if e is not None and e[0] == ("c", 1):
                            fl.add("m")
                    new.append(self.with_(st.ps, a, fl))
            outs = []
            for o in E.external(i.F, st, i, name, args):
                if o.kind == "ret":
                    for ps in new:
                        outs.append(Outcome("ret", ps, o.ret, o.fact))
                else:
                    outs.append(o)
            return outs
        if name in self.write:
            a = args[2]
            self.ev(i, "write")
            ps = st.ps
            if self.P.gepkey(i.F, i.args[2]) == (MSG, self.doc) and a[0] == "p":
                if ps[0] == a and "u" in ps[1]:
                    E.violate(i, "unstamped", "a changed message is written without a new modification revision", st, key=("unstamped", short(i.F)))
                if self.frozen_of(ps, ("y", a[1])) and E.stack[0].name not in FILE_RENAMERS:
                    E.violate(i, "frozen-write", "a frozen message is written to the database", st, key=("frozen-write", short(E.stack[0])))
            if ps[0] == a:
                ps = self.with_(ps, flags=ps[1] - {"d", "u"})
            outs = E.external(i.F, st, i, name, args)
            for o in outs:
                if o.kind == "ret":
                    o.ps = ps
            return outs
        if name in self.delete:
            t = st.ps[0]
            outs = E.external(i.F, st, i, name, args)
            if t is not None and t[0] == "p":
                e = st.mem.get((t[1], self.docid))
                if e is not None and e[0] == args[1]:
                    self.ev(i, "delete")
                    for o in outs:
                        if o.kind == "ret":
                            o.ps = self.with_(st.ps, flags=())
            return outs
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root or kind != "ret":
            return
        bad = False
        if rv is not None and f.dtypes[0] == "notmuch_status_t":
            bad = E.isnull(st, rv) is False
        for n in self.msgs(f):
            now = self.frozen_of(st.ps, ("y", ("P", n)))
            want = self.frozen + (0 if bad else {"notmuch_message_freeze": 1, "notmuch_message_thaw": -1}.get(f.name, 0))
            if f.name == "notmuch_message_thaw" and bad and self.frozen == 1:
                want = now            # the write itself failed
            if f.name == "notmuch_message_thaw" and self.frozen == 0 and not bad:
                E.violate(f, "unbalanced", "thawing a message that is not frozen can be reported as a success", st, key=("unbalanced", f.name))
            elif now != want:
                E.violate(f, "frozen-depth", "%s can return with the message's freeze depth changed from %d to %d" % (f.name, self.frozen, now), st, key=("frozen-depth", f.name))
        if bad:
            return
        a, fl = st.ps[0], st.ps[1]
        if a is not None and "m" in fl and "d" not in fl and f.dtypes[0] == "notmuch_status_t":
            E.violate(f, "mark-left", "%s leaves a message marked as modified after writing it, so it will be rewritten without having changed" % f.name, st, key=("mark-left", f.name))
        if a is not None and "d" in fl:
            if a[0] == "p" and self.frozen_of(st.ps, ("y", a[1])):
                if "m" not in fl:
                    E.violate(f, "unmarked", "%s changes a frozen message without marking it to be written when it is thawed" % f.name, st, key=("unmarked", f.name))
            else:
                E.violate(f, "unwritten", "%s can succeed without writing a change it made" % f.name, st, key=("unwritten", f.name))


FILE_RENAMERS = {"notmuch_message_reindex": "replaces the whole record from the file; freezing is documented for tag and property changes",
                 "notmuch_message_tags_to_maildir_flags": "the rename on disk has already happened, so the index must follow at once"}


FREEZERS = ("notmuch_message_freeze", "notmuch_message_thaw")


def enough(seen, evs):
    for e in evs:
        if not seen.get(e):
            raise Broken("no %s event was analysed" % e)


def roots(P, r):
    return sorted(f.name for f in P.public() if f.name in r.interesting_set)


def reach(P, f):
    seen = set(); w = [f]
    while w:
        n = w.pop()
        if n in seen or n not in P.fns:
            continue
        seen.add(n)
        w += [i.callee for i in P.fns[n].calls() if i.callee]
    return seen
