"""A read-only handle never writes and every mutator refuses it."""
from ..common import *

WRITES = ("replace_document(", "delete_document(", "add_document(", "set_metadata(", "begin_transaction(",
          "commit_transaction(", "commit(", "cancel_transaction(", "add_spelling(", "remove_spelling(", "add_synonym(", "remove_synonym(", "clear_synonyms(")

# public operations that create or convert the backend object themselves
OPENERS = {"notmuch_database_create", "notmuch_database_create_verbose", "notmuch_database_create_with_config",
           "notmuch_database_open", "notmuch_database_open_verbose", "notmuch_database_open_with_config",
           "notmuch_database_load_config", "notmuch_database_compact", "notmuch_database_compact_db",
           "notmuch_database_reopen"}


def write_prims(P):
    r = []
    for w in WRITES:
        r += by_dem(P, "Xapian::WritableDatabase::" + w)
    return r


class ReadOnly(Rule):
    wants_load = True

    def __init__(self, P):
        self.P = P
        self.w = set(write_prims(P))
        self.fld = None
        fo = {n: o for o, n, t, s in P.structs["_notmuch_database"]["fields"]}
        if "writable_xapian_db" not in fo:
            raise Broken("writable backend field not found")
        self.fld = ("%struct._notmuch_database", fo["writable_xapian_db"])
        self.loads = set()
        self.writers = closure_callers(P, self.w)
        readers = set()
        for f in P.fns.values():
            for i in f.instrs():
                if i.op == "load" and P.gepkey(f, i.d["p"]) == self.fld:
                    readers.add(f.name)
        self.readers = readers
        # the (thin) functions that ask for the mode, and everything that can write
        ask = set(readers)
        for f in P.fns.values():
            if any(i.callee in readers for i in f.calls()) and len(f.blocks) <= 12:
                ask.add(f.name)
        self.interesting_set = self.writers | ask
        self.sites = set()

    def on_load(self, E, st, i, av, key):
        if key == self.fld:
            self.loads.add(ir.loc(i))
            return ("c", 0)
        return None

    def on_call(self, E, st, i, name, args):
        if name in self.w:
            self.sites.add(ir.loc(i))
            E.violate(i, "write-on-read-only", "%s is reached although the handle is read-only" % E.P.demangle(name).split("(")[0], st,
                      key=("write", E.stack[0].name, i.F.name, E.P.demangle(name).split("(")[0]))
            return []
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root:
            self.exits.append((f, kind, rv, None if rv is None else E.isnull(st, rv), st))


class OpenRO(Rule):
    """opening read-only must not create, lock or write anything"""

    def __init__(self, P):
        self.w = set(write_prims(P)) | set(by_dem(P, "Xapian::WritableDatabase::WritableDatabase(")) | {"mkdir", "g_mkdir_with_parents", "unlink", "rename"}
        self.interesting_set = closure_callers(P, self.w)
        self.reached = set()

    def on_call(self, E, st, i, name, args):
        if name in self.w:
            E.violate(i, "write-on-read-only-open", "%s is reached while opening read-only" % E.P.demangle(name).split("(")[0], st,
                      key=("open", E.stack[0].name, i.F.name, E.P.demangle(name).split("(")[0]))
            return []
        if name in Openers:
            self.reached.add(ir.loc(i))
        return None


Openers = set()

# operations that may legitimately succeed on a read-only handle although they can write on a writable one
MAY_SUCCEED = {
    "notmuch_database_close": "closing a read-only handle has nothing to flush",
    "notmuch_database_destroy": "as close",
    "notmuch_database_begin_atomic": "documented to be a no-op counter on a read-only handle",
    "notmuch_database_end_atomic": "documented to be a no-op counter on a read-only handle",
    "notmuch_database_get_directory": "on a read-only handle looks up only; a missing entry is reported as success with no object",
    "notmuch_database_find_message_by_filename": "lookup",
    "notmuch_message_maildir_flags_to_tags": "succeeds when no tag has to change; a needed change goes through the tag operations, which refuse",
    "notmuch_message_tags_to_maildir_flags": "renames only; reports the index write failure separately",
}


def run(P, tier):
    R = Result()
    rule = ReadOnly(P)
    if not rule.w:
        raise Broken("backend write primitives not found")
    E = Engine(rule, P)
    roots = [f for f in P.public() if f.name in rule.writers and f.name not in OPENERS]
    n = 0
    for f in roots:
        rule.exits = []
        E.run(f.name)
        n += len(rule.exits)
        if f.dtypes and f.dtypes[0] == "notmuch_status_t" and f.name not in MAY_SUCCEED:
            for (g, kind, rv, z, st) in rule.exits:
                if kind == "ret" and z is not False:
                    E.violate(f, "mutator-succeeds", "%s can report success on a read-only handle" % f.name, st, key=("succeeds", f.name))
                    break
    R.add(E)
    if len(roots) < 15:
        raise Broken("only %d mutating operations found" % len(roots))
    if P.enumval("NOTMUCH_DATABASE_MODE_READ_ONLY") != 0:
        raise Broken("mode encoding changed")
    ro = OpenRO(P)
    E2 = Engine(ro, P)
    oroots = []
    for name in ("notmuch_database_open", "notmuch_database_open_verbose", "notmuch_database_open_with_config", "notmuch_database_load_config", "notmuch_database_reopen"):
        f = P.fns.get(name)
        if f is None:
            raise Broken("anchor %s not found" % name)
        k = [n for n, t in enumerate(f.dtypes[1:]) if t == "notmuch_database_mode_t"]
        if name in ro.interesting_set:
            oroots.append(name)
            E2.run(name, args={k[0]: ("c", 0)} if k else {})
    R.add(E2)
    R.cov = dict(read_only_open_operations=oroots, open_analysis=stats(E2))
    R.cov.update(dict(mutating_operations=[f.name for f in roots], handle_field_loads=len(rule.loads), exits=n, analysis=stats(E)))
    R.explain = "Under the assumption that every database handle is read-only (its writable backend pointer is null), every public operation that can reach a backend write primitive is explored."
    return R
