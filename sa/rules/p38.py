"""A value that may be missing is not used as if it were there."""
from ..common import *
from .. import flow, ir

# functions that return NULL for some input or environment (memory exhaustion aside)
LIBC = "strchr strrchr strstr strcasestr strpbrk memchr strtok strtok_r strsep getenv fopen fdopen opendir canonicalize_file_name realpath gzopen gzdopen".split()
GLIB = ("g_hash_table_lookup g_list_find_custom g_utf8_strrchr g_key_file_get_string g_key_file_get_value g_key_file_get_string_list "
        "g_mime_object_get_header g_mime_object_get_content_type_parameter g_mime_object_get_content_disposition g_mime_object_get_content_id "
        "g_mime_message_get_subject g_mime_message_get_date g_mime_message_part_get_message g_mime_part_get_content g_mime_part_get_filename "
        "g_mime_parser_construct_message g_mime_filter_charset_new g_mime_decrypt_result_get_session_key g_mime_decrypt_result_get_signatures "
        "g_mime_signature_get_certificate g_mime_certificate_get_fingerprint g_mime_certificate_get_user_id g_mime_certificate_get_email g_mime_certificate_get_name "
        "g_mime_multipart_signed_verify g_mime_application_pkcs7_mime_verify g_mime_multipart_encrypted_decrypt g_mime_application_pkcs7_mime_decrypt "
        "internet_address_get_name g_mime_header_list_get_header g_mime_header_get_value g_mime_utils_header_decode_date g_mime_stream_fs_open internet_address_list_parse").split()
# functions of the program that find nothing, by their documentation: the result, or what they leave in that argument
FIND = ["notmuch_message_get_properties", "notmuch_message_get_tags", "notmuch_message_get_filenames", "notmuch_message_get_replies", "notmuch_database_status_string", "notmuch_directory_get_child_files", "notmuch_directory_get_child_directories", "notmuch_database_get_all_tags", "notmuch_messages_collect_tags", "notmuch_config_get_values", "notmuch_config_get_values_string"]
FIND_OUT = {"notmuch_database_find_message": 2, "notmuch_database_find_message_by_filename": 2, "notmuch_database_get_directory": 2, "notmuch_message_get_property": 2}
# arguments that must be there
NEED = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "g_ascii_strncasecmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strcasestr": (0, 1), "strspn": (0, 1), "strcspn": (0, 1),
        "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1), "strdup": (0,), "atoi": (0,), "strtol": (0,), "strtoul": (0,), "__isoc23_strtol": (0,), "__isoc23_strtoul": (0,), "__isoc23_strtoull": (0,),
        "fputs": (0, 1), "puts": (0,), "fopen": (0, 1), "fclose": (0,), "open": (0,), "stat": (0,), "unlink": (0,), "rename": (0, 1), "mkdir": (0,), "access": (0,), "getline": (2,), "g_date_time_to_unix": (), "gzputs": (1,),
        "execvp": (0,), "dirname": (), "regexec": (1,), "regcomp": (1,), "strftime": (3,), "qsort": (0,), "sprintf": (0, 1), "setenv": (0, 1)}
PASS = {"g_type_check_instance_cast": 0, "g_type_check_class_cast": 0}
NIL = ("y", ("pm", "null"))


class Missing(SymRule):
    """ps: None | (what is missing, where it was obtained, its value)"""
    wants_load = wants_store = pass_strings = True

    def __init__(self, P, first, derived=frozenset(), fields=frozenset()):
        self.P = P
        self.derived, self.fields = derived, fields
        self.src = set(LIBC) | set(GLIB) | set(FIND) | set(FIND_OUT) if first else set()
        self.ctor = {n for n in P.callers if n and "basic_string" in n and ("C1" in n or "C2" in n or "aSEPKc" in n or "pLEPKc" in n)} if hasattr(P, "callers") else set()
        self.interesting_set = set()
        self.seen = {}

    def init(self, f):
        return None

    def interesting(self, name):
        return False

    def nul(self, E, st, v):
        return v == st.ps[2]

    def bad(self, E, st, i, how):
        E.violate(i, "missing", "%s may be missing when %s (in %s)" % (st.ps[0], how, short(i.F)), st, key=("missing", st.ps[0], short(i.F)))
        st.ps = None

    def deref(self, E, st, i):
        if st.ps is None:
            return
        p = E.val(st, i.d["p"])
        if p[0] in ("p", "y") and p[1] == st.ps[2][1]:
            self.bad(E, st, i, "it is used")
            return True

    def on_load(self, E, st, i, av, key):
        if self.deref(E, st, i):
            return []
        if st.ps is None and key in self.fields and av[0] == "y" and E.isnull(st, av) is None:
            return [(av, (0, 0, frozenset()), ("the %s of a %s" % (self.P.field(*key), key[0].split(".")[-1].lstrip("_")), ir.loc(i), av)), (av, NONNULL, None)]
        return None

    def on_store(self, E, st, i, addr, val, key):
        self.deref(E, st, i)
        if st.ps is not None and val == st.ps[2] and key is not None:
            self.seen.setdefault("kept", set()).add("%s\0%d" % key)

    def on_call(self, E, st, i, name, args):
        if name is None or name.startswith("llvm."):
            return None
        ps = st.ps
        g = self.P.fns.get(name)
        if ps is not None:
            for n in NEED.get(name, ()) if g is None else ():
                if n < len(args) and self.nul(E, st, args[n]):
                    self.bad(E, st, i, "it is passed to %s" % name)
                    return []
            if g is None and name in self.ctor and len(args) > 1 and self.nul(E, st, args[1]):
                self.bad(E, st, i, "a string is made of it")
                return []
        if name in PASS:
            return [Outcome("ret", ps, args[PASS[name]])]
        if g is None and ps is not None and name.startswith(("g_mime_", "internet_address_")) and args and self.nul(E, st, args[0]):
            return [Outcome("ret", ps, NIL, (0, 0, frozenset()))]
        if ps is None and (name in self.src or name in self.derived):
            self.seen.setdefault("source", set()).add(ir.loc(i))
            what = "the result of %s" % (base_name(g) if g else name)
            base = E.generic(i.F, st, i, name, g, args) if g is not None else E.external(i.F, st, i, name, args)
            b = next((o for o in base if o.kind == "ret"), None)
            if b is None:
                return base
            if name in FIND_OUT:
                a = args[FIND_OUT[name]]
                if a[0] != "p":
                    return base
                return base + [Outcome("ret", ("what %s finds" % name, ir.loc(i), NIL), ("c", 0), outs=(((a[1], a[2]), (NIL, (0, 0, frozenset()))),))]
            ok = [Outcome("ret", None, ("y", ("r", i.id)), NONNULL, outs=b.outs)]
            return ok + [Outcome("ret", (what, ir.loc(i), NIL), NIL, (0, 0, frozenset()), outs=b.outs)] + [o for o in base if o.kind != "ret"]
        if g is not None:
            if ps is not None and any(self.nul(E, st, a) for a in args):
                return None
            return [self.elsewhere(i, g, o) for o in E.generic(i.F, st, i, name, g, args)]
        return None

    def elsewhere(self, i, g, o):
        """a null result of a call that was not given what is missing has another reason"""
        if o.kind == "ret" and o.ret == ("c", 0) and g.dtypes[0].replace(" ", "").endswith("*"):
            o.ret, o.fact = ("y", ("r", i.id)), (0, 0, frozenset())
        return o

    def descend(self, name):
        return True

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and rv is not None and st.ps is not None and f.dtypes[0].replace(" ", "").endswith("*") and rv in (st.ps[2], NIL, ("c", 0)):
            self.seen.setdefault("returns", set()).add("%s\0%s" % (st.ps[0], f.name))


def run(P, tier):
    R = Result()
    derived = fields = nd = nf = frozenset()
    S, A, keys, places = [], [], set(), set()
    for rnd in range(12):
        r = Missing(P, rnd == 0, nd, nf)
        todo = sorted(f.name for f in P.fns.values() if any(i.callee in r.src or i.callee in nd for i in f.calls())
                      or nf and any(i.op == "load" and P.gepkey(f, i.d["p"]) in nf for i in f.instrs()))
        vs, seen, st = parallel(P, lambda *k: Missing(P, *k), [((rnd == 0, nd, nf), n) for n in todo])
        A.append(st)
        R.violations += [v for v in vs if v["key"] not in keys]
        keys |= {v["key"] for v in vs}
        places |= seen.get("source", set())
        nd = frozenset(x.split("\0")[1] for x in seen.get("returns", ())) - derived
        nf = frozenset((x.split("\0")[0], int(x.split("\0")[1])) for x in seen.get("kept", ())) - fields
        S.append(dict(functions=len(todo), returning_missing=len(nd), fields=len(nf)))
        derived, fields = derived | nd, fields | nf
        if not nd and not nf:
            break
    else:
        raise Broken("no fixpoint")
    if len(places) < 120 or len(derived) < 10 or not fields:
        raise Broken("only %d sources, %d functions and %d fields found" % (len(places), len(derived), len(fields)))
    R.explain = "Interprocedural nullness: every source of a possibly missing value (table, then functions and fields found to pass one on, to a fixpoint) is explored with the value missing on every path to a use that needs it."
    R.cov = dict(rounds=S, returning_missing=sorted(derived), fields=["%s.%s" % (a, P.field(a, b)) for a, b in sorted(fields)], sources=len(places), analysis=A)
    return R
