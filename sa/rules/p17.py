"""Every file, stream and buffer that is acquired is released, once, on every path."""
from ..common import *

NEG1 = ("c", -1)
POS = (0, 1 << 30, frozenset())
# class -> acquiring functions (result), releasing functions (first argument)
ACQ = {
    "fd": {"open", "open64", "openat", "creat", "mkstemp", "mkostemp", "dup", "dup2", "socket", "memfd_create"},
    "file": {"fopen", "fopen64", "fdopen", "popen", "tmpfile", "fmemopen", "open_memstream"},
    "dir": {"opendir", "fdopendir"},
    "gz": {"gzopen", "gzopen64", "gzdopen"},
    "gobj": {"g_object_new", "g_mime_stream_fs_new", "g_mime_stream_fs_open", "g_mime_stream_file_new", "g_mime_stream_file_open", "g_mime_stream_pipe_new", "g_mime_stream_mem_new", "g_mime_stream_mem_new_with_byte_array",
             "g_mime_stream_mem_new_with_buffer", "g_mime_stream_null_new", "g_mime_stream_buffer_new", "g_mime_stream_filter_new", "g_mime_filter_charset_new", "g_mime_filter_dos2unix_new", "g_mime_filter_unix2dos_new",
             "g_mime_filter_gzip_new", "g_mime_filter_windows_new", "g_mime_parser_new_with_stream", "g_mime_parser_new", "g_mime_parser_construct_message", "g_mime_message_new", "internet_address_list_parse", "g_mime_multipart_encrypted_decrypt", "g_mime_application_pkcs7_mime_decrypt", "g_mime_multipart_signed_verify",
             "g_mime_application_pkcs7_mime_verify", "g_mime_message_get_all_recipients", "g_mime_multipart_encrypted_new", "g_mime_part_new"},
    "hash": {"g_hash_table_new", "g_hash_table_new_full"},
    "keyfile": {"g_key_file_new"},
    "array": {"g_ptr_array_new", "g_ptr_array_new_with_free_func", "g_array_new", "g_byte_array_new"},
    "sum": {"g_checksum_new"}, "list": {"g_hash_table_get_keys"},
    "mem": {"malloc", "calloc", "strdup", "strndup", "canonicalize_file_name", "realpath", "g_malloc", "g_malloc0", "g_strdup", "g_strndup", "g_strdup_printf", "g_strsplit", "getdelim"},
}
REL = {
    "fd": {"close"}, "file": {"fclose", "pclose"}, "dir": {"closedir"}, "gz": {"gzclose", "gzclose_r", "gzclose_w"}, "gobj": {"g_object_unref"},
    "hash": {"g_hash_table_unref", "g_hash_table_destroy"}, "keyfile": {"g_key_file_free", "g_key_file_unref"},
    "array": {"g_ptr_array_free", "g_ptr_array_unref", "g_array_unref", "g_array_free", "g_byte_array_free", "g_byte_array_unref"},
    "sum": {"g_checksum_free"}, "list": {"g_list_free"}, "mem": {"free", "g_free", "g_strfreev"},
}
WHAT = dict(fd="file descriptor", file="stdio stream", dir="directory handle", gz="compressed stream", gobj="GMime object", hash="hash table", keyfile="key file", array="array", sum="checksum", list="key list", mem="buffer")
# external functions that take over an argument: name -> index
ADOPT = {"g_mime_stream_fs_new": 0, "g_mime_stream_pipe_new": 0, "gzdopen": 0, "fdopen": 0, "fdopendir": 0, "g_mime_stream_file_new": 0, "g_mime_stream_mem_new_with_byte_array": 0,
         "g_ptr_array_add": 1, "g_list_append": 1, "g_list_prepend": 1, "g_slist_prepend": 1, "g_hash_table_insert": (1, 2), "g_hash_table_add": 1, "g_object_ref": 0, "realloc": 0, "putenv": 0}
INFALLIBLE = {"g_object_new", "g_hash_table_new", "g_hash_table_new_full", "g_key_file_new", "g_ptr_array_new", "g_array_new", "g_byte_array_new", "g_malloc", "g_malloc0", "g_strdup", "g_strdup_printf"}
ACQ_OF = {n: c for c, s in ACQ.items() for n in s}
REL_OF = {n: c for c, s in REL.items() for n in s}
CLI_CLASSES = {"fd", "file", "dir", "gz"}


class Resources(SymRule):
    """ps: None | (class, value, state, home, site, name): one acquired resource, chosen when acquired.
    state: held | released; homes: where it was stored (addresses), or None.
    Each function that acquires is analysed as the owner; a function that hands the resource
    to its caller (result or out-parameter) makes each caller an owner in turn."""
    wants_store = True

    def __init__(self, P, cls, makers):
        self.P = P
        self.cls = cls
        self.makers = makers
        self.acq = set(ACQ[cls]) | ({"asprintf", "vasprintf"} if cls == "mem" else set())
        self.rel = REL[cls]
        self.ins = closure_callers(P, self.rel | set(ADOPT)) & releasers(P, self.rel | set(ADOPT))
        self.interesting_set = self.ins | set(makers)
        self.seen = {}

    def ev(self, i, w):
        self.seen.setdefault(w, set()).add(ir.loc(i))

    def init(self, f):
        return None

    def on_call(self, E, st, i, name, args):
        if name is None:
            return None
        ps = st.ps
        if name in self.P.fns:
            if name in self.makers or not self.interesting(name):
                return None
            if ps is not None and any(a == ps[1] or self.holds(st, a, ps) for a in args):
                return None
            return E.generic(i.F, st, i, name, self.P.fns[name], args)
        if ps is not None:
            hit = [n for n, a in enumerate(args) if a == ps[1]]
            c = REL_OF.get(name)
            if hit == [0] and name in self.rel:
                self.ev(i, "release " + c)
                if ps[2] == "released":
                    E.violate(i, "double-release", "a %s that was already released is released again" % WHAT[ps[0]], st, key=("double-release", ps[5], short(i.F)))
                if c != ps[0]:
                    E.violate(i, "wrong-release", "a %s is released with %s" % (WHAT[ps[0]], name), st, key=("wrong-release", ps[5], short(i.F)))
                outs = E.external(i.F, st, i, name, args)
                for o in outs:
                    o.ps = ps[:2] + ("released",) + ps[3:]
                return outs
            if hit:
                if ps[2] == "released" and not name.startswith("llvm."):
                    E.violate(i, "use-after-release", "a %s is used (%s) after it was released" % (WHAT[ps[0]], name), st, key=("use-after-release", ps[5], short(i.F)))
                ad = ADOPT.get(name)
                if ad is not None and any(n in (ad if isinstance(ad, tuple) else (ad,)) for n in hit):
                    if name in ("gzdopen", "fdopen", "fdopendir"):
                        return [Outcome("ret", None, None, NONNULL), Outcome("ret", ps, ("c", 0))]
                    if name == "realloc":
                        return [Outcome("ret", None, None, NONNULL), Outcome("ret", ps, ("c", 0))]
                    outs = E.external(i.F, st, i, name, args)
                    for o in outs:
                        o.ps = None
                    return outs
        else:
            c = REL_OF.get(name)
            if c in ("file", "dir") and name in self.rel and args and args[0] == ("c", 0):
                E.violate(i, "release-nothing", "%s is called although there is nothing to release" % name, st, key=("release-nothing", name, short(i.F)))
        if ps is None and name in self.acq and all(f.name in self.makers for f in E.stack[1:]):
            c = ACQ_OF.get(name)
            self.ev(i, "acquire " + (c or "mem"))
            if c is None:      # asprintf (char **, ...)
                p = args[0]
                if p[0] not in ("p", "y"):
                    return None
                outs = E.external(i.F, st, i, name, args)
                if p[0] == "p" and p[1][0] == "A":
                    base, off = p[1], p[2]
                    s = ("w", i.id, base, off)
                    return [Outcome("ret", ("mem", ("y", s), "held", None, ir.loc(i), short(i.F), False), None, POS, outs=(((base, off), (None, NONNULL)),)), Outcome("ret", None, NEG1)] + [Outcome("ret", None, None, POS, outs=(((base, off), (None, NONNULL)),))]
                return None
            new = (c, ("y", ("r", i.id)), "held", None, ir.loc(i), short(i.F), False)
            if c == "fd":
                return [Outcome("ret", new, None, POS), Outcome("ret", None, None, POS), Outcome("ret", None, NEG1)]
            outs = [Outcome("ret", new, None, NONNULL), Outcome("ret", None, None, NONNULL)]
            if name not in INFALLIBLE:
                outs.append(Outcome("ret", None, ("c", 0)))
            return outs
        return None

    def holds(self, st, a, ps):
        if a[0] not in ("p", "y") or (a[0] == "p" and a[1][0] == "S"):
            return False
        if ps[3] is not None and any(h[1] == a[1] for h in ps[3]):
            return True
        return any(k[0] == a[1] and e[0] == ps[1] for k, e in st.mem.items())

    def on_store(self, E, st, i, addr, val, key):
        ps = st.ps
        if ps is None or val != ps[1] or addr[0] not in ("p", "y"):
            return
        if addr[0] == "p" and addr[1][0] == "A":
            return
        if key is not None:          # a field of an object: the object owns it from now on
            st.ps = ps[:3] + (ps[3] or frozenset(),) + ps[4:6] + (True,)
            return
        st.ps = ps[:3] + (frozenset(sorted((ps[3] or frozenset()) | {addr}, key=repr)[:4]),) + ps[4:]

    def on_exit(self, E, st, f, kind, rv, i, root):
        ps = st.ps
        if ps is None:
            return
        if kind != "ret":
            st.ps = None
            return
        if not root or ps[2] != "held" or self.cls == "mem":
            return          # heap buffers: only double release and use after release are judged
        z = E.fact(st, ps[1])
        if z[0] == z[1] and z[0] in (0, -1):
            return
        if rv is not None and rv == ps[1]:
            self.seen.setdefault("pass " + self.cls, set()).add(f.name)
            return
        if ps[6]:
            return
        hs = [h for h in ps[3] or () if not (h[0] == "p" and h[1][0] == "A")]
        if hs:
            if any(h[1][0] in ("P", "pm") for h in hs):
                self.seen.setdefault("pass " + self.cls, set()).add(f.name)
            return
        if f.name == "main" or f.name in self.P._commands:
            return          # the process ends here
        E.violate(f, "leak", "the %s acquired at %s is not released on some path of %s" % (WHAT[ps[0]], ps[4], f.name), st, key=("leak", ps[0], ps[5], short(f)))


def releasers(P, names):
    """functions that can pass something they were given on to one of names"""
    r = set(names)
    return closure_callers(P, r)


def run(P, tier):
    R = Result()
    P._commands = set(commands(P))
    vs, cov = [], {}
    S = {}
    todo = {}
    for cls in ACQ:
        acq = set(ACQ[cls]) | ({"asprintf", "vasprintf"} if cls == "mem" else set())
        S[cls] = dict(makers=set(), done=set(), seen={})
        todo[cls] = {n for n, f in P.fns.items() if any(i.callee in acq for i in f.calls())}
    while any(todo.values()):
        jobs = [((cls, frozenset(S[cls]["makers"])), f) for cls in todo for f in sorted(todo[cls])]
        jobs.sort(key=lambda j: -sum(1 for _ in P.fns[j[1]].instrs()))
        v, s, st = parallel(P, lambda c, m: Resources(P, c, m), jobs)
        vs += v
        for cls in todo:
            z = S[cls]
            z["done"] |= todo[cls]
            for k, x in s.items():
                if k.split()[-1] == cls:
                    z["seen"].setdefault(k, set()).update(x)
            new = s.get("pass " + cls, set()) - z["makers"]
            z["makers"] |= new
            todo[cls] = {c.F.name for n in new for c in P.callers.get(n, ())}
    for cls, z in S.items():
        seen = z["seen"]
        cov[WHAT[cls]] = dict(owners=sorted(z["done"]), handed_to_callers=sorted(z["makers"]), acquire_sites=len(seen.get("acquire " + cls, ())), release_sites=len(seen.get("release " + cls, ())))
        if cls in ("fd", "file", "gz", "gobj", "hash", "keyfile", "mem") and not seen.get("acquire " + cls):
            raise Broken("no acquisition of a %s was analysed" % WHAT[cls])
    R.violations = vs
    R.cov = dict(resources=cov)
    R.explain = "Ownership typestate of every acquired file, stream, library object and heap buffer, in the function that acquires it and in every function it is handed to."
    return R
