"""Decryption happens only as the decryption policy allows, and its outcome is recorded truthfully."""
from ..common import *
from .. import ir
from .msgsync import off

DEC = {"g_mime_multipart_encrypted_decrypt": (1, 2, 4), "g_mime_application_pkcs7_mime_decrypt": (1, 2, 4)}      # flags, session key, error
OTHER = ("g_mime_crypto_context_decrypt", "g_mime_gpg_context_new", "g_mime_pkcs7_context_new", "g_mime_crypto_context_new", "gpgme_op_decrypt")
KEY = ("y", ("pm", "stashed"))
PROP = {"notmuch_message_add_property", "notmuch_message_remove_property", "notmuch_message_remove_all_properties", "notmuch_message_remove_all_properties_with_prefix"}
LIB = ("notmuch_database_index_file", "notmuch_message_reindex")
EXPORT = 1       # GMIME_DECRYPT_EXPORT_SESSION_KEY
XE = 3


class Policy(Rule):
    """ps: (outcome of the last decryption: none, maybe (there is a stored key), key, clear, failed, until it is recorded; session keys dropped)"""
    wants_load = wants_store = pass_strings = True

    def __init__(self, P, policy):
        self.P, self.p = P, policy
        self.V = {k: P.enumval("NOTMUCH_DECRYPT_" + k) for k in ("FALSE", "TRUE", "AUTO", "NOSTASH")}
        self.v = self.V[policy]
        self.k = ("%struct._notmuch_crypto", off(P, "%struct._notmuch_crypto", "decrypt"))
        self.ok = ("%struct.mime_node", off(P, "%struct.mime_node", "decrypt_success"))
        inter = closure_callers(P, list(DEC) + list(PROP))
        readers = {f.name for f in P.fns.values() for i in f.instrs() if i.op == "load" and P.gepkey(f, i.d["p"]) == self.k and len(f.blocks) < 12}
        self.interesting_set = (inter | readers) - PROP
        rec = engine.recursive(P)
        # walks over nested parts: what happens to the parts inside is judged on its own
        self.walk = {n for n in rec & self.interesting_set if any(c.F.name not in rec for c in P.callers.get(n, ()))}
        self.seen = {}

    def ev(self, i, w):
        self.seen.setdefault(w, set()).add(ir.loc(i))

    def init(self, f):
        return ("none", False)

    def ps_in(self, E, st, i, g, args, amap):
        if g.name in self.walk:
            return ("none", st.ps[1]), st.ps
        return st.ps, None

    def ps_out(self, E, st, i, g, o, ctx, m):
        if ctx is not None:
            self.complete(E, st, i, o.ps)
            return ctx[:1] + o.ps[1:]
        return o.ps

    def complete(self, E, st, i, ps):
        if ps[0] not in ("none", "maybe") and E.stack[0].name in LIB:
            E.violate(i, "unrecorded", "a message is indexed without a record of whether decrypting it worked", st, key=("unrecorded", E.stack[0].name))

    def on_load(self, E, st, i, av, key):
        if key == self.k:
            self.ev(i, "policy")
            return ("c", self.v)
        return None

    def on_store(self, E, st, i, addr, val, key):
        if key == self.ok and E.isnull(st, val) is not True:
            self.ev(i, "success")
            if st.ps[0] == "failed":
                E.violate(i, "success", "a part is marked as decrypted although decrypting it failed", st, key=("success", short(i.F)))

    def text(self, a):
        if a[0] == "p" and a[1][0] == "S":
            t = a[1][1]
            return t[a[2]:] if isinstance(t, str) and isinstance(a[2], int) else None
        return None

    def on_call(self, E, st, i, name, args):
        out, dropped = st.ps
        if name in DEC:
            fl, sk, er = DEC[name]
            self.ev(i, "decrypt")
            stashed = len(args) > sk and args[sk] == KEY
            if self.p == "FALSE":
                E.violate(i, "never", "a message is decrypted although the policy is never to decrypt", st, key=("never", base_name(i.F)))
                return []
            if not stashed and E.isnull(st, args[sk]) is not True:
                E.violate(i, "key", "a session key that is not the one stored for the message is used", st, key=("key", base_name(i.F)))
            if self.p == "AUTO" and not stashed:
                E.violate(i, "auto", "a secret key is used although only stashed session keys may be", st, key=("auto", base_name(i.F)))
                return []
            if stashed:
                self.ev(i, "stashed")
            a = args[fl]
            if self.p != "TRUE" and not (a[0] == "c" and not a[1] & EXPORT):
                E.violate(i, "export", "the session key is extracted although it may not be kept", st, key=("export", base_name(i.F)))
            if a[0] == "c" and a[1] & EXPORT:
                self.ev(i, "export")
            def out_(n, v):
                a = args[n]
                k = a[1:3] if a[0] == "p" and isinstance(a[2], int) else (a[1], 0) if a[0] == "y" else None
                return () if k is None else ((k, v),)
            return [Outcome("ret", ("key" if stashed else "clear", dropped), None, NONNULL, outs=out_(er, (("c", 0), None)) + out_(er - 1, (None, NONNULL))),
                    Outcome("ret", ("failed", dropped), ("c", 0), outs=out_(er, (None, None)))]
        if name in LIB and E.stack[0].name not in LIB:
            return [Outcome("ret", st.ps, ("c", 0)), Outcome("ret", st.ps, ("c", XE))]
        if name in OTHER:
            E.violate(i, "other", "%s bypasses the decryption policy" % name, st, key=("other", base_name(i.F), name))
            return None
        if name == "notmuch_message_properties_valid":
            return [Outcome("ret", ("maybe" if out == "none" else out, dropped), ("c", 1)), Outcome("ret", st.ps, ("c", 0))]
        if name == "notmuch_message_properties_value":
            return [Outcome("ret", st.ps, KEY, NONNULL)]
        if name in PROP:
            k = self.text(args[1])
            if k is None and not (name.endswith("properties") and E.isnull(st, args[1]) is True):
                return [Outcome("ret", st.ps, ("c", 0)), Outcome("ret", st.ps, ("c", XE))]
            if name == "notmuch_message_add_property":
                v = self.text(args[2])
                if k == "session-key":
                    self.ev(i, "stash")
                    if self.p != "TRUE":
                        E.violate(i, "stash", "a session key is stored although the policy does not allow it", st, key=("stash", base_name(i.F)))
                if k == "index.decryption":
                    self.ev(i, "record")
                    if v == "success" and out not in ("clear", "key") or v == "failure" and (out in ("clear", "key") or out == "none" and self.p == "AUTO") or v not in ("success", "failure"):
                        E.violate(i, "record", "decryption is recorded as %s when the last one %s" % (v, "succeeded" if out in ("clear", "key") else "was not made" if out in ("none", "maybe") else "failed"), st, key=("record", base_name(i.F), v))
                    return [Outcome("ret", ("none", dropped), ("c", 0)), Outcome("ret", ("none", dropped), ("c", XE))]
            else:
                if k is None or k == "session-key" or name.endswith("prefix") and "session-key".startswith(k):
                    self.ev(i, "drop")
                    if self.p != "FALSE":
                        E.violate(i, "dropped", "stored session keys are discarded although the policy is not never to decrypt", st, key=("dropped", base_name(i.F)))
                    return [Outcome("ret", (out, True), ("c", 0)), Outcome("ret", st.ps, ("c", XE))]
            return [Outcome("ret", st.ps, ("c", 0)), Outcome("ret", st.ps, ("c", XE))]
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root or kind != "ret" or f.name not in LIB or rv is None or E.isnull(st, rv) is False:
            return
        out, dropped = st.ps
        self.complete(E, st, f, st.ps)
        if f.name == "notmuch_message_reindex" and self.p == "FALSE" and not dropped and E.isnull(st, ("y", ("P", 1))) is not True:
            E.violate(f, "kept", "session keys stay in the index after the message was reindexed with the policy never to decrypt", st, key=("kept",))


class Config(Rule):
    """index.decrypt: ps = (text matched, policy set)"""
    pass_strings = True
    MEANS = {"true": "TRUE", "yes": "TRUE", "1": "TRUE", "false": "FALSE", "no": "FALSE", "0": "FALSE", "nostash": "NOSTASH", "auto": "AUTO", None: "AUTO"}

    def __init__(self, P):
        self.P = P
        self.name = {P.enumval("NOTMUCH_DECRYPT_" + k): k for k in ("FALSE", "TRUE", "AUTO", "NOSTASH")}
        self.k = ("%struct._notmuch_crypto", off(P, "%struct._notmuch_crypto", "decrypt"))
        self.interesting_set = {"notmuch_indexopts_set_decrypt_policy"}
        self.seen = set()
    wants_store = True

    def init(self, f):
        return (None, None)

    def on_store(self, E, st, i, addr, val, key):
        if key == self.k and val[0] == "c":
            st.ps = (st.ps[0], val[1])

    def on_call(self, E, st, i, name, args):
        if name in ("strcasecmp", "strcmp", "g_ascii_strcasecmp"):
            t = [a[1][1] for a in args if a[0] == "p" and a[1][0] == "S" and a[2] == 0]
            if t and t[0] in self.MEANS:
                self.seen.add(t[0])
                if st.ps[0] is not None:
                    return [Outcome("ret", st.ps, ("c", 0 if t[0] == st.ps[0] else 1))]
                return [Outcome("ret", (t[0], st.ps[1]), ("c", 0)), Outcome("ret", st.ps, ("c", 1))]
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and rv is not None and E.isnull(st, rv) is not True and st.ps[1] is not None:
            want = self.MEANS[st.ps[0]]
            if self.name.get(st.ps[1]) != want:
                E.violate(f, "default", "index.decrypt %s selects the policy %s" % ("unset" if st.ps[0] is None else st.ps[0], self.name.get(st.ps[1])), st, key=("default", st.ps[0] or "unset"))


def keywords(P, R):
    """option keyword tables that select a decryption policy"""
    V = {k: P.enumval("NOTMUCH_DECRYPT_" + k) for k in ("FALSE", "TRUE", "AUTO", "NOSTASH")}
    name = {v: k for k, v in V.items()}
    n = []
    for g in P.globals.values():
        if g.init is None or g.init[0] != "agg":
            continue
        t = {}
        for o, x in g.init[1]:
            if x[0] == "agg" and len(x[1]) >= 2 and x[1][0][1][0] == "s" and x[1][1][1][0] == "c":
                t[x[1][0][1][1]] = x[1][1][1][1]
            elif x[0] == "agg" and x[1] and x[1][0][1][0] == "s" and len(x[1]) == 1:
                t[x[1][0][1][1]] = 0
        if not {"false", "true", "auto"} <= set(t):
            continue
        n.append(g.name)
        m = {"false": "FALSE", "auto": "AUTO", "stash": "TRUE", "nostash": "NOSTASH", "true": "TRUE" if "nostash" in t else "NOSTASH"}
        for k, v in sorted(t.items()):
            if name.get(v) != m.get(k):
                R.violations.append(dict(rule="keyword", key="keyword/%s/%s" % (g.tu, k), function=g.name, where=g.tu, what="--decrypt=%s selects the policy %s" % (k, name.get(v)), path=[]))
    if len(n) < 3:
        raise Broken("decryption option tables not found (%s)" % n)
    return sorted(n)


def run(P, tier):
    R = Result()
    need(P, *LIB)
    roots = list(LIB) + [c for c in ("notmuch_show_command", "notmuch_reply_command")]
    need(P, *roots)
    jobs = [((p,), f) for p in ("TRUE", "NOSTASH", "AUTO", "FALSE") for f in roots]
    vs, seen, S = parallel(P, lambda p: Policy(P, p), jobs)
    R.violations += vs
    for k in ("policy", "decrypt", "stashed", "export", "stash", "record", "drop", "success"):
        if not seen.get(k) and not vs:
            raise Broken("no %s event" % k)
    calls = {n: len(P.callers.get(n, ())) for n in DEC}
    for n in OTHER:
        for i in P.callers.get(n, ()):
            R.violations.append(dict(rule="other", key="other/%s/%s" % (base_name(i.F), n), function=base_name(i.F), where=ir.loc(i), what="%s is called: decryption outside the policy" % n, path=[]))
    r = Config(P)
    E = Engine(r, P)
    root = "notmuch_database_get_default_indexopts"
    need(P, root)
    E.run(root)
    R.add(E)
    if not {"true", "false", "nostash"} <= r.seen:
        raise Broken("index.decrypt values not recognised: %s" % r.seen)
    for w in sorted({x for x in Config.MEANS if x} - r.seen - {"auto"}):
        R.violations.append(dict(rule="default", key="default/" + w, function=root, where=P.fns[root].tu, what="index.decrypt=%s is not understood and selects the default policy" % w, path=[]))
    tables = keywords(P, R)
    R.cov = dict(operations=roots, policies=["FALSE", "AUTO", "NOSTASH", "TRUE"], decryption_calls=calls, option_tables=tables, configuration_values=sorted(r.seen), events={k: sorted(v) for k, v in seen.items()}, analysis=S)
    R.explain = "Indexing, reindexing, show and reply are explored once for each decryption policy, which every read of the policy field then yields; each call of a decryption primitive is checked against the policy, and each outcome against what is recorded for it. Keyword tables and the configuration parser are checked against the documented meaning of each word."
    return R
