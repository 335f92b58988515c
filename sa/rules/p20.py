"""What is said about signatures and encryption is what was established for that message."""
from ..common import *
from .. import flow, ir
from .msgsync import off
from . import p27

MC = "%struct._notmuch_message_crypto"
NODE = "%struct.mime_node"
RED, ERR = 4, {16: "key-revoked", 32: "key-expired", 64: "sig-expired", 128: "key-missing", 256: "crl-missing", 512: "crl-too-old", 1024: "bad-policy", 2048: "sys-error", 4096: "tofu-conflict"}   # GMimeSignatureStatus
STATUS = [(0, "good"), (1, "good"), (3, "good"), (RED, "bad"), (RED | 16, "bad"), (RED | 128, "bad")] + [(b, "error") for b in ERR] + [(1 | b, "error") for b in ERR]
VALID = {0: False, 1: False, 2: False, 3: False, 4: True, 5: True}      # GMimeValidity: full and ultimate
IDENTITY = {"fingerprint", "created", "expires", "userid", "email"}
SOURCES = {"g_mime_multipart_signed_verify", "g_mime_application_pkcs7_mime_verify", "g_mime_decrypt_result_get_signatures"}


class Envelope(Rule):
    """the state kept for a whole message, with what was seen so far fixed; ps: stores made"""
    wants_load = wants_store = True

    def __init__(self, P, fixed):
        self.P = P
        self.fix = {(MC, off(P, MC, n)): v for n, v in fixed}
        self.given = dict(fixed)
        self.name = {(MC, o): n for o, n, t, s in P.structs[MC.split(".")[1]]["fields"]}
        self.interesting_set = {f.name for f in P.fns.values() for i in f.instrs() if i.op in ("load", "store") and P.gepkey(f, i.d["p"]) in self.name}
        self.interesting_set |= closure_callers(P, self.interesting_set) & {f.name for f in P.fns.values() if f.tu.startswith("util/")}
        self.seen = {}

    def init(self, f):
        return frozenset()

    def on_load(self, E, st, i, av, key):
        n = self.name.get(key)
        if n is None:
            return None
        for k, v in st.ps:
            if k == n and v is not None:
                return ("c", v)
        if key in self.fix and not any(k == n for k, v in st.ps):
            v = self.fix[key]
            return ("c", v) if v != "nonnull" else None
        return None

    def on_store(self, E, st, i, addr, val, key):
        n = self.name.get(key)
        if n is not None:
            self.seen.setdefault(n, set()).add(ir.loc(i))
            z = E.isnull(st, val)
            v = val[1] if val[0] == "c" else 0 if z is True else None
            st.ps = frozenset({x for x in st.ps if x[0] != n} | {(n, v)})

    def on_exit(self, E, st, f, kind, rv, i, root):
        if not root or kind != "ret" or rv is None or f.name.endswith("_new"):
            return
        g = self.given
        w = dict(st.ps)
        ok = E.isnull(st, rv) is not False if f.dtypes[0] == "notmuch_status_t" else E.isnull(st, rv) is not True
        full = self.P.enumval("NOTMUCH_MESSAGE_DECRYPTED_FULL")

        def bad(k, what):
            E.violate(f, "envelope", what, st, key=("envelope", base_name(f), k))
        if g.get("payload_encountered"):
            if "sig_list" in w:
                bad("late-signature", "a signature found after the payload is taken as covering the whole message")
            if w.get("signature_encrypted"):
                bad("late-encrypted", "a signature found after the payload is taken as covering the whole message")
            if "decryption_status" in w and w["decryption_status"] in (full, None):
                bad("late-full", "a part decrypted after the payload makes the whole message count as encrypted")
            if "payload_subject" in w:
                bad("late-subject", "a later part replaces the protected subject of the message")
            if f.dtypes[0] in ("_Bool", "bool") and ok:
                bad("second-payload", "a second part is taken as the payload of the message")
            if w.get("payload_encountered", 1) != 1:
                bad("forgotten", "that the payload was seen is forgotten")
        else:
            if w.get("signature_encrypted", 0) != 0 and g.get("decryption_status") != full:
                bad("not-encrypted", "a signature outside encryption is reported as encrypted")
            if w.get("sig_list", 0) != 0 and g.get("decryption_status") == full and ok and w.get("signature_encrypted") != 1:
                bad("encrypted", "a signature inside encryption is not reported as encrypted")
            if g.get("decryption_status") != full and g.get("sig_list") == 0:
                if "payload_subject" in w:
                    bad("unprotected", "the subject of a part that is neither signed nor encrypted is taken as protected")
                if f.dtypes[0] in ("_Bool", "bool") and ok:
                    bad("unprotected-payload", "a part that is neither signed nor encrypted is taken as a protected payload")
            if f.dtypes[0] in ("_Bool", "bool") and ok and not w.get("payload_encountered"):
                bad("unseen", "a part is taken as the payload without remembering it")
        if w.get("decryption_status", full) is not None and w.get("decryption_status", full) < g.get("decryption_status", 0):
            bad("downgrade", "the message's decryption status is lowered")


class Signature(Rule):
    """one signature with a fixed status; ps: the last key printed"""
    pass_strings = True

    def __init__(self, P, status):
        self.P = P
        self.status = status
        self.pr = p27.Print(P)
        self.interesting_set = self.pr.interesting_set | {"g_mime_signature_status_good", "g_mime_signature_status_bad", "g_mime_signature_status_error"} | {n for n, f in P.fns.items() if any("GMimeSignatureStatus" in t for t in f.dtypes)}
        self.want = dict(STATUS)[status]
        self.seen = {}

    def init(self, f):
        return None

    def text(self, a):
        return a[1][1] if a[0] == "p" and a[1][0] == "S" and a[2] == 0 else None

    def on_call(self, E, st, i, name, args):
        if name == "g_mime_signature_get_status":
            self.seen.setdefault("status", set()).add(ir.loc(i))
            return [Outcome("ret", st.ps, ("c", self.status))]
        m = self.pr.method(i)
        if m is None:
            return None
        if m == "map_key":
            k = self.text(args[1])
            if k in IDENTITY:
                self.seen.setdefault("identity", set()).add(ir.loc(i))
                if self.want != "good":
                    E.violate(i, "identity", "the signer's %s is shown for a signature that is not good" % k, st, key=("identity", k))
            return [Outcome("ret", k)]
        if m == "string" and st.ps == "status":
            t = self.text(args[1])
            if t is not None:
                self.seen.setdefault("printed", set()).add(ir.loc(i))
                if t != self.want:
                    E.violate(i, "status", "a signature whose verification %s is reported as %s" % ({"good": "succeeded", "bad": "failed", "error": "met an error"}[self.want], t), st, key=("status", self.want, t))
            return [Outcome("ret", None)]
        return [Outcome("ret", st.ps)]


class Shown(Rule):
    """parts and messages that were not (or not wholly) decrypted; ps: the last keys printed"""
    pass_strings = wants_load = True

    def __init__(self, P, success, status):
        self.P = P
        self.pr = p27.Print(P)
        self.interesting_set = self.pr.interesting_set
        self.k = {(NODE, off(P, NODE, "decrypt_success")): success, (MC, off(P, MC, "decryption_status")): status}
        full = P.enumval("NOTMUCH_MESSAGE_DECRYPTED_FULL")
        self.want = {"encstatus": "good" if success else "bad", "decrypted": "full" if status == full else "partial"}
        self.seen = {}

    def init(self, f):
        return (None, None)

    def on_load(self, E, st, i, av, key):
        if key in self.k:
            return ("c", self.k[key])
        return None

    def on_call(self, E, st, i, name, args):
        m = self.pr.method(i)
        if m is None:
            return None
        t = args[1][1][1] if len(args) > 1 and args[1][0] == "p" and args[1][1][0] == "S" and args[1][2] == 0 else None
        if m == "map_key":
            if t == "status":
                return [Outcome("ret", (st.ps[0], "status"))]
            return [Outcome("ret", (t if t in self.want else None, None))]
        if m == "string" and st.ps[1] and st.ps[0]:
            self.seen.setdefault(st.ps[0], set()).add(ir.loc(i))
            if t != self.want[st.ps[0]]:
                E.violate(i, "shown", "%s is reported as %s for %s" % (st.ps[0], t, "a part that was %sdecrypted" % ("" if self.want["encstatus"] == "good" else "not ") if st.ps[0] == "encstatus" else "a %s decrypted message" % ("wholly" if self.want["decrypted"] == "full" else "partly")), st, key=("shown", st.ps[0], t))
            return [Outcome("ret", (None, None))]
        return [Outcome("ret", st.ps)]


class Identity(Rule):
    """names in a certificate, whose validity is fixed"""

    def __init__(self, P, v):
        self.v = v
        self.hit = 0

    def interesting(self, name):
        return False

    def descend(self, name):
        return False

    def on_call(self, E, st, i, name, args):
        if name == "g_mime_certificate_get_id_validity":
            self.hit += 1
            return [Outcome("ret", st.ps, ("c", self.v))]
        if name in ("g_mime_certificate_get_user_id", "g_mime_certificate_get_email", "g_mime_certificate_get_name"):
            return [Outcome("ret", name, None, NONNULL)]
        return None

    def init(self, f):
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and rv is not None and E.isnull(st, rv) is not True and not VALID[self.v]:
            E.violate(f, "validity", "a name the key does not vouch for is given out as valid", st, key=("validity", base_name(f)))


def run(P, tier):
    R = Result()
    E0 = Envelope(P, ())
    V = {k: P.enumval("NOTMUCH_MESSAGE_DECRYPTED_" + k) for k in ("NONE", "PARTIAL", "FULL")}
    touch = {f.name for f in P.fns.values() for i in f.instrs() if i.op == "store" and P.gepkey(f, i.d["p"]) in E0.name}
    roots = sorted(f.name for f in P.fns.values() if not f.internal and any(MC.split("struct.")[1] in t or "notmuch_message_crypto_t" in t for t in f.dtypes[1:]) and f.name in E0.interesting_set and closure_callers(P, touch) & {f.name} | (touch & {f.name}))
    if len(roots) < 3:
        raise Broken("only %d functions keep the state of a message's protection" % len(roots))
    seen = {}
    n = 0
    S = []
    for enc in (0, 1):
        for ds in V.values():
            for sl in (0, "nonnull"):
                for f in roots:
                    r = Envelope(P, (("payload_encountered", enc), ("decryption_status", ds), ("sig_list", sl)))
                    E = Engine(r, P)
                    E.run(f)
                    R.add(E)
                    n += 1
                    S.append(stats(E)["states"])
                    for k, v in r.seen.items():
                        seen.setdefault(k, set()).update(v)
    for k in ("sig_list", "payload_encountered", "decryption_status", "signature_encrypted"):
        if not seen.get(k) and not R.violations:
            raise Broken("%s is never set" % k)
    # where signature lists come from
    k = (NODE, off(P, NODE, "sig_list"))
    src = []
    for f in P.fns.values():
        for i in f.instrs():
            if i.op == "store" and P.gepkey(f, i.d["p"]) == k:
                o = {x for x in flow.origins(P, f, i.d["v"]) if x[0] == "call"}
                src.append(ir.loc(i))
                for x in sorted(o):
                    if x[1] not in SOURCES and x[1] not in P.fns:
                        R.violations.append(dict(rule="source", key="source/%s/%s" % (base_name(f), x[1]), function=base_name(f), where=ir.loc(i), what="the signatures shown for a part come from %s, not from verifying it" % x[1], path=[]))
    if not src and not R.violations:
        raise Broken("signature lists of parts not found")
    # status of signatures
    getters = sorted({i.F.name for i in P.callers.get("g_mime_signature_get_status", ())})
    if not getters:
        raise Broken("signature status is never read")
    sg = {}
    for status, want in STATUS:
        for f in getters:
            r = Signature(P, status)
            E = Engine(r, P)
            E.run(f)
            R.add(E)
            for a, b in r.seen.items():
                sg.setdefault(a, set()).update(b)
    for a in ("printed", "identity"):
        if not sg.get(a) and not R.violations:
            raise Broken("no %s event" % a)
    # names of the errors
    tab = []
    for g in P.globals.values():
        if g.init is None or g.init[0] != "agg":
            continue
        t = [(x[1][0][1][1], x[1][1][1][1]) for o, x in g.init[1] if x[0] == "agg" and len(x[1]) == 2 and x[1][0][1][0] == "c" and x[1][1][1][0] == "s"]
        if {b for a, b in t} & set(ERR.values()):
            tab.append(g.name)
            for b, s in t:
                if ERR.get(b) != s:
                    R.violations.append(dict(rule="error-name", key="error-name/%s" % s, function=g.name, where=g.tu, what="the signature error %s is reported as %s" % (ERR.get(b, b), s), path=[]))
            for b, s in ERR.items():
                if s not in {y for x, y in t}:
                    R.violations.append(dict(rule="error-name", key="error-name/missing/%s" % s, function=g.name, where=g.tu, what="the signature error %s is not reported" % s, path=[]))
    # what is printed about decryption
    sh = {}
    printers = {i.F.name for m in ("string", "map_key") for i in p27.Print(P).calls.get(m, ())}
    field = {(NODE, off(P, NODE, "decrypt_success")), (MC, off(P, MC, "decryption_status"))}
    users = sorted(f.name for f in P.fns.values() if f.name in printers and any(i.op == "load" and P.gepkey(f, i.d["p"]) in field for i in f.instrs()))
    for suc in (0, 1):
        for ds in ("PARTIAL", "FULL"):
            for f in users:
                r = Shown(P, suc, V[ds])
                E = Engine(r, P)
                E.run(f)
                R.add(E)
                for a, b in r.seen.items():
                    sh.setdefault(a, set()).update(b)
    for a in ("encstatus", "decrypted"):
        if not sh.get(a) and not R.violations:
            raise Broken("no %s event" % a)
    # names of signers
    names = sorted({i.F.name for x in ("g_mime_certificate_get_user_id", "g_mime_certificate_get_email", "g_mime_certificate_get_name") for i in P.callers.get(x, ())})
    for v in VALID:
        for f in names:
            r = Identity(P, v)
            E = Engine(r, P)
            E.run(f)
            R.add(E)
    R.cov = dict(message_state_functions=roots, message_states=n, state_stores={k: sorted(v) for k, v in seen.items()}, signature_list_stores=src, signature_status_readers=getters, signature_statuses=len(STATUS), error_tables=tab,
                 decryption_printers=users, certificate_name_readers=names, printed={k: sorted(v) for k, v in list(sg.items()) + list(sh.items())}, states=sum(S))
    R.explain = "The functions that keep a message's protection state are explored from every state it can be in; signature printing from every status a signature can have; decryption printing from every outcome; names of signers from every validity."
    return R
