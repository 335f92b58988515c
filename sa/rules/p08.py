"""A message object shows the changes made through it: cached answers are dropped when the terms behind them change."""
from ..common import *
from .. import ir
from .msgsync import MSG, off

# terms of this prefix: the fields answers about them are cached in
CACHE = {"tag": ("tag_list",), "thread": ("thread_id",), "file-direntry": ("filename_term_list", "filename_list"), "property": ("property_term_list", "property_map"), "replyto": ("in_reply_to",)}
# removing all terms and putting the same ones back changes no answer
RESTORED = {"property"}
WHAT = {"tag_list": "tags", "thread_id": "thread", "filename_term_list": "file names", "filename_list": "file names", "property_term_list": "properties", "property_map": "properties", "in_reply_to": "parent"}


class Cache(Rule):
    """ps: (are terms of the followed prefix being handled, cached fields the document no longer agrees with)"""
    wants_load = wants_store = wants_refine = pass_strings = True

    def __init__(self, P, prefix):
        self.P, self.pfx = P, prefix
        X = "Xapian::Document::"
        self.change = {n for p in ("add_term(", "add_boolean_term(", "remove_term(") for n in by_dem(P, X + p)}
        self.clear = set(by_dem(P, X + "clear_terms("))
        self.delete = set(by_dem(P, "Xapian::WritableDatabase::delete_document("))
        if len(self.change) < 2:
            raise Broken("Xapian document operations not found")
        self.doc = off(P, MSG, "doc")
        self.field = {(MSG, off(P, MSG, n)): n for n in CACHE[prefix]}
        pf = {n for n, f in P.fns.items() if base_name(f) == "_find_prefix"}
        if not pf:
            raise Broken("prefix table lookup not found")
        self.prefix = pf
        inter = closure_callers(P, self.change | self.clear | self.delete)
        for f in P.fns.values():
            for i in f.instrs():
                if i.op == "store" and i.d["v"][0] in ("n", "c") and P.gepkey(f, i.d["p"]) in self.field:
                    inter = inter | {f.name}
        self.interesting_set = {n for n in inter | closure_callers(P, {n for n in inter if n in P.fns and P.fns[n].tu == "lib/message.cc"}) if P.fns[n].tu.startswith("lib/")}
        self.seen = {}

    def init(self, f):
        return (False, frozenset())

    def on_load(self, E, st, i, av, key):
        n = self.field.get(key)
        if n is not None and n in st.ps[1] and av[0] == "y":
            s = ("pm", "cache", n)
            return ("y", s)
        return None

    def on_refine(self, E, st, sym, f):
        if sym[:2] == ("pm", "cache") and f[0] <= 0 <= f[1] and f[0] == f[1]:
            st.ps = (st.ps[0], st.ps[1] - {sym[2]})
        return True

    def on_store(self, E, st, i, addr, val, key):
        n = self.field.get(key)
        if n is not None and E.isnull(st, val) is True:
            self.seen.setdefault("dropped", set()).add(ir.loc(i))
            st.ps = (st.ps[0], st.ps[1] - {n})

    def on_call(self, E, st, i, name, args):
        p, stale = st.ps
        if name == "strcmp":
            a, b = (x[1][1] if x[0] == "p" and x[1][0] == "S" and x[2] == 0 else None for x in args[:2])
            if a is not None and b is not None:
                return [Outcome("ret", st.ps, ("c", 0 if a == b else 1))]
            return None
        if name in self.prefix:
            a = args[0]
            v = a[1][1] if a[0] == "p" and a[1][0] == "S" else "?"
            self.seen.setdefault("prefix " + v, set()).add(ir.loc(i))
            return [Outcome("ret", (v == self.pfx, stale), None, NONNULL)]
        if name in self.delete:
            return [Outcome("ret", (p, frozenset()))]      # there is no message left to ask
        if name in self.change or name in self.clear:
            t = args[0]
            if t[0] != "p" or t[2] != self.doc:
                return None
            self.seen.setdefault("change", set()).add(ir.loc(i))
            new = (self.pfx not in RESTORED) if name in self.clear else p
            if not new:
                return None
            return [Outcome("ret", (p, frozenset(CACHE[self.pfx])))]
        return None

    def on_exit(self, E, st, f, kind, rv, i, root):
        if root and kind == "ret" and st.ps[1] and rv is not None and E.isnull(st, rv) is not False:
            for n in sorted(st.ps[1]):
                E.violate(f, "stale", "after %s succeeded the message still answers with the %s it had before" % (base_name(f), WHAT[n]), st, key=("stale", base_name(f), n))


def run(P, tier):
    R = Result()
    r0 = Cache(P, "tag")
    roots = sorted(f.name for f in P.public() if f.dtypes[1:2] and f.dtypes[1].replace(" ", "") == "notmuch_message_t*" and f.name in r0.interesting_set and f.dtypes[0] == "notmuch_status_t")
    if len(roots) < 8:
        raise Broken("only %d operations on messages found" % len(roots))
    jobs = [((p,), n) for p in CACHE for n in roots]
    jobs.sort(key=lambda j: "reindex" not in j[1] and "flags" not in j[1])
    vs, seen, S = parallel(P, lambda p: Cache(P, p), jobs)
    R.violations += vs
    for k in ["change", "dropped"] + ["prefix " + p for p in CACHE]:
        if not seen.get(k):
            raise Broken("no %s event" % k)
    R.cov = dict(operations=roots, caches=CACHE, events={k: len(v) for k, v in seen.items()}, analysis=S)
    R.explain = "Every public operation on a message is explored, for each term prefix an answer is cached for, with the set of cached fields that no longer agree with the document as state: changing a term of the prefix makes its fields stale, clearing a field makes it fresh."
    return R
