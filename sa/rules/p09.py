"""Files are created, renamed and deleted only by the operations whose job it is, and never through a mail path."""
from ..common import *
from .. import flow, ir

O_ACC, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 3, 1, 2, 0o100, 0o200, 0o1000, 0o2000

# every primitive of the C library, zlib and GLib that creates, changes, renames or deletes something in the file system
EFFECTS = set("""unlink unlinkat rename renameat renameat2 remove rmdir mkdir mkdirat link linkat symlink symlinkat mkfifo mknod mkstemp mkostemp mkstemps mkdtemp mktemp
tempnam tmpfile creat creat64 truncate truncate64 ftruncate ftruncate64 chmod fchmod fchmodat chown fchown lchown utime utimes futimes utimensat futimens nftw ftw fts_open
g_mkdir g_mkdir_with_parents g_unlink g_rename g_remove g_rmdir g_chmod g_file_set_contents g_file_set_contents_full g_key_file_save_to_file g_mkstemp g_mkdtemp g_file_replace g_file_delete
sendfile copy_file_range splice pwrite pwrite64 fallocate posix_fallocate""".split())
OPENS = {"open": 1, "open64": 1, "openat": 2, "openat64": 2}
FOPENS = {"fopen": 1, "fopen64": 1, "freopen": 1, "freopen64": 1, "gzopen": 1, "gzopen64": 1, "popen": 1}
GM_OPEN = {"g_mime_stream_fs_open": 1, "g_mime_stream_file_open": 1}

# who may use which of them, and what for
MAY = {
    "notmuch_insert_command": {"unlink": "removes the message it delivered when indexing it failed"},
    "maildir_write_new": {"rename": "moves the delivered message from tmp to new", "unlink": "removes its own temporary file"},
    "maildir_write_tmp": {"unlink": "removes its own temporary file"},
    "maildir_mktemp": {"open": "creates the temporary file"},
    "mkdir_recursive": {"mkdir": "creates the folder asked for"},
    "notmuch_message_tags_to_maildir_flags": {"rename": "synchronizes tags to maildir flags"},
    "notmuch_database_dump": {"mkstemp": "temporary output file", "rename": "moves the finished dump in place", "unlink": "removes the temporary file"},
    "notmuch_database_compact_db": {"rename": "swaps the compacted index in"},
    "rmtree": {"nftw": "removes the old index after compaction"},
    "unlink_cb": {"remove": "removes the old index after compaction"},
    "_mkdir": {"g_mkdir_with_parents": "creates the index directory"},
    "_maybe_upgrade": {"mkdir": "creates the backup directory"},
    "notmuch_conffile_save": {"g_file_set_contents": "replaces the configuration file"},
    "notmuch_database_destroy": {"fopen": "memory report asked for in the environment"},
    "main": {"fopen": "memory report asked for in the environment"},
}
LOGS = {"notmuch_database_destroy", "main"}

# operations on the file system each command may lead to
CMD = {
    "notmuch_insert_command": {"unlink", "rename", "open", "mkdir"},
    "notmuch_new_command": {"unlink", "rename", "mkstemp", "mkdir"},
    "notmuch_dump_command": {"unlink", "rename", "mkstemp"},
    "notmuch_compact_command": {"rename", "remove", "nftw"},
    "notmuch_tag_command": {"rename"},
    "notmuch_restore_command": {"rename"},
    "notmuch_config_command": {"g_file_set_contents"},
    "notmuch_setup_command": {"g_file_set_contents"},
    "notmuch_command": {"g_file_set_contents"},
}
# library operations that may touch the file system
LIB = {
    "notmuch_message_tags_to_maildir_flags": {"rename"},
    "notmuch_database_compact": {"rename", "remove", "nftw"},
    "notmuch_database_compact_db": {"rename", "remove", "nftw"},
    "notmuch_database_create": {"g_mkdir_with_parents"},
    "notmuch_database_create_verbose": {"g_mkdir_with_parents"},
    "notmuch_database_create_with_config": {"g_mkdir_with_parents"},
}

# values that name a file of the mail store
MAIL = {"notmuch_message_get_filename", "notmuch_filenames_get", "_notmuch_message_file_get_filename", "_notmuch_message_get_filename", "notmuch_message_get_filenames", "_notmuch_filenames_get"}


def flagvals(P, i, n):
    """constants an open flags argument can take (None when unknown)"""
    r = set()
    for o in flow.origins(P, i.F, i.args[n]):
        if o[0] == "const" and o[1][0] == "c":
            r.add(o[1][1])
        elif o[0] != "other":
            return None
    return r


def modes(P, i, n):
    a = i.args[n]
    if a[0] == "s":
        return {a[1]}
    r = set()
    f = i.F
    w = [(f, a)]
    seen = set()
    while w:
        f, a = w.pop()
        if (f.name, a) in seen:
            continue
        seen.add((f.name, a))
        if a[0] == "s":
            r.add(a[1])
        elif a[0] == "a":
            cs = P.callers.get(f.name, ())
            if not cs:
                return None
            w += [(c.F, c.args[a[1]]) for c in cs]
        elif a[0] == "v":
            d = f.byid[a[1]]
            if d.op == "load" and d.d["p"][0] == "v" and f.byid[d.d["p"][1]].op == "alloca":
                st = flow.allocas(f).get(d.d["p"][1])
                if not st:
                    return None
                w += [(f, x) for x in st]
            elif d.op in ("phi",):
                w += [(f, x) for b, x in d.d["in"]]
            elif d.op == "select":
                w += [(f, x) for x in d.d["ops"][1:]] if "ops" in d.d else [(f, d.d["b"]), (f, d.d["c"])]
            else:
                return None
        else:
            return None
    return r


def run(P, tier):
    R = Result()
    sites = {}
    pathchecks = 0
    have = {base_name(f) for f in P.fns.values()}
    # a listed function that was merged into its caller passes its permissions on
    gone = {p for n, m in MAY.items() if n not in have for p in m}

    def site(i, prim, why):
        d = P.demangle(i.callee).split("(")[0]
        own = {o for o in owners(P, i.F.name)}
        sites.setdefault(d, []).append(ir.loc(i))
        for o in own:
            if prim not in MAY.get(o, {}) and prim not in gone:
                R.v(i, "file-effect", "%s %s, which is not one of its jobs" % (o, why), ("effect", o, prim))

    eff = {}          # functions containing an effect -> prims
    for n, cs in sorted(P.callers.items()):
        if n in P.fns:
            continue
        for i in cs:
            prim = None
            if n in EFFECTS:
                prim = n
                site(i, prim, "calls %s" % n)
            elif n in OPENS:
                fl = flagvals(P, i, OPENS[n])
                sites.setdefault(n, []).append(ir.loc(i))
                if fl is None:
                    R.v(i, "open-mode", "%s opens a file with flags that are not fixed" % i.F.dem.split("(")[0], ("openflags", base_name(i.F)))
                    continue
                for x in fl:
                    if x & O_ACC or x & (O_CREAT | O_TRUNC | O_APPEND):
                        prim = n
                        site(i, "open", "opens a file for writing")
                        if not (x & O_CREAT and x & O_EXCL):
                            R.v(i, "exclusive", "%s can write into a file that already exists" % i.F.dem.split("(")[0], ("exclusive", base_name(i.F)))
            elif n in FOPENS or n in GM_OPEN:
                ms = modes(P, i, FOPENS.get(n, 1))
                sites.setdefault(n, []).append(ir.loc(i))
                if ms is None and n in FOPENS:
                    R.v(i, "open-mode", "%s opens a file in a mode that is not fixed" % i.F.dem.split("(")[0], ("openmode", base_name(i.F)))
                    continue
                for m in ms or ():
                    if n in FOPENS and (m[:1] != "r" or "+" in m):
                        prim = n
                        site(i, "fopen", "opens a file for writing")
            if prim is None:
                continue
            eff.setdefault(i.F.name, set()).add(prim)
            # the path must not be one the index holds for a message
            if n in ("rename",):
                which = (1,)
                allowed_src = {"notmuch_message_tags_to_maildir_flags"}
            else:
                which = (0,)
                allowed_src = set()
            ks = (0, 1) if n == "rename" else (0,)
            for k in ks:
                org = flow.origins(P, i.F, i.args[k])
                pathchecks += 1
                bad = sorted(o[1] for o in org if o[0] == "call" and o[1] in MAIL)
                for o in owners(P, i.F.name):
                    if bad and not (k == 0 and o in allowed_src):
                        R.v(i, "mail-path", "%s hands the path of an indexed message (%s) to %s" % (o, bad[0], n), ("mailpath", o, n, k))
                if prim == "fopen" or n in FOPENS:
                    for o in owners(P, i.F.name):
                        if o in LOGS and not all(x == ("call", "getenv") for x in org):
                            R.v(i, "log-path", "%s opens for writing a path that does not come from the environment" % o, ("logpath", o))
                    for m in modes(P, i, FOPENS[n]) or ():
                        if m[:1] == "w":
                            R.v(i, "truncate", "%s truncates an existing file" % i.F.dem.split("(")[0], ("truncate", base_name(i.F)))
            # only flag synchronization turns an old message path into a new one, and only by changing its last component
            if n == "rename" and "notmuch_message_tags_to_maildir_flags" in owners(P, i.F.name):
                dst = flow.origins(P, i.F, i.args[1], down=False)
                if not any(o[0] == "call" and "_new_maildir_filename" in o[1] for o in dst) and not any(o[0] == "call" and o[1] in P.fns and base_name(P.fns[o[1]]) not in baseline() for o in dst):
                    R.v(i, "rename-target", "the new name of a message does not come from the maildir flag computation", ("target",))
    if sum(len(x) for x in sites.values()) < 20:
        raise Broken("only %d file system call sites found" % sum(len(x) for x in sites.values()))
    # which operations lead there
    cmds = {}
    for c in commands(P):
        pred = flow.reach(P, [c])
        got = {}
        for fn, prims in eff.items():
            if fn in pred:
                for p in prims:
                    if p not in ("fopen",):
                        got.setdefault(p, fn)
        b = base_name(P.fns[c])
        cmds[b] = sorted(got)
        for p in sorted(set(got) - CMD.get(b, set())):
            R.v(P.fns[c], "command-effect", "%s can lead to %s" % (b, p), ("command", b, p), flow.path(P, pred, got[p]))
    libs = {}
    for f in P.public():
        pred = flow.reach(P, [f.name])
        got = {}
        for fn, prims in eff.items():
            if fn in pred:
                for p in prims:
                    if p != "fopen":
                        got.setdefault(p, fn)
        if got:
            libs[f.name] = sorted(got)
        for p in sorted(set(got) - LIB.get(f.name, set())):
            R.v(f, "library-effect", "%s can lead to %s" % (f.name, p), ("library", f.name, p), flow.path(P, pred, got[p]))
    R.cov = dict(call_sites={k: len(v) for k, v in sorted(sites.items())}, functions_with_effects=sorted(base_name(P.fns[x]) for x in eff), paths_traced=pathchecks, commands=cmds, library_operations=libs, public_operations=len(P.public()))
    R.explain = "Every call of a primitive that creates, changes, renames or deletes a file, and every open in a writing mode, is attributed to an operation and compared with what that operation may do; path arguments are traced to their origins; the call graph gives what each command and library operation can lead to."
    return R
