"""The library leaves its host process alone and keeps no state outside its objects."""
from ..common import *
from .. import flow, ir

LIBDIRS = ("lib/", "util/", "parse-time-string/")
FORBID = {
    "the standard output": "printf puts putchar vprintf putchar_unlocked",
    "the standard input": "scanf getchar gets",
    "the working directory or root": "chdir fchdir chroot",
    "the environment or locale": "setenv unsetenv putenv clearenv g_setenv g_unsetenv setlocale uselocale tzset umask g_set_prgname g_set_application_name",
    "signal handling or timers": "signal sigaction sigprocmask pthread_sigmask sigsuspend alarm setitimer timer_create ualarm raise kill pause",
    "processes": "fork vfork clone execl execlp execle execv execvp execvpe posix_spawn posix_spawnp system popen g_spawn_sync g_spawn_async g_spawn_command_line_sync g_spawn_command_line_async wait waitpid daemon",
    "the life of the process": "exit _exit _Exit quick_exit atexit on_exit pthread_exit",
    "resource limits, identity or threads": "setrlimit setuid setgid seteuid setegid setsid setpgid nice pthread_create",
    "file descriptors it does not own": "dup2 dup3 closefrom close_range",
    "hidden static buffers of the C library": "strtok asctime ctime gmtime localtime getpwnam getpwuid getgrnam getgrgid getlogin ttyname tmpnam rand srand random srandom drand48 lrand48 srand48 basename gethostbyname inet_ntoa getservbyname mblen mbtowc wctomb crypt ecvt fcvt gcvt hcreate hsearch hdestroy readdir ptsname getmntent setkey l64a",
    "the allocator's global settings": "talloc_enable_null_tracking talloc_enable_leak_report talloc_enable_leak_report_full talloc_set_abort_fn talloc_set_log_fn talloc_disable_null_tracking mallopt g_log_set_default_handler g_log_set_handler g_mime_shutdown",
}
# (operation, function): why
ALLOW = {
    ("_internal_error", "exit"): "broken internal invariant: documented to abort the program",
    ("xstrdup", "exit"): "out of memory", ("xcalloc", "exit"): "out of memory", ("xmalloc", "exit"): "out of memory", ("xrealloc", "exit"): "out of memory",
    ("xstrndup", "exit"): "out of memory", ("xregcomp", "exit"): "internal regular expression",
    ("notmuch_database_upgrade", "sigaction"): "progress timer of an upgrade with a progress callback", ("notmuch_database_upgrade", "setitimer"): "as above",
}
# globals written at run time: why that shares nothing between handles
GLOBALS = {
    "do_progress_notify": "flag set by the upgrade's progress timer",
    "type": "GObject class registration, once per process", "parent_class": "as above", "initialized": "one-time initialization flag",
}
INITFN = ("__cxx_global_var_init", "_GLOBAL__sub_I")
READS = {"strcmp", "strncmp", "strlen", "strcasecmp", "memcmp", "fprintf", "printf"}
GCALL = {"_notmuch_init": "one-time initialization", "_notmuch_filter_init": "class registration", "notmuch_filter_get_type": "class registration", "notmuch_filter_discard_non_term_get_type": "class registration"}


def inlib(P, n):
    f = P.fns.get(n)
    return f is not None and f.tu.startswith(LIBDIRS)


def run(P, tier):
    R = Result()
    pub = [f.name for f in P.public()]
    if len(pub) < 100:
        raise Broken("only %d public functions" % len(pub))
    pred = {r: None for r in pub}
    w = list(pub)
    while w:
        n = w.pop()
        if not inlib(P, n):
            continue
        for i in P.fns[n].calls():
            ts = [i.callee] if i.callee else [t for t in P.targets(i) if inlib(P, t)]
            ts += [a[1] for a in i.args or () if isinstance(a, tuple) and a[0] == "f"]
            for t in ts:
                if t not in pred and (t not in P.fns or inlib(P, t)):
                    pred[t] = i
                    w.append(t)
    fns = [P.fns[n] for n in pred if n in P.fns]
    # everything in the library can run, including what only function tables reach
    fns += [f for f in P.fns.values() if f.tu.startswith("lib/") and f.name not in pred]
    names = {x: what for what, l in FORBID.items() for x in l.split()}
    have = {base_name(f) for f in P.fns.values()}
    calls = 0
    for f in fns:
        for i in f.calls():
            calls += 1
            n = i.callee
            if n in names and n not in P.fns:
                for o in owners(P, f.name):
                    if (o, n) not in ALLOW:
                        R.v(i, "host-process", "%s calls %s, touching %s of the program using the library" % (o, n, names[n]), ("host", o, n), flow.path(P, pred, f.name))
            # writing to the standard streams through their FILE objects
            if n in ("fprintf", "fputs", "fputc", "fwrite", "putc", "vfprintf", "fflush", "__fprintf_chk", "__vfprintf_chk"):
                for a in i.args:
                    org = flow.origins(P, f, a, up=False, down=False) if a[0] == "v" else ()
                    if ("global", "stdout") in org:
                        for o in owners(P, f.name):
                            R.v(i, "host-process", "%s writes to the standard output of the program using the library" % o, ("stdout", o))
        for i in f.instrs():
            for x in ir.operands(i):
                if x[0] == "g" and x[1] == "stdin":
                    for o in owners(P, f.name):
                        R.v(i, "host-process", "%s uses the standard input of the program using the library" % o, ("stdin", o))
    # mutable state outside objects
    glob = {g.name: g for g in P.globals.values() if not g.const and not g.decl and g.tu.startswith(LIBDIRS) and not g.name.startswith(("llvm.", "_ZGV"))}
    writes = {}
    for f in P.fns.values():
        if f.name.startswith(INITFN) or not (f in fns or f.tu.startswith(LIBDIRS)):
            continue
        der = {}

        def base(o, d=6):
            while d and o[0] == "v":
                j = f.byid[o[1]]
                if j.op in ("getelementptr", "bitcast"):
                    o = j.d.get("p") or j.d["ops"][0]
                else:
                    break
                d -= 1
            return o[1] if o[0] == "g" else None
        for i in f.instrs():
            g = None
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                g = base(i.d["p"]) if "p" in i.d else None
            elif i.op in ("call", "invoke") and i.callee not in READS:
                d = P.demangle(i.callee) if i.callee else ""
                for n, a in enumerate(i.args or ()):
                    b = base(a)
                    if b in glob and not d.split("(")[0].startswith("std::operator") and not ("const" in d.split(")")[-1]) and not reads_only(P, i, n):
                        g = b
            if g in glob:
                writes.setdefault(g, []).append(i)
    for g, sites in sorted(writes.items()):
        dn = glob[g].dname.split("::")[-1].split("@")[0]
        if dn in GLOBALS:
            continue
        i = sites[0]
        R.v(i, "shared-state", "%s is changed at run time by %s: the state of one handle reaches every other" % (dn, base_name(i.F)), ("global", dn))
    R.cov = dict(public_functions=len(pub), functions=len(fns), calls=calls, forbidden_functions=len(names), allowed={"%s/%s" % k: v for k, v in ALLOW.items() if k[0] in have}, mutable_globals=sorted(g.dname for g in glob.values()), written=sorted(glob[g].dname for g in writes))
    R.explain = "Every function the public API can reach (callbacks supplied by the host excluded) is scanned for calls that change process-wide state, for uses of the host's standard streams and for writes to memory outside heap objects and the stack."
    return R


def reads_only(P, i, n):
    """the callee takes this parameter as a const reference or pointer, or is a copy constructor source"""
    if i.callee is None:
        return False
    d = P.demangle(i.callee)
    a = d.find("(")
    if a < 0:
        return i.callee in ("_notmuch_string_map_get",)
    # parameter list at depth one
    depth = 0; cur = ""; ps = []
    for c in d[a + 1:]:
        if c in "(<":
            depth += 1
        elif c in ")>":
            if depth == 0 and c == ")":
                break
            depth -= 1
        elif c == "," and depth == 0:
            ps.append(cur); cur = ""
            continue
        cur += c
    ps.append(cur)
    meth = "::" in d[:a] and len(i.args) > len(ps)
    k = n - (len(i.args) - len(ps))
    if k < 0:
        return False
    return "const" in ps[k]
