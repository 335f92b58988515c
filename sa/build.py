"""Builds whole-program facts from /repo's current working tree.

Every C/C++ translation unit that ships in notmuch (CLI, lib, util,
parse-time-string) is compiled with clang -O0 -g to LLVM bitcode, put in SSA
form with opt's mem2reg, and dumped as JSON by tools/extractor.cc.
"""
import glob, hashlib, json, os, pickle, re, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

DEFS = """-DNOTMUCH_VERSION=0.0.0 -DHAVE_VALGRIND=1 -DHAVE_SFSEXP=1 -DHAVE_GETLINE=1 -DWITH_EMACS=1
-DHAVE_CANONICALIZE_FILE_NAME=1 -DHAVE_STRCASESTR=1 -DHAVE_STRSEP=1 -DHAVE_TIMEGM=1 -DHAVE_D_TYPE=1
-DSTD_GETPWUID=1 -DSTD_ASCTIME=1 -DSILENCE_XAPIAN_DEPRECATION_WARNINGS -DHAVE_XAPIAN_DB_RETRY_LOCK=1
-D_LARGEFILE64_SOURCE""".split()
INCS = ["-I/usr/include/gmime-3.0", "-I/usr/include/glib-2.0",
        "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-pthread",
        "-I/usr/include/libmount", "-I/usr/include/blkid",
        "-I/usr/include/valgrind", "-I/usr/include/sfsexp"]


class BuildError(Exception):
    pass


def sources():
    s = []
    for pat in ("*.c", "lib/*.c", "lib/*.cc", "util/*.c", "parse-time-string/*.c"):
        s += glob.glob(os.path.join(REPO, pat))
    return sorted(s)


def headers():
    h = []
    for pat in ("*.h", "lib/*.h", "util/*.h", "parse-time-string/*.h", "compat/*.h"):
        h += glob.glob(os.path.join(REPO, pat))
    return sorted(h)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def extractor():
    src = os.path.join(VERIF, "tools", "extractor.cc")
    tag = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "extractor-" + tag)
    if not os.path.exists(out):
        flags = run(["llvm-config", "--cppflags"]).split()
        libs = run(["llvm-config", "--ldflags", "--libs", "core", "irreader", "support", "demangle"]).split()
        run(["g++", "-std=c++17", "-O1", "-w", "-fno-rtti"] + flags + [src, "-o", out + ".tmp"] + libs)
        os.rename(out + ".tmp", out)
    return out, tag


def flags_for(src):
    cxx = src.endswith(".cc")
    gcc = sorted(glob.glob("/usr/lib/gcc/x86_64-linux-gnu/*"), key=lambda p: int(os.path.basename(p)))
    gcc = [g for g in gcc if os.path.isdir("/usr/include/c++/" + os.path.basename(g))]
    f = ["clang++" if cxx else "clang"]
    if gcc:
        f.append("--gcc-install-dir=" + gcc[-1])
    f += ["-std=gnu++17" if cxx else "-std=gnu17"]
    f += ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w", "-fPIC",
          "-fvisibility=hidden"]
    f += ["-I" + os.path.join(REPO, d) for d in ("util", "compat", "lib", "parse-time-string")] + ["-I" + REPO]
    return f + INCS + DEFS


def build_tu(src, hh, ext, exttag):
    rel = os.path.relpath(src, REPO)
    fl = flags_for(src)
    key = hashlib.sha1((hh + exttag + " ".join(fl) + REPO).encode() + open(src, "rb").read()).hexdigest()[:16]
    base = os.path.join(BUILD, "tu", rel.replace("/", "__") + "." + key)
    out = base + ".json"
    if not os.path.exists(out):
        run(fl + ["-emit-llvm", "-c", src, "-o", base + ".bc"], cwd=REPO)
        run(["opt", "-passes=mem2reg", base + ".bc", "-o", base + ".m.bc"])
        run([ext, base + ".m.bc", out + ".tmp", REPO])
        os.unlink(base + ".bc"); os.unlink(base + ".m.bc")
        os.rename(out + ".tmp", out)
    return rel, out


def build():
    os.makedirs(os.path.join(BUILD, "tu"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ext, tag = extractor()
        h = hashlib.sha1()
        for p in headers():
            h.update(p.encode()); h.update(open(p, "rb").read())
        hh = h.hexdigest()
        srcs = sources()
        if len(srcs) < 40:
            raise BuildError("only %d translation units found under %s" % (len(srcs), REPO))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda s: build_tu(s, hh, ext, tag), srcs))
        # drop stale cache entries
        keep = {o for _, o in outs}
        if os.environ.get("SA_KEEP") != "1":
            for p in glob.glob(os.path.join(BUILD, "tu", "*.json")):
                if p not in keep and time.time() - os.path.getmtime(p) > 3600:
                    os.unlink(p)
        pk = os.path.join(BUILD, "prog." + hashlib.sha1(("".join(o for _, o in outs)).encode()).hexdigest()[:16] + ".pkl")
        return outs, pk


if __name__ == "__main__":
    t = time.time()
    o, pk = build()
    print(len(o), "TUs", "%.1fs" % (time.time() - t), pk)
