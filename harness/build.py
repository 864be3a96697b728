#!/usr/bin/env python3
"""Builds the code under test from /repo's current working tree together with a harness program.

Every object is keyed by a hash of what it is made from (all sources and headers under
/repo/geodiff/src and under /verif/harness, the compiler flags), so a change in what the code does
is always rebuilt, and an unchanged tree is reused.
"""
import glob, hashlib, os, subprocess, sys, concurrent.futures, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "geodiff/src")
OUT = os.path.join(VERIF, "build")

DEFS = ["-DSQLITE_CORE", "-DSQLITE_ENABLE_SESSION", "-DSQLITE_ENABLE_PREUPDATE_HOOK", "-DENABLE_TESTS",
        "-DGEODIFF_STATIC"]
VARIANTS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=vptr,nonnull-attribute", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "pic": ["-O1", "-g1", "-fPIC"],
}


def _files(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return sorted(r)


def _hash(paths, extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(e.encode() + b"\0")
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def config_dir():
    """geodiff_config.hpp as configured with PostgreSQL support."""
    tpl = os.path.join(REPO, "geodiff/cmake_templates/geodiff_config.hpp.in")
    txt = open(tpl).read() if os.path.exists(tpl) else "#cmakedefine HAVE_POSTGRES\n"
    txt = txt.replace("#cmakedefine HAVE_POSTGRES", "#define HAVE_POSTGRES")
    d = os.path.join(OUT, "config-" + hashlib.sha256(txt.encode()).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "geodiff_config.hpp")
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return d


def incs():
    dirs = sorted({os.path.dirname(p) for p in _files(SRC, (".h", ".hpp"))} | {SRC})
    r = ["-I" + os.path.join(HERE, "stub"), "-I" + os.path.join(HERE, "mc"), "-I" + config_dir(),
         "-I/usr/include/postgresql"]
    return r + ["-I" + d for d in dirs]


def build(exe, main, variant="plain", extra_src=(), extra_flags=(), link_flags=(), lib_exclude=("geodiffinfo.cpp",),
          std="c++14", shared=False, with_common=True):
    """Compile the library, the stand-ins and `main` (+extra) into build/<hash>/<exe>; return its path."""
    flags = VARIANTS[variant] + list(extra_flags)
    lib = [p for p in _files(SRC, (".cpp", ".c", ".cc")) if os.path.basename(p) not in lib_exclude]
    hdr = _files(SRC, (".h", ".hpp"))
    hh = _files(HERE, (".h", ".hpp"))
    mine = [os.path.join(HERE, "stub/gpkg_stub.cpp"), os.path.join(HERE, "fakepq/fakepq.cpp")]
    if with_common:
        mine.append(os.path.join(HERE, "mc/mc.cpp"))
    mine += [p if os.path.isabs(p) else os.path.join(HERE, p) for p in list(extra_src) + ([main] if main else [])]
    inc = incs()
    objs, jobs = [], []
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lib_std = "c++11"
    for p in lib:
        k = _hash([p] + hdr, flags + DEFS + inc + [lib_std, "lib"])
        objs.append((p, os.path.join(OUT, "obj", k + ".o"), ["-std=" + lib_std] + flags + DEFS + inc + ["-w"]))
    for p in mine:
        k = _hash([p] + hh + hdr, flags + DEFS + inc + [std, "mine"])
        objs.append((p, os.path.join(OUT, "obj", k + ".o"), ["-std=c++17"] + flags + DEFS + inc + ["-Wall", "-Wno-unused-function", "-Wno-sign-compare"]))
    ek = _hash([], [o for _, o, _ in objs] + list(link_flags) + flags + [exe])
    target = os.path.join(OUT, "bin", ek, exe)
    if os.path.exists(target):
        return target

    def comp(t):
        p, o, fl = t
        if os.path.exists(o):
            return
        tmp = o + ".%d.tmp.o" % os.getpid()
        _run(["g++", "-c", p, "-o", tmp] + fl)
        os.replace(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # biggest files first
        for f in [ex.submit(comp, t) for t in sorted(objs, key=lambda t: -os.path.getsize(t[0]))]:
            f.result()
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = target + ".%d" % os.getpid()
    _run(["g++", "-o", tmp] + [o for _, o, _ in objs] + flags + (["-shared"] if shared else []) +
         ["-lsqlite3", "-lpthread", "-ldl"] + list(link_flags))
    os.replace(tmp, target)
    return target


def locales():
    """directory with a locale that writes numbers as 1.234,5; empty if it cannot be made here"""
    d = os.path.join(OUT, "locale")
    if not os.path.isdir(os.path.join(d, "tr_TR.UTF-8")):
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%d" % os.getpid())
        try:
            subprocess.call(["localedef", "-c", "-i", "tr_TR", "-f", "UTF-8", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.rename(tmp, os.path.join(d, "tr_TR.UTF-8"))
        except OSError:
            pass
    return d


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], *(sys.argv[3:4])))
