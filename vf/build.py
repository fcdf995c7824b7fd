"""Builds what the checks need from /repo's current working tree, outside /repo."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".build")


def _files():
    out = []
    for top in ("src", "cmake", "CMakeLists.txt", "tests"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
            continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha1()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()[:16]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def _prune(keep):
    """keep at most a few old trees around (local development only)"""
    try:
        ds = [os.path.join(WORK, d) for d in os.listdir(WORK) if d.startswith("t-")]
    except OSError:
        return
    ds = sorted((d for d in ds if d != keep), key=os.path.getmtime)
    for d in ds[:-3]:
        shutil.rmtree(d, ignore_errors=True)


def tree_dir():
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(WORK, "t-" + tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    _prune(d)
    return d


def snapshot(d):
    """private copy of the sources (so a run cannot touch /repo)"""
    src = os.path.join(d, "repo")
    ok = os.path.join(d, "snap.ok")
    if os.path.exists(ok):
        return src
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    for top in sorted(os.listdir(REPO)):
        if top in (".git", "_build") or top.startswith("build"):
            continue
        p = os.path.join(REPO, top)
        q = os.path.join(src, top)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.copytree(p, q, symlinks=True)
        else:
            shutil.copy2(p, q, follow_symlinks=False)
    open(ok, "w").close()
    return src


def cxy(variant="debug"):
    """-> (path of cxy binary, path of the private source copy)"""
    d = tree_dir()
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = snapshot(d)
        b = os.path.join(d, variant)
        ok = os.path.join(b, "build2.ok")
        exe = os.path.join(b, "cxy")
        if not os.path.exists(ok):
            t = time.time()
            flags = []
            if variant == "asan":
                f = "-fsanitize=address,undefined -fno-sanitize=function,nonnull-attribute,alignment,pointer-overflow -fno-omit-frame-pointer -O1"
                flags = ["-DCMAKE_C_FLAGS=" + f, "-DCMAKE_CXX_FLAGS=" + f,
                         "-DCMAKE_EXE_LINKER_FLAGS=-fsanitize=address,undefined"]
            env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0")
            lf = open(os.path.join(d, variant + ".log"), "w")
            r = subprocess.run(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                                "-DLLVM_ROOT_DIR=/usr/lib/llvm-18",
                                "-DCMAKE_C_COMPILER=/usr/bin/clang-18",
                                "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18"] + flags,
                               stdout=lf, stderr=subprocess.STDOUT, env=env)
            if r.returncode == 0:
                r = subprocess.run(["ninja", "-C", b, "cxy"], stdout=lf, stderr=subprocess.STDOUT, env=env)
            lf.close()
            if r.returncode != 0:
                raise BuildError("build of cxy (%s) failed, see %s\n%s" %
                                 (variant, lf.name, open(lf.name).read()[-3000:]))
            open(ok, "w").close()
            log("built cxy (%s) in %.1fs" % (variant, time.time() - t))
    return exe, src


def cxyd(variant="debug"):
    """the tree's compiler behind a fork server (harness/cxyd.c) -> (path, source copy)"""
    exe, src = cxy(variant)
    d = tree_dir()
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = os.path.join(d, variant)
        hs = os.path.join(VERIF, "harness", "cxyd.c")
        out = os.path.join(b, "cxyd-" + hashlib.sha1(open(hs, "rb").read()).hexdigest()[:8])
        if not os.path.exists(out):
            import re
            nj = open(os.path.join(b, "build.ninja")).read()
            m = re.search(r"(?m)^build CMakeFiles/cxy\.dir/src/cxy/driver/main\.c\.o:.*\n((?:  .*\n)+)", nj)
            v = dict(re.findall(r"(?m)^  (\w+) = (.*)$", m.group(1)))
            l = re.search(r"(?m)^build cxy: .*\n((?:  .*\n)+)", nj)
            lv = dict(re.findall(r"(?m)^  (\w+) = (.*)$", l.group(1)))
            san = ["-fsanitize=address,undefined"] if variant == "asan" else []
            objs = [o for o in re.search(r"(?m)^build cxy: \S+ (.*?)\|", nj).group(1).split()
                    if o.endswith(".o") and not o.endswith("driver/main.c.o")]
            c = ["clang-18", "-g", "-w", "-std=gnu11"] + san + v.get("DEFINES", "").replace('\\"', '"').split() + v["INCLUDES"].split() + \
                ["-c", hs, "-o", out + ".o"]
            k = ["clang++-18"] + san + [out + ".o"] + objs + lv["LINK_LIBRARIES"].split() + ["-o", out + ".tmp"]
            for cmd in (c, k):
                r = subprocess.run(cmd, cwd=b, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise BuildError("cxyd does not build:\n%s" % r.stdout.decode("utf8", "replace")[-3000:])
            os.rename(out + ".tmp", out)
    return out, src


def harness(name, sources, flags=()):
    """compile /verif/harness/NAME.c(pp) together with sources of the tree"""
    d = tree_dir()
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = snapshot(d)
        hs = os.path.join(VERIF, "harness", name + ".c")
        tag = hashlib.sha1(open(hs, "rb").read() + repr((sources, flags, "noalign2")).encode()).hexdigest()[:8]
        exe = os.path.join(d, "h-%s-%s" % (name, tag))
        if not os.path.exists(exe):
            cmd = ["clang-18", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=undefined",
                   "-fno-omit-frame-pointer", "-w", "-I", os.path.join(src, "src/cxy"), "-o", exe + ".tmp", hs]
            for f in sources:
                cmd += sorted(glob.glob(os.path.join(src, f)))
            cmd += ["-Wl,--unresolved-symbols=ignore-all"] + list(flags)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("harness %s does not build:\n%s" % (name, r.stdout.decode("utf8", "replace")[-3000:]))
            os.rename(exe + ".tmp", exe)
    return exe, src


if __name__ == "__main__":
    sys.exit(0 if cxy() and cxyd() else 1)
