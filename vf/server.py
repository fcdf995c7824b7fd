"""Checks that only compile: a pool of compile servers (see harness/cxyd.c)."""
import os, queue, shutil, subprocess, tempfile
from .engine import Check
from . import build


class Out:
    """outcome of one compilation"""

    def __init__(self, st, out):
        self.raw = out
        self.text = out.decode("utf8", "replace")
        self.signal = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        self.rc = None if self.signal else os.WEXITSTATUS(st)
        self.crash = bool(self.signal) or self.rc not in (0, 1) or "runtime error:" in self.text or "AddressSanitizer" in self.text

    def how(self):
        return "signal %d" % self.signal if self.signal else "exit %d" % self.rc


class Server:
    def __init__(self, exe, args, work):
        e = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1")
        for k in ("CXY_OS", "CXY_ROOT", "CXY_STDLIB_DIR"):
            e.pop(k, None)
        self.cmd, self.env, self.work = [exe] + args + ["x.cxy"], e, work
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.cmd, cwd=self.work, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE)
        l = self.p.stdout.readline()
        if l != b"ready\n":
            raise build.BuildError("the compiler does not start: %s" % (l + self.p.stderr.read()).decode("utf8", "replace")[:2000])
        os.set_blocking(self.p.stderr.fileno(), False)

    def compile(self, d, name, secs):
        self.p.stdin.write(("%s\t%s\t%d\n" % (d, name, secs)).encode())
        self.p.stdin.flush()
        st = int(self.p.stdout.readline())
        try:
            self.p.stderr.read()
            with open(os.path.join(d, "out"), "rb") as f:
                o = f.read()
        except OSError:
            o = b""
        return Out(st, o)

    def stop(self):
        self.p.stdin.close()
        self.p.wait()


class ServerCheck(Check):
    """cases are compiled one by one by forked compilers"""
    variant = "debug"
    last_stage = "Finalize"
    cxy_args = ["--with-mm"]
    seconds = 5
    batch = 25

    def server_args(self):
        return ["dev", "--no-progress", "--no-color", "--last-stage=" + self.last_stage, "--stdlib",
                os.path.join(self.src, "src/cxy")] + self.cxy_args

    def setup(self):
        exe, self.src = build.cxyd(self.variant)
        self.work = tempfile.mkdtemp(prefix="run-%s-" % self.prop, dir=build.WORK)
        self.pool = queue.Queue()
        self.all = [Server(exe, self.server_args(), self.work) for _ in range(self.workers)]
        for s in self.all:
            s.dir = tempfile.mkdtemp(dir=self.work)
            self.pool.put(s)

    def finish(self):
        for s in self.all:
            s.stop()
        shutil.rmtree(self.work, ignore_errors=True)

    def compile(self, text, files=None, name="m.cxy"):
        s = self.pool.get()
        try:
            if isinstance(text, str):
                text = text.encode("utf8", "surrogateescape")
            with open(os.path.join(s.dir, name), "wb") as f:
                f.write(text)
            for n, t in (files or {}).items():
                with open(os.path.join(s.dir, n), "w") as f:
                    f.write(t)
            return s.compile(s.dir, name, self.seconds)
        finally:
            self.pool.put(s)

    def run(self, cases):
        out = []
        for c in cases:
            out.append(None if self.abort else self.one(c))
        return out

    def one(self, case):
        raise NotImplementedError
