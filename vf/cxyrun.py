"""Running generated C-xy programs: batched compile, execute, compare."""
import os, re, shutil, signal, subprocess, tempfile, threading
from .engine import Check, Case
from . import build

_setarch = None


def setarch():
    """prefix that turns ASLR off, when the sandbox allows it"""
    global _setarch
    if _setarch is None:
        try:
            ok = subprocess.run(["setarch", "x86_64", "-R", "true"], capture_output=True).returncode == 0
        except OSError:
            ok = False
        _setarch = ["setarch", "x86_64", "-R"] if ok else []
    return _setarch


class Res:
    """outcome of a process"""

    def __init__(self, rc, out, timeout=False):
        self.rc, self.out, self.timeout = rc, out, timeout

    def how(self):
        if self.timeout:
            return "timeout"
        if self.rc < 0:
            return "signal %d" % -self.rc
        if self.rc >= 128:
            return "signal-rc %d" % self.rc
        return "exit %d" % self.rc


def run(cmd, cwd=None, timeout=60, env=None, stdin=None, maxout=4 << 20):
    e = dict(os.environ)
    for k in ("CXY_OS", "CXY_ROOT", "CXY_STDLIB_DIR"):
        e.pop(k, None)
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8")
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, out[:maxout])
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return Res(-9, (out or b"")[:maxout], True)


class CxyCase(Case):
    """a snippet: `decls` at top level, `body` statements of its function.
    '§' is replaced by a per-case number, so names never clash."""

    def __init__(self, body, expect, decls="", imports=(), key=None, nontrivial=True, classes=(), files=None, late=False):
        self.body = body if isinstance(body, str) else "\n".join(body)
        self.expect = expect if isinstance(expect, str) else "\n".join(expect)
        self.decls = decls if isinstance(decls, str) else "\n".join(decls)
        self.imports = list(imports)
        self.late = late  # declarations come after the function that uses them
        self.files = dict(files or {})  # other source files; '§' in names and texts too
        self.key = key if key is not None else (late, self.decls, self.body, *sorted(self.files.items()))
        self.nontrivial = nontrivial
        self.classes = list(classes)

    def text(self):
        return "\n".join(x for x in [*["---- file %s\n%s" % f for f in self.files.items()], *(["---- main file"] if self.files else []), *self.imports, "" if self.late else self.decls, "func case_§() {", self.body, "}", self.decls if self.late else "",
                                     "// expected output:", "\n".join("//   " + l for l in self.expect.split("\n"))] if x)


class CxyCheck(Check):
    cxy_args = ["--with-mm"]
    run_timeout = 12
    compile_timeout = 60
    app_env = {"ASAN_OPTIONS": "detect_leaks=0"}
    prelude = ""
    batch = 50

    def setup(self):
        self.exe, self.src = build.cxy()
        self.stdlib = os.path.join(self.src, "src/cxy")
        self.work = tempfile.mkdtemp(prefix="run-%s-" % self.prop, dir=build.WORK)
        self.ncompiles = 0
        setarch()

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def program(self, cases):
        imps = []
        for k, c in enumerate(cases):
            for i in c.imports:
                i = i.replace("§", str(k))
                if i not in imps:
                    imps.append(i)
        L = list(imps)
        if self.prelude:
            L.append(self.prelude)
        for k, c in enumerate(cases):
            n = str(k)
            if c.decls and not c.late:
                L.append(c.decls.replace("§", n))
            L.append("func case_%s() {" % n)
            L.append(c.body.replace("§", n))
            L.append("}")
            if c.decls and c.late:
                L.append(c.decls.replace("§", n))
        L.append("func main() {")
        for k, c in enumerate(cases):
            L.append('  println("@@case ", "%d");' % k)
            L.append("  case_%d();" % k)
        L.append('  println("@@end");')
        L.append("}")
        return "\n".join(L) + "\n"

    def compile(self, text, d, args=None, extra_files=None, name="m.cxy"):
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
        for n, t in (extra_files or {}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
        self.ncompiles += 1
        return run(setarch() + [self.exe, "build", "--no-progress", "--no-color", "--stdlib", self.stdlib]
                   + (self.cxy_args if args is None else args) + [name], cwd=d, timeout=self.compile_timeout)

    def tmp(self):
        return tempfile.mkdtemp(dir=self.work)

    def execute(self, cases):
        """-> (kind, payload): ('compile', msg) | ('crash', msg) | ('ok', [str per case])"""
        d = self.tmp()
        try:
            files = {n.replace("§", str(k)): f.replace("§", str(k)) for k, c in enumerate(cases) for n, f in c.files.items()}
            r = self.compile(self.program(cases), d, extra_files=files)
            app = os.path.join(d, "app")
            if r.rc != 0 or not os.path.exists(app):
                return "compile", "compile (%s): %s" % (r.how(), r.out.decode("utf8", "replace")[:2500])
            a = run([app], cwd=d, timeout=self.run_timeout, env=self.app_env)
            out = a.out.decode("utf8", "replace")
            if a.rc != 0 or "@@end" not in out:
                return "crash", "crash (%s): %s" % (a.how(), out[-2500:])
            parts = re.split(r"(?m)^@@case (\d+)\n", out[:out.rindex("@@end")])
            got = {}
            for k in range(1, len(parts), 2):
                got[int(parts[k])] = parts[k + 1]
            return "ok", [got.get(k, "<missing>") for k in range(len(cases))]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def norm(self, s):
        return s.rstrip("\n")

    def judge(self, case, out):
        o = self.norm(out)
        e = self.norm(case.expect)
        if o == e:
            return None
        ol, el = o.split("\n"), e.split("\n")
        for i in range(max(len(ol), len(el))):
            a = ol[i] if i < len(ol) else "<none>"
            b = el[i] if i < len(el) else "<none>"
            if a != b:
                return "output: line %d is %r, expected %r\n--- full output\n%s" % (i + 1, a, b, o[:1500])
        return "output: differs"

    def run(self, cases):
        kind, p = self.execute(cases)
        if kind == "ok":
            return [self.judge(c, o) for c, o in zip(cases, p)]
        if len(cases) == 1:
            return [p]
        if self.abort:
            return [None] * len(cases)
        h = len(cases) // 2
        a = self.run(cases[:h])
        if any(a) and not self.keep_going:
            return a + [None] * (len(cases) - h)
        return a + self.run(cases[h:])

    # known findings: programs under /verif/known, one JSON each
    def known(self):
        import json
        d = os.path.join(build.VERIF, "known_findings.txt")
        out = []
        if not os.path.exists(d):
            return out
        for line in open(d):
            m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line.strip())
            if not m or m.group(1) != self.prop:
                continue
            k = json.load(open(os.path.join(build.VERIF, m.group(2))))
            out.append((m.group(3) + " (%s)" % m.group(2), self.known_still(k)))
        return out

    def known_still(self, k):
        """does this recorded input still show the defect?"""
        d = self.tmp()
        try:
            r = self.compile(k["program"], d, args=k.get("args"), extra_files=k.get("files"))
            app = os.path.join(d, "app")
            if r.rc != 0 or not os.path.exists(app):
                return True
            a = run([app], cwd=d, timeout=self.run_timeout)
            return a.rc != 0 or a.out.decode("utf8", "replace").strip() != k["expect"].strip()
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main(cls):
    import sys
    try:
        sys.exit(cls().main(sys.argv[1:]))
    except build.BuildError as e:
        print("BUILD-ERROR: %s" % e, file=sys.stderr)
        sys.exit(3)
