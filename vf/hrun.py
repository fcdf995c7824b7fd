"""Checks that drive a C harness with operation scripts."""
import os, re
from .engine import Check, Case
from . import build
from .cxyrun import run, setarch


class Script(Case):
    def __init__(self, ops, expect, nontrivial=True, classes=(), key=None):
        self.ops, self.expect = list(ops), list(expect)
        self.nontrivial, self.classes = nontrivial, list(classes)
        self.key = key if key is not None else tuple(self.ops)

    def text(self):
        return "\n".join(self.ops) + "\n// expected:\n" + "\n".join("//   " + str(e) for e in self.expect)


class HarnessCheck(Check):
    harness = "core"
    sources = ["src/cxy/core/*.c"]
    batch = 60
    timeout = 60

    def setup(self):
        self.exe, self.src = build.harness(self.harness, self.sources)

    def run(self, cases):
        text = "".join("case %d\n%s\n" % (i, "\n".join(c.ops)) for i, c in enumerate(cases))
        r = run([self.exe], stdin=text.encode(), timeout=self.timeout,
                env={"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0"})
        out = r.out.decode("latin1")
        if r.rc != 0 or "@@end" not in out:
            if len(cases) == 1:
                m = re.search(r"(ERROR: \w+: [\w-]+|runtime error: [^\n]*|Assertion [^\n]*)", out)
                return ["crash (%s): %s\n%s" % (r.how(), m.group(1) if m else "", out[-2500:])]
            if self.abort:
                return [None] * len(cases)
            h = len(cases) // 2
            a = self.run(cases[:h])
            if any(a) and not self.keep_going:
                return a + [None] * (len(cases) - h)
            return a + self.run(cases[h:])
        parts = re.split(r"@@case (\d+)\n", out[:out.rindex("@@end")])
        got = {int(parts[k]): parts[k + 1].splitlines() for k in range(1, len(parts), 2)}
        res = []
        for i, c in enumerate(cases):
            g = got.get(i, [])
            e = [str(x) for x in c.expect]
            if g == e:
                res.append(None)
                continue
            for k in range(max(len(g), len(e))):
                a = g[k] if k < len(g) else "<none>"
                b = e[k] if k < len(e) else "<none>"
                if a != b:
                    res.append("output: observation %d is %r, expected %r" % (k + 1, a[:800], b[:800]))
                    break
        return res
