"""L03: statements run in the order the source prescribes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad

PRELUDE = '''func tr(x: i64): i64 { println("p", x); return x; }
'''
MAXTRACE = 160
ENUM = ["Red", "Green", "Blue", "Black"]


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


def balanced(x):
    d = 0
    for c in x:
        d += (c == "(") - (c == ")")
        if d < 0:
            return False
    return d == 0


def tmod(a, b):
    return abs(a) % b * (1 if a >= 0 else -1)


class Prog:
    """generates statements; each is (render(indent)->[lines], exec(env))"""

    def __init__(self, t, features):
        self.t = t
        self.out = []
        self.n = 0
        self.cl = set()
        self.funcs = []
        self.budget = 0
        self.calls = False
        self.feat = features

    # ---- runtime
    def emit(self, s):
        self.out.append(s)
        if len(self.out) > MAXTRACE:
            raise Bad()

    def tick(self):
        self.budget += 1
        if self.budget > 3000:
            raise Bad()

    # ---- expressions: (text, fn(env))
    def expr(self, vs, d, call=True):
        t = self.t
        k = t.below(9 if d > 0 else 4)
        if k < 2 and vs:
            n = t.choice(vs)
            return n, (lambda e: e[n]), False
        if k < 4:
            c = t.near0(-20, 60)
            s = "%d" % c if c >= 0 else "(%d)" % c
            return "(%s as i64)" % s, (lambda e: c), False
        if k == 4 and call:
            x, fx, cx = self.expr(vs, d - 1)
            if cx:
                self.cl.add("nested call")

            def f(e):
                v = fx(e)
                self.emit("p%d" % v)
                return v
            return "tr(%s)" % x, f, True
        if k == 5 and call and self.callable:
            name, nargs, body, ndef = t.choice(self.callable)
            args, calls = [], True
            for _ in range(nargs - t.below(ndef + 1)):
                args.append(self.expr(vs, d - 1, calls))
                calls = calls and not args[-1][2]     # the order of arguments is left open

            def f(e):
                return body([a[1](e) for a in args])
            self.cl.add("call")
            if len(args) < nargs:
                self.cl.add("default argument")
            return "%s(%s)" % (name, ", ".join(a[0] for a in args)), f, True
        if k == 6:
            c, fc, _ = self.cond(vs, d - 1, call)
            a, fa, _ = self.expr(vs, d - 1, call)
            b, fb, _ = self.expr(vs, d - 1, call)
            self.cl.add("ternary")
            return "((%s) ? %s : %s)" % (c, a, b), (lambda e: fa(e) if fc(e) else fb(e)), True
        op = t.choice("+-*%")
        a, fa, ca = self.expr(vs, d - 1, call)
        if op == "%":
            m = t.int(2, 9)
            return "(%s %% %d)" % (a, m), (lambda e: tmod(fa(e), m)), ca
        b, fb, cb = self.expr(vs, d - 1, call and not ca)

        def f(e):
            x, y = fa(e), fb(e)
            v = {"+": x + y, "-": x - y, "*": x * y}[op]
            if abs(v) > 1 << 40:
                raise Bad()
            return v
        return "(%s %s %s)" % (a, op, b), f, ca or cb

    def cond(self, vs, d, call=True):
        t = self.t
        k = t.below(8 if d > 0 else 4)
        if k < 4:
            op = t.choice(["<", "<=", ">", ">=", "==", "!="])
            a, fa, ca = self.expr(vs, min(d, 1), call)
            b, fb, cb = self.expr(vs, min(d, 1), call and not ca)
            f = {"<": lambda e: fa(e) < fb(e), "<=": lambda e: fa(e) <= fb(e), ">": lambda e: fa(e) > fb(e),
                 ">=": lambda e: fa(e) >= fb(e), "==": lambda e: fa(e) == fb(e), "!=": lambda e: fa(e) != fb(e)}[op]
            return "%s %s %s" % (a, op, b), f, ca or cb
        if k == 4:
            a, fa, ca = self.cond(vs, d - 1, call)
            return "!(%s)" % a, (lambda e: not fa(e)), ca
        a, fa, ca = self.cond(vs, d - 1, call)
        b, fb, cb = self.cond(vs, d - 1, call)
        self.cl.add("short circuit")
        if k < 7:
            return "(%s) && (%s)" % (a, b), (lambda e: fa(e) and fb(e)), ca or cb
        return "(%s) || (%s)" % (a, b), (lambda e: fa(e) or fb(e)), ca or cb

    # ---- statements
    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def trace(self, vs):
        k = self.name("t")
        x, fx, _ = self.expr(vs, 1)
        return (lambda i: [i + 'println("%s ", %s);' % (k, x)]), (lambda e, fr: self.emit("%s %d" % (k, fx(e))))

    def block(self, vs, d, loop, infn, n=None, top=False):
        """-> (list of rendered statements fn, exec) with its own scope and defers"""
        t = self.t
        vs = list(vs)
        mut = [v for v in vs]
        stmts = []
        cnt = t.int(1, 4) if n is None else n
        dead = False
        for _ in range(cnt):
            s = self.stmt(vs, d, loop, infn)
            stmts.append(s)

        def render(i):
            L = []
            for s in stmts:
                L += s[0](i)
            return L

        def ex(e, fr):
            defers = []
            new = dict(e)
            try:
                for s in stmts:
                    self.tick()
                    s[1](new, defers)
            finally:
                # variables of the outer scope keep their new values
                err = sys.exc_info()[0]
                if err is None or err in (Break, Continue, Return):
                    for f in reversed(defers):
                        f(new)
                for k in e:
                    e[k] = new[k]
        return render, ex

    def body(self, vs, d, loop, infn):
        r, x = self.block(vs, d, loop, infn)
        return (lambda i: r(i + "  ")), x

    def assignable(self, vs):
        return [v for v in vs if v[0] in "vg"]

    def stmt(self, vs, d, loop, infn):
        t = self.t
        opts = [(5, "trace"), (3, "var"), (4, "assign")]
        if d > 0:
            opts += [(5, "if"), (3, "while"), (4, "for"), (4, "switch"), (2, "block"), (1, "forever"), (2, "foreach")]
        if loop:
            opts += [(3, "break"), (3, "continue")]
        if infn:
            opts += [(2, "return")]
        opts += [(2, "defer"), (1, "const"), (1, "expr")]
        k = t.weighted(opts)
        self.cl.add(k)
        return getattr(self, "s_" + k)(vs, d, loop, infn)

    def s_trace(self, vs, d, loop, infn):
        return self.trace(vs)

    def s_expr(self, vs, d, loop, infn):
        x, fx, _ = self.expr(vs, 0, False)

        def ex(e, fr):
            self.emit("p%d" % fx(e))
        return (lambda i: [i + "tr(%s);" % x]), ex

    def s_var(self, vs, d, loop, infn):
        n = self.name()
        x, fx, _ = self.expr(vs, 2)
        late = self.t.bool(1, 6)
        vs.append(n)

        def ex(e, fr):
            e[n] = fx(e)
        if late:
            return (lambda i: [i + "var %s: i64;" % n, i + "%s = %s;" % (n, x)]), ex
        return (lambda i: [i + "var %s: i64 = %s;" % (n, x)]), ex

    def s_const(self, vs, d, loop, infn):
        n = self.name("c")
        x, fx, _ = self.expr(vs, 2)
        vs.append(n)

        def ex(e, fr):
            e[n] = fx(e)
        return (lambda i: [i + "const %s: i64 = %s;" % (n, x)]), ex

    def s_assign(self, vs, d, loop, infn):
        av = self.assignable(vs)
        if not av:
            return self.s_var(vs, d, loop, infn)
        n = self.t.choice(av)
        if self.t.bool(1, 4):
            inc = self.t.bool()

            def ex(e, fr):
                e[n] += 1 if inc else -1
            return (lambda i: [i + n + ("++;" if inc else "--;")]), ex
        op = self.t.choice(["", "+", "-", "*"])
        x, fx, _ = self.expr(vs, 2 if not op else 1, op == "")

        def ex(e, fr):
            y = fx(e)
            v = {"": y, "+": e[n] + y, "-": e[n] - y, "*": e[n] * y}[op]
            if abs(v) > 1 << 40:
                raise Bad()
            e[n] = v
        if x.startswith("((") and " ? " in x and self.t.bool():
            x = x[1:-1] if balanced(x[1:-1]) else x
        return (lambda i: [i + "%s %s= %s;" % (n, op, x)]), ex

    def s_if(self, vs, d, loop, infn):
        t = self.t
        arms = []
        for _ in range(t.int(1, 3)):
            arms.append((self.cond(vs, 2), self.body(vs, d - 1, loop, infn)))
        els = self.body(vs, d - 1, loop, infn) if t.bool() else None

        def render(i):
            L = []
            for j, ((c, _, _), (r, _)) in enumerate(arms):
                L.append(i + ("} else if (%s) {" if j else "if (%s) {") % c)
                L += r(i)
            if els:
                L.append(i + "} else {")
                L += els[0](i)
            return L + [i + "}"]

        def ex(e, fr):
            for (_, f, _), (_, b) in arms:
                if f(e):
                    return b(e, fr)
            if els:
                els[1](e, fr)
        return render, ex

    def s_while(self, vs, d, loop, infn):
        n = self.name("w")
        lim = self.t.int(0, 4)
        c, fc, _ = self.cond(vs, 1)
        both = self.t.bool(1, 3)
        r, b = self.body(vs + [n], d - 1, True, infn)

        def ex(e, fr):
            e2 = dict(e)
            e2[n] = 0
            while e2[n] < lim and (not both or fc(e2)):
                self.tick()
                e2[n] += 1
                try:
                    b(e2, fr)
                except Break:
                    break
                except Continue:
                    pass
                finally:
                    for k in e:
                        e[k] = e2[k]
        cc = "%s < %d" % (n, lim) + (" && (%s)" % c if both else "")
        return (lambda i: [i + "var %s: i64 = 0;" % n, i + "while (%s) {" % cc, i + "  %s++;" % n] + r(i) + [i + "}"]), ex

    def s_forever(self, vs, d, loop, infn):
        n = self.name("w")
        lim = self.t.int(1, 4)
        r, b = self.body(vs + [n], d - 1, True, infn)

        def ex(e, fr):
            e2 = dict(e)
            e2[n] = 0
            while True:
                self.tick()
                e2[n] += 1
                if e2[n] > lim:
                    break
                try:
                    b(e2, fr)
                except Break:
                    break
                except Continue:
                    pass
                finally:
                    for k in e:
                        e[k] = e2[k]
        return (lambda i: [i + "var %s: i64 = 0;" % n, i + "while {", i + "  %s++;" % n,
                           i + "  if (%s > %d) break;" % (n, lim)] + r(i) + [i + "}"]), ex

    def s_for(self, vs, d, loop, infn):
        t = self.t
        n = self.name("it")
        k = t.below(4)
        if k == 0:
            a, z = t.near0(-3, 4), t.near0(-3, 8)
            seq = list(range(a, z))
            rg = "(%s as i64)..%d" % ("(%d)" % a if a < 0 else a, z) if t.bool() else "%d..%d" % (a, z)
        elif k == 1:
            a, z, s = t.int(0, 4), t.int(0, 30), t.int(1, 9)
            seq = list(range(a, z, s))
            rg = "range(%d as i64, %d, %d)" % (a, z, s)
        elif k == 2:
            a, z, s = t.int(0, 30), t.int(0, 5), -t.int(1, 9)
            seq = list(range(a, z, s))
            rg = "range(%d as i64, %d, %d)" % (a, z, s)
        else:
            # bounds that are computed: evaluated once, before the first iteration
            a = t.int(0, 3)
            z, fz, cz = self.expr(vs, 2)
            rg = "(%d as i64)..(%s %% 7)" % (a, z)
            seq = None
            self.cl.add("computed bound")
        r, b = self.body(vs + [n], d - 1, True, infn)

        def ex(e, fr):
            xs = seq
            if xs is None:
                xs = range(a, tmod(fz(e), 7))
            for v in xs:
                e2 = dict(e)
                e2[n] = v
                self.tick()
                try:
                    b(e2, fr)
                except Break:
                    break
                except Continue:
                    pass
                finally:
                    for q in e:
                        e[q] = e2[q]
        return (lambda i: [i + "for (const %s0: %s) {" % (n, rg), i + "  const %s: i64 = %s0 as i64;" % (n, n)] + r(i) + [i + "}"]), ex

    def s_foreach(self, vs, d, loop, infn):
        t = self.t
        n = self.name("it")
        idx = t.bool()
        if t.bool():
            xs = [t.int(-50, 50) for _ in range(t.int(1, 5))]
            src = "[%s]" % ", ".join(["%s as i64" % ("(%d)" % xs[0] if xs[0] < 0 else xs[0])] + [str(x) for x in xs[1:]])
        else:
            xs = [ord(t.choice("abcxyz019")) for _ in range(t.int(0, 5))]
            src = '"%s"' % "".join(map(chr, xs))
        r, b = self.body(vs + [n] + ([n + "x"] if idx else []), d - 1, True, infn)

        def ex(e, fr):
            for q, v in enumerate(xs):
                e2 = dict(e)
                e2[n] = v
                e2[n + "x"] = q
                self.tick()
                try:
                    b(e2, fr)
                except Break:
                    break
                except Continue:
                    pass
                finally:
                    for k in e:
                        e[k] = e2[k]
        h = "%s0, %sx" % (n, n) if idx else n + "0"
        return (lambda i: [i + "for (const %s: %s) {" % (h, src), i + "  const %s: i64 = %s0 as i64;" % (n, n)] + r(i) + [i + "}"]), ex

    def s_switch(self, vs, d, loop, infn):
        t = self.t
        x, fx, _ = self.expr(vs, 1)
        m = t.int(2, 9)
        space = t.shuffle(range(-m + 1, m))
        cases = []
        used = set()
        for _ in range(t.int(1, 4)):
            if not space:
                break
            k = t.below(4)
            if k < 2:
                ks = [space.pop()]
                if ks[0] in used:
                    continue
                lab = "%d" % ks[0]
            elif k == 2:
                ks = [v for v in (space.pop() for _ in range(min(len(space), t.int(2, 3)))) if v not in used]
                if not ks:
                    continue
                lab = ", ".join("%d" % v for v in ks)
                self.cl.add("case list")
            else:
                a = space.pop()
                z = a + t.int(1, 3)
                ks = list(range(a, z + 1))
                if a < 0 or set(ks) & used:
                    continue
                lab = "%d..%d" % (a, z)
                self.cl.add("case range")
            used |= set(ks)
            empty = t.bool(1, 10)
            blk = None if empty else self.body(vs, d - 1, loop, infn)
            cases.append((ks, lab, blk))
        dflt = self.body(vs, d - 1, loop, infn)

        def render(i):
            L = [i + "switch (%s %% %d) {" % (x, m)]
            for ks, lab, blk in cases:
                if blk is None:
                    L.append(i + "case %s =>" % lab)
                else:
                    L += [i + "case %s => {" % lab] + blk[0](i) + [i + "}"]
            return L + [i + "default => {"] + dflt[0](i) + [i + "}", i + "}"]

        def ex(e, fr):
            v = tmod(fx(e), m)
            for ks, _, blk in cases:
                if v in ks:
                    if blk:
                        blk[1](e, fr)
                    return
            dflt[1](e, fr)
        return render, ex

    def s_block(self, vs, d, loop, infn):
        t = self.t
        sh = t.choice(vs) if vs and t.bool(1, 3) else None
        r, b = self.body(vs, d - 1, loop, infn)
        if sh is None:
            return (lambda i: [i + "{"] + r(i) + [i + "}"]), b
        c = t.int(100, 120)
        own = t.bool()
        self.cl.add("shadowing")

        def ex(e, fr):
            e2 = dict(e)
            e2[sh] = e[sh] + c if own else c
            if abs(e2[sh]) > 1 << 40:
                raise Bad()
            try:
                b(e2, fr)
            finally:
                for k in e:
                    if k != sh:
                        e[k] = e2[k]
        return (lambda i: [i + "{", i + "  var %s: i64 = %s%d;" % (sh, sh + " + " if own else "", c)] + r(i) + [i + "}"]), ex

    def s_break(self, vs, d, loop, infn):
        c, fc, _ = self.cond(vs, 1)

        def ex(e, fr):
            if fc(e):
                raise Break()
        return (lambda i: [i + "if (%s) break;" % c]), ex

    def s_continue(self, vs, d, loop, infn):
        c, fc, _ = self.cond(vs, 1)

        def ex(e, fr):
            if fc(e):
                raise Continue()
        return (lambda i: [i + "if (%s) { continue; }" % c]), ex

    def s_return(self, vs, d, loop, infn):
        c, fc, _ = self.cond(vs, 1)
        # deferred statements and the returned expression: only effect-free ones
        x, fx, _ = self.expr(vs, 1, False)

        def ex(e, fr):
            if fc(e):
                raise Return(fx(e))
        return (lambda i: [i + "if (%s) return %s;" % (c, x)]), ex

    def s_defer(self, vs, d, loop, infn):
        k = self.name("d")
        x, fx, _ = self.expr(vs, 0, False)
        blk = self.t.bool(1, 3)

        def ex(e, defers):
            def run(env):
                self.emit("%s %d" % (k, fx(env)))
                if blk:
                    self.emit("%s'" % k)
            defers.append(run)
        if blk:
            return (lambda i: [i + "defer {", i + '  println("%s ", %s);' % (k, x), i + '  println("%s\'");' % k,
                               i + "}"]), ex
        return (lambda i: [i + 'defer println("%s ", %s);' % (k, x)]), ex

    # ---- functions
    def function(self, idx):
        t = self.t
        nargs = t.int(0, 3)
        ndef = t.below(nargs + 1)
        defs = [t.int(-9, 9) for _ in range(ndef)]
        ps = ["a%d" % i for i in range(nargs)]
        rec = nargs > 0 and t.bool(1, 4)
        name = "f%d_§" % idx
        sig = []
        for i, p in enumerate(ps):
            j = i - (nargs - ndef)
            sig.append("%s: i64%s" % (p, " = %d" % defs[j] if j >= 0 else ""))
        r, b = self.block(ps, t.int(0, 2), False, True, n=t.int(1, 4))
        tail, ft, _ = self.expr(ps, 1, False)
        depth = [0]

        def call(args):
            self.tick()
            args = args + defs[len(args) - (nargs - ndef):] if len(args) < nargs else args
            depth[0] += 1
            if depth[0] > 40:
                raise Bad()
            e = dict(zip(ps, args))
            try:
                b(e, None)
            except Return as x:
                return x.v
            finally:
                depth[0] -= 1
            return ft(e)
        if rec:
            self.cl.add("recursion")
            inner = call

            def call(args):  # noqa
                args = args + defs[len(args) - (nargs - ndef):] if len(args) < nargs else args
                if args[0] > 0:
                    v = call([tmod(args[0], 5) - 1] + args[1:])
                    self.emit("r%d" % v)
                return inner(args)
        pre = []
        if rec:
            pre = ["  if (a0 > 0) {", '    println("r", %s(%s));' % (name, ", ".join(["(a0 %% 5) - 1"] + ps[1:]).replace("%%", "%")), "  }"]
        text = ["func %s(%s): i64 {" % (name, ", ".join(sig))] + pre + ["  {"] + r("    ") + ["  }", "  return %s;" % tail, "}"]
        return name, nargs, call, ndef, text


class L03(CxyCheck):
    prop = "L03"
    quick_cases = 16000
    batch = 30
    prelude = PRELUDE
    rule = ("each case is 0-3 functions and a body of nested if/while/for/switch/block/defer/break/continue/return "
            "statements that print a trace; the trace is compared with an interpreter of the same tree. Non-trivial: the "
            "trace has at least 4 lines and the case uses at least 4 kinds of statement")

    def gen(self, t):
        p = Prog(t, ())
        p.callable = []
        decls = []
        size = t.weighted([(1, 1), (3, 2), (4, 3)])
        for i in range(t.below(size + 1)):
            name, nargs, call, ndef, text = p.function(i)
            p.callable.append((name, nargs, call, ndef))
            decls += text
        r, b = p.block([], size, False, False, n=t.int(1, 2 * size))
        b({}, None)
        if not p.out:
            raise Bad()
        return CxyCase(r("  "), p.out, decls=decls, nontrivial=len(p.out) >= 4 and len(p.cl) >= 4, late=t.bool(1, 4), classes=sorted(p.cl))


if __name__ == "__main__":
    main(L03)
