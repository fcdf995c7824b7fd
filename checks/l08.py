"""L08: exceptions travel to the nearest catch, and only they do."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad
from vf.gx import GX, lit, q, show, WORDS

PRE = """
exception EA
exception EB => "plain"
exception EC(msg: string) => msg
exception ED(n: i64, s: string = "dflt") { if (n > 20) { return "big"; } return s; }
var live = 0 as i64;
class OB { k: i64; func `init`(k: i64) { this.k = k; live = live + 1; } func `deinit`() { live = live - 1; } }
"""


class Exc(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Fuel(Exception):
    pass


TX = {"i": "i64", "b": "bool", "s": "string", "v": "void", "P": "P_§", "T": "(i64, string)"}
DV = {"i": 0, "b": False, "s": "", "v": None}


class Gen:
    def __init__(self, t):
        self.t, self.g, self.n = t, GX(t), 0
        self.decls, self.cl, self.fns, self.out = [], set(), [], []
        self.loop, self.incatch, self.raising, self.ret = 0, 0, False, None
        self.atoms, self.mut = {}, []
        self.fuel = 4000

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def expr(self, k, d=2):
        if k in "ibs":
            return self.g.expr(k, self.atoms, d)
        a, fa = self.g.expr("i", self.atoms, 1)
        b, fb = self.g.expr("s", self.atoms, 0)
        return ("P_§{a: %s, b: %s}" if k == "P" else "(%s, %s)") % (a, b), (lambda e: (fa(e), fb(e)))

    def exc(self):
        """raise expression: (text, fn -> message)"""
        t = self.t
        k = t.below(6)
        if k == 0:
            return "EA()", (lambda e: None)
        if k == 1:
            return "EB()", (lambda e: "plain")
        if k < 4:
            s, f = self.g.expr("s", self.atoms, 1)
            return "EC(%s)" % s, f
        n, fn = self.g.expr("i", self.atoms, 1)
        if t.bool(1, 2):
            return "ED(%s)" % n, (lambda e: "big" if fn(e) > 20 else "dflt")
        s, f = self.g.expr("s", self.atoms, 0)
        return "ED(%s, %s)" % (n, s), (lambda e: "big" if fn(e) > 20 else f(e))

    # calls -------------------------------------------------------------
    def raw(self, want=None, depth=1, bubble=False):
        """call of a raising function: (kind, text, fn); fn may raise Exc"""
        c = [f for f in self.fns if f[2] and (want is None or f[1] in want)]
        if not c:
            return None
        name, ret, _, pk, body = self.t.choice(c)
        args = []
        for k in pk:
            if k == "i" and depth > 0 and self.t.bool(1, 6):
                r = self.caught("i", depth - 1)
                if r:
                    args.append(r)
                    self.cl.add("argument")
                    continue
            if k == "i" and depth > 0 and bubble and self.t.bool(1, 4):
                r = self.raw("i", depth - 1, True)
                if r:
                    args.append(r[1:])
                    self.cl.add("bubbling argument")
                    continue
            args.append(self.expr(k, 1))

        def go(e):
            return self.invoke(body, [a[1](e) for a in args])
        return ret, "%s(%s)" % (name, ", ".join(a[0] for a in args)), go

    def invoke(self, body, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        e = {"p%d" % i: a for i, a in enumerate(args)}
        e["defer"] = []
        try:
            body(e)
        except Ret as r:
            return r.args[0]

    def caught(self, kind, depth=1):
        """(f(..) catch default), an expression that cannot raise"""
        r = self.raw(kind, depth)
        if not r:
            return None
        d, fd = self.expr(kind, 1)
        self.cl.add("catch default")

        def go(e):
            try:
                return r[2](e)
            except Exc:
                return fd(e)
        return "(%s catch %s)" % (r[1], d), go

    def value(self, kind):
        """an expression of a kind: pure, caught, or raising when allowed"""
        t = self.t
        k = t.below(6)
        if k < 2:
            r = self.caught(kind)
            if r:
                return r
        if k < 4 and self.raising:
            r = self.raw(kind, bubble=True)
            if r:
                self.cl.add("bubble")
                if kind == "i" and t.bool(1, 2):
                    x, fx = self.g.expr("i", self.atoms, 1)
                    if t.bool(1, 2):
                        return "(%s + %s)" % (r[1], x), (lambda e: r[2](e) + fx(e))
                    s = self.caught("i", 0)
                    if s:
                        return "(%s - %s)" % (r[1], s[0]), (lambda e: r[2](e) - s[1](e))
                return r[1], r[2]
        return self.expr(kind)

    def catchblock(self, kind, r, depth):
        """r catch { ... yield v; } -> (lines after 'catch', run)"""
        t = self.t
        self.incatch += 1
        b = self.block(depth - 1, t.int(0, 2), False)
        self.incatch -= 1
        what = t.bool(1, 2)
        end = None
        if self.raising and t.bool(1, 4):
            end = "raise"
        elif self.ret is not None and t.bool(1, 5) and self.ret != "v":
            end = "return"
        elif self.loop and t.bool(1, 4):
            end = t.choice(["break", "continue"])
        cond = self.g.expr("b", self.atoms, 1)
        # jumps out of the block stay conditional: the block must yield
        # otherwise
        rv = self.expr(self.ret, 1) if end == "return" else None
        dv = self.expr(kind, 1) if kind != "v" else None
        L = []
        if what:
            L.append("  println(\"what \", ex!.what());")
            self.cl.add("what")
        L += b[0]
        if end:
            j = {"raise": "raise;", "return": rv and "return %s;" % rv[0], "break": "break;", "continue": "continue;"}[end]
            L.append("  if (%s) { %s }" % (cond[0], j))
            self.cl.add(end + " in catch")
        if dv:
            L.append("  yield %s;" % dv[0])
        if not L:
            L = ['  println("caught");']

        def go(e):
            try:
                return r[2](e)
            except Exc as x:
                if what:
                    self.out.append("what " + (x.args[0] or ""))
                b[1](e)
                if end and cond[1](e):
                    if end == "raise":
                        raise
                    if end == "return":
                        raise Ret(rv[1](e))
                    raise Brk() if end == "break" else Cont()
                if dv:
                    return dv[1](e)
                if L == ['  println("caught");']:
                    self.out.append("caught")
        return ["%s catch {" % r[1]] + L + ["}"], go

    # statements --------------------------------------------------------
    def block(self, depth, n, scope=True):
        save = {k: list(v) for k, v in self.atoms.items()}, list(self.mut)
        ss = [s for s in (self.stmt(depth) for _ in range(n)) if s]
        self.atoms, self.mut = save

        def run(e):
            mark = len(e["defer"])
            try:
                for s in ss:
                    s[1](e)
            finally:
                for d in reversed(e["defer"][mark:]):
                    self.out.append(d)
                del e["defer"][mark:]
        return ["  " + l for s in ss for l in s[0]], run

    def bind(self, n, k, mut):
        if k in "ibs":
            self.atoms.setdefault(k, []).append((n, lambda e: e[n]))
            if mut:
                self.mut.append((n, k))
        elif k in "PT":
            a, b = (".a", ".b") if k == "P" else (".0", ".1")
            self.atoms.setdefault("i", []).append((n + a, lambda e: e[n][0]))
            self.atoms.setdefault("s", []).append((n + b, lambda e: e[n][1]))

    def trace(self, text=None):
        w = text or self.fresh("t")
        c = [(k, a) for k in "ibs" for a in self.atoms.get(k, [])]
        if c and self.t.bool(1, 2):
            k, (x, f) = self.t.choice(c)
            return ['println("%s ", %s);' % (w, x)], (lambda e: self.out.append("%s %s" % (w, show(f(e)))))
        return ['println("%s");' % w], (lambda e: self.out.append(w))

    def stmt(self, depth):
        t = self.t
        k = t.weighted([(2, "trace"), (4, "var"), (3, "block"), (3, "call"), (2, "raise"), (2, "if"), (2, "for"), (1, "while"),
                        (1, "switch"), (1, "defer"), (1, "obj"), (2, "set"), (1, "ret"), (1, "jump"), (1, "print")])
        if k == "var":
            kd = t.choice("iiibsPT")
            n = self.fresh("v")
            x, f = self.value(kd)
            # known finding: nothing; the type is spelled out half of the time
            ty = ": " + TX[kd] if t.bool(1, 2) else ""

            def run(e):
                e[n] = f(e)
            self.bind(n, kd, True)
            return ["var %s%s = %s;" % (n, ty, x)], run
        if k == "set" and self.mut:
            n, kd = t.choice(self.mut)
            x, f = self.value(kd)
            op = ""
            if kd == "i" and t.bool(1, 3):
                op = t.choice("+-")

            def run(e):
                v = f(e)
                e[n] = v if not op else e[n] + v if op == "+" else e[n] - v
            return ["%s %s= %s;" % (n, op, x)], run
        if k == "block" and depth > 0:
            r = self.raw("ibsPT")
            if r and self.t.bool(2, 3):
                kd = r[0]
                L, go = self.catchblock(kd, r, depth)
                n = self.fresh("v")

                def run(e):
                    e[n] = go(e)
                self.bind(n, kd, True)
                self.cl.add("catch block")
                return ["var %s = %s" % (n, L[0])] + L[1:-1] + ["};"], run
            r = self.raw("v")
            if r:
                L, go = self.catchblock("v", r, depth)
                self.cl.add("catch block of void")
                return L[:-1] + ["};"], go
        if k == "call":
            r = self.raw()
            if r:
                if self.raising and t.bool(1, 2):
                    self.cl.add("bubble")
                    return [r[1] + ";"], r[2]

                def run(e):
                    try:
                        r[2](e)
                    except Exc:
                        pass
                self.cl.add("discard")
                return [r[1] + " catch discard;"], run
        if k == "raise" and self.raising:
            c, fc = self.g.expr("b", self.atoms, 1)
            x, fx = self.exc()
            self.cl.add("raise")

            def run(e):
                if fc(e):
                    raise Exc(fx(e))
            return ["if (%s) { raise %s; }" % (c, x)], run
        if k == "ret" and self.ret and self.ret != "v":
            c, fc = self.g.expr("b", self.atoms, 1)
            x, fx = self.expr(self.ret, 1)

            def run(e):
                if fc(e):
                    raise Ret(fx(e))
            return ["if (%s) { return %s; }" % (c, x)], run
        if k == "jump" and self.loop and not self.incatch:
            c, fc = self.g.expr("b", self.atoms, 1)
            w, ex = t.choice([("break", Brk), ("continue", Cont)])

            def run(e):
                if fc(e):
                    raise ex()
            return ["if (%s) { %s; }" % (c, w)], run
        if k == "print":
            kd = t.choice("ibs")
            x, f = self.value(kd)
            return ["println(%s);" % x], (lambda e: self.out.append(show(f(e))))
        if k == "if" and depth > 0:
            c, fc = self.value("b")
            a = self.block(depth - 1, t.int(1, 2))
            b = self.block(depth - 1, t.int(0, 2))

            def run(e):
                (a if fc(e) else b)[1](e)
            return ["if (%s) {" % c] + a[0] + ["} else {"] + b[0] + ["}"], run
        if k == "switch" and depth > 0:
            x, f = self.value("i")
            cs, arms = [], []
            for i in range(t.int(1, 3)):
                c = t.int(-2, 9)
                if c not in cs:
                    cs.append(c)
                    arms.append(self.block(depth - 1, t.int(1, 2)))
            d = self.block(depth - 1, 1)
            self.cl.add("switch")

            def run(e):
                v = f(e) % 10 if f else 0
                (arms[cs.index(v)] if v in cs else d)[1](e)
            # reduced to 0..9 through a variable: % keeps the sign in C-xy
            n = self.fresh("w")

            def run2(e):
                v = f(e)
                v = abs(v) % 10 * (1 if v >= 0 else -1)
                (arms[cs.index(v)] if v in cs else d)[1](e)
            L = ["const %s = %s;" % (n, x), "switch ((%s %% 10)) {" % n]
            for c, a in zip(cs, arms):
                L += ["case %d => {" % c] + a[0] + ["}"]
            return L + ["default => {"] + d[0] + ["}", "}"], run2
        if k == "for" and depth > 0:
            n, m = self.fresh("lp"), t.int(1, 4)
            save = {a: list(b) for a, b in self.atoms.items()}
            self.atoms.setdefault("i", []).append(("(%s as i64)" % n, lambda e: e[n]))
            self.loop += 1
            b = self.block(depth - 1, t.int(1, 3))
            self.loop -= 1
            self.atoms = save
            self.cl.add("loop")

            def run(e):
                for i in range(m):
                    e[n] = i
                    try:
                        b[1](e)
                    except Brk:
                        break
                    except Cont:
                        pass
            return ["for (const %s: 0..%d) {" % (n, m)] + b[0] + ["}"], run
        if k == "while" and depth > 0:
            n, m = self.fresh("wh"), t.int(1, 3)
            c, fc = self.value("b")
            save = {a: list(b) for a, b in self.atoms.items()}
            self.loop += 1
            b = self.block(depth - 1, t.int(1, 2))
            self.loop -= 1
            self.atoms = save
            self.cl.add("while")

            def run(e):
                i = 0
                while fc(e):
                    i += 1
                    if i > m:
                        break
                    try:
                        b[1](e)
                    except Brk:
                        break
                    except Cont:
                        pass
            return ["var %s: i64 = 0;" % n, "while (%s) {" % c, "  %s = %s + 1;" % (n, n), "  if (%s > %d) { break; }" % (n, m)] + \
                b[0] + ["}"], run
        if k == "defer" and not self.incatch:
            w = self.fresh("d")
            self.cl.add("defer")
            return ['defer println("%s");' % w], (lambda e: e["defer"].append(w))
        if k == "obj" and not self.incatch and self.ret is not None:
            n = self.fresh("o")
            self.cl.add("object")
            return ["var %s = OB(%d as i64);" % (n, t.below(9))], (lambda e: None)
        return self.trace()

    def mkfunc(self):
        t = self.t
        self.raising = not self.fns or t.bool(4, 5)
        self.ret = t.choice("iiiisbvvPT")
        pk = [t.choice("iiibs") for _ in range(t.int(1, 3))]
        self.atoms, self.mut = {}, []
        for i, k in enumerate(pk):
            self.atoms.setdefault(k, []).append(("p%d" % i, lambda e, n="p%d" % i: e[n]))
        self.loop = 0
        first = None
        if self.raising and (not self.fns or t.bool(1, 3)):
            c, fc = self.g.expr("b", self.atoms, 1)
            x, fx = self.exc()
            def frun(e):
                if fc(e):
                    raise Exc(fx(e))
            first = ["  if (%s) { raise %s; }" % (c, x)], frun
        ss = []
        if first:
            ss.append(first)
        for _ in range(t.int(1, 4)):
            s = self.stmt(2)
            if s:
                ss.append((["  " + l for l in s[0]], s[1]))
        tail = self.value(self.ret) if self.ret != "v" else None
        fn = self.fresh("f") + "_§"

        def body(e):
            try:
                for s in ss:
                    s[1](e)
                # deferred statements run before the value is computed
                if tail:
                    tail_first = self.tail(e, tail)
                    raise Ret(tail_first)
            finally:
                for d in reversed(e["defer"]):
                    self.out.append(d)
                e["defer"] = []
        rt = ("!" if self.raising else "") + TX[self.ret]
        self.decls.append("func %s(%s): %s {" % (fn, ", ".join("p%d: %s" % (i, TX[k]) for i, k in enumerate(pk)), rt))
        tl = []
        if tail:
            n = self.fresh("r")
            tl = ["  var %s = %s;" % (n, tail[0]), "  return %s;" % n]
        self.decls += [l for s in ss for l in s[0]] + tl + ["}"]
        self.fns.append((fn, self.ret, self.raising, pk, body))
        self.raising, self.ret = False, None

    def tail(self, e, tail):
        return tail[1](e)


class L08(CxyCheck):
    prop = "L08"
    quick_cases = 14000
    prelude = PRE
    rule = ("each case is a stack of functions that raise, forward, catch, re-raise, replace and discard exceptions inside branches, "
            "loops, switches, defers and scopes owning objects; the printed trace, exception messages and the number of live "
            "objects after every call are compared with a Python interpretation. Non-trivial: an exception is raised and at least "
            "two different ways of handling are present")

    def gen(self, t):
        g = Gen(t)
        g.decls.append("struct P_§ { a: i64; b: string; }")
        for _ in range(t.int(2, 5)):
            g.mkfunc()
        L, env = [], {"defer": []}
        raised = 0
        for _ in range(t.int(2, 5)):
            name, ret, raising, pk, body = t.choice(g.fns[-3:])
            args = [g.g.expr(k, {}, 1) for k in pk]
            x = "%s(%s)" % (name, ", ".join(a[0] for a in args))
            vals = [a[1]({}) for a in args]
            msg = None
            try:
                v = g.invoke(body, vals)
            except Exc as ex:
                msg = ex.args[0] or ""
                raised += 1
            except Fuel:
                raise Bad()
            if ret == "v":
                L.append("  %s%s;" % (x, ' catch { println("E ", ex!.what()); }' if raising else ""))
                if msg is not None:
                    g.out.append("E " + msg)
            else:
                n = g.fresh("z")
                d = {"i": lit(-77), "b": "false", "s": '"dd"', "P": 'P_§{a: %s, b: "dd"}' % lit(-77), "T": '(%s, "dd")' % lit(-77)}[ret]
                if raising:
                    L.append('  var %s = %s catch { println("E ", ex!.what()); yield %s; };' % (n, x, d))
                else:
                    L.append("  var %s = %s;" % (n, x))
                if msg is not None:
                    g.out.append("E " + msg)
                    v = {"i": -77, "b": False, "s": "dd", "P": (-77, "dd"), "T": (-77, "dd")}[ret]
                if ret in "PT":
                    L.append("  println(%s, \" \", %s);" % ((n + ".a", n + ".b") if ret == "P" else (n + ".0", n + ".1")))
                    g.out.append("%d %s" % v)
                else:
                    L.append("  println(%s);" % n)
                    g.out.append(show(v))
            L.append('  println("live ", live);')
            g.out.append("live 0")
        ways = {"catch default", "bubble", "catch block", "discard", "raise in catch", "catch block of void", "argument"} & g.cl
        return CxyCase(L, g.out, decls=g.decls, nontrivial=raised > 0 and len(ways) >= 2, late=t.bool(1, 4), classes=sorted(g.cl))


if __name__ == "__main__":
    main(L08)
