"""L11: compile-time code computes what it says."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad

WORDS = ["", "a", "ab", "abc", "x y", "hello", "Zz", "q1", "%d", "a,b"]
CHARS = "abAZ09 z%"
# precedence of C-xy, loosest first
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8,
        "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
LIM = 1 << 62


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def txt(v):
    """how a value is printed, and appended to a string"""
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, float):
        return "%g" % v
    return v.c if isinstance(v, Ch) else str(v)


class Ch:
    def __init__(self, c):
        self.c = c


def lit(v):
    if isinstance(v, Ch):
        return "'%s'" % v.c
    if v is True or v is False:
        return txt(v)
    if isinstance(v, str):
        return q(v)
    if isinstance(v, float):
        s = repr(v)
        return s
    return str(v)


def kind(v):
    return ("b" if v is True or v is False else "i" if isinstance(v, int) else "f" if isinstance(v, float) else
            "c" if isinstance(v, Ch) else "s" if isinstance(v, str) else "a" if isinstance(v, list) else "t")


def num(v):
    return ord(v.c) if isinstance(v, Ch) else v


def truth(v):
    return v != "" if isinstance(v, str) else bool(num(v))


def okf(v):
    """floats whose text is exact"""
    if v != v or str(v) == "-0.0" or abs(v) > 9e5 or (v and abs(v) < 1e-3) or float("%g" % v) != v:
        raise Bad()
    return v + 0.0 if v else 0.0


class E:
    def __init__(self, s, v, p):
        self.s, self.v, self.p = s, v, p


class Gen:
    def __init__(self, t):
        self.t, self.out, self.cl, self.n, self.decls, self.nt = t, [], set(), 0, [], 0
        self.scopes = [{}]
        self.macros = []
        self.steps = 0
        self.run = []      # runtime counters: [name, value]

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def vars(self, k):
        seen, r = set(), []
        for sc in reversed(self.scopes):
            for n, v in sc.items():
                if n not in seen:
                    seen.add(n)
                    if k is None or kind(v[0]) == k:
                        r.append((n, v))
        return r

    def leaf(self, k):
        t = self.t
        vs = self.vars(k)
        if vs and t.bool(3, 5):
            n, v = t.choice(vs)
            self.cl.add("variable")
            return E(n, v[0], 20)
        if k == "i":
            if t.bool(1, 6):
                v = t.choice([127, 128, 255, 256, 32767, 65536, 2147483647, 2147483648, 4294967296, 9007199254740993, 9007199254740995, 1 << 60])
                self.cl.add("wide integer")
            else:
                v = t.int(0, 30)
            if t.bool(1, 8) and v < 1000:
                return E(t.choice(["0x%X", "0o%o"]) % v if t.bool() else "0b" + bin(v)[2:], v, 20)
            return E(str(v), v, 20)
        if k == "f":
            v = t.choice([0.5, 1.5, 2.25, 10.5, 0.125, 3.75, 100.5])
        elif k == "b":
            v = t.bool()
        elif k == "c":
            v = Ch(t.choice(CHARS))
        else:
            v = t.choice(WORDS)
        return E(lit(v), v, 20)

    def small(self, k):
        """an element of an array: all have the same type"""
        e = self.leaf(k)
        return e if k != "i" or 0 <= e.v <= 100 else E("7", 7, 20)

    def par(self, e, p):
        return "(%s)" % e.s if e.p < p or self.t.bool(1, 12) else e.s

    def expr(self, k, d):
        t = self.t
        self.steps += 1
        if d <= 0 or self.steps > 60 or t.bool(1, 5):
            return self.leaf(k)
        if k == "a":
            raise Bad()
        if t.bool(1, 14):
            c, a, b = self.expr("b", d - 2), self.expr(k, d - 2), self.expr(k, d - 2)
            self.cl.add("ternary")
            return E("(%s ? %s : %s)" % (self.par(c, 15), self.par(a, 15), self.par(b, 15)), a.v if c.v else b.v, 20)
        if k == "i":
            o = t.weighted([(5, "+"), (5, "-"), (4, "*"), (2, "/"), (2, "%"), (2, "<<"), (2, ">>"), (2, "&"), (2, "|"), (2, "^"),
                            (3, "neg"), (2, "~"), (1, "plus"), (2, "char"), (1, "group")])
            if o in ("neg", "~", "plus", "group"):
                a = self.expr("i", d - 1)
                if o == "group":
                    return E("(%s)" % a.s, a.v, 20)
                s = {"neg": "-", "~": "~", "plus": "+"}[o]
                x = "(%s)" % a.s if a.p < 15 or a.s[0] in "-+~" else a.s
                self.cl.add("prefix " + s)
                return self.int(s + x, {"neg": -a.v, "~": ~a.v, "plus": a.v}[o], 15)
            if o == "char":
                a, b = self.expr("c", d - 1), self.expr("i", d - 1)
                o = t.choice(["+", "-"])
                self.cl.add("character arithmetic")
                return self.int("%s %s %s" % (self.par(a, 9), o, self.par(b, 10)), num(a.v) + b.v if o == "+" else num(a.v) - b.v, 9)
            a, b = self.expr("i", d - 1), self.expr("i", d - 1)
            if o in ("/", "%"):
                if b.v == 0:
                    raise Bad()
                v = abs(a.v) // abs(b.v)
                v = v if (a.v < 0) == (b.v < 0) else -v
                v = v if o == "/" else a.v - v * b.v
            elif o in ("<<", ">>"):
                if not 0 <= b.v < 40 or a.v < 0:
                    raise Bad()
                v = a.v << b.v if o == "<<" else a.v >> b.v
            else:
                v = {"+": a.v + b.v, "-": a.v - b.v, "*": a.v * b.v, "&": a.v & b.v, "|": a.v | b.v, "^": a.v ^ b.v}[o]
            self.cl.add("integer " + o)
            return self.int("%s %s %s" % (self.par(a, PREC[o]), o, self.par(b, PREC[o] + 1)), v, PREC[o])
        if k == "f":
            o = t.weighted([(4, "+"), (4, "-"), (3, "*"), (2, "/"), (3, "neg")])
            if o == "neg":
                a = self.expr("f", d - 1)
                x = "(%s)" % a.s if a.p < 15 or a.s[0] in "-+~" else a.s
                return E("-" + x, okf(-a.v) if a.v else 0.0, 15) if a.v else a
            x, y = t.choice([("f", "f"), ("f", "i"), ("i", "f")])
            a, b = self.expr(x, d - 1), self.expr(y, d - 1)
            if o == "/" and not b.v:
                raise Bad()
            if abs(a.v) > 1e6 or abs(b.v) > 1e6:
                raise Bad()
            v = {"+": lambda: a.v + b.v, "-": lambda: a.v - b.v, "*": lambda: a.v * b.v, "/": lambda: a.v / b.v}[o]()
            self.cl.add("float " + o)
            return E("%s %s %s" % (self.par(a, PREC[o]), o, self.par(b, PREC[o] + 1)), okf(float(v)), PREC[o])
        if k == "b":
            o = t.weighted([(4, "cmp"), (2, "fcmp"), (2, "scmp"), (2, "ccmp"), (4, "&&"), (4, "||"), (3, "!"), (2, "!x"), (1, "beq")])
            if o in ("&&", "||"):
                x, y = t.choice(["bb"] * 4 + ["bi", "ib"])
                a, b = self.expr(x, d - 1), self.expr(y, d - 1)
                v = (truth(a.v) and truth(b.v)) if o == "&&" else (truth(a.v) or truth(b.v))
                self.cl.add("logic " + o)
                return E("%s %s %s" % (self.par(a, PREC[o]), o, self.par(b, PREC[o] + 1)), v, PREC[o])
            if o in ("!", "!x"):
                a = self.expr("b" if o == "!" else t.choice("ifc"), d - 1)
                x = "(%s)" % a.s if a.p < 15 or a.s[0] in "-+~!" else a.s
                self.cl.add("logic !")
                return E("!" + x, not truth(a.v), 15)
            kk = {"cmp": "i", "fcmp": t.choice(["ff", "fi", "if"]), "scmp": "s", "ccmp": t.choice(["cc", "ci", "ic"]), "beq": "b"}[o]
            a, b = self.expr(kk[0], d - 1), self.expr(kk[-1], d - 1)
            c = t.choice(["==", "!="] if o == "beq" else ["==", "!=", "<", ">", "<=", ">="])
            x, y = num(a.v), num(b.v)
            if isinstance(x, str):
                x, y = x.encode(), y.encode()
            v = {"==": x == y, "!=": x != y}[c] if o == "beq" else {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[c]
            self.cl.add("compare " + {"i": "integers", "f": "floats", "s": "strings", "c": "characters", "b": "booleans"}[kk[0]])
            return E("%s %s %s" % (self.par(a, PREC[c] + 1), c, self.par(b, PREC[c] + 1)), v, PREC[c])
        if k == "c":
            a = self.expr("s", d - 1)
            if not a.v or a.p < 20 or not a.s[0].isalpha():
                return self.leaf("c")
            i = t.below(len(a.v))
            self.cl.add("string index")
            return E("%s.[%d]" % (a.s, i), Ch(a.v[i]), 20)
        # strings
        x = t.weighted([(4, "s"), (3, "i"), (1, "f"), (1, "b"), (2, "c")])
        a, b = self.expr("s", d - 1), self.expr(x, d - 1)
        if len(a.v) > 60:
            raise Bad()
        self.cl.add("concatenation")
        return E("%s + %s" % (self.par(a, 9), self.par(b, 10)), a.v + txt(b.v), 9)

    def int(self, s, v, p):
        if abs(v) >= LIM:
            raise Bad()
        return E(s, v, p)

    # ---- statements; returns the lines
    def block(self, d, n):
        self.scopes.append({})
        L = []
        for _ in range(n):
            L += self.stmt(d)
        self.scopes.pop()
        return ["  " + x for x in L]

    def top(self, k, d):
        e = self.expr(k, d)
        # a ternary is only accepted inside parentheses
        return e

    def stmt(self, d):
        t = self.t
        self.steps += 4
        if self.steps > 260 or len(self.out) > 60:
            return []
        o = t.weighted([(5, "const"), (5, "assign"), (6, "print"), (3, "mkstr"), (5 if d else 0, "if"), (5 if d else 0, "for"), (2, "runtime"), (2 if self.macros else 0, "macro"),
                        (1, "array"), (1, "tuple"), (1 if d else 0, "rtloop"), (1, "block")])
        if o == "const":
            k = t.weighted([(5, "i"), (2, "f"), (2, "b"), (2, "c"), (3, "s")])
            e = self.top(k, 3)
            n = self.fresh("k")
            if t.bool(1, 6):
                vs = [v for v in self.vars(None) if v[0] not in self.scopes[-1]]
                if vs:
                    n = t.choice(vs)[0]      # shadows
                    self.cl.add("shadowing")
                    if n in e.s:
                        n = self.fresh("k")
            self.scopes[-1][n] = [e.v]
            return ["#const %s = %s;" % (n, e.s)]
        if o == "assign":
            vs = [v for v in self.vars(None) if kind(v[1][0]) in "ifbs" and len(v[1]) == 1]
            if not vs:
                return []
            n, v = t.choice(vs)
            k = kind(v[0])
            if k == "i" and t.bool():
                o = t.choice(["+", "-", "*", "&", "|", "^", "/", "%"])
                e = self.expr("i", 2)
                if o in "/%":
                    if not e.v:
                        return []
                    x = abs(v[0]) // abs(e.v)
                    x = x if (v[0] < 0) == (e.v < 0) else -x
                    x = x if o == "/" else v[0] - x * e.v
                else:
                    x = {"+": v[0] + e.v, "-": v[0] - e.v, "*": v[0] * e.v, "&": v[0] & e.v, "|": v[0] | e.v, "^": v[0] ^ e.v}[o]
                if abs(x) >= LIM:
                    return []
                self.cl.add("assignment " + o + "=")
            elif k in "fs" and t.bool(1, 3):
                o, e = "+", self.expr(k, 2)
                x = v[0] + e.v
                if k == "f":
                    x = okf(x)
                self.cl.add("assignment +=")
            else:
                o, e = "", self.expr(k, 3)
                x = e.v
                self.cl.add("assignment")
            if k == "s" and len(x) > 80:
                return []
            v[0] = x
            self.nt += 1
            return ["#{%s %s= %s};" % (n, o, e.s)]
        if o == "print":
            a = []
            s = ""
            for i in range(t.int(1, 3)):
                k = t.weighted([(6, "i"), (2, "f"), (3, "b"), (2, "c"), (3, "s")])
                e = self.top(k, 3)
                if i:
                    a.append('" "')
                    s += " "
                a.append("#{%s}" % e.s)
                s += txt(e.v)
            self.out.append(s)
            return ["println(%s);" % ", ".join(a)]
        if o == "mkstr":
            a, s = [], ""
            for i in range(t.int(1, 4)):
                e = self.leaf(t.weighted([(3, "s"), (3, "i"), (1, "f"), (1, "b"), (1, "c")]))
                if i == 0 and kind(e.v) != "s":
                    e = E('"m"', "m", 20)
                a.append(e.s)
                s += txt(e.v)
            self.out.append(s)
            self.cl.add("mk_str!")
            return ["println(mk_str!(%s));" % ", ".join(a)]
        if o == "if":
            L = []
            done = False
            self.cl.add("#if")
            for i in range(t.int(1, 3)):
                c = self.expr(t.weighted([(6, "b"), (1, "i"), (1, "s"), (1, "c")]), 3)
                take = not done and truth(c.v)
                b = self.branch(take, d)
                done = done or take
                L += [("#if (%s) {" if not i else "else #if (%s) {") % c.s] + b + ["}"]
            if t.bool():
                L += ["else {"] + self.branch(not done, d) + ["}"]
            return L
        if o == "for":
            return self.loop(d)
        if o == "runtime":
            return self.runtime()
        if o == "macro":
            m = t.choice(self.macros)
            return m()
        if o == "array":
            k = t.choice("isc")
            vs = [self.small(k) for _ in range(t.int(1, 4))]
            n = self.fresh("k")
            L = ["#const %s = [%s];" % (n, ", ".join(e.s for e in vs))]
            i = t.below(len(vs))
            self.out.append(txt(vs[i].v))
            self.cl.add("array")
            self.scopes[-1][n] = [[e.v for e in vs]]
            return L + ["println(#{%s.[%d]});" % (n, i)]
        if o == "tuple":
            vs = [self.leaf(t.choice("isbf")) for _ in range(t.int(2, 4))]
            n = self.fresh("k")
            i = t.below(len(vs))
            self.out.append(txt(vs[i].v))
            self.cl.add("tuple")
            return ["#const %s = (%s);" % (n, ", ".join(e.s for e in vs)), "println(#{%s.%d});" % (n, i)]
        if o == "rtloop":
            # run-time loop around statements that only print
            n = t.int(1, 3)
            i = self.fresh("it")
            k = t.choice("is")
            e = self.expr(k, 2)
            self.out += [txt(e.v)] * n
            self.cl.add("inside a run-time loop")
            return ["for (const %s: 0..%d) {" % (i, n), "  println(#{%s});" % e.s, "}"]
        # a plain block: assignments inside take effect, declarations do not escape
        self.cl.add("block")
        return ["{"] + self.block(d, t.int(1, 3)) + ["}"]

    def branch(self, take, d):
        t = self.t
        if take:
            self.nt += 1
            return self.block(d - 1, t.int(1, 3))
        # discarded: generated against copies of the variables
        keep, out, nt, run = self.scopes, self.out, self.nt, [list(r) for r in self.run]
        self.scopes = [{n: [list(v[0]) if isinstance(v[0], list) else v[0]] + v[1:] for n, v in sc.items()} for sc in keep]
        self.out = []
        b = self.block(d - 1, t.int(0, 2))
        self.scopes, self.out, self.nt = keep, out, nt
        for r, o in zip(self.run, run):
            r[:] = o
        self.run = self.run[:len(run)]
        return b

    def loop(self, d):
        t = self.t
        n = self.fresh("x")
        o = t.weighted([(5, "range"), (3, "string"), (3, "array"), (1, "step")])
        if o == "range":
            a, b = self.expr("i", 1), None
            if abs(a.v) > 100:
                a = E("1", 1, 20)
            c = t.int(0, 4)
            x = self.vars("i")
            r = "%s..%s" % (self.par(a, 15), t.choice(["%s + %d" % (self.par(a, 15), c)] + [str(a.v + c)] * (a.v + c >= 0)))
            vals = list(range(a.v, a.v + c))
        elif o == "step":
            a, b, s = t.int(-9, 9), t.int(-9, 9), t.choice([1, 2, 3, -1, -2, -3])
            r = "range(%d, %d, %d%s)" % (a, b, s, ", true" if s < 0 and t.bool() else "")
            vals = list(range(a, b, s))[:6]
            if len(vals) == 6:
                raise Bad()
        elif o == "string":
            e = self.expr("s", 2)
            if len(e.v) > 5:
                e = E('"xyz"', "xyz", 20)
            r, vals = e.s, [Ch(c) for c in e.v]
        else:
            vs = self.vars("a")
            if vs and t.bool():
                r, v = t.choice(vs)
                vals = list(v[0])
                self.cl.add("loop over an array variable")
            else:
                k = t.choice("isb")
                es = [self.small(k) for _ in range(t.int(1, 3))]
                r, vals = "[%s]" % ", ".join(e.s for e in es), [e.v for e in es]
        self.cl.add("#for over a " + ("range" if o == "step" else o))
        if not vals:
            # the body is not evaluated, but must be well formed
            return ["#for (const %s: %s) {" % (n, r), "  println(#{%s});" % n, "}"]
        # one text of the body, evaluated once per value: expressions are re-evaluated symbolically
        body = Body(self, n, kind(vals[0]), d)
        L = ["#for (const %s: %s) {" % (n, r)] + ["  " + x for x in body.text] + ["}"]
        for v in vals:
            body.run(v)
        self.nt += len(vals)
        return L

    def runtime(self):
        t = self.t
        if not self.run or t.bool(1, 3):
            n = self.fresh("r")
            e = self.expr("i", 2)
            if abs(e.v) > 1 << 40:
                return []
            # only visible where it is declared, so it is used right away
            f = self.expr("i", 2)
            if abs(f.v) > 1 << 40:
                return []
            self.out.append(str(e.v + f.v))
            self.cl.add("run-time arithmetic with compile-time values")
            return ["var %s = (#{%s}) as i64;" % (n, e.s), "println(%s + (#{%s}));" % (n, f.s)]
        return []


class Body:
    """the body of a compile-time loop: a few statements over its variable and accumulators, as text and as code"""

    def __init__(self, g, n, k, d):
        t = g.t
        self.g, self.n, self.text, self.acts = g, n, [], []
        for _ in range(t.int(1, 3)):
            self.stmt(n, k, d)

    def stmt(self, n, k, d, cond=None):
        g, t = self.g, self.g.t
        accs = [(m, v) for m, v in g.vars(None) if len(v) == 1 and kind(v[0]) in "is" and m != n]
        o = t.weighted([(4, "print"), (5 if accs else 0, "acc"), (4, "if"), (3, "const"), (2 if d > 0 else 0, "nest")])
        env = None
        if o == "print":
            p, f = self.sub(n, k)
            self.text.append("println(#{%s});" % p)
            self.acts.append(lambda x: g.out.append(txt(f(x))))
        elif o == "acc":
            m, v = t.choice(accs)
            if kind(v[0]) == "s":
                self.text.append("#{%s = %s + %s};" % (m, m, n) if t.bool() else "#{%s += %s};" % (m, n) if k in "sc" else "#{%s = %s + %s};" % (m, m, n))

                def act(x, v=v):
                    v[0] = v[0] + txt(x)
                    if len(v[0]) > 100:
                        raise Bad()
            elif k == "i" or k == "c":
                o = t.choice(["+", "-", "*"]) if k == "i" else "+"
                self.text.append(t.choice(["#{%s = %s %s %s};" % (m, m, o, n)] + ["#{%s %s= %s};" % (m, o, n)] * (k == "i")))

                def act(x, v=v, o=o):
                    x = num(x)
                    v[0] = {"+": v[0] + x, "-": v[0] - x, "*": v[0] * x}[o]
                    if abs(v[0]) >= LIM:
                        raise Bad()
            else:
                self.text.append("#{%s = %s * 2 + 1};" % (m, m))

                def act(x, v=v):
                    v[0] = v[0] * 2 + 1
                    if abs(v[0]) >= LIM:
                        raise Bad()
            g.cl.add("accumulation in a loop")
            self.acts.append(act)
        elif o == "if":
            s, f = self.cond(n, k)
            a, b = t.choice(["yes", "A", "hit"]), t.choice(["no", "B", "miss"])
            els = t.bool()
            self.text.append('#if (%s) { println("%s ", #{%s}); }%s' % (s, a, n, ' else { println("%s"); }' % b if els else ""))

            def act(x):
                if f(x):
                    g.out.append(a + " " + txt(x))
                elif els:
                    g.out.append(b)
            g.cl.add("#if in a loop")
            self.acts.append(act)
        elif o == "const":
            m = g.fresh("k")
            p, f = self.sub(n, k)
            p2, h = ("%s + 1" % m, lambda y: num(y) + 1)
            self.text.append("#const %s = %s;" % (m, p))

            def act(x):
                y = f(x)
                g.out.append(txt(h(y) if kind(y) == "i" else y))
            # the kind of f does not depend on the value
            y = f({"i": 1, "c": Ch("a"), "s": "a", "b": True}[k])
            self.text.append("println(#{%s});" % (p2 if kind(y) == "i" else m))
            self.acts.append(act)
            g.cl.add("#const in a loop")
        else:
            m = g.fresh("y")
            c = t.int(1, 3)
            if k == "i":
                self.text.append("#for (const %s: 0..%d) { println(#{%s * 10 + %s}); }" % (m, c, n, m))
                self.acts.append(lambda x: g.out.extend(str(self.lim(x * 10 + j)) for j in range(c)))
            else:
                self.text.append('#for (const %s: 0..%d) { println(#{"" + %s + %s}); }' % (m, c, n, m))
                self.acts.append(lambda x: g.out.extend(txt(x) + str(j) for j in range(c)))
            g.cl.add("nested #for")

    def lim(self, v):
        if abs(v) >= LIM:
            raise Bad()
        return v

    def sub(self, n, k):
        t = self.g.t
        if k == "i":
            c = t.int(1, 9)
            return t.choice([(n, lambda x: x), ("%s * %d + 1" % (n, c), lambda x: self.lim(x * c + 1)), ("(%s - %d) * %s" % (n, c, n), lambda x: self.lim((x - c) * x)), ("-%s" % n, lambda x: -x),
                             ("%d - %s" % (c, n), lambda x: c - x), ('"v" + %s' % n, lambda x: "v" + str(x)), ("%s > %d" % (n, c), lambda x: x > c), ("~%s" % n, lambda x: ~x),
                             ("%s == %d || %s < 0" % (n, c, n), lambda x: x == c or x < 0)])
        if k == "c":
            return t.choice([(n, lambda x: x), ("%s + 1" % n, lambda x: ord(x.c) + 1), ('"<" + %s + ">"' % n, lambda x: "<" + x.c + ">"), ("%s == 'a'" % n, lambda x: x.c == "a")])
        if k == "s":
            return t.choice([(n, lambda x: x), ('%s + "!"' % n, lambda x: x + "!"), ('%s == "ab"' % n, lambda x: x == "ab"), ('"<" + %s' % n, lambda x: "<" + x)])
        return t.choice([(n, lambda x: x), ("!%s" % n, lambda x: not x), ('"is " + %s' % n, lambda x: "is " + txt(x))])

    def cond(self, n, k):
        t = self.g.t
        if k == "i":
            c = t.int(1, 5)
            return t.choice([("%s %% %d == 0" % (n, c), lambda x: (abs(x) % c) == 0), ("%s > %d" % (n, c), lambda x: x > c), ("%s != %d && %s < 4" % (n, c, n), lambda x: x != c and x < 4), (n, lambda x: x != 0)])
        if k == "c":
            return t.choice([("%s == 'a' || %s == 'b'" % (n, n), lambda x: x.c in "ab"), ("%s < 'a'" % n, lambda x: x.c < "a")])
        if k == "s":
            return t.choice([('%s != ""' % n, lambda x: x != ""), ('%s == "a"' % n, lambda x: x == "a"), ('%s < "b"' % n, lambda x: x.encode() < b"b")])
        return t.choice([(n, lambda x: x), ("!%s" % n, lambda x: not x)])

    def run(self, v):
        for a in self.acts:
            a(v)
        if len(self.g.out) > 80:
            raise Bad()


class L11(CxyCheck):
    prop = "L11"
    quick_cases = 12000
    rule = ("a case is a program of compile-time variables, assignments, #if, #for over ranges, strings and arrays, mk_str! and user-defined macros that "
            "prints compile-time values; the output is compared with a Python evaluation. Non-trivial: at least two branches taken, loop "
            "iterations or assignments")

    def gen(self, t):
        g = Gen(t)
        self.macros(g)
        body = []
        for _ in range(t.int(3, 9)):
            body += g.stmt(2)
        # what the accumulators hold at the end
        for n, v in g.scopes[0].items():
            if kind(v[0]) in "isb":
                body.append("println(#{%s});" % n)
                g.out.append(txt(v[0]))
        if not g.out:
            raise Bad()
        return CxyCase("\n".join(body), "\n".join(g.out) + "\n", decls="\n".join(g.decls), nontrivial=g.nt >= 2, classes=g.cl)

    def macros(self, g):
        t = g.t
        for i in range(t.int(0, 2)):
            o = t.choice(["expr", "block", "const", "two"])
            m = "mac%d_§" % i
            if o == "const":
                v = t.int(0, 999)
                g.decls.append("macro %s %d" % (m, v))

                def use(m=m, v=v):
                    g.cl.add("constant macro")
                    c = t.int(0, 9)
                    g.out.append(str(v + c))
                    return ["println(%s! + %d);" % (m, c)]
            elif o == "expr":
                c = t.int(1, 9)
                g.decls.append("macro %s(X) =(X! * %d + X!)" % (m, c))

                def use(m=m, c=c):
                    g.cl.add("expression macro")
                    a, b = t.int(0, 20), t.int(0, 20)
                    g.out.append(str((a - b) * c + (a - b)))
                    n = g.fresh("w")
                    if t.bool():
                        return ["var %s = %d as i64;" % (n, a), "println(%s!(%s - %d));" % (m, n, b)]
                    return ["println(%s!(%d - %d));" % (m, a, b)]
            elif o == "two":
                g.decls.append('macro %s(A, B) =((A!) - (B!) * 2)' % m)

                def use(m=m):
                    g.cl.add("macro with two parameters")
                    a, b = t.int(0, 20), t.int(0, 20)
                    if t.bool(1, 3):
                        c = t.int(2, 9)
                        n = g.fresh("w")
                        g.out.append(str(c - (a - b * 2) * c))
                        return ["var %s = %d as i64;" % (n, c), "println(%s - %s!(%d, %d) * %s);" % (n, m, a, b, n)]
                    if t.bool(1, 3):
                        # nested use
                        g.out.append(str(a - (b - a * 2) * 2))
                        return ["println(%s!(%d, %s!(%d, %d)));" % (m, a, m, b, a)]
                    g.out.append(str(a - b * 2))
                    return ["println(%s!(%d, %d));" % (m, a, b)]
            else:
                g.decls.append('macro %s(A, B) { println("<", A!, ">"); println(B!); }' % m)

                def use(m=m):
                    g.cl.add("block macro")
                    a, b = g.leaf("i"), g.leaf("s")
                    g.out += ["<%s>" % txt(a.v), b.v]
                    f = lambda e: e.s if not e.s[0].isalpha() else "#{%s}" % e.s
                    return ["%s!(%s, %s);" % (m, f(a), f(b))]
            g.macros.append(use)


if __name__ == "__main__":
    main(L11)
