"""Small expressions over i64, bool and string, generated as (text, fn) pairs:
fn(env) is the reference meaning.  Values stay far from overflow: products are
reduced by a remainder."""
M = 1009


def tmod(a, b):
    return abs(a) % b * (1 if a >= 0 else -1)


def lit(c):
    return "(%s as i64)" % ("(%d)" % c if c < 0 else c)


def q(s):
    return '"%s"' % s


def show(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    return str(v)


WORDS = ["", "a", "b", "ab", "zed", "kilo", "x1", "Hi", "lorem ipsum", "0"]


class GX:
    """atoms: dict type -> list of (text, fn)"""

    def __init__(self, t):
        self.t = t

    def expr(self, ty, atoms, d):
        return {"i": self.i, "b": self.b, "s": self.s}[ty](atoms, d)

    def atom(self, ty, atoms, p=(3, 4)):
        c = atoms.get(ty)
        if c and self.t.bool(*p):
            return self.t.choice(c)
        return None

    def i(self, atoms, d):
        t = self.t
        if d <= 0 or t.bool(1, 5):
            a = self.atom("i", atoms)
            if a:
                return a
            c = t.near0(-30, 90)
            return lit(c), (lambda e: c)
        k = t.below(8)
        if k < 5:
            op = t.choice("+-*%")
            x, fx = self.i(atoms, d - 1)
            if op == "%":
                m = t.int(2, 17)
                return "(%s %% %d)" % (x, m), (lambda e: tmod(fx(e), m))
            y, fy = self.i(atoms, d - 1)
            if op == "*":
                return "((%s * %s) %% %d)" % (x, y, M), (lambda e: tmod(fx(e) * fy(e), M))
            if op == "+":
                return "(%s + %s)" % (x, y), (lambda e: fx(e) + fy(e))
            return "(%s - %s)" % (x, y), (lambda e: fx(e) - fy(e))
        if k == 5:
            x, fx = self.i(atoms, d - 1)
            return "(-%s)" % x, (lambda e: -fx(e))
        c, fc = self.b(atoms, d - 1)
        x, fx = self.i(atoms, d - 1)
        y, fy = self.i(atoms, d - 1)
        return "((%s) ? %s : %s)" % (c, x, y), (lambda e: fx(e) if fc(e) else fy(e))

    def b(self, atoms, d):
        t = self.t
        if d <= 0 or t.bool(1, 6):
            a = self.atom("b", atoms)
            if a:
                return a
            x, fx = self.i(atoms, 0)
            c = t.near0(-30, 90)
            return "(%s < %d)" % (x, c), (lambda e: fx(e) < c)
        k = t.below(6)
        if k < 3:
            op = t.choice(["<", "<=", ">", ">=", "==", "!="])
            x, fx = self.i(atoms, d - 1)
            y, fy = self.i(atoms, d - 1)
            f = {"<": lambda e: fx(e) < fy(e), "<=": lambda e: fx(e) <= fy(e), ">": lambda e: fx(e) > fy(e),
                 ">=": lambda e: fx(e) >= fy(e), "==": lambda e: fx(e) == fy(e), "!=": lambda e: fx(e) != fy(e)}[op]
            return "(%s %s %s)" % (x, op, y), f
        if k == 3:
            x, fx = self.b(atoms, d - 1)
            return "(!%s)" % x, (lambda e: not fx(e))
        x, fx = self.b(atoms, d - 1)
        y, fy = self.b(atoms, d - 1)
        if k == 4:
            return "(%s && %s)" % (x, y), (lambda e: fx(e) and fy(e))
        return "(%s || %s)" % (x, y), (lambda e: fx(e) or fy(e))

    def s(self, atoms, d):
        t = self.t
        a = self.atom("s", atoms)
        if d > 0 and t.bool(1, 3):
            c, fc = self.b(atoms, d - 1)
            x, fx = self.s(atoms, d - 1)
            y, fy = self.s(atoms, d - 1)
            return "((%s) ? %s : %s)" % (c, x, y), (lambda e: fx(e) if fc(e) else fy(e))
        if a:
            return a
        w = t.choice(WORDS)
        return q(w), (lambda e: w)


TY = {"i": "i64", "b": "bool", "s": "string"}
