"""Typed C-xy expressions generated together with their reference value.

Domain (what the language defines independently of C undefined behaviour):
signed results fit their type, no division by zero, shift counts in range,
no left shift of negative values, no mixed signedness without a cast.
Unsigned 32/64-bit arithmetic wraps."""
import math, struct
from .engine import Bad

INT = {"i8": (True, 8), "i16": (True, 16), "i32": (True, 32), "i64": (True, 64),
       "u8": (False, 8), "u16": (False, 16), "u32": (False, 32), "u64": (False, 64)}
SIGNED = ["i8", "i16", "i32", "i64"]
UNSIGNED = ["u8", "u16", "u32", "u64"]


def rng(ty):
    s, w = INT[ty]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def fits(ty, v):
    lo, hi = rng(ty)
    return lo <= v <= hi


def wrap(ty, v):
    s, w = INT[ty]
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


def lty(v):
    for ty in SIGNED:
        if fits(ty, v):
            return ty
    return "i64"


def sty(e):
    """static type: a literal has the smallest signed type that holds it"""
    return lty(e.v) if e.lit and e.ty in INT else e.ty


def badmix(a, b):
    """a negative literal together with an unsigned operand"""
    return a.lit and a.v < 0 and not INT[sty(b)][0] or b.lit and b.v < 0 and not INT[sty(a)][0]


def promote(a, b):
    return a if INT[a][1] >= INT[b][1] else b


def f32(v):
    return struct.unpack("f", struct.pack("f", v))[0]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def fmt(ty, v):
    """what println prints"""
    if ty == "bool":
        return "true" if v else "false"
    if ty in ("f64", "f32"):
        return "%g" % v
    if ty == "char":
        return chr(v)
    return str(v)


PREC = {"*": 2, "/": 2, "%": 2, "+": 3, "-": 3, "<<": 4, ">>": 4, "<": 5, ">": 5, "<=": 5, ">=": 5,
        "==": 6, "!=": 6, "&": 7, "^": 8, "|": 9, "&&": 11, "||": 12}


class E:
    __slots__ = ("s", "ty", "v", "prec", "lit", "size")

    def __init__(self, s, ty, v, prec=0, lit=False, size=1):
        self.s, self.ty, self.v, self.prec, self.lit, self.size = s, ty, v, prec, lit, size


class ExprGen:
    def __init__(self, t, vars_, ticks=None, casts=True, ternary=True, maxlit=1 << 31):
        self.t = t
        self.vars = vars_          # list of (name, type, value)
        self.ticks = ticks         # None or list receiving the trace of tick calls
        self.casts = casts
        self.tern = ternary
        self.maxlit = maxlit
        self.ops = set()

    def paren(self, e, limit, strict):
        """parenthesise by precedence, sometimes redundantly"""
        need = e.prec > limit or (strict and e.prec == limit)
        if need or (e.prec and self.t.bool(1, 6)):
            return "(" + e.s + ")"
        return e.s

    def literal(self, ty):
        t = self.t
        if ty == "bool":
            v = t.bool()
            return E("true" if v else "false", ty, v, lit=True)
        if ty in ("f64", "f32"):
            n = t.int(0, 999)
            k = t.choice([1, 10, 100])
            s = "%d.%s" % (n // k, ("%0*d" % (len(str(k)) - 1, n % k)) if k > 1 else "0")
            return E(s, ty, float(s), lit=True)
        s_, w = INT[ty]
        v = t.bits(s_, w)
        if abs(v) > self.maxlit:
            v %= 1000
        if not fits(ty, v):
            v = 1
        if v < 0:
            return E("%d" % v, ty, v, prec=1, lit=True)
        if not s_ and v > rng("i" + ty[1:])[1]:
            return E("(%d as %s)" % (v, ty), ty, v)   # a bare literal has the smallest signed type
        f = t.below(8)
        if f == 6:
            s = "0x%x" % v
        elif f == 7:
            s = "0b" + bin(v)[2:]
        else:
            s = str(v)
        return E(s, ty, v, lit=True)

    def leaf(self, ty):
        c = [x for x in self.vars if x[1] == ty]
        if c and (ty == "f32" or self.t.bool(3, 4)):
            n, _, v = self.t.choice(c)
            return E(n, ty, v)
        if ty == "f32":
            raise Bad()
        return self.literal(ty)

    def gen(self, ty, d):
        t = self.t
        if d <= 0 or t.bool(1, 6):
            return self.leaf(ty)
        for _ in range(12):
            e = self.node(ty, d)
            if e is not None:
                return e
        return self.leaf(ty)

    def node(self, ty, d):
        t = self.t
        if ty == "bool":
            return self.boolnode(d)
        if ty in ("f64", "f32"):
            return self.floatnode(ty, d)
        k = t.below(20)
        if k < 12:
            return self.intbin(ty, d)
        if k < 14:
            op = t.choice(["-", "~", "+"])
            a = self.gen(ty, d - 1)
            if a.lit:
                return None
            ty = a.ty
            v = -a.v if op == "-" else ~a.v if op == "~" else a.v
            if not INT[ty][0]:
                if op == "~" and INT[ty][1] < 32:
                    return None
                v = wrap(ty, v)
                if op == "-" and INT[ty][1] < 32:
                    return None
            if not fits(ty, v):
                return None
            self.ops.add("u" + op)
            s = a.s if a.prec == 0 else "(" + a.s + ")"
            return E(op + s, ty, v, prec=1, size=a.size + 1)
        if k < 17 and self.casts:
            src = t.choice(list(INT) + ["f64", "bool"])
            if src == ty:
                return None
            a = self.gen(src, d - 1)
            if src == "f64":
                if not (math.isfinite(a.v) and abs(a.v) < 1e18):
                    return None
                v = int(a.v)
                if not fits(ty, v):
                    return None
            elif src == "bool":
                if a.lit:
                    return None
                v = int(a.v)
                if self.nobool:
                    return None
            else:
                v = wrap(ty, a.v)
                if a.lit and v != a.v:
                    return None
            self.ops.add("cast")
            f = t.below(2)
            s = "(<%s>(%s))" % (ty, a.s) if f == 0 else "((%s) as %s)" % (a.s, ty)
            return E(s, ty, v, size=a.size + 1)
        if self.tern:
            c = self.gen("bool", d - 1)
            if c.lit:
                return None
            a = self.gen(ty, d - 1)
            b = self.gen(ty, d - 1)
            if a.lit or b.lit or a.ty != b.ty:
                return None
            self.ops.add("?:")
            return E("((%s) ? %s : %s)" % (c.s, self.paren(a, 12, False), self.paren(b, 12, False)), a.ty,
                     a.v if c.v else b.v, size=a.size + b.size + c.size)
        return None

    nobool = True

    def narrower(self, ty):
        s, w = INT[ty]
        c = [x for x in INT if INT[x][0] == s and INT[x][1] < w]
        return self.t.choice(c) if c else ty

    def intbin(self, ty, d):
        t = self.t
        op = t.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        ta = tb = ty
        if op not in ("<<", ">>") and t.bool(1, 5):
            if t.bool():
                ta = self.narrower(ty)
            else:
                tb = self.narrower(ty)
        a = self.gen(ta, d - 1)
        if op in ("<<", ">>"):
            if a.v < 0 and op == "<<":
                return None
            at = sty(a)
            n = t.below(INT[at][1])
            b = E(str(n), "i8", n, lit=True)
        else:
            b = self.gen(tb, d - 1)
            at = promote(sty(a), sty(b))
        if op not in ("<<", ">>"):
            if INT[at][0] != INT[ty][0] and not (a.lit and b.lit):
                return None
            if badmix(a, b):
                return None
        ty = at
        s_, w = INT[ty]
        both = a.lit and b.lit
        # the narrower operand must not itself be computed in a wider C type
        if op == "+":
            v = a.v + b.v
        elif op == "-":
            v = a.v - b.v
        elif op == "*":
            v = a.v * b.v
        elif op in ("/", "%"):
            if b.v == 0:
                return None
            v = tdiv(a.v, b.v) if op == "/" else a.v - b.v * tdiv(a.v, b.v)
        elif op == "&":
            v = a.v & b.v
        elif op == "|":
            v = a.v | b.v
        elif op == "^":
            v = a.v ^ b.v
        elif op == "<<":
            v = a.v << b.v
        else:
            v = a.v >> b.v
        if not fits(ty, v):
            # wrap-around is defined for unsigned types as wide as the C int
            if s_ or w < 32 or a.lit or b.lit or sty(a) != sty(b):
                if not (op == "<<" and not s_ and w >= 32 and not a.lit):
                    return None
            v = wrap(ty, v)
        if both and lty(v) != at:
            return None     # folded or not, it must have the same type
        p = PREC[op]
        self.ops.add(op)
        return E("%s %s %s" % (self.paren(a, p, False), op, self.paren(b, p, True)), ty, v, p,
                 lit=both, size=a.size + b.size + 1)

    def floatnode(self, ty, d):
        t = self.t
        k = t.below(10)
        if k < 7:
            op = t.choice(["+", "-", "*", "/"])
            a, b = self.gen(ty, d - 1), self.gen(ty, d - 1)
            if a.lit and b.lit:
                return None
            if op == "/" and b.v == 0:
                return None
            v = {"+": lambda: a.v + b.v, "-": lambda: a.v - b.v, "*": lambda: a.v * b.v, "/": lambda: a.v / b.v}[op]()
            if ty == "f32":
                v = f32(v) if abs(v) < 1e30 else float("inf")
            if not math.isfinite(v) or abs(v) > 1e30 or (v != 0 and abs(v) < 1e-30):
                return None
            p = PREC[op]
            self.ops.add("f" + op)
            return E("%s %s %s" % (self.paren(a, p, False), op, self.paren(b, p, True)), ty, v, p,
                     size=a.size + b.size + 1)
        if k < 8:
            a = self.gen(ty, d - 1)
            if a.lit:
                return None
            return E("-" + (a.s if a.prec == 0 else "(" + a.s + ")"), ty, -a.v, 1, size=a.size + 1)
        if self.casts:
            src = t.choice(["i32", "i64", "u8", "u32", "i16"])
            a = self.gen(src, d - 1)
            if a.lit:
                return None
            v = float(a.v)
            if ty == "f32":
                v = f32(v)
                if abs(a.v) > 1 << 24:
                    return None
            self.ops.add("fcast")
            return E("((%s) as %s)" % (a.s, ty), ty, v, size=a.size + 1)
        return None

    def boolnode(self, d):
        t = self.t
        k = t.below(20)
        if k < 9:
            ty = t.choice(list(INT) + ["f64", "i32", "i64"])
            op = t.choice(["<", ">", "<=", ">=", "==", "!="])
            a, b = self.gen(ty, d - 1), self.gen(ty, d - 1)
            if ty == "f64":
                if a.lit and b.lit:
                    return None
            elif badmix(a, b) or INT[sty(a)][0] != INT[sty(b)][0] and not (a.lit or b.lit):
                return None
            v = {"<": a.v < b.v, ">": a.v > b.v, "<=": a.v <= b.v, ">=": a.v >= b.v, "==": a.v == b.v,
                 "!=": a.v != b.v}[op]
            p = PREC[op]
            self.ops.add(op)
            return E("%s %s %s" % (self.paren(a, p - 1, False), op, self.paren(b, p - 1, False)), "bool", v, p,
                     lit=a.lit and b.lit, size=a.size + b.size + 1)
        if k < 15:
            op = t.choice(["&&", "||"])
            a = self.gen("bool", d - 1)
            if self.ticks is not None:
                mark = len(self.ticks)
            b = self.gen("bool", d - 1)
            if self.ticks is not None and ((op == "&&") != bool(a.v)):
                del self.ticks[mark:]
            v = (a.v and b.v) if op == "&&" else (a.v or b.v)
            p = PREC[op]
            self.ops.add(op)
            return E("%s %s %s" % (self.paren(a, p, False), op, self.paren(b, p, True)), "bool", v, p,
                     lit=a.lit and b.lit, size=a.size + b.size + 1)
        if k < 17:
            a = self.gen("bool", d - 1)
            self.ops.add("!")
            return E("!" + (a.s if a.prec == 0 else "(" + a.s + ")"), "bool", not a.v, 1, lit=a.lit, size=a.size + 1)
        return None
