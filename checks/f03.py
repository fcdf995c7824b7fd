"""F03: one broken rule in a valid program is an error at the place where it is broken."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import main
from vf.engine import Case, Bad
from vf.server import ServerCheck
from vf import diag

INTS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0)}


class T:
    """a type: kind, spelling, and what is needed to build values of it"""

    def __init__(self, k, s, **kw):
        self.k, self.s = k, s
        self.__dict__.update(kw)

    def __repr__(self):
        return self.s


PRIM = [T("int", s) for s in INTS] + [T("float", "f64"), T("bool", "bool"), T("string", "string")]
I64, BOOL, STR, F64 = PRIM[3], PRIM[9], PRIM[10], PRIM[8]


class Env:
    def __init__(self, t):
        self.t = t
        self.n = 0
        self.decls = []
        self.fns = []
        self.enums = [self.enum() for _ in range(2)]
        self.structs = []
        for _ in range(t.int(2, 3)):
            self.structs.append(self.struct())
        self.classes = []
        self.classes.append(self.cls(None))
        self.classes.append(self.cls(self.classes[0]))
        self.classes.append(self.cls(None))
        self.union = T("union", self.fresh("U"), members=["i64", "string", "bool"])
        self.decls.append("type %s = i64 | string | bool" % self.union.s)
        self.exc = self.fresh("X")
        self.decls.append("exception %s(msg: string) => msg" % self.exc)
        self.cond = self.fresh("c")
        self.decls.append("var %sv = true;\nfunc %s(): bool => %sv" % (self.cond, self.cond, self.cond))
        for _ in range(2):
            self.fns.append(self.func())
        self.gen = self.fresh("g")
        self.decls.append("func %s[T](a: T): T { return a; }" % self.gen)
        self.gs = self.fresh("G")
        self.decls.append("struct %s[T] { v: T; func get(): T => v }" % self.gs)
        self.fr = {}

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def enum(self):
        n = self.fresh("E")
        m = ["A", "B", "C"][:self.t.int(2, 3)]
        self.decls.append("enum %s { %s }" % (n, ", ".join(m)))
        return T("enum", n, members=m)

    def flat(self):
        t = self.t
        c = PRIM + self.enums + self.structs
        return t.choice(c)

    def struct(self):
        n = self.fresh("S")
        fs = [("f%d" % i, self.flat()) for i in range(self.t.int(1, 3))]
        mt, mr = self.flat(), self.flat()
        self.decls.append("struct %s { %s func m(p: %s): %s => %s const func cm(): %s => %s func set(p: %s) { f0 = p; } }"
                          % (n, " ".join("%s: %s;" % (f, x) for f, x in fs), mt, mr, self.lit(mr), mr, self.lit(mr), fs[0][1]))
        return T("struct", n, fields=fs, mt=mt, mr=mr)

    def cls(self, base):
        n = self.fresh("K")
        ft, mt, mr = self.flat(), self.flat(), self.flat()
        if base:
            self.decls.append("class %s : %s { z: %s; func `init`(x: %s) { super(x); } }" % (n, base.s, ft, base.ft))
            return T("class", n, base=base, ft=base.ft, mt=base.mt, mr=base.mr)
        self.decls.append("class %s { x: %s; func `init`(x: %s) { this.x = x; } func m(p: %s): %s => %s const func cm(): %s => %s func set(p: %s) { x = p; } }"
                          % (n, ft, ft, mt, mr, self.lit(mr), mr, self.lit(mr), ft))
        return T("class", n, base=None, ft=ft, mt=mt, mr=mr)

    def func(self):
        t = self.t
        n = self.fresh("f")
        ps = [self.any() for _ in range(t.int(1, 3))]
        r = self.flat()
        self.decls.append("func %s(%s): %s => %s" % (n, ", ".join("p%d: %s" % (i, p) for i, p in enumerate(ps)), r, self.lit(r)))
        return T("func", n, ps=ps, r=r)

    def raising(self, d):
        if d.s not in self.fr:
            n = self.fresh("r")
            self.decls.append("func %s(a: i64): !%s { if (a > 3) raise %s(\"x\"); return %s; }" % (n, d, self.exc, self.lit(d)))
            self.fr[d.s] = n
        return self.fr[d.s]

    def any(self):
        t = self.t
        k = t.weighted([(6, "flat"), (2, "class"), (1, "tuple"), (1, "opt"), (1, "union")])
        if k == "flat":
            return self.flat()
        if k == "class":
            return t.choice(self.classes) if self.classes else self.flat()
        if k == "tuple":
            es = [self.flat() for _ in range(t.int(2, 3))]
            return T("tuple", "(%s)" % ", ".join(e.s for e in es), es=es)
        if k == "opt":
            e = t.choice(PRIM + self.structs)
            return T("opt", e.s + "?", e=e)
        return self.union

    def lit(self, d):
        t = self.t
        if d.k == "int":
            return "(%d as %s)" % (t.int(0, 100), d)
        if d.k == "float":
            return "(%d.5 as f64)" % t.int(0, 9)
        if d.k == "bool":
            return t.choice(["true", "false"])
        if d.k == "string":
            return '"%s"' % t.choice(["a", "bc", ""])
        if d.k == "enum":
            return "%s.%s" % (d.s, t.choice(d.members))
        if d.k == "struct":
            return "%s{%s}" % (d.s, ", ".join("%s: %s" % (f, self.lit(x)) for f, x in d.fields))
        if d.k == "class":
            return "%s(%s)" % (d.s, self.lit(d.ft))
        if d.k == "tuple":
            return "(%s)" % ", ".join(self.lit(e) for e in d.es)
        if d.k == "opt":
            return t.choice(["None[%s]()" % d.e, "Some(%s)" % self.lit(d.e)])
        if d.k == "union":
            return t.choice([self.lit(I64), self.lit(STR), "true"])
        raise Bad()

    def wrong(self, d, arg=False):
        """a value that cannot be assigned to d"""
        t = self.t
        for _ in range(30):
            s = self.any()
            if self.incompatible(d, s, arg):
                return self.lit(s) if s.k != "union" else "%s()" % self.mk(s)
        raise Bad()

    def mk(self, s):
        n = self.fresh("mk")
        v = self.fresh("mv")
        self.decls.append("func %s(): %s { var %s: %s = %s; return %s; }" % (n, s, v, s, self.lit(s), v))
        return n

    def incompatible(self, d, s, arg=False):
        if d.k == "union":
            return s.k != "union" and s.s not in d.members and s.k not in ("int",)
        if s.k == "union":
            return d.k in ("int", "float", "bool", "string", "struct", "enum", "tuple")
        if d.k == "opt":
            return (s.k == "opt" and s.e.s != d.e.s and (s.e.k, d.e.k) != ("int", "int")) or (s.k != "opt" and self.incompatible(d.e, s, arg))
        if s.k == "opt":
            return True
        if s.k == "enum" and d.k in ("int", "float", "enum"):
            # an enum is also its number
            return False
        if d.k == "int":
            if s.k == "int":
                (a, x), (b, y) = INTS[d.s], INTS[s.s]
                return b > a or (x == 1 and y == 0 and b >= a)
            return s.k != "class" or not arg
        if d.k == "float":
            return s.k in ("string", "struct", "tuple") or s.k == "class" and not arg
        if d.k == "bool":
            return s.k != "bool" and (s.k != "class" or not arg)
        if d.k == "string":
            return s.k != "string" and (s.k != "class" or not arg)
        if d.k in ("struct", "enum"):
            return s.s != d.s
        if d.k == "class":
            if s.k == "class":
                return not (s.s == d.s or s.base is not None and s.base.s == d.s)
            return s.k in ("struct", "tuple") if arg else True
        if d.k == "tuple":
            return s.k != "tuple" or len(s.es) != len(d.es) or any(self.incompatible(a, b, arg) for a, b in zip(d.es, s.es))
        raise Bad()


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


# A rule returns (setup lines, good line, bad line), as statements; with top=True declarations.
class Site:
    def __init__(self, good, bad, pre=(), top=False, noclosure=False, noloop=False, raising=False, member=None, nodefer=False, noblock=False):
        self.good, self.bad, self.pre, self.top = good, bad, list(pre), top
        self.noclosure, self.noloop, self.raising, self.member, self.nodefer = noclosure, noloop, raising, member, nodefer
        self.noblock = noblock


def args(e, ps, i=None, w=None):
    return ", ".join(w if j == i else e.lit(p) for j, p in enumerate(ps))


@rule
def init(e, t):
    d = e.any()
    v = e.fresh("v")
    return Site("var %s: %s = %s;" % (v, d, e.lit(d)), "var %s: %s = %s;" % (v, d, e.wrong(d)))


@rule
def assign(e, t):
    d = e.any()
    v = e.fresh("v")
    return Site("%s = %s;" % (v, e.lit(d)), "%s = %s;" % (v, e.wrong(d)), ["var %s: %s = %s;" % (v, d, e.lit(d))], noclosure=True)


@rule
def field(e, t):
    s = t.choice(e.structs + e.classes[:2])
    v = e.fresh("v")
    f, d = t.choice(s.fields) if s.k == "struct" else ("x", s.ft)
    return Site("%s.%s = %s;" % (v, f, e.lit(d)), "%s.%s = %s;" % (v, f, e.wrong(d)), ["var %s = %s;" % (v, e.lit(s))])


@rule
def argument(e, t):
    f = t.choice(e.fns)
    i = t.below(len(f.ps))
    return Site("%s(%s);" % (f.s, args(e, f.ps)), "%s(%s);" % (f.s, args(e, f.ps, i, e.wrong(f.ps[i], True))))


@rule
def arg_value(e, t):
    f = t.choice(e.fns)
    i = t.below(len(f.ps))
    v = e.fresh("v")
    return Site("var %s = %s(%s);" % (v, f.s, args(e, f.ps)), "var %s = %s(%s);" % (v, f.s, args(e, f.ps, i, e.wrong(f.ps[i], True))))


@rule
def nargs(e, t):
    f = t.choice(e.fns)
    k = t.below(2)
    bad = f.ps[:-1] if k else f.ps + [t.choice([f.ps[-1], I64, STR])]
    return Site("%s(%s);" % (f.s, args(e, f.ps)), "%s(%s);" % (f.s, args(e, bad)))


@rule
def method_arg(e, t):
    s = t.choice(e.structs + e.classes)
    v = e.fresh("v")
    m, d = t.choice([("m", s.mt), ("set", s.fields[0][1] if s.k == "struct" else s.ft)])
    k = t.below(3)
    bad = [e.wrong(d, True), "", e.lit(d) + ", " + e.lit(d)][k]
    return Site("%s.%s(%s);" % (v, m, e.lit(d)), "%s.%s(%s);" % (v, m, bad), ["var %s = %s;" % (v, e.lit(s))])


@rule
def constructor(e, t):
    s = t.choice(e.classes)
    k = t.below(3)
    v = e.fresh("v")
    bad = [e.wrong(s.ft, True), "", e.lit(s.ft) + ", " + e.lit(s.ft)][k]
    return Site("var %s = %s;" % (v, e.lit(s)), "var %s = %s(%s);" % (v, s, bad))


@rule
def literal_field(e, t):
    s = t.choice(e.structs)
    v = e.fresh("v")
    i = t.below(len(s.fields))
    p = ["%s: %s" % (f, e.lit(d)) for f, d in s.fields]
    q = list(p)
    if t.bool():
        q[i] = "%s: %s" % (s.fields[i][0], e.wrong(s.fields[i][1]))
    else:
        q.insert(i, "zz: %s" % e.lit(I64))
    return Site("var %s = %s{%s};" % (v, s, ", ".join(p)), "var %s = %s{%s};" % (v, s, ", ".join(q)))


@rule
def returned(e, t):
    d = e.any()
    f = e.fresh("q")
    w = e.wrong(d)
    g = e.lit(d)
    k = t.below(4)
    if k == 0:
        return Site("func %s(): %s => %s" % (f, d, g), "func %s(): %s => %s" % (f, d, w), top=True)
    if k == 1:
        return Site("func %s(): %s { return %s; }" % (f, d, g), "func %s(): %s { return %s; }" % (f, d, w), top=True)
    if k == 2:
        return Site("func %s(): %s { if (%s()) { return %s; } return %s; }" % (f, d, e.cond, g, g),
                    "func %s(): %s { if (%s()) { return %s; } return %s; }" % (f, d, e.cond, *((g, w) if t.bool() else (w, g))), top=True)
    return Site("func %s(): %s { return %s; }" % (f, d, g), "func %s(): %s { return; }" % (f, d), top=True)


@rule
def returned_inferred(e, t):
    d = e.flat()
    f = e.fresh("q")
    return Site("func %s() { if (%s()) { return %s; } return %s; }" % (f, e.cond, e.lit(d), e.lit(d)),
                "func %s() { if (%s()) { return %s; } return %s; }" % (f, e.cond, e.lit(d), e.wrong(d)), top=True)


@rule
def default_param(e, t):
    d = e.flat()
    f = e.fresh("q")
    if t.bool(1, 4):
        return Site("func %s(a: %s, b: %s = %s): i64 => 1" % (f, d, d, e.lit(d)), "func %s(a: %s = %s, b: %s): i64 => 1" % (f, d, e.lit(d), d), top=True)
    return Site("func %s(a: %s = %s): i64 => 1" % (f, d, e.lit(d)), "func %s(a: %s = %s): i64 => 1" % (f, d, e.wrong(d)), top=True)


@rule
def default_field(e, t):
    d = e.flat()
    f = e.fresh("Q")
    return Site("struct %s { a: %s = %s; }" % (f, d, e.lit(d)), "struct %s { a: %s = %s; }" % (f, d, e.wrong(d)), top=True)


@rule
def catch_default(e, t):
    d = e.flat()
    r = e.raising(d)
    v = e.fresh("v")
    k = t.below(3)
    if k == 0:
        return Site("var %s = %s(1) catch %s;" % (v, r, e.lit(d)), "var %s = %s(1) catch %s;" % (v, r, e.wrong(d)))
    if k == 1:
        return Site("var %s = %s(1) catch { yield %s; };" % (v, r, e.lit(d)), "var %s = %s(1) catch { yield %s; };" % (v, r, e.wrong(d)))
    return Site("var %s = %s(1) catch { println(1); yield %s; };" % (v, r, e.lit(d)), "var %s = %s(1) catch { println(1); };" % (v, r))


@rule
def elements(e, t):
    d = t.choice([x for x in PRIM if x.k != "int"] + e.structs + e.enums)
    v = e.fresh("v")
    n = t.int(1, 3)
    xs = [e.lit(d) for _ in range(n + 1)]
    ys = list(xs)
    ys[t.int(1, n)] = e.wrong(d)
    return Site("var %s = [%s];" % (v, ", ".join(xs)), "var %s = [%s];" % (v, ", ".join(ys)))


@rule
def element(e, t):
    d = t.choice(PRIM + e.enums)
    v = e.fresh("v")
    pre = ["var %s = [%s, %s];" % (v, e.lit(d), e.lit(d))]
    if t.bool(1, 3):
        return Site("%s.[0] = %s;" % (v, e.lit(d)), "%s.[%s] = %s;" % (v, e.lit(t.choice([STR, e.structs[0]])), e.lit(d)), pre)
    return Site("%s.[0] = %s;" % (v, e.lit(d)), "%s.[0] = %s;" % (v, e.wrong(d)), pre)


@rule
def generic_field(e, t):
    d = e.flat()
    v = e.fresh("v")
    k = t.below(3)
    good = "var %s = %s[%s]{v: %s};" % (v, e.gs, d, e.lit(d))
    if k == 0:
        return Site(good, "var %s = %s[%s]{v: %s};" % (v, e.gs, d, e.wrong(d)))
    if k == 1:
        return Site(good, "var %s = %s[%s, %s]{v: %s};" % (v, e.gs, d, d, e.lit(d)))
    w = e.wrong(d)
    return Site(good, "var %s: %s = %s[%s]{v: %s}.get();" % (v, t.choice([x for x in e.structs + e.enums if e.incompatible(x, d)]), e.gs, d, e.lit(d)))


@rule
def generic_arg(e, t):
    d = e.flat()
    v = e.fresh("v")
    k = t.below(3)
    good = "var %s = %s[%s](%s);" % (v, e.gen, d, e.lit(d))
    return Site(good, ["var %s = %s[%s](%s);" % (v, e.gen, d, e.wrong(d, True)), "var %s = %s[%s, %s](%s);" % (v, e.gen, d, d, e.lit(d)),
                       "var %s = %s[%s]();" % (v, e.gen, d)][k])


@rule
def generic_body(e, t):
    f = e.fresh("q")
    v = e.fresh("v")
    op, good, bad = t.choice([("a + a", [x for x in PRIM if x.k in ("int", "float")], e.structs), ("a.f0", e.structs, PRIM + e.enums),
                              ("-a", [x for x in PRIM if x.k in ("int", "float")], [STR, BOOL] + e.structs), ("!a", [BOOL], [x for x in PRIM if x.k != "bool"]),
                              ("a.m(%s)" % e.lit(e.structs[0].mt), [e.structs[0]], PRIM)])
    return Site("func %s[T](a: T) { return %s; }\nfunc %s() { %s(%s); }" % (f, op, v, f, e.lit(t.choice(good))),
                "func %s[T](a: T) { return %s; }\nfunc %s() { %s(%s); }" % (f, op, v, f, e.lit(t.choice(bad))), top=True)


@rule
def global_init(e, t):
    d = t.choice(PRIM)
    v = e.fresh("gl")
    s = t.choice([x for x in PRIM if e.incompatible(d, x)])
    return Site("%s %s: %s = %s;" % ("var", v, d, e.lit(d)), "%s %s: %s = %s;" % ("var", v, d, e.lit(s)), top=True)


@rule
def raise_arg(e, t):
    f = e.fresh("q")
    g = "func %s(): !i64 { raise %s(%s); }"
    return Site(g % (f, e.exc, '"a"'), g % (f, e.exc, e.wrong(STR, True)) if t.bool() else "func %s(): !i64 { raise %s; }" % (f, e.lit(e.flat())), top=True)


@rule
def ternary(e, t):
    d = t.choice([x for x in PRIM if x.k != "int"] + e.structs + e.enums)
    v = e.fresh("v")
    if t.bool(1, 4):
        return Site("var %s = (%s() ? %s : %s);" % (v, e.cond, e.lit(d), e.lit(d)), "var %s = (%s ? %s : %s);" % (v, e.lit(t.choice(e.structs)), e.lit(d), e.lit(d)))
    return Site("var %s = (%s() ? %s : %s);" % (v, e.cond, e.lit(d), e.lit(d)), "var %s = (%s() ? %s : %s);" % (v, e.cond, e.lit(d), e.wrong(d)))


@rule
def super_arg(e, t):
    b = e.classes[0]
    k = e.fresh("Q")
    g = "class %s : %s { func `init`() { super(%s); } }"
    return Site(g % (k, b, e.lit(b.ft)), g % (k, b, t.choice([e.wrong(b.ft, True), "", e.lit(b.ft) + ", 1"])), top=True)


@rule
def overloads(e, t):
    # two overloads, neither of which fits
    a, b = e.structs[0], t.choice([STR] + e.enums)
    f = e.fresh("q")
    w = e.lit(t.choice([e.structs[1], BOOL, F64]))
    e.decls.append("func %s(x: %s): i64 => 1\nfunc %s(x: %s): i64 => 2" % (f, a, f, b))
    return Site("%s(%s);" % (f, e.lit(t.choice([a, b]))), "%s(%s);" % (f, w))


@rule
def operands(e, t):
    v = e.fresh("v")
    num = t.choice([x for x in PRIM if x.k == "int"])
    st = t.choice(e.structs)
    good, bad = t.choice([
        ((I64, "+", num), (num, "+", STR)), ((I64, "*", num), (num, t.choice(["-", "*", "/"]), st)), ((BOOL, "&&", BOOL), (num, t.choice(["&&", "||"]), BOOL)),
        ((BOOL, "||", BOOL), (STR, t.choice(["&&", "||"]), BOOL)), ((I64, "<", num), (num, t.choice(["<", ">", "<=", ">="]), STR)),
        ((I64, "==", num), (st, t.choice(["==", "!=", "+", "<"]), st)), ((F64, "/", F64), (F64, t.choice(["&", "|", "^", "<<", ">>"]), num)),
        ((I64, "&", num), (num, t.choice(["&", "|", "^", "<<"]), STR)), ((STR, "==", STR), (STR, t.choice(["==", "<"]), t.choice([num, BOOL]))),
        ((I64, "-", num), (e.classes[0], t.choice(["+", "-", "<"]), num)), ((BOOL, "==", BOOL), (BOOL, t.choice(["==", "!="]), STR)),
        ((I64, "!=", num), (e.classes[0], t.choice(["==", "!="]), e.classes[2]))])
    # variables, so that nothing is folded
    x, y, z, w = [e.fresh("o") for _ in range(4)]
    pre = ["var %s = %s;" % (a, e.lit(b)) for a, b in ((x, good[0]), (y, good[2]), (z, bad[0]), (w, bad[2]))]
    return Site("var %s = (%s %s %s);" % (v, x, good[1], y), "var %s = (%s %s %s);" % (v, z, bad[1], w), pre)


@rule
def unary(e, t):
    v, x, y = e.fresh("v"), e.fresh("o"), e.fresh("o")
    st = t.choice(e.structs)
    num = t.choice([PRIM[0], PRIM[2], I64])
    op, good, bad = t.choice([("-%s", num, t.choice([STR, BOOL, st])), ("!%s", BOOL, t.choice([num, STR])), ("~%s", num, t.choice([F64, STR])),
                              ("*%s", T("opt", "i64?", e=I64), t.choice([num, BOOL])), ("&%s", I64, None)])
    if bad is None:
        raise Bad()
    if t.bool(1, 4):
        good, bad = num, t.choice([STR, BOOL, st])
        return Site("%s++;" % x, "%s++;" % y, ["var %s = %s;" % (x, e.lit(good)), "var %s = %s;" % (y, e.lit(bad))], noclosure=True)
    return Site("var %s = %s;" % (v, op % x), "var %s = %s;" % (v, op % y), ["var %s = %s;" % (x, e.lit(good)), "var %s = %s;" % (y, e.lit(bad))])


@rule
def compound(e, t):
    x = e.fresh("o")
    d = t.choice([I64, F64, PRIM[2]])
    op = t.choice(["+=", "-=", "*="])
    return Site("%s %s %s;" % (x, op, e.lit(d)), "%s %s %s;" % (x, op, e.lit(t.choice([STR, BOOL] + e.structs))), ["var %s = %s;" % (x, e.lit(d))], noclosure=True)


@rule
def undeclared(e, t):
    v = e.fresh("v")
    z = e.fresh("zz")
    good, use = t.choice([("var %s = 1;" % v, "var %s = %s;" % (v, z)), ("var %s = 1;" % v, "var %s = (1 + %s);" % (v, z)), ("println(1);", "println(%s);" % z),
                          ("println(1);", "%s();" % z), ("var %s: i64 = 1;" % v, "var %s: %s = 1;" % (v, z)), ("if (true) { }", "if (%s) { }" % z),
                          ("while (%s()) { }" % e.cond, "while (%s > 1) { }" % z), ("println(1);", "%s = 1;" % z), ("println(1);", "%s.x = 1;" % z),
                          ("for (const q: 0..3) { }", "for (const q: 0..%s) { }" % z), ("switch (1) { default => {} }", "switch (%s) { default => {} }" % z),
                          ("var %s = [1];" % v, "var %s = [%s];" % (v, z)), ("var %s = (1, 2);" % v, "var %s = (1, %s);" % (v, z)),
                          ("var %s = %s;" % (v, e.lit(e.structs[0])), "var %s = %s{f0: %s};" % (v, e.structs[0], z)), ("println(1);", "%s{a: 1};" % z),
                          ("var %s = (a: i64) => a;" % v, "var %s = (a: i64) => %s;" % (v, z)), ("var %s = (a: i64) => a;" % v, "var %s = (a: %s) => a;" % (v, z)),
                          ("println(1);", "%s!(1);" % z), ("var %s = 1;" % v, "var %s = (1 as %s);" % (v, z))])
    return Site(good, use)


@rule
def scope(e, t):
    """a name used where its declaration is not visible"""
    z = e.fresh("z")
    k = t.below(9)
    ok = "println(1);"
    use = t.choice(["println(%s);" % z, "%s = 2;" % z, "var %s = %s;" % (e.fresh("v"), z)])
    if k == 0:
        return Site(ok, use, ["if (%s()) { var %s = 1; println(%s); }" % (e.cond, z, z)])
    if k == 1:
        return Site(ok, use, ["for (const %s: 0..3) { println(%s); }" % (z, z)])
    if k == 2:
        return Site(ok, use, ["{ var %s = 1; println(%s); }" % (z, z)])
    if k == 3:
        return Site(ok, use, ["var %s = (%s: i64) => %s;" % (e.fresh("v"), z, z)])
    if k == 4:
        return Site("switch (1) { case 1 => { var %s = 1; } case 2 => { println(1); } default => {} }" % z,
                    "switch (1) { case 1 => { var %s = 1; } case 2 => { %s } default => {} }" % (z, use))
    if k == 5:
        u = e.fresh("uu")
        return Site("match (%s) { case i64 as %s => { println(%s); } else => { } }" % (u, z, z),
                    "match (%s) { case i64 as %s => { println(%s); } else => { %s } }" % (u, z, z, use), ["var %s: %s = 1 as i64;" % (u, e.union)])
    if k == 6:
        return Site("if (var %s = %s) { println(1); }" % (z, e.cond + "()"), "if (var %s = %s()) { println(1); } %s" % (z, e.cond, use))
    if k == 7:
        # before its declaration
        return Site("var %s = 1; println(%s);" % (z, z), "println(%s); var %s = 1;" % (z, z), noblock=True)
    # a parameter or local of another function
    f = e.fresh("q")
    e.decls.append(t.choice(["func %s(%s: i64): i64 => %s" % (f, z, z), "func %s() { var %s = 1; println(%s); }" % (f, z, z)]))
    return Site(ok, use)


@rule
def foreign_member(e, t):
    """a field is no variable outside of its methods"""
    q = e.fresh("Q")
    z = e.fresh("z")
    e.decls.append("%s %s { %s: i64; func get(): i64 => %s%s }" % (*t.choice([("struct", q), ("class", q)]), z, z, ""))
    return Site("println(1);", t.choice(["println(%s);" % z, "%s = 1;" % z]))


@rule
def unknown_member(e, t):
    v = e.fresh("v")
    s = t.choice(e.structs + e.classes + e.enums)
    if s.k == "enum":
        return Site("var %s = %s;" % (v, e.lit(s)), "var %s = %s.Zz;" % (v, s))
    f = s.fields[0][0] if s.k == "struct" else "x"
    return Site("println(1);", t.choice(["%s.zz = 1;", "println(%s.zz);", "%s.zz();", "println(%s.zz.f0);"]) % v, ["var %s = %s;" % (v, e.lit(s))])


@rule
def scalar_member(e, t):
    v = e.fresh("v")
    d = t.choice(PRIM[:10])
    return Site("println(1);", t.choice(["println(%s.x);", "%s.x = 1;", "%s.foo();", "%s(1);", "println(%s.[0]);"]) % v, ["var %s = %s;" % (v, e.lit(d))])


@rule
def tuple_index(e, t):
    v = e.fresh("v")
    n = t.int(2, 4)
    pre = ["var %s = (%s);" % (v, ", ".join(e.lit(t.choice(PRIM)) for _ in range(n)))]
    ns = [e.fresh("d") for _ in range(n + 1)]
    if t.bool():
        return Site("var %s = %s.%d;" % (ns[0], v, n - 1), "var %s = %s.%d;" % (ns[0], v, n + t.int(0, 3)), pre)
    return Site("var %s = %s;" % (", ".join(ns[:n]), v), "var %s = %s;" % (", ".join(ns), v), pre)


@rule
def redeclared(e, t):
    z = e.fresh("z")
    k = t.below(8)
    if k == 0:
        d = t.choice(["var %s = 2;", "const %s = \"a\";"]) % z
        return Site(d.replace(z, e.fresh("y")), d, ["var %s = 1; println(%s);" % (z, z)], noblock=True, noclosure=True)
    y = e.fresh("y")
    if k == 1:
        return Site("func %s(a: i64, b: i64): i64 => a" % z, "func %s(a: i64, a: %s): i64 => a" % (z, t.choice(["i64", "string"])), top=True)
    if k == 2:
        return Site("%s %s { a: i64; b: i64; }" % (w, z), "%s %s { a: i64; a: %s; }" % (w, z, t.choice(["i64", "string"])), top=True) \
            if (w := t.choice(["struct", "class"])) else None
    if k == 3:
        d = e.any()
        e.decls.append("func %s(a: %s): i64 => 1" % (z, d))
        return Site("func %s(a: %s): i64 => 2" % (y, d), "func %s(b: %s): %s" % (z, d, t.choice(["i64 => 2", "string => \"a\""])), top=True)
    if k == 4:
        return Site("enum %s { A, B, C }" % z, "enum %s { A, B, A }" % z, top=True)
    if k == 5:
        o = t.choice(e.structs + e.classes + e.enums + [e.union])
        d = t.choice(["struct %s { a: i64; }", "class %s { a: i64; }", "enum %s { A }", "type %s = i64", "var %s = 1;"])
        return Site(d % z, d % o, top=True)
    if k == 6:
        return Site("struct %s { a: i64; func g(): i64 => 1 func h(): i64 => 2 }" % z, "struct %s { a: i64; func g(): i64 => 1 func g(): i64 => 2 }" % z, top=True)
    e.decls.append("var %s = 1;" % z)
    return Site("var %s = 2;" % y, "var %s = 2;" % z, top=True)


@rule
def constant(e, t):
    c = e.fresh("c")
    k = t.below(8)
    st = [s for s in e.structs]
    if k == 7:
        d = t.choice(PRIM[:8])
        n = t.int(1, 4)
        return Site("println(%s.[0]);" % c, t.choice(["%s.[%d] = %s;", "%s.[%d] += %s;"]) % (c, t.below(n), e.lit(d)),
                    ["const %s: [%s, %d] = [%s];" % (c, d, n, ", ".join(e.lit(d) for _ in range(n)))])
    if k == 0:
        d = t.choice(PRIM)
        m = t.choice(["%s = %s;"]) % (c, e.lit(d))
        return Site("println(1);", m, ["const %s = %s;" % (c, e.lit(d))])
    if k == 1:
        d = t.choice(PRIM[:8])
        return Site("println(1);", t.choice(["%s++;", "%s--;", "++%s;", "--%s;", "%s += 1;", "%s *= 2;"]) % c, ["const %s = %s;" % (c, e.lit(d))])
    if k == 2:
        s = t.choice(st)
        f, d = t.choice(s.fields)
        return Site("println(1);", "%s.%s = %s;" % (c, f, e.lit(d)), ["const %s = %s;" % (c, e.lit(s))])
    if k == 3:
        s = t.choice(st + e.classes[:1])
        d = s.fields[0][1] if s.k == "struct" else s.ft
        return Site("%s.cm();" % c, "%s.set(%s);" % (c, e.lit(d)), ["const %s = %s;" % (c, e.lit(s))])
    if k == 4:
        return Site("for (const %s: 0..3) { println(%s); }" % (c, c), "for (const %s: 0..3) { %s }" % (c, t.choice(["%s = 1;", "%s++;", "%s += 1;"]) % c))
    if k == 5:
        q = e.fresh("Q")
        w = t.choice(["struct", "class"])
        ini = "func `init`() { a = 1; }" if w == "class" else ""
        m = t.choice(["a = 1;", "this.a = 1;", "a++;", "a += 1;"])
        return Site("%s %s { a: i64; %s func g() { %s } }" % (w, q, ini, m), "%s %s { a: i64; %s const func g() { %s } }" % (w, q, ini, m), top=True)
    e.decls.append("const %s = 4;" % c)
    return Site("println(%s);" % c, t.choice(["%s = 1;", "%s++;", "%s += 2;"]) % c)


@rule
def nested_constant(e, t):
    c, q, r = e.fresh("c"), e.fresh("Q"), e.fresh("Q")
    e.decls.append("struct %s { a: i64; }\nstruct %s { s: %s; b: i64; }" % (q, r, q))
    pre = ["%s %s = %s{s: %s{a: 1}, b: 2};" % ("const", c, r, q)]
    return Site("println(%s.s.a);" % c, t.choice(["%s.s.a = 1;", "%s.s.a++;", "%s.b += 1;", "%s.s.a -= 1;", "++%s.s.a;"]) % c, pre)


@rule
def jump(e, t):
    k = t.choice(["break", "continue"])
    w = t.choice(["%s;", "if (%s()) { %%s; }" % e.cond, "{ %s; }", "if (%s()) { println(1); } else { %%s; }" % e.cond, "switch (1) { case 1 => { %s; } default => {} }"])
    return Site("while (%s()) { %s }" % (e.cond, w % k), w % k, noloop=True)


@rule
def uncaught(e, t):
    d = t.choice(PRIM + [T("void", "void")])
    v = e.fresh("v")
    if d.k == "void":
        n = e.fresh("r")
        e.decls.append("func %s(a: i64): !void { if (a > 3) raise %s(\"x\"); }" % (n, e.exc))
        return Site("%s(1) catch discard;" % n, "%s(1);" % n)
    r = e.raising(d)
    return Site("var %s = %s(1) catch %s;" % (v, r, e.lit(d)),
                t.choice(["var %s = %s(1);" % (v, r), "%s(1);" % r, "println(%s(1));" % r, "var %s = (1, %s(1));" % (v, r)]), raising=False)


@rule
def raising(e, t):
    f = e.fresh("q")
    b = t.choice(["raise %s(\"a\");" % e.exc, "if (%s()) { raise %s(\"a\"); }" % (e.cond, e.exc), "for (const i: 0..2) { raise %s(\"a\"); }" % e.exc])
    return Site("func %s(): !void { %s }" % (f, b), "func %s(): void { %s }" % (f, b), top=True)


@rule
def not_raising(e, t):
    f = t.choice(e.fns)
    r = e.raising(f.r)
    v = e.fresh("v")
    return Site("var %s = %s(1) catch %s;" % (v, r, e.lit(f.r)), "var %s = %s(%s) catch %s;" % (v, f.s, args(e, f.ps), e.lit(f.r)))


@rule
def outside(e, t):
    """keywords that need a surrounding"""
    f = e.fresh("q")
    b = t.choice(["this.x = 1;", "super(1);", "println(ex!.what());", "yield 1;", "println(this.x);"])
    return Site("func %s() { println(1); }" % f, "func %s() { %s }" % (f, b), top=True)


@rule
def condition(e, t):
    s = e.lit(t.choice(e.structs))
    w = t.choice(["if (%s) { println(1); }", "if (!%s) { println(1); }"])
    return Site(w % (e.cond + "()"), w % s)


@rule
def iterate(e, t):
    d = t.choice(PRIM[:10] + e.structs + e.enums)
    w = "for (const q: %s) { println(1); }"
    if t.bool():
        return Site(w % "0..3", w % e.lit(d))
    return Site(w % "0..3", w % t.choice(["\"a\"..\"b\"", "0..\"a\"", "0..%s" % e.lit(t.choice(e.structs)), "1.5..3"]))


@rule
def cast(e, t):
    v = e.fresh("v")
    d, s = t.choice([(I64, STR), (STR, I64), (I64, e.structs[0]), (e.structs[0], I64), (STR, e.structs[0]), (STR, BOOL), (F64, STR)])
    g = t.choice([(I64, PRIM[1]), (PRIM[0], I64), (F64, I64)])
    return Site("var %s = (%s as %s);" % (v, e.lit(g[0]), g[1]), "var %s = (%s as %s);" % (v, e.lit(s), d))


@rule
def deleted(e, t):
    v = e.fresh("v")
    c = e.classes[0]
    use = t.choice(["println(1); %s.cm();", "var w = %s;", "%s.set(" + e.lit(c.ft) + ");"]) % v
    return Site(use, "delete %s; %s" % (v, use), ["var %s = %s;" % (v, e.lit(c))], noclosure=True, noloop=True, noblock=True)


@rule
def cases(e, t):
    k = t.below(7)
    u = e.fresh("uu")
    if k > 4:
        # two equal cases among several, anywhere
        if k == 5:
            ms = t.shuffle(["i64", "string", "bool", e.structs[0].s])[:t.int(2, 4)]
            pre = ["var %s: i64 | string | bool | %s = 1 as i64;" % (u, e.structs[0].s)]
            src = lambda ms: "match (%s) { %s else => {} }" % (u, " ".join("case %s%s => {}" % (m, " as %s" % e.fresh("x") if b else "") for m, b in ms))
            ms = [(m, False) for m in ms]
        else:
            pre = ["var %s = %d as i64;" % (u, t.int(0, 9))]
            ms = t.shuffle(list(range(12)))[:t.int(2, 6)]
            src = lambda ms: "switch (%s) { %s default => {} }" % (u, " ".join("case %d => {}" % m for m in ms))
        i, j = t.below(len(ms)), t.below(len(ms) + 1)
        return Site(src(ms), src(ms[:j] + [ms[i]] + ms[j:]), pre)
    pre = ["var %s: %s = 1 as i64;" % (u, e.union)]
    if k == 0:
        return Site("switch (1) { case 1 => {} case 2 => {} default => {} }", "switch (1) { case 1 => {} case 1 => {} default => {} }")
    if k == 1:
        return Site("switch (1) { case 1 => {} default => {} }", "switch (1) { case %s => {} default => {} }" % e.lit(t.choice([STR, BOOL])))
    if k == 2:
        return Site("switch (1) { case 1 => {} default => {} }", "switch (%s) { case 1 => {} default => {} }" % e.lit(t.choice(e.structs + [F64])))
    if k == 3:
        return Site("match (%s) { case i64 => {} else => {} }" % u, "match (%s) { case %s => {} else => {} }" % (u, t.choice(e.structs + [F64])), pre)
    return Site("match (%s) { case i64 => {} case string => {} else => {} }" % u, "match (%s) { case i64 => {} case i64 => {} else => {} }" % u, pre)


@rule
def payload(e, t):
    """a bound union member has the type of the member"""
    u, v = e.fresh("uu"), e.fresh("v")
    m = t.choice([I64, STR, BOOL])
    return Site("match (%s) { case %s as x => { var %s: %s = x; } else => {} }" % (u, m, v, m),
                "match (%s) { case %s as x => { var %s: %s = x; } else => {} }" % (u, m, v, t.choice([s for s in [STR, I64, e.structs[0]] if e.incompatible(s, m)])),
                ["var %s: %s = 1 as i64;" % (u, e.union)])


@rule
def optional(e, t):
    o, v = e.fresh("o"), e.fresh("v")
    d = t.choice(PRIM + e.structs)
    pre = ["var %s: %s? = %s;" % (o, d, e.lit(d))]
    k = t.below(4)
    good = "var %s: %s = *%s;" % (v, d, o)
    if k == 0:
        return Site(good, "var %s: %s = %s;" % (v, d, o), pre)
    if k == 1:
        s = t.choice([x for x in PRIM + e.structs if e.incompatible(x, d)])
        return Site(good, "var %s: %s = *%s;" % (v, s, o), pre)
    if k == 2:
        return Site("var %s = %s || %s;" % (v, o, e.lit(d)), "var %s = %s || %s;" % (v, o, e.wrong(d, True)), pre)
    s = t.choice(e.structs)
    pre = ["var %s: %s? = %s;" % (o, s, e.lit(s))]
    return Site("println(1);", t.choice(["println(%s.f0);", "println(%s&.zz);", "println(%s + 1);"]) % o, pre)


@rule
def void_value(e, t):
    f, v = e.fresh("q"), e.fresh("v")
    e.decls.append("func %s(): void { println(1); }" % f)
    return Site("%s();" % f, "var %s = %s();" % (v, f))


@rule
def base(e, t):
    k = e.fresh("Q")
    return Site("class %s : %s { func `init`() { super(%s); } }" % (k, e.classes[0], e.lit(e.classes[0].ft)),
                "class %s : %s { func `init`() { } }" % (k, t.choice(e.structs + e.enums)), top=True)


@rule
def null(e, t):
    v = e.fresh("v")
    return Site("var %s: %s = null;" % (v, e.classes[0]), "var %s: %s = null;" % (v, t.choice(PRIM[:10])))


@rule
def downcast(e, t):
    v, w = e.fresh("v"), e.fresh("v")
    return Site("var %s: %s = %s;" % (w, e.classes[0], v if t.bool() else e.lit(e.classes[1])), "var %s: %s = %s;" % (w, t.choice(e.classes[1:]), v),
                ["var %s = %s;" % (v, e.lit(e.classes[0]))], noclosure=True)


@rule
def closure(e, t):
    d = e.flat()
    f, v = e.fresh("f"), e.fresh("v")
    pre = ["var %s = (a: %s) => a;" % (f, d)]
    k = t.below(4)
    good = "var %s = %s(%s);" % (v, f, e.lit(d))
    if k == 3:
        return Site("var %s = (a: i64): %s => %s;" % (v, d, e.lit(d)), "var %s = (a: i64): %s => %s;" % (v, d, e.wrong(d)))
    return Site(good, "var %s = %s(%s);" % (v, f, [e.wrong(d, True), "", e.lit(d) + ", " + e.lit(d)][k]), pre)


class Prog(Case):
    def __init__(self, good, bad, name, where, lines):
        self.good, self.bad, self.where, self.lines = good, bad, where, lines
        self.key = bad
        self.classes = [name] + where
        self.nontrivial = True

    def text(self):
        return "// breaks rule %s in %s, at line %s of the second program\n%s\n// ---- and with the rule broken:\n%s" % (
            self.classes[0], "/".join(self.where) or "the file", self.lines, self.good, self.bad)


M = "\x01"


class F03(ServerCheck):
    prop = "F03"
    quick_cases = 30000
    last_stage = "Finalize"
    rule = ("each case is a generated program (random structs, classes, enums, unions, functions, statement nesting) in two versions that differ "
            "in one statement or declaration, which in the second version breaks one rule of the language. Non-trivial: every case; distinct by text")

    def gen(self, t):
        e = Env(t)
        name = t.choice(sorted(RULES))
        s = RULES[name](e, t)
        where = []
        fill = lambda: t.choice(["println(%s);" % t.int(0, 9), "var %s = %s;" % (e.fresh("w"), e.lit(e.flat())), "if (%s()) { println(1); }" % e.cond])

        def wrap(inner, noclosure):
            k = t.weighted([(2, "if"), (2, "else"), (1, "while"), (1, "for"), (1, "switch"), (1, "match"), (2, "block"), (1, "closure"), (1, "catch"), (1, "defer")])
            if (s.noloop and k in ("while", "for")) or (s.nodefer and k == "defer") or ((noclosure or "closure" in where) and k == "closure"):
                return inner
            where.append(k)
            b = "\n".join(inner)
            if k == "if":
                return ["if (%s()) {" % e.cond, b, "}"]
            if k == "else":
                return ["if (%s()) {" % e.cond, fill(), "} else {", b, "}"]
            if k == "while":
                return ["while (%s()) {" % e.cond, b, "}"]
            if k == "for":
                return ["for (const %s: 0..2) {" % e.fresh("ix"), b, "}"]
            if k == "switch":
                return ["switch (%s) {" % t.int(0, 3), "case 1 => {", *((fill(), "}", "default => {", b) if t.bool() else (b, "}", "default => {", fill())), "}", "}"]
            if k == "match":
                u = e.fresh("uu")
                return ["var %s: %s = true;" % (u, e.union), "match (%s) {" % u, "case i64 as %s => {" % e.fresh("x"),
                        *((fill(), "}", "else => {", b) if t.bool() else (b, "}", "else => {", fill())), "}", "}"]
            if k == "block":
                return ["{", b, "}"]
            if k == "closure":
                return ["var %s = () => {" % e.fresh("k"), b, "};"]
            if k == "catch":
                return ["%s(1) catch {" % e.raising(I64), b, "};"]
            return ["defer {", b, "}"]

        if not s.top:
            site = [M + "SITE"]
            # what the site needs may be declared further out
            inner = site
            split = t.int(0, 2) if s.pre and not s.noblock else 0
            for _ in range(split):
                inner = wrap(inner, s.noclosure)
            inner = list(s.pre) + ([fill()] if t.bool(1, 3) else []) + inner
            for _ in range(t.choice([0, 0, 1, 1, 2, 3])):
                inner = wrap(inner, False)
            inner = [fill() for _ in range(t.int(0, 2))] + inner + [fill() for _ in range(t.int(0, 2))]
            b = "\n".join(inner)
            k = t.weighted([(4, "func"), (1, "main"), (1, "struct"), (1, "class"), (1, "generic"), (1, "init")])
            where.append(k)
            f = e.fresh("site")
            call = ""
            if k == "func":
                e.decls.append("func %s(%s) {\n%s\n}" % (f, "", b))
            elif k == "main":
                call = b
            elif k == "struct":
                e.decls.append("struct %s {\na: i64;\nfunc go() {\n%s\n}\n}" % (f, b))
            elif k == "class":
                e.decls.append("class %s {\na: i64;\nfunc `init`() { }\nfunc go() {\n%s\n}\n}" % (f, b))
            elif k == "init":
                e.decls.append("class %s {\na: i64;\nfunc `init`() {\n%s\n}\n}" % (f, b))
            else:
                e.decls.append("func %s[T](a: T) {\n%s\n}" % (f, b))
                call = "%s(1);" % f
        ds = list(e.decls)
        if s.top:
            # after what it uses
            ds.append(M + "SITE")
            where.append("top")
            for _ in range(t.int(0, 2)):
                ds.append("func %s(): i64 => 1" % e.fresh("f"))
            call = fill()
        text = "\n".join(ds) + "\nfunc main() {\n" + call + "\n}\n"
        return self.make(text, s, name, where)

    def make(self, text, s, name, where):
        good = text.replace(M + "SITE", s.good)
        bad = text.replace(M + "SITE", s.bad)
        n = text.split(M + "SITE")[0].count("\n") + 1
        return Prog(good, bad, name, where, (n, n + s.bad.count("\n")))

    def one(self, c):
        r = self.compile(c.good)
        if r.crash:
            return "crash (%s) on the valid program: %s" % (r.how(), r.text[-1500:])
        if r.rc:
            return "rejected: the valid program\n%s" % r.text[:1500]
        r = self.compile(c.bad)
        if r.crash:
            return "crash (%s) on the broken program: %s" % (r.how(), r.text[-1500:])
        errs = [d for d in diag.parse(r.text) if d.kind == "error"]
        if not r.rc or not errs:
            return "accepted: the broken program\n%s" % r.text[-1500:]
        d = errs[0]
        if d.b is None or not (c.lines[0] <= d.b[0] <= c.lines[1]) or not d.file.endswith("/m.cxy"):
            return "place: the first error is at %s, not at the broken line %s\n%s" % (d.b, c.lines, r.text[:1500])
        return None


if __name__ == "__main__":
    main(F03)
