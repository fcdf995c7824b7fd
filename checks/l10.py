"""L10: generic declarations behave like their hand-written instances."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad

INTS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8}
WORDS = ["", "a", "b", "ab", "zed", "kilo", "x1", "Hi"]

PRELUDE = """
struct Q { a: i64 = 7; b: u8 = <u8>9; const func `str`(os: &OutputStream) { os << "Q" << a << "," << b; } const func `==`(o: &const Q) => a == o.a && b == o.b }
enum EN { EA, EB = 5, EC }
type OP = i64?;
"""


class Ty:
    """a concrete type; two are the same type when their keys are equal"""

    def __init__(self, k, s, parts=(), decl=None):
        self.k, self.s, self.parts, self.decl = k, s, list(parts), decl
        self.key = s

    def wrap(self, v):
        if self.s not in INTS:
            return v
        n = 8 * INTS[self.s]
        lo, hi = (-(1 << (n - 1)), 1 << (n - 1)) if self.s[0] == "i" else (0, 1 << n)
        if (self.s[0] == "i" or n < 32) and not lo <= v < hi:
            raise Bad()  # only the wide unsigned types wrap
        v &= (1 << n) - 1
        return v - (1 << n) if self.s[0] == "i" and v >> (n - 1) else v

    def size(self):
        if self.s in INTS:
            return INTS[self.s]
        return {"f64": 8, "string": 8, "Q": 16}.get(self.s)


def prim(s):
    return Ty("int" if s in INTS else s, s)


PRIMS = {s: prim(s) for s in [*INTS, "f64", "bool", "char", "string", "Q", "f32", "EN", "OP"]}
NUM = [*INTS, "f64"]
CMP = NUM + ["char", "string"]
ALL = list(PRIMS)


# type terms: ("p", i) a type parameter; ("c", name) a concrete type; ("g", decl, terms); ("t", terms)
def tsrc(x, names):
    if x[0] == "p":
        return names[x[1]]
    if x[0] == "c":
        return x[1]
    if x[0] == "t":
        return "(%s)" % ", ".join(tsrc(y, names) for y in x[1])
    return "%s[%s]" % (x[1].name, ", ".join(tsrc(y, names) for y in x[2]))


def tsub(x, env):
    """replace parameters by terms"""
    if x[0] == "p":
        return env[x[1]]
    if x[0] == "c":
        return x
    if x[0] == "t":
        return ("t", tuple(tsub(y, env) for y in x[1]))
    return ("g", x[1], tuple(tsub(y, env) for y in x[2]))


def conc(x, env):
    """the concrete type of a term, env: concrete types of the parameters"""
    if x[0] == "p":
        return env[x[1]]
    if x[0] == "c":
        return PRIMS[x[1]]
    ps = [conc(y, env) for y in (x[1] if x[0] == "t" else x[2])]
    if x[0] == "t":
        return Ty("tuple", "(%s)" % ", ".join(p.s for p in ps), ps)
    return Ty("gen", "%s[%s]" % (x[1].name, ", ".join(p.s for p in ps)), ps, x[1])


def unify(pat, term, b):
    """match a pattern over parameters with a term"""
    if pat[0] == "p":
        if pat[1] in b:
            return b[pat[1]] == term
        b[pat[1]] = term
        return True
    if pat[0] != term[0]:
        return False
    if pat[0] == "c":
        return pat == term
    if pat[0] == "g" and pat[1] is not term[1]:
        return False
    a, c = (pat[1], term[1]) if pat[0] == "t" else (pat[2], term[2])
    return len(a) == len(c) and all(unify(x, y, b) for x, y in zip(a, c))


def depth(x):
    return 0 if x[0] in "pc" else 1 + max([depth(y) for y in (x[1] if x[0] == "t" else x[2])])


class Decl:
    """generic struct or function"""

    def __init__(self, **k):
        self.__dict__.update(k)


def show(ty, v):
    if ty.k == "int":
        return str(v)
    if ty.k in ("f64", "f32"):
        return "%g" % v
    if ty.k == "OP":
        return "null" if v is None else str(v)
    if ty.k == "bool":
        return "true" if v else "false"
    if ty.k == "Q":
        return "Q%d,%d" % v
    if ty.k == "tuple":
        return "(%s)" % ", ".join(show(p, x) for p, x in zip(ty.parts, v))
    if ty.k == "gen":
        return "%s<%s>" % (ty.decl.tag, "|".join(show(conc(f, ty.parts), x) for f, x in zip(ty.decl.fields, v)))
    return v


class Scope:
    """names usable in an expression: (source, term, getter(env, vars))"""

    def __init__(self, names, bounds, vars=()):
        self.names, self.bounds, self.vars = names, bounds, list(vars)


class Gen:
    def __init__(self, t):
        self.t, self.decls, self.body, self.out, self.cl, self.n = t, [], [], [], set(), 0
        self.structs, self.funcs, self.inst = [], [], {}

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- types
    def bounded(self, bound):
        return {"num": NUM, "cmp": CMP, "any": ALL}[bound]

    def sat(self, term, bound, sc):
        """may `term` be used for a parameter with this bound"""
        if bound == "any":
            return True
        if term[0] == "p":
            b = sc.bounds[term[1]]
            return b == "num" or b == bound
        return term[0] == "c" and term[1] in self.bounded(bound)

    def term(self, sc, bound="any", d=1):
        t = self.t
        ps = [("p", i) for i in range(len(sc.names)) if self.sat(("p", i), bound, sc)]
        o = t.weighted([(5 if ps else 0, "p"), (4, "c"), (2 if bound == "any" and d else 0, "t"), (3 if bound == "any" and d and self.structs else 0, "g")])
        if o == "p":
            return t.choice(ps)
        if o == "c":
            return ("c", t.choice(self.bounded(bound)))
        if o == "t":
            return ("t", tuple(self.term(sc, d=d - 1) for _ in range(2)))
        s = t.choice(self.structs)
        return ("g", s, tuple(self.term(sc, b, d - 1) for b in s.bounds))

    # ---- expressions: (source, eval(env, vars))
    def lit(self, ty):
        """literal of a concrete named type"""
        t = self.t
        if ty in INTS:
            n = 8 * INTS[ty]
            v = t.int(0, 30) if ty[0] == "u" else t.int(-20, 20)
            if t.bool(1, 5):
                v = (1 << min(n - 1, 28)) - 1 - t.below(3)
            return "((%s) as %s)" % (v, ty), lambda e, w: v
        if ty == "f64":
            v = t.int(-40, 80) / 4
            return "((%s) as f64)" % v, lambda e, w: v
        if ty == "bool":
            v = t.bool()
            return ("true" if v else "false"), lambda e, w: v
        if ty == "char":
            v = t.choice("abxyzAQ09")
            return "('%s' as char)" % v, lambda e, w: v
        if ty == "string":
            v = t.choice(WORDS)
            return '"%s"' % v, lambda e, w: v
        if ty == "f32":
            v = t.int(-40, 80) / 4
            return "((%s) as f32)" % v, lambda e, w: v
        if ty == "EN":
            v = t.choice(["EA", "EB", "EC"])
            return "EN." + v, lambda e, w: "EN." + v
        if ty == "OP":
            v = t.choice([None, t.int(-9, 99)])
            return "None[i64]()" if v is None else "Some[i64](%d)" % v if v >= 0 else "Some[i64](((%d) as i64))" % v, lambda e, w: v
        a, b = t.int(-30, 30), t.int(0, 200)
        return "Q{a: ((%d) as i64), b: (%d as u8)}" % (a, b), lambda e, w: (a, b)

    def leaf(self, term, sc):
        """the simplest expression of a type"""
        c = [v for v in sc.vars if v[1] == term]
        if c and self.t.bool(3, 4):
            v = self.t.choice(c)
            return v[0], v[2]
        if term[0] == "c":
            return self.lit(term[1])
        if term[0] == "p":
            if c:
                v = self.t.choice(c)
                return v[0], v[2]
            for v in sc.vars:
                if v[1][0] == "t":
                    for k, x in enumerate(v[1][1]):
                        if x == term:
                            return "%s.%d" % (v[0], k), lambda e, w: v[2](e, w)[k]
                if v[1][0] == "g":
                    for k, f in enumerate(v[1][1].fields):
                        if tsub(f, v[1][2]) == term:
                            return "%s.f%d" % (v[0], k), lambda e, w: v[2](e, w)[k]
            if sc.bounds[term[1]] == "num":
                k = self.t.int(0, 9)
                return "(<%s>%d)" % (sc.names[term[1]], k), lambda e, w: float(k) if e[term[1]].k == "f64" else k
            raise Bad()
        return self.construct(term, sc, 0)

    def construct(self, term, sc, d):
        if term[0] == "t":
            xs = [self.expr(y, sc, d) for y in term[1]]
            return "(%s)" % ", ".join(x[0] for x in xs), lambda e, w: tuple(x[1](e, w) for x in xs)
        s = term[1]
        fs = [tsub(f, term[2]) for f in s.fields]
        xs = [self.expr(y, sc, d) for y in fs]
        ev = lambda e, w: tuple(x[1](e, w) for x in xs)
        if s.init:
            return "%s(%s)" % (tsrc(term, sc.names), ", ".join(x[0] for x in xs)), ev
        args = list(term[2])
        if s.default is not None and len(args) == 2 and args[1] == tsub(s.default, args) and self.t.bool():
            args = args[:1]
            self.cl.add("default type argument")
        return "%s[%s]{%s}" % (s.name, ", ".join(tsrc(a, sc.names) for a in args), ", ".join("f%d: %s" % (k, x[0]) for k, x in enumerate(xs))), ev

    def cond(self, sc, d):
        """boolean expression"""
        t = self.t
        c = [v for v in sc.vars if self.sat(v[1], "cmp", sc)]
        if not c:
            return self.leaf(("c", "bool"), sc)
        v = t.choice(c)
        x = self.expr(v[1], sc, d - 1)
        num = self.sat(v[1], "num", sc)
        op = t.choice(["==", "!=", "<", ">", "<=", ">="] if num else ["==", "!="])
        f = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}[op]
        return "(%s %s %s)" % (v[0], op, x[0]), lambda e, w: f(v[2](e, w), x[1](e, w))

    def expr(self, term, sc, d=2):
        t = self.t
        if d <= 0 or t.bool(1, 4):
            return self.leaf(term, sc)
        calls = []
        for f in self.funcs:
            b = {}
            if unify(f.ret, term, b) and all(self.sat(x, f.bounds[i], sc) for i, x in b.items()):
                calls.append((f, b))
        meths = []
        for v in sc.vars:
            if v[1][0] == "g":
                for m in v[1][1].methods:
                    b = {}
                    if unify(tsub(m.ret, list(v[1][2]) + [("p", 100 + i) for i in range(len(m.tps))]), term, b) and all(i >= 100 for i in b) and m.const:
                        meths.append((v, m, b))
        o = t.weighted([(2, "leaf"), (4 if calls else 0, "call"), (4 if meths else 0, "meth"), (3 if self.sat(term, "num", sc) else 0, "arith"), (1, "tern"),
                        (3 if term[0] in "tg" else 0, "cons"), (2, "part"), (2 if term == ("c", "bool") else 0, "cond"), (1 if term == ("c", "i64") and sc.names else 0, "sizeof")])
        if o == "call":
            f, b = t.choice(calls)
            return self.call(f, b, sc, d)
        if o == "meth":
            v, m, b = t.choice(meths)
            return self.method(v, m, {k - 100: x for k, x in b.items()}, sc, d)
        if o == "arith":
            a, b = self.expr(term, sc, d - 1), self.leaf(term, sc)
            op = t.choice("+-*")
            if op == "*":
                k = t.int(0, 5)
                b = "(<%s>%d)" % (tsrc(term, sc.names), k), lambda e, w: k
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]

            def ev(e, w):
                ty = conc(term, e)
                r = f(a[1](e, w), b[1](e, w))
                return ty.wrap(r)
            return "(<%s>(%s %s %s))" % (tsrc(term, sc.names), a[0], op, b[0]), ev
        if o == "tern":
            c, a, b = self.cond(sc, d), self.expr(term, sc, d - 1), self.expr(term, sc, d - 1)
            return "(%s? %s : %s)" % (c[0] if c[0].startswith("(") else "(%s)" % c[0], a[0], b[0]), lambda e, w: a[1](e, w) if c[1](e, w) else b[1](e, w)
        if o == "cons":
            return self.construct(term, sc, d - 1)
        if o == "cond":
            return self.cond(sc, d)
        if o == "sizeof":
            i = t.below(len(sc.names))
            self.cl.add("sizeof a parameter")

            def ev(e, w):
                s = e[i].size()
                if s is None:
                    raise Bad()
                return s
            return "(<i64>sizeof!(#%s))" % sc.names[i], ev
        if o == "part":
            # a member of something larger that is in scope
            c = []
            for v in sc.vars:
                if v[1][0] == "t":
                    c += [(v, ".%d" % k, k) for k, x in enumerate(v[1][1]) if x == term]
                if v[1][0] == "g":
                    c += [(v, ".f%d" % k, k) for k, f in enumerate(v[1][1].fields) if tsub(f, v[1][2]) == term]
            if c:
                v, s, k = t.choice(c)
                return v[0] + s, lambda e, w: v[2](e, w)[k]
        return self.leaf(term, sc)

    def explicit(self, f, args, sc, infer_from):
        """type arguments to write: all, none or a prefix when the rest can be inferred"""
        t = self.t
        n = len(args)
        k = n if infer_from is None else t.choice(list(range(infer_from, n + 1)))
        if k < n:
            self.cl.add("inferred type arguments" if k == 0 else "partly inferred type arguments")
        return "[%s]" % ", ".join(tsrc(a, sc.names) for a in args[:k]) if k else ""

    def call(self, f, b, sc, d):
        args = []
        for i, bd in enumerate(f.bounds):
            if i not in b:
                b[i] = self.term(sc, bd)
            args.append(b[i])
        if max(depth(a) for a in args) > 2:
            raise Bad()
        xs = [self.expr(tsub(p, args), sc, d - 1) for p in f.params]
        self.cl.add("generic function called")
        src = "%s%s(%s)" % (f.name, self.explicit(f, args, sc, f.infer), ", ".join(x[0] for x in xs))
        return src, lambda e, w: self.invoke(f, [conc(a, e) for a in args], [x[1](e, w) for x in xs])

    def invoke(self, f, env, vals):
        self.fuel -= 1
        if self.fuel < 0:
            raise Bad()
        self.inst.setdefault(f.name, set()).add(tuple(x.s for x in env))
        w = {"p%d" % i: v for i, v in enumerate(vals)}
        return f.run(env, w)

    def method(self, v, m, b, sc, d):
        own = v[1][2]
        targs = []
        for i, bd in enumerate(m.bounds):
            if i not in b:
                b[i] = self.term(sc, bd, 0)
            elif not self.sat(b[i], bd, sc):
                raise Bad()
            targs.append(b[i])
        full = list(own) + targs
        xs = [self.expr(tsub(p, full), sc, d - 1) for p in m.params]
        self.cl.add("generic method" if m.tps else "method of a generic struct")
        src = "%s.%s%s(%s)" % (v[0], m.name, self.explicit(m, targs, sc, m.infer) if m.tps else "", ", ".join(x[0] for x in xs))

        def ev(e, w):
            self.fuel -= 1
            if self.fuel < 0:
                raise Bad()
            env = [conc(a, e) for a in full]
            ww = {"p%d" % i: x[1](e, w) for i, x in enumerate(xs)}
            ww["this"] = v[2](e, w)
            return m.run(env, ww)
        return src, ev

    # ---- statements
    def block(self, sc, ret, n):
        """a function body: source and run(env, vars)"""
        t = self.t
        L, S = [], []
        scope = Scope(sc.names, sc.bounds, sc.vars)
        for _ in range(n):
            o = t.weighted([(4, "var"), (3, "set"), (2, "if"), (2 if sc.names else 0, "#if"), (1, "for")])
            mut = [v for v in scope.vars if v[3]]
            if o == "var" or not mut:
                term = self.term(scope)
                if depth(term) > 2:
                    continue
                try:
                    x = self.expr(term, scope, 2)
                except Bad:
                    continue
                nm = self.fresh("x")
                L.append("var %s%s = %s;" % (nm, "" if t.bool(2, 3) else ": " + tsrc(term, sc.names), x[0]))
                S.append((lambda nm, x: lambda e, w: w.__setitem__(nm, x[1](e, w)))(nm, x))
                scope.vars.append((nm, term, (lambda nm: lambda e, w: w[nm])(nm), nm))
                continue
            v = t.choice(mut)
            try:
                x = self.expr(v[1], scope, 2)
                y = self.expr(v[1], scope, 1)
                c = self.cond(scope, 1)
            except Bad:
                continue
            st = lambda x, v=v: lambda e, w: w.__setitem__(v[3], x[1](e, w))
            asg = "%s = %s;" % (v[0], x[0])
            if o == "set":
                L.append(asg)
                S.append(st(x))
            elif o == "if":
                L.append("if (%s) { %s } else { %s = %s; }" % (c[0], asg, v[0], y[0]))
                S.append((lambda c, x, y, st: lambda e, w: (st(x) if c[1](e, w) else st(y))(e, w))(c, x, y, st))
            elif o == "#if":
                i = t.below(len(sc.names))
                p = t.choice(["isInteger", "isFloat", "isString", "isBoolean", "isTuple", "isStruct"])
                k = {"isInteger": ["int"], "isFloat": ["f64"], "isString": ["string"], "isBoolean": ["bool"], "isTuple": ["tuple"], "isStruct": ["gen", "Q"]}[p]
                self.cl.add("branch on a parameter")
                L.append("#if (%s.%s) { %s } else { %s = %s; }" % (sc.names[i], p, asg, v[0], y[0]))
                S.append((lambda i, k, x, y, st: lambda e, w: (st(x) if self.known(e[i]).k in k else st(y))(e, w))(i, k, x, y, st))
            else:
                k = t.int(1, 3)
                L.append("for (const i_: 0..%d) { %s }" % (k, asg))
                S.append((lambda k, x, st: lambda e, w: [st(x)(e, w) for _ in range(k)])(k, x, st))
        r = self.expr(ret, scope, 2)
        if not L and t.bool():
            src = None
        else:
            src = "\n  ".join(L + ["return %s;" % r[0]])

        def run(e, w):
            for s in S:
                s(e, w)
            return r[1](e, w)
        return src, r[0], run

    def known(self, ty):
        if ty.k in ("EN", "OP", "KC", "f32"):
            raise Bad()  # what they answer is another property's business
        return ty

    def bounds(self, n):
        return [self.t.weighted([(4, "any"), (4, "num"), (2, "cmp")]) for _ in range(n)]

    def params(self, sc, n, must=()):
        ps = []
        for i in must:
            ps.append(("p", i))
        while len(ps) < n:
            ps.append(self.term(sc, d=self.t.below(2)))
        return self.t.shuffle(ps) if hasattr(self.t, "shuffle") and self.t.bool() and ps else ps

    def infer(self, params, n, tps0=0):
        """first type parameter from which all can be inferred, or None"""
        k = n
        while k and ("p", tps0 + k - 1) in params:
            k -= 1
        return k if k < n else None

    def function(self):
        t = self.t
        n = t.int(1, 3)
        names = t.shuffle(["T", "U", "V", "K", "Elem"])[:n]
        bounds = self.bounds(n)
        sc = Scope(names, bounds)
        must = [i for i in range(n) if t.bool(4, 5)]
        params = list(self.params(sc, t.int(1, 3), must))
        if any(depth(p) > 1 for p in params):
            raise Bad()
        f = Decl(name=self.fresh("g") + "_§", bounds=bounds, params=params, infer=self.infer(params, n))
        sc.vars = [("p%d" % i, p, (lambda i: lambda e, w: w["p%d" % i])(i), None) for i, p in enumerate(params)]
        f.ret = self.term(sc) if t.bool() else t.choice(params)
        if depth(f.ret) > 1:
            raise Bad()
        kind = t.weighted([(6, "plain"), (2, "rec"), (1, "swap")])
        head = "func %s[%s](%s" % (f.name, ", ".join(names), ", ".join("p%d: %s" % (i, tsrc(p, names)) for i, p in enumerate(params)))
        if kind == "rec":
            # counts down, changing one argument on the way
            self.cl.add("recursive generic function")
            f.params = params + [("c", "i32")]
            k = len(params)
            stop = self.expr(f.ret, sc, 1)
            swap = n >= 2 and bounds[0] == bounds[1] and params[:2] == [("p", 0), ("p", 1)] and len(params) == 2 and f.ret[0] == "c"
            if swap:
                self.cl.add("recursion with other type arguments")
                nxt = [("p1", lambda e, w: w["p1"]), ("p0", lambda e, w: w["p0"])]
                targs = [("p", 1), ("p", 0)] + [("p", i) for i in range(2, n)]
            else:
                nxt = [self.expr(p, sc, 1) for p in params]
                targs = [("p", i) for i in range(n)]
            fin = self.expr(f.ret, Scope(names, bounds, sc.vars + [("r", f.ret, lambda e, w: w["r"], None)]), 1)
            src = "%s, p%d: i32): %s {\n  if (p%d <= 0) { return %s; }\n  var r = %s[%s](%s, p%d - 1);\n  return %s;\n}" % (
                head, k, tsrc(f.ret, names), k, stop[0], f.name, ", ".join(names[a[1]] for a in targs), ", ".join(x[0] for x in nxt), k, fin[0])

            def run(e, w):
                if w["p%d" % k] > 3:
                    raise Bad()
                if w["p%d" % k] <= 0:
                    return stop[1](e, w)
                w = dict(w)
                w["r"] = self.invoke(f, [conc(a, e) for a in targs], [x[1](e, w) for x in nxt] + [w["p%d" % k] - 1])
                return fin[1](e, w)
            f.run = run
            f.rec = k
        else:
            src, r, f.run = self.block(sc, f.ret, t.below(4))
            typed = t.bool(2, 3)
            if src is None:
                src = "%s)%s => %s" % (head, "", r)
            else:
                src = "%s)%s {\n  %s\n}" % (head, ": " + tsrc(f.ret, names) if typed else "", src)
        self.decls.append(src)
        self.funcs.append(f)

    def struct(self):
        t = self.t
        n = t.int(1, 2)
        names = t.shuffle(["T", "U", "A", "B"])[:n]
        bounds = self.bounds(n)
        s = Decl(name=self.fresh("S") + "_§", tag=self.fresh("s"), bounds=bounds, methods=[], init=t.bool(1, 3), default=None)
        sc = Scope(names, bounds)
        s.fields = [("p", i) for i in range(n)]
        for _ in range(t.below(3)):
            s.fields.append(self.term(sc, d=1))
        if any(depth(f) > 1 for f in s.fields):
            raise Bad()
        if n == 2 and not s.init:
            if t.bool() and self.sat(("c", "Q"), bounds[1], sc):
                s.default = ("c", "Q")
            elif self.sat(("p", 0), bounds[1], sc) and t.bool():
                s.default = ("p", 0)
        L = ["f%d: %s;" % (i, tsrc(f, names)) for i, f in enumerate(s.fields)]
        if s.init:
            L.append("func `init`(%s) { %s }" % (", ".join("a%d: %s" % (i, tsrc(f, names)) for i, f in enumerate(s.fields)), " ".join("this.f%d = a%d;" % (i, i) for i in range(len(s.fields)))))
        L.append('const func `str`(os: &OutputStream) { os << "%s<" << %s << ">"; }' % (s.tag, ' << "|" << '.join("f%d" % i for i in range(len(s.fields)))))
        thisv = [("f%d" % i, f, (lambda i: lambda e, w: w["this"][i])(i), None) for i, f in enumerate(s.fields)]
        for _ in range(t.below(4)):
            k = t.below(2)
            tps = t.shuffle(["X", "Y"])[:k]
            mb = self.bounds(k)
            msc = Scope(names + tps, bounds + mb)
            params = [("p", n + i) for i in range(k) if t.bool(4, 5)]
            for _ in range(t.below(2)):
                params.append(self.term(msc, d=0))
            msc.vars = thisv + [("p%d" % i, p, (lambda i: lambda e, w: w["p%d" % i])(i), None) for i, p in enumerate(params)]
            m = Decl(name=self.fresh("m"), bounds=mb, tps=tps, params=params, infer=self.infer(params, k, n), const=True)
            m.ret = self.term(msc)
            if n == 2 and bounds[0] == bounds[1] and len(s.fields) == 2 and not k and t.bool():
                m.ret = ("g", s, (("p", 1), ("p", 0)))
                self.cl.add("method returning another instance")
            if depth(m.ret) > 1:
                continue
            try:
                src, r, m.run = self.block(msc, m.ret, t.below(2))
            except Bad:
                continue
            head = "const func %s%s(%s)" % (m.name, "[%s]" % ", ".join(tps) if tps else "", ", ".join("p%d: %s" % (i, tsrc(p, msc.names)) for i, p in enumerate(params)))
            if src is None:
                L.append("%s => %s;" % (head, r))
            else:
                L.append("%s%s { %s }" % (head, ": " + tsrc(m.ret, msc.names) if t.bool() and not self.mentions(m.ret, s) else "", src))
            s.methods.append(m)
        dflt = " = " + tsrc(s.default, names) if s.default else ""
        self.decls.append("struct %s[%s%s] {\n  %s\n}" % (s.name, ", ".join(names), dflt, "\n  ".join(L)))
        self.structs.append(s)

    def mentions(self, x, s):
        return x[0] == "g" and (x[1] is s or any(self.mentions(y, s) for y in x[2])) or x[0] == "t" and any(self.mentions(y, s) for y in x[1])

    def classes(self):
        """a generic class, one derived from it generically or from one instance"""
        t = self.t
        a, b, u = self.fresh("C") + "_§", self.fresh("D") + "_§", self.fresh("u") + "_§"
        bd = self.t.choice(["any", "num", "cmp"])
        tp = t.choice(["T", "K"])
        sc = Scope([tp], [bd], [("this.v", ("p", 0), lambda e, w: w["v"], None), ("x", ("p", 0), lambda e, w: w["x"], None)])
        m1, m2 = self.expr(("p", 0), sc, 2), self.expr(("p", 0), sc, 2)
        generic = t.bool(2, 3)
        ty = t.choice(self.bounded(bd))
        self.decls.append("class %s[%s] {\n  v: %s;\n  func `init`(v: %s) { this.v = v; }\n  func get(): %s { return this.v; }\n  virtual func vm(x: %s): %s { return %s; }\n}" % (a, tp, tp, tp, tp, tp, tp, m1[0]))
        if generic:
            self.decls.append("class %s[%s] : %s[%s] {\n  func `init`(v: %s) { super(v); }\n  func vm(x: %s): %s { return %s; }\n}" % (b, tp, a, tp, tp, tp, tp, m2[0]))
        else:
            m2 = self.expr(("c", ty), Scope([], [], [("this.v", ("c", ty), lambda e, w: w["v"], None), ("x", ("c", ty), lambda e, w: w["x"], None)]), 2)
            self.decls.append("class %s : %s[%s] {\n  func `init`(v: %s) { super(v); }\n  func vm(x: %s): %s { return %s; }\n}" % (b, a, ty, ty, ty, ty, m2[0]))
        self.decls.append("func %s[%s](c: %s[%s], x: %s): %s { return c.vm(x); }" % (u, tp, a, tp, tp, tp))
        self.cl.add("generic class")
        for _ in range(t.int(1, 3)):
            k = t.choice(self.bounded(bd)) if generic else ty
            d = t.bool()
            v, x = self.lit(k), self.lit(k)
            c = self.fresh("o")
            env = [PRIMS[k]]
            r = (m2 if d else m1)[1](env, {"v": v[1](None, None), "x": x[1](None, None)})
            self.body.append("var %s = %s(%s);" % (c, (b + "[%s]" % k if generic else b) if d else "%s[%s]" % (a, k), v[0]))
            self.emit("%s.get()" % c, PRIMS[k], v[1](None, None))
            self.emit("%s.vm(%s)" % (c, x[0]), PRIMS[k], r)
            self.emit("%s[%s](%s, %s)" % (u, k, c, x[0]), PRIMS[k], r)

    def shape(self, d=2):
        """a type of any shape: source, size, alignment"""
        t = self.t
        o = t.weighted([(4, "prim"), (2 if d else 0, "^"), (5 if d else 0, "array"), (2 if d else 0, "tuple"), (1 if d else 0, "func")])
        if o == "prim":
            k = t.choice([*INTS, "f64", "f32", "string", "Q"])
            n = INTS.get(k) or {"f64": 8, "f32": 4, "string": 8, "Q": 16}[k]
            return k, n, min(n, 8)
        a = self.shape(0 if o == "func" else d - 1)
        if o == "^":
            return "^" + a[0], 8, 8
        if o == "array":
            n = t.int(1, 13)
            return "[%s, %d]" % (a[0], n), n * a[1], a[2]
        b = self.shape(0 if o == "func" else d - 1)
        if o == "func":
            return "func(x: %s) -> %s" % (a[0], b[0]), 8, 8
        al = max(a[2], b[2])
        up = lambda x, y: (x + y - 1) // y * y
        return "(%s, %s)" % (a[0], b[0]), up(up(a[1], b[2]) + b[1], al), al

    def shapes(self):
        """instances for types of any shape, and inference from arrays and pointers"""
        t = self.t
        b, f, r, p, w, h = (self.fresh(x) + "_§" for x in ("B", "sz", "rf", "pt", "sw", "hd"))
        self.decls.append("struct %s[T] { v: i32 = 0; const func size() { return sizeof!(#T) as i64; } }" % b)
        self.decls.append("func %s[T](v: i64): i64 { return v + (sizeof!(#T) as i64); }" % f)
        self.decls.append("func %s[T](p: &const T): i64 { return sizeof!(#T) as i64; }" % r)
        self.decls.append("func %s[T](p: ^const T): i64 { return sizeof!(#T) as i64; }" % p)
        self.decls.append("func %s[T](a: ^T, b: ^T) { var t = *a; *a = *b; *b = t; }" % w)
        self.decls.append("func %s[T](a: &const T) { return a.[0]; }" % h)
        self.cl.add("instances for composite types")
        seen = []
        for _ in range(t.int(2, 6)):
            o = t.weighted([(4, "type"), (2, "twin"), (3, "array"), (2, "swap")])
            if o == "type" or o == "twin" and not seen:
                x = self.shape(3)
                seen.append(x)
            if o == "twin" and seen:
                # like an earlier one but for a length
                y = t.choice(seen)
                n, m = t.int(1, 13), t.int(1, 13)
                for k in (n, m):
                    self.body.append("println(%s[[%s, %d]](%d));" % (f, y[0], k, 5))
                    self.out.append(str(5 + k * y[1]))
                self.cl.add("arrays of two lengths")
            elif o in ("type", "twin"):
                v = self.fresh("q")
                if t.bool():
                    self.body.append("var %s = %s[%s]{v: 1}; println(%s.size());" % (v, b, x[0], v))
                    self.out.append(str(x[1]))
                else:
                    self.body.append("println(%s[%s](%d));" % (f, x[0], 7))
                    self.out.append(str(7 + x[1]))
            elif o == "array":
                v, n, k = self.fresh("q"), t.int(1, 6), t.choice([*INTS, "f64", "string"])
                size = INTS.get(k, 8)
                xs = [self.lit(k) for _ in range(n)]
                self.body.append("var %s = [%s];" % (v, ", ".join(x[0] for x in xs)))
                i = t.below(n)
                for s, e in [("%s(%s)" % (r, v), n * size), ("%s(%s.[%d])" % (r, v, i), size), ("%s(ptrof %s)" % (p, v), n * size), ("%s(ptrof %s.[%d])" % (p, v, i), size),
                             ("%s(%s)" % (h, v), show(PRIMS[k], xs[0][1](None, None)))]:
                    if t.bool(2, 3):
                        self.body.append("println(%s);" % s)
                        self.out.append(str(e))
            else:
                k = t.choice([*INTS, "f64", "string", "bool", "char", "Q"])
                x, y, a, c = self.fresh("q"), self.fresh("q"), self.lit(k), self.lit(k)
                self.body.append("var %s = %s; var %s = %s; %s%s(ptrof %s, ptrof %s);" % (x, a[0], y, c[0], w, "[%s]" % k if t.bool() else "", x, y))
                self.emit(x, PRIMS[k], c[1](None, None))
                self.emit(y, PRIMS[k], a[1](None, None))
                self.cl.add("inference through a pointer")

    def emit(self, src, ty, v):
        self.body.append("println(%s);" % src)
        self.out.append(show(ty, v))

    def use(self):
        t = self.t
        sc = Scope([], [], [(n, x, (lambda n: lambda e, w: self.vars[n])(n), None) for n, x in self.locals])
        o = t.weighted([(5 if self.funcs else 0, "call"), (2, "var"), (1, "variadic"), (1, "closure"), (3 if self.funcs else 0, "direct")])
        if o in ("call", "direct"):
            f = t.choice(self.funcs)
            if o == "direct" and self.last:
                f = self.last
            self.last = f
            b = {i: self.term(sc, bd) for i, bd in enumerate(f.bounds)}
            if max(depth(x) for x in b.values()) > 2 or depth(tsub(f.ret, [b[i] for i in range(len(b))])) > 3:
                raise Bad()
            ret = tsub(f.ret, [b[i] for i in range(len(b))])
            x = self.call(f, b, sc, 2)
            ty = conc(ret, [])
            self.emit(x[0], ty, x[1]([], {}))
        elif o == "var":
            term = self.term(sc)
            x = self.expr(term, sc, 3)
            n = self.fresh("v")
            v = x[1]([], {})
            self.vars[n] = v
            self.body.append("var %s%s = %s;" % (n, ": " + tsrc(term, []) if t.bool() else "", x[0]))
            self.emit(n, conc(term, []), v)
            self.locals.append((n, term))
        elif o == "variadic":
            n = self.fresh("w") + "_§"
            fs = [f for f in self.funcs if len(f.bounds) == 1 and f.params == [("p", 0)]]
            f = t.choice(fs) if fs else None
            self.decls.append("func %s(...xs: auto) { #for (const x: xs) { println(%s); } }" % (n, "%s[typeof!(x)](#{x})" % f.name if f and f.infer is None else "%s(#{x})" % f.name if f else "#{x}"))
            xs, o = [], []
            for _ in range(t.int(1, 4)):
                term = self.term(sc, f.bounds[0] if f else "any")
                x = self.expr(term, sc, 1)
                xs.append(x[0])
                ty = conc(term, [])
                v = x[1]([], {})
                o.append(show(conc(f.ret, [ty]), self.invoke(f, [ty], [v])) if f else show(ty, v))
            self.cl.add("variadic")
            self.body.append("%s(%s);" % (n, ", ".join(xs)))
            self.out += o
        else:
            a, r = self.term(sc, d=0), self.term(sc, d=0)
            s2 = Scope([], [], [("x", a, lambda e, w: w["x"], None)])
            x, y = self.expr(a, sc, 1), self.expr(r, s2, 1)
            nm = self.fresh("ap") + "_§"
            self.decls.append("func %s[T, U](x: T, f: func(x: T) -> U): U { return f(x); }" % nm)
            self.cl.add("closure given to a generic function")
            self.emit("%s[%s, %s](%s, (x: %s) => %s)" % (nm, tsrc(a, []), tsrc(r, []), x[0], tsrc(a, []), y[0]), conc(r, []), y[1]([], {"x": x[1]([], {})}))


class L10(CxyCheck):
    prop = "L10"
    quick_cases = 6000
    prelude = PRELUDE
    rule = ("a case declares generic structs, functions and classes over random type parameters, uses them with several type arguments and prints the results; "
            "expected: the results of the instances computed one by one. Non-trivial: some generic declaration has at least two instances or one inside another")

    def gen(self, t):
        g = Gen(t)
        g.fuel, g.vars, g.locals, g.last = 400, {}, [], None

        def attempt(f):
            d, b, o, l = len(g.decls), len(g.body), len(g.out), len(g.locals)
            s, fn, c = len(g.structs), len(g.funcs), set(g.cl)
            try:
                f()
            except (Bad, OverflowError):
                del g.decls[d:], g.body[b:], g.out[o:], g.locals[l:], g.structs[s:], g.funcs[fn:]
                g.cl = c
        for _ in range(t.below(3)):
            attempt(g.struct)
        for _ in range(t.int(1, 4)):
            attempt(g.function)
        for _ in range(t.int(2, 7)):
            attempt(g.use)
        if t.bool(1, 4):
            attempt(g.classes)
        if t.bool(1, 4):
            attempt(g.shapes)
        if not g.out:
            raise Bad()
        return CxyCase("\n".join(g.body), "\n".join(g.out) + "\n", decls="\n".join(g.decls), late=t.bool(1, 4), classes=g.cl,
                       nontrivial=any(len(v) > 1 for v in g.inst.values()) or "generic class" in g.cl or "instances for composite types" in g.cl or "method of a generic struct" in g.cl)


if __name__ == "__main__":
    main(L10)
