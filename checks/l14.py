"""L14: operators on user types call the overload they name."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad

# operators that can be overloaded, with the precedence of the language
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8,
        "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
REL = ["==", "!=", "<", ">", "<=", ">="]
M = 997
WORDS = ["", "a", "kb", "xyz", "Q"]


def mod(x):
    return x % M if x >= 0 else -((-x) % M)


class Ty:
    def __init__(self, name, cls, base=None):
        self.name, self.cls, self.base = name, cls, base
        self.ops = {}      # op -> list of overloads
        self.truth = None
        self.index = []    # (param type, const version?, formula)
        self.setix = []
        self.call = []
        self.it = None

    def chain(self):
        c = self
        while c:
            yield c
            c = c.base

    def find(self, attr):
        for c in self.chain():
            if getattr(c, attr):
                return getattr(c, attr)
        return None

    def isa(self, o):
        return o in self.chain()

    def overloads(self, op):
        for c in self.chain():
            if op in c.ops:
                return c.ops[op]
        return []

    def allops(self):
        s = []
        for c in self.chain():
            s += [o for o in c.ops if o not in s]
        return s


class Fn:
    """r = (v * a + o * b + c) mod M, delivered as ret"""

    def __init__(self, t, owner, op, p, mode, const, ret, kw=""):
        self.owner, self.op, self.p, self.mode, self.const, self.ret, self.kw = owner, op, p, mode, const, ret, kw
        self.a, self.b, self.c = t.int(1, 9), t.choice([-5, -3, -2, 2, 3, 4, 7]), t.int(-20, 20)

    def num(self, o):
        p = self.p
        if p is None:
            return 0
        if isinstance(p, Ty):
            return o[1]
        if p == "bool":
            return 1 if o else 0
        if p == "string":
            return len(o)
        if p == "f64":
            return int(o * 2)
        return o

    def value(self, v, o):
        r = mod(v * self.a + self.num(o) * self.b + self.c)
        return self.deliver(r)

    def deliver(self, r):
        if isinstance(self.ret, Ty):
            return (self.ret, r)
        if self.ret == "bool":
            return r % 2 == 0
        if self.ret == "string":
            return "s%d" % (r % 2)
        return r

    def src(self):
        p = self.p
        o = ("o.v" if isinstance(p, Ty) else "((o)? 1`i64 : 0`i64)" if p == "bool" else "(<i64>len!(o))" if p == "string" else
             "(<i64>(o * 2.0))" if p == "f64" else "o")
        e = "v * %d%s + (%d)" % (self.a, " + %s * (%d)" % (o, self.b) if p is not None else "", self.c)
        r = ("r" if self.ret == "i64" else "r %% 2 == 0" if self.ret == "bool" else
             "(r %% 2 == 0)? \"s0\" : \"s1\"" if self.ret == "string" else mk(self.ret, "r"))
        if self.ret == "string":
            r = "(r % 2 == 0)? \"s0\" : \"s1\""
        elif self.ret == "bool":
            r = "r % 2 == 0"
        ps = "" if p is None else "o: " + (self.mode + p.name if isinstance(p, Ty) else p)
        rt = self.ret.name if isinstance(self.ret, Ty) else self.ret
        return "    %s%sfunc `%s`(%s) : %s { const r = (%s) %% %d; return %s; }" % (
            self.kw, "const " if self.const else "", self.op, ps, rt, e, M, r)


def mk(ty, e):
    return "%s(%s)" % (ty.name, e) if ty.cls else "%s{v: %s}" % (ty.name, e)


def pick(fns, ty):
    """the overload an argument of this type goes to, None when the domain does not say"""
    ex = [f for f in fns if f.p is ty or f.p == ty]
    if ex:
        return ex[0]
    if isinstance(ty, Ty):
        up = [f for f in fns if isinstance(f.p, Ty) and ty.isa(f.p)]
        return up[0] if len(up) == 1 else None
    return None


class Gen:
    def __init__(self, t):
        self.t, self.types, self.body, self.out, self.cl, self.n = t, [], [], [], set(), 0
        self.refs = set()
        self.vars = []  # (source, type, value, const?)

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---------------------------------------------------------------- declarations
    def types_(self):
        t = self.t
        for i in range(t.int(1, 3)):
            base = None
            cls = t.bool(2, 5)
            cs = [x for x in self.types if x.cls]
            if cs and t.bool():
                base, cls = t.choice(cs), True
            ty = Ty("%s§" % "ABC"[i], cls, base)
            self.types.append(ty)
            ty.virt = set()
            self.members(ty)

    def members(self, ty):
        t = self.t
        pool = self.types
        ops = []
        inherited = ty.base.allops() if ty.base else []
        for _ in range(t.int(0 if ty.base else 1, 5)):
            op = t.choice(inherited) if inherited and t.bool(1, 3) else t.choice(list(PREC))
            if op in ops:
                continue
            ops.append(op)
            basefns = ty.base.overloads(op) if ty.base else []
            if basefns:
                self.cl.add("op-override")
                # same parameter types as the inherited overloads
                fns = []
                for b in basefns:
                    virt = b.kw.startswith("virtual") or getattr(b, "over", None)
                    f = Fn(t, ty, op, b.p, b.mode, b.const, b.ret if virt else self.ret(op, ty), "")
                    f.over = b if virt else None
                    fns.append(f)
                ty.ops[op] = fns
                continue
            ps = []
            for _ in range(t.weighted([(4, 1), (2, 2), (1, 3)])):
                p = t.choice(["i64", "string", "bool", "f64", ty, *pool])
                if p not in ps:
                    ps.append(p)
            if len(ps) > 1:
                self.cl.add("op-overloaded")
            fns = []
            byref = all(isinstance(p, Ty) for p in ps) and t.bool() and not any(
                p is not q and p.isa(q) for p in ps for q in ps)
            for p in ps:
                kw = "virtual " if ty.cls and len(ps) == 1 and t.bool(1, 3) else ""
                mode = "&const " if byref and isinstance(p, Ty) else ""
                fns.append(Fn(t, ty, op, p, mode, t.bool(3, 4), self.ret(op, ty), kw))
            ty.ops[op] = fns
        if t.bool(1, 3):
            ty.truth = (t.int(2, 4), t.int(0, 3))
        if t.bool(1, 3):
            for p in dict.fromkeys([t.choice(["i64", "string", *pool]) for _ in range(t.int(1, 2))]):
                f = Fn(t, ty, "[]", p, "", t.bool(1, 3), t.choice(["i64", "i64", "string", "bool", ty]))
                ty.index.append(f)
                if not f.const and t.bool():
                    g = Fn(t, ty, "[]", p, "", True, t.choice(["i64", "string", "bool"]))
                    ty.index.append(g)
                    self.cl.add("index-const-pair")
        if t.bool(1, 3):
            seen = []
            for _ in range(t.int(1, 2)):
                k, x = t.choice(["i64", "string", "bool"]), t.choice(["i64", "string", "bool"])
                if (k, x) not in seen and k not in [s[0] for s in seen]:
                    seen.append((k, x))
                    ty.setix.append((k, x, t.int(1, 7), t.choice([-3, -2, 2, 3]), t.int(-9, 9)))
        if t.bool(1, 3):
            for p in dict.fromkeys([t.choice([None, "i64", "string", "bool", "f64", t.choice(pool)]) for _ in range(t.int(1, 3))]):
                ty.call.append(Fn(t, ty, "()", p, "", t.bool(), t.choice(["i64", "string", "bool", ty])))
        if t.bool(1, 3):
            ty.it = (t.int(1, 5), t.int(1, 4), t.int(-3, 9), t.weighted([(4, 0), (2, 2), (2, 3), (1, 4)]))
        if ty.base:
            # a derived class inherits these whole
            for a in ("index", "setix", "call"):
                if getattr(ty, a) and ty.base.find(a):
                    setattr(ty, a, [])

    def ret(self, op, ty):
        t = self.t
        if op in REL or op in ("&&", "||"):
            return t.choice(["bool", "bool", "bool", "i64", t.choice(self.types)])
        return t.choice(["i64", "bool", "string", ty, ty, t.choice(self.types)])

    def decl(self, ty):
        b = []
        if ty.cls:
            b.append("class %s%s {" % (ty.name, " : " + ty.base.name if ty.base else ""))
            if ty.base:
                b.append("    func `init`(v: i64) { super(v); }")
            else:
                b.append("    v: i64;")
                b.append("    func `init`(v: i64) { this.v = v; }")
        else:
            b.append("struct %s {" % ty.name)
            b.append("    v: i64 = 0;")
        ms = [f.src() for fns in ty.ops.values() for f in fns] + [f.src() for f in ty.index + ty.call]
        if ty.truth:
            m, k = ty.truth
            ms.append("    const func `!!`() : bool { return v %% %d != %d; }" % (m, k % m))
        for k, x, a, c, d in ty.setix:
            n = {"i64": "%s", "string": "<i64>len!(%s)", "bool": "((%s)? 1`i64 : 0`i64)"}
            ms.append("    func `[]=`(k: %s, x: %s) { v = (v + %s * %d + %s * (%d) + (%d)) %% %d; }" % (
                k, x, n[k] % "k" if k != "string" else "(%s)" % (n[k] % "k"), a, n[x] % "x" if x != "string" else "(%s)" % (n[x] % "x"), c, d, M))
        if ty.it:
            n, s, z, pair = ty.it
            if pair:
                w = ["i - 1", "v + i * %d" % s, "((i % 2) == 0)", "i * 100 - %d" % s][:pair]
                wt = ", ".join(["i64", "i64", "bool", "i64"][:pair])
                ms.append("    func `..`() { var i = 0`i64; return () => { if (i < %d) { i = i + 1; return Some[(%s)]((%s)); } return None[(%s)](); }; }" % (n, wt, ", ".join(w).replace("%%", "%"), wt))
            else:
                ms.append("    func `..`() { var i = 0`i64; return () => { if (i < %d) { i = i + 1; return Some[i64](v + i * %d + (%d)); } return None[i64](); }; }" % (n, s, z))
        b += self.t.shuffle(ms)
        b.append("}")
        return "\n".join(b)

    # ---------------------------------------------------------------- values
    def var(self, ty=None):
        t = self.t
        ty = ty or t.choice(self.types)
        if isinstance(ty, Ty):
            v = t.int(-30, 60)
            n = self.fresh("a")
            how = t.int(0, 6)
            if how <= 2:
                self.body.append("    var %s = %s;" % (n, mk(ty, v)))
                x = [n, ty, v, False]
            elif how == 3:
                self.body.append("    const %s = %s;" % (n, mk(ty, v)))
                x = [n, ty, v, True]
            elif how == 4:
                self.body.append("    var %s_ = %s; var %s = ptrof %s_;" % (n, mk(ty, v), n, n))
                x = ["(*%s)" % n, ty, v, False]
                if ty.cls:
                    raise Bad()
                self.cl.add("via-pointer")
            elif how == 5 and not ty.cls:
                self.body.append("    var %s_ = %s; var %s = &%s_;" % (n, mk(ty, v), n, n))
                x = [n, ty, v, False, ty]
                self.refs.add(n)
                self.cl.add("via-reference")
            elif how == 6 and ty.cls and [x for x in self.types if x is not ty and x.isa(ty)]:
                # seen through a base class
                dyn = t.choice([x for x in self.types if x is not ty and x.isa(ty)])
                self.body.append("    var %s: %s = %s;" % (n, ty.name, mk(dyn, v)))
                x = [n, ty, v, False, dyn]
                self.cl.add("via-base")
            else:
                self.body.append("    var %s = (%s, %d);" % (n, mk(ty, v), v)) if not ty.cls else self.body.append("    var %s = %s;" % (n, mk(ty, v)))
                x = [n + ".0" if not ty.cls else n, ty, v, False]
        else:
            n = self.fresh("p")
            v = self.plain(ty)
            self.body.append("    var %s: %s = %s;" % (n, ty, self.lit(ty, v)))
            x = [n, ty, v, False]
        if len(x) == 4:
            x.append(x[1])
        self.vars.append(tuple(x))
        return self.vars[-1]

    def plain(self, ty):
        t = self.t
        return (t.int(-20, 40) if ty in ("i64", "i32") else t.bool() if ty == "bool" else t.choice(WORDS) if ty == "string" else t.int(-9, 9) / 2)

    def lit(self, ty, v):
        if ty in ("i64", "i32"):
            return "%d`%s" % (v, ty) if v >= 0 else "((-%d) as %s)" % (-v, ty)
        if ty == "bool":
            return "true" if v else "false"
        if ty == "string":
            return '"%s"' % v
        return "%r" % v if v >= 0 else "(%r)" % v

    def dyn(self, v):
        """static type, dynamic type, number of an object value"""
        return v

    def expr(self, ty, d, recv=None):
        """(source, precedence, value, is const object); an object value is (dynamic type, number)"""
        t = self.t
        if d > 0:
            opts = []
            for x in self.types:
                for op in x.allops():
                    for f in x.overloads(op):
                        if f.ret is ty or f.ret == ty:
                            opts.append((x, op, f))
            if opts and t.bool(4, 5):
                x, op, f = t.choice(opts)
                ls, lp, lv, lc = self.expr(x, d - 1, 1)
                if lc and not f.const:
                    return self.leaf(ty, recv)
                rty = f.p
                if isinstance(rty, Ty):
                    subs = [s for s in self.types if s.isa(rty) and pick(x.overloads(op), s) is f]
                    rty = t.choice(subs)
                rs, rp, rv, rc = self.expr(rty, d - 1, 1 if f.mode else None)
                if rc and isinstance(rty, Ty) and "const" not in f.mode and rty.cls:
                    return self.leaf(ty, recv)
                p = PREC[op]
                if lp < p or t.bool(1, 12):
                    ls = "(%s)" % ls
                if rp <= p or t.bool(1, 12):
                    rs = "(%s)" % rs
                g = self.dispatch(f, lv[0])
                self.cl.add("op" + op)
                self.nops = getattr(self, "nops", 0) + 1
                return "%s %s %s" % (ls, op, rs), p, g.value(lv[1], rv), False
            cs = [(x, f) for x in self.types for f in (x.find("call") or []) if f.ret is ty or f.ret == ty]
            if cs and t.bool():
                x, f = t.choice(cs)
                y = self.objvar(x)
                if y[3] and not f.const:
                    return self.leaf(ty, recv)
                if f.p is None:
                    self.cl.add("call-op")
                    return "%s()" % y[0], 99, f.value(y[2], None), False
                rs, rp, rv, rc = self.expr(f.p, d - 1)
                if rc and isinstance(f.p, Ty) and "const" not in f.mode and f.p.cls:
                    return self.leaf(ty, recv)
                if pick(x.find("call"), f.p) is not f:
                    return self.leaf(ty, recv)
                self.cl.add("call-op")
                return "%s(%s)" % (y[0], rs), 99, f.value(y[2], rv), False
            ix = [(x, f) for x in self.types for f in (x.find("index") or []) if f.ret is ty or f.ret == ty]
            if ix and t.bool():
                x, f = t.choice(ix)
                y = self.objvar(x)
                fs = [g for g in x.find("index") if g.p is f.p or g.p == f.p]
                if len(fs) == 2:
                    if y[3] != f.const:
                        return self.leaf(ty, recv)
                elif y[3] and not f.const:
                    return self.leaf(ty, recv)
                rs, rp, rv, rc = self.expr(f.p, d - 1)
                if rc and isinstance(f.p, Ty) and f.p.cls:
                    return self.leaf(ty, recv)
                self.cl.add("index-op")
                return "%s.[%s]" % (y[0], rs), 99, f.value(y[2], rv), y[3]
            if ty == "bool":
                xs = [x for x in self.types if x.find("truth")]
                if xs and t.bool():
                    x = t.choice(xs)
                    s, p, v, c = self.expr(x, d - 1, 1)
                    b = self.truth(x, v)
                    neg = t.bool()
                    self.cl.add("truth-op")
                    return ("!" if neg else "!!") + (s if p == 99 else "(%s)" % s), 98, b != neg, False
                return "(%s)" % self.expr("bool", d - 1)[0] if False else self.leaf(ty)
        return self.leaf(ty, recv)

    def dispatch(self, f, dynty):
        """the function a call of f on an object of this dynamic type runs"""
        virt = f.kw.startswith("virtual") or getattr(f, "over", None)
        if not virt:
            return f
        root = f
        while getattr(root, "over", None):
            root = root.over
        for c in dynty.chain():
            for g in c.ops.get(f.op, []):
                r = g
                while getattr(r, "over", None):
                    r = r.over
                if r is root:
                    if g is not f:
                        self.cl.add("virtual-op")
                    return g
        return f

    def truth(self, x, v):
        m, k = x.find("truth")
        r = v[1] % m if v[1] >= 0 else -((-v[1]) % m)
        return r != k % m

    def objvar(self, ty):
        t = self.t
        xs = [x for x in self.vars if x[1] is ty]
        if xs and t.bool(3, 4):
            return t.choice(xs)
        return self.var(ty)

    def leaf(self, ty, recv=None):
        t = self.t
        if isinstance(ty, Ty):
            if t.bool(1, 4):
                v = t.int(-20, 40)
                self.cl.add("temporary")
                return mk(ty, v), 99, (ty, v), False
            x = self.objvar(ty)
            if x[0] in self.refs:
                if recv is None:
                    return self.leaf(ty)
            return x[0], 99, (x[4], x[2]), x[3]
        if t.bool():
            v = self.plain(ty)
            if ty == "f64" and v < 0 or ty == "i64" and v < 0:
                return self.lit(ty, v), 99, v, False
            return self.lit(ty, v), 99, v, False
        x = self.objvar(ty)
        return x[0], 99, x[2], False

    def show(self, ty, v):
        if isinstance(ty, Ty):
            return str(v[1])
        if ty == "bool":
            return "true" if v else "false"
        return "%g" % v if ty == "f64" else str(v)

    # ---------------------------------------------------------------- statements
    def st_expr(self):
        t = self.t
        rets = {}
        for x in self.types:
            for op in x.allops():
                for f in x.overloads(op):
                    rets[f.ret if not isinstance(f.ret, Ty) else f.ret.name] = f.ret
        for x in self.types:
            for f in (x.find("call") or []) + (x.find("index") or []):
                rets[f.ret if not isinstance(f.ret, Ty) else f.ret.name] = f.ret
        if not rets:
            raise Bad()
        ty = rets[t.choice(sorted(rets))]
        s, p, v, c = self.expr(ty, t.int(1, 4))
        how = t.int(0, 3)
        if how == 0 and ty != "string":
            n = self.fresh("r")
            self.body.append("    var %s = %s;" % (n, s))
            self.body.append("    println(%s);" % (n + ".v" if isinstance(ty, Ty) else n))
        elif how == 1 and ty == "bool":
            self.body.append('    if (%s) println("y"); else println("n");' % s)
            self.out.append("y" if v else "n")
            self.cl.add("condition")
            return
        elif how == 2 and not isinstance(ty, Ty):
            self.body.append("    println(f\"<${%s}>\");" % s if not set(s) & set('"{}') else "    println(%s);" % s)
            self.out.append("<%s>" % self.show(ty, v) if not set(s) & set('"{}') else self.show(ty, v))
            return
        else:
            self.body.append("    println((%s)%s);" % (s, ".v" if isinstance(ty, Ty) else ""))
        self.out.append(self.show(ty, v))

    def st_truth(self):
        t = self.t
        xs = [x for x in self.types if x.find("truth")]
        if not xs:
            return self.st_expr()
        x = t.choice(xs)
        how = t.int(0, 3)
        if how == 0:
            s, p, v, c = self.expr(x, t.int(0, 2), 1)
            self.body.append('    if (%s) println("T"); else println("F");' % s)
            self.out.append("T" if self.truth(x, v) else "F")
            self.cl.add("truth-if")
        elif how == 1:
            s, p, v, c = self.expr(x, t.int(0, 2), 1)
            n = self.fresh("i")
            a, b = t.int(0, 50), t.int(51, 99)
            self.body.append("    println((%s)? %d : %d);" % (s, a, b))
            self.out.append(str(a if self.truth(x, v) else b))
            self.cl.add("truth-ternary")
        elif how == 2:
            y = self.objvar(x)
            if y[3]:
                return self.st_expr()
            n = self.fresh("w")
            self.body.append("    var %s = 0`i64;" % n)
            self.body.append("    while (%s) { %s.v = %s.v + 1; %s = %s + 1; if (%s > 9) break; }" % (y[0], y[0], y[0], n, n, n))
            self.body.append("    println(%s, \" \", %s.v);" % (n, y[0]))
            v, k = y[2], 0
            while self.truth(x, (x, v)):
                v += 1
                k += 1
                if k > 9:
                    break
            self.set(y, v)
            self.out.append("%d %d" % (k, v))
            self.cl.add("truth-while")
        else:
            s, p, v, c = self.expr(x, t.int(0, 1), 1)
            b = self.expr("bool", 1)
            s = s if p == 99 else "(%s)" % s
            bs = b[0] if b[1] >= 98 else "(%s)" % b[0]
            op = t.choice(["&&", "||"])
            tv = self.truth(x, v)
            self.body.append("    println(!!%s %s %s);" % (s, op, bs))
            self.out.append(self.show("bool", (tv and b[2]) if op == "&&" else (tv or b[2])))
            self.cl.add("truth-logic")

    def st_while(self):
        """a loop whose condition is an operator applied to the counter"""
        t = self.t
        c = [(x, op, f) for x in self.types for op in x.allops() for f in x.overloads(op)
             if f.p == "i64" and (f.ret == "bool" or isinstance(f.ret, Ty) and f.ret.find("truth"))]
        if not c:
            return self.st_truth()
        x, op, f = t.choice(c)
        y = self.objvar(x)
        if y[3] and not f.const:
            return self.st_truth()
        n, k = self.fresh("w"), t.int(1, 7)
        neg = t.bool(1, 3)
        cond = "%s %s %s" % (y[0], op, n)
        cond = "!(%s)" % cond if neg else cond
        form = t.below(3)
        if form == 1:
            cond = "%s < %d && %s%s" % (n, k, "" if neg or f.ret == "bool" and PREC[op] > 2 else "!!" if f.ret != "bool" else "", cond if neg or f.ret == "bool" and PREC[op] > 2 else "(%s)" % cond)
            body = ""
        else:
            body = " if (%s >= %d) break;" % (n, k)
        self.body.append("    var %s = 0`i64;" % n)
        self.body.append("    while (%s) { %s = %s + 1;%s }" % (cond, n, n, body))
        self.body.append("    println(%s);" % n)
        g, i = self.dispatch(f, y[4]), 0
        while True:
            r = g.value(y[2], i)
            r = self.truth(f.ret, r) if f.ret != "bool" else r
            if form == 1 and i >= k or r == neg:
                break
            i += 1
            if form != 1 and i >= k:
                break
        self.out.append(str(i))
        self.cl.add("operator in a loop condition")

    def set(self, y, v):
        i = [k for k, x in enumerate(self.vars) if x[0] == y[0]][0]
        self.vars[i] = (y[0], y[1], v, y[3], y[4])

    def st_setix(self):
        t = self.t
        xs = [x for x in self.types if x.find("setix")]
        if not xs:
            return self.st_expr()
        x = t.choice(xs)
        y = self.objvar(x)
        if y[3]:
            return self.st_expr()
        k, xt, a, c, d = t.choice(x.find("setix"))
        ks, _, kv, _ = self.expr(k, 1)
        rs, _, rv, _ = self.expr(xt, 1)
        n = lambda q: len(q) if isinstance(q, str) else int(q)
        gets = [f for f in (x.find("index") or []) if f.p == k and not f.const and f.ret == xt == "i64"]
        if gets and t.bool():
            op = t.choice(["+", "-", "*"])
            old = gets[0].value(y[2], kv)
            rv = old + rv if op == "+" else old - rv if op == "-" else old * rv
            self.body.append("    %s.[%s] %s= %s;" % (y[0], ks, op, rs))
            self.cl.add("index-compound")
        else:
            self.body.append("    %s.[%s] = %s;" % (y[0], ks, rs))
        self.cl.add("index-assign")
        v = mod(y[2] + n(kv) * a + n(rv) * c + d)
        self.set(y, v)
        self.body.append("    println(%s.v);" % y[0])
        self.out.append(str(v))

    def st_iter(self):
        t = self.t
        xs = [x for x in self.types if x.find("it")]
        if not xs:
            return self.st_expr()
        x = t.choice(xs)
        y = self.objvar(x)
        if y[3] or y[0].startswith("("):
            return self.st_expr()
        n, s, z, pair = x.find("it")
        stop = t.choice([None, None, t.int(1, n)])
        a, b = self.fresh("x"), self.fresh("y")
        k = self.fresh("k")
        self.body.append("    var %s = 0`i64;" % k)
        how = t.int(0, 2)
        ctl = ""
        if stop is not None:
            ctl = " if (%s == %d) %s;" % (k, stop, "break" if how else "continue")
        if pair:
            m = t.int(1, pair)
            names = [a, b, a + "c", a + "d"][:m]
            skip = [m > 1 and t.bool(1, 4) for _ in names]
            used = [q for q, x_ in zip(names, skip) if not x_]
            if any(skip):
                self.cl.add("iterator with ignored variables")
            self.body.append("    for (const %s: %s) { %s = %s + 1;%s println(%s); }" % (
                ", ".join("_" if x_ else q for q, x_ in zip(names, skip)), y[0], k, k, ctl, ", \":\", ".join(used or ["1"])))
        else:
            self.body.append("    for (const %s: %s) { %s = %s + 1;%s println(%s); }" % (a, y[0], k, k, ctl, a))
        for i in range(1, n + 1):
            if stop == i:
                if how:
                    break
                continue
            if pair:
                vs = [str(i - 1), str(y[2] + i * s), "true" if i % 2 == 0 else "false", str(i * 100 - s)][:pair]
                self.out.append("(%s)" % ", ".join(vs) if m == 1 else ":".join(v for v, x_ in zip(vs, skip) if not x_) or "1")
            else:
                self.out.append(str(y[2] + i * s + z))
        self.cl.add("iterator")

    def st_null(self):
        t = self.t
        xs = [x for x in self.types if x.cls]
        if not xs:
            return self.st_expr()
        x = t.choice(xs)
        y = self.objvar(x)
        self.body.append("    println(%s == null, %s != null);" % (y[0], y[0]))
        self.out.append("falsetrue")
        self.cl.add("null-compare")

    def build(self):
        t = self.t
        self.types_()
        for ty in self.types:
            self.var(ty)
        for _ in range(t.int(2, 7)):
            t.weighted([(8, self.st_expr), (2, self.st_truth), (1, self.st_while), (2, self.st_setix), (1, self.st_iter), (1, self.st_null)])()
        return "\n".join(self.decl(x) for x in self.types)


class L14(CxyCheck):
    prop = "L14"
    quick_cases = 8000
    thorough_cases = 60000
    batch = 24

    rule = ("a program counts as non-trivial when it applies at least one overloaded binary operator, index, call, truth or "
            "iteration operator of a user type")

    def gen(self, t):
        g = Gen(t)
        d = g.build()
        return CxyCase("\n".join(g.body), "\n".join(g.out) + "\n", decls=d, nontrivial=bool(g.cl - {"temporary", "condition", "null-compare", "via-pointer", "via-base", "via-reference"}),
                       late=t.bool(1, 4), classes=sorted(g.cl))


if __name__ == "__main__":
    main(L14)
