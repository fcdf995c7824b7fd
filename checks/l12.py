"""L12: types answer questions about themselves truthfully at compile time."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad

INTS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8}
PREDS = ("isInteger isSigned isUnsigned isFloat isOptional isNumber isPointer isReference isStruct isClass isTuple isUnion isString "
         "isBoolean isChar isArray isSlice isEnum isVoid isFunction isClosure isDestructible hasDeinit hasBase isResultType").split()


class T:
    """a type: kind, its text, and what it is made of"""

    def __init__(self, k, s, parts=(), size=None, **kw):
        self.k, self.s, self.parts, self.size, self.__dict__ = k, s, list(parts), size, dict(self.__dict__, k=k, s=s, parts=list(parts), size=size, **kw)

    @property
    def align(self):
        return max([p.align for p in self.parts] or [1]) if self.k in ("tuple", "struct") else self.parts[0].align if self.k in ("array", "alias") else self.size

    def key(self):
        """equal exactly for equal types"""
        if self.k == "alias":
            return self.parts[0].key()
        if self.k in ("tuple", "opt", "array", "ptr", "func", "slice"):
            return (self.k, self.n if self.k == "array" else 0) + tuple(p.key() for p in self.parts)
        if self.k == "union":
            return (self.k,) + tuple(p.key() for p in self.parts)
        return self.s


def layout(ps):
    if any(p.size is None for p in ps):
        return None
    o = 0
    for p in ps:
        o = -(-o // p.align) * p.align + p.size
    a = max(p.align for p in ps)
    return -(-o // a) * a


def truth(t, p):
    """True, False or None when the question has no documented answer"""
    if t.k == "alias":
        return truth(t.parts[0], p)
    k = t.k
    own = {"isInteger": "int", "isFloat": "float", "isOptional": "opt", "isPointer": "ptr", "isStruct": "struct", "isClass": "class",
           "isTuple": "tuple", "isUnion": "union", "isString": "string", "isBoolean": "bool", "isChar": "char", "isArray": "array",
           "isSlice": "slice", "isEnum": "enum", "isVoid": "void", "isFunction": "func"}
    if p in own:
        if p == "isStruct" and k in ("opt", "slice"):
            return None
        return k == own[p]
    if p == "isSigned":
        return None if k in ("float", "enum", "char") else k == "int" and t.s[0] == "i"
    if p == "isUnsigned":
        return None if k in ("enum", "char") else k == "int" and t.s[0] == "u"
    if p == "isNumber":
        return None if k in ("enum", "char") else k in ("int", "float")
    if p in ("isClosure", "isReference", "isResultType"):
        return False
    if p == "hasDeinit":
        return None if k in ("opt", "slice") else k == "class" and t.deinit
    if p == "hasBase":
        return None if k == "enum" else k == "class" and t.base is not None
    if p == "isDestructible":
        if k in ("int", "float", "bool", "char", "string", "enum"):
            return False
        if k == "class":
            return True
        if k in ("struct", "tuple"):
            r = [truth(x, p) for x in t.parts]
            return True if True in r else None if None in r else False
        return None


class Gen:
    def __init__(self, t):
        self.t, self.decls, self.body, self.out, self.cl, self.n = t, [], [], [], set(), 0
        self.types = [T("int", n, size=s) for n, s in INTS.items()] + [T("float", "f32", size=4), T("float", "f64", size=8), T("bool", "bool"), T("char", "char"),
                                                                     T("string", "string", size=8)]
        self.prims = list(self.types)
        self.structs, self.classes, self.tuples, self.q = [], [], [], 0

    def fresh(self, p):
        self.n += 1
        return "%s%d_§" % (p, self.n)

    def type(self, d=2, fields=False):
        t = self.t
        if d <= 0 or t.bool(2, 5):
            return t.choice(self.prims)
        o = t.weighted([(4, "tuple"), (2, "opt"), (2, "array"), (4, "decl")])
        if o == "decl":
            return t.choice(self.types[len(self.prims):] or self.types)
        if o == "tuple":
            ps = [self.type(min(d - 1, 1)) for _ in range(t.int(2, 4))]
            return T("tuple", "(%s)" % ", ".join(p.s for p in ps), ps, layout(ps))
        p = self.type(d - 1)
        if o == "array":
            if fields or d < 2 or p.k not in ("int", "float"):
                return t.choice(self.prims)
            n = t.int(1, 6)
            return T("array", "[%s, %d]" % (p.s, n), [p], p.size * n if p.size else None, n=n)
        if p.k in ("opt", "class", "array", "func", "union") or p.k == "alias":
            return t.choice(self.prims)
        return T("opt", p.s + "?", [p])

    def declare(self):
        t = self.t
        o = t.weighted([(5, "struct"), (6 if self.classes else 4, "class"), (2, "enum"), (2, "union"), (3, "tuple"), (2, "alias"), (1, "func")])
        if o == "struct":
            n = self.fresh("S")
            fs = [("f%d" % i, self.type(1, True)) for i in range(t.int(1, 4))]
            ms = [(self.fresh("go"), t.choice(self.prims[:8]), t.choice(self.prims[:8])) for _ in range(t.weighted([(2, 0), (1, 1)]))]
            at = None
            if t.bool(1, 4):
                at = (self.fresh("at"), t.choice(["hi", "x", "zed"]), t.int(0, 99))
            fat = {f: t.int(0, 99) for f, _ in fs if t.bool(1, 4)}
            # a field of a class type has a default only through null
            fs = [(f, p) for f, p in fs if p.k not in ("union", "func")]
            if not fs:
                return
            al = t.bool(1, 4)
            self.decls.append("%sstruct %s { %s%s%s}" % (
                "@%s(name: %s, id: %d)\n" % (at[0], '"%s"' % at[1], at[2]) if at else "", n,
                "type Id = i64; " if al else "",
                "".join("%s%s: %s; " % ("@key(%d) " % fat[f] if f in fat else "", f, p.s) for f, p in fs),
                "".join("func %s(a: %s): %s { return 1 as %s; } " % (m, a.s, r.s, r.s) for m, a, r in ms)))
            s = T("struct", n, [p for _, p in fs], layout([p for _, p in fs]), fields=fs, methods=ms, attr=at, fattr=fat, hastype=al)
            self.structs.append(s)
            self.types.append(s)
        elif o == "class":
            n = self.fresh("C")
            b = t.choice(self.classes) if self.classes and t.bool(2, 3) else None
            f = (self.fresh("m"), t.choice(self.prims[:8]))
            d = t.bool(1, 3)
            ms = [(self.fresh("go"), t.choice(self.prims[:8]), t.choice(self.prims[:8])) for _ in range(t.weighted([(2, 0), (1, 1)]))]
            self.decls.append("class %s%s { %s: %s = 1; func `init`() { %s} %s%s}" % (
                n, ": " + b.s if b else "", f[0], f[1].s, "super(); " if b else "", "func `deinit`() {} " if d else "",
                "".join("func %s(a: %s): %s { return 1 as %s; } " % (m, a.s, r.s, r.s) for m, a, r in ms)))
            # whether a derived class has its base's deinitialiser is not documented
            c = T("class", n, [], None, base=b, deinit=True if d else False, fields=[f], methods=ms)
            if b and b.deinit is not False and not d:
                c.deinit = None
            self.classes.append(c)
            self.types.append(c)
        elif o == "enum":
            n = self.fresh("E")
            self.decls.append("enum %s { A, B = %d, C }" % (n, t.int(2, 9)))
            self.types.append(T("enum", n))
        elif o == "union":
            n = self.fresh("U")
            ps = []
            for p in t.shuffle(self.prims)[:t.int(2, 4)]:
                ps.append(p)
            self.decls.append("type %s = %s" % (n, " | ".join(p.s for p in ps)))
            self.types.append(T("union", n, ps))
        elif o == "tuple":
            n = self.fresh("T")
            ps = [self.type(1) for _ in range(t.int(2, 5))]
            self.decls.append("type %s = (%s)" % (n, ", ".join(p.s for p in ps)))
            u = T("alias", n, [T("tuple", "(%s)" % ", ".join(p.s for p in ps), ps, layout(ps))], layout(ps))
            self.tuples.append(u)
            self.types.append(u)
        elif o == "alias":
            n = self.fresh("N")
            p = self.type(1)
            if p.k in ("alias", "union"):
                return
            self.decls.append("type %s = %s" % (n, p.s))
            if p.k in ("tuple", "opt"):
                (self.tuples if p.k == "tuple" else []).append(T("alias", n, [p], p.size))
            self.types.append(T("alias", n, [p], p.size))

    def h(self, p):
        """the type after '#'"""
        if p.k != "opt":
            return "#" + p.s
        n = self.fresh("O")
        self.decls.append("type %s = %s" % (n, p.s))
        return "#" + n

    def say(self, v):
        self.out.append(v if isinstance(v, str) else "true" if v is True else "false" if v is False else str(v))
        self.q += 1

    def near(self, p):
        """a type that differs from p in one place, or is p"""
        t = self.t
        if t.bool(1, 3):
            return p
        if p.k in ("tuple", "array", "opt") and t.bool(2, 3):
            ps = list(p.parts)
            if p.k == "tuple" and t.bool(1, 3):
                if t.bool() and len(ps) > 2:
                    ps.pop(t.below(len(ps)))
                else:
                    ps.append(t.choice(self.prims))
            else:
                i = t.below(len(ps))
                ps[i] = self.near(ps[i]) if p.k != "array" else t.choice(self.prims[:10])
            if p.k == "tuple":
                return T("tuple", "(%s)" % ", ".join(x.s for x in ps), ps, layout(ps))
            if p.k == "array":
                n = p.n if t.bool() else t.int(1, 6)
                return T("array", "[%s, %d]" % (ps[0].s, n), ps, n=n)
            if ps[0].k in ("opt", "class", "array", "union", "alias"):
                return p
            return T("opt", ps[0].s + "?", ps)
        return t.choice(self.types)

    def tuple(self):
        t = self.t
        if self.tuples and t.bool(2, 3):
            return t.choice(self.tuples)
        ps = [self.type(1) for _ in range(t.int(2, 5))]
        return T("tuple", "(%s)" % ", ".join(p.s for p in ps), ps, layout(ps))

    def elems(self, u):
        return u.parts[0].parts if u.k == "alias" else u.parts

    def query(self):
        t = self.t
        o = t.weighted([(8, "pred"), (4, "eq"), (3, "tuple"), (3, "transform"), (5 if self.structs else 0, "struct"), (5 if self.classes else 0, "class"),
                        (2, "part"), (2, "sizeof"), (3, "dispatch"), (2, "variadic"), (3, "value")])
        getattr(self, "q_" + o)()

    def emit(self, s):
        self.body.append(s)

    def ask(self, e, v):
        """print the answer, directly or through a condition"""
        t = self.t
        if t.bool():
            return 'println(#{%s});' % e, ("true" if v else "false")
        if t.bool():
            return '#if (%s) { println("yes"); } else { println("no"); }' % e, "yes" if v else "no"
        return '#if (!%s) { println("not"); } else { println("so"); }' % e, "so" if v else "not"

    def q_pred(self):
        t = self.t
        via = t.choice(["const", "generic", "generic"])
        ts = [self.type() for _ in range(1 if via == "const" else t.int(1, 3))]
        if via == "generic" and t.bool(1, 4):
            p = self.type(1)
            if p.k not in ("opt", "array", "class", "alias", "union"):
                ts.append(T("ptr", "^" + p.s, [p]))
                self.cl.add("pointer")
        if via == "generic" and t.bool(1, 6):
            ts.append(T("void", "void"))
        if via == "generic" and t.bool(1, 6):
            p = t.choice(self.prims)
            ts.append(T("slice", "[%s]" % p.s, [p]))
        if t.bool(1, 6):
            a, r = t.choice(self.prims), t.choice(self.prims)
            ts = [T("func", "func(x: %s) -> %s" % (a.s, r.s), [a, r])]
        ps = [p for p in t.shuffle(PREDS)[:t.int(2, 6)] if all(truth(x, p) is not None for x in ts)]
        if not ps:
            raise Bad()
        lines = []
        res = [[] for _ in ts]
        for p in ps:
            v = [truth(x, p) for x in ts]
            y, _ = self.ask("X." + p, True)
            lines.append(y)
            for i, b in enumerate(v):
                res[i].append({"println(": ("false", "true"), "#if (X": ("no", "yes"), "#if (!": ("not", "so")}[{"p": "println(", "X": "#if (X", "!": "#if (!"}[y[0] if y[0] == "p" else y[5]]][b])
        for x in ts:
            self.cl.add("predicates of " + (x.parts[0].k if x.k == "alias" else x.k))
        if via == "const":
            n = self.fresh("X").replace("_§", "")
            self.emit("{ #const X = %s; %s }" % (self.h(ts[0]), " ".join(lines)))
        else:
            n = self.fresh("q")
            self.decls.append("func %s[X]() { %s }" % (n, " ".join(lines)))
            for x in ts:
                self.emit("%s[%s]();" % (n, x.s))
        for r in res:
            for v in r:
                self.say(v)

    def q_eq(self):
        t = self.t
        a = self.type()
        b = self.near(a.parts[0] if a.k == "alias" and t.bool() else a)
        eq = a.key() == b.key()
        if {a.k, b.k} & {"union"} and a.s != b.s:
            raise Bad()
        self.cl.add("equal types" if eq else "unequal types")
        op = t.choice(["==", "!="])
        how = t.below(4)
        if how == 0:
            y, v = self.ask("(%s %s %s)" % (self.h(a), op, self.h(b)), eq == (op == "=="))
        elif how == 1:
            self.emit("{ #const X = %s;" % self.h(a))
            y, v = self.ask("(X %s %s)" % (op, self.h(b)), eq == (op == "=="))
            y += " }"
        elif how == 2:
            self.emit("{ #const X = %s; #const Y = %s;" % (self.h(a), self.h(b)))
            y, v = self.ask("(X %s Y)" % op, eq == (op == "=="))
            y += " }"
        else:
            n = self.fresh("q")
            y, v = self.ask("(X %s %s)" % (op, self.h(b)), eq == (op == "=="))
            self.decls.append("func %s[X]() { %s }" % (n, y))
            y = "%s[%s]();" % (n, a.s)
        self.emit(y)
        self.say(v)

    def q_tuple(self):
        t = self.t
        u = self.tuple()
        ps = self.elems(u)
        self.emit("{ #const X = #%s;" % u.s)
        o = t.choice(["count", "typeat", "indexof", "loop"])
        self.cl.add("tuple " + o)
        if o == "count":
            self.emit("println(#{X.membersCount});")
            self.say(len(ps))
        elif o == "typeat":
            i = t.below(len(ps))
            b = self.near(ps[i])
            if {b.k, ps[i].k} & {"union"} and b.s != ps[i].s:
                b = ps[i]
            y, v = self.ask("(Y == %s)" % self.h(b), b.key() == ps[i].key())
            self.emit("#const Y = typeat!(X, %d); %s" % (i, y))
            self.say(v)
        elif o == "indexof":
            b = t.choice(ps) if t.bool(3, 4) else t.choice(self.prims)
            ks = [p.key() for p in ps]
            self.emit("println(#{indexof!(X, %s)});" % self.h(b))
            self.say(ks.index(b.key()) if b.key() in ks else -1)
        else:
            p = t.choice(["isInteger", "isFloat", "isString", "isTuple", "isStruct", "isClass", "isEnum", "isBoolean", "isOptional"])
            if any(truth(x, p) is None for x in ps):
                p = "isInteger"
            self.emit('#for (const i: 0..X.membersCount) { #const M = typeat!(X, i); #if (M.%s) { println(#{i}, " yes"); } else { println(#{i}, " no"); } }' % p)
            for i, x in enumerate(ps):
                self.say("%d %s" % (i, "yes" if truth(x, p) else "no"))
        self.emit("}")

    def q_transform(self):
        t = self.t
        u = self.tuple()
        ps = self.elems(u)
        m = t.choice(["M", "M", "reverse", "opt", "shift"])
        p = t.choice(["isInteger", "isFloat", "isString", "isStruct", "isClass", "isBoolean", "isNumber", "isSigned"]) if t.bool(2, 3) else None
        c = None
        if p and t.bool():
            p = None
            k = t.below(len(ps))
            op = t.choice(["<", ">", "!=", ">="])
            c = ("i %s %d" % (op, k), lambda i: {"<": i < k, ">": i > k, "!=": i != k, ">=": i >= k}[op])
        if p and any(truth(x, p) is None for x in ps):
            p = None
        if m == "opt" and any(x.k in ("opt", "class", "array", "func", "union", "alias") for x in ps):
            m = "M"
        keep = [i for i in range(len(ps)) if (not p or truth(ps[i], p)) and (not c or c[1](i))]
        if len(keep) < 2 or any(truth(x, "isDestructible") is not False for x in ps):
            raise Bad()
        n = len(ps)
        f = {"M": lambda i: ps[i], "reverse": lambda i: ps[n - i - 1], "opt": lambda i: T("opt", ps[i].s + "?", [ps[i]]), "shift": lambda i: ps[(i + 1) % n]}[m]
        res = [f(i) for i in keep]
        s = {"M": "M", "reverse": "typeat!(X, X.membersCount - i - 1)", "opt": "M?", "shift": "typeat!(X, (i + 1) %% %d)" % n}[m]
        self.emit("{ #const X = #%s; #const R = #`X as M,i => %s%s`;" % (u.s, s, ", M." + p if p else ", (%s)" % c[0] if c else ""))
        self.cl.add("transformation " + m)
        if p or c:
            self.cl.add("transformation with a filter")
        r = T("tuple", "(%s)" % ", ".join(x.s for x in res), res)
        if t.bool(1, 3):
            self.emit("println(#{R.membersCount});")
            self.say(len(res))
        b = self.near(r) if t.bool() else r
        y, v = self.ask("(R == %s)" % self.h(b), b.key() == r.key())
        self.emit(y + " }")
        self.say(v)

    def q_struct(self):
        t = self.t
        s = t.choice(self.structs)
        o = t.weighted([(2, "names"), (3, "types"), (4, "has"), (1, "hastype"), (1, "name"), (4 if s.attr else 0, "attr"), (3 if s.fattr else 0, "fattr")])
        self.cl.add("struct " + o)
        if o == "names":
            self.emit("#for (const m: %s.members) { #if (m.isField) { println(#{m.name}); } }" % s.s)
            for f, _ in s.fields:
                self.say(f)
        elif o == "types":
            b = t.choice([p for _, p in s.fields]) if t.bool(2, 3) else t.choice(self.prims)
            if b.k == "union" or any(p.k == "union" for _, p in s.fields):
                raise Bad()
            self.emit('#for (const m: %s.members) { #if (m.isField) { #const M = m.Tinfo; #if (M == %s) { println(#{m.name}, " same"); } else { println(#{m.name}, " other"); } } }' % (s.s, self.h(b)))
            for f, p in s.fields:
                self.say(f + (" same" if p.key() == b.key() else " other"))
        elif o == "has":
            self.has(s)
        elif o == "hastype":
            y, v = self.ask("has_type!(#%s, :Id)" % s.s, s.hastype)
            self.emit(y)
            self.say(v)
        elif o == "name":
            self.emit("println(#{%s.name});" % s.s)
            self.say(s.s.replace("§", ""))
        elif o == "attr":
            n, a, b = s.attr
            if t.bool(1, 3):
                self.emit('#const Z%d = %s.attributes.["%s"]; #if (Z%d) { println("has"); } else { println("none"); }' % (self.n, s.s, n if t.bool() else "nope", self.n))
                self.say("none" if '"nope"' in self.body[-1] else "has")
            elif t.bool():
                self.emit('println(#{%s.attributes.["%s"].["name"]});' % (s.s, n))
                self.say(a)
            else:
                self.emit('println(#{%s.attributes.["%s"].["id"]});' % (s.s, n))
                self.say(b)
        else:
            self.emit('#for (const m: %s.members) { #if (m.isField) { #const k = m.attributes.["key"]; #if (k) { println(#{m.name}, " ", #{k.[0]}); } else { println(#{m.name}); } } }' % s.s)
            for f, _ in s.fields:
                self.say("%s %d" % (f, s.fattr[f]) if f in s.fattr else f)

    def has(self, s):
        t = self.t
        if s.methods and t.bool():
            m, a, r = t.choice(s.methods)
            a2, r2 = (a, r) if t.bool() else (t.choice(self.prims[:8]), r) if t.bool() else (a, t.choice(self.prims[:8]))
            m2 = m if t.bool(4, 5) else "nope"
            y, v = self.ask('has_member!(#%s, "%s", #func(a: %s) -> %s)' % (s.s, m2, a2.s, r2.s), m2 == m and a2.s == a.s and r2.s == r.s)
            self.cl.add("has_member! of a method")
        else:
            f, p = t.choice(s.fields)
            if p.k in ("union", "array", "opt"):
                raise Bad()
            b = p if t.bool() else t.choice(self.prims)
            f2 = f if t.bool(4, 5) else "nope"
            y, v = self.ask('has_member!(#%s, "%s", %s)' % (s.s, f2, self.h(b)), f2 == f and b.key() == p.key())
            self.cl.add("has_member! of a field")
        self.emit(y)
        self.say(v)

    def q_class(self):
        t = self.t
        c = t.choice(self.classes)
        o = t.weighted([(4, "base"), (2, "baseType"), (2, "has"), (1, "inherited")])
        if o == "base":
            b = t.choice(self.classes)
            if t.bool():
                b = c.base or c
                b = b.base or b if t.bool() else b
            x, r = c.base, False
            while x:
                r = r or x is b
                x = x.base
            y, v = self.ask("is_base_of!(#%s, #%s)" % (b.s, c.s), r)
            self.cl.add("is_base_of! " + ("unrelated" if not r else "direct" if c.base is b else "indirect"))
        elif o == "has":
            return self.has(c)
        elif o == "inherited":
            if not c.base:
                raise Bad()
            f, p = c.base.fields[0]
            y, v = self.ask('has_member!(#%s, "%s", #%s)' % (c.s, f, p.s), True)
            self.cl.add("has_member! of an inherited field")
        else:
            if not c.base:
                raise Bad()
            b = c.base if t.bool(2, 3) else t.choice(self.classes)
            self.emit("{ #const X = #%s; #const B = X.baseType;" % c.s)
            y, v = self.ask("(B == %s)" % self.h(b), b is c.base)
            y += " }"
            self.cl.add("baseType")
        self.emit(y)
        self.say(v)

    def q_part(self):
        t = self.t
        o = t.choice(["elementType", "targetType", "returnType", "pointedType"])
        p = self.type(1)
        if p.k in ("opt", "class", "array", "union", "alias", "func"):
            p = t.choice(self.prims)
        b = p if t.bool() else self.near(p)
        if b.k == "union":
            b = p
        n = self.fresh("q")
        s = {"elementType": "[%s, 3]" % p.s, "targetType": p.s + "?", "returnType": "func(a: i32) -> %s" % p.s, "pointedType": "^" + p.s}[o]
        y, v = self.ask("(Y == %s)" % self.h(b), b.key() == p.key())
        self.cl.add(o)
        self.decls.append("func %s[X]() { #const Y = X.%s; %s }" % (n, o, y))
        self.emit("%s[%s]();" % (n, s))
        self.say(v)

    def q_sizeof(self):
        t = self.t
        p = self.type()
        if p.size is None:
            p = t.choice(self.prims[:10])
        self.emit("println(sizeof!(#%s));" % p.s)
        self.cl.add("sizeof! " + p.k)
        self.say(p.size)

    def lit(self, p):
        t = self.t
        if p.k == "int":
            return "(%d as %s)" % (t.int(0, 99), p.s)
        if p.k == "float":
            return "(%s as %s)" % (t.choice(["0.5", "2.25"]), p.s)
        if p.k == "bool":
            return t.choice(["true", "false"])
        if p.k == "char":
            return "('%s' as char)" % t.choice("abz")
        if p.k == "string":
            return '"%s"' % t.choice(["s", "tt"])
        if p.k == "tuple":
            return "(%s)" % ", ".join(self.lit(x) for x in p.parts)
        if p.k == "class":
            return p.s + "()"
        if p.k == "enum":
            return p.s + ".A"
        if p.k == "struct":
            return "%s{%s}" % (p.s, ", ".join("%s: %s" % (f, self.lit(x)) for f, x in p.fields))
        raise Bad()

    def q_value(self):
        """the type of a variable or of an expression over it"""
        t = self.t
        p = self.type()
        if p.k == "alias":
            p = p.parts[0]
        n = self.fresh("v").replace("_§", "")
        self.emit("var %s = %s;" % (n, self.lit(p)))
        e = n
        if p.k == "tuple" and t.bool():
            i = t.below(len(p.parts))
            e, p = "%s.%d" % (n, i), p.parts[i]
            self.cl.add("typeof! of a tuple element")
        elif p.k == "struct" and t.bool():
            f, p = t.choice(p.fields)
            e = "%s.%s" % (n, f)
            self.cl.add("typeof! of a field")
        elif p.k in ("struct", "class") and p.methods and t.bool():
            m, a, r = t.choice(p.methods)
            e, p = "%s.%s(%s)" % (n, m, self.lit(a)), r
            self.cl.add("typeof! of a call")
        if p.k == "alias":
            p = p.parts[0]
        self.cl.add("typeof! " + p.k)
        b = p if t.bool() else self.near(p)
        if b.k == "union":
            b = p
        pr = t.choice(PREDS)
        if t.bool() or truth(p, pr) is None:
            y, v = self.ask("(Y == %s)" % self.h(b), b.key() == p.key())
        else:
            y, v = self.ask("Y." + pr, truth(p, pr))
        self.emit("{ #const Y = typeof!(%s); %s }" % (e, y))
        self.say(v)

    KINDS = [("isInteger", "int"), ("isFloat", "float"), ("isString", "string"), ("isBoolean", "bool"), ("isChar", "char"), ("isTuple", "tuple"),
             ("isEnum", "enum"), ("isClass", "class"), ("isStruct", "struct")]

    def chain(self, x):
        """#if .. else #if over some of the kinds in some order"""
        ks = self.t.shuffle(self.KINDS)[:self.t.int(1, 5)]
        s = ""
        for i, (p, k) in enumerate(ks):
            s += '%s (%s.%s) { println("%s"); } ' % ("#if" if not i else "else #if", x, p, k)
        return s + 'else { println("?"); }', [k for _, k in ks]

    def q_dispatch(self):
        t = self.t
        n = self.fresh("d")
        s, ks = self.chain("X")
        self.decls.append("func %s[X](x: X) { %s }" % (n, s))
        self.cl.add("dispatch on the type of an argument")
        for _ in range(t.int(1, 3)):
            p = self.type()
            if p.k == "alias":
                p = p.parts[0]
            self.emit("%s(%s);" % (n, self.lit(p)))
            self.say(p.k if p.k in ks else "?")

    def q_variadic(self):
        t = self.t
        n = self.fresh("g")
        s, ks = self.chain("M")
        k = t.below(2)
        pre = ['println("n ", len!(args));', ""][k]
        self.decls.append("func %s(...args: auto) { %s #for (const a: args) { #const M = typeof!(a); %s } }" % (n, pre, s))
        self.cl.add("dispatch on variadic arguments")
        ps = []
        for _ in range(t.int(1, 4)):
            p = self.type()
            ps.append(p.parts[0] if p.k == "alias" else p)
        self.emit("%s(%s);" % (n, ", ".join(self.lit(p) for p in ps)))
        if k == 0:
            self.out.append("n %d" % len(ps))
        for p in ps:
            self.say(p.k if p.k in ks else "?")


class L12(CxyCheck):
    prop = "L12"
    quick_cases = 8000
    rule = ("a case declares random structs, classes, enums, unions, tuples and aliases and asks questions about types built from them; the "
            "answers are compared with those of a model of the types. Non-trivial: at least three questions about at least one declared or composite type")

    def norm(self, s):
        return re.sub(r"\b(S\d+_)\d+", r"\1", super().norm(s))

    def gen(self, t):
        g = Gen(t)
        for _ in range(3 + t.below(5)):
            g.declare()
        k = t.int(2, 6)
        for _ in range(k):
            b, o, d, q, c = len(g.body), len(g.out), len(g.decls), g.q, set(g.cl)
            try:
                g.query()
            except Bad:
                g.body, g.out, g.decls, g.q, g.cl = g.body[:b], g.out[:o], g.decls[:d], q, c
        if not g.out:
            raise Bad()
        return CxyCase("\n".join(g.body), "\n".join(g.out) + "\n", decls="\n".join(g.decls), nontrivial=g.q >= 3 and len(g.types) > len(g.prims), classes=g.cl)


if __name__ == "__main__":
    main(L12)
