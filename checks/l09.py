"""L09: every value is formatted as its type says, wherever it is written."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main

INTS = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1),
        "u32": (0, 2**32 - 1), "i64": (-2**63 + 1, 2**63 - 1), "u64": (0, 2**64 - 1)}
WORDS = ["", "a", "ab", "x y", "é", "€uro", "😀", "null", "true", "%d %s", "(", "a, b", "q" * 40, "w" * 300, "{}", "0", "tab\\tq", "\\\"hi\\\""]
CHARS = list("aZ09 ~(") + ["%", "{", "$"]
WCHARS = ["é", "ß", "€", "漢", "😀", "𐍈", "\u07ff", "\u0800", "\uffee", "\U00010000", "\U0010fffd", "a"]
FLOATS = [0.0, 0.5, -0.5, 1.0, 1.5, -2.25, 100.0, 0.125, 1e5, 999999.0, 1e6, 1234567.0, 0.0001, 0.00001, 1e10, 1e-10, 123.456, 3.0, -7.0]
F32S = [0.0, 0.5, -0.5, 1.5, -2.25, 100.0, 0.125, 65536.0, 3.0]


def unesc(s):
    return s.replace("\\t", "\t").replace('\\"', '"')


class Val:
    def __init__(self, text, out):
        self.text, self.out = text, out


class Ty:
    """name in C-xy; gen() -> Val; kind"""

    def __init__(self, name, kind, gen, quote="", owner=None):
        self.name, self.kind, self.gen, self.quote = name, kind, gen, quote


class Gen:
    def __init__(self, t):
        self.t, self.decls, self.n, self.L, self.out, self.cl = t, [], 0, [], [], set()
        self.types = []

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- scalars
    def scalar(self, k=None):
        t = self.t
        k = k or t.weighted([(5, "int"), (2, "bool"), (2, "char"), (2, "wchar"), (2, "f64"), (1, "f32"), (4, "string"), (2, "String"), (2, "enum")])
        if k == "int":
            n = t.choice(list(INTS))
            lo, hi = INTS[n]

            def g(lo=lo, hi=hi, n=n):
                v = t.choice([t.near0(max(lo, -1000), min(hi, 1000)), lo, hi, t.int(lo, hi)])
                return Val("(%s as %s)" % ("(%d)" % v if v < 0 else v, n), str(v))
            return Ty(n, "int", g)
        if k == "bool":
            def g():
                v = t.choice(["true", "false"])
                return Val(v, v)
            return Ty("bool", k, g)
        if k == "char":
            def g():
                c = t.choice(CHARS)
                return Val("('%s' as char)" % c, c)
            return Ty("char", k, g, "'")
        if k == "wchar":
            def g():
                c = t.choice(WCHARS)
                return Val("('%s' as wchar)" % c if ord(c) < 128 or t.bool() else "'%s'" % c, c)
            return Ty("wchar", k, g, "'")
        if k in ("f64", "f32"):
            def g(k=k):
                v = t.choice(FLOATS if k == "f64" else F32S)
                return Val("(%s as %s)" % ("(%r)" % v if v < 0 else "%r" % v, k), "%g" % v)
            return Ty(k, "float", g)
        if k == "string":
            def g():
                w = t.choice(WORDS)
                return Val('"%s"' % w, unesc(w))
            return Ty("string", k, g, '"')
        if k == "String":
            def g():
                w = t.choice(WORDS)
                return Val('"%s".S' % w, unesc(w))
            return Ty("String", k, g, '"')
        return self.enum()

    def enum(self):
        t = self.t
        es = [x for x in self.types if x.kind == "enum"]
        if es and t.bool(2, 3):
            return t.choice(es)
        n = self.fresh("Ty") + "_§"
        ms, v, L = [], -1, []
        for m in ["Aa", "Bb", "Cc", "Dd", "Ee"][:t.int(1, 5)]:
            attr = t.choice(["", "", "alias", "x y", "é"])
            txt = attr or "%s.%s" % (n.replace("§", ""), m)
            val = ""
            v += 1
            if t.bool(1, 3):
                v += t.int(0, 60)
                val = " = %d" % v
            L.append(('@str("%s") ' % attr if attr else "") + m + val)
            ms.append((m, txt))
        self.decls.append("enum %s { %s }" % (n, ", ".join(L)))

        def g():
            m, txt = t.choice(ms)
            return Val("%s.%s" % (n, m), txt)
        ty = Ty(n, "enum", g)
        self.types.append(ty)
        return ty

    # ---- compounds
    def typ(self, d):
        t = self.t
        ks = [(6, "scalar")]
        if d > 0:
            ks += [(4, "tuple"), (3, "struct"), (2, "class"), (3, "optional"), (2, "union"), (2, "array"), (2, "old")]
        k = t.weighted(ks)
        if k == "old":
            olds = [x for x in self.types if x.kind in ("struct", "class", "union", "enum")]
            if olds:
                return t.choice(olds)
            k = "tuple"
        if k == "scalar":
            return self.scalar()
        return getattr(self, k)(d)

    def member(self, d):
        """a type usable inside of other types"""
        for _ in range(6):
            x = self.typ(d - 1)
            if x.kind not in ("array",):
                return x
        return self.scalar("int")

    def tuple(self, d):
        t = self.t
        ms = [m if m.kind != "union" else self.scalar() for m in (self.member(d) for _ in range(t.int(2, 4)))]

        def g():
            vs = [m.gen() for m in ms]
            return Val("(%s)" % ", ".join(v.text for v in vs), "(%s)" % ", ".join(v.out for v in vs))
        return Ty("(%s)" % ", ".join(m.name for m in ms), "tuple", g)

    def fields(self, ms):
        """(declarations, name) of fields"""
        return ["%s: %s" % (f, m.name) for f, m in ms]

    def template(self, ms):
        """a random body of a str operator: (statements, format function over dict of outs)"""
        t = self.t
        parts = []
        for _ in range(t.int(1, 5)):
            k = t.choice(["lit", "field", "field", "num", "char"])
            if k == "lit":
                w = t.choice([x for x in WORDS if len(x) < 50])
                parts.append(('"%s"' % w, lambda e, w=w: unesc(w)))
            elif k == "field":
                f, m = t.choice(ms)
                parts.append((f, lambda e, f=f: e[f]))
            elif k == "num":
                v = t.int(0, 500)
                parts.append((str(v), lambda e, v=v: str(v)))
            else:
                c = t.choice(CHARS)
                parts.append(("'%s'" % c, lambda e, c=c: c))
        return parts

    def strop(self, parts):
        t = self.t
        self.cl.add("str operator")
        b, cur = [], []
        for x, _ in parts:
            cur.append(x)
            if t.bool(1, 3):
                b.append("os << %s;" % " << ".join(cur))
                cur = []
        if cur:
            b.append("os << %s;" % " << ".join(cur))
        return "const func `str`(os: &OutputStream) { %s }" % " ".join(b)

    def struct(self, d):
        t = self.t
        n = self.fresh("Ty") + "_§"
        ms = [("f%d" % i, self.member(d)) for i in range(t.int(1, 4))]
        fmt = None
        body = "; ".join(self.fields(ms)) + ";"
        if t.bool(2, 5):
            parts = self.template([(f, m) for f, m in ms])
            fmt = lambda e: "".join(p(e) for _, p in parts)
            body += " " + self.strop(parts)
        self.decls.append("struct %s { %s }" % (n, body))
        pn = n.replace("§", "")

        def g():
            vs = [(f, m, m.gen()) for f, m in ms]
            e = {f: v.out for f, m, v in vs}
            txt = "%s{%s}" % (n, ", ".join("%s: %s" % (f, v.text) for f, m, v in vs))
            if fmt:
                return Val(txt, fmt(e))
            return Val(txt, "%s{%s}" % (pn, ", ".join("%s: %s%s%s" % (f, m.quote, v.out, m.quote) for f, m, v in vs)))
        ty = Ty(n, "struct", g)
        self.types.append(ty)
        return ty

    def cls(self, d):
        t = self.t
        n = self.fresh("Ty") + "_§"
        ms = [("f%d" % i, self.scalar()) for i in range(t.int(1, 3))]
        parts = self.template(ms)
        self.decls.append("class %s { %s; func `init`(%s) { %s } %s }" % (
            n, "; ".join(self.fields(ms)), ", ".join("p%s: %s" % (f, m.name) for f, m in ms), " ".join("%s = p%s;" % (f, f) for f, m in ms),
            self.strop(parts)))

        def g():
            vs = [(f, m.gen()) for f, m in ms]
            e = {f: v.out for f, v in vs}
            return Val("%s(%s)" % (n, ", ".join(v.text for f, v in vs)), "".join(p(e) for _, p in parts))
        ty = Ty(n, "class", g)
        self.types.append(ty)
        return ty
    vars()["class"] = cls

    def optional(self, d):
        t = self.t
        for _ in range(6):
            m = self.member(d)
            if m.kind not in ("optional", "union", "char", "wchar"):
                break
        else:
            m = self.scalar("int")

        def g():
            if t.bool(1, 3):
                return Val("None[%s]()" % m.name, "null")
            v = m.gen()
            return Val("Some[%s](%s)" % (m.name, v.text), v.out)
        if m.kind == "tuple":
            # a tuple in an optional is named by an alias
            n = self.fresh("Al") + "_§"
            self.decls.append("type %s = %s;" % (n, m.name))
            m = Ty(n, "tuple", m.gen)
        return Ty(m.name + "?", "optional", g)

    def union(self, d):
        t = self.t
        n = self.fresh("Al") + "_§"
        ms = []
        for _ in range(t.int(2, 4)):
            m = t.weighted([(4, self.scalar), (1, lambda: self.tuple(1) if d > 1 else self.scalar()), (1, lambda: self.struct(1) if d > 1 else self.scalar())])()
            if m.name not in [x.name for x in ms] and m.name not in ("String",):
                ms.append(m)
        if len(ms) < 2:
            ms = [self.scalar("string"), Ty("i64", "int", lambda: (lambda v: Val("(%d as i64)" % v, str(v)))(t.int(0, 99)))]
        self.decls.append("type %s = %s;" % (n, " | ".join(m.name for m in ms)))

        def g():
            v = t.choice(ms).gen()
            return Val(v.text, v.out)
        ty = Ty(n, "union", g)
        self.types.append(ty)
        return ty

    def array(self, d):
        t = self.t
        m = self.scalar(t.choice(["int", "bool", "string", "f64"]))
        c = t.int(1, 6)

        def g():
            vs = [m.gen() for _ in range(c)]
            return Val("[%s]" % ", ".join(v.text for v in vs), "[%s]" % ", ".join(v.out for v in vs))
        return Ty("[%s, %d]" % (m.name, c), "array", g)

    # ---- statements
    def value(self, ty):
        """(expression, text) for a value of the type, kept in a variable where the language needs it"""
        t = self.t
        v = ty.gen()
        if ty.kind in ("int", "bool", "char", "wchar", "float", "string", "enum") and t.bool():
            return v
        x = self.fresh("v")
        self.L.append("%s %s: %s = %s;" % ("const" if t.bool(1, 4) and ty.kind not in ("class", "String", "optional") else "var", x, ty.name, v.text))
        return Val(x, v.out)

    def stmt(self):
        t = self.t
        k = t.choice(["println", "println", "fstring", "String", "tuple", "fvar", "print"])
        self.cl.add(k)
        vs = []
        for _ in range(t.int(1, 4) if k != "tuple" else t.int(2, 3)):
            ty = self.typ(2)
            if k == "tuple" and ty.kind in ("array", "optional"):
                ty = self.scalar()
            self.cl.add(ty.kind)
            vs.append(self.value(ty))
        if k == "println":
            parts, o = [], ""
            for v in vs:
                if t.bool():
                    parts.append('"|"')
                    o += "|"
                parts.append(v.text)
                o += v.out
            self.L.append("println(%s);" % ", ".join(parts))
            self.out.append(o)
        elif k in ("fstring", "fvar", "print"):
            s, o = "", ""
            for v in vs:
                w = t.choice(["", " ", "a=", "é", ", ", "}", "{", "(x)"])
                if '"' in v.text:
                    x = self.fresh("w")
                    self.L.append("var %s = %s;" % (x, v.text))
                    v = Val(x, v.out)
                s += w + "${%s}" % v.text
                o += w + v.out
            w = t.choice(["", "!", " end"])
            if k == "fstring":
                self.L.append('println(f"%s%s");' % (s, w))
            else:
                x = self.fresh("s")
                self.L.append('var %s = f"%s%s";' % (x, s, w))
                self.L.append("println(%s);" % x if k == "fvar" else "println(%s.size(), \" \", %s);" % (x, x))
                if k == "print" and "Ty" in o:
                    self.L[-1] = "println(%s);" % x
                elif k == "print":
                    o = "%d " % len((o + w).encode()) + o
            self.out.append(o + w)
        elif k == "String":
            x = self.fresh("s")
            self.L.append("var %s = String();" % x)
            self.L.append("%s << %s;" % (x, " << ".join(v.text for v in vs)))
            o = "".join(v.out for v in vs)
            if "Ty" in o:
                self.L.append("println(%s);" % x)
                self.out.append(o)
            else:
                self.L.append("println(%s, %s.size());" % (x, x))
                self.out.append(o + str(len(o.encode())))
        else:
            self.L.append("println((%s));" % ", ".join(v.text for v in vs))
            self.out.append("(%s)" % ", ".join(v.out for v in vs))


class L09(CxyCheck):
    prop = "L09"
    quick_cases = 8000
    rule = ("each case formats up to 5 times values of random types (integers of all widths, floats, booleans, characters of one to four bytes, strings, enums, "
            "tuples, structs, classes, optionals, unions, arrays, nested up to 3 deep, with and without str operators) through println, f-strings, String and tuples. "
            "Non-trivial: a compound type is formatted; distinct by the text of the program")

    def norm(self, s):
        return re.sub(r"(Ty\d+_)\d+", r"\1", super().norm(s))

    def gen(self, t):
        g = Gen(t)
        for _ in range(t.int(1, 5)):
            g.stmt()
        comp = {"tuple", "struct", "class", "optional", "union", "array", "str operator"} & g.cl
        return CxyCase(g.L, g.out, decls=g.decls, nontrivial=bool(comp), classes=sorted(g.cl))


if __name__ == "__main__":
    main(L09)
