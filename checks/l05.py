"""L05: structs, tuples and arrays are values."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad
from vf.gx import lit, q, show, tmod, WORDS, M


class T:
    def __init__(self, k, name=None, fields=None, elems=None, elem=None, n=0):
        self.k, self.name, self.fields, self.elems, self.elem, self.n = k, name, fields, elems, elem, n

    def text(self):
        if self.k == "struct":
            return self.name
        if self.k == "tuple":
            return "(%s)" % ", ".join(e.text() for e in self.elems)
        if self.k == "array":
            return "[%s, %d]" % (self.elem.text(), self.n)
        return {"i": "i64", "b": "bool", "s": "string"}[self.k]

    def parts(self):
        """(access suffix, key, type)"""
        if self.k == "struct":
            return [("." + n, n, ty) for n, ty, _ in self.fields]
        if self.k == "tuple":
            return [(".%d" % i, i, ty) for i, ty in enumerate(self.elems)]
        if self.k == "array":
            return [(".[%d]" % i, i, self.elem) for i in range(self.n)]
        return []

    def has(self, k):
        return self.k == k or any(ty.has(k) for _, _, ty in self.parts())


I, B, S = T("i"), T("b"), T("s")


class Gen:
    def __init__(self, t):
        self.t = t
        self.structs = []
        self.decls = []
        self.body = []
        self.exp = []
        self.vars = {}
        self.n = 0
        self.cl = set()
        self.mut = 0
        self.funcs = []

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def prim(self):
        return self.t.choice([I, I, I, B, S])

    def type(self, d, arr=True):
        t = self.t
        k = t.below(8) if d > 0 else 0
        if k < 3:
            return self.prim()
        if k < 5 and self.structs:
            return t.choice(self.structs)
        if k < 7:
            return T("tuple", elems=[self.type(d - 1, arr=False) for _ in range(t.int(2, 3))])
        if arr:
            e = self.type(d - 1, arr=False)
            if e.k in "bs" or e.k == "tuple":
                e = I
            return T("array", elem=e, n=t.int(1, 4))
        return self.prim()

    def mkstruct(self):
        t = self.t
        name = self.fresh("S") + "_§"
        fs = []
        for i in range(t.int(1, 4)):
            ty = self.type(2)
            dv = None
            if ty.k in "ibs" and t.bool(1, 4):
                dv = self.primval(ty)
            fs.append(("f%d" % i, ty, dv))
        s = T("struct", name=name, fields=fs)
        self.decls.append("struct %s {" % name)
        for n, ty, dv in fs:
            self.decls.append("  %s: %s%s;" % (n, ty.text(), " = " + dv[0] if dv else ""))
        self.decls.append("}")
        self.structs.append(s)
        return s

    def primval(self, ty):
        t = self.t
        if ty.k == "i":
            c = t.near0(-99, 999)
            return ("%d" % c if c >= 0 else "(%d)" % c), c
        if ty.k == "b":
            return (("true", True), ("false", False))[t.below(2)]
        w = t.choice(WORDS)
        return q(w), w

    # ---- access paths
    def paths(self, ty, want=None, depth=0):
        """all (suffix, keys, type) below a type"""
        out = [("", (), ty)]
        for s, k, p in ty.parts():
            out += [(s + s2, (k,) + k2, p2) for s2, k2, p2 in self.paths(p)]
        return out

    @staticmethod
    def get(v, keys):
        for k in keys:
            v = v[k]
        return v

    @staticmethod
    def set(root, keys, val):
        for k in keys[:-1]:
            root = root[k]
        root[keys[-1]] = val

    def lvals(self, pred):
        out = []
        for n, (ty, v, const) in self.vars.items():
            for s, k, p in self.paths(ty):
                if pred(p):
                    out.append((n, n + s, k, p, const))
        return out

    def dyn(self, text):
        """now and then index with a variable"""
        if self.idx and self.t.bool(1, 4):
            for nm, v in self.idx:
                if ".[%d]" % v in text:
                    self.cl.add("computed index")
                    return text.replace(".[%d]" % v, ".[%s]" % nm, 1)
        return text

    def value(self, ty, d=2, fresh=False):
        """-> (text, value) of the type"""
        t = self.t
        if not fresh and ty.k != "array" and t.bool(2, 5):
            c = self.lvals(lambda p: p is ty or p.text() == ty.text())
            if c:
                n, s, k, p, _ = t.choice(c)
                return self.dyn(s), copy.deepcopy(self.get([self.vars[n][1]], (0,) + k))
        if ty.k == "i":
            if d > 0 and t.bool(1, 3):
                a, x = self.value(I, d - 1)
                b, y = self.value(I, d - 1)
                op = t.choice("+-*")
                if op == "*":
                    return "((%s * %s) %% %d)" % (a, b, M), tmod(x * y, M)
                return "(%s %s %s)" % (a, op, b), (x + y if op == "+" else x - y)
            c = t.near0(-99, 999)
            return lit(c), c
        if ty.k in "bs":
            return self.primval(ty)
        if ty.k == "struct":
            fs = [f for f in self.funcs if f[0] == "make" and f[1] is ty]
            if fs and t.bool(1, 3):
                self.cl.add("returned")
                f = t.choice(fs)
                x, v = self.value(I, 1)
                return "%s(%s)" % (f[2], x), f[3](v)
            xs, v = [], {}
            for n, fty, dv in ty.fields:
                if dv and t.bool():
                    v[n] = dv[1]
                    self.cl.add("default field")
                    continue
                x, val = self.value(fty, d - 1)
                xs.append("%s: %s" % (n, x))
                v[n] = val
            if not xs:
                n, fty, dv = ty.fields[0]
                x, v[n] = self.value(fty, 0)
                xs.append("%s: %s" % (n, x))
            return "%s{%s}" % (ty.name, ", ".join(xs)), v
        if ty.k == "tuple":
            xs = [self.value(e, d - 1) for e in ty.elems]
            return "(%s)" % ", ".join(x for x, _ in xs), [v for _, v in xs]
        xs = [self.value(ty.elem, d - 1, fresh=False) for _ in range(ty.n)]
        return "[%s]" % ", ".join(x for x, _ in xs), [v for _, v in xs]

    # ---- functions over structs
    def mkfuncs(self):
        t = self.t
        for s in self.structs:
            leaves = [(sx, k) for sx, k, p in self.paths(s) if p.k == "i" and k]
            for kind in ("make", "byval", "byref", "bump"):
                if not t.bool(1, 2):
                    continue
                fn = self.fresh(kind) + "_§"
                if kind == "make":
                    def build(ty, x):
                        """text in terms of p, value fn"""
                        if ty.k == "i":
                            c = t.near0(-9, 40)
                            return "(p + %s)" % lit(c), (lambda p: p + c)
                        if ty.k in "bs":
                            tx, v = self.primval(ty)
                            return tx, (lambda p: v)
                        if ty.k == "struct":
                            xs = [(n, build(f, x)) for n, f, _ in ty.fields]
                            return "%s{%s}" % (ty.name, ", ".join("%s: %s" % (n, b[0]) for n, b in xs)), \
                                (lambda p: {n: b[1](p) for n, b in xs})
                        es = [build(e, x) for e in (ty.elems if ty.k == "tuple" else [ty.elem] * ty.n)]
                        br = "(%s)" if ty.k == "tuple" else "[%s]"
                        return br % ", ".join(e[0] for e in es), (lambda p: [e[1](p) for e in es])
                    tx, f = build(s, None)
                    self.decls.append("func %s(p: i64): %s { return %s; }" % (fn, s.name, tx))
                    self.funcs.append(("make", s, fn, f))
                    continue
                if not leaves:
                    continue
                edits = [(t.choice(leaves), t.near0(-50, 50)) for _ in range(t.int(1, 3))]
                L = ["  s%s = s%s + %s;" % (sx, sx, lit(c)) for (sx, _), c in edits]
                rd = t.choice(leaves)

                def run(v, edits=edits, rd=rd):
                    for (sx, k), c in edits:
                        self.set(v, k, self.get(v, k) + c)
                    return self.get(v, rd[1])
                par = "s: &%s" % s.name if kind == "byref" else "s: " + s.name
                if kind == "bump":
                    self.decls += ["func %s(%s): %s {" % (fn, par, s.name)] + L + ["  return s;", "}"]
                else:
                    self.decls += ["func %s(%s): i64 {" % (fn, par)] + L + ["  return s%s;" % rd[0], "}"]
                self.funcs.append((kind, s, fn, run))

    def println(self, text, ty, v):
        self.body.append("  println(%s);" % text)
        self.exp.append(self.fmt(ty, v, True))

    def fmt(self, ty, v, top=False):
        if ty.k == "struct":
            return "%s{%s}" % (ty.name.replace("_§", "_%N"), ", ".join("%s: %s" % (n, q(v[n]) if f.k == "s" else self.fmt(f, v[n])) for n, f, _ in ty.fields))
        if ty.k == "tuple":
            return "(%s)" % ", ".join(self.fmt(f, x) for f, x in zip(ty.elems, v))
        return show(v)

    def step(self):
        t = self.t
        k = t.below(14)
        if k < 3:
            ty = self.type(2)
            x, v = self.value(ty, 3)
            n = self.fresh("v")
            const = t.bool(1, 6)
            self.body.append("  %s %s: %s = %s;" % ("const" if const else "var", n, ty.text(), x))
            self.vars[n] = (ty, v, const)
        elif k < 6:
            # copy, then the two diverge
            c = [l for l in self.lvals(lambda p: p.k in ("struct", "tuple"))]
            if not c:
                return
            n, s, ks, p, _ = t.choice(c)
            m = self.fresh("v")
            v = copy.deepcopy(self.get([self.vars[n][1]], (0,) + ks))
            self.body.append("  var %s = %s;" % (m, self.dyn(s)))
            self.vars[m] = (p, v, False)
            self.cl.add("copy")
        elif k < 10:
            c = [l for l in self.lvals(lambda p: p.k != "array") if not l[4] and l[2]]
            if not c:
                return
            n, s, ks, p, _ = t.choice(c)
            if p.k == "i" and t.bool(1, 3):
                op = t.choice(["+", "-"])
                x, v = self.value(I, 1)
                old = self.get(self.vars[n][1], ks)
                self.body.append("  %s %s= %s;" % (self.dyn(s), op, x))
                self.set(self.vars[n][1], ks, old + v if op == "+" else old - v)
            else:
                x, v = self.value(p, 2)
                self.body.append("  %s = %s;" % (self.dyn(s), x))
                self.set(self.vars[n][1], ks, v)
            self.mut += 1
            self.cl.add("update " + p.k)
        elif k < 12:
            fs = [f for f in self.funcs if f[0] != "make"]
            if not fs:
                return
            kind, s, fn, run = t.choice(fs)
            c = [l for l in self.lvals(lambda p: p is s) if not l[4]]
            if not c:
                return
            n, sx, ks, p, _ = t.choice(c)
            cur = self.get([self.vars[n][1]], (0,) + ks)
            self.cl.add(kind)
            self.mut += 1
            if kind == "byval":
                self.body.append("  println(%s(%s));" % (fn, self.dyn(sx)))
                self.exp.append(show(run(copy.deepcopy(cur))))
            elif kind == "byref":
                self.body.append("  println(%s(&%s));" % (fn, sx))
                self.exp.append(show(run(cur)))
            else:
                w = copy.deepcopy(cur)
                run(w)
                m = self.fresh("v")
                self.body.append("  var %s = %s(%s);" % (m, fn, self.dyn(sx)))
                self.vars[m] = (s, w, False)
        else:
            c = self.lvals(lambda p: not p.has("array"))
            if not c:
                return
            n, s, ks, p, _ = t.choice(c)
            v = self.get([self.vars[n][1]], (0,) + ks)
            if p.has("struct"):
                self.cl.add("print struct")
            self.println(self.dyn(s), p, v)


class L05(CxyCheck):
    prop = "L05"
    quick_cases = 8000
    rule = ("each case declares random nested struct, tuple and array types, then creates, copies, updates, passes and returns "
            "values of them and prints every leaf of every variable at the end; expected lines come from deep-copied Python "
            "values. Non-trivial: a copy and at least two updates after it")

    def gen(self, t):
        g = Gen(t)
        g.idx = []
        for _ in range(t.int(1, 3)):
            g.mkstruct()
        g.mkfuncs()
        for _ in range(t.int(0, 2)):
            n = g.fresh("ix")
            v = t.int(0, 3)
            g.body.append("  var %s: i64 = %d;" % (n, v))
            g.idx.append((n, v))
        for _ in range(t.int(1, 2)):
            ty = t.choice(g.structs)
            x, v = g.value(ty, 3)
            n = g.fresh("v")
            g.body.append("  var %s: %s = %s;" % (n, ty.text(), x))
            g.vars[n] = (ty, v, False)
        for _ in range(t.int(4, 12)):
            g.step()
        for n, (ty, v, _) in g.vars.items():
            leaves = [(s, k, p) for s, k, p in g.paths(ty) if not p.parts()]
            g.body.append("  println(%s);" % ', " ", '.join(n + s for s, k, p in leaves[:10]))
            g.exp.append(" ".join(show(g.get([v], (0,) + k)) for s, k, p in leaves[:10]))
        return CxyCase(g.body, g.exp, decls=g.decls, nontrivial="copy" in g.cl and g.mut >= 2, late=t.bool(1, 4), classes=sorted(g.cl))

    def judge(self, case, out):
        import re
        c = copy.copy(case)
        out = re.sub(r"_\d+\{", "_%N{", out)
        return CxyCheck.judge(self, c, out)


if __name__ == "__main__":
    main(L05)
