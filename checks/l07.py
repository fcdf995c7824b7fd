"""L07: optionals and tagged unions hold exactly what was stored."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.gx import GX, lit, q, show, WORDS


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# payload kinds: name of the type
PT = {"i": "i64", "b": "bool", "s": "string", "f": "f64", "n": "i8", "u": "u16", "P": "P_§", "T": "(i64, string)"}
FL = ["0.5", "2.25", "7.5", "12.125"]


class Gen:
    def __init__(self, t):
        self.t, self.g, self.n = t, GX(t), 0
        self.decls, self.cl = [], set()
        self.funcs = []
        self.nmatch = 0

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- slot types: ("o", k) or ("u", (k...))
    def styp(self):
        t = self.t
        if self.slots and t.bool(2, 3):
            return t.choice(list(self.slots.values()))
        if t.bool(1, 2):
            return ("o", t.choice("iiissbfPT"))
        ks = []
        for _ in range(t.int(2, 5)):
            k = t.choice("iisbfnuPT")
            if k not in ks:
                ks.append(k)
        if len(ks) < 2:
            ks = ["i", "s"]
        return ("u", tuple(ks))

    def text(self, ty):
        if ty[0] == "o":
            return PT[ty[1]] + "?"
        return " | ".join(PT[k] for k in ty[1])

    def pay(self, k, d=2):
        """payload value of kind k: (text, fn)"""
        t = self.t
        if k in "ibs":
            return self.g.expr(k, self.atoms, d)
        if k == "f":
            c = t.choice(FL)
            return c, (lambda e: float(c))
        if k == "n":
            c = t.near0(-100, 100)
            return "((%d) as i8)" % c, (lambda e: c)
        if k == "u":
            c = t.int(0, 60000)
            return "(%d as u16)" % c, (lambda e: c)
        a, fa = self.g.expr("i", self.atoms, 1)
        b, fb = self.g.expr("s", self.atoms, 0)
        if k == "P":
            return "P_§{a: %s, b: %s}" % (a, b), (lambda e: (fa(e), fb(e)))
        return "(%s, %s)" % (a, b), (lambda e: (fa(e), fb(e)))

    def show(self, k, v):
        if k == "P":
            return 'P_%%N{a: %d, b: "%s"}' % v
        if k == "T":
            return "(%d, %s)" % v
        if k == "f":
            return "%g" % v
        return show(v)

    def slotval(self, ty, d=2):
        """expression of a slot type: (text, fn -> (kind, val) or None)"""
        t = self.t
        same = [n for n, x in self.slots.items() if x == ty]
        if same and t.bool(1, 4):
            n = t.choice(same)
            return n, (lambda e: e[n])
        fs = [f for f in self.funcs if f[1] == ty]
        if fs and d > 0 and t.bool(1, 3):
            return self.call(t.choice(fs), d - 1)
        if ty[0] == "o":
            k = ty[1]
            if t.bool(1, 3):
                return t.choice(["null", "None[%s]()" % PT[k]]), (lambda e: None)
            x, f = self.pay(k)
            if t.bool(1, 3):
                x = "Some(%s)" % x
            return x, (lambda e: (k, f(e)))
        k = t.choice(ty[1])
        x, f = self.pay(k)
        return x, (lambda e: (k, f(e)))

    def call(self, fn, d):
        name, ret, params, body = fn
        args = []
        for p in params:
            args.append(self.slotval(p, d) if isinstance(p, tuple) else self.g.expr(p, self.atoms, 1))
        self.cl.add("call")

        def go(e):
            env = {"p%d" % i: a[1](e) for i, a in enumerate(args)}
            env[">"] = e[">"]
            try:
                body(env)
            except Ret as r:
                return r.args[0]
        return "%s(%s)" % (name, ", ".join(a[0] for a in args)), go

    # ---- statements: (lines, run(env))
    def block(self, depth, n):
        save = {k: list(v) for k, v in self.atoms.items()}
        ss = [self.stmt(depth) for _ in range(n)]
        self.atoms = save
        ss = [s for s in ss if s]

        def run(e):
            for s in ss:
                s[1](e)
        return ["  " + l for s in ss for l in s[0]], run

    def out(self, parts):
        """println of (text, fn -> str)"""
        return ["println(%s);" % ', " ", '.join(p[0] for p in parts)], \
            (lambda e: e[">"].append(" ".join(p[1](e) for p in parts)))

    def ival(self):
        x, f = self.g.expr("i", self.atoms, 1)
        return x, (lambda e: show(f(e)))

    def payout(self, k, x, f):
        """print a payload"""
        if k == "P" and self.t.bool(1, 2):
            return self.out([(x + ".a", lambda e: str(f(e)[0])), (x + ".b", lambda e: f(e)[1])])
        if k == "T" and self.t.bool(1, 2):
            return self.out([(x + ".0", lambda e: str(f(e)[0])), (x + ".1", lambda e: f(e)[1])])
        return self.out([(x, lambda e: self.show(k, f(e)))])

    def bind(self, name, k):
        """atoms a payload variable gives"""
        if k in "ibs":
            self.atoms.setdefault(k, []).append((name, lambda e: e[name]))
        elif k in "PT":
            a, b = (".a", ".b") if k == "P" else (".0", ".1")
            self.atoms.setdefault("i", []).append((name + a, lambda e: e[name][0]))
            self.atoms.setdefault("s", []).append((name + b, lambda e: e[name][1]))

    def match(self, depth, x, fx, ty, mk):
        """mk(depth) -> block"""
        t = self.t
        self.nmatch += 1
        ks = t.shuffle(list(ty[1])) if hasattr(t, "shuffle") else sorted(ty[1], key=lambda _: t.below(1000))
        cases, i = [], 0
        els = t.bool(1, 3)
        stop = t.int(0, len(ks) - 1) if els else len(ks)
        while i < stop:
            n = 1
            if i + 1 < stop and t.bool(1, 3):
                n = 2
            cases.append(ks[i:i + n])
            i += n
        L, arms = ["match(%s) {" % x], []
        for c in cases:
            save = {k: list(v) for k, v in self.atoms.items()}
            b = None
            if len(c) == 1 and t.bool(3, 4):
                b = self.fresh("m")
                self.bind(b, c[0])
                first = self.payout(c[0], b, lambda e, b=b: e[b])
                self.cl.add("bound case")
            else:
                first = self.out([(q("case " + "".join(c)), lambda e, c=c: "case " + "".join(c))])
                self.cl.add("case list" if len(c) > 1 else "case")
            cast = None
            if len(c) == 1 and fx and t.bool(1, 4) and x.isidentifier() and c[0] in "isb":
                cast = self.payout(c[0], "(<%s>%s)" % (PT[c[0]], x), lambda e: e[x][1])
                self.cl.add("cast")
            ro = set(self.ro)
            if b and c[0] in "PT":
                self.ro.add(x)      # the binding may refer to the union itself
            body = mk(depth - 1)
            self.ro = ro
            self.atoms = save
            L += ["  case %s%s => {" % (", ".join(PT[k] for k in c), " as " + b if b else "")]
            L += ["    " + l for l in first[0] + (cast[0] if cast else [])] + ["  " + l for l in body[0]] + ["  }"]
            arms.append((c, b, first[1], cast and cast[1], body[1]))
        eb = None
        if els:
            eb = mk(depth - 1)
            L += ["  else => {", '    println("else");'] + ["  " + l for l in eb[0]] + ["  }"]
            self.cl.add("else")
        L.append("}")

        def run(e):
            k, v = fx(e)
            for c, b, first, cast, body in arms:
                if k in c:
                    if b:
                        e[b] = v
                    first(e)
                    if cast:
                        cast(e)
                    body(e)
                    return
            e[">"].append("else")
            eb[1](e)
        return L, run

    def stmt(self, depth):
        t = self.t
        sl = list(self.slots.items())
        k = t.weighted([(5, "assign"), (5, "match"), (4, "if"), (2, "ifvar"), (3, "print"), (1, "or"), (2, "loop"), (1, "while"),
                        (1, "cond"), (1, "method"), (1, "brk"), (1, "ilog")])
        if k == "brk":
            if not self.inloop or depth < 1:
                k = "print"
            else:
                c, fc = self.g.expr("b", self.atoms, 1)
                w, ex = t.choice([("break", Brk), ("continue", Cont)])

                def run(e):
                    if fc(e):
                        raise ex()
                self.cl.add(w)
                return ["if (%s) { %s; }" % (c, w)], run
        if k == "assign":
            n, ty = t.choice(sl)
            if n in self.ro:
                return None
            x, f = self.slotval(ty)

            def run(e):
                e[n] = f(e)
            return ["%s = %s;" % (n, x)], run
        if k == "ilog":
            o = [(n, ty) for n, ty in sl if ty[0] == "o"]
            if not o:
                return None
            n, _ = t.choice(o)
            m, _ = t.choice(o)
            op, f = t.choice([("&&", lambda a, b: a and b), ("||", lambda a, b: a or b)])
            return self.out([("(!!%s %s !!%s)" % (n, op, m), lambda e: show(f(e[n] is not None, e[m] is not None))),
                             ("!" + n, lambda e: show(e[n] is None))])
        if k == "match" and depth > 0:
            u = [(n, ty) for n, ty in sl if ty[0] == "u"]
            if u:
                if t.bool(1, 5):
                    fs = [f for f in self.funcs if f[1][0] == "u"]
                    if fs:
                        f = t.choice(fs)
                        x, fx = self.call(f, 1)
                        self.cl.add("match on a call")
                        return self.match(depth, x, fx, f[1], lambda d: self.block(d, t.int(0, 2)))
                n, ty = t.choice(u)
                return self.match(depth, n, (lambda e: e[n]), ty, lambda d: self.block(d, t.int(0, 2)))
            k = "if"
        if k == "if" and depth > 0:
            o = [(n, ty) for n, ty in sl if ty[0] == "o"]
            if o:
                n, ty = t.choice(o)
                neg = t.bool(1, 4)
                show_ = self.payout(ty[1], "(*%s)" % n if ty[1] in "PT" else "*" + n, lambda e: e[n][1])
                a, b = self.block(depth - 1, t.int(0, 2)), self.block(depth - 1, t.int(0, 2))
                no = self.out([(q("none"), lambda e: "none")])
                self.cl.add("test")
                x = ["  " + l for l in show_[0]] + a[0]
                y = ["  " + l for l in no[0]] + b[0]
                head = "if (!%s) {" % n if neg else t.choice(["if (%s) {", "if (!!%s) {"]) % n
                L = [head] + (y if neg else x) + ["} else {"] + (x if neg else y) + ["}"]

                def run(e):
                    if e[n] is not None:
                        show_[1](e)
                        a[1](e)
                    else:
                        no[1](e)
                        b[1](e)
                return L, run
        if k == "ifvar" and depth > 0:
            fs = [f for f in self.funcs if f[1][0] == "o"]
            if fs:
                fn = t.choice(fs)
                x, f = self.call(fn, 1)
                m = self.fresh("y")
                pk = fn[1][1]
                show_ = self.payout(pk, "(*%s)" % m if pk in "PT" else "*" + m, lambda e: e[m][1])
                a = self.block(depth - 1, t.int(0, 1))
                self.cl.add("if var")

                def run(e):
                    e[m] = f(e)
                    if e[m] is not None:
                        show_[1](e)
                        a[1](e)
                    else:
                        e[">"].append("no")
                return ["if (%s %s = %s) {" % (t.choice(["var", "const"]), m, x)] + ["  " + l for l in show_[0]] + a[0] + \
                    ["} else {", '  println("no");', "}"], run
        if k == "or":
            o = [(n, ty) for n, ty in sl if ty[0] == "o" and ty[1] in "isbf" and n not in self.ro and "." not in n]
            fs = [f for f in self.funcs if f[1][0] == "o" and f[1][1] in "isbf"]
            if fs and t.bool(1, 2):
                fn = t.choice(fs)
                x, f = self.call(fn, 1)
                dx, df = self.pay(fn[1][1], 1)
                m = self.fresh("d")
                self.cl.add("default")

                def run(e):
                    v = f(e)
                    e[m] = v[1] if v is not None else df(e)
                    e[">"].append(self.show(fn[1][1], e[m]))
                return ["const %s = %s || %s;" % (m, x, dx if dx[0] == "(" or fn[1][1] != "i" else "(%s)" % dx), "println(%s);" % m], run
            if o:
                n, ty = t.choice(o)
                dx, df = self.pay(ty[1], 1)
                m = self.fresh("d")
                self.cl.add("default moves")

                def run(e):
                    d = df(e)
                    v = e[n]
                    e[n] = None
                    e[">"].append(self.show(ty[1], v[1] if v is not None else d) + " " + show(False))
                return ["const %s = %s || %s;" % (m, n, dx), "println(%s, \" \", !!%s);" % (m, n)], run
        if k == "while" and depth > 0:
            o = [(n, ty) for n, ty in sl if ty[0] == "o" and n not in self.ro]
            if o:
                n, ty = t.choice(o)
                x, f = self.pay(ty[1])
                self.cl.add("while none")

                def run(e):
                    while e[n] is None:
                        e[">"].append("w")
                        e[n] = (ty[1], f(e))
                return ["while (!%s) {" % n, '  println("w");', "  %s = %s;" % (n, x), "}"], run
        if k == "loop" and depth > 0 and not self.inloop:
            i, n = self.fresh("lp"), t.int(1, 4)
            self.inloop += 1
            save = {a: list(b) for a, b in self.atoms.items()}
            self.atoms.setdefault("i", []).append(("(%s as i64)" % i, lambda e: e[i]))
            b = self.block(depth - 1, t.int(1, 3))
            self.atoms = save
            self.inloop -= 1
            self.cl.add("loop")

            def run(e):
                for j in range(n):
                    e[i] = j
                    try:
                        b[1](e)
                    except Brk:
                        break
                    except Cont:
                        pass
            return ["for (const %s: 0..%d) {" % (i, n)] + b[0] + ["}"], run
        if k == "cond" and depth > 0:
            c, fc = self.g.expr("b", self.atoms, 1)
            a, b = self.block(depth - 1, 1), self.block(depth - 1, 1)

            def run(e):
                (a if fc(e) else b)[1](e)
            return ["if (%s) {" % c] + a[0] + ["} else {"] + b[0] + ["}"], run
        if k == "method" and self.holders:
            h, fs = t.choice(self.holders)
            f, ty = t.choice(fs)
            if t.bool(1, 2) and h + "." + f not in self.ro:
                x, fx = self.slotval(ty)

                def run(e):
                    e[h + "." + f] = fx(e)
                self.cl.add("setter")
                return ["%s.set_%s(%s);" % (h, f, x)], run
            tgt = [n for n, x in sl if x == ty and n not in self.ro]
            if tgt:
                n = t.choice(tgt)

                def run(e):
                    e[n] = e[h + "." + f]
                self.cl.add("getter")
                return ["%s = %s.get_%s();" % (n, h, f)], run
        n, ty = t.choice(sl)
        self.cl.add("print")

        def sh(e):
            if e[n] is None:
                return "null"
            return self.show(*e[n])
        return self.out([(n, sh)])

    def mkfunc(self):
        t = self.t
        params = [self.styp() if t.bool(2, 3) else t.choice("isb") for _ in range(t.int(1, 3))]
        if not any(isinstance(p, tuple) for p in params):
            params[0] = self.styp()
        ret = self.styp()
        self.atoms = {}
        self.slots = {}
        for i, p in enumerate(params):
            n = "p%d" % i
            if isinstance(p, tuple):
                self.slots[n] = p
            else:
                self.atoms.setdefault(p, []).append((n, lambda e, n=n: e[n]))
        self.ro = set(self.slots)
        self.inloop, self.holders = 0, []

        def retn(d):
            x, f = self.slotval(ret, 0)

            def run(e):
                raise Ret(f(e))
            b = self.block(1, t.below(2)) if t.bool(1, 2) else ([], lambda e: None)
            if t.bool(1, 4):
                return b
            c, fc = ("", None)
            if t.bool(1, 3):
                c, fc = self.g.expr("b", self.atoms, 1)

            def run2(e):
                b[1](e)
                if fc is None or fc(e):
                    run(e)
            return b[0] + (["  if (%s) { return %s; }" % (c, x)] if fc else ["  return %s;" % x]), run2
        us = [(n, ty) for n, ty in self.slots.items() if ty[0] == "u"]
        L, runs = [], []
        if us:
            n, ty = t.choice(us)
            m = self.match(1, n, (lambda e: e[n]), ty, retn)
        else:
            n, ty = t.choice(list(self.slots.items()))
            save = {k: list(v) for k, v in self.atoms.items()}
            if ty[1] in "ibs":
                self.atoms.setdefault(ty[1], []).append(("*" + n if ty[1] != "i" else "(*%s)" % n, lambda e: e[n][1]))
            a = retn(0)
            self.atoms = save
            b = retn(0)

            def run(e):
                (a if e[n] is not None else b)[1](e)
            m = ["if (%s) {" % n] + a[0] + ["} else {"] + b[0] + ["}"], run
        self.slots = {}     # not a variable: it would be moved twice if this is unreachable
        x, f = self.slotval(ret, 0)

        def body(e):
            m[1](e)
            raise Ret(f(e))
        fn = self.fresh("f") + "_§"
        self.decls.append("func %s(%s): %s {" % (fn, ", ".join("p%d: %s" % (i, self.text(p) if isinstance(p, tuple) else PT[p])
                                                                 for i, p in enumerate(params)), self.text(ret)))
        self.decls += ["  " + l for l in m[0]] + ["  return %s;" % x, "}"]
        self.funcs.append((fn, ret, params, body))


class L07(CxyCheck):
    prop = "L07"
    quick_cases = 8000
    rule = ("each case declares variables, fields and functions of random optional and tagged union types, stores, copies, passes, "
            "tests, matches and prints them under loops and conditions, and compares with a Python interpretation. "
            "Non-trivial: at least one match and one test of an optional, or three matches")

    def gen(self, t):
        g = Gen(t)
        g.decls.append("struct P_§ { a: i64; b: string; }")
        g.slots = {}
        pool = {"x%d" % i: None for i in range(0)}
        types = [g.styp() for _ in range(t.int(2, 4))]
        g.slots = dict(enumerate(types))
        for _ in range(t.int(0, 3)):
            keep = g.slots
            g.mkfunc()
            g.slots = keep
        L, env = [], {">": []}
        g.slots, g.ro, g.inloop, g.holders = {}, set(), 0, []
        g.atoms = {}
        for _ in range(t.int(1, 3)):
            k = t.choice("ibs")
            n = g.fresh("c")
            x, f = g.g.expr(k, {}, 1)
            L.append("  var %s: %s = %s;" % (n, PT[k], x))
            env[n] = f(env)
            g.atoms.setdefault(k, []).append((n, lambda e, n=n: e[n]))
        for _ in range(t.int(2, 4)):
            ty = t.choice(types)
            n = g.fresh("v")
            x, f = g.slotval(ty)
            L.append("  var %s: %s = %s;" % (n, g.text(ty), x))
            env[n] = f(env)
            g.slots[n] = ty
        if t.bool(1, 2):
            fs = [("f%d" % i, t.choice(types)) for i in range(t.int(1, 3))]
            g.decls.append("struct H_§ {")
            for f, ty in fs:
                g.decls += ["  %s: %s;" % (f, g.text(ty)), "  func get_%s(): %s { return %s; }" % (f, g.text(ty), f),
                            "  func set_%s(v: %s) { %s = v; }" % (f, g.text(ty), f)]
            g.decls.append("}")
            for h in ["h1", "h2"]:
                vs = [g.slotval(ty, 0) for _, ty in fs]
                L.append("  var %s = H_§{%s};" % (h, ", ".join("%s: %s" % (f, v[0]) for (f, _), v in zip(fs, vs))))
                for (f, _), v in zip(fs, vs):
                    env[h + "." + f] = v[1](env)
            for h in ["h1", "h2"]:
                for f, ty in fs:
                    g.slots[h + "." + f] = ty
                g.holders.append((h, fs))
            g.cl.add("fields")
        for _ in range(t.int(3, 8)):
            if g.holders and t.bool(1, 8):
                fs = g.holders[0][1]
                a, b = t.choice([("h1", "h2"), ("h2", "h1")])
                L.append("  %s = %s;" % (a, b))
                for f, _ in fs:
                    env[a + "." + f] = env[b + "." + f]
                g.cl.add("struct copy")
                continue
            s = g.stmt(3)
            if not s:
                continue
            L += ["  " + l for l in s[0]]
            s[1](env)
        for n in g.slots:
            v = env[n]
            L.append("  println(%s);" % n)
            env[">"].append("null" if v is None else g.show(*v))
        nt = g.nmatch >= 3 or (g.nmatch >= 1 and bool({"test", "if var", "default"} & g.cl))
        return CxyCase(L, env[">"], decls=g.decls, nontrivial=nt, classes=sorted(g.cl))

    def judge(self, case, out):
        import re, copy
        c = copy.copy(case)
        out = re.sub(r"P_\d+\{", "P_%N{", out)
        return CxyCheck.judge(self, c, out)


if __name__ == "__main__":
    main(L07)
