"""L04: calls run the right function with the right values."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad
from vf.gx import GX, TY, tmod, lit, q, show, M

DEF = {"i": lambda t: (lambda c: ("%d" % c if c >= 0 else "(%d)" % c, c))(t.int(-9, 60)),
       "b": lambda t: (("true", True), ("false", False))[t.below(2)],
       "s": lambda t: (lambda w: (q(w), w))(t.choice(["dflt", "", "k", "yes"]))}


class Fn:
    pass


class Gen:
    def __init__(self, t):
        self.t = t
        self.gx = GX(t)
        self.decls = []
        self.fns = []          # callable free functions
        self.cl = set()
        self.n = 0
        self.depth = 0
        self.calls = 0

    def fresh(self, p):
        self.n += 1
        return "%s%d_§" % (p, self.n)

    def params(self, lo, hi, defaults):
        t = self.t
        ps = []
        nd = False
        for k in range(t.int(lo, hi)):
            ty = t.choice("iiibs")
            nd = nd or (defaults and t.bool(1, 3))
            dv = DEF[ty](t) if nd else None
            ps.append(("p%d" % k, ty, dv))
        return ps

    def atoms(self, ps, calls=True):
        a = {"i": [], "b": [], "s": []}
        for n, ty, _ in ps:
            a[ty].append((n, (lambda n: lambda e: e[n])(n)))
        if calls and self.fns:
            for f in self.t.shuffle(self.fns)[:3]:
                # a call with simple arguments as an atom
                a[f.ret].append(self.call(f, {k: list(v) for k, v in a.items()}, 1))
        return a

    def body(self, ret, ps, rec=None):
        """-> (list of lines, fn(env))"""
        t, gx = self.t, self.gx
        at = self.atoms(ps)
        k = t.below(4)
        if k == 0:
            x, fx = gx.expr(ret, at, 3)
            return None, x, fx
        L = []
        steps = []
        loc = {a: list(b) for a, b in at.items()}
        for _ in range(t.int(0, 3)):
            j = t.below(3)
            if j == 0:
                n = self.fresh("l")
                ty = t.choice("iib")
                x, fx = gx.expr(ty, loc, 2)
                L.append("  var %s: %s = %s;" % (n, TY[ty], x))
                steps.append(("set", n, fx))
                loc[ty].append((n, (lambda n: lambda e: e[n])(n)))
            elif j == 1:
                c, fc = gx.b(loc, 2)
                x, fx = gx.expr(ret, loc, 2)
                L.append("  if (%s) { return %s; }" % (c, x))
                steps.append(("ret", fc, fx))
                self.cl.add("early return")
            else:
                own = [p for p in ps if p[1] == "i"]
                if own:
                    n = t.choice(own)[0]
                    x, fx = gx.i(loc, 2)
                    L.append("  %s = %s;" % (n, x))
                    steps.append(("set", n, fx))
                    self.cl.add("assigned parameter")
        x, fx = gx.expr(ret, loc, 3)
        L.append("  return %s;" % x)

        def run(e):
            e = dict(e)
            for s in steps:
                if s[0] == "set":
                    e[s[1]] = s[2](e)
                elif s[1](e):
                    return s[2](e)
            return fx(e)
        return L, None, run

    def sig(self, ps):
        return ", ".join("%s: %s%s" % (n, TY[ty], " = %s" % d[0] if d else "") for n, ty, d in ps)

    def mkfn(self, name, ps, method=False, ret=None, fields=None):
        f = Fn()
        f.name, f.ps, f.ret = name, ps, ret or self.t.choice("iiibs")
        if self.t.bool(1, 8) and ps and ps[0][1] == "i" and not ps[0][2] and f.ret == "i" and not method:
            # recursion that counts its first parameter down
            self.cl.add("recursion")
            at = self.atoms(ps)
            base, fb = self.gx.i(at, 2)
            step, fs = self.gx.i(at, 1)
            rest = "".join(", " + p[0] for p in ps[1:])
            hi = self.t.int(3, 9)
            L = ["  if (p0 <= 0) { return %s; }" % base,
                 "  if (p0 > %d) { return %s(p0 %% %d%s); }" % (hi, name, hi, rest),
                 "  return (%s + %s(p0 - 1%s) * 3) %% %d;" % (step, name, rest, M)]

            def run(e):
                if e["p0"] <= 0:
                    return fb(e)
                if e["p0"] > hi:
                    return run(dict(e, p0=tmod(e["p0"], hi)))
                return tmod(fs(e) + run(dict(e, p0=e["p0"] - 1)) * 3, M)
            f.run = run
            x = None
        else:
            env = list(ps) + [(n, ty, None) for n, ty in (fields or [])]
            L, x, f.run = self.body(f.ret, env)
            if fields and L is not None:
                fs = {n for n, _ in fields}
                if any(l.strip().split(" ")[0] in fs for l in L):
                    L2, x, f.run = None, None, None
                    x, f.run = self.gx.expr(f.ret, self.atoms(env), 3)
                    L = None
        pre = "const func" if method else "func"
        if L is None:
            f.text = ["%s %s(%s): %s => %s;" % (pre, name, self.sig(ps), TY[f.ret], x)]
        else:
            f.text = ["%s %s(%s): %s {" % (pre, name, self.sig(ps), TY[f.ret])] + L + ["}"]
        return f

    def args(self, f, at, d, exact=False):
        """arguments for a call, leaving out some defaulted ones -> (texts, fns)"""
        t = self.t
        k = len(f.ps)
        nd = len([p for p in f.ps if p[2]])
        use = k - (t.below(nd + 1) if nd else 0)
        if use < k:
            self.cl.add("default argument")
        xs, env = [], []
        for n, ty, dv in f.ps[:use]:
            x, fx = self.gx.expr(ty, at, d)
            xs.append(x)
            env.append((n, fx))
        for n, ty, dv in f.ps[use:]:
            env.append((n, (lambda v: lambda e: v)(dv[1])))
        return xs, env

    def call(self, f, at, d):
        xs, env = self.args(f, at, d)
        self.calls += 1

        def fn(e):
            return f.run({n: fx(e) for n, fx in env})
        return "%s(%s)" % (f.name, ", ".join(xs)), fn


NUM = ["i8", "i16", "i32", "i64", "f64"]
OTHER = ["bool", "string"]


def convertible(dst, src):
    """an argument of type src can be given for a parameter of type dst"""
    return dst == src or (dst in NUM and src in NUM and NUM.index(dst) > NUM.index(src))


def select(over, args):
    """the overload that needs the fewest conversions, None when there is no such or more than one"""
    best = []
    for o in over:
        if not o[2] <= len(args) <= len(o[1]):
            continue
        if all(convertible(p, a) for p, a in zip(o[1], args)):
            best.append((sum(p != a for p, a in zip(o[1], args)), o))
    if not best:
        return None
    m = min(c for c, _ in best)
    best = [o for c, o in best if c == m]
    return best[0] if len(best) == 1 else None


class L04(CxyCheck):
    prop = "L04"
    quick_cases = 9000
    rule = ("each case declares functions, overload sets, methods with default arguments, recursion and closures with random "
            "bodies, and prints the results of random calls; a Python model of the same bodies gives the expected lines. "
            "Non-trivial: at least 4 calls and one of overload, closure, default argument, recursion")

    def wide(self, t, g, decls):
        kind = t.choice(["function", "method", "constructor"])
        types = [t.choice(NUM) if t.bool(4, 5) else t.choice(OTHER) for _ in range(t.int(2, 4))]
        arity = t.int(1, 3)
        over, seen = [], set()
        for _ in range(t.int(2, 5)):
            ps = tuple(t.choice(types) for _ in range(arity if t.bool(3, 4) else t.int(1, 3)))
            req = len(ps) - (1 if t.bool(1, 5) and len(ps) > 1 else 0)
            if ps in seen or any(q[0] == ps[0] and (r < len(q) or req < len(ps)) for _, q, r in over):
                continue
            seen.add(ps)
            over.append((len(over), ps, req))
        name = g.fresh("w") if kind == "function" else "w"
        obj = g.fresh("W")
        val = {"i8": "5", "i16": "300", "i32": "70000", "i64": "5000000000", "f64": "0.5", "bool": "true", "string": '"st"'}
        L = []
        for i, ps, req in over:
            sig = ", ".join("p%d: %s%s" % (j, p, " = %s" % val[p] if j >= req else "") for j, p in enumerate(ps))
            out = 'println("%d", %s);' % (i, ", ".join('" ", p%d' % j for j in range(len(ps))))
            L.append("func %s(%s) { %s }" % ("`init`" if kind == "constructor" else name, sig, out))
        if kind == "function":
            decls += L
        else:
            decls += ["%s %s {" % ("struct" if kind == "method" else "class", obj)]
            if kind == "method":
                decls.append("  a: i32 = 0;")
            decls += ["  " + l for l in L] + ["}"]
        res = []
        if kind == "method":
            res.append(("  var wo = %s{};" % obj, []))
        vs = []
        for j in range(t.int(2, 4)):
            ty = t.choice(types)
            v = {"bool": t.bool(), "string": "q%d" % j, "f64": t.int(0, 9) + 0.25}.get(ty)
            if v is None:
                v = t.int(-100, 100)
            txt = {"bool": str(v).lower(), "string": '"%s"' % v}.get(ty, str(v))
            res.append(("  var w%d: %s = %s;" % (j, ty, txt), []))
            vs.append(("w%d" % j, ty, v))
        def text(v, ty):
            if ty == "f64":
                return "%g" % v
            return str(v).lower() if isinstance(v, bool) else str(v)
        n = 0
        for _ in range(t.int(2, 6)):
            args = [t.choice(vs) for _ in range(t.choice(over)[2] if t.bool(3, 4) else t.int(1, 3))]
            o = select(over, [a[1] for a in args])
            if o is None:
                continue
            out = [text(a[2], p) for a, p in zip(args, o[1])]
            out += [val[p].strip('"') for p in o[1][len(args):]]
            xs = ", ".join(a[0] for a in args)
            call = {"function": "  %s(%s);" % (name, xs), "method": "  wo.w(%s);" % xs,
                    "constructor": "  { var k%d = %s(%s); }" % (n, obj, xs)}[kind]
            res.append((call, [" ".join([str(o[0])] + out)]))
            n += 1
            if any(p != a[1] for p, a in zip(o[1], args)):
                g.cl.add("overload by conversion")
        g.cl.add("overload")
        g.cl.add("overloaded " + kind)
        return res

    def gen(self, t):
        g = Gen(t)
        gx = g.gx
        body, exp, decls = [], [], []
        for _ in range(t.int(1, 4)):
            f = g.mkfn(g.fresh("f"), g.params(0, 4, True))
            decls += f.text
            g.fns.append(f)
        # overload set
        over = []
        if t.bool(2, 3):
            name = g.fresh("o")
            seen = set()
            for _ in range(t.int(2, 4)):
                ps = g.params(1, 3, False)
                key = tuple(p[1] for p in ps)
                if key in seen:
                    continue
                seen.add(key)
                keep = g.fns
                f = g.mkfn(name, ps, ret="i")
                decls += f.text
                over.append(f)
            g.cl.add("overload")
        # overloads that differ in the width of their parameters
        wide = self.wide(t, g, decls) if t.bool(1, 3) else []
        # a struct with methods
        st = None
        if t.bool(1, 2):
            st = g.fresh("S")
            fields = [("fa", "i"), ("fb", "b"), ("fc", "s")][:t.int(1, 3)]
            ms = []
            decls.append("struct %s {" % st)
            for n, ty in fields:
                decls.append("  %s: %s;" % (n, TY[ty]))
            for _ in range(t.int(1, 3)):
                m = g.mkfn(g.fresh("m"), g.params(0, 3, True), method=True, fields=fields)
                decls += ["  " + l for l in m.text]
                ms.append(m)
            decls.append("}")
            g.cl.add("method")
        # locals
        vs = []
        env = {}
        for k in range(t.int(1, 4)):
            ty = t.choice("iibs")
            n = "v%d" % k
            x, fx = gx.expr(ty, {}, 1)
            env[n] = fx({})
            vs.append((n, ty, None))
            body.append("  var %s: %s = %s;" % (n, TY[ty], x))
        ho = {}
        for step in range(t.int(3, 7)):
            at = g.atoms(vs)
            k = t.below(8)
            if k < 2:
                f = t.choice(g.fns)
                x, fx = g.call(f, at, 2)
                body.append("  println(%s);" % x)
                exp.append(show(fx(env)))
            elif k == 2 and over:
                f = t.choice(over)
                x, fx = g.call(f, at, 2)
                body.append("  println(%s);" % x)
                exp.append(show(fx(env)))
            elif k == 3 and st:
                vals = []
                for n, ty in fields:
                    x, fx = gx.expr(ty, at, 1)
                    vals.append((n, x, fx(env)))
                o = g.fresh("s").replace("_§", "")
                body.append("  var %s = %s{%s};" % (o, st, ", ".join("%s: %s" % (n, x) for n, x, _ in vals)))
                for _ in range(t.int(1, 2)):
                    m = t.choice(ms)
                    xs, ev = g.args(m, at, 2)
                    g.calls += 1
                    e2 = {n: f(env) for n, f in ev}
                    e2.update({n: v for n, _, v in vals})
                    body.append("  println(%s.%s(%s));" % (o, m.name, ", ".join(xs)))
                    exp.append(show(m.run(e2)))
            elif k in (4, 5):
                # closure: captures values at creation
                g.cl.add("closure")
                ps = [("c%d" % i, t.choice("iib"), None) for i in range(t.int(1, 3))]
                ret = t.choice("iib")
                x, fx = gx.expr(ret, g.atoms(vs + ps), 3)
                cn = g.fresh("cl").replace("_§", "")
                blk = t.bool(1, 3)
                sg = ", ".join("%s: %s" % (n, TY[ty]) for n, ty, _ in ps)
                body.append("  var %s = (%s) => %s;" % (cn, sg, "{ var z_ = %s; return z_; }" % x if blk else x))
                cap = dict(env)
                if t.bool(1, 2):
                    w = [v for v in vs if v[1] == "i"]
                    if w:
                        n = t.choice(w)[0]
                        y, fy = gx.i(at, 1)
                        env[n] = fy(env)
                        body.append("  %s = %s;" % (n, y))
                        g.cl.add("captured variable changed")
                at = g.atoms(vs)
                for _ in range(t.int(1, 2)):
                    xs = [gx.expr(p[1], at, 1) for p in ps]
                    e2 = dict(cap)
                    e2.update({p[0]: f(env) for p, (_, f) in zip(ps, xs)})
                    g.calls += 1
                    if t.bool():
                        body.append("  println(%s(%s));" % (cn, ", ".join(a for a, _ in xs)))
                    else:
                        key = (tuple(p[1] for p in ps), ret)
                        if key not in ho:
                            ho[key] = g.fresh("h")
                            ts = ", ".join("x%d: %s" % (i, TY[ty]) for i, ty in enumerate(key[0]))
                            decls.append("func %s(f: func(%s) -> %s, %s): %s { return f(%s); }" % (
                                ho[key], ts, TY[ret], ts, TY[ret], ", ".join("x%d" % i for i in range(len(key[0])))))
                        g.cl.add("higher order")
                        body.append("  println(%s(%s, %s));" % (ho[key], cn, ", ".join(a for a, _ in xs)))
                    exp.append(show(fx(e2)))
            elif k == 6:
                w = [v for v in vs]
                n, ty, _ = t.choice(w)
                x, fx = gx.expr(ty, at, 2)
                env[n] = fx(env)
                body.append("  %s = %s;" % (n, x))
            else:
                n, ty, _ = t.choice(vs)
                body.append("  println(%s);" % n)
                exp.append(show(env[n]))
        for l, e in wide:
            body.append(l)
            exp += e
            g.calls += 1
        return CxyCase(body, exp, decls=decls, nontrivial=g.calls >= 4 and bool(
            g.cl & {"overload", "closure", "default argument", "recursion"}), late=t.bool(1, 4), classes=sorted(g.cl))


if __name__ == "__main__":
    main(L04)
