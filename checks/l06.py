"""L06: classes: inheritance, construction and dispatch."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad
from vf.gx import GX, lit, q, show, tmod, WORDS, M


class Cls:
    def __init__(self, name, base):
        self.name, self.base = name, base
        self.fields, self.meths, self.init, self.deinit = [], {}, None, False
        self.kids = []

    def chain(self):
        c = self
        while c:
            yield c
            c = c.base

    def isa(self, o):
        return any(c is o for c in self.chain())

    def find(self, m):
        for c in self.chain():
            if m in c.meths:
                return c.meths[m]
        return None

    def allfields(self):
        return [f for c in reversed(list(self.chain())) for f in c.fields]


class Obj:
    pass


class Fuel(Exception):
    pass


class Gen:
    def __init__(self, t):
        self.t, self.gx = t, GX(t)
        self.decls, self.body, self.exp, self.cl = [], [], [], set()
        self.classes, self.vars, self.n, self.fuel = [], [], 0, 3000
        self.fns = []
        self.dispatched = 0

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def call(self, o, m, k, static=None):
        """static: class whose method is called without dispatch"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        decl = (static or o.cls).find(m)
        if decl["virtual"] and static is not None and not decl.get("nodispatch"):
            pass
        return decl["run"](o, k)

    def dyn(self, o, sc, m, k):
        """call through a reference of static class sc"""
        d = sc.find(m)
        if d["virtual"]:
            if o.cls.find(m) is not d:
                self.dispatched += 1
            return self.call(o, m, k)
        return self.call(o, m, k, sc)

    def mkclass(self, i):
        t = self.t
        base = t.choice(self.classes) if self.classes and t.bool(5, 6) else None
        if self.classes and t.bool(1, 2):
            base = self.classes[-1]
        c = Cls("K%d_§" % i, base)
        L = ["class %s%s {" % (c.name, " : " + base.name if base else "")]
        for j in range(t.int(0 if base else 1, 3)):
            ty = t.choice("iiis")
            fn = "f%d_%d" % (i, j)
            dv = None
            if t.bool(1, 2):
                if ty == "i":
                    v = t.near0(-50, 50)
                    dv = ("%d" % v if v >= 0 else "(%d)" % v, v)
                else:
                    v = t.choice(WORDS)
                    dv = (q(v), v)
                self.cl.add("default")
            c.fields.append((fn, ty, dv))
            L.append("  %s: %s%s;" % (fn, {"i": "i64", "s": "string"}[ty], " = " + dv[0] if dv else ""))
        # construction
        S = []
        steps = []
        if base:
            a = t.near0(-9, 20)
            S.append("super(x + %s);" % lit(a))
            steps.append(lambda o, x, a=a: base.init(o, x + a))
        for fn, ty, dv in c.fields:
            if dv and t.bool(3, 4):
                continue
            if ty == "i":
                b = t.near0(-9, 30)
                S.append("this.%s = x * 3 + %s;" % (fn, lit(b)))
                steps.append(lambda o, x, fn=fn, b=b: o.f.__setitem__(fn, x * 3 + b))
            else:
                w = t.choice(WORDS)
                S.append("this.%s = %s;" % (fn, q(w)))
                steps.append(lambda o, x, fn=fn, w=w: o.f.__setitem__(fn, w))
        inh = [f for f in (base.allfields() if base else []) if f[1] == "i"]
        if inh and t.bool(1, 3):
            f = t.choice(inh)[0]
            S.append("this.%s = this.%s + 1;" % (f, f))
            steps.append(lambda o, x, f=f: o.f.__setitem__(f, o.f[f] + 1))

        def init(o, x):
            for s in steps:
                s(o, x)
        c.init = init
        L.append("  func `init`(x: i64) { %s }" % " ".join(S))
        if t.bool(1, 2):
            c.deinit = True
            L.append('  func `deinit`() { println("~%d"); }' % i)
        # methods m0..m4; a method may call those with a smaller number and the one it overrides
        for m in ["m%d" % j for j in range(5)]:
            prev = base.find(m) if base else None
            if not t.bool(1, 3) and not (prev and prev["virtual"] and t.bool(1, 3)):
                continue
            virt = (prev["virtual"] if prev else t.bool(2, 3))
            at = {"i": [("k", lambda e: e["k"])], "b": [], "s": []}
            for fn, ty, _ in c.allfields():
                at[ty].append((t.choice(["%s", "this.%s"]) % fn, (lambda e, fn=fn: e["o"].f[fn])))
            avail = [x for x in ["m%d" % j for j in range(int(m[1]))] if c.find(x)]
            for x in avail:
                if t.bool(1, 2):
                    a = t.near0(-5, 5)
                    pre = t.choice(["", "this."])
                    at["i"].append(("%s%s(k + %s)" % (pre, x, lit(a)), (lambda e, x=x, a=a: self.dyn(e["o"], c, x, e["k"] + a))))
            if prev:
                a = t.near0(-5, 5)
                # methods of the base are called without dispatch
                at["i"] += [("super.%s(k + %s)" % (m, lit(a)), (lambda e, a=a, prev=prev: self._super(e["o"], prev, e["k"] + a)))] * 2
                self.cl.add("super call")
            upd = None
            ifs = [f for f in c.allfields() if f[1] == "i"]
            txt = ""
            if ifs and t.bool(1, 3):
                f = t.choice(ifs)[0]
                txt = "%s = (%s + k) %% 997; " % (f, f)
                upd = f
            x, fx = self.gx.i(at, 2)

            def run(o, k, fx=fx, upd=upd):
                if upd:
                    o.f[upd] = tmod(o.f[upd] + k, 997)
                return fx({"o": o, "k": k})
            c.meths[m] = {"virtual": virt, "run": run}
            kw = "virtual " if virt and (not prev) else ""
            if virt and prev:
                self.cl.add("override")
            if not virt and prev:
                self.cl.add("hide")
            L.append("  %sfunc %s(k: i64): i64 { %sreturn %s; }" % (kw, m, txt, x))
        L.append("}")
        self.decls += L
        self.classes.append(c)

    def _super(self, o, prev, k):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        return prev["run"](o, k)

    def new(self, c, x):
        o = Obj()
        o.cls, o.f = c, {}
        for f, ty, dv in c.allfields():
            o.f[f] = dv[1] if dv else (0 if ty == "i" else None)
        c.init(o, x)
        return o

    def mkfn(self):
        t = self.t
        c = t.choice(self.classes)
        ms = [m for m in ["m%d" % j for j in range(5)] if c.find(m)]
        if not ms:
            return
        m = t.choice(ms)
        name = self.fresh("fn") + "_§"
        self.decls.append("func %s(o: %s, k: i64): i64 { return o.%s(k) + 1; }" % (name, c.name, m))
        self.fns.append((name, c, lambda o, k: self.dyn(o, c, m, k) + 1))

    def mkmaker(self):
        t = self.t
        c = t.choice(self.classes)
        subs = [s for s in self.classes if s.isa(c)]
        a, b = t.choice(subs), t.choice(subs)
        name = self.fresh("mk") + "_§"
        self.decls.append("func %s(k: i64): %s { if (k > 3) { return %s(k); } return %s(k - 1); }" % (name, c.name, a.name, b.name))
        self.makers.append((name, c, lambda k: self.new(a, k) if k > 3 else self.new(b, k - 1)))

    def step(self):
        t = self.t
        k = t.below(10)
        if k < 2 or not self.vars:
            c = t.choice(self.classes)
            st = t.choice(list(c.chain()))
            x = t.near0(-20, 40)
            n = self.fresh("v")
            if self.makers and t.bool(1, 3):
                mk = t.choice(self.makers)
                up = t.choice(list(mk[1].chain()))
                self.body.append("  var %s: %s = %s(%s);" % (n, up.name, mk[0], lit(x)))
                self.vars.append([n, up, mk[2](x)])
                return
            self.body.append("  var %s: %s = %s(%s);" % (n, st.name, c.name, lit(x)))
            self.vars.append([n, st, self.new(c, x)])
            if st is not c:
                self.cl.add("upcast")
            return
        v = t.choice(self.vars)
        n, st, o = v
        if k < 6:
            ms = [m for m in ["m%d" % j for j in range(5)] if st.find(m)]
            if not ms:
                return
            m = t.choice(ms)
            x = t.near0(-9, 30)
            self.body.append("  println(%s.%s(%s));" % (n, m, lit(x)))
            self.exp.append(str(self.dyn(o, st, m, x)))
        elif k < 7:
            fs = [f for f in st.allfields() if f[1] == "i"]
            if fs:
                f = t.choice(fs)[0]
                x = t.near0(-99, 99)
                self.body.append("  %s.%s = %s;" % (n, f, lit(x)))
                o.f[f] = x
        elif k < 8:
            fs = [f for f in self.fns if st.isa(f[1])]
            if fs:
                f = t.choice(fs)
                x = t.near0(-9, 30)
                self.body.append("  println(%s(%s, %s));" % (f[0], n, lit(x)))
                self.exp.append(str(f[2](o, x)))
                self.cl.add("pass as base")
        elif k < 9:
            # rebind
            c = [w for w in self.vars if w is not v and w[1].isa(st)]
            if c:
                w = t.choice(c)
                self.body.append("  %s = %s;" % (n, w[0]))
                v[2] = w[2]
                self.cl.add("rebind")
        else:
            tg = [c for c in o.cls.chain() if c.isa(st) and c is not st]
            if tg:
                c = t.choice(tg)
                m = self.fresh("v")
                self.body.append("  var %s = %s as %s;" % (m, n, c.name))
                self.vars.append([m, c, o])
                self.cl.add("downcast")


class L06(CxyCheck):
    prop = "L06"
    quick_cases = 12000
    rule = ("each case declares a random class hierarchy with fields, defaults, constructors, virtual and plain methods, creates "
            "objects behind references of base type, calls methods, updates and rebinds, and prints every field at the end; "
            "expected lines come from a model of the hierarchy. Non-trivial: a call was dispatched to an override, or an "
            "overriding method called its base")

    def gen(self, t):
        g = Gen(t)
        g.makers = []
        for i in range(t.int(2, 5)):
            g.mkclass(i)
        try:
            for _ in range(t.below(3)):
                g.mkfn()
            for _ in range(t.below(3)):
                g.mkmaker()
            for _ in range(t.int(4, 12)):
                g.step()
        except Fuel:
            raise Bad()
        for n, st, o in g.vars:
            fs = [f for f in st.allfields() if not (f[1] == "s" and o.f[f[0]] is None)]
            if fs:
                g.body.append("  println(%s);" % ', " ", '.join("%s.%s" % (n, f[0]) for f in fs))
                g.exp.append(" ".join(show(o.f[f[0]]) for f in fs))
        g.body.append('  println("@@");')
        objs = []
        for _, _, o in g.vars:
            if o not in objs:
                objs.append(o)
        body = ["  {"] + g.body + ["  }", '  println("@@");']
        # objects that lost their last reference were destroyed on the way: only those alive are listed here
        tail = sorted("~%s" % c.name[1:-2] for o in objs for c in o.cls.chain() if c.deinit)
        return CxyCase(body, g.exp + ["@@"] + tail + ["@@"], decls=g.decls,
                       nontrivial=g.dispatched > 0 or "super call" in g.cl, late=t.bool(1, 4), classes=sorted(g.cl))

    def judge(self, case, out):
        parts = out.split("@@\n")
        if len(parts) == 3:
            # destructors that ran before the end belong to objects that were rebound away
            head = "\n".join(l for l in parts[0].split("\n") if not l.startswith("~"))
            tail = "\n".join(sorted(x for x in parts[1].split("\n") if x))
            out = head + "@@\n" + (tail + "\n" if tail else "") + "@@\n"
        return CxyCheck.judge(self, case, out)


if __name__ == "__main__":
    main(L06)
