"""M01: objects live exactly as long as something refers to them."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.engine import Bad

PRE = """class Nd {
  id: i64;
  l: Nd = null;
  r: Nd = null;
  func `init`(x: i64) { this.id = x; println("+", x); }
  func `deinit`() { println("~", id); }
  const func left(): Nd { return l; }
  const func right(): Nd { return r; }
  func setl(x: Nd) { l = x; }
  func takel(): Nd { var t = l; l = null; return t; }
}
struct H { n: Nd; k: i64;
  func put(a: Nd) { n = a; }
  const func peek(): Nd { return n; }
}
struct HH { h: H; m: Nd; }
func same(a: Nd): Nd { return a; }
func mk(x: i64): Nd { return Nd(x); }
func mk2(x: i64, c: bool): Nd { var a = Nd(x); if (c) { return a; } return Nd(x + 1000); }
func pair(x: i64, a: Nd): Nd { var n = Nd(x); n.l = a; n.r = a; return n; }
func pick(a: Nd, b: Nd, c: bool): Nd { if (c) { return a; } return b; }
func pick2(a: Nd, b: Nd, c: bool): Nd { return (c) ? a : b; }
func mkh(a: Nd, k: i64): H { return H{n: a, k: k}; }
func sameh(h: H): H { return h; }
func idof(a: Nd): i64 { if (a == null) { return -1; } return a.id; }
func show(a: Nd): void { if (a == null) { println("_"); return; } println("(", a.id); show(a.l); show(a.r); }
func reach(a: Nd, x: Nd): bool { if (a == null) { return false; } if (a == x) { return true; } return reach(a.l, x) || reach(a.r, x); }
func shuf(p: Nd): void { if (p == null) { return; } var t = p.l; p.l = p.r; p.r = t; }
"""


class N:
    __slots__ = ("id", "l", "r", "dead")

    def __init__(self, w, x):
        self.id, self.l, self.r, self.dead = x, None, None, False
        w.ev.append("+%d" % x)
        w.heap.append(self)


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Halt(Exception):
    pass


class World:
    def __init__(self):
        self.heap, self.ev, self.seq, self.segs, self.frames = [], [], [], [], []
        self.fuel = 400
        self.maxdead = 0

    def roots(self):
        for f in self.frames:
            for v in f.values():
                yield v

    def flush(self, mark):
        seen = set()
        st = list(self.roots())
        while st:
            v = st.pop()
            if isinstance(v, (dict, list)):
                st += list(v.values() if isinstance(v, dict) else v)
            elif isinstance(v, N) and id(v) not in seen:
                seen.add(id(v))
                st += [v.l, v.r]
        live = []
        for o in self.heap:
            if id(o) in seen:
                live.append(o)
            else:
                self.ev.append("~%d" % o.id)
                self.maxdead += 1
        self.heap = live
        self.segs.append(sorted(self.ev) + self.seq + [mark])
        self.ev, self.seq = [], []
        self.fuel -= 1
        if self.fuel < 0:
            raise Halt()

    def show(self, n):
        if n is None:
            self.seq.append("_")
        else:
            self.seq.append("(%d" % n.id)
            self.fuel -= 1
            if self.fuel < 0:
                raise Halt()
            self.show(n.l)
            self.show(n.r)


class Env(dict):
    """the variables of a function, above those of the module"""

    def __init__(self, G, **kw):
        dict.__init__(self, kw)
        self.G = G

    def __missing__(self, k):
        return self.G[k]

    def __setitem__(self, k, v):
        if k in self.G:
            self.G[k] = v
        else:
            dict.__setitem__(self, k, v)


def reach(a, x):
    return a is not None and (a is x or reach(a.l, x) or reach(a.r, x))


def cp(v):
    if isinstance(v, dict):
        return {k: cp(x) for k, x in v.items()}
    if isinstance(v, list):
        return [cp(x) for x in v]
    return v


class Gen:
    """statements are (lines, run(world, env)); env is the frame of the function"""

    def __init__(self, t):
        self.t, self.n, self.mark_no, self.funcs, self.decls, self.cl = t, 0, 0, [], [], set()
        self.budget = t.int(6, 26)
        # variables of the module
        self.globs, self.G = [], {}
        for k in [t.choice("nnnhg") for _ in range(t.int(1, 4))] if t.bool(1, 3) else "":
            n = self.fresh("G" + k) + "_§"
            ty, init, v = {"n": ("Nd", "null", None), "h": ("H", "H{n: null, k: 0}", {"n": None, "k": 0}),
                           "g": ("HH", "HH{h: H{n: null, k: 0}, m: null}", {"h": {"n": None, "k": 0}, "m": None})}[k]
            self.decls.append("var %s: %s = %s;" % (n, ty, init))
            self.globs.append((n, k, False))
            self.G[n] = v
            self.cl.add("module variable")

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def mark(self):
        self.mark_no += 1
        m = "@%d" % self.mark_no
        return ['println("%s");' % m], (lambda w, e: w.flush(m))

    # scope: list of (name, kind); kind n=node, h=H, g=HH, t=(Nd,Nd)
    def of(self, sc, kind):
        return [x for x, k, ro in sc if k == kind]

    def path(self, sc):
        """a node-valued place that can be read without a null check"""
        t = self.t
        c = [(x, (lambda e, x=x: e[x])) for x in self.of(sc, "n")] * 3
        c += [(x + ".n", (lambda e, x=x: e[x]["n"])) for x in self.of(sc, "h")]
        c += [(x + ".m", (lambda e, x=x: e[x]["m"])) for x in self.of(sc, "g")]
        c += [(x + ".h.n", (lambda e, x=x: e[x]["h"]["n"])) for x in self.of(sc, "g")]
        c += [(x + ".%d" % i, (lambda e, x=x, i=i: e[x][i])) for x in self.of(sc, "t") for i in (0, 1)]
        return t.choice(c) if c else None

    def cond(self, sc):
        t = self.t
        p = self.path(sc)
        k = t.below(4)
        if p and k == 0:
            return "%s != null" % p[0], (lambda w, e: p[1](e) is not None)
        if p and k == 1:
            c = t.int(0, 40)
            return "idof(%s) > %d" % (p[0], c), (lambda w, e: (p[1](e).id if p[1](e) else -1) > c)
        q = self.path(sc)
        if p and q and k == 2:
            return "%s == %s" % (p[0], q[0]), (lambda w, e: p[1](e) is q[1](e))
        c = t.int(0, 3)
        return "kk > %d" % c, (lambda w, e: e["kk"] > c)

    def expr(self, sc, d=2):
        t = self.t
        k = t.below(14) if d > 0 else t.below(5)
        p = self.path(sc)
        if k < 3 and p:
            self.cl.add("share")
            return p[0], (lambda w, e: p[1](e))
        if k == 3:
            x = t.int(1, 60)
            return "mk(%d)" % x, (lambda w, e: N(w, x))
        if k < 6:
            x = t.int(1, 60)
            return "Nd(%d)" % x, (lambda w, e: N(w, x))
        if k == 6:
            x, c = t.int(1, 60), self.cond(sc)

            def run(w, e):
                v = c[1](w, e)
                n = N(w, x)
                return n if v else N(w, x + 1000)
            return "mk2(%d, %s)" % (x, c[0]), run
        if k == 7:
            a = self.expr(sc, d - 1)
            return "same(%s)" % a[0], a[1]
        if k == 8:
            a = self.expr(sc, d - 1)
            x = t.int(1, 60)

            def run(w, e):
                v = a[1](w, e)
                n = N(w, x)
                n.l = n.r = v
                return n
            return "pair(%d, %s)" % (x, a[0]), run
        if k < 11:
            a, b, c = self.expr(sc, d - 1), self.expr(sc, d - 1), self.cond(sc)

            def run(w, e):
                v = c[1](w, e)
                x = a[1](w, e)
                y = b[1](w, e)
                return x if v else y
            self.cl.add("pick")
            return "%s(%s, %s, %s)" % (t.choice(["pick", "pick2"]), a[0], b[0], c[0]), run
        if k < 13:
            a, b, c = self.expr(sc, 0), self.expr(sc, 0), self.cond(sc)
            self.cl.add("ternary")
            return "((%s) ? %s : %s)" % (c[0], a[0], b[0]), (lambda w, e: (a if c[1](w, e) else b)[1](w, e))
        fs = self.of(sc, "h")
        if fs:
            h = t.choice(fs)
            return "%s.peek()" % h, (lambda w, e: e[h]["n"])
        x = t.int(1, 60)
        return "mk(%d)" % x, (lambda w, e: N(w, x))

    def hexpr(self, sc):
        t = self.t
        hs = self.of(sc, "h")
        k = t.below(6)
        if k < 2 and hs:
            h = t.choice(hs)
            return (h if k else "sameh(%s)" % h), (lambda w, e: cp(e[h]))
        gs = self.of(sc, "g")
        if k == 2 and gs:
            g = t.choice(gs)
            return g + ".h", (lambda w, e: cp(e[g]["h"]))
        a = self.expr(sc, 1)
        if k == 3:
            return "mkh(%s, 3)" % a[0], (lambda w, e: {"n": a[1](w, e), "k": 3})
        return "H{n: %s, k: 4}" % a[0], (lambda w, e: {"n": a[1](w, e), "k": 4})

    # ---- statements
    def block(self, sc, lo, hi, inloop=False, infunc=False, depth=0):
        t = self.t
        sc = list(sc)
        L, R = [], []
        names = []
        defers = []
        n0 = len(sc)
        for _ in range(t.int(lo, hi)):
            if self.budget <= 0:
                break
            self.budget -= 1
            s = self.stmt(sc, inloop, infunc, depth, defers)
            L += s[0]
            R.append(s[1])
            if len(s) > 2:
                break
            if t.bool(3, 4):
                m = self.mark()
                L += m[0]
                R.append(m[1])
        mine = [x for x, _, _ in sc[n0:]]

        def run(w, e):
            ds = []
            e.setdefault("#d", []).append(ds)
            try:
                for r in R:
                    r(w, e)
            finally:
                if sys.exc_info()[0] is not Halt:
                    e["#d"].pop()
                    while ds:
                        ds.pop()(w, e)
                    for x in mine:
                        e.pop(x, None)
        return ["  " + x for x in L], run

    def setter(self, sc):
        """-> (text, set(e, v)) a node-valued place that can be assigned"""
        t = self.t
        c = [(x, (lambda e, v, x=x: e.__setitem__(x, v))) for x, k, ro in sc if k == "n" and not ro] * 3
        c += [(x + ".n", (lambda e, v, x=x: e[x].__setitem__("n", v))) for x, k, ro in sc if k == "h" and not ro]
        c += [(x + ".m", (lambda e, v, x=x: e[x].__setitem__("m", v))) for x, k, ro in sc if k == "g"]
        c += [(x + ".h.n", (lambda e, v, x=x: e[x]["h"].__setitem__("n", v))) for x, k, ro in sc if k == "g"]
        c += [(x + ".%d" % i, (lambda e, v, x=x, i=i: e[x].__setitem__(i, v))) for x, k, ro in sc if k == "t" for i in (0, 1)]
        return t.choice(c) if c else None

    def stmt(self, sc, inloop, infunc, depth, defers):
        t = self.t
        k = t.below(46)
        if k < 6 or not self.path(sc):
            a = self.expr(sc)
            n = self.fresh("v")

            def run(w, e):
                e[n] = a[1](w, e)
            sc.append((n, "n", False))
            return ["var %s: Nd = %s;" % (n, a[0])], run
        if k < 11:
            s = self.setter(sc)
            a = self.expr(sc) if t.bool(5, 6) else ("null", lambda w, e: None)
            if s:
                self.cl.add("reassign")

                def run(w, e):
                    s[1](e, a[1](w, e))
                return ["%s = %s;" % (s[0], a[0])], run
        if k < 15:
            # link, never making a cycle
            p = self.path(sc)
            f = t.choice("lr")
            a = self.expr(sc, 1)
            n = self.fresh("t")
            self.cl.add("link")
            setl = f == "l" and t.bool(1, 3)

            def run(w, e):
                x = a[1](w, e)
                o = p[1](e)
                if o is not None and not reach(x, o):
                    setattr(o, f, x)
            return ["{ var %s: Nd = %s; if (%s != null) { if (!reach(%s, %s)) { %s } } }" %
                    (n, a[0], p[0], n, p[0], ("%s.setl(%s);" if setl else "%s." + f + " = %s;") % (p[0], n))], run
        if k < 18:
            p = self.path(sc)
            f, g = t.choice("lr"), t.choice("lr")
            j = t.below(4)
            self.cl.add("unlink")
            if j == 0:
                def run(w, e):
                    if p[1](e) is not None:
                        setattr(p[1](e), f, None)
                return ["if (%s != null) { %s.%s = null; }" % (p[0], p[0], f)], run
            if j == 1:
                def run(w, e):
                    o = p[1](e)
                    if o is not None:
                        setattr(o, f, getattr(o, g))
                return ["if (%s != null) { %s.%s = %s.%s; }" % (p[0], p[0], f, p[0], g)], run
            if j == 2:
                def run(w, e):
                    o = p[1](e)
                    if o is not None and getattr(o, f) is not None:
                        setattr(o, f, getattr(getattr(o, f), g))
                return ["if (%s != null) { if (%s.%s != null) { %s.%s = %s.%s.%s; } }" % (p[0], p[0], f, p[0], f, p[0], f, g)], run

            def run(w, e):
                o = p[1](e)
                if o is not None:
                    o.l, o.r = o.r, o.l
            return ["shuf(%s);" % p[0]], run
        if k < 20:
            # step along a chain
            s = t.choice([x for x, kk, ro in sc if kk == "n" and not ro] or [None])
            if s:
                f = t.choice("lr")
                j = t.below(3)
                src = ("%s.%s" % (s, f), "%s.%s()" % (s, {"l": "left", "r": "right"}[f]), "%s.takel()" % s)[j]

                def run(w, e):
                    o = e[s]
                    if o is not None:
                        if j == 2:
                            e[s] = o.l
                            o.l = None
                        else:
                            e[s] = getattr(o, f)
                self.cl.add("step")
                return ["if (%s != null) { %s = %s; }" % (s, s, src)], run
        if k < 22:
            p = self.path(sc)
            return ["show(%s);" % p[0]], (lambda w, e: w.show(p[1](e)))
        if k < 25:
            a = self.hexpr(sc)
            self.cl.add("struct")
            hs = [x for x, kk, ro in sc if kk == "h" and not ro]
            if hs and t.bool():
                h = t.choice(hs)
                if t.bool(1, 3):
                    x = self.expr(sc, 1)

                    def run(w, e):
                        v = x[1](w, e)
                        e[h]["n"] = v
                    return ["%s.put(%s);" % (h, x[0])], run

                def run(w, e):
                    e[h] = a[1](w, e)
                return ["%s = %s;" % (h, a[0])], run
            h = self.fresh("h")

            def run(w, e):
                e[h] = a[1](w, e)
            sc.append((h, "h", False))
            return ["var %s: H = %s;" % (h, a[0])], run
        if k < 27:
            self.cl.add("nested struct")
            gs = self.of(sc, "g")
            if gs and t.bool():
                g = t.choice(gs)
                if t.bool():
                    a = self.hexpr(sc)

                    def run(w, e):
                        e[g]["h"] = a[1](w, e)
                    return ["%s.h = %s;" % (g, a[0])], run
                g2 = t.choice(gs)

                def run(w, e):
                    e[g] = cp(e[g2])
                return ["%s = %s;" % (g, g2)], run
            a, b = self.hexpr(sc), self.expr(sc, 1)
            g = self.fresh("g")

            def run(w, e):
                x = a[1](w, e)
                e[g] = {"h": x, "m": b[1](w, e)}
            sc.append((g, "g", False))
            return ["var %s = HH{h: %s, m: %s};" % (g, a[0], b[0])], run
        if k < 30:
            self.cl.add("tuple")
            ts = self.of(sc, "t")
            if ts and t.bool(1, 3):
                a, b = t.choice(ts), t.choice(ts)

                def run(w, e):
                    e[a] = cp(e[b])
                return ["%s = %s;" % (a, b)], run
            a, b = self.expr(sc, 1), self.expr(sc, 1)
            n = self.fresh("t")

            def run(w, e):
                x = a[1](w, e)
                e[n] = [x, b[1](w, e)]
            sc.append((n, "t", False))
            return ["var %s: (Nd, Nd) = (%s, %s);" % (n, a[0], b[0])], run
        if k < 31:
            # delete and move end a variable's life early
            a = self.expr(sc, 1)
            n, m = self.fresh("v"), self.fresh("v")
            mk = self.mark()
            if t.bool():
                self.cl.add("delete")

                def run(w, e):
                    a[1](w, e)
                    mk[1](w, e)
                return ["{ var %s: Nd = %s; delete %s; %s }" % (n, a[0], n, mk[0][0])], run
            self.cl.add("move")

            def run(w, e):
                e[n] = a[1](w, e)
                mk[1](w, e)
                del e[n]
            return ["{ var %s: Nd = %s; var %s = &&%s; %s println(idof(%s)); }" % (n, a[0], m, n, mk[0][0], m)], \
                lambda w, e: (run(w, e), w.seq.append("?"))[0] if False else self._mv(w, e, a, mk, n)
        if k < 33 and depth < 3:
            c = self.cond(sc)
            A = self.block(sc, 1, 4, inloop, infunc, depth + 1)
            if t.bool():
                B = self.block(sc, 1, 3, inloop, infunc, depth + 1)
                return ["if (%s) {" % c[0]] + A[0] + ["} else {"] + B[0] + ["}"], \
                    (lambda w, e: (A if c[1](w, e) else B)[1](w, e))
            return ["if (%s) {" % c[0]] + A[0] + ["}"], (lambda w, e: A[1](w, e) if c[1](w, e) else None)
        if k < 35 and depth < 3:
            n = t.int(1, 3)
            iv = self.fresh("ix")
            self.cl.add("loop")
            A = self.block(sc, 1, 5, True, infunc, depth + 1)
            wh = t.bool(1, 3)

            def run(w, e):
                for i in range(n):
                    e["kk"] = e["kk"] + 1
                    try:
                        A[1](w, e)
                    except Brk:
                        break
                    except Cnt:
                        pass
            if wh:
                return ["{ var %s: i64 = 0;" % iv, "while (%s < %d) {" % (iv, n), "  %s = %s + 1; kk = kk + 1;" % (iv, iv)] + A[0] + ["} }"], run
            return ["for (const %s: 0..%d) {" % (iv, n), "  kk = kk + 1;"] + A[0] + ["}"], run
        if k < 36 and depth < 3:
            A = self.block(sc, 1, 4, inloop, infunc, depth + 1)
            return ["{"] + A[0] + ["}"], A[1]
        if k == 36 and inloop:
            b = t.bool()
            self.cl.add("jump")

            def run(w, e):
                raise (Brk if b else Cnt)()
            c = self.cond(sc)
            return ["if (%s) { %s; }" % (c[0], "break" if b else "continue")], (lambda w, e: run(w, e) if c[1](w, e) else None)
        if k == 37 and infunc:
            a, c = self.expr(sc, 1), self.cond(sc)
            self.cl.add("early return")

            def run(w, e):
                if c[1](w, e):
                    # deferred statements run before the value is computed
                    for ds in reversed(e["#d"]):
                        while ds:
                            ds.pop()(w, e)
                    e["#r"] = a[1](w, e)
                    raise Ret()
            return ["if (%s) { return %s; }" % (c[0], a[0])], run
        if 40 <= k < 43:
            # a variable that is deleted or moved on some paths only
            xs = [x for x, kk, ro in sc if kk == "n" and not ro and x[0] != "G"]
            if xs:
                x = t.choice(xs)
                c = self.cond(sc)
                rest = [y for y in sc if y[0] != x]
                a = self.expr(rest, 1)
                m1, m2 = self.mark(), self.mark()
                mv = t.bool()
                u = self.fresh("v")
                self.cl.add("conditional move" if mv else "conditional delete")
                els = None
                if t.bool(1, 3):
                    els = self.expr(rest, 1)

                def run(w, e):
                    if c[1](w, e):
                        o = e.pop(x)
                        if mv:
                            e[u] = o
                        m1[1](w, e)
                        if mv:
                            del e[u]
                    elif els:
                        e[x] = els[1](w, e)
                    m2[1](w, e)
                    e[x] = a[1](w, e)
                return ["if (%s) { %s %s }%s" % (c[0], "var %s = &&%s;" % (u, x) if mv else "delete %s;" % x, m1[0][0],
                                               " else { %s = %s; }" % (x, els[0]) if els else ""),
                        m2[0][0], "%s = %s;" % (x, a[0])], run
        if 43 <= k < 45 and depth < 3:
            n = t.int(2, 3)
            self.cl.add("switch")
            p = self.path(sc)
            vals = sorted(set(t.int(-1, 60) if t.bool() else t.int(0, 4) for _ in range(n)))
            usek = t.bool()
            B = [self.block(sc, 1, 3, inloop, infunc, depth + 1) for _ in range(len(vals) + 1)]
            L = ["switch (%s) {" % ("kk" if usek else "idof(%s)" % p[0])]
            for v, b in zip(vals, B):
                L += ["case %s => {" % v] + b[0] + ["}"]
            L += ["default => {"] + B[-1][0] + ["}", "}"]

            def run(w, e):
                v = e["kk"] if usek else (p[1](e).id if p[1](e) is not None else -1)
                (B[vals.index(v)] if v in vals else B[-1])[1](w, e)
            return L, run
        if k == 38:
            s = self.setter([x for x in sc])
            p = self.path(sc)
            if s and p:
                a = self.expr(sc, 0)
                self.cl.add("defer")
                defers.append(1)

                def run(w, e):
                    def d(w, e):
                        s[1](e, a[1](w, e))
                    e["#d"][-1].append(d)
                return ["defer { %s = %s; }" % (s[0], a[0])], run
        if self.funcs and depth < 3:
            f = t.choice(self.funcs)
            p, q = self.path(sc), self.path(sc)
            n = self.fresh("v")
            self.cl.add("call")

            def run(w, e):
                fr = Env(e.G, kk=e["kk"], p=p[1](e), q=q[1](e))
                w.frames.append(fr)
                try:
                    f[1](w, fr)
                    r = None
                except Ret:
                    r = fr["#r"]
                w.frames.pop()
                e[n] = r
            sc.append((n, "n", False))
            return ["var %s: Nd = %s(%s, %s, kk);" % (n, f[0], p[0], q[0])], run
        return ["show(%s);" % self.path(sc)[0]] if False else self.mark()

    def _mv(self, w, e, a, mk, n):
        e[n] = a[1](w, e)
        mk[1](w, e)
        v = e.pop(n)
        w.seq.append(str(v.id if v is not None else -1))

    def func(self):
        t = self.t
        name = self.fresh("fn") + "_§"
        keep, self.budget = self.budget, t.int(2, 7)
        sc = [("p", "n", t.bool()), ("q", "n", True)] + self.globs
        # statements and the final return share one block
        a = None
        sc2 = list(sc)
        L, R, defers = [], [], []
        while self.budget > 0:
            self.budget -= 1
            s = self.stmt(sc2, False, True, 1, defers)
            L += s[0]
            R.append(s[1])
            if t.bool(2, 3):
                m = self.mark()
                L += m[0]
                R.append(m[1])
        a = self.expr(sc2, 1)
        L.append("return %s;" % a[0])

        def run(w, e):
            ds = []
            e["#d"] = [ds]

            for r in R:
                r(w, e)
            while ds:
                ds.pop()(w, e)
            e["#r"] = a[1](w, e)
            raise Ret()
        self.decls += ["func %s(p: Nd, q: Nd, kk0: i64): Nd {" % name, "  var kk = kk0;"] + ["  " + x for x in L] + ["}"]
        self.funcs.append((name, run))
        self.budget = keep


class M01(CxyCheck):
    prop = "M01"
    quick_cases = 16000
    prelude = PRE
    batch = 40
    cxy_args = ["--with-mm", "--cflags=-fsanitize=address"]
    app_env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}
    rule = ("each case creates, shares, links, unlinks, stores in structs and tuples, passes, returns, moves and deletes objects "
            "in random control flow; after every statement the set of objects destroyed is compared with reachability in a "
            "model. Non-trivial: at least three objects die and at least one is shared, linked or reassigned")

    def gen(self, t):
        g = Gen(t)
        for _ in range(t.below(3)):
            g.func()
        L, run = g.block(list(g.globs), 3, 12)
        m = g.mark()
        w = World()
        w.frames += [g.G, Env(g.G, kk=0)]
        try:
            run(w, w.frames[1])
            w.flush("@end")
        except Halt:
            raise Bad()
        exp = [x for s in w.segs for x in s]
        return CxyCase(["  var kk: i64 = 0;", "  {"] + L + ["  }", '  println("@end");'], exp, decls=g.decls,
                       nontrivial=w.maxdead >= 3 and bool(g.cl & {"share", "link", "reassign"}), late=not g.globs and t.bool(1, 4), classes=sorted(g.cl))

    def judge(self, case, out):
        segs, ev, seq = [], [], []
        for l in self.norm(out).split("\n"):
            if l.startswith("@"):
                segs += sorted(ev) + seq + [l]
                ev, seq = [], []
            elif l[:1] in "+~" and l:
                ev.append(l)
            else:
                seq.append(l)
        segs += sorted(ev) + seq
        return CxyCheck.judge(self, case, "\n".join(segs))


if __name__ == "__main__":
    main(M01)
