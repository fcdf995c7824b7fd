"""S01: Vector behaves like a sequence and owns its elements."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.vals import *

TYPES = [(4, I64), (1, I32), (1, U8), (1, U64), (1, BOOL), (1, F64), (3, STR), (1, STRING), (2, PQ), (1, TUP), (4, OBJ)]


class Gen:
    def __init__(self, t):
        self.t, self.L, self.out, self.cl = t, [], [], set()
        self.n = 0

    def emit(self, *ls):
        self.L += ls

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pr(self, tag, xs, texts):
        self.emit("println(%s);" % ", ".join([q(tag + " ")] + xs))
        self.out.append(tag + " " + "".join(texts))

    def live(self, *more):
        if self.T is OBJ:
            n = len({id(o) for o in [*self.m, *self.keep.values(), *more]})
            for w in self.others.values():
                n += 0
            ids = {id(o) for o in [*self.m, *self.keep.values(), *more]}
            for w in self.others.values():
                ids |= {id(o) for o in w}
            self.pr("live", ["live"], [str(len(ids))])

    def dump(self, v="v", m=None):
        m = self.m if m is None else m
        k = self.t.below(3)
        T = self.T
        self.cl.add("dump%d" % k)
        if k == 0:
            self.emit("for (const x, i: %s) { println(i, \":\", %s); }" % (v, ", ".join(T.show("x"))))
            self.out += ["%d:%s" % (i, T.text(x)) for i, x in enumerate(m)]
        elif k == 1:
            self.emit("for (const i: 0..<i64>%s.size()) { println(i, \"=\", %s); }" % (v, ", ".join(T.show("%s.[<i32>i]" % v))))
            self.out += ["%d=%s" % (i, T.text(x)) for i, x in enumerate(m)]
        else:
            self.emit("%s.each((x: %s) => { println(\"-\", %s); });" % (v, T.name, ", ".join(T.show("x"))))
            self.out += ["-" + T.text(x) for x in m]
        self.pr("size", ["%s.size()" % v, '" "', "%s.empty()" % v, '" "', "(%s.capacity() >= %s.size())" % (v, v)], ["%d %s true" % (len(m), "true" if not m else "false")])

    def val(self):
        """a value: a literal or a kept variable -> (text, model)"""
        t = self.t
        if self.keep and t.bool(1, 2 if self.T is OBJ else 4):
            k = t.choice(sorted(self.keep))
            return k, self.keep[k]
        v = self.T.gen(t)
        return self.T.lit(v), v

    def pred(self):
        """a predicate on elements: (text, fn)"""
        t, T = self.t, self.T
        if T.num or T is F64:
            c = T.gen(t)
            op, f = t.choice([(">", lambda x: x > c), ("<", lambda x: x < c), ("==", lambda x: x == c), ("!=", lambda x: x != c)])
            return "x %s %s" % (op, T.lit(c)), f
        if T is BOOL:
            return t.choice([("x", lambda x: x), ("!x", lambda x: not x), ("true", lambda x: True)])
        if T is OBJ:
            c = t.int(0, 30)
            return t.choice([("x.id > %d" % c, lambda x: x.id > c), ("x.id %% 2 == %d" % (c % 2), lambda x: x.id % 2 == c % 2)])
        if T in (PQ, TUP):
            c = t.near0(-20, 30)
            f = ".a" if T is PQ else ".0"
            return "x%s > %s" % (f, lit64(c)), lambda x: x[0] > c
        if T is STR:
            c = t.choice(WORDS)
            return 'x == "%s"' % c, lambda x: x == c
        c = t.choice(WORDS)
        return 'x == "%s"' % c, lambda x: x == c

    def make(self):
        t = self.t
        self.T = T = t.weighted(TYPES)
        self.m, self.keep, self.others = [], {}, {}
        cap = t.choice(["", "", "0", "1", "2", "3", "7", "16", "40"])
        self.emit("{", "var v = Vector[%s](%s);" % (T.name, cap))
        n = t.choice([3, 6, 10, 20, 30])
        for _ in range(n):
            self.op()
            if t.bool(1, 6):
                self.dump()
        self.dump()
        self.live()
        self.emit("}")
        self.m, self.keep, self.others = [], {}, {}
        self.live()

    def op(self):
        t, T, m = self.t, self.T, self.m
        k = t.weighted([(8, "push"), (2, "many"), (3, "pop"), (3, "shift"), (1, "resize"), (1, "shrink"), (3, "get"), (3, "set"), (1, "acc"),
                        (1, "filter"), (1, "map"), (2, "find"), (2, "index"), (1, "keep"), (1, "unkeep"), (1, "str"), (1, "live")])
        if k == "push":
            x, v = self.val()
            self.emit("v.push(%s);" % x)
            m.append(v)
        elif k == "many":
            n = t.choice([2, 5, 17, 30])
            if T in (I64, I32):
                b = t.int(0, 20)
                self.emit("for (const i: 0..%d) { v.push(<%s>(i + %d)); }" % (n, T.name, b))
                m.extend(range(b, b + n))
            elif T is OBJ:
                b = t.int(0, 20)
                self.emit("for (const i: 0..%d) { v.push(A(i + %d)); }" % (n, b))
                m.extend(Obj(b + i) for i in range(n))
            else:
                x, v = self.val()
                self.emit("for (const i: 0..%d) { v.push(%s); }" % (n, x))
                m.extend([v] * n)
        elif k in ("pop", "shift") and m:
            v = m.pop() if k == "pop" else m.pop(0)
            p = self.fresh("p")
            if t.bool(1, 2):
                # the taken element lives on in a variable
                self.emit("var %s = v.%s();" % (p, k))
                self.keep[p] = v
                self.pr(k, T.show(p), [T.text(v)])
            else:
                self.emit("{ var %s = v.%s(); println(%s); }" % (p, k, ", ".join([q(k + " ")] + T.show(p))))
                self.out.append("%s %s" % (k, T.text(v)))
        elif k == "resize":
            n = t.int(0, len(m) + 4)
            self.emit("v.resize(%d);" % n)
            del m[n:]
        elif k == "shrink":
            self.emit("v.shrink();")
        elif k == "get" and m:
            i = t.below(len(m))
            self.pr("at%d" % i, T.show("v.[%d]" % i), [T.text(m[i])])
        elif k == "set" and m:
            i = t.below(len(m))
            x, v = self.val()
            self.emit("v.[%d] = %s;" % (i, x))
            m[i] = v
        elif k == "acc" and T in (I64, STR, OBJ, PQ):
            f = {I64: "x", STR: "2", OBJ: "x.id", PQ: "x.a"}[T]
            g = {I64: lambda x: x, STR: lambda x: 2, OBJ: lambda x: x.id, PQ: lambda x: x[0]}[T]
            r = 5
            for x in m:
                r = (r * 3 + g(x)) % 1000 if r * 3 + g(x) >= 0 else -(-(r * 3 + g(x)) % 1000)
            self.pr("acc", ["v.accumulate[i64]((a: i64, x: %s) => ((a * 3 + %s) %% 1000), (5 as i64))" % (T.name, f)], [str(r)])
        elif k == "filter":
            p, f = self.pred()
            w = self.fresh("w")
            r = [x for x in m if f(x)]
            self.emit("var %s = v.filter((x: %s) => %s);" % (w, T.name, p))
            self.others[w] = r
            self.dump(w, r)
        elif k == "map" and T in (I64, STR, OBJ, PQ):
            f = {I64: "x * 2", STR: "3 as i64", OBJ: "x.id + 1", PQ: "x.a - 1"}[T]
            g = {I64: lambda x: x * 2, STR: lambda x: 3, OBJ: lambda x: x.id + 1, PQ: lambda x: x[0] - 1}[T]
            w = self.fresh("w")
            self.emit("var %s = v.map[i64]((x: %s) => %s);" % (w, T.name, f))
            self.pr("map", [w], ["[%s]" % ", ".join(str(g(x)) for x in m)])
        elif k == "find":
            p, f = self.pred()
            w = self.fresh("f")
            r = [x for x in m if f(x)]
            self.emit("{ var %s = v.find((x: %s) => %s);" % (w, T.name, p), "if (%s) { println(%s); } else { println(\"none\"); } }" % (
                w, ", ".join(['"found "'] + ([w + "&.id"] if T is OBJ else T.show("(*%s)" % w if T in (PQ, TUP) else "*" + w)))))
            self.out.append("found " + T.text(r[0]) if r else "none")
        elif k == "index" and T.eq:
            w = self.fresh("f")
            x, v = self.val() if not m or t.bool(1, 3) else (lambda v: (T.lit(v), v))(t.choice(m))
            r = m.index(v) if v in m else None
            if T is OBJ:
                a = self.fresh("a")
                pre = "var %s = %s; " % (a, x)
                x = a
            else:
                pre = ""
            self.emit("{ %svar %s = v.indexOf(%s);" % (pre, w, x), "if (%s) { println(\"index \", *%s); } else { println(\"none\"); } }" % (w, w))
            self.out.append("index %d" % r if r is not None else "none")
        elif k == "keep":
            p = self.fresh("k")
            if m and t.bool(1, 2) and T not in (OBJ, PQ, TUP, STRING):
                i = t.below(len(m))
                self.emit("var %s: %s = v.[%d];" % (p, T.name, i))
                self.keep[p] = m[i]
            else:
                v = T.gen(t)
                self.emit("var %s = %s;" % (p, T.lit(v)))
                self.keep[p] = v
        elif k == "unkeep" and self.keep:
            p = t.choice(sorted(self.keep))
            x, v = self.val()
            self.emit("%s = %s;" % (p, x))
            self.keep[p] = v
        elif k == "str" and T not in (PQ, TUP, OBJ, STRING):
            self.pr("str", ["v"], ["[%s]" % ", ".join(T.text(x) for x in m)])
        elif k == "live":
            self.live()
        else:
            return
        self.cl.add(k)


class S01(CxyCheck):
    prop = "S01"
    quick_cases = 5000
    prelude = PRELUDE
    rule = ("each case applies up to 30 random operations to a Vector of a random element type, mirrored by a list. Non-trivial: at least three kinds "
            "of operations; distinct by the text of the program")

    def gen(self, t):
        g = Gen(t)
        g.make()
        return CxyCase(g.L, g.out + [""], imports=['import { Vector } from "stdlib/vector.cxy"'], nontrivial=len(g.cl) >= 3, classes=[g.T.name] + sorted(g.cl))


if __name__ == "__main__":
    main(S01)
