"""S02: HashMap and HashSet behave like a dictionary and a set and own their entries."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.vals import *

KEYS = [(4, I64), (1, I32), (1, U8), (1, U16), (1, U64), (4, STR), (2, STRING), (2, PQ)]
VALS = [(4, I64), (1, U8), (1, BOOL), (2, STR), (1, STRING), (2, PQ), (4, OBJ)]

PRE = PRELUDE + """
struct MH { const func `()`(k: &const i64) : HashCode => <u32>(k * k % 3) }
struct CH { const func `()`(k: &const i64) : HashCode => 5 }
struct TH { const func `()`(k: &const i64) : HashCode => <u32>(k * k % 10 + 7) }
struct TE { const func `()`(a: &const i64, b: &const i64) => a * a % 10 == b * b % 10 }
"""


class Gen:
    def __init__(self, t):
        self.t, self.L, self.out, self.cl, self.n = t, [], [], set(), 0

    def emit(self, *ls):
        self.L += ls

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pr(self, tag, xs, texts):
        self.emit("println(%s);" % ", ".join([q(tag + " ")] + xs))
        self.out.append(tag + " " + "".join(texts))

    def live(self):
        if self.V is OBJ:
            ids = {id(o) for o in [v for k, v in self.m.values()] + list(self.keep.values())}
            self.pr("live", ["live"], [str(len(ids))])

    def key(self):
        t = self.t
        if self.m and t.bool(3, 5):
            return t.choice([k for k, v in self.m.values()])
        return self.K.gen(t)

    def val(self):
        t = self.t
        if self.keep and t.bool(1, 2 if self.V is OBJ else 4):
            k = t.choice(sorted(self.keep))
            return k, self.keep[k]
        v = self.V.gen(t)
        return self.V.lit(v), v

    def klit(self, k):
        # a String key can also be given as a literal
        if self.K is STRING and self.t.bool():
            return q(k)
        return self.K.lit(k)

    def num(self, T, x):
        """a number of a value, for sums: (text, fn)"""
        if T.num:
            return "(<i64>%s)" % x, lambda v: v
        if T is PQ:
            return "%s.a" % x, lambda v: v[0]
        if T is OBJ:
            return "%s.id" % x, lambda v: v.id
        if T is BOOL:
            return "(%s ? (2 as i64) : (1 as i64))" % x, lambda v: 2 if v else 1
        return "(%s == \"a\" ? (5 as i64) : (1 as i64))" % x, lambda v: 5 if v == "a" else 1

    def dump(self):
        m, K, V = self.m, self.K, self.V
        s = self.fresh("s")
        n = self.fresh("n")
        kx, kf = self.num(K, "k")
        es = list(m.values())
        self.cl.add("iterate")
        if V is None:
            self.emit("var %s = (0 as i64); var %s = (0 as i64);" % (s, n), "for (const k: m) { %s += %s; %s++; }" % (s, kx, n))
            tot = sum(kf(k) for k, v in es)
        else:
            vx, vf = self.num(V, "v")
            self.emit("var %s = (0 as i64); var %s = (0 as i64);" % (s, n), "for (const k, v: m) { %s += %s * 7 + %s; %s++; }" % (s, kx, vx, n))
            tot = sum(kf(k) * 7 + vf(v) for k, v in es)
        self.pr("sum", [s, '" "', n, '" "', "m.size()", '" "', "m.empty()"], ["%d %d %d %s" % (tot, len(es), len(es), "false" if es else "true")])
        if self.t.bool(1, 3):
            # every entry is found
            for k, v in es[:40]:
                if V is None:
                    self.emit("if (!m.contains(%s)) { println(\"lost \", %s); }" % (self.K.lit(k), q(K.text(k))))
                else:
                    self.show(k)

    def show(self, k):
        K, V = self.K, self.V
        g = self.fresh("g")
        form = self.t.choice(["m.[%s]", "m.get(%s)"]) % self.klit(k)
        self.emit("{ var %s = %s;" % (g, form), "if (%s) { println(\"= \", %s); } else { println(\"none\"); } }" % (
            g, ", ".join([g + "&.id"] if V is OBJ else V.show("(*%s)" % g))))
        e = self.m.get(self.norm(k))
        self.out.append("= " + V.text(e[1]) if e else "none")

    def make(self):
        t = self.t
        self.h = ""
        self.norm = lambda k: k
        self.isset = t.bool(1, 3)
        self.K = K = t.weighted(KEYS)
        self.V = V = None if self.isset else t.weighted(VALS)
        if K is I64 and t.bool(1, 2):
            self.h = t.choice([", MH", ", CH", ", TH, TE"])
            if "TE" in self.h:
                self.norm = lambda k: k * k % 10
        self.m, self.keep = {}, {}
        cap = t.choice(["", "", "", "0", "1", "4", "5", "20", "60"])
        ty = "HashSet[%s%s]" % (K.name, self.h) if self.isset else "HashMap[%s, %s%s]" % (K.name, V.name, self.h)
        self.ty = ty
        self.emit("{", "var m = %s(%s);" % (ty, cap))
        for _ in range(t.choice([3, 6, 10, 20, 40])):
            self.op()
            if t.bool(1, 7):
                self.dump()
        self.dump()
        self.live()
        self.emit("}")
        self.m, self.keep = {}, {}
        self.live()

    def op(self):
        t, K, V, m = self.t, self.K, self.V, self.m
        k = t.weighted([(9, "insert"), (2, "keep old"), (3, "index"), (2, "many"), (5, "remove"), (4, "get"), (3, "contains"), (1, "clear"), (1, "keep"),
                        (1, "unkeep"), (1, "each"), (1, "map"), (1, "update"), (1, "range out")])
        if k in ("insert", "keep old", "index"):
            kk = self.key()
            n = self.norm(kk)
            new = n not in m
            if self.isset:
                # a set keeps one of the equal items; an unequal hash class is not told apart
                self.emit("m.insert(%s%s);" % (self.klit(kk), ", false" if k == "keep old" else ""))
                if new or k != "keep old":
                    m[n] = (kk, None)
            else:
                x, v = self.val()
                rep = k != "keep old"
                if k == "index":
                    self.emit("m.[%s] = %s;" % (self.klit(kk), x))
                elif t.bool():
                    self.emit("m.insert(%s, %s%s);" % (self.klit(kk), x, "" if rep and t.bool() else ", true" if rep else ", false"))
                else:
                    self.pr("new", ["m.insert(%s, %s%s)" % (self.klit(kk), x, "" if rep else ", false")], ["true" if new else "false"])
                if new or rep:
                    m[n] = (kk, v)
        elif k == "many":
            if K not in (I64, I32, U16, U64) or "TE" in self.h:
                return
            c = t.choice([3, 10, 25, 60])
            st, b = t.choice([1, 2, 3, 11, 53]), t.int(0, 30)
            kx = "<%s>(i * %d + %d)" % (K.name, st, b)
            if self.isset:
                self.emit("for (const i: 0..%d) { m.insert(%s); }" % (c, kx))
                for i in range(c):
                    m[i * st + b] = (i * st + b, None)
            else:
                x, v = self.val()
                if V is I64:
                    self.emit("for (const i: 0..%d) { m.[%s] = <i64>i * 2; }" % (c, kx))
                    for i in range(c):
                        m[i * st + b] = (i * st + b, i * 2)
                elif V is OBJ:
                    self.emit("for (const i: 0..%d) { m.[%s] = A(i); }" % (c, kx))
                    for i in range(c):
                        m[i * st + b] = (i * st + b, Obj(i))
                else:
                    self.emit("for (const i: 0..%d) { m.[%s] = %s; }" % (c, kx, x))
                    for i in range(c):
                        m[i * st + b] = (i * st + b, v)
        elif k == "range out":
            if K not in (I64, I32, U16, U64) or "TE" in self.h:
                return
            c, st, b = t.choice([3, 10, 25, 60]), t.choice([1, 2, 3, 11]), t.int(0, 30)
            self.emit("for (const i: 0..%d) { m.remove(<%s>(i * %d + %d)); }" % (c, K.name, st, b))
            for i in range(c):
                m.pop(i * st + b, None)
        elif k == "remove":
            kk = self.key()
            self.emit("m.remove(%s);" % self.klit(kk))
            m.pop(self.norm(kk), None)
        elif k == "get" and V:
            self.show(self.key())
        elif k == "contains":
            kk = self.key()
            self.pr("has", ["m.contains(%s)" % self.klit(kk)], ["true" if self.norm(kk) in m else "false"])
        elif k == "clear" and t.bool(1, 2):
            self.emit("m.clear();")
            m.clear()
        elif k == "keep" and V:
            p = self.fresh("k")
            v = V.gen(t)
            self.emit("var %s = %s;" % (p, V.lit(v)))
            self.keep[p] = v
        elif k == "unkeep" and V and self.keep:
            p = t.choice(sorted(self.keep))
            x, v = self.val()
            self.emit("%s = %s;" % (p, x))
            self.keep[p] = v
        elif k == "update" and V is I64:
            kk = self.key()
            self.pr("or", ["(m.get(%s) || ((-7) as i64))" % self.klit(kk)], [str(m[self.norm(kk)][1]) if self.norm(kk) in m else "-7"])
        elif k == "map" and V is I64:
            w, s = self.fresh("w"), self.fresh("s")
            kx, kf = self.num(K, "k")
            self.emit("var %s = m.map[i64]((k: &const %s, v: &const i64) => v * 3 + %s);" % (w, K.name, kx),
                      "var %s = (0 as i64);" % s, "for (const x, i: %s) { %s += x; }" % (w, s))
            self.pr("map", [w + ".size()", '" "', s], ["%d %d" % (len(m), sum(v * 3 + kf(k_) for k_, v in m.values()))])
        elif k == "each" and len(m) == 1 and V:
            kk, v = list(m.values())[0]
            self.emit("m.each((k: %s, v: %s) => { println(\"each \", %s); });" % (K.name, V.name, ", ".join(K.show("k") + ['"="'] + V.show("v"))))
            self.out.append("each %s=%s" % (K.text(kk), V.text(v)))
        else:
            return
        self.cl.add(k)


class S02(CxyCheck):
    prop = "S02"
    quick_cases = 5000
    prelude = PRE
    rule = ("each case applies up to 40 random operations to a HashMap or HashSet of random key and value types (sometimes with a hasher that collides "
            "or an equality of its own), mirrored by a dictionary. Non-trivial: at least three kinds of operations; distinct by the text of the program")

    def gen(self, t):
        g = Gen(t)
        g.make()
        return CxyCase(g.L, g.out + [""], imports=['import { HashMap, HashSet } from "stdlib/hash.cxy"'], nontrivial=len(g.cl) >= 3,
                       classes=[g.ty.replace("[", " ").replace("]", "")] + sorted(g.cl))


if __name__ == "__main__":
    main(S02)
