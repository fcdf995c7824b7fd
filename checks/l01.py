"""L01: arithmetic, logic, comparison, cast and assignment expressions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main
from vf.expr import *
from vf.engine import Bad


class L01(CxyCheck):
    prop = "L01"
    quick_cases = 30000
    rule = ("each case declares typed variables with random values and prints generated expressions; the printed value "
            "is compared with a Python evaluation of the same tree. Non-trivial: at least one expression has 3 or more "
            "operators")

    def gen(self, t):
        vs, body, exp = [], [], []
        for i in range(t.int(1, 6)):
            ty = t.weighted([(12, None), (2, "f64"), (1, "f32"), (2, "bool")]) or t.choice(list(INT))
            n = "v%d" % i
            if ty in INT:
                v = t.bits(*INT[ty])
                if v > rng("i64")[1] or (INT[ty][0] and v == rng(ty)[0]):
                    v = v % 100000 if ty in ("i64", "u64", "i32", "u32") else 5
                s = str(v) if INT[ty][0] or v <= rng("i" + ty[1:])[1] else "%d as %s" % (v, ty)
            elif ty == "bool":
                v = t.bool()
                s = "true" if v else "false"
            else:
                v = t.int(-4000, 4000) / 16.0
                s = repr(v)
            body.append("  var %s: %s = %s;" % (n, ty, s))
            vs.append((n, ty, v))
        ops = set()
        size = 0
        for _ in range(t.int(1, 4)):
            k = t.below(4)
            if k == 3 and vs:
                i = t.below(len(vs))
                n, ty, v = vs[i]
                if ty in INT:
                    self.assign(t, vs, i, body, ops)
                    continue
            ty = t.weighted([(10, None), (2, "f64"), (4, "bool")]) or t.choice(list(INT))
            if t.bool(1, 12) and any(x[1] == "f32" for x in vs):
                ty = "f32"
            g = ExprGen(t, vs, maxlit=(1 << 63) - 1)
            e = g.gen(ty, t.int(1, 4))
            ops |= g.ops
            size = max(size, e.size)
            if e.lit and e.ty in INT and abs(e.v) > 1 << 31:
                raise Bad()
            body.append("  println(%s);" % e.s)
            exp.append(fmt(ty, e.v))
        for n, ty, v in vs:
            body.append("  println(%s);" % n)
            exp.append(fmt(ty, v))
        return CxyCase(body, exp, nontrivial=size >= 3, classes=["op " + o for o in ops])

    def assign(self, t, vs, i, body, ops):
        n, ty, v = vs[i]
        if t.bool(1, 4):
            inc = t.bool()
            nv = v + 1 if inc else v - 1
            if fits(ty, nv):
                op = "++" if inc else "--"
                body.append("  " + (n + op if t.bool() else op + n) + ";")
                vs[i] = (n, ty, nv)
                ops.add(op)
            return
        op = t.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ""])
        g = ExprGen(t, vs, maxlit=(1 << 63) - 1)
        if op in ("<<", ">>"):
            k = t.below(INT[ty][1])
            e = E(str(k), "i8", k, lit=True)
            if op == "<<" and v < 0:
                return
        else:
            e = g.gen(ty, t.int(0, 2))
        try:
            nv = {"+": lambda: v + e.v, "-": lambda: v - e.v, "*": lambda: v * e.v, "/": lambda: tdiv(v, e.v),
                  "%": lambda: v - e.v * tdiv(v, e.v), "&": lambda: v & e.v, "|": lambda: v | e.v,
                  "^": lambda: v ^ e.v, "<<": lambda: v << e.v, ">>": lambda: v >> e.v, "": lambda: e.v}[op]()
        except ZeroDivisionError:
            return
        if not fits(ty, nv):
            return
        if e.lit and e.ty in INT and abs(e.v) > 1 << 31:
            return
        body.append("  %s %s= %s;" % (n, op, e.s))
        vs[i] = (n, ty, nv)
        ops.add(op + "=")


if __name__ == "__main__":
    main(L01)
