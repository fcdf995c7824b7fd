"""C01: the compiler's hash tables and maps behave as finite maps."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.hrun import HarnessCheck, Script
from vf.cxyrun import main

SIZES = [1, 2, 4, 8, 16, 24, 40]
KL = {1: 1, 2: 1, 4: 2, 8: 4, 16: 8, 24: 8, 40: 8}


def show(d):
    return "%d:" % len(d) + "".join(" %d=%d" % kv for kv in sorted(d.items()))


class C01(HarnessCheck):
    prop = "C01"
    quick_cases = 30000
    rule = ("a case is a script of inserts, lookups, removals, clears and enumerations on one table, with element sizes 1-40 "
            "bytes and hash functions from good to constant, compared with a dictionary. Non-trivial: at least 8 operations, "
            "at least one of which removes or re-inserts a key")

    def gen(self, t):
        es = t.choice(SIZES)
        kl = KL[es]
        m = t.bool()
        hk = t.below(5)
        hs, hm = [(0, 0), (1, 0xFFFFFFFF), (1, t.choice([0, 1, 3, 7, 15])), (7, 0x7FFFFFFF),
                  (t.choice([17, 31, 67, 5, 11, 23, 53, 101, 257]), 0xFFFFFFFF)][hk]
        if hk == 2 and hm == 0:
            hs, hm = 1, 0
        top = min(256 ** kl - 1, 1 << 40)
        dom = t.choice([6, 12, 40, 200, 900])
        big = t.bool(1, 5)
        keys = [min(top, t.int(0, top)) if big else None for _ in range(min(dom, 40))] if big else None
        ops, ex = ["cfg %d %d %d" % (es, hs, hm)], []
        d = {}
        removed = 0
        n = t.choice([6, 12, 30, 80, 300]) if dom <= 40 else t.choice([30, 120, 500])
        if t.bool(1, 4):
            cap = t.choice([1, 5, 7, 16, 40, 300])
        else:
            cap = 0
        L = "M" if m else "T"
        ops.append("%snew %d" % (L, cap))
        grow = t.int(2, 8)
        hasv = es > kl

        def key():
            if keys:
                return t.choice(keys)
            if d and t.bool(1, 3):
                return t.choice(list(d))
            return t.below(min(dom, top + 1))
        for _ in range(n):
            k = t.weighted([(grow, "put"), (3, "get"), (3, "del"), (1, "all"), (1, "misc")])
            if k == "put":
                a = key()
                v = t.below(100 if kl == 1 else 60000) if hasv else 0
                ops.append("%sput %d %d" % (L, a, v))
                new = a not in d
                removed += not new
                if m:
                    d[a] = v
                    ex.append("%d %d %d=%d" % (new, len(d), a, v))
                else:
                    if new:
                        d[a] = v
                    ex.append("%d %d" % (new, len(d)))
            elif k == "get":
                a = key()
                ops.append("%sget %d" % (L, a))
                ex.append("%d=%d" % (a, d[a]) if a in d else "none")
            elif k == "del":
                a = key()
                had = a in d
                d.pop(a, None)
                removed += had
                if m:
                    ops.append("Mdel %d %d" % (a, t.below(2)))
                    ex.append("%d" % len(d))
                else:
                    ops.append("Tdel %d" % a)
                    ex.append("%d %d" % (had, len(d)))
            elif k == "all":
                if m:
                    ops.append("Mall")
                    ex.append(show(d))
                else:
                    w = t.below(4)
                    if w == 0:
                        ops.append("Tall 0")
                        ex.append(show(d))
                    elif w == 1:
                        c = t.int(1, 5)
                        ops.append("Tall %d" % c)
                        ex.append("%d" % min(c, len(d)))
                    else:
                        ops.append("Tit %d" % (w - 2))
                        ex.append(show(d))
            else:
                w = t.below(6)
                if w == 0:
                    ops.append("%sclr" % L)
                    d = {}
                    ex.append("0")
                elif m and hasv:
                    a = key()
                    v = t.below(100)
                    ops.append("Mset %d %d" % (a, v))
                    if a in d:
                        d[a] = v
                        ex.append("%d=%d" % (a, v))
                    else:
                        ex.append("none")
        ops.append("Mall" if m else "Tall 0")
        ex.append(show(d))
        return Script(ops, ex, nontrivial=n >= 8 and removed > 0,
                      classes=["map" if m else "table", "hash %d" % hk, "elem %d" % es, "size %s" % ("large" if len(d) > 40 else "small")])


if __name__ == "__main__":
    main(C01)
