"""C02: memory handed out by pools and arrays stays intact."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.hrun import HarnessCheck, Script
from vf.cxyrun import main
from checks.c01 import KL, SIZES

ALIGN = 32  # sizeof(max_align_t)
CACHE = [48, 96, 200]


class C02(HarnessCheck):
    prop = "C02"
    quick_cases = 40000
    rule = ("a case is a script on one memory pool (pool, tracked and cached allocations, reallocation, return to a cache, reset) "
            "or on a set of dynamic arrays (push, pop, copy, duplicate); the harness fills each block with its own pattern and "
            "re-checks all live blocks after each step, under AddressSanitizer. Non-trivial: at least 6 operations")

    def gen(self, t):
        if t.bool(1, 3):
            return self.arrays(t)
        ops, ex = ["cfg 8 0 0", "Pnew"], []
        blocks = []   # [n, cls, live]
        pool_used = 0
        tracked = 0
        cache = [0, 0, 0]
        n = t.choice([4, 10, 30, 80])
        sizes = t.choice([[1, 8, 17, 40], [100, 500, 1000, 1024], [1, 16, 1025, 3000, 9000]])
        cl = set()
        have = False
        for _ in range(n):
            k = t.weighted([(6, "alloc"), (4, "track"), (4, "realloc"), (4, "cache"), (4, "free"), (1, "reset"), (2, "stat"), (1, "zero")])
            if k == "alloc":
                s = t.choice(sizes)
                ops.append("Palloc %d" % s)
                ex.append("ok")
                blocks.append([s, 0, True])
                pool_used += -(-s // ALIGN) * ALIGN
                have = True
            elif k == "zero":
                ops.append("Palloc 0")
                ex.append("null")
                blocks.append([0, 0, False])
            elif k == "track":
                s = t.choice(sizes)
                ops.append("Ptrack %d" % s)
                ex.append("ok")
                blocks.append([s, 1, True])
                tracked += s
            elif k == "realloc":
                c = [i for i, b in enumerate(blocks) if b[1] == 1 and b[2]]
                if not c:
                    continue
                i = t.choice(c)
                s = t.choice(sizes + [t.int(1, 5000)])
                ops.append("Prealloc %d %d" % (i, s))
                ex.append("ok")
                tracked += s - blocks[i][0]
                blocks[i][0] = s
            elif k == "cache":
                c = t.below(3)
                s = CACHE[c]
                ops.append("Pcache %d %d" % (s, c))
                ex.append("ok")
                blocks.append([s, 2 + c, True])
                if cache[c]:
                    cache[c] -= 1
                else:
                    pool_used += -(-s // ALIGN) * ALIGN
                    have = True
            elif k == "free":
                c = [i for i, b in enumerate(blocks) if b[1] >= 2 and b[2]]
                if not c:
                    continue
                i = t.choice(c)
                ops.append("Pfree %d" % i)
                ex.append("ok")
                blocks[i][2] = False
                cache[blocks[i][1] - 2] += 1
            elif k == "reset":
                ops.append("Preset")
                ex.append("ok")
                for b in blocks:
                    if b[1] != 1:
                        b[2] = False
                pool_used = 0
                cache = [0, 0, 0]
            else:
                ops.append("Pstat")
                ex.append("%d %d" % (pool_used + tracked, have))
            cl.add(k)
        ops.append("Pstat")
        ex.append("%d %d" % (pool_used + tracked, have))
        return Script(ops, ex, nontrivial=len(ops) >= 8, classes=["pool"] + sorted(cl))

    def arrays(self, t):
        es = t.choice(SIZES)
        kl = KL[es]
        hasv = es > kl
        ops, ex = ["cfg %d 0 0" % es], []
        arr = {}
        for _ in range(t.choice([6, 15, 40, 120])):
            i = t.below(3)
            if i not in arr:
                ops.append("Anew %d %d" % (i, t.below(2)))
                arr[i] = []
            k = t.weighted([(6, "push"), (3, "pop"), (1, "copy"), (1, "dup"), (1, "all")])
            a = arr[i]
            if k == "push":
                x, v = t.below(200), t.below(200) if hasv else 0
                a.append((x, v))
                ops.append("Apush %d %d %d" % (i, x, v))
                ex.append("%d %d=%d" % (len(a), x, v))
            elif k == "pop":
                ops.append("Apop %d" % i)
                if a:
                    x = a.pop()
                    ex.append("%d %d=%d" % (len(a), *x))
                else:
                    ex.append("none")
            elif k in ("copy", "dup"):
                j = t.choice(list(arr))
                if j == i or len(a) + len(arr[j]) > 400:
                    continue
                if k == "copy":
                    a += arr[j]
                    ops.append("Acopy %d %d" % (i, j))
                else:
                    if not arr[j]:
                        continue
                    arr[i] = list(arr[j])
                    ops.append("Adup %d %d" % (i, j))
                ex.append("%d" % len(arr[i]))
            else:
                ops.append("Aall %d" % i)
                ex.append("".join("%d=%d " % x for x in a) + "%d" % (not a))
        for i in arr:
            ops.append("Aall %d" % i)
            ex.append("".join("%d=%d " % x for x in arr[i]) + "%d" % (not arr[i]))
        return Script(ops, ex, nontrivial=len(ops) >= 8, classes=["array", "elem %d" % es])


if __name__ == "__main__":
    main(C02)
