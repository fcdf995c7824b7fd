"""C03: interned strings are equal exactly when their text is."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.hrun import HarnessCheck, Script
from vf.cxyrun import main

# pairs with the same 31 low bits of their FNV-1a hash
PAIRS = [("a", "arxn0vn"), ("x", "xo65vlj"), ("n", "nqvr2ub"), ("i32", "i32l2ncvq"), ("value", "valuei_j2vf"),
         ("main", "maino6ur6t"), ("self", "selfld_dpy"), ("item_", "item_gffdwh"), ("Q", "Qkabg3h")]


def hx(s):
    b = s.encode("utf8")
    return "x" + b.hex() + "."


def path(parts):
    out = ""
    for i, p in enumerate(parts):
        if p:
            out += p
            if i + 1 < len(parts) and not p.endswith("/"):
                out += "/"
    return out


class C03(HarnessCheck):
    prop = "C03"
    quick_cases = 30000
    rule = ("a case is a script of interning calls (whole, sized, trimmed, concatenated, formatted, path joins, fresh names) over "
            "strings with shared prefixes and colliding hashes; the harness numbers the distinct addresses it gets back. "
            "Non-trivial: at least 6 calls and one string interned twice")

    def word(self, t):
        k = t.below(8)
        if k < 2:
            return t.choice(PAIRS)[t.below(2)]
        if k == 2:
            return ""
        al = "ab" if k < 5 else "abcxyz_019/.é☃ "
        s = "".join(t.choice(al) for _ in range(t.int(1, 4 if k < 5 else 12)))
        if k == 7:
            s *= t.int(1, 12)
        return s

    def gen(self, t):
        ops, ex = ["cfg 8 0 0", "Snew"], []
        ids = {}
        dup = 0
        nfresh = 0
        cl = set()

        def out(s):
            nonlocal dup
            if s in ids:
                dup += 1
            else:
                ids[s] = len(ids) + nfresh
            ex.append("#%d %s" % (ids[s], s.encode().hex()))
        for _ in range(t.choice([4, 10, 40, 150])):
            k = t.weighted([(6, "put"), (3, "sub"), (2, "trim"), (2, "cat"), (2, "fmt"), (1, "path"), (1, "anon")])
            cl.add(k)
            w = self.word(t)
            if k == "put":
                ops.append("Sput 0 %s" % hx(w))
                out(w)
            elif k == "sub":
                b = w.encode()
                n = t.int(0, len(b))
                while n < len(b) and b[n] & 0xC0 == 0x80:
                    n += 1
                ops.append("Ssub %d %s" % (n, hx(w)))
                out(b[:n].decode())
            elif k == "trim":
                w = w.replace("é", "").replace("☃", "")
                w = t.choice(["", " ", "\t\n "]) + w + t.choice(["", " ", " rest", "\n"])
                ops.append("Strim 0 %s" % hx(w))
                out((w.split() or [""])[0])
            elif k == "cat":
                ws = [w[:70]] + [self.word(t)[:20] for _ in range(t.int(1, 2))]
                ops.append("Scat %d %s" % (len(ws), " ".join(map(hx, ws))))
                out("".join(ws))
            elif k == "fmt":
                a, n, b = w, t.below(1000), self.word(t)
                ops.append("Sfmt %d %s %s" % (n, hx(a), hx(b)))
                out("%s-%d%s" % (a, n, b))
            elif k == "path":
                ws = [t.choice(["", "/", "a", "a/", "/b", "dir/sub", "x.cxy"]) for _ in range(t.int(2, 3))]
                ops.append("Spath %d %s" % (len(ws), " ".join(map(hx, ws))))
                out(path(ws))
            else:
                p = t.choice([None, "v", "", "tmp1"])
                # fresh names: must differ from everything interned before
                ops.append("Sanon" + ("" if p is None else " " + hx(p)))
                if p == "":
                    ops.pop()
                    continue
                ex.append("1 1")
                nfresh += 1
        return Script(ops, ex, nontrivial=len(ex) >= 6 and dup > 0, classes=sorted(cl))


if __name__ == "__main__":
    main(C03)
