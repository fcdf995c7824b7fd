"""C04: formatted text is exactly what the format and arguments say."""
import sys, os, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.hrun import HarnessCheck, Script
from vf.cxyrun import main

STYLES = [0, 1, 2, 3, 4]
SC = {1: "1", 2: "2", 3: "4", 4: "3"}
CC = {1: "31", 2: "32", 3: "34", 4: "36", 5: "35", 6: "33", 7: "37"}
ESC = {0: "\\0", 10: "\\n", 9: "\\t", 11: "\\v", 13: "\\r", 7: "\\a", 8: "\\b", 34: '\\"', 92: "\\\\"}


def style(s, c):
    o = ""
    if s == 0 or c == 0:
        o = "\33[0m"
        if s == 0 and c == 0:
            return o
    o += "\33["
    if s:
        o += SC[s] + ";"
    if c:
        o += CC[c]
    return o + "m"


class C04(HarnessCheck):
    prop = "C04"
    quick_cases = 60000
    rule = ("a case is a sequence of format calls with random directives, arguments, indentation and styles (or string builder "
            "appends), and the text is compared with a Python rendering. Non-trivial: at least 4 directives")

    def text_(self, t, al="ab{ \n\té☃𝄞x\"\\%"):
        k = t.below(6)
        s = "".join(t.choice(al) for _ in range(t.int(0, 10)))
        if k == 5:
            s = s * t.int(1, 60) + "z" * t.int(0, 300)
        return s

    def gen(self, t):
        if t.bool(1, 5):
            return self.builder(t)
        tab = t.below(2)
        ign = t.below(2)
        tabs = "\t" if tab else "  "
        ops = ["cfg 8 0 0", "Fnew %d %d" % (tab, ign)]
        out = []
        indent = 0
        nd = 0
        cl = set()
        for _ in range(t.choice([1, 2, 4, 10])):
            if t.bool(1, 8):
                s = self.text_(t)
                ops.append("Fapp x" + s.encode().hex())
                out.append(s)
                continue
            f, args = "", []
            used = []
            for _ in range(t.int(1, 6)):
                k = t.weighted([(3, "lit"), (4, "int"), (2, "str"), (1, "sl"), (1, "se"), (2, "c"), (1, "cl"), (1, "b"), (1, "f"),
                                (2, "nl"), (1, "in"), (1, "out"), (1, "brace"), (1, "style"), (1, "pos"), (1, "p"), (1, "null")])
                if len(args) >= 11 and k not in ("lit", "nl"):
                    continue
                nd += 1
                cl.add(k)
                if k == "lit":
                    s = self.text_(t, "ab c:}$1é\t")
                    f += s
                    out.append(s)
                elif k == "int":
                    w, sg = t.choice([8, 16, 32, 64, 0]), t.bool()
                    v = t.bits(sg, w or 64)
                    # the argument slot may hold junk above the width
                    f += "{%s%s}" % ("i" if sg else "u", w or "")
                    args.append(("i:%d" if sg else "u:%d") % v)
                    out.append("%d" % v)
                    used.append((len(args) - 1, ("{%s%s}" % ("i" if sg else "u", w or ""))[1:-1], "%d" % v))
                elif k == "str":
                    s = self.text_(t)
                    f += "{s}"
                    args.append("s:" + s.encode().hex())
                    out.append(s)
                    used.append((len(args) - 1, "s", s))
                elif k == "null":
                    f += "{s}"
                    args.append("n:0")
                elif k == "sl":
                    s = self.text_(t, "abcdef")
                    n = t.int(0, len(s))
                    f += "{sl}"
                    args += ["s:" + s.encode().hex(), "l:%d" % n]
                    out.append(s[:n])
                elif k == "se":
                    s = self.text_(t, "ab \n\t\"éx")
                    n = None
                    if t.bool():
                        s = s.replace("é", "e")
                        n = t.int(0, len(s) + 2)
                    f += "{sE}" if n is None else "{sEl}"
                    args.append("s:" + s.encode().hex())
                    if n is not None:
                        args.append("l:%d" % n)
                        s = s[:n]
                    out.append("".join(ESC.get(ord(c), c) for c in s))
                elif k in ("c", "cl"):
                    c = t.choice([65, 10, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x1F600, 34, 92, 0x20AC])
                    e = t.bool()
                    s = ESC.get(c, chr(c)) if e else chr(c)
                    n = 1
                    f += "{c%s%s}" % ("E" if e else "", "l" if k == "cl" else "")
                    args.append("c:%d" % c)
                    if k == "cl":
                        n = t.below(9)
                        args.append("l:%d" % n)
                    out.append(s * n)
                elif k == "b":
                    v = t.below(2)
                    f += "{b}"
                    args.append("b:%d" % v)
                    out.append("true" if v else "false")
                elif k == "f":
                    v = t.choice([0.0, 1.5, -2.25, 1e10, -1e-10, 3.0e38, 123456.75])
                    if t.bool():
                        f += "{f64}"
                        args.append("f:%r" % v)
                    else:
                        f += "{f32}"
                        args.append("g:%r" % v)
                        v = struct.unpack("f", struct.pack("f", v))[0]
                    out.append("%e" % v)
                elif k == "p":
                    v = t.int(1, 1 << 40)
                    f += "{p}"
                    args.append("p:%d" % v)
                    out.append("0x%x" % v)
                elif k == "nl":
                    f += "\n"
                    out.append("\n" + tabs * indent)
                elif k == "in":
                    f += "{>}"
                    indent += 1
                elif k == "out":
                    if indent:
                        f += "{<}"
                        indent -= 1
                elif k == "brace":
                    f += "{{"
                    out.append("{")
                elif k == "style":
                    s, c = t.below(5), t.below(8)
                    f += "{$}"
                    args.append("S:%d%d" % (s, c))
                    if not ign:
                        out.append(style(s, c))
                elif k == "pos" and used:
                    # repeat an earlier argument by position
                    i, d, s = t.choice(used)
                    f += "{%d:%s}" % (i, d)
                    out.append(s)
                    # positional moves the argument index: end the format here
                    break
            ops.append("Fput x%s %s" % (f.encode().hex(), " ".join(args)))
        ops.append("Fout")
        return Script(ops, ["".join(out).encode("utf8").hex()], nontrivial=nd >= 4, classes=["format"] + sorted(cl), key=tuple(ops))

    def builder(self, t):
        ops, ex = ["cfg 8 0 0", "Bnew"], []
        cl = {"builder"}
        s = b""
        for _ in range(t.choice([2, 6, 25])):
            k = t.below(6)
            if k < 2:
                w = self.text_(t).encode()
                s += w
                ops.append("Bstr x" + w.hex())
                ex.append("%d" % len(s))
            elif k == 2:
                v = t.bits(True, 64)
                s += b"%d" % v
                ops.append("Bint %d" % (v % (1 << 64)))
            elif k == 3:
                v = t.bits(False, 64)
                s += b"%d" % v
                ops.append("Buint %d" % v)
            elif k == 4:
                v = t.below(2)
                s += b"true" if v else b"false"
                ops.append("Bbool %d" % v)
            else:
                c = t.choice([65, 10, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x1F600])
                s += chr(c).encode()
                ops.append("Bchar %d" % c)
            if t.bool(1, 8):
                ops.append("Bout")
                ex.append(s.hex())
                s = b""
        ops.append("Bout")
        ex.append(s.hex())
        return Script(ops, ex, nontrivial=len(ops) >= 6, classes=sorted(cl))


if __name__ == "__main__":
    main(C04)
