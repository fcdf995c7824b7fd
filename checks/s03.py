"""S03: strings, String and string views behave like sequences of bytes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main

ALPHA = "aab bc1- "
SP = " \\t"


def esc(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t").replace("\n", "\\n")


def cmp(a, b):
    """the order of strings: by length, then by bytes"""
    x, y = (len(a.encode()), a.encode()), (len(b.encode()), b.encode())
    return (x > y) - (x < y)


OPS = {"==": lambda c: c == 0, "!=": lambda c: c != 0, "<": lambda c: c < 0, "<=": lambda c: c <= 0, ">": lambda c: c > 0, ">=": lambda c: c >= 0}


class Gen:
    def __init__(self, t):
        self.t, self.L, self.out, self.cl, self.n = t, [], [], set(), 0
        self.S = {}   # String variable -> box (aliases share a box)
        self.V = {}   # view variable -> contents
        self.P = {}   # string variable -> contents

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def word(self, maxlen=12):
        t = self.t
        k = t.choice(["rand", "rand", "pick", "uni", "long", "sub"])
        if k == "pick":
            return t.choice(["", "a", "ab", "hello", "hello world", "  x ", "\t\n", "aaa", "aab", "zz", "0", "%s"])
        if k == "uni":
            return t.choice(["é", "h€llo", "😀", "añb"])
        if k == "long" and maxlen > 5:
            return t.choice("abx ") * t.choice([15, 16, 17, 31, 32, 33, 64, 130])
        if k == "sub":
            ws = [b[0] for b in self.S.values()] + list(self.V.values()) + list(self.P.values())
            if ws:
                w = t.choice(ws)
                if w and w.isascii():
                    i = t.int(0, len(w))
                    return w[i:i + t.int(0, 4)]
        return "".join(t.choice(ALPHA) for _ in range(t.int(0, maxlen)))

    def pr(self, x, o):
        self.L.append("println(%s);" % x)
        self.out.append(o)

    def opt(self, x, v):
        """an optional index"""
        self.pr(x, "null" if v is None else str(v))

    def bl(self, x, v):
        self.pr(x, "true" if v else "false")

    # queries shared by String and views; e: expression, w: contents, kind
    def query(self, e, w, kind):
        t = self.t
        b = w.encode()
        asc = w.isascii()
        k = t.choice(["size", "indexOf", "rIndexOf", "substr", "ends", "starts", "cmp", "at", "hash", "empty", "find", "rfind", "num", "trim", "chain", "iter", "copyto"])
        c = t.choice(ALPHA + "xz")
        if k == "size":
            self.pr("%s.size()" % e, str(len(b)))
        elif k == "empty":
            self.bl("%s.empty()" % e, not b)
        elif k == "indexOf":
            i = b.find(c.encode())
            self.opt("%s.indexOf('%s')" % (e, c), None if i < 0 else i)
        elif k == "rIndexOf":
            i = b.rfind(c.encode())
            self.opt("%s.rIndexOf('%s')" % (e, c), None if i < 0 else i)
        elif k in ("substr", "chain") and asc:
            i = t.int(0, len(w))
            if t.bool():
                n = t.int(0, len(w) - i)
                x, v = "%s.substr(%d, %d)" % (e, i, n), w[i:i + n]
            else:
                x, v = "%s.substr(%d)" % (e, i), w[i:]
            if k == "chain" and kind == "view":
                # a query of a view of a view
                y = self.fresh("v")
                self.L.append("var %s = %s;" % (y, x))
                self.V[y] = v
            elif k == "chain":
                i = t.int(0, len(v))
                self.pr('%s.substr(%d), "|"' % (x, i), v[i:] + "|")
            else:
                self.pr('%s, "|"' % x, v + "|")
        elif k in ("ends", "starts"):
            s = self.word(4)
            if asc and t.bool() and w:
                n = t.int(0, min(5, len(w)))
                s = w[len(w) - n:] if k == "ends" else w[:n]
                if t.bool(1, 4):
                    s = s + "q" if k == "starts" else "q" + s
            form = t.choice(["%s", "%s.S", "__string(%s)"]) % esc(s) if kind == "String" else "__string(%s)" % esc(s)
            self.bl("%s.%swith(%s)" % (e, k, form), b.endswith(s.encode()) if k == "ends" else b.startswith(s.encode()))
        elif k == "cmp":
            s = self.word()
            if t.bool(1, 3):
                s = w
            elif t.bool(1, 2) and w and asc:
                i = t.int(0, len(w) - 1)
                s = w[:i] + t.choice(ALPHA) + w[i + 1:]
            if not (asc and s.isascii()):
                o = t.choice(["==", "!="])
            else:
                o = t.choice(list(OPS))
            if kind == "String":
                rhs = esc(s)
                for n, bx in self.S.items():
                    if bx[0] == s and t.bool():
                        rhs = "&" + n
            elif kind == "view":
                rhs = "&" + self.view(s)
            else:
                rhs = esc(s)
                if t.bool():
                    rhs = self.fresh("p")
                    self.L.append("var %s = %s;" % (rhs, esc(s)))
            self.cl.add("compare")
            self.bl("(%s %s %s)" % (e, o, rhs), OPS[o](cmp(w, s)))
        elif k == "at" and asc and w:
            i = t.int(0, len(w) - 1)
            if not (kind == "string" and 0):
                self.pr('%s.[%d], "|"' % (e, i), w[i] + "|")
        elif k == "hash":
            if kind == "String":
                self.bl("(hash(&%s) == hash(%s))" % (e, esc(w)), True)
                s = self.word()
                if s != w:
                    return
        elif k in ("find", "rfind") and kind == "view":
            s = self.word(3) or "b"
            if asc and w and t.bool():
                i = t.int(0, len(w) - 1)
                s = w[i:i + t.int(1, 3)]
            i = b.find(s.encode()) if k == "find" else b.rfind(s.encode())
            self.opt("%s.%s(__string(%s))" % (e, k, esc(s)), None if i < 0 else i)
        elif k == "num" and kind == "view":
            # the number a view of a longer string spells
            v = t.choice([0, 1, 7, 42, 65535, -3, -128, 2**31 - 1, 10**15])
            suf = t.choice(["", " ", "x", "99", "9" * 10])
            s = t.choice(["", " ", "+"]) if v >= 0 else ""
            full = self.fresh("n")
            ty = t.choice(["i64", "i64", "i32"]) if abs(v) < 2**31 else "i64"
            n = len(s) + len(str(v))
            if t.bool(1, 4):
                f = t.choice([0.5, 2.25, -1.75, 100.0])
                self.L.append("var %s = __string(%s);" % (full, esc("%s%s" % (f, suf))))
                self.pr("%s.substr(0, %d).tof[f64]()" % (full, len(str(f))), "%g" % f)
            else:
                self.L.append("var %s = __string(%s);" % (full, esc("%s%d%s" % (s, v, suf))))
                self.pr("%s.substr(0, %d).toi[%s](%s)" % (full, n, ty, t.choice(["", "10"])), str(v))
        elif k == "trim" and kind == "view" and asc:
            f = t.choice(["trim", "trimLeft", "trimRight"])
            v = {"trim": w.strip(), "trimLeft": w.lstrip(), "trimRight": w.rstrip()}[f]
            self.pr('%s.%s(), "|", %s.%s().size()' % (e, f, e, f), v + "|%d" % len(v))
        elif k == "iter" and kind == "String" and asc:
            x = self.fresh("a")
            self.L.append("var %s = String();" % x)
            if t.bool():
                self.L.append("for (const c, i: %s) { %s << c << i; }" % (e, x))
                v = "".join("%s%d" % (ch, i) for i, ch in enumerate(w))
            else:
                self.L.append("for (const c: %s) { %s << c.0; }" % (e, x))
                v = w
            self.pr('%s.size(), "|", %s' % (x, x), "%d|%s" % (len(v), v))
        elif k == "copyto" and kind == "view":
            x = self.fresh("b")
            n = len(b) + t.int(1, 3)
            self.L.append("var %s: [char, %d] = [];" % (x, n))
            self.L.append("%s.copyto(%s, %d);" % (e, x, n))
            self.pr('__string(%s !: string), "|"' % x, w + "|")
        else:
            return
        self.cl.add(k)

    def view(self, s):
        """a variable holding a view with these contents, not always terminated"""
        t = self.t
        x = self.fresh("v")
        a, z = t.choice(["", "a", "  "]), t.choice(["", "b", "7", " "])
        if t.bool(1, 3):
            self.L.append("var %s = __string(%s);" % (x, esc(s)))
        else:
            n = len(s.encode())
            self.L.append("var %s = __string(%s).substr(%d, %d);" % (x, esc(a + s + z), len(a), n))
        self.V[x] = s
        return x

    def value(self):
        """something that can be appended: (expression, text)"""
        t = self.t
        k = t.choice(["lit", "lit", "int", "bool", "char", "String", "wchar", "float", "neg", "self"])
        if k == "lit":
            w = self.word()
            return esc(w), w
        if k == "int":
            v = t.choice([0, 7, 12345, 2**40])
            return str(v), str(v)
        if k == "neg":
            v = -t.int(1, 2000)
            return "(%d as i64)" % v if False else "((%d) as i64)" % v, str(v)
        if k == "bool":
            return "true", "true"
        if k == "char":
            c = t.choice("abz ~")
            return "('%s' as char)" % c, c
        if k == "wchar":
            c = t.choice("é€😀𐍈")
            return "'%s'" % c, c
        if k == "float":
            return "2.5", "2.5"
        if k == "String" and self.S:
            x = t.choice(sorted(self.S))
            return x, self.S[x][0]
        w = self.word(5)
        return esc(w) + ".S", w

    def op(self):
        t = self.t
        k = t.weighted([(3, "new"), (2, "view"), (1, "string"), (6, "append"), (12, "query"), (2, "trim"), (1, "clear"), (1, "alias"), (1, "reassign"),
                        (1, "bytes"), (1, "reserve"), (1, "fstr"), (2, "show")])
        if k == "new" or (not self.S and k in ("append", "trim", "clear", "alias", "reassign", "bytes", "reserve", "show")):
            x, w = self.fresh("s"), self.word()
            f = t.choice(["lit", "lit", "ctor", "empty", "bytes", "view"])
            if f == "lit":
                self.L.append("var %s = %s.S;" % (x, esc(w)))
            elif f == "ctor":
                self.L.append("var %s = String(%s);" % (x, esc(w)))
            elif f == "bytes":
                self.L.append("var %s = String(%s !: ^const char, %d);" % (x, esc(w + "tail"), len(w.encode())))
            elif f == "view":
                self.L.append("var %s = String(%s);" % (x, self.view(w)))
            else:
                w = ""
                self.L.append("var %s = String();" % x)
            self.S[x] = [w]
        elif k == "view":
            self.view(self.word())
        elif k == "string":
            x, w = self.fresh("p"), self.word()
            self.L.append("var %s = %s;" % (x, esc(w)))
            self.P[x] = w
        elif k == "query":
            c = [("String", x, b[0]) for x, b in self.S.items()] + [("view", x, w) for x, w in self.V.items()] + [("string", x, w) for x, w in self.P.items()]
            if not c:
                return
            kind, x, w = t.choice(c)
            if kind == "string":
                # strings only compare and index
                s = self.word() if t.bool() else w
                if not (w.isascii() and s.isascii()):
                    o = t.choice(["==", "!="])
                else:
                    o = t.choice(list(OPS))
                self.bl("(%s %s %s)" % (x, o, esc(s)), OPS[o](cmp(w, s)))
                self.cl.add("compare")
                return
            self.query(x, w, kind)
            return
        else:
            x = t.choice(sorted(self.S)) if self.S else None
            b = self.S.get(x)
            if k == "append":
                vs = [self.value() for _ in range(t.int(1, 4))]
                o = b[0]
                if any(e == n and self.S[n] is b for e, _ in vs for n in self.S):
                    # appending a string to itself: only alone
                    vs = [(esc("self"), "self")]
                self.L.append("%s << %s;" % (x, " << ".join(e for e, _ in vs)))
                b[0] += "".join(v for _, v in vs)
            elif k == "bytes":
                w = self.word()
                self.L.append("%s.append(%s !: ^const char, %d);" % (x, esc(w + "zz"), len(w.encode())))
                b[0] += w
            elif k == "reserve":
                self.L.append("%s.reserve(%d);" % (x, t.choice([0, 1, 5, 16, 40, 100])))
            elif k == "trim" and b[0].isascii():
                f = t.choice(["trim", "trimLeft", "trimRight"])
                self.L.append("%s.%s();" % (x, f))
                b[0] = {"trim": b[0].strip(), "trimLeft": b[0].lstrip(), "trimRight": b[0].rstrip()}[f]
            elif k == "clear":
                self.L.append("%s.clear();" % x)
                b[0] = ""
            elif k == "alias":
                y = self.fresh("s")
                self.L.append("var %s = %s;" % (y, x))
                self.S[y] = b
            elif k == "reassign":
                w = self.word()
                self.L.append("%s = %s.S;" % (x, esc(w)))
                self.S[x] = [w]
            elif k == "fstr":
                y = self.fresh("s")
                parts = [t.choice(sorted(self.S)) if self.S and t.bool() else None for _ in range(t.int(1, 3))]
                s, o = "", ""
                for p in parts:
                    if p:
                        s += "${%s}" % p
                        o += self.S[p][0]
                    else:
                        s += " a"
                        o += " a"
                if not any(parts):
                    s, o = s + "${1}", o + "1"
                self.L.append('var %s = f"%s";' % (y, s))
                self.S[y] = [o]
            elif k == "show" and b is not None:
                self.pr('%s, "|", %s.size(), %s.str()' % (x, x, x) if b[0] else '%s, "|", %s.size()' % (x, x),
                        "%s|%d%s" % (b[0], len(b[0].encode()), b[0]))
                self.bl("(%s.capacity() >= %s.size())" % (x, x), True)
            else:
                return
        self.cl.add(k)


class S03(CxyCheck):
    prop = "S03"
    quick_cases = 12000
    rule = ("each case applies up to 40 random operations to String objects (shared by aliases), views (__string, mostly not null terminated) and strings, mirrored by "
            "text. Non-trivial: at least four kinds of operations; distinct by the text of the program")

    def gen(self, t):
        g = Gen(t)
        for _ in range(t.choice([5, 10, 20, 40])):
            g.op()
        for x in sorted(g.S)[:4]:
            w = g.S[x][0]
            g.pr('%s, "|", %s.size()' % (x, x), "%s|%d" % (w, len(w.encode())))
        return CxyCase(g.L, g.out + [""], nontrivial=len(g.cl) >= 4, classes=sorted(g.cl))


if __name__ == "__main__":
    main(S03)
