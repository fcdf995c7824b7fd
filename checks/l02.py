"""L02: literals have at run time exactly the value they spell."""
import sys, os, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main

PRELUDE = '''func litBytes(s: string) {
  var o = String(); var i = 0 as u64;
  while ((s.[i] as i32) != 0) { o << (s.[i] as i32) << " "; i = i + 1; }
  println(o, len!(s));
}
func litF64(f: f64) { var p = (ptrof f) !: ^u64; println(*p); }
func litF32(f: f32) { var p = (ptrof f) !: ^u32; println(*p); }
'''
SIMPLE = {"n": 10, "t": 9, "v": 11, "r": 13, "a": 7, "b": 8, '"': 34, "'": 39, "\\": 92, "$": 36}
UNI = "éßñ×¿Ω☺€漢字😀𝄞Ж\u07ff\u0800\uffee\U00010000"


def sbytes(bs):
    out = "".join("%d " % (b - 256 if b > 127 else b) for b in bs)
    return out + str(len(bs))


class L02(CxyCheck):
    prop = "L02"
    quick_cases = 40000
    prelude = PRELUDE
    batch = 50
    rule = ("each case prints 4-14 literals of random kinds, bases, escapes and characters; integers are printed, float "
            "bit patterns and string bytes are printed as numbers, and compared with the value spelt. Non-trivial: the "
            "case has a value outside i8, a float that is not a small integer, an escape or a non-ASCII character")

    def intlit(self, t):
        b = t.below(65)
        v = 0 if b == 0 else (1 << (b - 1)) + t.below(1 << (b - 1))
        if t.bool(1, 4):
            v = min(max(0, (1 << t.choice([7, 8, 15, 16, 31, 32, 63, 64])) + t.near0(-2, 1)), (1 << 64) - 1)
        base = t.below(4)
        if base == 0:
            return v, str(v)
        if base == 1:
            h = "%x" % v
            return v, "0x" + "".join(c.upper() if t.bool(1, 3) else c for c in h)
        if base == 2:
            return v, "0b" + "0" * t.below(3) + bin(v)[2:]
        return v, "0o" + "0" * t.below(3) + oct(v)[2:]

    def floatlit(self, t):
        k = t.below(6)
        ip = str(t.below(10 ** t.int(1, 6)))
        fp = "".join(str(t.below(10)) for _ in range(t.int(1, 9)))
        ex = ("e" + t.choice(["", "+", "-"]) + str(t.below(30))) if k in (1, 3, 5) else ""
        if k in (4, 5):
            fp2 = "".join(str(t.below(10)) for _ in range(t.int(9, 19)))
            s = ip + "." + fp2 + ex
        elif k == 3:
            s = ip + ex
        else:
            s = ip + "." + fp + ex
        return s

    def strpart(self, t, fstr=False, multi=False):
        """-> (source, bytes)"""
        src, bs = [], b""
        hexed = False
        for _ in range(t.int(0, 10)):
            k = t.below(12)
            if k < 4:
                c = t.choice("abcXYZ 09_-+*/%(){}[]<>=!?.,;:#@&|^~`'$")
                if multi and t.bool(1, 5):
                    c = '\n'
                if c == "$" and fstr:
                    c = "z"
                src.append(c)
                bs += c.encode()
            elif k < 6:
                e = t.choice([x for x in SIMPLE if not (multi and x == '"')])
                src.append("\\" + e)
                bs += bytes([SIMPLE[e]])
            elif k == 6:
                v = t.int(1, 255)
                src.append("\\x%02x" % v if t.bool() else "\\x%02X" % v)
                bs += bytes([v])
            elif k == 7:
                v = t.int(1, 255)
                src.append("\\%03o" % v)
                bs += bytes([v])
            elif k == 8:
                # text that looks like an escape once the backslash is unescaped
                x = t.choice(["n", "x41", "101", "t", "\\\\", "0", "q", "u"])
                src.append("\\\\" + x)
                bs += b"\\" + (b"\\" if x == "\\\\" else x.encode())
            elif k == 9 and multi:
                src.append('"z')
                bs += b'"z'
            else:
                c = t.choice(UNI)
                src.append(c)
                bs += c.encode()
        return "".join(src), bs

    def gen(self, t):
        body, exp, cl = [], [], set()
        nt = False
        for n in range(t.int(4, 14)):
            k = t.below(14)
            v = "x%d" % n
            if k < 3:
                val, s = self.intlit(t)
                neg = val <= 1 << 63 and t.bool(1, 4)
                m = t.below(4)
                if neg:
                    s, val = "-" + s, -val
                if m == 0:
                    body.append("  println(%s);" % s)
                elif m == 1:
                    body.append("  var %s = %s; println(%s);" % (v, s, v))
                elif m == 2 and not neg:
                    body.append("  var %s = %s as u64; println(%s);" % (v, s, v))
                elif val < 1 << 63:
                    body.append("  var %s: i64 = %s; println(%s);" % (v, s, v))
                else:
                    body.append("  const %s = %s; println(%s);" % (v, s, v))
                exp.append(str(val))
                nt |= abs(val) > 127
                cl.add("int")
            elif k < 6:
                s = self.floatlit(t)
                val = float(s)
                if t.bool(1, 4):
                    try:
                        f = struct.unpack("<I", struct.pack("<f", val))[0]
                    except OverflowError:
                        continue
                    body.append("  litF32(%s as f32);" % s)
                    exp.append(str(f))
                else:
                    neg = t.bool(1, 4)
                    if neg:
                        s, val = "-" + s, -val
                    if t.bool():
                        body.append("  litF64(%s);" % s)
                    else:
                        body.append("  var %s: f64 = %s; litF64(%s);" % (v, s, v))
                    exp.append(str(struct.unpack("<Q", struct.pack("<d", val))[0]))
                nt = True
                cl.add("float")
            elif k == 6:
                e = t.below(5)
                if e == 0:
                    c = t.int(33, 126)
                    s = {39: "\\'", 92: "\\\\"}.get(c, chr(c))
                elif e == 1:
                    x = t.choice(list(SIMPLE))
                    c, s = SIMPLE[x], "\\" + x
                elif e == 2:
                    c = t.int(1, 127)
                    s = "\\x%02x" % c
                elif e == 3:
                    c = t.int(1, 127)
                    s = "\\%03o" % c
                else:
                    s = t.choice(UNI)
                    c = ord(s)
                body.append("  println('%s' as u32);" % s if t.bool() else "  var %s = '%s'; println(%s as u32);" % (v, s, v))
                exp.append(str(c))
                nt |= e > 0
                cl.add("char")
            elif k < 11:
                s, bs = self.strpart(t)
                m = t.below(3)
                if m == 0:
                    body.append('  litBytes("%s");' % s)
                elif m == 1:
                    body.append('  const %s = "%s"; litBytes(%s);' % (v, s, v))
                else:
                    body.append('  var %s: string = "%s"; litBytes(%s);' % (v, s, v))
                exp.append(sbytes(bs))
                nt |= "\\" in s or not s.isascii()
                cl.add("string")
            elif k == 11:
                s, bs = self.strpart(t, multi=True)
                body.append('  litBytes("""%s""");' % s)
                exp.append(sbytes(bs))
                nt |= "\\" in s or not s.isascii()
                cl.add("multi-line string")
            else:
                src, bs = "", b""
                for _ in range(t.int(1, 3)):
                    s, b = self.strpart(t, fstr=True)
                    x = t.int(0, 1000)
                    if t.bool(1, 3):
                        s2 = t.choice(["a", "b c", "'"])
                        src += s + '${"%s"}' % s2
                        bs += b + s2.encode()
                    else:
                        src += s + "${%d}" % x
                        bs += b + str(x).encode()
                s, b = self.strpart(t, fstr=True)
                body.append('  { var %s = f"%s"; litBytes(%s.str()); }' % (v, src + s, v))
                exp.append(sbytes(bs + b))
                nt = True
                cl.add("interpolated string")
        if not exp:
            body, exp = ["  println(1);"], ["1"]
        return CxyCase(body, exp, nontrivial=nt, classes=sorted(cl))


if __name__ == "__main__":
    main(L02)
