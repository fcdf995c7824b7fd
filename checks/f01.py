"""F01: the front end survives every input, and rejects what is not a program."""
import sys, os, re, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import main
from vf.engine import Case, Bad
from vf.server import ServerCheck
from vf import diag

TOK = re.compile(rb'[A-Za-z_]\w*|\d+|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|\s+|[^\w\s]', re.S)
WORDS = (b"func var const struct class enum union type if else while for switch match case default return break continue defer raise "
         b"catch import module pub extern virtual macro exception delete async launch this super true false null as is in i32 u8 string "
         b"auto interface test native opaque define include yield asm unsafe None f \" ' ` # @ $ ( ) [ ] { } < > .. ... => -> ; : , . ! "
         b"!! && || & | ^ ~ + - * / % ++ -- = == += <<= >>= ? ?? &. != <= >= << >> 0 1 0x1F 0b2 1e5 1.5 1. .5 0x 'a' '\\n' \"s\" x y foo #if "
         b"#for #const /* */ // ## #{ \n @inline @__cc __cc").split(b" ")
NASTY = [b"\"abc", b"'a", b"/* a /* b */", b"`", b"\\", b"\x00", b"\xff\xfe", b"\xe7\x95", b"\xf0\x9f\x98", b"'\\x", b"'\\999'", b"''",
         b"\"\\", b"f\"{", b"f\"a{x", b"f\"a{x}\"", b"\"\"\"ab", b"99999999999999999999999999", b"0x", b"0b", b"1e", b"1e+", b"1e999999",
         b"@", b"#", b"##", b"$", b"\r\n", b"\t", b"#{", b"'\xe7\x95\x8c'", b"'\xe7\x95\x8cx'", b"'\\'", b"0b12", b"09", b"1..2", b"1...", b"1.a"]
# the deepest nesting tried of constructs that nest
DEEP = [(b"func main() { var x = ", b"(", b"1", b")", b"; }"), (b"func main() { ", b"{ ", b"println(1);", b" }", b" }"),
        (b"func main() { var a = 1; ", b"if (a > 0) { ", b"println(1);", b" }", b" }"), (b"func main() { var x = ", b"-", b"1", b"", b"; }"),
        (b"func main() { var a = true; var x = ", b"!", b"a", b"", b"; }"), (b"func main() { ", b"while (true) { ", b"println(1);", b" }", b" }"),
        (b"func main() { var x = ", b"(1, ", b"2", b")", b"; }"), (b"func main() { var a = 1; ", b"if (a > 0) println(1); else ", b"println(2);", b"", b" }"),
        (b"func f(x: i64): i64 => x\nfunc main() { var x = ", b"f(", b"1", b")", b"; }"), (b"func main() { var x = 0", b" + 1", b"", b"", b"; }"),
        (b"func main() { ", b"for (const i: 0..2) { ", b"println(i);", b" }", b" }"), (b"", b"/* ", b"a", b" */", b"func main() { }")]


class Src(Case):
    def __init__(self, text, must, kind, classes=()):
        self.src, self.must, self.kind = text, must, kind
        self.key = text
        self.classes = [kind] + list(classes)
        self.nontrivial = len(text) > 3

    def text(self):
        return "// %s, %s\n%s" % (self.kind, {None: "either way", True: "to be accepted", False: "to be rejected"}[self.must],
                                  self.src.decode("utf8", "backslashreplace"))


class F01(ServerCheck):
    prop = "F01"
    quick_cases = 14000
    variant = "asan"
    last_stage = "Shake"
    seconds = 8
    rule = ("each case is one source text: a token-level mutation of a source of the tree, a soup of tokens, raw bytes, a deeply nested "
            "program, or a generated valid program that is kept, cut short, or loses or gains one bracket. Non-trivial: more than 3 bytes; "
            "distinct by text")

    def setup(self):
        ServerCheck.setup(self)
        from checks import l03, l05, l07, l08
        self.gens = []
        for c in (l03.L03, l05.L05, l07.L07, l08.L08):
            o = c()
            o.lock, o.discarded = None, 0
            self.gens.append(o)
        self.corpus = []
        for f in sorted(glob.glob(os.path.join(self.src, "**/*.cxy"), recursive=True)):
            b = open(f, "rb").read()
            if 0 < len(b) < 14000:
                # no modules are loaded: their compilation is not the subject
                b = re.sub(rb'(?m)^[ \t]*import.*$', b"", b)
                self.corpus.append(TOK.findall(b))
        self.words = sorted({x for c in self.corpus for x in c if x.strip()})

    def program(self, t):
        for _ in range(20):
            o = t.choice(self.gens)
            try:
                c = o.gen(t)
            except Bad:
                continue
            if c.imports:
                continue
            return o.program([c]).encode()
        raise Bad()

    def gen(self, t):
        k = t.weighted([(3, "mutation"), (2, "soup"), (1, "bytes"), (1, "deep"), (2, "valid"), (3, "bracket"), (1, "cut"), (2, "lexical")])
        if k == "mutation":
            c = list(t.choice(self.corpus))
            if t.bool():
                i = t.below(len(c))
                c = c[i:i + t.int(3, 200)]
            for _ in range(t.choice([1, 1, 2, 3, 8])):
                if not c:
                    break
                i, m = t.below(len(c)), t.below(7)
                if m == 0:
                    del c[i]
                elif m == 1:
                    c.insert(i, t.choice(self.words))
                elif m == 2:
                    c[i] = t.choice(WORDS)
                elif m == 3:
                    j = t.below(len(c))
                    c[i], c[j] = c[j], c[i]
                elif m == 4:
                    c = c[:i]
                elif m == 5:
                    c[i:i] = c[i:i + t.int(1, 10)]
                else:
                    c.insert(i, t.choice(NASTY))
            return Src(b"".join(c), None, k)
        if k == "soup":
            n = t.int(1, 40)
            pre = t.choice([b"", b"func main() { ", b"func main() { var x = ", b"struct S { ", b"class C { ", b"func f(", b"enum E { ",
                            b"macro m ", b"type T = ", b"func main() { switch (1) { ", b"import ", b"@", b"func main() { match (x) { "])
            return Src(pre + b" ".join(t.choice(WORDS) if t.bool(9, 10) else t.choice(NASTY) for _ in range(n)), None, k)
        if k == "bytes":
            return Src(bytes(t.choice([t.below(256), t.choice(b"\"'`#@{}()[]\\/*&|.!?:;fx0 \n")]) for _ in range(t.int(1, 60))), None, k)
        if k == "deep":
            a, o, m, c, e = t.choice(DEEP)
            n = t.choice([2, 8, 15, 16, 17, 40, 100, 200])
            return Src(a + o * n + m + c * n + e + b"\n", True, k)
        p = self.program(t)
        if k == "valid":
            return Src(p, True, k)
        toks = TOK.findall(p)
        if k == "cut":
            # inside of the last function: something is still open
            i = t.int(1, max(1, len(toks) - 4))
            q = b"".join(toks[:i])
            d = sum({b"{": 1, b"(": 1, b"[": 1, b"}": -1, b")": -1, b"]": -1}.get(x, 0) for x in toks[:i])
            return Src(q, False if d > 0 else None, k)
        if k == "bracket":
            w = [i for i, x in enumerate(toks) if x in (b"{", b"}", b"(", b")")]
            i = t.choice(w)
            if t.bool():
                x = toks.pop(i)
            else:
                x = t.choice([b"{", b"}", b"(", b")"])
                toks.insert(i, x)
            return Src(b"".join(toks), False, k, [x.decode()])
        # a malformed literal in place of a value
        bad = t.choice([b"'", b"''", b"'ab'", b"\"abc", b"'\\q'", b"'\\x'", b"'\xe7\x95'", b"'\xe7\x95\x8cx'", b"`", b"\\", b"99999999999999999999",
                        b"0xFFFFFFFFFFFFFFFFF", b"'a", b"/* a", b"\"\\"])
        if t.bool():
            # digits that are not of the base, or none at all
            base, ok, wrong = t.choice([(b"0b", b"01", b"23456789abz"), (b"0o", b"01234567", b"89abz"), (b"0x", b"0123456789abcdefABCDEF", b"ghzGZ")])
            ds = [bytes([t.choice(ok)]) for _ in range(t.int(0, 4))]
            if ds or t.bool():
                ds.insert(t.int(0, len(ds)), bytes([t.choice(wrong)]))
            bad = base + b"".join(ds)
        w = [i for i, x in enumerate(toks) if re.fullmatch(rb"\d+", x) and i > 0 and toks[i - 1] in (b" ", b"(") and
             (i + 1 == len(toks) or toks[i + 1] in (b";", b")", b",", b" "))]
        if not w:
            raise Bad()
        i = t.choice(w)
        toks[i] = bad
        return Src(b"".join(toks), False, k)

    def one(self, c):
        r = self.compile(c.src)
        if r.crash:
            return "crash (%s): %s" % (r.how(), r.text[-3000:])
        s = c.src.decode("latin1")
        ds = diag.parse(r.raw.decode("latin1"))
        errs = [d for d in ds if d.kind == "error"]
        if r.rc == 1 and not errs:
            return "silent: rejected without an error\n%s" % r.text[-1500:]
        if r.rc == 0 and errs:
            return "status: accepted with an error\n%s" % r.text[-1500:]
        for d in ds:
            m = diag.misplaced(d, s, "/m.cxy")
            if m:
                return "diagnostic: %r %s" % (d, m)
        if c.must is True and r.rc:
            return "rejected: a valid program\n%s" % r.text[:1500]
        if c.must is False and not r.rc:
            return "accepted: not a program"
        return None


if __name__ == "__main__":
    main(F01)
