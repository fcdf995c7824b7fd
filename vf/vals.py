"""Element types for the containers: values of C-xy types with their model.

A model value is a hashable Python value; objects (class A) are modelled by the
number of the object, their payload and identity kept in Objs."""


def lit64(c):
    return "(%s as i64)" % ("(%d)" % c if c < 0 else c)


class VT:
    """name: type; gen(t) -> model value; lit(v) -> expression; show(x) -> expression
    list to print value x; text(v) -> what that prints"""

    def __init__(self, name, gen, lit, show, text, num=None, eq=True):
        self.name, self.gen, self.lit, self.show, self.text, self.num, self.eq = name, gen, lit, show, text, num, eq


def _int(name, lo, hi):
    def lit(v):
        return "(%s as %s)" % ("(%d)" % v if v < 0 else v, name)
    return VT(name, lambda t: t.near0(lo, hi), lit, lambda x: [x], str, num=lambda x: "<i64>(%s)" % x)


WORDS = ["", "a", "b", "ab", "ba", "abc", "zed", "kilo", "x1", "Hi", "lorem", "0", "a b", "q" * 126 + "rs", "w" * 150]
q = lambda s: '"%s"' % s

I64 = _int("i64", -50, 60)
I32 = _int("i32", -50, 60)
U8 = _int("u8", 0, 250)
U16 = _int("u16", 0, 400)
U64 = _int("u64", 0, 400)
I8 = _int("i8", -50, 60)
BOOL = VT("bool", lambda t: t.bool(), lambda v: "true" if v else "false", lambda x: [x], lambda v: "true" if v else "false")
F64 = VT("f64", lambda t: t.int(-8, 40) / 4, lambda v: "(%s as f64)" % ("(%s)" % v if v < 0 else v), lambda x: [x], lambda v: "%g" % v)
STR = VT("string", lambda t: t.choice(WORDS), q, lambda x: [x], str)
STRING = VT("String", lambda t: t.choice(WORDS), lambda v: q(v) + ".S", lambda x: [x], str)
PQ = VT("Q", lambda t: (t.near0(-20, 30), t.choice(WORDS)), lambda v: "Q{a: %s, b: %s}" % (lit64(v[0]), q(v[1])),
        lambda x: [x + ".a", '"/"', x + ".b"], lambda v: "%d/%s" % v)
TUP = VT("(i64, string)", lambda t: (t.near0(-20, 30), t.choice(WORDS)), lambda v: "(%s, %s)" % (lit64(v[0]), q(v[1])),
         lambda x: [x + ".0", '"/"', x + ".1"], lambda v: "%d/%s" % v, eq=False)


class Obj:
    """an instance of class A"""

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return self.id == o.id

    def __hash__(self):
        return hash(self.id)

    def __lt__(self, o):
        return self.id < o.id


OBJ = VT("A", lambda t: Obj(t.int(0, 30)), lambda v: "A(%d)" % v.id, lambda x: [x + ".id"], lambda v: str(v.id))

PRELUDE = """
var live = 0 as i64;
class A { id: i64; func `init`(id: i64) { this.id = id; live++; } func `deinit`() { live--; } const func `==`(o: &const A) => id == o.id }
struct Q { a: i64; b: string; const func `==`(o: &const Q) => a == o.a && b == o.b const func `hash`() => hash_fnv1a_string(<u32>a, b) }
"""
