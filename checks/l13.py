"""L13: a program split over modules: every name is the declaration it stands
for, private declarations stay private, modules are initialised once."""
import sys, os, re, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.cxyrun import CxyCheck, CxyCase, main, run, setarch
from vf.engine import Bad
from concurrent.futures import ThreadPoolExecutor

POOL = ["K", "L", "fa", "fb", "go", "Pt", "Cx", "En", "mk", "hid", "val", "nx", "Ex", "st"]
ALIAS = ["aa", "bb", "lib", "xx", "K", "fa", "val"]
WORDS = ["a", "bc", "xyz", "q", "hello"]
DIRS = ["", "", "d/", "d/e/", "f/"]
LIM = 1 << 40


def chk(v):
    if abs(v) > LIM:
        raise Bad()
    return v


class Decl:
    def __init__(self, kind, name, pub, mod, **k):
        self.kind, self.name, self.pub, self.mod = kind, name, pub, mod
        self.__dict__.update(k)


class Ref:
    """how a module names a declaration: text, and the first name in it"""

    def __init__(self, text, d):
        self.text, self.d, self.base = text, d, text.split(".")[0]


class Mod:
    def __init__(self, name, path, root=False):
        self.name, self.path, self.root = name, path, root
        self.imports, self.decls, self.texts, self.refs, self.scope = [], [], [], [], set()
        self.deps, self.aliases, self.seq = [], {}, []
        self.show = None

    def text(self):
        head = [] if self.root else ["module %s\n" % self.name]
        return "\n".join(head + self.imports + self.texts) + "\n"


class Gen:
    def __init__(self, t):
        self.t, self.st, self.cl, self.n = t, {}, set(), 0
        self.inits = []
        self.uses = 0

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- projects
    def project(self, nmods=None, small=False):
        t = self.t
        n = nmods or t.weighted([(3, 1), (4, 2), (3, 3), (2, 4)])
        self.small = small
        self.mods = []
        for i in range(n):
            m = Mod("m%s§" % "abcde"[i], "c§/%sx%s.cxy" % (t.choice(DIRS), "abcde"[i]))
            last = i == n - 1
            deps = [x for x in self.mods if t.bool(1, 2)]
            if self.mods and not deps and (last or t.bool()):
                deps = [t.choice(self.mods)]
            self.build(m, deps)
        root = Mod("", "main.cxy", True)
        unused = [x for x in self.mods if not any(x in y.deps for y in self.mods)]
        deps = [x for x in self.mods if x in unused or t.bool(1, 2)]
        # everything a module shows is printed from the main file
        self.build(root, deps)
        self.root = root

    def path(self, m, x):
        """a path that leads from m's folder to x"""
        base = os.path.dirname(m.path)
        p = "./" + os.path.relpath(x.path, base or ".")
        if self.t.bool(1, 8) and base:
            p = "./../%s/%s" % (os.path.basename(base), p[2:])
            self.cl.add("path spelled differently")
        return p

    def own(self, m, name):
        return name + "§" if m.root else name

    def free(self, m, pool, sfx=True):
        t = self.t
        for _ in range(12):
            n = t.choice(pool)
            if sfx:
                n = self.own(m, n)
            if n not in m.scope:
                return n
        raise Bad()

    def build(self, m, deps):
        t = self.t
        m.deps = deps
        for x in deps:
            self.imports(m, x)
        m.imports = t.shuffle(m.imports) if t.bool() else m.imports
        if len(deps) > 1:
            self.cl.add("several imports")
        k = t.int(1, 4) if self.small else t.int(2, 7) if not m.root else t.int(0, 3)
        ordered, loose = [], []
        for _ in range(k):
            self.decl(m, ordered, loose)
        body, steps = self.block(m, t.int(1, 3) if not m.root else t.int(2, 5), root=m.root)
        if m.root:
            pre, fs = [], []
            for x in deps:
                if x in m.aliases and t.bool(3, 4):
                    pre.append("%s.show();" % m.aliases[x])
                    fs.append(x.show)
            m.body = pre + body
            fs += steps
            m.show = lambda out, fs=fs: [f(out) for f in fs]
        else:
            for x in deps:
                if x in m.aliases and t.bool(1, 3):
                    body.append("%s.show();" % m.aliases[x])
                    steps.append(x.show)
            m.show = lambda out, fs=steps: [f(out) for f in fs]
            loose.append("pub func show() {\n  %s\n}" % "\n  ".join(body))
        # declarations may come in any order, except the initialised variables
        if t.bool(1, 3):
            m.texts = ordered + t.shuffle(loose)
            self.cl.add("declarations out of order")
        else:
            m.texts = m.seq
            if not m.root:
                m.texts = m.texts + [loose[-1]]
        if not m.root:
            self.mods.append(m)

    def imports(self, m, x):
        t = self.t
        p = self.path(m, x)
        pubs = [d for d in x.decls if d.pub]
        forms = []
        if t.bool(2, 3) or not pubs:
            forms.append("alias")
        if pubs and (t.bool(2, 3) or not forms):
            forms.append("names")
        if t.bool(1, 8):
            forms.append("names" if pubs else "alias")
        for f in forms:
            self.cl.add("import by " + f)
            if f == "alias":
                if t.bool(1, 3) and x.name not in m.scope:
                    al = x.name
                    m.imports.append('import "%s"' % p)
                else:
                    al = self.free(m, ALIAS)
                    m.imports.append('import "%s" as %s' % (p, al))
                m.scope.add(al)
                m.aliases[x] = al
                m.refs += [Ref("%s.%s" % (al, d.name), d) for d in pubs if d.kind != "macro"]
            else:
                k = t.int(1, min(4, len(pubs)))
                sel = t.shuffle(pubs)[:k]
                L = []
                for d in sel:
                    n = d.name
                    if m.root or n in m.scope or t.bool(1, 3):
                        n = self.free(m, POOL)
                    if n in m.scope:
                        continue
                    m.scope.add(n)
                    L.append(d.name if n == d.name else "%s as %s" % (d.name, n))
                    if n != d.name:
                        self.cl.add("renamed import")
                    m.refs.append(Ref(n, d))
                if len(L) == 1 and " as " not in L[0] and t.bool():
                    m.imports.append('import %s from "%s"' % (L[0], p))
                elif L:
                    m.imports.append('import { %s } from "%s"' % (", ".join(L), p))

    # ---- expressions (text, fn(locals), definitely an i64)
    def pick(self, m, kinds, hide=()):
        c = [r for r in m.refs if r.d.kind in kinds and r.base not in hide]
        return self.t.choice(c) if c else None

    def used(self, m, r):
        if r.d.mod is not m:
            self.uses += 1

    def expr(self, m, depth=2, hide=(), loc=(), pure=False, const=False):
        t = self.t
        kinds = ["const"] if const else ["const", "func", "func", "enum", "struct", "gfunc", "gstruct", "sfun", "app"] + ([] if pure else ["var", "var", "svar", "svar"])
        k = t.below(10)
        if depth <= 0 or k < 2:
            return self.leaf(m, hide, loc, const, pure)
        if k < 5:
            a, b = (self.expr(m, depth - 1, hide, loc, pure, const) for _ in range(2))
            if t.bool(1, 4) and a[2]:
                c = t.int(2, 4)
                return "(%s) * %d" % (a[0], c), lambda L: chk(a[1](L) * c), a[2]
            if t.bool():
                return "%s + %s" % (a[0], b[0]), lambda L: chk(a[1](L) + b[1](L)), a[2] or b[2]
            return "%s - (%s)" % (a[0], b[0]), lambda L: chk(a[1](L) - b[1](L)), a[2] or b[2]
        r = self.pick(m, kinds, hide)
        if not r:
            return self.leaf(m, hide, loc, const, pure)
        d, x = r.d, r.text
        sub = lambda: self.expr(m, depth - 1, hide, loc, pure, const)
        if pure and d.kind in ("struct", "sfun", "gstruct") or pure == "init" and d.kind == "gfunc":
            return self.leaf(m, hide, loc, const, pure)
        if d.kind == "func" and pure and d.reads or pure and (d.kind == "app" or d.kind == "struct" and d.init):
            return self.leaf(m, hide, loc, const, pure)
        self.used(m, r)
        if d.kind in ("const", "var"):
            return x, d.get, True
        if d.kind == "enum":
            n, v = t.choice(d.members)
            return "(%s.%s as i64)" % (x, n), lambda L: v, True
        if d.kind == "func":
            if d.over and t.bool(1, 3):
                w = t.choice(WORDS)
                return '%s("%s")' % (x, w), lambda L: d.over({}), True
            args = [sub()]
            while len(args) < d.nargs and (len(args) < d.need or pure or t.bool()):
                args.append(sub())
            if len(args) < d.nargs:
                self.cl.add("default argument")
            return "%s(%s)" % (x, ", ".join(a[0] for a in args)), lambda L: d.call([a[1](L) for a in args]), True
        if d.kind == "gfunc":
            self.cl.add("generic")
            a = sub()
            ty, v = t.choice([("i32", "3`i32"), ("string", '"s"'), ("bool", "true"), ("i64", "7`i64")])
            return "%s%s(%s, %s)" % (x, "[%s]" % ty if t.bool() else "", v, a[0]), lambda L: d.call([a[1](L)]), True
        if d.kind == "gstruct":
            self.cl.add("generic")
            ty, v = t.choice([("i32", "3`i32"), ("string", '"s"'), ("bool", "true"), ("i64", "7`i64")])
            return "%s[%s]{v: %s}.both()" % (x, ty, v), lambda L: d.call([]), True
        if d.kind == "macro":
            a = self.leaf(m, hide, loc, const, pure)
            return "%s!(%s)" % (x, a[0]), lambda L: chk(d.call(a[1](L))), a[2]
        if d.kind == "struct":
            txt, f = self.slit(m, r, sub)
            if d.meth and t.bool(2, 3):
                q = sub() if t.bool() else None
                if not q:
                    self.cl.add("default argument")
                return "%s.%s(%s)" % (txt, d.meth, q[0] if q else ""), lambda L: d.mcall(f(L), q[1](L) if q else None), True
            fl = t.choice(d.fields)
            return "%s.%s" % (txt, fl), lambda L: f(L)[fl], True
        if d.kind == "svar":
            fl = t.choice(d.s.fields)
            return "%s.%s" % (x, fl), lambda L: self.st[d.key][fl], True
        if d.kind == "sfun":
            # func mk(a): S
            a = sub()
            fl = t.choice(d.s.fields)
            return "%s(%s).%s" % (x, a[0], fl), lambda L: d.call([a[1](L)])[fl], True
        if d.kind == "app":
            a, z = sub(), self.fresh("z")
            b = self.leaf(m, set(hide) | {z}, (z,), const)
            if "(z" in a[0]:
                raise Bad()
            return "%s(%s, (%s: i64) => %s + %s)" % (x, a[0], z, z, b[0]), lambda L: d.call([a[1](L), lambda v: v + b[1]({z: v})]), True
        raise AssertionError(d.kind)

    def slit(self, m, r, sub):
        """an object of a struct: text, fn(locals) -> dict"""
        d, t = r.d, self.t
        if d.init:
            a = sub()
            return "%s(%s)" % (r.text, a[0]), lambda L: d.init(a[1](L))
        given = {f: sub() for f in d.fields if d.defaults[f] is None or t.bool()}
        if len(given) < len(d.fields):
            self.cl.add("default of a field")
        return "%s{%s}" % (r.text, ", ".join("%s: %s" % (f, a[0]) for f, a in given.items())), \
            lambda L: {f: given[f][1](L) if f in given else d.defaults[f]({}) for f in d.fields}

    def leaf(self, m, hide, loc, const, pure=False):
        t = self.t
        if loc and t.bool():
            n = t.choice(list(loc))
            return n, lambda L: L[n], True
        r = self.pick(m, ["const"] + ([] if const or pure else ["var"]), hide)
        if r and t.bool(2, 3):
            self.used(m, r)
            return r.text, r.d.get, True
        v = t.int(0, 9)
        return str(v), lambda L: v, False

    def i64(self, *a, **k):
        """an expression whose type is i64"""
        e = self.expr(*a, **k)
        return e if e[2] else ("((%s) as i64)" % e[0], e[1], True)

    # ---- declarations
    def decl(self, m, ordered, loose):
        t = self.t
        kind = t.weighted([(4, "const"), (3, "var"), (5, "func"), (3, "struct"), (2, "class"), (2, "enum"), (2, "union"), (2, "gfunc"), (2, "gstruct"), (1, "gcall"), (2, "svar"),
                           (2, "exc"), (2, "bump"), (2, "sfun"), (1, "app"), (1, "derived"), (1, "sconst")])
        if kind == "derived" and not self.pick(m, ["class"]) or kind == "bump" and not self.pick(m, ["var"]) or kind == "sfun" and not self.pick(m, ["struct"]):
            kind = t.choice(["const", "func"])
        if kind == "svar" and not [r for r in m.refs if r.d.kind == "struct" and not r.d.init]:
            kind = "struct"
        pub = t.bool(2, 3)
        n = None
        if kind in ("class", "derived", "struct", "enum", "gstruct") and t.bool():
            # the name of such a type of another module
            c = sorted({d.name for x in self.mods for d in x.decls if d.kind == {"derived": "class"}.get(kind, kind) and self.own(m, d.name) not in m.scope})
            n = self.own(m, t.choice(c)) if c else None
            pub = pub or n is not None
        n = n or self.free(m, POOL)
        P = "pub " if pub and (not m.root or t.bool()) else ""
        d = Decl(kind, n, pub, m)
        text = getattr(self, "d_" + kind)(m, d)
        m.scope.add(n)
        m.decls.append(d)
        m.refs.append(Ref(n, d))
        self.cl.add(kind)
        text = "\n".join((P if i == 0 or kind == "func" else "") + s for i, s in enumerate(text))
        (ordered if kind in ("const", "var", "svar", "sconst", "macro") else loose).append(text)
        m.seq.append(text)
        # exceptions come with a function that raises them
        if kind == "exc":
            r = m.refs[-1]
            n = self.free(m, POOL)
            f = Decl("raiser", n, True, m)
            e = self.i64(m, 1, {"p"}, ("p",))
            lim = t.int(0, 9)
            f.call = lambda a, e=e, lim=lim: None if a > lim else e[1]({"p": a})
            tx = "pub func %s(p: i64): !i64 { if (p > %d) raise %s(); return %s; }" % (n, lim, r.text, e[0])
            m.scope.add(n)
            m.decls.append(f)
            m.refs.append(Ref(n, f))
            loose.append(tx)
            m.seq.append(tx)

    def d_const(self, m, d):
        e = self.i64(m, 2, const=True)
        v = e[1]({})
        d.get = lambda L: v
        return ["const %s%s = %s;" % (d.name, self.t.choice([": i64", ""]), e[0])]

    def d_sconst(self, m, d):
        d.word = self.t.choice(WORDS) + self.t.choice(WORDS)
        return ['const %s = "%s";' % (d.name, d.word)]

    def d_var(self, m, d):
        e = self.i64(m, 2, pure="init")
        key = (m.path, d.name)
        d.key = key
        d.get = lambda L: self.st[key]
        # initialised in order of dependency, before anything runs
        self.inits.append(lambda: self.st.__setitem__(key, e[1]({})))
        return ["var %s: i64 = %s;" % (d.name, e[0])]

    def d_svar(self, m, d):
        """a variable that holds a struct"""
        r = self.t.choice([r for r in m.refs if r.d.kind == "struct" and not r.d.init])
        self.used(m, r)
        txt, f = self.slit(m, r, lambda: self.i64(m, 1, pure="init"))
        d.s, d.key = r.d, (m.path, d.name)
        self.inits.append(lambda: self.st.__setitem__(d.key, dict(f({}))))
        return ["var %s%s = %s;" % (d.name, self.t.choice(["", ": " + r.text]), txt)]

    def params(self, m):
        """names of parameters: some hide a name of the module"""
        t = self.t
        if t.bool(1, 5) and not m.root:
            self.cl.add("parameter hides a name")
            return t.choice(POOL)
        return "p"

    def d_func(self, m, d):
        t = self.t
        p = self.params(m)
        q = "q"
        d.nargs = t.int(1, 2)
        d.need = 1
        pure = t.bool(1, 2)
        dv = None
        ps = "%s: i64" % p
        if d.nargs == 2:
            if t.bool(2, 3):
                dv = self.expr(m, 1, {p, q}, pure=True)
                ps += ", %s: i64 = %s" % (q, dv[0])
            else:
                ps += ", %s: i64" % q
                d.need = 2
        elif t.bool(1, 3):
            dv = self.expr(m, 1, {p, q}, pure=True)
            ps = "%s: i64 = %s" % (p, dv[0])
            d.need = 0
        loc = (p, q)[:d.nargs]
        hide = {p, q, d.name}
        e = self.i64(m, 2, hide, loc, pure=pure)
        d.reads = not pure

        def call(args):
            L = dict(zip((p, q), args))
            if len(args) < d.nargs:
                L[(p, q)[d.nargs - 1]] = dv[1]({})
            return e[1](L)
        d.call = call
        ty = t.choice([": i64", ""])
        out = ["func %s(%s)%s => %s;" % (d.name, ps, ty, e[0]) if t.bool() else "func %s(%s)%s { return %s; }" % (d.name, ps, ty, e[0])]
        d.over = None
        if t.bool(1, 4) and d.need:
            e2 = self.i64(m, 1, {"s", d.name}, pure=pure)
            d.over = e2[1]
            out.append("func %s(s: string): i64 => %s;" % (d.name, e2[0]))
            self.cl.add("overloaded")
        return out

    def d_gfunc(self, m, d):
        p = self.params(m)
        T = self.t.choice(["T", "U"])
        e = self.i64(m, 2, {p, "x", T, d.name}, (p,))
        d.call = lambda a: e[1]({p: a[0]})
        return ["func %s[%s](x: %s, %s: i64)%s => %s;" % (d.name, T, T, p, self.t.choice([": i64", ""]), e[0])]

    def d_gcall(self, m, d):
        T = self.t.choice(["T", "U"])
        e = self.i64(m, 1, {"x", T, d.name})
        d.call = lambda v: chk(v + e[1]({}))
        return ["func %s[%s](x: %s): i64 => x.get() + %s;" % (d.name, T, T, e[0])]

    def generics(self, m, ty, v, get=None):
        """generic declarations instantiated over a type of the project: texts, steps fn(object, out)"""
        t, L, st = self.t, [], []
        while t.bool(1, 3) and len(L) < 3:
            r = self.pick(m, ["gfunc", "gstruct"] + (["gcall"] * 3 if get else []))
            if not r:
                break
            self.used(m, r)
            self.cl.add("generic over a type of the project")
            g = r.d
            targ = "[%s]" % ty
            if g.kind == "gstruct":
                L.append("println(%s%s{v: %s}.both());" % (r.text, targ, v))
                st.append(lambda o, out, g=g: out.append(str(g.call([]))))
            elif g.kind == "gcall":
                L.append("println(%s%s(%s));" % (r.text, targ if t.bool() else "", v))
                st.append(lambda o, out, g=g: out.append(str(g.call(get(o)))))
            else:
                a = self.expr(m, 1)
                L.append("println(%s%s(%s, %s));" % (r.text, targ if t.bool() else "", v, a[0]))
                st.append(lambda o, out, g=g, a=a: out.append(str(g.call([a[1]({})]))))
        return L, st

    def d_gstruct(self, m, d):
        e = self.i64(m, 2, {"v", "both", d.name})
        d.call = lambda a: e[1]({})
        return ["struct %s[T] { v: T; const func both(): i64 => %s; }" % (d.name, e[0])]

    def d_macro(self, m, d):
        c = self.t.int(2, 5)
        d.call = lambda v: v * c
        return ["macro %s(X) =((X!) * %d)" % (d.name, c)]

    def d_enum(self, m, d):
        t = self.t
        names = t.shuffle(["A", "B", "K", "hid", "fa"])[:t.int(2, 4)]
        v, L, d.members = -1, [], []
        for n in names:
            if t.bool(1, 3):
                v += t.int(1, 5)
                L.append("%s = %d" % (n, v))
            else:
                v += 1
                L.append(n)
            d.members.append((n, v))
        return ["enum %s { %s }" % (d.name, ", ".join(L))]

    def d_union(self, m, d):
        t = self.t
        d.members = t.shuffle([("i64", lambda: str(t.int(0, 99)) + "`i64"), ("string", lambda: '"%s"' % t.choice(WORDS)), ("bool", lambda: t.choice(["true", "false"]))])[:t.int(2, 3)]
        return ["type %s = %s;" % (d.name, " | ".join(x for x, _ in d.members))]

    def d_struct(self, m, d):
        t = self.t
        d.fields = t.shuffle(["a", "b", "K", "hid"])[:t.int(1, 3)]
        d.meth = t.choice([None, "m", "m", "fa"])
        hide = set(d.fields) | {d.meth, d.name}
        d.defaults, L = {}, []
        for f in d.fields:
            e = self.expr(m, 1, hide, pure=True) if t.bool(2, 3) else None
            d.defaults[f] = e and e[1]
            L.append("%s: i64%s;" % (f, " = " + e[0] if e else ""))
        d.init = None
        if t.bool(1, 4):
            e = self.i64(m, 1, hide | {"p"}, ("p",))
            f0 = d.fields[0]
            others = [f for f in d.fields if f != f0]
            L.append("func `init`(p: i64) { this.%s = %s; %s}" % (f0, e[0], "".join("this.%s = 1; " % f for f in others)))
            i = e[1]
            d.init = lambda a: {f: i({"p": a}) if f == f0 else 1 for f in d.fields}
            self.cl.add("struct constructor")
        if d.meth:
            dv = self.expr(m, 1, hide | {"p"}, pure=True)
            e = self.i64(m, 2, hide | {"p"}, ("p", *d.fields))
            L.append("const func %s(p: i64 = %s): i64 => %s;" % (d.meth, dv[0], e[0]))
            d.mcall = lambda o, a: e[1]({**o, "p": dv[1]({}) if a is None else a})
        d.str = None
        if t.bool(1, 4):
            d.str = t.choice(WORDS)
            L.append('const func `str`(os: &OutputStream) { os << "<%s " << %s << ">"; }' % (d.str, d.fields[0]))
        return ["struct %s { %s }" % (d.name, " ".join(L))]

    def fmt(self, d, o):
        if d.str:
            return "<%s %d>" % (d.str, o[d.fields[0]])
        return "%s{%s}" % (d.name, ", ".join("%s: %d" % (f, o[f]) for f in d.fields))

    def d_sfun(self, m, d):
        r = self.pick(m, ["struct"])
        self.used(m, r)
        s = d.s = r.d
        txt, f = self.slit(m, r, lambda: self.expr(m, 1, {"p", d.name}, ("p",)))
        d.call = lambda a: f({"p": a[0]})
        return ["func %s(p: i64)%s => %s;" % (d.name, self.t.choice(["", ": " + r.text]), txt)]

    def d_app(self, m, d):
        e = self.i64(m, 1, {"p", "f", d.name})
        d.call = lambda a: chk(a[1](a[0]) + e[1]({}))
        return ["func %s(p: i64, f: func(p: i64) -> i64): i64 => f(p) + %s;" % (d.name, e[0])]

    def d_bump(self, m, d):
        t = self.t
        r = self.pick(m, ["var"])
        self.used(m, r)
        dv = self.expr(m, 1, {"p"}, pure=True)
        op = t.choice(["=", "+="])
        key = r.d.key

        def call(a):
            self.st[key] = chk(self.st[key] + (dv[1]({}) if a is None else a))
            return self.st[key]
        d.call = call
        return ["func %s(p: i64 = %s): i64 { %s; return %s; }" % (d.name, dv[0], "%s = %s + p" % (r.text, r.text) if op == "=" else "%s += p" % r.text, r.text)]

    def d_exc(self, m, d):
        d.msg = self.t.choice(WORDS)
        return ['exception %s() => "%s"' % (d.name, d.msg)]

    def d_class(self, m, d):
        hide = {"v", "w", "get", "n2", d.name, "p"}
        e = self.expr(m, 1, hide, pure=True)
        g = self.i64(m, 1, hide, ("v", "w"))
        n = self.i64(m, 1, hide, ("v",))
        dv = self.expr(m, 1, hide, pure=True)
        d.cinit = lambda a: {"w": e[1]({}), "v": dv[1]({}) if a is None else a}
        d.get, d.n2, d.hide = (lambda o: g[1](o)), (lambda o: chk(n[1](o) + o["$c"].get(o))), hide
        d.root = d
        return ["class %s { v: i64; w: i64 = %s; func `init`(p: i64 = %s) { this.v = p; } virtual func get(): i64 => %s; func n2(): i64 => %s + this.get(); }"
                % (d.name, e[0], dv[0], g[0], n[0])]

    def d_derived(self, m, d):
        r = self.pick(m, ["class"])
        self.used(m, r)
        b = r.d
        hide = {"v", "w", "get", "n2", d.name, "p", "y"}
        a = self.expr(m, 1, hide, ("p",))
        d.root = b.root
        d.kind = "class"
        d.base = b
        if self.t.bool(3, 4):
            g = self.i64(m, 1, hide)
            s = self.t.bool()
            d.get = lambda o: chk(g[1](o) + (b.get(o) if s else o["v"]))
            over = "func get(): i64 => %s + %s;" % (g[0], "super.get()" if s else "this.v")
        else:
            d.get, over = b.get, ""
        d.n2 = b.n2
        d.cinit = lambda p: b.cinit(a[1]({"p": 2 if p is None else p}))
        return ["class %s : %s { func `init`(p: i64 = 2) { super(%s); } %s }" % (d.name, r.text, a[0], over)]

    # ---- statements: texts and steps fn(out)
    def block(self, m, k, root=False):
        t = self.t
        L, steps = [], []
        for _ in range(k):
            s = t.weighted([(4, "print"), (2, "var"), (2, "bump"), (3, "struct"), (2, "class"), (2, "enum"), (2, "union"), (2, "exc"), (1, "sconst"), (5, "twins"), (2, "svar")])
            kinds = {"print": None, "twins": None, "struct": ["struct", "sfun"], "exc": ["raiser"]}.get(s, [s])
            r = self.pick(m, kinds) if kinds else None
            if kinds and not r:
                s = "print"
            if r:
                self.used(m, r)
            a, f = getattr(self, "s_" + s)(m, r)
            L += a
            steps.append(f)
        return L, steps

    def s_twins(self, m, r):
        """a generic declaration over equally named types of two modules"""
        t = self.t
        c = [(a, b) for i, a in enumerate(m.refs) for b in m.refs[:i] if a.d.kind in ("class", "struct", "enum") and a.d.kind == b.d.kind and a.d.name == b.d.name and a.d is not b.d]
        gs = [r for r in m.refs if r.d.kind in ("gfunc", "gstruct", "gcall")]
        if not c or not gs:
            return self.s_print(m, r)
        self.cl.add("generic over equally named types")
        ab, g = t.choice(c), t.choice(gs)
        if g.d.kind == "gcall" and ab[0].d.kind != "class":
            return self.s_print(m, r)
        self.used(m, g)
        L, st = [], []
        for x in ab:
            d, v = x.d, self.fresh("v")
            self.used(m, x)
            if d.kind == "enum":
                L.append("var %s = %s.%s;" % (v, x.text, d.members[0][0]))
                f = lambda L: None
            elif d.kind == "struct":
                txt, f = self.slit(m, x, lambda: self.leaf(m, (), (), False))
                L.append("var %s = %s;" % (v, txt))
            else:
                L.append("var %s = %s();" % (v, x.text))
                f = lambda L, d=d: {**d.cinit(None), "$c": d}
            if g.d.kind == "gstruct":
                L.append("println(%s[%s]{v: %s}.both());" % (g.text, x.text, v))
                h = lambda o: g.d.call([])
            elif g.d.kind == "gcall":
                L.append("println(%s[%s](%s));" % (g.text, x.text, v))
                h = lambda o, d=d: g.d.call(d.get(o))
            else:
                L.append("println(%s(%s, 1));" % (g.text, v))
                h = lambda o: g.d.call([1])
            st.append((f, h))
        return L, lambda out: [out.append(str(h(f({})))) for f, h in st]

    def s_print(self, m, r):
        es = [self.expr(m, 2) for _ in range(self.t.int(1, 3))]
        return ["println(%s);" % ', " ", '.join(e[0] for e in es)], lambda out: out.append(" ".join(str(e[1]({})) for e in es))

    def s_sconst(self, m, r):
        return ["println(%s);" % r.text], lambda out: out.append(r.d.word)

    def s_var(self, m, r):
        e = self.i64(m, 2)
        key = r.d.key
        op = self.t.choice(["=", "=", "+=", "-="])

        def f(out):
            v = e[1]({})
            self.st[key] = chk({"=": v, "+=": self.st[key] + v, "-=": self.st[key] - v}[op])
            out.append(str(self.st[key]))
        return ["%s %s %s;" % (r.text, op, e[0]), "println(%s);" % r.text], f

    def s_svar(self, m, r):
        e, fl = self.i64(m, 2), self.t.choice(r.d.s.fields)
        v = self.fresh("v")

        def f(out):
            self.st[r.d.key][fl] = e[1]({})
            out.append(" ".join(str(self.st[r.d.key][x]) for x in r.d.s.fields))
        return ["%s.%s = %s;" % (r.text, fl, e[0]), "var %s = %s;" % (v, r.text), 'println(%s);' % ', " ", '.join("%s.%s" % (v, x) for x in r.d.s.fields)], f

    def s_bump(self, m, r):
        a = self.i64(m, 1) if self.t.bool() else None
        v = self.fresh("v")
        return ["var %s = %s(%s);" % (v, r.text, a[0] if a else ""), "println(%s);" % v], lambda out: out.append(str(r.d.call(a[1]({}) if a else None)))

    def s_struct(self, m, r):
        t = self.t
        v = self.fresh("v")
        if r.d.kind == "struct":
            d = r.d
            txt, f = self.slit(m, r, lambda: self.expr(m, 1))
            ann = ": " + r.text if t.bool(1, 3) else ""
        else:
            d = r.d.s
            a = self.expr(m, 1)
            txt, f, ann = "%s(%s)" % (r.text, a[0]), (lambda L: r.d.call([a[1](L)])), ""
        L = ["var %s%s = %s;" % (v, ann, txt)]
        st = []
        if t.bool(1, 3):
            fl, e = t.choice(d.fields), self.i64(m, 1)
            L.append("%s.%s = %s;" % (v, fl, e[0]))
            st.append(lambda o, out: o.__setitem__(fl, e[1]({})))
        if d.meth and t.bool():
            q = self.expr(m, 1) if t.bool() else None
            L.append("println(%s.%s(%s));" % (v, d.meth, q[0] if q else ""))
            st.append(lambda o, out: out.append(str(d.mcall(o, q[1]({}) if q else None))))
        if (d.str or not d.mod.root) and t.bool():
            L.append("println(%s);" % v)
            st.append(lambda o, out: out.append(self.fmt(d, o)))
        else:
            L.append('println(%s);' % ', " ", '.join("%s.%s" % (v, x) for x in d.fields))
            st.append(lambda o, out: out.append(" ".join(str(o[x]) for x in d.fields)))

        if r.d.kind == "struct":
            gl, gs = self.generics(m, r.text, v)
            L += gl
            st += gs

        def step(out):
            o = dict(f({}))
            for s in st:
                s(o, out)
        return L, step

    def s_class(self, m, r):
        t = self.t
        v, d = self.fresh("v"), r.d
        a = self.expr(m, 1) if t.bool() else None
        ann = ""
        if t.bool(1, 2):
            b = [x for x in m.refs if x.d.kind == "class" and (x.d is d or x.d is getattr(d, "base", None))]
            if b:
                b = t.choice(b)
                ann = ": " + b.text
                if b.d is not d:
                    self.cl.add("object of a derived class as its base")

        def step(out):
            o = dict(d.cinit(a[1]({}) if a else None))
            o["$c"] = d
            out.append("%d %d" % (d.get(o), d.n2(o)))
            for s in gs:
                s(o, out)
        gl, gs = self.generics(m, ann[2:] or r.text, v, d.get)
        return ["var %s%s = %s(%s);" % (v, ann, r.text, a[0] if a else ""), 'println(%s.get(), " ", %s.n2());' % (v, v)] + gl, step

    def s_enum(self, m, r):
        t = self.t
        d, v = r.d, self.fresh("v")
        n, val = t.choice(d.members)
        w = t.choice(d.members)
        L = ["var %s = %s.%s;" % (v, r.text, n)]
        o = [str(val), "true" if w[0] == n else "false"]
        L.append('println(%s as i64, " ", %s == %s.%s);' % (v, v, r.text, w[0]))
        out = [" ".join(o)]
        gl, gs = self.generics(m, r.text, v)
        if t.bool():
            L.append('switch (%s) { case %s.%s => println("is"); default => println("other"); }' % (v, r.text, w[0]))
            out.append("is" if w[0] == n else "other")
        if not d.mod.root and t.bool():
            L.append("println(%s);" % v)
            out.append("%s.%s" % (d.name, n))
        return L + gl, lambda o: (o.extend(out), [f(None, o) for f in gs])

    def s_union(self, m, r):
        t = self.t
        v = self.fresh("v")
        ty, g = t.choice(r.d.members)
        x = g()
        arms = []
        for ty2, _ in t.shuffle(r.d.members):
            arms.append('case %s as y => println("%s ", y);' % (ty2, ty2))
        return ["var %s: %s = %s;" % (v, r.text, x), "match (%s) { %s }" % (v, " ".join(arms))], \
            lambda out: out.append("%s %s" % (ty, x.split("`")[0].strip('"')))

    def s_exc(self, m, r):
        v = self.fresh("v")
        a = self.expr(m, 1)

        def step(out):
            x = r.d.call(a[1]({}))
            if x is None:
                out.append("caught")
                x = -1
            out.append(str(x))
        return ['var %s = %s(%s) catch { println("caught"); yield ((-1) as i64); };' % (v, r.text, a[0]), "println(%s);" % v], step


class Neg(CxyCase):
    pass


class L13(CxyCheck):
    prop = "L13"
    quick_cases = 5000
    batch = 25
    rule = ("the declarations of at least one module are used from another file at least twice (for rejected programs: always); distinct by the texts of all files")

    def gen(self, t):
        if t.bool(1, 4):
            return self.gen_neg(t)
        g = Gen(t)
        g.project()
        for f in g.inits:
            f()
        out = []
        g.root.show(out)
        imps, decls = g.root.imports, "\n".join(g.root.texts)
        return CxyCase(g.root.body, out + [""], decls=decls, imports=imps, files={m.path: m.text() for m in g.mods},
                       nontrivial=g.uses >= 2, classes=sorted(g.cl) + ["%d modules" % len(g.mods)])

    # ---- programs that must be rejected
    def gen_neg(self, t):
        g = Gen(t)
        g.project(t.int(1, 3), small=True)
        allm = g.mods + [g.root]
        m = t.choice([x for x in allm if x.deps] or [g.root])
        if not m.deps:
            raise Bad()
        x = t.choice(m.deps)
        p = g.path(m, x)
        z = "zz§"
        priv = [d for d in x.decls if not d.pub]
        pubs = [d for d in x.decls if d.pub]
        kind = t.choice(["private name", "private qualified", "unknown name", "unknown qualified", "missing file", "hidden", "hidden", "original name", "transitive", "cycle",
                         "twice", "constant", "other module"])
        imp, body, decl = [], [], ""
        deep = [y for y in x.deps if y not in m.deps]
        known = m.scope | {d.name for d in m.decls}
        qual = lambda d, q: {"func": ["println(%s(%s));" % (q, ", ".join(["1`i64"] * d.nargs))] if d.kind == "func" else 0, "const": ["println(%s);" % q], "var": ["println(%s);" % q],
                             "sconst": ["println(%s);" % q], "enum": ["println(%s.%s as i64);" % (q, d.members[0][0])] if d.kind == "enum" else 0,
                             "gfunc": ["println(%s(true, 1));" % q], "bump": ["%s(1);" % q], "sfun": ["println(%s(1).%s);" % (q, d.s.fields[0])] if d.kind == "sfun" else 0,
                             "gstruct": ["println(%s[i32]{v: 1`i32}.v);" % q], "class": ["var k = %s(1);" % q],
                             "struct": (["println(%s(1).%s);" % (q, d.fields[0])] if d.init else ["println(%s{%s}.%s);" % (q, ", ".join("%s: 1" % f for f in d.fields), d.fields[0])]) if d.kind == "struct" else 0,
                             "union": ["var k: %s = %s;" % (q, {"i64": "1`i64", "string": '"s"', "bool": "true"}[d.members[0][0]])] if d.kind == "union" else 0}.get(d.kind)
        if kind == "private name" and priv:
            imp = ['import { %s as %s } from "%s"' % (t.choice(priv).name, z, p)]
        elif kind == "private qualified":
            priv = [d for d in priv if qual(d, "a")]
            if not priv:
                raise Bad()
            d = t.choice(priv)
            kind += " " + d.kind
            imp, body = ['import "%s" as %s' % (p, z)], qual(d, "%s.%s" % (z, d.name))
        elif kind == "unknown name":
            imp = ['import { nosuch as %s } from "%s"' % (z, p)]
        elif kind == "unknown qualified":
            imp, body = ['import "%s" as %s' % (p, z)], [t.choice(["println(%s.nosuch);", "%s.nosuch();", "var q: %s.nosuch = null;"]) % z]
        elif kind == "missing file":
            imp = [t.choice(['import "%s" as %s' % (p[:-4] + "zz.cxy", z), 'import { K as %s } from "%szz.cxy"' % (z, p[:-4])])]
        elif kind == "hidden":
            c = [d for d in x.decls if d.name not in known and qual(d, "a")]
            if not c:
                raise Bad()
            d = t.choice(c)
            body = qual(d, d.name)
            kind += " " + d.kind
        elif kind == "original name":
            c = [d for d in pubs if d.name not in known and qual(d, "a")]
            if not c:
                raise Bad()
            d = t.choice(c)
            imp, body = ['import { %s as %s } from "%s"' % (d.name, z, p)], qual(d, d.name)
        elif kind == "transitive" and x.deps:
            y = t.choice(x.deps)
            al = x.aliases.get(y)
            c = [d for d in y.decls if d.pub and qual(d, "a")]
            if not c or not al:
                raise Bad()
            d = t.choice(c)
            if t.bool() and al not in known:
                body = qual(d, "%s.%s" % (al, d.name))
            else:
                imp, body = ['import "%s" as %s' % (p, z)], qual(d, "%s.%s.%s" % (z, al, d.name))
        elif kind == "cycle":
            if m.root:
                raise Bad()
            y = x
            y.imports.append('import "%s" as yy' % g.path(y, m))
        elif kind == "twice" and pubs:
            d = t.choice(pubs)
            n = t.choice(sorted(known)) if known and t.bool() else z
            imp = ['import { %s as %s%s } from "%s"' % (d.name, n, ", %s as %s" % (d.name, z) if n == z else "", p)]
        elif kind == "constant":
            c = [d for d in pubs if d.kind == "const"]
            if not c:
                raise Bad()
            imp, body = ['import "%s" as %s' % (p, z)], ["%s.%s = 3;" % (z, t.choice(c).name)]
        elif kind == "other module" and deep:
            # the module itself, by its own name, without an import
            y = t.choice(deep)
            c = [d for d in y.decls if d.pub and qual(d, "a")]
            if not c:
                raise Bad()
            d = t.choice(c)
            body = qual(d, "%s.%s" % (y.name, d.name))
        else:
            raise Bad()
        files = lambda: {q.path: q.text().replace("§", "0") for q in g.mods}
        clean = {q.path: Mod.text(q) for q in g.mods}
        if kind == "cycle":
            y.imports.pop()
            clean = files()
            y.imports.append('import "%s" as yy' % g.path(y, m))
            bad = files()
            good_main = bad_main = self.main_text(g.root)
        else:
            clean, good_main = files(), self.main_text(g.root)
            m.imports = m.imports + imp
            if body:
                m.texts = m.texts + ["func neg§() {\n  %s\n}" % "\n  ".join(body)]
            bad, bad_main = files(), self.main_text(g.root)
        fix = lambda f: {n.replace("§", "0"): s for n, s in f.items()}
        c = Neg("", "", files=fix(bad), key=(kind, bad_main, *sorted(bad.items())), classes=["rejected", kind])
        c.neg = kind
        c.bad, c.good = dict(fix(bad), **{"main.cxy": bad_main}), dict(fix(clean), **{"main.cxy": good_main})
        c.text = lambda: "must be rejected: %s\n" % kind + "\n".join("---- %s\n%s" % f for f in c.bad.items())
        return c

    def main_text(self, root):
        return "\n".join(root.imports + root.texts + ["func main() {", *root.body, "}"]).replace("§", "0") + "\n"

    def dev(self, files):
        d = self.tmp()
        try:
            for n, s in files.items():
                q = os.path.join(d, n)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "w") as f:
                    f.write(s)
            r = run(setarch() + [self.exe, "dev", "--no-progress", "--no-color", "--stdlib", self.stdlib, "--with-mm", "--last-stage", "TypeCheck", "main.cxy"],
                    cwd=d, timeout=self.compile_timeout)
            o = r.out.decode("utf8", "replace")
            err = re.search(r"(?m)^.*\berror: .*$", o)
            if r.rc not in (0, 1):
                return "crash", r.how() + " " + o[:800]
            return ("rejected" if err else "accepted" if r.rc == 0 else "odd"), o[:1200]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run_neg(self, c):
        k, o = self.dev(c.bad)
        if k != "rejected":
            return "not rejected (%s): %s: %s" % (c.neg, k, o)
        k, o = self.dev(c.good)
        if k != "accepted":
            return "control: the program without the %s is not accepted: %s %s" % (c.neg, k, o)
        return None

    def run(self, cases):
        pos = [c for c in cases if not isinstance(c, Neg)]
        r = dict(zip(map(id, pos), CxyCheck.run(self, pos) if pos else []))
        for c in cases:
            if isinstance(c, Neg):
                r[id(c)] = None if self.abort else self.run_neg(c)
        return [r[id(c)] for c in cases]


if __name__ == "__main__":
    main(L13)
