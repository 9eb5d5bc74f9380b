"""Templates and macros: contracts of functions whose body uses instances of a template, or expansions of a macro.

Reference: an instance is the template's body with each parameter standing for its argument; instances whose arguments are all equal
(the same type, value, text, function or module) are one instance, all others are independent of each other.  A use of a macro is the
macro's body with each parameter replaced by the argument (as an expression, not as text)."""
import random
import re
import z3
import vrun
import langops as L
from langops import I, W, F32, F64, conv, bv

X = W[64]
FUNCS = {"fa": lambda x: x ^ bv(0x55, 64), "fb": lambda x: (x << 3) ^ x, "fc": lambda x: z3.LShR(x, 7) ^ (x << 1),
         "MA.g": lambda x: x ^ (x << 5), "MB.g": lambda x: x << 2, "MC.MA.g": lambda x: x ^ bv(0x177, 64)}
MODS = {"MA": "MA.g", "MB": "MB.g", "MC.MA": "MC.MA.g", "al_ma": "MA.g"}
TYPES = [I[8], I[16], I[32], I[64], W[8], W[16], W[32], W[64]]
# other types: spellings of one type
OTHER = [["F1", "Float[32]"], ["Float[64]", "Float[0h40]"], ["ptr[Int[8]]"], ["ptr[Word[8]]"], ["ptr[ptr[Int[8]]]"], ["Word[1]", "Bool"], ["array[Int[8], 3]", "array[Int[8], 0b11]"], ["array[Int[8], 4]"],
         ["array[Int[8], 0h10]", "array[Int[8], 16]"], ["array[Int[8], 0h11]"], ["array[Int[16], 3]"], ["array[ptr[Int[8]], 3]"], ["ptr[array[Int[8], 3]]"], ["Z1"], ["Z2"], ["ptr[Z1]"], ["ptr[Z2]"],
         ["ptr[function (x: Int[32]): Int[32]]", "ptr[function (other: Int[32]): Int[32]]"], ["ptr[function (x: Int[32]): Int[64]]"], ["ptr[function (x: Int[64]): Int[32]]"], ["ptr[function (x: Int[32], y: Int[32]): Int[32]]"], ["ptr[function (x: Int[32])]"],
         ["TB[Int[8]]", "TB[al_i8]", "TB[Int[8], 7]"], ["TB[Int[16]]"], ["TB[Int[8], 8]"], ["TB[TB[Int[8]]]"], ["TB[TB[Int[16]], 7]", "TB[TB[al_i16], 7]"], ["ptr[TB[Int[8]]]"], ["TC[\"a,b\", \"c\"]"], ["TC[\"a\", \"b,c\"]"], ["MC.Z1"]]
VALUES = [[0, "0", "00", "0h0"], [1, "1", "0b1"], [2, "2", "0b10", "0o2"], [3, "3", "03", "0x3"], [5, "5", "05", "five"], [10, "10", "0hA", "0xa"], [16, "16", "0h10", "0b10000", "0o20"], [17, "17", "0h11"], [11, "11", "0hb"],
          [100, "100"], [255, "255", "0hFF", "0hff", "0XfF"], [256, "256", "0h100"], [65535, "65535"], [2147483648, "2147483648", "0h80000000"], [4294967296, "4294967296"], [4294967301, "4294967301"], [9223372036854775807, "9223372036854775807", "0h7fffffffffffffff"]]
STRINGS = ["ab", "ac", "a,b", "b]", "[a", "a\\nb", "x],y", "]a", "05", "5,5", "\\\\,", "a b", "مر"]
ANY = STRINGS + ["", "a", "b", ",", "]", "[", "5", "a,b],[", "\\\\"]
PRELUDE = """  func fa(x: Word[64]): Word[64] { return x $ 0h55; };
  func fb(x: Word[64]): Word[64] { return (x << 3) $ x; };
  func fc(x: Word[64]): Word[64] { return (x >> 7) $ (x << 1); };
  module MA { func g(x: Word[64]): Word[64] { return x $ (x << 5); }; };
  module MB { func g(x: Word[64]): Word[64] { return x << 2; }; };
  module MC { module MA { func g(x: Word[64]): Word[64] { return x $ 0h177; }; }; class Z1 { def a: Int[64]; }; };
  class Z1 { def a: Word[8]; };
  class Z2 { def a: Word[8]; };
  class TB [t: type, n: integer = 7] { def a: t; };
  class TC [s: string, u: string] { def a: Word[8]; };
  def al_ma: alias MA;
  def F1: alias Float[32];
  def five: 5;
""" + "\n".join("  def al_%s: alias %s;" % (t.name.replace("[", "").replace("]", "").replace("Int", "i").replace("Word", "w"), t.name) for t in TYPES)
NAMES = ["t", "u", "n", "k", "s", "q", "f", "h", "m", "T", "Type", "ن", "value", "x1"]


def text(s):
    """the first two bytes of the string an Alusus literal spells, and the string"""
    r = s.replace("\\n", "\n").replace("\\\\", "\\").encode()
    return (r + b"\0\0")[:2], r


class Arg:
    def __init__(self, spelled, key, eff=None):
        self.spelled, self.key, self.eff = spelled, key, eff


def argument(rnd, kind, plain, near=None):
    """plain: the body of the template computes with it"""
    if kind == "type":
        if plain or rnd.random() < 0.3:
            t = rnd.choice(TYPES)
            sp = [t.name, t.name, "al_" + t.name.replace("[", "").replace("]", "").replace("Int", "i").replace("Word", "w"), "%s[0x%x]" % (t.name.split("[")[0], t.bits)]
            return Arg(rnd.choice(sp), ("t", t.name), lambda v: (conv(conv(v, X, t), t, X) << 1) ^ bv(t.bits // 8, 64))
        o = rnd.choice(OTHER)
        return Arg(rnd.choice(o), ("o", o[0]))
    if kind == "integer":
        v = rnd.choice(VALUES)
        return Arg(rnd.choice(v[1:]), v[0], lambda x: (x << 2) ^ bv(v[0], 64))
    if kind == "string":
        s = rnd.choice(STRINGS if plain else ANY)
        b, r = text(s)
        return Arg('"%s"' % s, r, lambda x: (((x << 3) ^ bv(b[0], 64)) << 3) ^ bv(b[1], 64))
    if kind == "function":
        f = rnd.choice(list(FUNCS))
        return Arg(f, f, FUNCS[f])
    m = rnd.choice(list(MODS))
    return Arg(m, MODS[m], FUNCS[MODS[m]])


def step(kind, n):
    """the part of the template's body that depends on the parameter n"""
    return {"type": "v = (v~cast[%s]~cast[Word[64]] << 1) $ %s~size~cast[Word[64]];", "integer": "v = (v << 2) $ %s~cast[Word[64]];",
            "string": "def p_%s: ptr[array[Word[8]]](%s~cast[ptr[array[Word[8]]]]); v = (v << 3) $ p_%s~cnt(0)~cast[Word[64]]; v = (v << 3) $ p_%s~cnt(1)~cast[Word[64]];",
            "function": "v = %s(v);", "module": "v = %s.g(v);"}[kind].replace("%s", n)


def rot(r):
    return (r << 7) ^ z3.LShR(r, 57)


class TItem(L.Item):
    def __init__(self, form, params, defaults, uses, perm=None):
        """params: (name, kind); defaults: Arg or None; uses: (arguments, how many are written, which of the inputs)"""
        self.form, self.tp, self.defaults, self.uses, self.perm = form, params, defaults, uses, perm
        L.Item.__init__(self, "template " + form, [(X, 0), (X, 0)], X, None, self.meaning)

    def code(self, params=None):
        return "def v: Word[64](x); %s return v;" % " ".join(step(k, n) for n, k in params or self.tp)

    def meaning(self, a, b):
        if self.form == "shared":
            cell = {}
            r = bv(0, 64)
            for i, (args, _, w) in enumerate(self.uses):
                cell[tuple(x.key for x in args)] = (a, b)[w] ^ bv(i, 64)
            for args, _, w in self.uses:
                r = rot(r) ^ cell[tuple(x.key for x in args)]
        else:
            r = bv(0, 64)
            for args, _, w in self.uses:
                v = (a, b)[w]
                for x in args:
                    v = x.eff(v)
                r = rot(r) ^ v
        return dict(ret=r, mem={}, ok=z3.BoolVal(True))

    def plist(self, ps=None, off=0):
        ps = ps or self.tp
        return "[%s]" % ", ".join("%s: %s%s" % (n, k, " = " + d.spelled if d else "") for (n, k), d in zip(ps, self.defaults[off:]))

    def alist(self, args, n):
        return "[%s]" % ", ".join(x.spelled for x in args[:n])

    def source(self):
        n, pl, bd = self.name, self.plist(), self.code()
        fn = "func r%s(x: Word[64]): Word[64] { %s };"
        h = len(self.tp) // 2
        if self.form == "func":
            d = "  func F_%s %s (x: Word[64]): Word[64] { %s };" % (n, pl, bd)
        elif self.form in ("static", "shared"):
            d = "  class C_%s %s { %s };" % (n, pl, "@shared def v: Word[64];" if self.form == "shared" else fn % ("", bd))
        elif self.form == "module":
            d = "  module N_%s { class C %s { %s }; };" % (n, pl, fn % ("", bd))
        elif self.form == "object":
            d = "  class C_%s %s { def w: Word[8]; handler this.r(x: Word[64]): Word[64] { %s }; };" % (n, pl, bd)
        elif self.form == "method":
            d = "  class C_%s { def w: Word[8]; handler %s this.r(x: Word[64]): Word[64] { %s }; };" % (n, pl, bd)
        elif self.form == "inner":
            d = "  class C_%s %s { class D %s { %s }; };" % (n, self.plist(self.tp[:h]), self.plist(self.tp[h:], h), fn % ("", bd))
        else:       # forward: through a second template with other parameter names
            q = [(self.perm[i], k) for i, (_, k) in enumerate(self.tp)]
            d = "  class C_%s %s { %s };\n" % (n, "[%s]" % ", ".join("%s: %s" % p for p in q), fn % ("", self.code(q)))
            d += "  func F_%s %s (x: Word[64]): Word[64] { return C_%s[%s].r(x); };" % (n, pl, n, ", ".join(x for x, _ in self.tp))
        st = ["def r: Word[64](0);"]
        if self.form == "shared":
            st += ["C_%s%s.v = %s $ %d;" % (n, self.alist(a, k), "ab"[w], i) for i, (a, k, w) in enumerate(self.uses)]
        if self.form == "method":
            st.append("def o: C_%s;" % n)
        for i, (a, k, w) in enumerate(self.uses):
            al, e = self.alist(a, k), "ab"[w]
            if self.form == "object":
                st.append("def o%d: C_%s%s;" % (i, n, al))
            u = {"func": "F_%s%s(%s)" % (n, al, e), "forward": "F_%s%s(%s)" % (n, al, e), "static": "C_%s%s.r(%s)" % (n, al, e), "shared": "C_%s%s.v" % (n, al), "module": "N_%s.C%s.r(%s)" % (n, al, e),
                 "object": "o%d.r(%s)" % (i, e), "method": "o.r%s(%s)" % (al, e), "inner": "C_%s%s.D%s.r(%s)" % (n, self.alist(a[:h], h), self.alist(a[h:], k - h), e)}[self.form]
            st.append("r = (r << 7) $ (r >> 57) $ %s;" % u)
        st.append("return r;")
        self.body = " ".join(st)
        return d + "\n  @expname[%s] func %s(a: Word[64], b: Word[64]): Word[64] { %s };" % (n, n, " ".join(st))

    def describe(self):
        return "template %s %s used with %s" % (self.form, self.plist(), "; ".join(self.alist(a, k) for a, k, _ in self.uses))


def instances(rnd, n, form):
    out = []
    while len(out) < n:
        np = rnd.choice([1, 2, 2, 3, 4]) if form != "inner" else rnd.choice([2, 3, 4])
        kinds = [rnd.choice(["type", "type", "integer", "integer", "string", "function", "module"]) for _ in range(np)]
        names = rnd.sample(NAMES, np)
        ps = list(zip(names, kinds))
        plain = form != "shared"
        defaults = [None] * np
        if form != "inner" and rnd.random() < 0.4:
            for i in range(rnd.randrange(np), np):
                defaults[i] = argument(rnd, kinds[i], plain)
        uses = []
        for _ in range(rnd.choice([2, 3, 3, 4, 5])):
            args = [argument(rnd, k, plain) for k in kinds]
            if uses and rnd.random() < 0.75:
                # like another use but for one argument
                args = list(rnd.choice(uses)[0])
                i = rnd.randrange(np)
                args[i] = argument(rnd, kinds[i], plain)
            if uses and rnd.random() < 0.2:
                # the same instance, spelled otherwise
                args = list(rnd.choice(uses)[0])
                for i in range(np):
                    for _ in range(8):
                        c = argument(rnd, kinds[i], plain)
                        if c.key == args[i].key:
                            args[i] = c
            k = np
            if any(defaults) and rnd.random() < 0.5:
                lo = next(i for i in range(np) if defaults[i])
                k = rnd.randrange(max(lo, 1), np + 1)
                args = args[:k] + defaults[k:]
            uses.append((args, k, rnd.randrange(2)))
        # with other names for the parameters, in another order
        perm = rnd.sample(names, np) if rnd.random() < 0.6 else rnd.sample(NAMES, np)
        out.append(TItem(form, ps, defaults, uses, perm))
    return out


# ---------------------------------------------------------------- macros
OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "$": lambda x, y: x ^ y, "&": lambda x, y: x & y, "|": lambda x, y: x | y}


class Ex:
    """expression: leaf name, literal, binary, call of a function, use of a macro"""
    def __init__(self, op, *a):
        self.op, self.a = op, a

    def val(self, env):
        if self.op == "var":
            return env[self.a[0]]
        if self.op == "lit":
            return bv(self.a[0], 64)
        if self.op == "call":
            return FUNCS[self.a[0]](self.a[1].val(env))
        if self.op == "use":
            m = self.a[0]
            return m.body.val(dict(zip(m.params, [x.val(env) for x in self.a[1:]])))
        return OPS[self.op](self.a[0].val(env), self.a[1].val(env))

    def src(self, ren, top=False):
        if self.op == "var":
            return ren(self.a[0])
        if self.op == "lit":
            return "%du" % self.a[0]
        if self.op == "call":
            return "%s(%s)" % (self.a[0], self.a[1].src(ren, True))
        if self.op == "use":
            return "%s[%s]" % (self.a[0].ref, ", ".join(x.src(ren, True) for x in self.a[1:]))
        s = "%s %s %s" % (self.a[0].src(ren), self.op, self.a[1].src(ren))
        return s if top else "(%s)" % s


class Macro:
    def __init__(self, ref, params, body):
        self.ref, self.params, self.body = ref, params, body


def gen(rnd, leaves, depth, macros=(), used=None):
    r = rnd.random()
    if depth == 0 or r < 0.15:
        return Ex("var", rnd.choice(leaves))
    if r < 0.25:
        return Ex("call", rnd.choice(list(FUNCS)), gen(rnd, leaves, depth - 1, macros))
    if macros and r < 0.55:
        m = rnd.choice(macros)
        return Ex("use", m, *[gen(rnd, leaves, depth - 1, macros if depth < 3 else ()) for _ in m.params])
    right = Ex("lit", rnd.choice([1, 2, 3, 5, 100, 255, 65535])) if rnd.random() < 0.25 else gen(rnd, leaves, depth - 1, macros)
    return Ex(rnd.choice(list(OPS)), gen(rnd, leaves, depth - 1, macros), right)


class MItem(L.Item):
    def __init__(self, rnd, form):
        self.form, self.rnd = form, rnd
        self.macros, self.ex = [], None
        nm = rnd.choice([1, 2, 3])
        for k in range(nm):
            ps = rnd.sample(["x", "y", "z", "n", "nn", "a", "b", "fa1", "ن"], rnd.choice([1, 2, 2, 3]))
            # (a, b: also the names of the function's own variables)
            self.macros.append(Macro(None, ps, gen(rnd, ps, rnd.choice([1, 2, 3]), self.macros[:k] if rnd.random() < 0.6 else ())))
        self.args = [gen(rnd, ["a", "b"], rnd.choice([1, 2]), self.macros) for _ in self.macros[-1].params]
        self.ex = Ex("use", self.macros[-1], *self.args)
        self.extra = [gen(rnd, ["a", "b"], 2, self.macros) for _ in range(2)]
        L.Item.__init__(self, "macro " + form, [(X, 0), (X, 0)], X, None, self.meaning)

    def meaning(self, a, b):
        env = {"a": a, "b": b}
        v = self.ex.val(env)
        e = [x.val(env) for x in self.extra]
        if self.form in ("expression", "module", "overload"):
            r = v ^ rot(e[0])
        elif self.form == "member":
            r = v ^ (a ^ (e[0] << 1))
        elif self.form == "statement":
            r = rot(bv(3, 64) ^ v) + e[0]
            r = rot(r ^ e[1]) + v
        elif self.form == "names":
            f1, xf = v, v ^ bv(5, 64)
            g1, xg = e[0], e[0] ^ bv(5, 64)
            r = (f1 ^ (xf << 3)) + (g1 ^ (xg << 9))
        else:
            r = z3.If(z3.ULT(a, b), v ^ e[1], v - e[0])
        return dict(ret=r, mem={}, ok=z3.BoolVal(True))

    def source(self):
        n = self.name
        same = self.form == "overload"
        for k, m in enumerate(self.macros):
            m.ref = "m%d_%s" % (k, n)
        if same:
            # one name, told apart by the number of arguments
            seen = set()
            for m in self.macros[::-1]:
                if len(m.params) not in seen:
                    seen.add(len(m.params))
                    m.ref = "m_%s" % n
        own = [m.ref for m in self.macros]
        if self.form == "module":
            # (a name in a macro's body is looked up where the macro is used)
            for m in self.macros:
                m.ref = "QQ_%s.%s" % (n, m.ref)
        md = "\n".join("  macro %s [%s] %s;" % (own[self.macros.index(m)], ", ".join(m.params), m.body.src(lambda x: x) if m.body.op not in ("use", "call", "var") else "(%s)" % m.body.src(lambda x: x)) for m in self.macros)
        ident = lambda x: x
        e0, e1 = [x.src(ident) for x in self.extra]
        v = self.ex.src(ident)
        if self.form == "module":
            md = "  module QQ_%s {\n%s\n  };" % (n, md)
        if self.form in ("expression", "module", "overload"):
            b = "def e: Word[64](%s); return %s $ ((e << 7) $ (e >> 57));" % (e0, v)
        elif self.form == "member":
            md += "\n  class K_%s { def i: Word[64]; @member macro mm [self, w] (self.i $ (w << 1)); macro mm [self, w] 0; };" % n
            b = "def o: K_%s; o.i = a; return %s $ o.mm[%s];" % (n, v, e0)
        elif self.form == "statement":
            md += "\n  macro st_%s [d, e, c] { d = d $ e; d = ((d << 7) $ (d >> 57)) + c; };" % n
            b = "def r: Word[64](3); st_%s[r, %s, %s]; st_%s[r, %s, %s]; return r;" % (n, v, e0, n, e1, v)
        elif self.form == "names":
            md += "\n  macro dv_%s [n, e] { def __n__1: Word[64](e); def x__n__: Word[64](__n__1 $ 5u); };" % n
            b = "dv_%s[foo, %s]; dv_%s[bar, %s]; return (foo1 $ (xfoo << 3)) + (bar1 $ (xbar << 9));" % (n, v, n, e0)
        else:
            md += "\n  macro sel_%s [c, y, z] { if c y else z; };" % n
            b = "def v: Word[64](%s); def r: Word[64]; sel_%s[a < b, r = v $ %s, r = v - %s]; return r;" % (v, n, e1, e0)
        self.body = b
        self.shown = md + "\n  " + b
        return md + "\n  @expname[%s] func %s(a: Word[64], b: Word[64]): Word[64] { %s };" % (n, n, b)

    def describe(self):
        return "macro %s: %s" % (self.form, getattr(self, "shown", "").replace("\n", " "))


class TextItem(L.Item):
    """the text a macro makes of a template with {{n}} and its argument, byte by byte at chosen places"""
    def __init__(self, rnd):
        ln = lambda: rnd.choice([0, 1, 2, 5, 17, rnd.randrange(60), rnd.randrange(1100), rnd.choice([996, 999, 1000, 1001, 3000])])
        al = "abcdefgh XYZ0123456789_-,.[](){n}"
        t = lambda k: re.sub("([{}])[{}]+", r"\1", "".join(rnd.choice(al) for _ in range(k)))
        self.pre, self.suf = t(ln()).rstrip("{"), t(ln()).lstrip("}")
        self.word = rnd.random() < 0.3
        self.arg = "".join(rnd.choice("abcxyz_") for _ in range(rnd.randrange(2, 40))).strip("_") + "q" if self.word else t(ln()).strip("{}")
        if not self.pre and not self.suf and self.word:
            self.pre = "p"
        self.text = (self.pre + self.arg + self.suf).encode() + b"\0"
        n = len(self.text)
        self.at = sorted({0, n - 1, n // 2} | {min(n - 1, k) for k in (998, 999, 1000)} | {rnd.randrange(n) for _ in range(3)})
        L.Item.__init__(self, "macro text", [(X, 0), (X, 0)], X, None, self.meaning)

    def meaning(self, a, b):
        r = a
        for k in self.at:
            r = rot(r) ^ bv(self.text[k], 64)
        return dict(ret=r, mem={}, ok=z3.BoolVal(True))

    def source(self):
        n = self.name
        b = "def r: Word[64](a); def p: ptr[array[Word[8]]](tx_%s[%s]~cast[ptr[array[Word[8]]]]);" % (n, self.arg if self.word else '"%s"' % self.arg)
        b += "".join(" r = (r << 7) $ (r >> 57) $ p~cnt(%d)~cast[Word[64]];" % k for k in self.at) + " return r;"
        self.body = b
        return '  macro tx_%s [n] "%s{{n}}%s";\n  @expname[%s] func %s(a: Word[64], b: Word[64]): Word[64] { %s };' % (n, self.pre, self.suf, n, n, b)

    def describe(self):
        return "macro text: \"%s{{n}}%s\" with %s" % (self.pre, self.suf, self.arg)


def suite():
    rnd = random.Random(vrun.SEED)
    k = 2 if vrun.TIER == "quick" else 12
    items = []
    for form, n in (("shared", 350), ("func", 90), ("static", 90), ("module", 60), ("object", 70), ("method", 70), ("inner", 70), ("forward", 110)):
        items += instances(rnd, n * k, form)
    for form, n in (("expression", 120), ("module", 60), ("overload", 60), ("member", 50), ("statement", 80), ("names", 60), ("select", 60)):
        items += [MItem(rnd, form) for _ in range(n * k)]
    items += [TextItem(rnd) for _ in range(80 * k)]
    return L.Suite("tm", items, PRELUDE)


def plan():
    p = L.make_plan(suite())
    p.level = "translation_validation"
    p.assumptions = ["a template's or macro's body is observed through the value its uses compute"]
    p.notes = "one function per set of uses of a template or of macros; each proved for all values of its arguments"
    return p
