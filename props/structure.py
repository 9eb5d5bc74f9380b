"""How expressions group: contracts of functions whose body is an expression written as a sequence of tokens.

The reference is the language's operator precedence: from loosest to tightest, assignment (groups to the right), logical,
comparison, addition, multiplication, bitwise (all group to the left), prefix, postfix, and brackets, calls and casts.  Layout
(spaces, line ends, comments, direction marks) between tokens has no meaning."""
import random
import z3
import irvc, emit, vrun
import langops as L
from langops import I, W, B, conv, arith_type, bit_type, comparable, bitop, b2i, bv

LOG = {"and": "and", "or": "or", "&&": "and", "||": "or", "و": "and", "أو": "or"}
NAMES = ["a", "b", "ab", "x1", "orb", "andy", "notx", "_u", "Ab", "do_it", "عدد", "ق2", "defx", "a_b", "inx", "iffy", "ref1", "cast", "Wordy", "قيمة", "or_", "use1", "ifx", "returned", "and1", "nota", "wor", "xor_1", "e1", "f32", "u8", "i8", "_", "__", "و1", "ليسكذلك", "أوه", "و_", "ط8", "while1", "endx", "Z9z", "zZ"]
NAMES += ["long_" * 60 + c for c in "abc"] + ["long_" * 60, "a" * 1000, "a" * 999]
FUNCS = {"pair": 2, "triple": 3, "ident": 1}
FOP = {"pair": lambda a: arith("*", W[32], a[0], bv(3, 32))[0] + a[1], "triple": lambda a: (a[0] ^ a[1]) + a[2], "ident": lambda a: a[0]}
PRELUDE = """  func pair(x: Word, y: Word): Word { return x * 3u + y; };
  func triple(x: Word, y: Word, z: Word): Word { return (x $ y) + z; };
  func ident(x: Word): Word { return x; };"""


ABS = [False]      # products and quotients as uninterpreted functions (what holds for all functions holds for these)


def uf(op, a, b):
    """op: the instruction's name"""
    if z3.is_bv_value(z3.simplify(a)) and z3.is_bv_value(z3.simplify(b)):
        return None
    return z3.Function("u!%s%d" % (op, a.size()), a.sort(), a.sort(), a.sort())(a, b)


def arith(op, t, x, y):
    v, ok = L.arith(op, t, x, y)
    if ABS[0] and op in ("*", "/", "%"):
        n = {"*": "mul", "/": "sdiv" if t.kind == "i" else "udiv", "%": "srem" if t.kind == "i" else "urem"}[op]
        u = uf(n, x, y)
        return v if u is None else u, ok
    return v, ok


def compare(op, a, b, x, y):
    """of the mathematical values (narrow when both have the same signedness)"""
    if a.kind != b.kind or a.kind == "f":
        return L.compare(op, a, b, x, y)
    n = max(a.bits, b.bits)
    x, y = ((z3.SignExt if a.kind == "i" else z3.ZeroExt)(n - z.size(), z) for z in (x, y))
    if a.kind == "i":
        return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
    return {"==": x == y, "!=": x != y, "<": z3.ULT(x, y), ">": z3.UGT(x, y), "<=": z3.ULE(x, y), ">=": z3.UGE(x, y)}[op]


class No(Exception):
    """the language does not accept this combination of types"""


class V:
    """result of an expression: type, value as a function of the environment"""
    def __init__(self, t, v):
        self.t, self.v = t, v


class Env:
    """values of the variables and the conditions under which everything is defined"""
    def __init__(self, vals):
        self.vals, self.ok = dict(vals), []

    def branch(self):
        e = Env(self.vals)
        return e

    def merge(self, c, other):
        """other happened if c"""
        self.ok += [z3.Implies(c, k) for k in other.ok]
        for k in self.vals:
            if other.vals[k] is not self.vals[k]:
                self.vals[k] = z3.If(c, other.vals[k], self.vals[k])


# nodes: ("var", k) ("lit", n) ("bin", op, l, r) ("log", op, l, r) ("cmp", op, l, r) ("pre", op, x) ("post", op, x) ("cast", T, x) ("call", f, args) ("set", op, k, r)
def ev(n, e, types):
    k = n[0]
    if k == "var":
        return types[n[1]], e.vals[n[1]]
    if k == "lit":
        t = I[8] if n[1] < 128 else I[16]
        return t, bv(n[1], t.bits)
    if k == "bin":
        b, y = ev(n[3], e, types)
        a, x = ev(n[2], e, types)
        return binary(n[1], a, x, b, y, e)
    if k == "cmp":
        b, y = ev(n[3], e, types)
        a, x = ev(n[2], e, types)
        if not comparable(a, b):
            raise No()
        return B, b2i(compare(n[1], a, b, x, y))
    if k == "log":
        a, x = ev(n[2], e, types)
        if a is not B:
            raise No()
        e2 = e.branch()
        b, y = ev(n[3], e2, types)
        if b is not B:
            raise No()
        e.merge(x == (1 if LOG[n[1]] == "and" else 0), e2)
        return B, (x & y if LOG[n[1]] == "and" else x | y)
    if k == "pre":
        op = n[1]
        if op in ("++", "--"):
            i = n[2][1]
            v, ok = arith(op[0], types[i], e.vals[i], bv(1, types[i].bits))
            e.ok.append(ok)
            e.vals[i] = v
            return types[i], v
        a, x = ev(n[2], e, types)
        if a is B:
            if op in ("!", "!!", "not", "ليس"):
                return B, ~x
            raise No()
        if op == "-":
            return L.int_of("i", a.rank), -x
        if op == "+":
            return a, x
        if op == "!":
            return a, ~x
        raise No()
    if k == "post":
        i = n[2][1]
        old = e.vals[i]
        v, ok = arith(n[1][0], types[i], old, bv(1, types[i].bits))
        e.ok.append(ok)
        e.vals[i] = v
        return types[i], old
    if k == "cast":
        a, x = ev(n[2], e, types)
        return n[1], conv(x, a, n[1])
    if k == "call":
        vs = []
        for a in n[2]:
            t, x = ev(a, e, types)
            vs.append(conv(x, t, W[32]))
        return W[32], FOP[n[1]](vs)
    if k == "set":
        op, i, r = n[1:]
        b, y = ev(r, e, types)
        t = types[i]
        if op == "=":
            v = conv(y, b, t)
        else:
            if op[:-1] in L.AR:
                rt = arith_type(t, b)
                v, ok = arith(op[:-1], rt, conv(e.vals[i], t, rt), conv(y, b, rt))
                e.ok.append(ok)
                v = conv(v, rt, t)
            else:
                v, ok = bitop(op[:-1], t, e.vals[i], conv(y, b, t))
                if op[:-1] in L.SH:
                    e.ok.append(z3.ULT(z3.ZeroExt(66 - b.bits, y), bv(t.bits, 66)))
        e.vals[i] = v
        return t, v
    raise ValueError(k)


def binary(op, a, x, b, y, e):
    if op in L.AR:
        t = arith_type(a, b)
        v, ok = arith(op, t, conv(x, a, t), conv(y, b, t))
        e.ok.append(ok)
        return t, v
    if op in L.BI:
        t = bit_type(a, b)
        return t, bitop(op, t, conv(x, a, t), conv(y, b, t))[0]
    if a is B or b is B:
        raise No()
    v, _ = bitop(op, a, x, conv(y, b, a))
    e.ok.append(z3.ULT(z3.ZeroExt(66 - b.bits, y), bv(a.bits, 66)))
    return a, v


# ---------------------------------------------------------------- random token sequences, by level of the grammar
class Gen:
    def __init__(self, rnd):
        self.rnd, self.toks, self.used, self.touched = rnd, [], [], set()
        names = list(NAMES)
        rnd.shuffle(names)
        self.names = names[:8]
        self.types = []
        self.budget = rnd.randint(1, 9)
        self.hard = 0

    def new(self, t=None, ref=False):
        if len(self.types) >= 8:
            raise No()
        self.types.append(t or self.rnd.choice([W[32]] * 6 + [I[32], W[16], W[64]]))
        self.used.append(ref)
        return len(self.types) - 1

    def pick(self, t=None):
        c = [i for i, (x, r) in enumerate(zip(self.types, self.used)) if not r and (t is None and x is not B or x is t)]
        if c and (self.rnd.random() < 0.4 or len(self.types) >= 7):
            return self.rnd.choice(c)
        return self.new(t)

    def tok(self, t):
        self.toks.append(t)

    def more(self, p):
        if self.budget > 0 and self.rnd.random() < p:
            self.budget -= 1
            return True
        return False

    def exp(self, boolean=False, p=0.3):
        if not boolean and self.rnd.random() < 0.15 and self.budget > 0:
            return self.assign()
        return self.log() if boolean else self.add()

    def assign(self):
        """LogExp (op LogExp)* grouping to the right"""
        self.budget -= 1
        i = self.new(W[32], True)
        self.tok(self.names[i])
        op = self.rnd.choice(["=", "=", "+=", "-=", "*=", "/=", "÷=", "%=", "|=", "$=", "&=", "<<=", ">>="])
        self.tok(op)
        if op in ("<<=", ">>="):
            return ("set", op, i, self.num(self.rnd.choice([2, 3, 5, 7, 12])))
        r = self.assign() if self.budget > 0 and self.rnd.random() < 0.4 else self.add()
        return ("set", op.replace("÷", "/"), i, r)

    def num(self, n):
        self.tok(str(n))
        return ("lit", n)

    def log(self):
        x = self.cmp()
        while self.more(0.4):
            op = self.rnd.choice(list(LOG))
            self.tok(op)
            x = ("log", op, x, self.cmp())
        return x

    def cmp(self):
        r = self.rnd.random()
        if r < 0.2:
            x = self.boolunary()
        else:
            x = self.add()
            op = self.rnd.choice(L.CM)
            self.tok(op)
            x = ("cmp", op, x, self.add())
        while self.more(0.15):
            op = self.rnd.choice(["==", "!=", "<", ">"])
            self.tok(op)
            x = ("cmp", op, x, self.boolunary() if self.rnd.random() < 0.5 else self.add())
        return x

    def boolunary(self):
        pre = []
        if self.more(0.4):
            pre.append(self.rnd.choice(["!", "not", "ليس", "!!"]))
            self.tok(pre[-1])
        if self.more(0.3):
            self.tok("(")
            x = self.log()
            self.tok(")")
        else:
            i = self.pick(B)
            self.tok(self.names[i])
            x = ("var", i)
        for op in reversed(pre):
            x = ("pre", op, x)
        return x

    def chain(self, sub, ops, p):
        x = sub()
        while self.more(p):
            op = self.rnd.choice(ops)
            if op in ("*", "/", "%"):
                self.hard += 1
                if self.hard > 3:
                    op = ops[0] if ops[0] != "*" else "*"
            self.tok("÷" if op == "/" and self.rnd.random() < 0.2 else op)
            if op in L.SH:
                y = self.unary() if self.rnd.random() < 0.5 else self.num(self.rnd.choice([2, 3, 4, 9]))
            else:
                y = sub()
            x = ("bin", op, x, y)
        return x

    def add(self):
        return self.chain(self.mul, ["+", "-"], 0.5)

    def mul(self):
        return self.chain(self.bit, ["*", "/", "%"], 0.35)

    def bit(self):
        return self.chain(self.unary, ["&", "|", "$", "<<", ">>"], 0.35)

    def unary(self):
        pre = []
        if self.more(0.2):
            pre.append(self.rnd.choice(["-", "+", "!"]))
            self.tok(pre[-1])
        r = self.rnd.random()
        if r < 0.08 and self.budget > 0 and not pre:
            i = self.new(W[32], True)
            if self.rnd.random() < 0.5:
                self.tok(self.names[i])
                op = self.rnd.choice(["++", "--"])
                self.tok(op)
                x = ("post", op, ("var", i))
            else:
                op = self.rnd.choice(["++", "--"])
                self.tok(op)
                self.tok(self.names[i])
                x = ("pre", op, ("var", i))
        else:
            x = self.func()
        for op in reversed(pre):
            x = ("pre", op, x)
        return x

    def func(self):
        r = self.rnd.random()
        if r < 0.15:
            return self.num(self.rnd.choice([2, 3, 5, 10, 100, 200, 1000]))
        if r < 0.35 and self.more(0.9):
            self.tok("(")
            x = self.exp(p=0.5)
            self.tok(")")
        elif r < 0.47 and self.more(0.9):
            f = self.rnd.choice(list(FUNCS))
            self.tok(f)
            self.tok("(")
            args = []
            for k in range(FUNCS[f]):
                if k:
                    self.tok(",")
                args.append(self.exp())
            self.tok(")")
            x = ("call", f, args)
        else:
            i = self.pick()
            self.tok(self.names[i])
            x = ("var", i)
        while self.more(0.1):
            t = self.rnd.choice([W[32], W[32], I[32], W[64], W[16]])
            for y in ("~", "cast", "[", t.name.split("[")[0], "[", str(t.bits), "]", "]"):
                self.tok(y)
            x = ("cast", t, x)
        return x


SEPS = [" ", "  ", "\n    ", "\t", " /* c */ ", " // a + ( * b\n", " # x ; ) y\n", " \r\n", "/**/", " /* ; ' \" \n * / */ ", "\u200f ", "\u200f", "/***/", "/* ** // */", "//\n", "#\n", " // /* x \\\n", "\n\n\t \u200f\r\n", "\r", "/* // */", "# /* \n", "//# \" \r\n", "/* " + "c" * 300 + "\n */", " " * 100]


def layout(toks, rnd, plain):
    word = lambda c: c.isalnum() or c == "_"
    out = (rnd.choice(SEPS) if not plain and rnd.random() < 0.2 else "") + toks[0]
    for a, b in zip(toks, toks[1:]):
        glue = b in ("(", ")", "[", "]", ",", "~") or a in ("(", "[", "~", ",") or word(a[-1]) != word(b[0])
        if a == "~" or (b in ("~", "[", "(") and word(a[-1])) or (a == ")" and b == "~"):
            sep = ""
        elif glue and rnd.random() < 0.4:
            sep = ""
        elif plain or rnd.random() < 0.7:
            sep = " "
        else:
            sep = rnd.choice(SEPS)
            if a[-1] == "/" and sep[0] == "/":
                sep = " " + sep
        out += sep + b
    return out + (rnd.choice(SEPS) if not plain and rnd.random() < 0.2 else "")


class SItem(L.Item):
    def __init__(self, group, names, params, rett, body, tree, types):
        self.names, self.tree, self.types = names, tree, types
        L.Item.__init__(self, group, params, rett, body, self.meaning)

    def meaning(self, *vals):
        e = Env(dict(enumerate(vals)))
        t, v = ev(self.tree, e, self.types)
        return dict(ret=v if self.rett is B else conv(v, t, self.rett), mem=e.vals, ok=z3.And(*e.ok) if e.ok else z3.BoolVal(True))

    def source(self):
        ps = ", ".join("%s: %s" % (n, "ref[%s]" % t.name if r else t.name) for n, (t, r) in zip(self.names, self.params))
        return "  @expname[%s] func %s(%s): %s { %s };" % (self.name, self.name, ps, self.rett.name, self.body)

    def describe(self):
        return "func (%s): %s { %s }" % (", ".join("%s: %s%s" % (n, "ref " if r else "", t.name) for n, (t, r) in zip(self.names, self.params)), self.rett.name, " ".join(self.body.split()))


def finish(group, g, tree, rnd, boolean, plain=False):
    types = g.types
    names = g.names[:len(types)]
    params = [(t, r) for t, r in zip(types, g.used)]
    e = Env({i: z3.BitVec("p%d" % i, t.bits) for i, t in enumerate(types)})
    t, v = ev(tree, e, types)
    if (t is B) != boolean:
        raise No()
    # satisfiable on simple values
    ok = z3.And(*e.ok) if e.ok else z3.BoolVal(True)
    vs = [z3.BitVec("p%d" % i, t.bits) for i, t in enumerate(types)]
    sample = lambda t: rnd.choice([1, 2, 3, 5, 17, 100]) & (2 ** t.bits - 1)
    for k in range(12):
        if z3.is_true(z3.simplify(z3.substitute(ok, *[(x, z3.BitVecVal(sample(t), t.bits)) for x, t in zip(vs, types)]))):
            break
    else:
        raise No()
    return SItem(group, names, params, B if boolean else I[64], "return %s;" % layout(g.toks, rnd, plain), tree, types)


def pairs(rnd):
    """every ordered pair of binary operators, prefix and postfix operators against binary ones"""
    ops = L.AR + L.BI + L.SH
    level = {**{o: 3 for o in ("+", "-")}, **{o: 2 for o in ("*", "/", "%")}, **{o: 1 for o in L.BI + L.SH}, **{o: 4 for o in L.CM}, **{o: 5 for o in LOG}}

    def build(toks, tree, types, boolean, group, refs=()):
        g = Gen(rnd)
        g.types, g.used = types, [i in refs for i in range(len(types))]
        g.toks = [g.names[t] if isinstance(t, int) else t for t in toks]
        out.append(finish(group, g, tree, rnd, boolean, rnd.random() < 0.5))
    out = []
    kind = lambda o: "log" if o in LOG else "cmp" if o in L.CM else "bin"
    for o1 in ops + L.CM + list(LOG):
        for o2 in ops + L.CM + list(LOG):
            left = level[o1] <= level[o2]
            for types in ([W[32]] * 3, [B] * 3, [W[32], W[32], B], [B, W[32], W[32]]):
                v = [("var", i) for i in range(3)]
                tree = (kind(o2), o2, (kind(o1), o1, v[0], v[1]), v[2]) if left else (kind(o1), o1, v[0], (kind(o2), o2, v[1], v[2]))
                b = max(level[o1], level[o2]) > 3
                if not b and B in types:
                    continue
                try:
                    build([0, o1, 1, o2, 2], tree, list(types), b, "pair")
                    break
                except No:
                    pass
    for o1 in ops + L.CM:
        for p in ("-", "+", "!"):
            v = [("var", i) for i in range(2)]
            k = kind(o1)
            for toks, tree in (([p, 0, o1, 1], (k, o1, ("pre", p, v[0]), v[1])), ([0, o1, p, 1], (k, o1, v[0], ("pre", p, v[1])))):
                try:
                    build(toks, tree, [I[32], I[32]], k == "cmp", "prefix")
                except No:
                    pass
        for toks, tree in (([0, o1, 1] + ["~", "cast", "[", "Int", "[", "16", "]", "]"], (kind(o1), o1, ("var", 0), ("cast", I[16], ("var", 1)))),
                           (["-", 0] + ["~", "cast", "[", "Word", "[", "64", "]", "]"] + [o1, 1], (kind(o1), o1, ("pre", "-", ("cast", W[64], ("var", 0))), ("var", 1)))):
            try:
                build(toks, tree, [I[32], I[32]], kind(o1) == "cmp", "prefix")
            except No:
                pass
    for p in ("!", "not", "ليس", "!!"):
        for o in list(LOG) + ["==", "!="]:
            k = kind(o)
            v = [("var", i) for i in range(2)]
            build([p, 0, o, 1], (k, o, ("pre", p, v[0]), v[1]), [B, B], True, "prefix")
            build([0, o, p, 1], (k, o, v[0], ("pre", p, v[1])), [B, B], True, "prefix")
    # assignments group to the right, whatever stands in them
    asg = ["="] + [o + "=" for o in ops]

    def assigns(aops, tail, tree):
        n = len(aops)
        toks = []
        for i, o in enumerate(aops):
            toks += [i, o]
        t = tree
        for i in reversed(range(n)):
            t = ("set", aops[i], i, t)
        try:
            build(toks + tail, t, [W[32]] * (n + len([x for x in tail if isinstance(x, int)])), False, "assign", range(n))
        except No:
            pass
    for o1 in asg:
        for o2 in asg:
            assigns([o1, o2], [2], ("var", 2))
        for o in ops:
            assigns([o1], [1, o, 2], ("bin", o, ("var", 1), ("var", 2)))
    for n in (3, 4, 5):
        for _ in range(20):
            aops = [rnd.choice(asg) if rnd.random() < 0.7 else "=" for _ in range(n)]
            if rnd.random() < 0.6:
                assigns(aops, [n], ("var", n))
            else:
                o = rnd.choice(ops)
                assigns(aops, [n, o, n + 1], ("bin", o, ("var", n), ("var", n + 1)))
        assigns(["="] * n, [n], ("var", n))
    # long chains of one level group to the left
    for lv in (["+", "-"], ["*", "/", "%"], L.BI + L.SH, list(LOG)):
        for n in (3, 4, 6):
            for _ in range(6):
                os = [rnd.choice(lv) for _ in range(n)]
                k = kind(os[0])
                t, toks = ("var", 0), [0]
                for i, o in enumerate(os):
                    t = (k, o, t, ("var", i + 1))
                    toks += [o, i + 1]
                try:
                    build(toks, t, [B if k == "log" else W[32]] * (n + 1), k == "log", "chain")
                except No:
                    pass
    return out


def sampled(rnd, n):
    out = []
    while len(out) < n:
        g = Gen(rnd)
        boolean = rnd.random() < 0.35
        try:
            r = rnd.random()
            tree = g.log() if boolean else g.assign() if r < 0.2 else g.add()
            if len(g.toks) < 3:
                continue
            out.append(finish("expression", g, tree, rnd, boolean, rnd.random() < 0.5))
        except No:
            pass
    return out


HARD = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I,
        z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL, z3.Z3_OP_BUMUL_NO_OVFL}


class StEngine(L.OpEngine):
    def binop(self, st, op, a, b, fl):
        r = L.OpEngine.binop(self, st, op, a, b, fl)
        if ABS[0] and op in ("mul", "udiv", "sdiv", "urem", "srem") and z3.is_bv(a) and z3.is_bv(b):
            u = uf(op, a, b)
            return r if u is None else u
        return r

    def check(self, fs, timeout=None, want_model=True, vals=None):
        """first with every remaining product and quotient abstracted in the same way"""
        cache = {}

        def ab(t):
            todo = [t]
            while todo:
                x = todo[-1]
                if x.get_id() in cache:
                    todo.pop()
                    continue
                cs = x.children()
                w = [c for c in cs if c.get_id() not in cache]
                if w:
                    todo += w
                    continue
                todo.pop()
                ys = [cache[c.get_id()][1] for c in cs]
                if x.decl().kind() in HARD and not (x.decl().kind() == z3.Z3_OP_BMUL and sum(not z3.is_bv_value(c) for c in cs) < 2):
                    hard[0] = True
                    n = "u!%s" % x.decl().name()
                    if len(ys) > 2:
                        r = ys[0]
                        for y in ys[1:]:
                            r = z3.Function(n + str(r.size()), r.sort(), y.sort(), x.sort())(r, y)
                    else:
                        r = z3.Function(n + str(ys[0].size()), *([y.sort() for y in ys] + [x.sort()]))(*ys)
                else:
                    r = x.decl()(*ys) if cs else x
                cache[x.get_id()] = (x, r)
            return cache[t.get_id()][1]
        hard = [False]
        gs = [ab(f) for f in fs]
        if hard[0]:
            r, m = L.OpEngine.check(self, gs, 2000, False)
            if r == "unsat":
                return r, m
        return L.OpEngine.check(self, fs, timeout, want_model, vals)


def attempt(mod, it):
    """the contract of one function, products and quotients abstract where that suffices"""
    ABS[0] = True
    try:
        eng = StEngine(mod)
        L.prove(eng, it)
    finally:
        ABS[0] = False
    if eng.failures:
        eng = StEngine(mod)
        L.prove(eng, it)
    return eng


def suite():
    rnd = random.Random(vrun.SEED)
    return L.Suite("st", pairs(rnd) + sampled(rnd, 2200 if vrun.TIER == "quick" else 9000), PRELUDE)


def plan():
    su = suite()
    su.attempt = attempt
    p = L.make_plan(su)
    p.level = "translation_validation"
    p.assumptions = ["signed overflow, division by zero and shifts by the width or more have no defined result", "the sampled expressions have at most about ten operators and eight variables"]
    p.notes = "one function per expression; each proved for all values of its variables; every ordered pair of binary operators, and sampled longer expressions with calls, casts, brackets, assignments, increments and arbitrary layout between tokens"
    return p
