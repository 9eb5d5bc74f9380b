"""Which function a call reaches: contracts of functions whose body is one call of an overloaded name.

Reference: an argument fits a parameter exactly (same type), by promotion (to a wider type of the same family that holds every
value), or by another implicit conversion; anything but an integer fits no Bool.  A function fits a call as well as the worst of
its arguments, when the number of arguments is right.  The call reaches the function that fits best.  Calls for which that is not
one function are errors and are not generated."""
import random
import z3
import irvc, emit, vrun
import langops as L
from langops import I, W, B, AI, AW, F32, F64, conv, bv

EXACT, REFAGG, PROMO, IMPL, NONE = 4, 3, 2, 1, 0


class Cls:
    """a class with an Int[32] member x; chain: the classes it begins with; casters: (result type, mask of x)"""
    int, bits, kind, rank, arch = False, 0, "c", 0, False

    def __init__(self, name, body, chain=(), casters=()):
        self.name, self.chain, self.casters = name, chain, casters
        self.source = "  class %s { %s; %s };" % (name, body, "".join("handler this~cast[%s] { return (this.x $ %d)~cast[%s]; };" % (t.name, m, t.name) for t, m in casters))


class RefP:
    """a parameter by reference"""
    kind = "r"

    def __init__(self, base):
        self.base, self.name = base, "ref[%s]" % base.name
        self.int, self.bits, self.rank, self.arch = base.int, base.bits, base.rank, base.arch


KA = Cls("KA", "def x: Int[32]")
KB = Cls("KB", "@injection def k: KA; def y: Word[8]", (KA,))
KC = Cls("KC", "@injection def k: KB; def z: Int[64]", (KB, KA))
KD = Cls("KD", "def w: Word[8]; @injection def k: KA")
JA = Cls("JA", "def x: Int[32]", (), ((I[32], 1),))
JB = Cls("JB", "def x: Int[32]", (), ((I[64], 2), (W[8], 3)))
JC = Cls("JC", "def w: Int[8]; def x: Int[32]", (), ((W[16], 4), (I[8], 5), (W[64], 6)))
CLASSES = [KA, KB, KC, KD, JA, JB, JC]


def caster(a, b):
    """the handler that converts an object to b: the index of the one whose result fits best, and how well"""
    fs = [fit(t, b) for t, _ in a.casters]
    top = max(fs, default=NONE)
    if top == NONE:
        return None, NONE
    return (fs.index(top), top) if fs.count(top) == 1 else (None, top)


def fit(a, b):
    """how well an argument of type a fits a parameter of type b"""
    if a is b:
        return EXACT
    if isinstance(b, RefP):
        return EXACT if a is b.base else REFAGG if isinstance(a, Cls) and b.base in a.chain else NONE
    if isinstance(b, Cls):
        return NONE
    if isinstance(a, Cls):
        # a conversion handler fits worse than anything else, the better its result fits
        return caster(a, b)[1] / 10
    if a.int and b.int:
        if b.bits == 1:
            return NONE
        if b.arch:      # at least 32 bits
            wider = a.rank <= 32 and not a.arch
        else:
            wider = b.bits > a.bits
        if wider and (a.kind == b.kind or b.kind == "i"):
            return PROMO
        return IMPL
    if a.int:
        return IMPL
    if b.int:
        return NONE if b.bits == 1 else IMPL
    return PROMO if b.bits > a.bits else IMPL


def best(cands, args, rank=None):
    """index of the one best of the parameter lists, or None; a pack is ("pack", type or None, min, max);
    rank: of candidates that fit equally well the one with the higher rank is better"""
    fits = []
    for k, ps in enumerate(cands):
        fixed, pack = (ps[:-1], ps[-1]) if ps and isinstance(ps[-1], tuple) else (ps, None)
        if len(args) < len(fixed) or (pack is None and len(args) > len(fixed)):
            fits.append(NONE)
            continue
        m = [fit(a, p) for a, p in zip(args, fixed)]
        if pack:
            n = len(args) - len(fixed)
            if n < pack[2] or (pack[3] and n > pack[3]):
                m.append(NONE)
            m += [EXACT if pack[1] is None else fit(a, pack[1]) for a in args[len(fixed):]]
        fits.append(min(m) if m else EXACT)
    if rank:
        fits = [(f, r) if f else NONE for f, r in zip(fits, rank)]
    top = max(f for f in fits if f) if any(fits) else NONE
    return fits.index(top) if top and fits.count(top) == 1 else None


def decided(cands, args, split):
    """whether also each injected object alone decides the call, where it has a candidate that fits"""
    for m in (1, 2):
        c = [(x, -l) for x, l in zip(cands, split) if l >= m]
        if any(best([x], args) is not None for x, _ in c) and best([x for x, _ in c], args, [l for _, l in c]) is None:
            return False
    return True


TYPES = [I[8], I[16], I[32], I[64], W[8], W[16], W[32], W[64], B, F32, F64, AI, AW]
SOURCES = [I[8], I[16], I[32], I[64], W[8], W[16], W[32], W[64], B, F32, F64]


def mixer(names, k):
    """expression from which the first three arguments and the number of the overload can be read"""
    names = names[:3]
    return "mix%d(%s)" % (len(names), ", ".join([str(k)] + ["%s~cast[Word[64]]" % n for n in names]))


PRELUDE = """  func mix0(k: Word[64]): Word[64] { return k; };
  func mix1(k: Word[64], x: Word[64]): Word[64] { return (x << 4) $ k; };
  func mix2(k: Word[64], x: Word[64], y: Word[64]): Word[64] { return (x << 4) $ (y << 24) $ (y >> 40) $ k; };
  func mix3(k: Word[64], x: Word[64], y: Word[64], z: Word[64]): Word[64] { return (x << 4) $ (y << 24) $ (z << 44) $ (z >> 20) $ k; };
""" + "\n".join(c.source for c in CLASSES)


def mixval(k, vs):
    vs = vs[:3]
    r = bv(k, 64)
    if len(vs) > 0:
        r = r ^ (vs[0] << 4)
    if len(vs) == 2:
        r = r ^ (vs[1] << 24) ^ z3.LShR(vs[1], 40)
    if len(vs) == 3:
        r = r ^ (vs[1] << 24) ^ (vs[2] << 44) ^ z3.LShR(vs[2], 20)
    return r


class OItem(L.Item):
    """form: function | method | init | call | op | scope | inject;  cands: parameter lists; args: argument types"""
    def __init__(self, form, cands, args, lits, win, byref, op=None, split=None):
        self.form, self.cands, self.args, self.lits, self.win, self.op, self.split = form, cands, args, lits, win, op, split
        self.tvars = [I[32] if isinstance(t, Cls) else t for t, l in zip(args, lits) if l is None]
        L.Item.__init__(self, form, [(t, byref) for t in self.tvars], W[64], None, self.meaning)

    def meaning(self, *vals):
        vs, it = [], iter(vals)
        ps = self.cands[self.win]
        for i, (a, l) in enumerate(zip(self.args, self.lits)):
            v = next(it) if l is None else (bv(l, a.bits) if a.int else z3.FPVal(l, a.sort()))
            if i >= len(ps) or isinstance(ps[i], tuple):
                continue
            p = ps[i].base if isinstance(ps[i], RefP) else ps[i]
            if isinstance(p, Cls):
                vs.append(conv(v, I[32], W[64]))
            elif p.int:
                if isinstance(a, Cls):
                    t, m = a.casters[caster(a, p)[0]]
                    v, a = conv(v ^ bv(m, 32), I[32], t), t
                vs.append(conv(conv(v, a, p), p, W[64]))
        return dict(ret=mixval(self.win, vs), mem={}, ok=z3.BoolVal(True))

    def defs(self):
        n = self.name
        out = []
        for k, ps in enumerate(self.cands):
            fixed = [p for p in ps if not isinstance(p, tuple)]
            names = ["p%d" % i for i in range(len(fixed))]
            decl = ["%s: %s" % (x, t.name) for x, t in zip(names, fixed)]
            if len(fixed) < len(ps):
                p = ps[-1]
                t = p[1].name if p[1] else "any"
                decl.append("args: ...%s" % (t if p[2] == 0 and p[3] == 0 else "[%s, %d, %d]" % (t, p[2], p[3]) if p[3] else "[%s, %d]" % (t, p[2])))
            cls = lambda t: isinstance(t, Cls) or isinstance(t, RefP) and isinstance(t.base, Cls)
            ints = [x + (".x" if cls(t) else "") for x, t in zip(names, fixed) if t.int or cls(t)]
            v = mixer(ints, k)
            d = ", ".join(decl)
            head = {"function": "func f_%s(%s): Word[64]" % (n, d), "scope": "func f_%s(%s): Word[64]" % (n, d), "method": "handler this.f(%s): Word[64]" % d, "self": "handler this.f(%s): Word[64]" % d, "static": "func f(%s): Word[64]" % d, "qualified": "func f(%s): Word[64]" % d, "alias": "func f(%s): Word[64]" % d, "inject": "handler this.f(%s): Word[64]" % d, "call": "handler this(%s): Word[64]" % d,
                    "op": "handler this %s (%s): Word[64]" % (self.op, d), "init": "handler this~init(%s)" % d}[self.form]
            out.append("%s { %s };" % (head, "this.v = " + v if self.form == "init" else "return " + v))
        if self.form == "function":
            return "  " + "\n  ".join(out)
        if self.form in ("qualified", "alias"):
            return "  module Q_%s { %s };%s" % (n, "\n    ".join(out), "\n  def g_%s: alias Q_%s.f;" % (n, n) if self.form == "alias" else "")
        if self.form == "self":
            out.append("handler this.g(%s): Word[64] { return this.f(%s); };" % (self.selfdecl(), ", ".join(self.actual(False))))
        if self.form == "scope":
            # the candidates are spread over a module and the one around it
            inner = [o for k, o in enumerate(out) if k in self.split]
            outer = [o for k, o in enumerate(out) if k not in self.split]
            return "  %s\n  module M_%s { %s" % ("\n  ".join(outer), n, "\n    ".join(inner))
        if self.form == "inject":
            lv = ["\n    ".join(o for o, l in zip(out, self.split) if l == k) for k in range(3)]
            a = "  class A_%s { def w: Word[8]; %s };\n" % (n, lv[2]) if 2 in self.split else ""
            return a + "  class B_%s { %s; %s };\n  class C_%s { @injection def b: B_%s; %s };" % (n, "@injection def a: A_%s" % n if a else "def w: Word[8]", lv[1], n, n, lv[0])
        if self.form == "init":
            return "  class C_%s { def v: Word[64]; %s };" % (n, "\n    ".join(out))
        return "  class C_%s { def v: Word[8]; %s };" % (n, "\n    ".join(out))

    def selfdecl(self):
        it = iter("abcdefgh")
        return ", ".join("%s: %s" % (next(it), "ref[%s]" % t.name if isinstance(t, Cls) else t.name) for t, l in zip(self.args, self.lits) if l is None)

    def actual(self, objs):
        it = iter("abcdefgh")
        a = [next(it) if l is None else self.lit(t, l) for t, l in zip(self.args, self.lits)]
        return ["o_" + x if objs and isinstance(t, Cls) else x for t, x in zip(self.args, a)]

    def source(self):
        args = self.actual(True)
        pre = "".join("def %s: %s; %s.x = %s; " % (x, t.name, x, x[2:]) for t, x in zip(self.args, args) if isinstance(t, Cls))
        a = ", ".join(args)
        n = self.name
        body = {"function": "return f_%s(%s);" % (n, a), "scope": "return f_%s(%s);" % (n, a), "method": "def o: C_%s; return o.f(%s);" % (n, a), "self": "def o: C_%s; return o.g(%s);" % (n, ", ".join(x for x, l in zip(args, self.lits) if l is None)), "static": "return C_%s.f(%s);" % (n, a), "qualified": "return Q_%s.f(%s);" % (n, a), "alias": "return g_%s(%s);" % (n, a), "inject": "def o: C_%s; return o.f(%s);" % (n, a), "call": "def o: C_%s; return o(%s);" % (n, a),
                "op": "def o: C_%s; return o %s %s;" % (n, self.op, args[0] if args else ""), "init": "def o: C_%s(%s); return o.v;" % (n, a)}[self.form]
        if self.form == "init" and not args:
            body = "def o: C_%s; return o.v;" % n
        body = pre + body
        ps = ", ".join("%s: %s" % (x, "ref[%s]" % t.name if r else t.name) for x, (t, r) in zip("abcdefgh", self.params))
        f = "  @expname[%s] func %s(%s): Word[64] { %s };" % (n, n, ps, body)
        self.body = body
        return self.defs() + ("\n  " + f + " };" if self.form == "scope" else "\n" + f)

    def lit(self, t, l):
        if t.int:
            return str(l) + ("u" if t.kind == "u" else "")
        return "%s" % l + ("f32" if t.bits == 32 else "f64")

    def describe(self):
        s = lambda ps: "(%s)" % ", ".join(p.name if not isinstance(p, tuple) else "...[%s, %d, %d]" % (p[1].name if p[1] else "any", p[2], p[3]) for p in ps)
        return "overloads %s%s; called with (%s): %s" % (self.form, " ".join(s(c) for c in self.cands), ", ".join(t.name if l is None else self.lit(t, l) for t, l in zip(self.args, self.lits)), "the language selects number %d" % self.win)


LITS = [(I[8], 5), (I[8], 100), (I[16], 200), (I[16], 1000), (I[32], 100000), (W[8], 7), (W[8], 200), (W[16], 500), (W[32], 70000), (F32, 1.5)]


OPS = ["+", "-", "*", "/", "%", "&", "|", "$", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "$=", "<<=", ">>="]


def sample(rnd, n, form):
    out, seen = [], set()
    while len(out) < n:
        na = rnd.choice([1, 1, 2, 2, 3]) if form != "op" else 1
        args, lits = [], []
        for _ in range(na):
            if rnd.random() < 0.2:
                t, l = rnd.choice(LITS)
            else:
                t, l = rnd.choice(SOURCES), None
            args.append(t)
            lits.append(l)
        nc = rnd.choice([2, 2, 3, 3, 4, 5])
        cands = []
        for _ in range(nc):
            m = na if rnd.random() < 0.8 or form == "op" else rnd.choice([0, 1, 2, 3])
            # keep near the arguments, so that several fit
            c = [rnd.choice(TYPES) if i >= na or rnd.random() < 0.6 else args[i] for i in range(m)]
            if form in ("function", "scope") and rnd.random() < 0.12 and m:
                lo = rnd.choice([0, 0, 1, 2])
                hi = rnd.choice([0, 0, 2, 3])
                if hi == 0 or hi >= lo:
                    c[-1] = ("pack", rnd.choice([None, I[32], I[64], F64]), lo, hi)
            if tuple(c) not in [tuple(x) for x in cands]:
                cands.append(c)
        if len(cands) < 2:
            continue
        split = None
        if form == "inject":
            split = [rnd.choice([0, 0, 1, 1, 2]) for _ in cands]
        if form == "scope":
            split = {k for k in range(len(cands)) if rnd.random() < 0.5}
        if form == "scope":
            # a name in the inner module hides the same name around it
            if not split:
                split = set(range(len(cands)))
            w = best([c if k in split else [B, B, B, B] for k, c in enumerate(cands)], args)
        elif form == "inject":
            # of those that fit equally well the object's own comes before the injected one's
            w = best(cands, args, [-l for l in split])
            # a call that the injected object alone could not decide is reported as ambiguous; not claimed here
            if not decided(cands, args, split):
                continue
        else:
            w = best(cands, args)
        if w is None:
            continue
        # float values converted to integers are not defined for all values
        ps = cands[w]
        if any(not isinstance(p, tuple) and p.int and not a.int for a, p in zip(args, ps)):
            continue
        if any(isinstance(p, tuple) for p in ps) and any(not a.int and l is None and ps[-1][1] is not None and ps[-1][1].int for a, l in zip(args, lits)):
            continue
        if (sum(c.count(args[0]) for c in cands if c) == len(cands)) and rnd.random() < 0.5:
            continue
        it = OItem(form, cands, args, lits, w, rnd.random() < 0.4, rnd.choice(OPS), split)
        out.append(it)
    return out


def objects(rnd, n):
    """objects, references and conversion handlers among the arguments and parameters"""
    out = []
    pool = CLASSES + [RefP(c) for c in CLASSES] * 2 + [RefP(t) for t in SOURCES if t.int and t is not B] + [t for t in TYPES if t.int and t is not B]
    near = {c: [c] + [RefP(c)] * 2 + [RefP(b) for b in c.chain] * 3 + [rnd.choice(pool)] + [I[64], I[32], W[8], W[64], I[16]] * (2 if c.casters else 0) for c in CLASSES}
    while len(out) < n:
        form = rnd.choice(["function", "function", "method", "call", "init", "op", "scope", "self", "static", "qualified", "alias"])
        na = rnd.choice([1, 1, 2, 2, 3]) if form != "op" else 1
        args = [rnd.choice(CLASSES) if rnd.random() < 0.75 else rnd.choice([t for t in SOURCES if t.int]) for _ in range(na)]
        cands = []
        for _ in range(rnd.choice([2, 2, 3, 4])):
            m = na if rnd.random() < 0.9 or form == "op" else rnd.choice([1, 2, 3])
            c = [rnd.choice(pool) if i >= na or rnd.random() < 0.15 else rnd.choice(near[args[i]]) if args[i] in near else rnd.choice([args[i], rnd.choice(TYPES), RefP(args[i]) if args[i] is not B else args[i]]) for i in range(m)]
            if [x.name for x in c] not in [[x.name for x in y] for y in cands]:
                cands.append(c)
        if len(cands) < 2:
            continue
        w = best(cands, args)
        if w is None or any(isinstance(a, Cls) and not isinstance(p, (Cls, RefP)) and caster(a, p)[0] is None for a, p in zip(args, cands[w])):
            continue
        if any(not isinstance(p, (Cls, RefP)) and not p.int for p in cands[w]):
            continue
        out.append(OItem(form, cands, args, [None] * na, w, rnd.random() < 0.3, rnd.choice(OPS), set(range(len(cands))) if form == "scope" else None))
    return out


def pairwise(rnd):
    """every argument type against every pair of parameter types that decides"""
    out = []
    for a in SOURCES:
        for i, p in enumerate(TYPES):
            for q in TYPES[:i]:
                c = [[p], [q]]
                if rnd.random() < 0.5:
                    c.reverse()
                w = best(c, [a])
                if w is None or (not a.int and c[w][0].int):
                    continue
                out.append(OItem("function", c, [a], [None], w, rnd.random() < 0.3))
    return out


def packs(rnd):
    """packs of every size limit, called with every number of arguments near the limits"""
    out = []
    for form in ("function", "scope"):
        for t in (None, I[32], I[64], F64):
            for lo, hi in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (1, 0), (2, 0), (3, 0)):
                for fixed in ([], [I[32]], [W[16], I[64]]):
                    for n in range(5):
                        a = rnd.choice([I[32], I[16]]) if t is not F64 else F32
                        args = fixed + [a] * n
                        # what the pack does not accept goes to the other, which fits worse
                        c = [fixed + [("pack", t, lo, hi)], fixed + ([B] if rnd.random() < 0.2 else [W[16] if a.int else F64]) * n]
                        if t is F64:
                            c[1] = fixed + [("pack", F32, 0, 0)] if rnd.random() < 0.5 else c[1]
                        if c[1][-1:] and isinstance(c[1][-1], tuple) and rnd.random() < 0.5:
                            c.reverse()
                        w = best(c, args)
                        if w is None or len(args) > 5 or (a.int and any(p is not None and not isinstance(p, tuple) and not p.int for p in c[w])):
                            continue
                        out.append(OItem(form, c, args, [None] * len(args), w, False, None, {0, 1} if form == "scope" else None))
    return out


def suite():
    rnd = random.Random(vrun.SEED)
    k = 2 if vrun.TIER == "quick" else 8
    items = pairwise(rnd) + packs(rnd)
    for form, n in (("function", 300), ("method", 150), ("init", 120), ("call", 80), ("op", 120), ("scope", 100), ("inject", 220), ("self", 80), ("static", 60), ("qualified", 60), ("alias", 60)):
        items += sample(rnd, n * k, form)
    items += objects(rnd, 500 * k)
    return L.Suite("ov", items, PRELUDE)


def plan():
    p = L.make_plan(suite())
    p.level = "translation_validation"
    p.assumptions = ["a function's body other than the one call is proved only as far as it tells which overload ran and with which arguments"]
    p.notes = "one function per call; each proved for all values of the arguments; every argument type against every pair of parameter types that decides, and sampled sets of up to five overloads as functions, methods, initializers, call handlers, operator handlers, in nested modules, behind an injection, an alias or a qualified name, with numbers, references, objects and conversion handlers among the arguments"
    return p
