"""The language's operators and conversions: contracts for every operator on every combination of operand types.

The specification is written from the language's rules, over mathematical conversions of the operands; the verified
text is the IR the repository's compiler emits for one function per operator and type combination."""
import z3
import irvc, emit, vrun
from irvc import *


class Ty:
    def __init__(self, name, kind, bits, arch=False):
        self.name, self.kind, self.bits, self.arch = name, kind, bits, arch   # kind: i (signed), u, f

    @property
    def int(self):
        return self.kind in "iu"

    @property
    def rank(self):
        """width as the promotion rules see it: an arch type counts as at least 33 bits"""
        return 33 if self.arch else self.bits

    def sort(self):
        return z3.Float32() if self.bits == 32 else z3.Float64()

    def size(self):
        return max(1, self.bits // 8)

    def irt(self):
        return irvc.ir.INT(self.bits) if self.int else irvc.ir.T("float" if self.bits == 32 else "double")


I = {n: Ty("Int[%d]" % n, "i", n) for n in (1, 8, 16, 32, 64)}
W = {n: Ty("Word[%d]" % n, "u", n) for n in (1, 8, 16, 32, 64)}
AI, AW = Ty("ArchInt", "i", 64, True), Ty("ArchWord", "u", 64, True)
B = W[1]
F32, F64 = Ty("Float[32]", "f", 32), Ty("Float[64]", "f", 64)
INTS = [I[8], I[16], I[32], I[64], AI, W[8], W[16], W[32], W[64], AW]
NUM = INTS + [F32, F64]
FREM = {32: z3.Function("frem32", z3.Float32(), z3.Float32(), z3.Float32()), 64: z3.Function("frem64", z3.Float64(), z3.Float64(), z3.Float64())}


def conv(v, s, t):
    """the value v of type s converted to type t"""
    if s.int and t.int:
        if t.bits > s.bits:
            return (z3.SignExt if s.kind == "i" else z3.ZeroExt)(t.bits - s.bits, v)
        return v if t.bits == s.bits else z3.Extract(t.bits - 1, 0, v)
    if s.int:
        return z3.fpToFP(z3.RNE(), v, t.sort()) if s.kind == "i" else z3.fpToFPUnsigned(z3.RNE(), v, t.sort())
    if t.int:
        return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t.bits)) if t.kind == "i" else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t.bits))
    return v if s.bits == t.bits else z3.fpToFP(z3.RNE(), v, t.sort())


def int_of(kind, rank):
    if kind == "i":
        return AI if rank == 33 else I[rank]
    return AW if rank == 33 else W[rank]


def arith_type(a, b):
    """result type of + - * / %"""
    if a.kind == "f" or b.kind == "f":
        if a.kind == b.kind == "f":
            return a if a.bits >= b.bits else b
        return a if a.kind == "f" else b
    return int_of("u" if a.kind == b.kind == "u" else "i", max(a.rank, b.rank, 32))


def bit_type(a, b):
    return int_of("u" if a.kind == b.kind == "u" else "i", max(a.rank, b.rank))


def comparable(a, b):
    """comparison of integers of different signedness is accepted only when no value can change"""
    if a.kind == "f" or b.kind == "f" or a.kind == b.kind:
        return True
    u, s = (a, b) if a.kind == "u" else (b, a)
    if u.arch:
        return False
    if s.arch:
        return u.bits < 32
    return u.bits < s.bits


def arith(op, t, x, y):
    """(value, condition under which the language defines it)"""
    T = z3.BoolVal(True)
    if t.kind == "f":
        r = z3.RNE()
        return {"+": lambda: z3.fpAdd(r, x, y), "-": lambda: z3.fpSub(r, x, y), "*": lambda: z3.fpMul(r, x, y), "/": lambda: z3.fpDiv(r, x, y),
                "%": lambda: FREM[t.bits](x, y)}[op](), T
    n = t.bits
    if op == "+":
        return x + y, T if t.kind == "u" else z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
    if op == "-":
        return x - y, T if t.kind == "u" else z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
    if op == "*":
        return x * y, T if t.kind == "u" else z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
    ok = y != 0
    if t.kind == "i":
        ok = z3.And(ok, z3.Not(z3.And(x == bv(1 << (n - 1), n), y == bv((1 << n) - 1, n))))
        return (x / y if op == "/" else z3.SRem(x, y)), ok
    return (z3.UDiv(x, y) if op == "/" else z3.URem(x, y)), ok


def bitop(op, t, x, y):
    if op in ("<<", ">>"):
        ok = z3.ULT(y, bv(t.bits, t.bits)) if t.bits > 1 else y == 0
        return (x << y if op == "<<" else (x >> y if t.kind == "i" else z3.LShR(x, y))), ok
    return {"&": x & y, "|": x | y, "$": x ^ y}[op], z3.BoolVal(True)


def compare(op, a, b, x, y):
    if a.kind == "f" or b.kind == "f":
        t = arith_type(a, b)
        x, y = conv(x, a, t), conv(y, b, t)
        return {"==": z3.fpEQ(x, y), "!=": z3.Not(z3.fpEQ(x, y)), "<": z3.fpLT(x, y), ">": z3.fpGT(x, y), "<=": z3.fpLEQ(x, y), ">=": z3.fpGEQ(x, y)}[op]
    # the mathematical values
    x = (z3.SignExt if a.kind == "i" else z3.ZeroExt)(66 - a.bits, x)
    y = (z3.SignExt if b.kind == "i" else z3.ZeroExt)(66 - b.bits, y)
    return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]


class Item:
    """one harness function.  params: list of (type, byref); spec(values) -> dict(ret=(Ty, value) | None, mem={i: value}, ok=cond)"""
    def __init__(self, group, params, rett, body, spec, strict=False):
        self.group, self.params, self.rett, self.body, self.spec = group, params, rett, body, spec
        self.name = None

    def source(self):
        ps = ", ".join("%s: %s" % ("abcdefgh"[i], "ref[%s]" % t.name if r else t.name) for i, (t, r) in enumerate(self.params))
        return "  @expname[%s] func %s(%s)%s { %s };" % (self.name, self.name, ps, ": " + self.rett.name if self.rett else "", self.body)

    def describe(self):
        return "func (%s)%s { %s }" % (", ".join(("ref " if r else "") + t.name for t, r in self.params), ": " + self.rett.name if self.rett else "", self.body)


AR, BI, SH, CM = ["+", "-", "*", "/", "%"], ["&", "|", "$"], ["<<", ">>"], ["==", "!=", "<", ">", "<=", ">="]


def fp_in_range(v, s, t):
    """the truncated value of the float v fits in the integer type t"""
    lo = -(1 << (t.bits - 1)) if t.kind == "i" else 0
    hi = (1 << (t.bits - 1)) if t.kind == "i" else (1 << t.bits)
    w = z3.FPVal(float(lo), s.sort())
    h = z3.FPVal(float(hi), s.sort())
    return z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(v, w), z3.fpLT(v, h))


def operators():
    out = []

    def item(*a):
        out.append(Item(*a))
    ints1 = INTS + [B]
    # arithmetic
    for a in NUM + [B]:
        for b in NUM + [B]:
            t = arith_type(a, b)
            for op in AR:
                r = t if t.kind == "f" else I[64]

                def spec(x, y, a=a, b=b, t=t, op=op, r=r):
                    v, ok = arith(op, t, conv(x, a, t), conv(y, b, t))
                    return dict(ret=conv(v, t, r), ok=ok)
                cast = "" if t.kind == "f" else "~cast[Int[64]]"
                item("arith " + op, [(a, 0), (b, 0)], r, "return (a %s b)%s;" % (op, cast), spec)
            if t.kind != "f":
                # the signedness of the result
                def spec(x, y, a=a, b=b, t=t):
                    v, ok = arith("+", t, conv(x, a, t), conv(y, b, t))
                    return dict(ret=conv(bitop(">>", t, v, bv(1, t.bits))[0], t, I[64]), ok=ok)
                item("arith-type", [(a, 0), (b, 0)], I[64], "return ((a + b) >> 1)~cast[Int[64]];", spec)
    for a in ints1:
        for b in ints1:
            t = bit_type(a, b)
            for op in BI:
                def spec(x, y, a=a, b=b, t=t, op=op):
                    v, ok = bitop(op, t, conv(x, a, t), conv(y, b, t))
                    return dict(ret=conv(v, t, I[64]), ok=ok)
                item("bitwise " + op, [(a, 0), (b, 0)], I[64], "return (a %s b)~cast[Int[64]];" % op, spec)
    for a in INTS:
        for b in INTS:
            for op in SH:
                def spec(x, y, a=a, b=b, op=op):
                    v, ok = bitop(op, a, x, conv(y, b, a))
                    n = max(a.bits, b.bits)
                    ok = z3.ULT(z3.ZeroExt(66 - b.bits, y), bv(a.bits, 66))
                    return dict(ret=conv(v, a, I[64]), ok=ok)
                item("shift " + op, [(a, 0), (b, 0)], I[64], "return (a %s b)~cast[Int[64]];" % op, spec)
    for a in NUM + [B]:
        for b in NUM + [B]:
            if not comparable(a, b):
                continue
            for op in CM:
                item("compare " + op, [(a, 0), (b, 0)], B, "return a %s b;" % op, lambda x, y, a=a, b=b, op=op: dict(ret=b2i(compare(op, a, b, x, y)), ok=z3.BoolVal(True)))
    # unary
    for a in NUM:
        if a.kind == "f":
            item("unary -", [(a, 0)], a, "return -a;", lambda x: dict(ret=z3.fpNeg(x), ok=z3.BoolVal(True)))
            item("unary +", [(a, 0)], a, "return +a;", lambda x: dict(ret=x, ok=z3.BoolVal(True)))
        else:
            sg = int_of("i", a.rank)
            item("unary -", [(a, 0)], I[64], "return (-a)~cast[Int[64]];", lambda x, a=a, sg=sg: dict(ret=conv(-x, sg, I[64]), ok=z3.BoolVal(True)))
            item("unary +", [(a, 0)], I[64], "return (+a)~cast[Int[64]];", lambda x, a=a: dict(ret=conv(x, a, I[64]), ok=z3.BoolVal(True)))
            item("unary !", [(a, 0)], I[64], "return (!a)~cast[Int[64]];", lambda x, a=a: dict(ret=conv(~x, a, I[64]), ok=z3.BoolVal(True)))
    for w in ("not a", "!!a", "!a"):
        item("unary not", [(B, 0)], B, "return %s;" % w, lambda x: dict(ret=~x, ok=z3.BoolVal(True)))
    # increments
    for a in NUM:
        one = (lambda a: z3.FPVal(1.0, a.sort()) if a.kind == "f" else bv(1, a.bits))(a)
        for src, op, early in (("++a", "+", 1), ("--a", "-", 1), ("a++", "+", 0), ("a--", "-", 0)):
            def spec(x, a=a, op=op, early=early, one=one):
                v, ok = arith(op, a, x, one)
                return dict(ret=v if early else x, mem={0: v}, ok=ok)
            item("step " + src, [(a, 1)], a, "return %s;" % src, spec)
    # compound assignments
    for a in NUM:
        for b in NUM:
            t = arith_type(a, b)
            for op in AR:
                def spec(x, y, a=a, b=b, t=t, op=op):
                    v, ok = arith(op, t, conv(x, a, t), conv(y, b, t))
                    if t.kind == "f" and a.int:
                        ok = z3.And(ok, fp_in_range(v, t, a))
                    v = conv(v, t, a)
                    return dict(ret=v, mem={0: v}, ok=ok)
                item("assign %s=" % op, [(a, 1), (b, 0)], a, "return a %s= b;" % op, spec)
    for a in INTS:
        for b in INTS:
            for op in BI + SH:
                def spec(x, y, a=a, b=b, op=op):
                    v, ok = bitop(op, a, x, conv(y, b, a))
                    if op in SH:
                        ok = z3.ULT(z3.ZeroExt(66 - b.bits, y), bv(a.bits, 66))
                    return dict(ret=v, mem={0: v}, ok=ok)
                item("assign %s=" % op, [(a, 1), (b, 0)], a, "return a %s= b;" % op, spec)
    # nested expressions, literals and priorities
    i, u = I[32], W[32]
    ok0 = z3.BoolVal(True)

    def nsw(*e):
        return z3.And(*[z3.And(z3.BVAddNoOverflow(p, q, True), z3.BVAddNoUnderflow(p, q)) if o == "+" else
                        z3.And(z3.BVSubNoOverflow(p, q), z3.BVSubNoUnderflow(p, q, True)) if o == "-" else
                        z3.And(z3.BVMulNoOverflow(p, q, True), z3.BVMulNoUnderflow(p, q)) for o, p, q in e])
    item("nested", [(u, 0), (u, 0), (u, 0)], u, "return a + b * c;", lambda a, b, c: dict(ret=a + b * c, ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], u, "return (a + b) * c;", lambda a, b, c: dict(ret=(a + b) * c, ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], u, "return a - b - c;", lambda a, b, c: dict(ret=(a - b) - c, ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], u, "return a - (b - c);", lambda a, b, c: dict(ret=a - (b - c), ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], u, "return a + b & c;", lambda a, b, c: dict(ret=a + (b & c), ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], u, "return a * b | c;", lambda a, b, c: dict(ret=a * (b | c), ok=ok0))
    item("nested", [(u, 0), (u, 0)], B, "return a + b == b + a;", lambda a, b: dict(ret=bv(1, 1), ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], B, "return a < b && b < c;", lambda a, b, c: dict(ret=b2i(z3.And(z3.ULT(a, b), z3.ULT(b, c))), ok=ok0))
    item("nested", [(u, 0), (u, 0), (u, 0)], B, "return a == b || b != c;", lambda a, b, c: dict(ret=b2i(z3.Or(a == b, b != c)), ok=ok0))
    item("nested", [(i, 0), (i, 0)], i, "return -a - b;", lambda a, b: dict(ret=-a - b, ok=nsw(("-", -a, b))))
    item("nested", [(u, 0), (u, 0)], u, "return a * 3 + b * 1000;", lambda a, b: dict(ret=a * 3 + b * 1000, ok=nsw(("*", a, bv(3, 32)), ("*", b, bv(1000, 32)), ("+", a * 3, b * 1000))))
    item("nested", [(u, 1), (u, 1)], u, "a = b = a + b; return a;", lambda a, b: dict(ret=a + b, mem={0: a + b, 1: a + b}, ok=ok0))
    item("nested", [(u, 1), (u, 1)], u, "return a++ + ++b;", lambda a, b: dict(ret=a + b + 1, mem={0: a + 1, 1: b + 1}, ok=ok0))
    item("nested", [(u, 1)], u, "(a += 5) *= 3; return a;", lambda a: dict(ret=(a + 5) * 3, mem={0: (a + 5) * 3}, ok=z3.And(nsw(("+", a, bv(5, 32)), ("*", a + 5, bv(3, 32))))))
    for n in (0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807):
        for t in (I[64], W[64]):
            item("literal", [(t, 0)], t, "return a $ %d;" % n, lambda a, n=n: dict(ret=a ^ bv(n, 64), ok=ok0))
        item("literal", [], I[64], "return %d;" % n, lambda n=n: dict(ret=bv(n, 64), ok=ok0))
        if n < 2 ** 63 - 1:
            item("literal", [], F64, "return %d;" % n, lambda n=n: dict(ret=z3.FPVal(float(n), z3.Float64()), ok=ok0))
    return out


def conversions():
    out = []
    T = z3.BoolVal(True)
    forms = [("explicit", "return a~cast[%s];", 0), ("initialisation", "def x: %s(a); return x;", 0), ("assignment", "def x: %s; x = a; return x;", 0),
             ("return", "return a;%.0s", 0), ("argument", "return id_%s(a);", 1), ("parameter", "def x: %s = a; return x;", 0),
             ("method argument", "def o: K_%s; return o.f(a);", 1), ("handler argument", "def o: K_%s; return o + a;", 1), ("init argument", "def o: N_%s(a); return o.v;", 1),
             ("member", "def o: K_%s; o.v = a; return o.v;", 1), ("pointer call", "def p: ptr[func (x: %s): %s]; p = id_%s~ptr; return p(a);", 2), ("element", "def o: array[%s, 3]; o(1) = a; return o(1);", 0),
             ("pack", "return pk_%s(1, a);", 1)]
    types = INTS + [B, F32, F64]
    for a in types:
        for b in types:
            if b is B and a is not B:
                continue    # the language has no conversion to Bool
            for fname, f, isid in forms:
                tn = b.name.replace("[", "").replace("]", "") if isid else b.name
                if isid == 2:
                    tn = (b.name, b.name, tn)
                if fname == "pack" and (b.bits < 32 or b is F32):
                    continue    # variadic arguments of these types are widened by the C rules

                def spec(x, a=a, b=b):
                    return dict(ret=conv(x, a, b), ok=fp_in_range(x, a, b) if a.kind == "f" and b.int else T)
                out.append(Item("convert " + fname, [(a, 0)], b, f % tn, spec))
            # store through a reference, widths of the stored cell
            out.append(Item("convert store", [(b, 1), (a, 0)], None, "a = b;", lambda x, y, a=a, b=b: dict(mem={0: conv(y, a, b)}, ok=fp_in_range(y, a, b) if a.kind == "f" and b.int else T)))
    # chains: widening then narrowing
    for a in INTS:
        for b in INTS:
            out.append(Item("convert chain", [(a, 0)], I[64], "return a~cast[%s]~cast[Int[64]];" % b.name, lambda x, a=a, b=b: dict(ret=conv(conv(x, a, b), b, I[64]), ok=T)))
    return out


PRE = {"conv": "\n".join("""  func id_%s(x: T_): T_ { return x; };
  class K_%s { def p: Word[8]; def v: T_; def q: Word[8]; handler this.f(x: T_): T_ { return x; }; handler this + (x: T_): T_ { return x; }; };
  class N_%s { def p: Word[8]; def v: T_; def q: Word[8]; handler this~init(x: T_) { this.v = x; }; };
  func pk_%s(n: Int, args: ...T_): T_ { return args~next_arg[T_]; };""".replace("%s", t.name.replace("[", "").replace("]", "")).replace("T_", t.name) for t in INTS + [B, F32, F64])}


class Suite:
    def __init__(self, name, items, pre=""):
        self.name, self.items, self.pre = name, items, pre
        for k, it in enumerate(items):
            it.name = "%s_%d" % (name, k)
        self.mods, self.lls = None, None

    def emit(self):
        """several modules, compiled in parallel"""
        import concurrent.futures as cf
        n = 6
        emit.dist()
        parts = [list(range(k, len(self.items), n)) for k in range(n)]

        def one(k):
            src = 'import "Spp";\nmodule T {\n%s\n%s\n};\nSpp.buildMgr.dumpLlvmIrForElement(T~ast);\n' % (self.pre, "\n".join(self.items[i].source() for i in parts[k]))
            return emit.alusus_ir(src, "%s%d" % (self.name, k))
        with cf.ThreadPoolExecutor(n) as ex:
            r = list(ex.map(one, range(n)))
        self.where = {}
        for k, p in enumerate(parts):
            for i in p:
                self.where[self.items[i].name] = r[k][:2]
        return self


def symval(eng, t, name):
    if t.int:
        v = z3.FreshConst(z3.BitVecSort(t.bits), name)
    else:
        v = z3.FreshConst(t.sort(), name)
    eng.inputs[name] = v
    return v


def irval(t, v):
    return v == 1 if t.int and t.bits == 1 else v


def asbv(t, v):
    return b2i(v) if t.int and t.bits == 1 and z3.is_bool(v) else v


def prove(eng, it):
    """one function contract"""
    st = State()
    args, vals, cells = [], [], {}
    for i, (t, ref) in enumerate(it.params):
        v = symval(eng, t, "abcdefgh"[i])
        vals.append(v)
        if ref:
            o = eng.new_obj(st, "ref%d" % i, "arg", t.size())
            eng.store(st, Ptr(o, 0), irval(t, v), t.irt())
            args.append(Ptr(o, 0))
            cells[i] = Ptr(o, 0)
        else:
            args.append(irval(t, v))
    s = it.spec(*vals)
    st.assume(s["ok"])
    if not eng.feasible(st):
        raise irvc.Unsupported("contradictory precondition of " + it.name)
    eng.stats.covers += 1
    outs = eng.call(st, it.name, args)
    for o, v in outs:
        if isinstance(v, (Throw, Exit)):
            eng.oblige(o, False, "normal-return")
            continue
        if it.rett is not None:
            eng.oblige(o, eqv(asbv(it.rett, v), s["ret"]), "result", assume=False)
        for i, p in cells.items():
            t = it.params[i][0]
            w = s.get("mem", {}).get(i, vals[i])
            got = eng.load(o, p, t.irt())
            eng.oblige(o, eqv(asbv(t, got), w), "variable-%s" % "abcdefgh"[i], assume=False)


def eqv(x, y):
    return z3.simplify(x == y)


class OpEngine(Engine):
    def frem(self, a, b):
        return FREM[a.ebits() + a.sbits()](a, b)

    def binop(self, st, op, a, b, fl):
        r = Engine.binop(self, st, op, a, b, fl)
        if "nsw" in fl and z3.is_bv(a) and z3.is_bv(r):
            # the emitted instruction has no defined result on signed overflow
            c = {"add": lambda: z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                 "sub": lambda: z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                 "mul": lambda: z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}.get(op)
            if c is not None:
                self.oblige(st, c(), "no-undefined-result")
        return r


def t_chunk(suite, names):
    engs = []
    for n in names:
        it = suite.by[n]
        mod = suite.where[n][0]
        if hasattr(suite, "attempt"):
            eng = suite.attempt(mod, it)
        else:
            eng = OpEngine(mod)
            prove(eng, it)
        for f in eng.failures:
            f.name = "%s/%s: %s" % (f.name, it.group, it.describe())
            f.item = n
        engs.append(eng)
    return engs


def tasks(suite, size=40):
    suite.by = {it.name: it for it in suite.items}
    groups = {}
    for it in suite.items:
        groups.setdefault(it.group, []).append(it.name)
    T = []
    for g, ns in groups.items():
        for k in range(0, len(ns), size):
            T.append(vrun.Task("%s#%d" % (g, k // size), t_chunk, (suite, ns[k:k + size]), function=g))
    return T


# ---------------------------------------------------------------- concrete replay
CORNER_I = [0, 1, 2, 3, 5, 7, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63]
CORNER_F = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.75, 127.0, 128.0, 200.0, 255.0, -128.0, 40000.0, 3e9, -3e9, 1e18, 1.5e19, 1e30, 0.1, float("inf"), float("-inf"), float("nan")]


def corners(t, model):
    if t.int:
        m = (1 << t.bits) - 1
        vs = []
        if model is not None:
            vs.append(model & m)
        for v in CORNER_I:
            for x in (v & m, -v & m):
                if x not in vs:
                    vs.append(x)
        return vs
    return ([model] if isinstance(model, float) else []) + CORNER_F


def ctype(t):
    import ctypes as c
    if t.kind == "f":
        return c.c_float if t.bits == 32 else c.c_double
    if t.bits == 1:
        return c.c_bool
    return {("i", 8): c.c_int8, ("i", 16): c.c_int16, ("i", 32): c.c_int32, ("i", 64): c.c_int64, ("u", 8): c.c_uint8, ("u", 16): c.c_uint16, ("u", 32): c.c_uint32, ("u", 64): c.c_uint64}[(t.kind, t.bits)]


def zval(t, v):
    return bv(v, t.bits) if t.int else z3.FPVal(v, t.sort())


def same(t, z, got):
    z = z3.simplify(z)
    if t.int:
        return z3.is_bv_value(z) and z.as_long() == int(got) & ((1 << t.bits) - 1)
    return z3.is_true(z3.simplify(z == z3.FPVal(got, t.sort())))


def show(t, z):
    z = z3.simplify(z)
    return str(z.as_signed_long() if t.kind == "i" else z.as_long()) if z3.is_bv_value(z) else str(z)


def frem_value(n, x, y):
    import math
    s = z3.Float32() if n == 32 else z3.Float64()

    def py(v):
        v = z3.simplify(v)
        return float("nan") if z3.is_true(z3.simplify(z3.fpIsNaN(v))) else float("-inf") if z3.is_true(z3.simplify(z3.And(z3.fpIsInf(v), z3.fpIsNegative(v)))) else float("inf") if z3.is_true(z3.simplify(z3.fpIsInf(v))) else -0.0 if z3.is_true(z3.simplify(z3.And(z3.fpIsZero(v), z3.fpIsNegative(v)))) else float(eval(str(z3.simplify(z3.fpToReal(v)).as_fraction()))) if not z3.is_true(z3.simplify(z3.fpIsZero(v))) else 0.0
    a, b = py(x), py(y)
    try:
        r = math.fmod(a, b)
    except ValueError:
        r = float("nan")
    return z3.FPVal(r, s)


def run_item(so, it, budget, model):
    """call the compiled function on many argument values; -> text of the first disagreement"""
    import ctypes as c, itertools, random, time
    L = c.CDLL(so)
    f = getattr(L, it.name)
    f.argtypes = [c.c_void_p if ref else ctype(t) for t, ref in it.params]
    f.restype = ctype(it.rett) if it.rett is not None else None
    for n in FREM:
        FREM[n] = lambda x, y, n=n: frem_value(n, x, y)
    doms = [corners(t, model.get("abcdefgh"[i])) for i, (t, ref) in enumerate(it.params)]
    combos = list(itertools.product(*doms)) if len(doms) <= 2 else [tuple(random.Random(k).choice(d) for d in doms) for k in range(600)]
    random.Random(1).shuffle(combos)
    combos.insert(0, tuple(d[0] for d in doms))
    t0 = time.time()
    for vs in combos:
        if time.time() - t0 > budget:
            break
        zs = [zval(t, v) for (t, ref), v in zip(it.params, vs)]
        s = it.spec(*zs)
        if not z3.is_true(z3.simplify(s["ok"])):
            continue
        boxes, args = {}, []
        for i, ((t, ref), v) in enumerate(zip(it.params, vs)):
            x = v if t.kind == "f" else (v - (1 << t.bits) if t.kind == "i" and v >> (t.bits - 1) else v)
            if t.bits == 1:
                x = bool(v)
            if ref:
                b = (ctype(t) * 1)(x)
                boxes[i] = b
                args.append(c.cast(b, c.c_void_p))
            else:
                args.append(x)
        got = f(*args)
        desc = "%s\ncalled with %s" % (it.describe(), ", ".join("%s=%s" % ("abcdefgh"[i], show(t, z)) for i, ((t, r), z) in enumerate(zip(it.params, zs))))
        if it.rett is not None and not same(it.rett, s["ret"], got):
            return "%s\nreturns %s, the language defines %s" % (desc, got, show(it.rett, s["ret"]))
        for i, b in boxes.items():
            t = it.params[i][0]
            w = s.get("mem", {}).get(i, zs[i])
            if not same(t, w, b[0]):
                return "%s\nleaves %s in variable %s, the language defines %s" % (desc, b[0], "abcdefgh"[i], show(t, w))
    return None


def replay(suite, bad, seconds=120):
    import native, time
    wd = emit.workdir(suite.name + "-replay")
    names, models = [], {}
    for r in bad:
        for f in r["failures"]:
            k = f["obligation"].split("/", 1)[1] if "/" in f["obligation"] else None
            for it in suite.items:
                if "%s: %s" % (it.group, it.describe()) == k and it.name not in models:
                    names.append(it)
                    m = {}
                    for a, v in (f["inputs"] or {}).items():
                        try:
                            m[a] = int(v)
                        except (TypeError, ValueError):
                            pass
                    models[it.name] = m
    if not names:       # no failed obligation (undecided): try the functions of the tasks
        gs = {r["function"] for r in bad}
        names = [it for it in suite.items if it.group in gs][:200]
    sos, t0 = {}, time.time()
    for it in names[:60]:
        if time.time() - t0 > seconds:
            break
        ll = suite.where[it.name][1]
        if ll not in sos:
            sos[ll] = native.shared([ll], wd, "m%d" % len(sos))
        r, died = native.in_child(lambda: run_item(sos[ll], it, 8, models.get(it.name, {})), 30)
        if died and not died.startswith("error"):
            return "compiled from this tree: %s\nthe call does not return: %s" % (it.describe(), died)
        if r:
            return "function compiled by this tree's compiler, then called natively:\n" + r
    return None


def make_plan(suite):
    import check
    suite.emit()
    groups = {}
    for it in suite.items:
        groups[it.group] = groups.get(it.group, 0) + 1
    return check.Plan(tasks(suite), search=lambda bad: replay(suite, bad), trusted=check.TR_ALUSUS, level="proof",
                      assumptions=["floating point arithmetic is IEEE 754 with round-to-nearest; the remainder of floating point numbers is the target's frem (uninterpreted)",
                                   "signed overflow in + - *, division by zero, shifts by the width or more, and float to integer conversions out of range have no defined result"],
                      notes="one function per operator (or conversion form) and operand type combination, each proved for all operand values; %d functions" % len(suite.items),
                      extra={"functions_by_group": groups})


def plan_operators():
    return make_plan(Suite("op", operators()))


def plan_conversions():
    return make_plan(Suite("cv", conversions(), PRE["conv"]))
