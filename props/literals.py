"""Contracts of the code that gives literals their values: string escapes, hexadecimal digits, integer sizes."""
import itertools, re
import z3
import irvc, emit, vrun
from irvc import *

_em = {}


def emitted(name):
    if name not in _em:
        src = open(vrun.VERIF + "/harness/%s.cpp" % name).read().replace("@REPO@", emit.REPO)
        _em[name] = emit.cxx_ir(src, name, extra=emit.SPP, extract={"litspp": "^(need|p|r|set)_.*"}.get(name))[0]
    return _em[name]


def w32(x):
    return bv(x, 32)


def z64(x):
    return x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x)


# ---------------------------------------------------------------- shared contracts
def const_str(eng, st, p):
    """the bytes of a constant string"""
    out = b""
    k = 0
    while True:
        b = simp(eng.load(st, Ptr(p.o, norm(p.off + k) if z3.is_expr(p.off) else p.off + k), irvc.ir.INT(8)))
        if not z3.is_bv_value(b):
            return None
        if b.as_long() == 0:
            return out
        out += bytes([b.as_long()])
        k += 1


def c_wide(eng, st, args, ins):
    """getWideCharFromUtf8: the first code point of a constant UTF-8 string (or of an ASCII byte)"""
    a = args[0]
    if isinstance(a, Ptr):
        s = const_str(eng, st, a)
        if not s:
            raise Unsupported("getWideCharFromUtf8 of a computed string")
        return [(st, bv(ord(s.decode("utf-8")[0]), 32))]
    a = simp(a)
    if not z3.is_bv_value(a) or a.as_long() >= 128:
        raise Unsupported("getWideCharFromUtf8 of a computed byte")
    return [(st, bv(a.as_long(), 32))]


def hexval(c):
    return z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 102)), c - 87, z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), c - 55, c - 48))


def ishex(c):
    r = lambda a, b: z3.And(z3.UGE(c, a), z3.ULE(c, b))
    return z3.Or(r(97, 102), r(65, 70), r(48, 57))


def digits(read, i, n):
    """value of n hexadecimal digits starting at i"""
    v = w32(0)
    for k in range(n):
        v = v * 16 + hexval(read(norm(i + k)))
    return v


HEXV = {w: z3.Function("hexvalue%d" % w, BV(64), BV(32)) for w in range(1, 9)}
HEXOK = {w: z3.Function("hexdigits%d" % w, BV(64), z3.BoolSort()) for w in range(1, 9)}


def c_parse_hex(eng, st, args, ins):
    """contract of parseHexDigits (proved by the tasks hexdigits*): the value of the digits of the text at that position,
    written hexvalue<count>(position)"""
    p, n = args
    r = next((r for r in st.mem[p.o].regions if r.es == 4), None) if p.o in st.mem and st.mem[p.o].name == "text" else None
    k = idx(p.off, 4, 0) if r is not None else None
    if k is None:
        raise Unsupported("parseHexDigits of a computed text")
    n = simp(n)
    eng.oblige(st, z3.And(n >= 1, n <= 8), "pre:parseHexDigits gets a number of digits")
    out = []
    for w in range(1, 9):
        s = st
        if not z3.is_bv_value(n):
            s = st.copy()
            s.assume(n == w)
            if not eng.feasible(s):
                continue
        elif n.as_long() != w:
            continue
        eng.oblige(s, z3.And(HEXOK[w](k), z3.ULE(k, r.cap), z3.ULE(bv(w), r.cap - k)), "pre:parseHexDigits gets hexadecimal digits")
        out.append((s, HEXV[w](k)))
    return out


GWC = "_ZN4Core5Basic19getWideCharFromUtf8E"


def finish(eng, outs, what, throws=False):
    """obligations common to all ends of a function"""
    n = 0
    for st, v in outs:
        if isinstance(v, (Throw, Exit)):
            if not throws:
                eng.oblige(st, False, "no-exception:" + what, assume=False)
            continue
        n += 1
        yield st, v
    if not n:
        raise Unsupported("no normal end: " + what)


# ---------------------------------------------------------------- hexadecimal digits
def t_hexdigit(kind):
    mod = emitted("literals")
    eng = Engine(mod, contracts={GWC + "PKc": c_wide, GWC + "c": c_wide, "__cxa_allocate_exception": lambda eng, st, args, ins: [(st, Throw("exception"))]})
    st = State()
    zero_guards(eng, st)
    c = fresh("c", 32)
    eng.inputs["c"] = c
    eng.stats.covers += 1
    for s, v in finish_throw(eng, eng.call(st, "hx_one", [c])):
        if isinstance(v, Throw):
            eng.oblige(s, z3.Not(ishex(c)), "result:rejected only if not a hexadecimal digit", assume=False)
        else:
            eng.oblige(s, z3.And(ishex(c), v == hexval(c)), "result:digit value", assume=False)
    return eng


def finish_throw(eng, outs):
    for s, v in outs:
        if isinstance(v, Exit):
            eng.oblige(s, False, "no-exit", assume=False)
            continue
        yield s, v


def zero_guards(eng, st):
    """first call: no function-local static is initialised yet (the later calls see the same values)"""
    for n in list(eng.mod.globals):
        if n.startswith("_ZGV"):
            eng.store(st, eng.gobj(st, n), bv(0, 8), irvc.ir.INT(8))


def t_hexdigits(n):
    mod = emitted("literals")
    eng = Engine(mod, contracts={GWC + "PKc": c_wide, GWC + "c": c_wide, "_ZN4Core5Basic13parseHexDigitEw": c_hexdigit})
    st = State()
    zero_guards(eng, st)
    t, read = text(eng, st, bv(n, 32), "d")
    for k in range(n):
        st.assume(ishex(read(bv(k))))
        eng.inputs["d%d" % k] = read(bv(k))
    eng.stats.covers += 1
    for s, v in finish(eng, eng.call(st, "hx_many", [t, bv(n, 32)]), "parseHexDigits"):
        eng.oblige(s, v == digits(read, bv(0), n), "result:value of the digits", assume=False)
    return eng


def c_hexdigit(eng, st, args, ins):
    eng.oblige(st, ishex(args[0]), "pre:parseHexDigit gets a hexadecimal digit")
    return [(st, hexval(args[0]))]


def text(eng, st, n, tag):
    """an arbitrary wide-character text of n characters"""
    N = z3.ZeroExt(32, n) if n.size() == 32 else n
    i = eng.new_obj(st, tag, "arg", norm(N * 4))
    arr = Base(tag, 32)
    st.mem[i] = st.mem[i].upd(regions=(Region(0, 4, norm(N), arr),))
    return Ptr(i, 0), arr.read


# ---------------------------------------------------------------- string literals
ESC = {"n": 10, "ج": 10, "r": 13, "ر": 13, "t": 9, "ت": 9, "f": 12, "\\": 92, '"': 34, "'": 39}
HEXESC = {"x": 2, "h": 2, "u": 4, "U": 8}


def t_string(dbl):
    """StringLiteralTokenizingHandler::prepareToken: for every well-formed literal text of any length the token's
    text is the text between the quotes with every escape sequence replaced by the character it denotes"""
    mod = emitted("literals")
    got = []
    q = w32(34 if dbl else 39)
    n = fresh("n", 32)
    N = z3.ZeroExt(32, n)
    M, L, OUT = Base("M", 8), Base("L", 64), Base("OUT", 32)
    T = [None]

    def define(i):
        """the meaning of the text at boundary i: M[i] 1 outside, 2 inside the quotes; L[i] characters produced so far"""
        at = lambda k, i=i: z64(norm(i + k))
        c, e, i = T[0](at(0)), T[0](at(1)), at(0)
        out = [z3.Implies(z3.And(M.read(i) == 1, z3.ULT(i, N)),
                          z3.And(M.read(at(1)) == z3.If(c == q, bv(2, 8), bv(1, 8)), L.read(at(1)) == L.read(i)))]
        ins = z3.And(M.read(i) == 2, z3.ULT(i, N))
        out.append(z3.Implies(z3.And(ins, c == q), z3.And(M.read(at(1)) == 1, L.read(at(1)) == L.read(i))))
        plain = z3.And(ins, c != q, c != 92)
        nxt = lambda k, v: z3.And(M.read(at(k)) == 2, L.read(at(k)) == L.read(i) + 1, OUT.read(L.read(i)) == v, z3.ULT(at(k), N))
        out.append(z3.Implies(plain, nxt(1, c)))
        esc = z3.And(ins, c == 92)
        ok = []
        for k, v in ESC.items():
            out.append(z3.Implies(z3.And(esc, e == ord(k)), nxt(2, w32(v))))
            ok.append(e == ord(k))
        for k, w in HEXESC.items():
            out.append(z3.Implies(z3.And(esc, e == ord(k)), z3.And(nxt(2 + w, HEXV[w](at(2))), HEXOK[w](at(2)))))
            ok.append(e == ord(k))
        out.append(z3.Implies(esc, z3.And(z3.Or(*ok), z3.ULT(at(1), N))))
        out.append(z3.Implies(M.read(i) == 2, z3.ULT(i, N)))
        return z3.And(*out)

    def set_text(eng, st, args, ins):
        p, ln = args[1], args[2]
        got.append(1)
        st.ghost["texts"] = st.ghost.get("texts", 0) + 1
        ln = z3.SignExt(64 - ln.size(), ln) if ln.size() < 64 else ln
        eng.oblige(st, ln == L.read(N), "result:length of the string", assume=False)
        r = next((r for r in st.mem[p.o].regions if r.es == 4), None)
        if r is None:
            raise Unsupported("text buffer layout")
        k0 = norm(z3.UDiv(p.off, bv(4)) if z3.is_expr(p.off) and not z3.is_bv_value(simp(p.off)) else bv(simp(bv(p.off) if isinstance(p.off, int) else p.off).as_long() // 4))
        k = fresh("k")
        eng.oblige(st, z3.Implies(z3.And(k >= 0, k < ln), r.arr.read(norm(k0 + k)) == OUT.read(k)), "result:characters of the string", assume=False)
        eng.oblige(st, z3.And(ln >= 0, z3.ULE(ln + k0, r.cap)), "in-bounds:text passed to the token", assume=False)
        return [(st, None)]

    contracts = {GWC + "PKc": c_wide, GWC + "c": c_wide, "_ZN4Core5Basic14parseHexDigitsEPKwj": c_parse_hex,
                 "_Znwm": lambda eng, st, args, ins: irvc.malloc(eng, st, args, ins)}
    eng = Engine(mod, contracts=contracts)
    for f in mod.funcs:
        if "5Token7setTextEPKwi" in f:
            eng.contracts[f] = set_text
        elif re.search(r"5Token(5setId|12setAsKeyword|17setSourceLocation)E", f):
            eng.contracts[f] = (lambda nm: lambda eng, st, args, ins: [(st, None)])(f)
    eng.alloca_layout = (0, 4)
    eng.const_terms = False
    st = State()
    zero_guards(eng, st)
    outs = [x for x in finish(eng, eng.call(st, "sl_make", [bv(1 if dbl else 0, 32)]), "constructor")]
    st, h = outs[0]
    t, T[0] = text(eng, st, n, "text")
    for k in range(12):
        eng.inputs["text[%d]" % k] = T[0](bv(k))
    eng.inputs["n"] = n
    st.assume(z3.ULE(n, 1 << 28), z3.UGE(n, 2), M.read(bv(0)) == 1, L.read(bv(0)) == 0, M.read(N) == 1, T[0](bv(0)) == q, define(w32(0)))
    eng.sources = [("OUT", 32, OUT.read)]

    def hints(ctx):
        out = []
        if not ctx.heads:
            return out
        ks = [k for k in ctx.heads[0].ints if k in ctx.entry.ints]
        V = lambda v, k: z64(v.ints[k])
        wide = [k for k in ks if ctx.entry.ints[k].size() >= 32]
        for s in ks:
            if ctx.entry.ints[s].size() < 32:
                out.append(Cand("%s is a truth value" % s, lambda v, s=s: z3.ULE(v.ints[s], 1)))
        for i in wide:
            out.append(Cand("boundary(%s)" % i, lambda v, i=i: z3.Or(M.read(V(v, i)) == 1, M.read(V(v, i)) == 2)))
            for s in ks:
                if ctx.entry.ints[s].size() <= 32 and s != i:
                    out.append(Cand("%s tells inside(%s)" % (s, i), lambda v, i=i, s=s: (v.ints[s] != 0) == (M.read(V(v, i)) == 2)))
            use = [Cand("%s=L(%s)" % (b, i), lambda v, i=i, b=b: V(v, b) == L.read(V(v, i))) for b in wide if b != i]
            out += use
            for b in wide:
                if b != i:
                    out.append(Cand("%s<%s" % (b, i), lambda v, i=i, b=b: z3.Or(z3.And(V(v, b) == 0, V(v, i) == 0), z3.ULT(V(v, b), V(v, i)))))
            out.append(Axiom("definition at " + i, lambda v, i=i: define(v.ints[i]), use))
        return out
    eng.hints = hints
    eng.stats.covers += eng.feasible(st)
    tok, loc = eng.new_obj(st, "token", "arg", 256), eng.new_obj(st, "loc", "arg", 256)
    for s, v in finish(eng, eng.call(st, "sl_run", [h, Ptr(tok, 0), fresh("id", 32), t, n, Ptr(loc, 0)]), "prepareToken"):
        eng.oblige(s, z3.BoolVal(s.ghost.get("texts", 0) == 1), "result:the token gets its text once", assume=False)
    return eng


# ---------------------------------------------------------------- sizes of integers
def need(v, signed):
    """number of bits of the smallest integer type that represents v (64-bit)"""
    r = bv(64, 32)
    for b in (32, 16, 8):
        fits = (z3.SignExt(64 - b, z3.Extract(b - 1, 0, v)) if signed else z3.ZeroExt(64 - b, z3.Extract(b - 1, 0, v))) == v
        r = z3.If(fits, bv(b, 32), r)
    return z3.If(z3.Or(v == 0, v == (-1 if signed else 1)), bv(1, 32), r)


def t_need(signed):
    eng = Engine(emitted("litspp"))
    st = State()
    v = fresh("value")
    eng.inputs["value"] = v
    eng.stats.covers += 1
    for s, r in finish(eng, eng.call(st, "need_int" if signed else "need_word", [v]), "getNeededSize"):
        eng.oblige(s, r == need(v, signed), "result:smallest size that represents the value", assume=False)
    return eng


# ---------------------------------------------------------------- integer, character and string literals
PREFIX = {"": 10, "0b": 2, "0B": 2, "0ن": 2, "0o": 8, "0O": 8, "0م": 8, "0x": 16, "0X": 16, "0h": 16, "0H": 16}


class Lit:
    """pre-state and contracts shared by the literal generators: an arbitrary generator object graph, the literal's text"""

    def __init__(self, fn, n, fail=True):
        self.fail = fail        # consider failures of the target as well
        self.mod = emitted("litspp")
        self.bind, self.calls = {}, []
        self.eng = eng = Engine(self.mod)
        eng.const_terms = False
        st = self.st = State()
        i = eng.new_obj(st, "text", "arg", norm(n + 1))
        self.arr = Base("text", 8)
        st.mem[i] = st.mem[i].upd(regions=(Region(0, 1, norm(n + 1), self.arr),))
        self.text, self.n = Ptr(i, 0), n
        st.assume(n >= 1, n < 1 << 30, self.arr.read(n) == 0)
        eng.nul_witness = lambda st, p, o, r, k: [n]
        for f in self.mod.funcs:
            if "7ti_castI" in f:
                eng.contracts[f] = lambda eng, st, args, ins: [(st, args[0])]
            elif "MethodBindingCacheI" in f and "Ecl" in f:
                eng.contracts[f] = self.binding(f)
            elif "compareStrEPKcS2_i" in f:
                eng.contracts[f] = self.compare
            elif "Store24pushPrefixSourceLocation" in f or "Store23popPrefixSourceLocation" in f:
                d = 1 if "push" in f else -1
                eng.contracts[f] = (lambda d: lambda eng, st, args, ins: (st.ghost.__setitem__("prefix", st.ghost.get("prefix", 0) + d), [(st, None)])[1])(d)
            elif "basic_string" in f and "EEC" in f:
                eng.contracts[f] = self.mkstring
            elif "4stoi" in f:
                eng.contracts[f] = self.stoi
            elif "4stofERK" in f or "4stodERK" in f:
                eng.contracts[f] = self.stof("4stof" in f)
            elif "basic_string" in f and "EED" in f or "__new_allocatorIcE" in f:
                eng.contracts[f] = lambda eng, st, args, ins: [(st, None)]
            elif "11IntegerType11getBitCount" in f:
                eng.contracts[f] = self.bits
        eng.extern_hook = self.extern
        self.self_, self.node, self.helper, self.gen, self.session, self.result = [eng.opaque(st, x) for x in ("generator", "literal", "helper", "generation", "session", "result")]
        self.do("set_text", self.node, self.text, NULL)
        self.do("set_helper", self.self_, self.helper)
        for nm in ("needi", "needw", "intt", "wordt", "nullt", "floatt", "chart", "chararr", "ptrfor"):
            self.bound(nm, self.helper)
        self.tg, self.ctx = self.do("p_tg", self.session), self.do("p_ctx", self.session)
        self.eng.opaque(self.st, "tg", self.tg.o), self.eng.opaque(self.st, "ctx", self.ctx.o)
        self.bound("gen", self.gen)
        for nm in ("intlit", "floatlit", "strlit"):
            self.bound(nm, self.tg)
        self.fn = fn

    def do(self, f, *args):
        (st, v), = self.eng.call(self.st, f, list(args))
        self.st = st
        return v

    def bound(self, nm, o):
        p = self.do("p_" + nm, o)
        self.bind[(p.o, lin(p.off)[0] if z3.is_expr(p.off) else p.off)] = nm

    def binding(self, f):
        def c(eng, st, args, ins):
            p = args[0]
            nm = self.bind.get((p.o, lin(p.off)[0] if z3.is_expr(p.off) else p.off))
            if nm is None:
                raise Unsupported("call through an unexpected binding " + f)
            return getattr(self, "b_" + nm)(eng, st, args[1:])
        return c

    def extern(self, eng, st, fp, args, ins):
        if isinstance(fp, str):
            return None
        # virtual calls of the AST nodes (findSourceLocation): return an arbitrary object
        return [(st, eng.opaque(st, "virtual"))]

    def compare(self, eng, st, args, ins):
        a, b, n = args
        n = simp(n)
        s = const_str(eng, st, b)
        if s is None or not z3.is_bv_value(n) or a.o != self.text.o:
            raise Unsupported("compareStr of computed strings %r %r %s %s" % (a, b, n, s))
        n = n.as_long()
        k = norm(a.off) if z3.is_expr(a.off) else bv(a.off)
        eng.oblige(st, z3.ULE(k, self.n), "in-bounds:compareStr")
        want = (s + b"\0")[:n]
        eq = z3.And(*[self.arr.read(norm(k + j)) == want[j] for j in range(len(want))])
        r = fresh("cmp", 32)
        st.assume((r == 0) == eq)
        return [(st, r)]

    def mkstring(self, eng, st, args, ins):
        st.ghost["str%s" % (args[0].o,)] = args[1].off if isinstance(args[1], Ptr) and args[1].o == self.text.o else None
        return [(st, None)]

    def stoi(self, eng, st, args, ins):
        k = st.ghost.get("str%s" % (args[0].o,))
        if k is None:
            raise Unsupported("stoi of a computed string")
        k = k if z3.is_expr(k) else bv(k)
        eng.oblige(st, NUMERIC(k), "pre:stoi gets decimal digits")
        if len(args) > 2:
            eng.oblige(st, args[2] == 10, "result:size is read as a decimal number", assume=False)
        return [(st, NUMBER(k))]

    def stof(self, single):
        """std::stof / std::stod: the binary32 / binary64 number nearest to the decimal number at that position"""
        def c(eng, st, args, ins):
            k = st.ghost.get("str%s" % (args[0].o,))
            if k is None:
                raise Unsupported("stof of a computed string")
            k = k if z3.is_expr(k) else bv(k)
            eng.oblige(st, k == 0, "pre:stof gets the whole number", assume=False)
            if args[1].o is not None:
                eng.store(st, args[1], self.numend, irvc.ir.INT(64))
            return [(st, SINGLE if single else DOUBLE)]
        return c

    def b_needi(self, eng, st, a):
        return [(st, need(a[0], True))]

    def b_needw(self, eng, st, a):
        return [(st, need(a[0], False))]

    def mktype(self, kind, arg=None):
        def c(eng, st, a):
            p = eng.opaque(st, kind + "-type")
            st.ghost["type%s" % p.o] = (kind, a[0] if a else None)
            return [(st, p)]
        return c

    b_intt = lambda self, eng, st, a: self.mktype("Int")(eng, st, a)
    b_wordt = lambda self, eng, st, a: self.mktype("Word")(eng, st, a)
    b_nullt = lambda self, eng, st, a: self.mktype("Null")(eng, st, a)
    b_floatt = lambda self, eng, st, a: self.mktype("Float")(eng, st, a)
    b_chart = lambda self, eng, st, a: self.mktype("Char")(eng, st, a)
    b_chararr = lambda self, eng, st, a: self.mktype("Char array")(eng, st, a)
    b_ptrfor = lambda self, eng, st, a: self.mktype("pointer")(eng, st, a)

    def bits(self, eng, st, args, ins):
        r = fresh("bits", 32)
        st.ghost["bits%s" % args[0].o] = r
        return [(st, r)]

    def b_gen(self, eng, st, a):
        """getGeneratedType may fail, otherwise it gives the target type"""
        s2 = st.copy()
        tg = eng.opaque(st, "tgtype")
        st.ghost["tgtype%s" % tg.o] = a[0].o
        eng.store(st, a[2], tg, irvc.ir.PTR)
        s2.ghost["failed"] = True
        return [(st, z3.BoolVal(True)), (s2, z3.BoolVal(False))][:2 if self.fail else 1]

    def lit(kind):
        def c(self, eng, st, a):
            s2 = st.copy()
            st.ghost["made"] = st.ghost.get("made", ()) + ((kind, tuple(a)),)
            s2.ghost["failed"] = True
            return [(st, z3.BoolVal(True)), (s2, z3.BoolVal(False))][:2 if self.fail else 1]
        return c
    b_intlit, b_floatlit, b_strlit = lit("int"), lit("float"), lit("string")
    del lit

    def run(self):
        """-> states at the successful ends, each with the literal made and the type of the result"""
        eng = self.eng
        eng.stats.covers += eng.feasible(self.st)
        data = self.do("p_rdata", self.result)
        for s, v in finish(eng, eng.call(self.st, self.fn, [self.self_, self.node, self.gen, self.session, self.result]), self.fn):
            eng.oblige(s, z3.BoolVal(s.ghost.get("prefix", 0) == 0), "notice prefixes are balanced", assume=False)
            ok = v if z3.is_bool(v) else v != 0
            if s.ghost.get("failed"):
                eng.oblige(s, z3.Not(ok), "result:failure of the target is reported", assume=False)
                continue
            eng.oblige(s, ok, "result:success", assume=False)
            m = s.ghost.get("made", ())
            eng.oblige(s, z3.BoolVal(len(m) == 1), "result:one literal is generated", assume=False)
            rt = eng.load(s, self.rtype(s), irvc.ir.PTR)
            if len(m) != 1:
                continue
            kind, a = m[0]
            eng.oblige(s, z3.BoolVal(a[0].o == self.ctx.o), "result:generated in the session's context", assume=False)
            eng.oblige(s, z3.BoolVal(same(a[-1], data)), "result:stored as the result", assume=False)
            yield s, kind, a[1:-1], s.ghost.get("type%s" % (rt.o,), (None, None)), rt

    def rtype(self, s):
        (_, v), = self.eng.call(s.copy(), "p_rtype", [self.result])
        return v


SINGLE, DOUBLE = z3.FP("nearest32", z3.Float32()), z3.FP("nearest64", z3.Float64())
NUMERIC, NUMBER = z3.Function("is_number", BV(64), z3.BoolSort()), z3.Function("number", BV(64), BV(32))


def t_int(prefix):
    """_generateIntegerLiteral: for every well-formed integer literal of any length"""
    base = PREFIX[prefix]
    pb = prefix.encode("utf-8")
    P = len(pb)
    n, E = fresh("n"), fresh("E")
    L = Lit("r_int", n, prefix == "")
    eng, st, t = L.eng, L.st, L.arr.read
    V = Base("value", 64)
    for k, b in enumerate(pb):
        st.assume(t(bv(k)) == b)
    for k in range(10):
        eng.inputs["text[%d]" % k] = t(bv(k))
    eng.inputs.update(n=n, E=E)
    hexd = lambda c: z3.Or(*[z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in ((48, 57), (97, 102), (65, 70))])
    dig = lambda c: z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))

    def define(k):
        c = t(k)
        step = z3.And(hexd(c), z3.ULT(dig(c), base), V.read(norm(k + 1)) == V.read(k) * base + z3.ZeroExt(56, dig(c)))
        return z3.And(z3.Implies(z3.And(z3.UGE(k, P), z3.ULT(k, E)), step), z3.Implies(k == E, z3.Not(hexd(c))))
    # the rest of the text: [u] [i [size]]
    c0, c1 = t(E), t(norm(E + 1))
    ar = lambda c0, c1, x: z3.And(c0 == x.encode()[0], c1 == x.encode()[1])
    one = lambda c, x: z3.Or(*[c == ord(y) for y in x])
    ul = z3.If(one(c0, "uU"), bv(1), z3.If(ar(c0, c1, "ط"), bv(2), bv(0)))
    q = E + ul
    q0, q1 = t(q), t(q + 1)
    tl = z3.If(one(q0, "iI"), bv(1), z3.If(ar(q0, q1, "ص"), bv(2), bv(0)))
    r = q + tl
    sized = z3.And(tl != 0, t(r) != 0)
    st.assume(z3.ULT(bv(P), E), z3.ULE(E, n), z3.ULE(r, n), V.read(bv(P)) == 0, define(bv(P)), define(E),
              z3.Implies(sized, z3.And(NUMERIC(r), NUMBER(r) != 0)), z3.Implies(z3.Not(sized), r == n))
    if not prefix:
        # a decimal literal does not start with one of the prefixes
        st.assume(define(bv(1)), z3.Implies(t(bv(0)) == 48, z3.And(z3.Not(one(t(bv(1)), "bBoOxXhH")), z3.Not(ar(t(bv(1)), t(bv(2)), "ن")), z3.Not(ar(t(bv(1)), t(bv(2)), "م")))))

    def hints(ctx):
        out = []
        if not ctx.heads:
            return out
        ks = [k for k in ctx.heads[0].ints if k in ctx.entry.ints and ctx.entry.ints[k].size() == 64]
        for i in ks:
            use = [Cand("%s=V(%s)" % (b, i), lambda v, i=i, b=b: v.ints[b] == V.read(norm(v.ints[i]))) for b in ks if b != i]
            out += use
            out.append(Cand("%s in digits" % i, lambda v, i=i: z3.And(z3.UGE(v.ints[i], P), z3.ULE(v.ints[i], E))))
            out.append(Axiom("definition at " + i, lambda v, i=i: define(norm(v.ints[i])), use))
        return out
    eng.hints = hints
    value = V.read(E)
    for s, kind, a, ty, rt in L.run():
        size, sg, val = a
        sg = sg if z3.is_bool(sg) else sg != 0
        eng.oblige(s, z3.BoolVal(kind == "int"), "result:an integer is generated", assume=False)
        if kind != "int":
            continue
        unsigned = ul != 0
        eng.oblige(s, val == value, "result:value of the digits", assume=False)
        small = z3.Or(value == 0, value == 1)
        esg = z3.And(z3.Not(unsigned), z3.Or(sized, z3.Not(small)))
        esz = z3.If(sized, NUMBER(r), z3.If(esg, need(value, True), need(value, False)))
        eng.oblige(s, size == esz, "result:size", assume=False)
        eng.oblige(s, sg == esg, "result:signedness", assume=False)
        null = z3.And(tl == 0, value == 0)
        eng.oblige(s, {"Int": z3.And(esg, z3.Not(null)), "Word": z3.And(z3.Not(esg), z3.Not(null)), "Null": null}.get(ty[0], z3.BoolVal(False)), "result:type", assume=False)
        if ty[0] in ("Int", "Word"):
            eng.oblige(s, ty[1] == esz, "result:type's size", assume=False)
    return eng


def t_float():
    """_generateFloatLiteral: number [f [size]]"""
    n, E = fresh("n"), fresh("E")
    L = Lit("r_float", n)
    eng, st, t = L.eng, L.st, L.arr.read
    L.numend = E
    eng.inputs.update(n=n, E=E)
    c0, c1 = t(E), t(norm(E + 1))
    tl = z3.If(z3.Or(c0 == 102, c0 == 70), bv(1), z3.If(z3.And(c0 == "ع".encode()[0], c1 == "ع".encode()[1]), bv(2), bv(0)))
    r = E + tl
    sized = z3.And(tl != 0, t(r) != 0)
    st.assume(z3.UGE(E, 1), z3.ULE(E, n), z3.ULE(r, n), z3.Implies(sized, z3.And(NUMERIC(r), NUMBER(r) != 0)), z3.Implies(z3.Not(sized), r == n))
    # the number is within the range of binary32; binary64 rounding agrees with it up to double rounding
    rn, F32 = z3.RNE(), z3.Float32()
    st.assume(z3.Not(z3.fpIsInf(SINGLE)), z3.Not(z3.fpIsNaN(SINGLE)), z3.Not(z3.fpIsNaN(DOUBLE)), z3.fpToFP(rn, DOUBLE, F32) == SINGLE)
    for s, kind, a, ty, rt in L.run():
        eng.oblige(s, z3.BoolVal(kind == "float" and ty[0] == "Float"), "result:a floating-point number is generated", assume=False)
        if kind != "float" or ty[0] != "Float":
            continue
        size, val = a
        esz = z3.If(sized, NUMBER(r), bv(32, 32))
        eng.oblige(s, size == esz, "result:size", assume=False)
        eng.oblige(s, ty[1] == esz, "result:type's size", assume=False)
        eng.oblige(s, z3.fpToFP(rn, val, F32) == SINGLE, "result:value to single precision", assume=False)
        eng.oblige(s, z3.Implies(esz == 64, val == DOUBLE), "result:value of a 64-bit literal", assume=False)
    return eng


def t_char():
    n = fresh("n")
    L = Lit("r_char", n)
    eng, st, t = L.eng, L.st, L.arr.read
    eng.inputs["text[0]"] = t(bv(0))
    for s, kind, a, ty, rt in L.run():
        eng.oblige(s, z3.BoolVal(kind == "int" and ty[0] == "Char"), "result:a character of type Char", assume=False)
        if kind == "int":
            eng.oblige(s, z3.Extract(7, 0, a[2]) == t(bv(0)), "result:value is the (first) byte of the character", assume=False)
            b = s.ghost.get("bits%s" % (rt.o,))
            eng.oblige(s, a[0] == b if b is not None else z3.BoolVal(False), "result:size of Char", assume=False)
    return eng


def t_str():
    n = fresh("n")
    L = Lit("r_str", n)
    eng, st, t = L.eng, L.st, L.arr.read
    # no NUL inside the literal
    st.fact(lambda i: z3.Implies(z3.ULT(i, n), t(i) != 0))
    g = lambda s, k, p: s.ghost.get("%s%s" % (k, p.o))
    for s, kind, a, ty, rt in L.run():
        eng.oblige(s, z3.BoolVal(kind == "string" and ty[0] == "pointer"), "result:a string, of pointer type", assume=False)
        if kind != "string" or ty[0] != "pointer":
            continue
        to = s.ghost.get("type%s" % (ty[1].o,), (None, None))
        eng.oblige(s, z3.BoolVal(to[0] == "Char array"), "result:a pointer to an array of Char", assume=False)
        if to[0] == "Char array":
            eng.oblige(s, z3.ZeroExt(32, to[1]) == n + 1 if to[1].size() == 32 else to[1] == n + 1, "result:the array has room for the characters and the terminator", assume=False)
        eng.oblige(s, z3.BoolVal(a[0].o == L.text.o), "result:the literal's own text", assume=False)
        eng.oblige(s, (a[0].off if z3.is_expr(a[0].off) else bv(a[0].off)) == 0, "result:the whole text", assume=False)
        eng.oblige(s, z3.BoolVal(g(s, "tgtype", a[2]) == ty[1].o), "result:generated as an array of that type", assume=False)
        ct = s.ghost.get("type%s" % (g(s, "tgtype", a[1]),), (None, None))
        eng.oblige(s, z3.BoolVal(ct[0] == "Char"), "result:generated from characters", assume=False)
    return eng


def tasks():
    T = []
    for d in (0, 1):
        T.append(vrun.Task("string.%s" % ("double" if d else "single"), t_string, (d,), function="StringLiteralTokenizingHandler::prepareToken", weight=5))
    T.append(vrun.Task("hexdigit", t_hexdigit, (0,), function="parseHexDigit"))
    for p in PREFIX:
        T.append(vrun.Task("integer.%s" % (p or "decimal"), t_int, (p,), function="ExpressionGenerator::_generateIntegerLiteral", weight=4))
    T.append(vrun.Task("float", t_float, (), function="ExpressionGenerator::_generateFloatLiteral"))
    T.append(vrun.Task("char", t_char, (), function="ExpressionGenerator::_generateCharLiteral"))
    T.append(vrun.Task("stringtype", t_str, (), function="ExpressionGenerator::_generateStringLiteral"))
    for sg in (1, 0):
        T.append(vrun.Task("needed-%s" % ("int" if sg else "word"), t_need, (sg,), function="Helper::_getNeeded%sSize" % ("Int" if sg else "Word"), weight=3))
    for n in (2, 4, 8):
        T.append(vrun.Task("hexdigits%d" % n, t_hexdigits, (n,), function="parseHexDigits"))
    return T


# ---------------------------------------------------------------- whole literals through the repository's compiler
def int_oracle(lit):
    """value, bits, signed of an integer literal (the language's definition)"""
    m = re.fullmatch(r"(?:(0[bB]|0ن)([01]+)|(0[oO]|0م)([0-7]+)|(0[xXhH])([0-9a-fA-F]+?)|([0-9]+))([uUط])?(?:[iIص]([0-9]+))?", lit)
    v = int(m.group(2), 2) if m.group(1) else int(m.group(4), 8) if m.group(3) else int(m.group(6), 16) if m.group(5) else int(m.group(7))
    v &= 2 ** 64 - 1
    sgn = not m.group(8) and (m.group(9) is not None or v > 1)
    if m.group(9):
        b = int(m.group(9))
    elif sgn:
        sv = v - 2 ** 64 if v >> 63 else v
        b = 1 if sv in (0, -1) else next(b for b in (8, 16, 32, 64) if -2 ** (b - 1) <= sv < 2 ** (b - 1))
    else:
        b = 1 if v in (0, 1) else next(b for b in (8, 16, 32, 64) if v < 2 ** b)
    return v, b, sgn


def signed_dec(v, b):
    v &= 2 ** b - 1
    if b == 1:
        return "true" if v else "false"
    return str(v - 2 ** b if v >> (b - 1) else v)


def fhex(x):
    import struct
    return "0x%016X" % struct.unpack("<Q", struct.pack("<d", x))[0]


def suite():
    """(expression, expected constant): ints as IR text, floats as ("float"|"double", value), strings as bytes"""
    import random, struct
    rnd = random.Random(7)
    out = []

    def ints(l):
        v, b, sg = int_oracle(l)
        if b > 1 and not (v == 0 and not re.search("[iIص]", l)):
            out.append(("k(%s)" % l, "k%s%d" % ("i" if sg else "w", b)))
        out.append((l, "i%d %s" % (b, signed_dec(v, b))))
        if not re.search("[iIص]", l) or b <= 64:
            w = v & (2 ** b - 1)
            if sg and w >> (b - 1):
                w -= 2 ** b
            if not (v == 0 and not re.search("[iIص]", l)):
                out.append(("(%s)~cast[Int[64]]" % l, "i64 " + signed_dec(w, 64)))
    edge = sorted({x for k in (1, 7, 8, 15, 16, 31, 32, 63, 64) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1) if x < 2 ** 64} | {2 ** 64 - x for k in (0, 1, 7, 8, 15, 16, 31, 32, 63) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1) if x} | {0, 1, 2, 9, 10, 100, 12345678901234567})
    for v in edge:
        for pre, f in (("", "%d"), ("0x", "%x"), ("0b", None), ("0o", "%o"), ("0h", "%X"), ("0ن", None), ("0م", "%o"), ("0X", "%X"), ("0B", None), ("0O", "%o"), ("0H", "%x")):
            if pre and v not in (0, 1, 2, 127, 128, 255, 256, 40000, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 63, 2 ** 64 - 1) and rnd.random() < 0.8:
                continue
            ints(pre + (f % v if f else bin(v)[2:]) + rnd.choice(["", "", "u", "U", "ط"]))
    for v, sfx in itertools.product((0, 1, 2, 127, 128, 200, 255), ("i8", "ui8", "I16", "UI16", "uص32", "طi64", "طص16", "Uص8", "ص64", "i32", "u", "U", "ط")):
        for pre, f in rnd.sample([("", "%d"), ("0x", "%x"), ("0o", "%o"), ("0b", None), ("0م", "%o"), ("0ن", None)], 2):
            ints(pre + (f % v if f else bin(v)[2:]) + sfx)
    for l in ("300ui16", "300i16", "5i8", "0i8", "1i64", "0ui32", "1ui8", "255ui8", "200i8", "0x7fi32", "0xffuI16", "0b101ص16", "12طص32", "0h1Fi64", "0o17ui8", "4294967296i64", "7i32", "1i16", "0xAbCdi64", "0i64", "0x0123456789abcdef", "0XFEDCBA9876543210", "0hAaBbCcDdEeFf", "0o01234567", "0O765432101234567", "0م7777777", "0b10110011100011110000", "0ن0101", "1234567890", "9876543210", "0000000", "00017", "0x00ff", "0b0000000011"):
        ints(l)
    for l in ("1.5", "0.1", "3.14159", "1e3", "1.5e-2", "2.5e10", "0.5f32", "100.25", "1.5f64", "3f64", "0.0", "2ع64", "1.5e2f64", "7f", "0.25e1", "16777217.0", "1.17549e-30", "3.0ع32", ".5", ".25f64", "1E3", "1E+3", "2e+2", "2.5E-3F", "12F", "12F64", "3E2ع32", "5e0f64", "4ع", "1.0E10F32", ".5e1", "6.5F", "7.25ع", "00.5", "1e-0", "123456.75", "0e5", "9.75e2ع64",
              "0.0000001", "1e38", "3.4e38", "1e-37", "8388609.0", "0.333333333333", "2.5e00003"):
        m = re.fullmatch(r"([0-9.]+(?:[eE][-+]?[0-9]+)?)(?:[fFع](\d*))?", l)
        x = struct.unpack("<f", struct.pack("<f", float(m.group(1))))[0]
        out.append((l, ("double" if m.group(2) == "64" else "float", x)))
    for l, b in (("'a'", 97), ("'Z'", 90), ("'0'", 48), ("' '", 32), ("'\\n'", 10), ("'\\t'", 9), ("'\\r'", 13), ("'\\f'", 12), ("'\\\\'", 92), ("'\\''", 39), ("'\"'", 34), ("'\\x41'", 65), ("'\\h7f'", 127), ("'~'", 126), ("'\\ج'", 10), ("'\\ت'", 9), ("'\\ر'", 13), ("'\\\"'", 34), ("'\\x0A'", 10), ("'\t'", 9), ("'\\x80'", None), ("'#'", 35), ("'/'", 47), ("'ج'", 0xd8), ("'\\u00e9'", 0xc3), ("'\\x9'", None)):
        if b is not None:
            out.append((l, "i8 %s" % signed_dec(b, 8)))
    for l, t in (('""', ""), ('"a"', "a"), ('"abc"', "abc"), ('"a" "b"', "ab"), ('"ab"   "" "cd" "ef"', "abcdef"), ('"a\\nb"', "a\nb"), ('"\\t\\r\\f\\\\\\"\'"', "\t\r\f\\\"'"), ('"\\x41\\h42z"', "ABz"),
                 ('"\\u062cx\\U0001F600y"', "جx\U0001F600y"), ('"نص عربي"', "نص عربي"), ('"\\رx\\ت\\ج"', "\rx\t\n"), ('"end\\n"', "end\n"), ('"\\n" "\\t"', "\n\t"), ('"%s"' % ("long " * 60), "long " * 60), ('"x\\u00e9\\xfFz"', "xé\u00ffz"), ('"\\uAbCd"', "\uabcd"), ('"q\\"" "\\"q"', 'q""q'),
                 ('"a"\t"b"', "ab"), ('"a"\r\n"b"', "ab"), ('"a"\u200f"b"', "ab"), ('"a" \t\r\n\u200f "b"""', "ab"), ('"// not a comment"', "// not a comment"), ('"/* x */ # y"', "/* x */ # y"), ('"l1\nl2\r\nl3"', "l1\nl2\r\nl3"), ('"tab\there\u200f"', "tab\there\u200f"),
                 ('"\\u0123\\u4567\\u89ab\\ucdef\\uCDEF"', "\u0123\u4567\u89ab\ucdef\ucdef"), ('"\\x01\\x23\\x45\\x67\\h1a\\h2B\\h3c\\h4D\\h5e\\h6F"', "\x01\x23\x45\x67\x1a\x2b\x3c\x4d\x5e\x6f"),
                 ('"%s"' % ("0123456789" * 700), "0123456789" * 700), ('"%s"' % ('ab" "' * 500), "ab" * 500)):
        out.append((l, t.encode("utf-8")))
    piece = [("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\f", "\f"), ("\\\\", "\\"), ('\\"', '"'), ("\\'", "'"), ("\\ج", "\n"), ("\\ر", "\r"), ("\\ت", "\t"), ("\\x7e", "~"), ("\\h3F", "?"), ("\\u0645", "م"), ("\\uFFfd", "\ufffd"),
             ("\\U0001F60a", "\U0001F60a"), ("\\U0010FFFF", "\U0010ffff"), ("\\U00000041", "A"), ("'", "'"), ("a", "a"), ("ب", "ب"), ("x", "x"), ("u0041", "u0041"), (" ", " "), ('" "', ""), ('"  \n "', "")]
    for k in range(60):
        ps = [rnd.choice(piece) for _ in range(rnd.randint(1, 9))]
        out.append(('"%s"' % "".join(x[0] for x in ps), "".join(x[1] for x in ps).encode("utf-8")))
    for a in piece:
        for b in piece[:8] + piece[-3:]:
            out.append(('"%s%s"' % (a[0], b[0]), (a[1] + b[1]).encode("utf-8")))
    return out


def program(items):
    ks = "".join("@expname[k%s%d] func k(v: %s[%d]);\n" % (t[0].lower(), b, t, b) for t in ("Int", "Word") for b in (8, 16, 32, 64))
    return ('import "Spp";\nmodule T {\n@expname[ext] func ext(c: Int, args: ...any);\n%sfunc f() {\n%s}\n}\nSpp.buildMgr.dumpLlvmIrForElement(T~ast);\n'
            % (ks, "".join(" ext(%d); %s;\n" % (k, l) if l.startswith("k(") else " ext(%d, %s);\n" % (k, l) for k, (l, _) in enumerate(items))))


def decode(ir):
    strs = {}
    for m in re.finditer(r'^(@\S+) = private (?:unnamed_addr )?constant \[(\d+) x i8\] (zeroinitializer|c"((?:[^"])*)")', ir, re.M):
        b = b"\0" * int(m.group(2)) if m.group(4) is None else re.sub(rb"\\(\\|[0-9A-Fa-f]{2})", lambda x: b"\\" if x.group(1) == b"\\" else bytes([int(x.group(1), 16)]), m.group(4).encode("utf-8", "surrogateescape"))
        strs[m.group(1)] = b
    got = {}
    last = None
    for m in re.finditer(r'call void (?:\(i32, \.\.\.\) @ext\(i32 (\d+)(?:, (.*))?\)|@(k[iw]\d+)\(.*\))\n', ir):
        if m.group(3):
            got.setdefault(last, []).append(m.group(3))
            continue
        last = int(m.group(1))
        if m.group(2):
            got.setdefault(last, []).append(m.group(2))
    return strs, got


def differs(want, got, strs):
    """None if the emitted argument is the expected constant, otherwise a description"""
    if len(got) != 1:
        return "the call is emitted %d times" % len(got)
    g = got[0]
    if isinstance(want, str):
        if want[0] == "k" and g != want:
            return "calls the function of %s, the literal's type is %s" % tuple({"i": "Int", "w": "Word"}.get((x or "  ")[1], "?") + "[%s]" % (x or "")[2:] for x in (g, want))
        return None if g == want else "emitted %s, expected %s" % (g, want)
    if isinstance(want, tuple):
        import struct
        m = re.fullmatch(r"(float|double) (\S+)", g or "")
        if not m:
            return "emitted %s" % g
        x = struct.unpack("<d", struct.pack("<Q", int(m.group(2), 16)))[0] if m.group(2).startswith("0x") else float(m.group(2))
        x = struct.unpack("<f", struct.pack("<f", x))[0]
        return None if (m.group(1), x) == want else "emitted %s, expected %s %r" % (g, want[0], want[1])
    m = re.search(r'(@\S+)$', g or "")
    m = m and m.group(1).rstrip(",)")
    if m not in strs:
        m = re.search(r'(@"[^"]*"|@[\w.#]+)', g or "")
        m = m and m.group(1)
    if m not in strs:
        return "emitted %s" % g
    return None if strs[m] == want + b"\0" else "emitted the bytes %r, expected %r and a terminator" % (strs[m], want)


def compile_suite(items, wd, name):
    """-> list of (expression, what differs)"""
    p = "%s/%s.alusus" % (wd, name)
    with open(p, "w", encoding="utf-8") as f:
        f.write(program(items))
    import subprocess
    try:
        rc, out = emit.run_alusus(p)
    except subprocess.TimeoutExpired:
        return [(None, "the compiler does not finish")]
    mods, rest = emit.split_ir(out)
    if not mods or "ERROR" in rest:
        return [(None, "the compiler (exit %d) does not compile the program: %s" % (rc, rest[-1500:]))]
    strs, got = decode(mods[0])
    bad = [(l, differs(w, got.get(k, []), strs)) for k, (l, w) in enumerate(items)]
    return [b for b in bad if b[1]]


def t_whole():
    """bounded: a fixed list of literals through the whole compiler"""
    eng = Engine(emitted("litspp"))
    st = State()
    eng.stats.covers += 1
    items = suite()
    bad = compile_suite(items, emit.workdir("literals-whole"), "whole")
    eng.oblige(st, z3.BoolVal(not bad), "result:constants emitted for %d literals" % len(items), assume=False)
    eng.oblige(st, z3.BoolVal(len(items) > 100), "the list is not empty", assume=False)
    return eng


def search(bad):
    wd = emit.workdir("literals-search")
    items = suite()
    res = compile_suite(items, wd, "whole")
    if res and res[0][0] is None:
        # find a literal that alone makes the compiler fail
        def cut(it):
            while len(it) > 1:
                h = len(it) // 2
                a, b = it[:h], it[h:]
                it = a if any(x[0] is None for x in compile_suite(a, wd, "part")) else b
            return it
        it = cut(items)
        one = compile_suite(it, wd, "part")
        return "program:\n%s\n%s" % (program(it), "\n".join(x[1] for x in one)) if one else None
    if res:
        bads = [i for i in items if i[0] in {x[0] for x in res}][:5]
        return "program (compiled by the repository's compiler):\n%s\n%s" % (program(bads), "\n".join("%s: %s" % x for x in res[:20]))
    return None


def plan():
    import check
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(emitted, "literals"), ex.submit(emitted, "litspp"), ex.submit(emit.dist)]
        for f in fs:
            f.result()
    return check.Plan(tasks() + [vrun.Task("whole", t_whole, (), function="whole literals through the compiler (fixed list)", bounded=True, weight=9)], search=search, wall=640,
                      trusted=check.TR_CXX + ["contracts assumed at calls: ti_cast (returns its argument), the method-binding caches (each binding reaches the helper or target function it is named after), std::basic_string construction, std::stoi / std::stof / std::stod (value of the decimal text at that position), compareStr, getWideCharFromUtf8, notice-store prefixes, virtual calls of AST nodes (no effect on the generation)",
                                              "the grammar hands the generators only literals of the shape it defines (StandardFactory.cpp); LLVM's ConstantInt / ConstantFP / ConstantArray"],
                      assumptions=["literal texts have fewer than 2^28 (tokens) or 2^30 (AST) characters and contain no NUL",
                                   "integer literals that do not fit in 64 bits wrap (what the code does)",
                                   "function-local static constants are initialised by the first call, in one thread",
                                   "machine arithmetic is exact (two's complement); floating point is IEEE"],
                      notes="the task 'whole' is bounded (a fixed list of literals compiled by the repository's compiler and compared with the emitted constants); it is not counted as proof")


if __name__ == "__main__":
    emitted("literals"), emitted("litspp")
    pat = __import__("sys").argv[1:] or [""]
    for r in vrun.run_tasks([t for t in tasks() if any(p in t.name for p in pat)], linger=500):
        if r["undecided"] or r["failures"]:
            print(r["name"], r["undecided"], r.get("tb", "")[-1600:], [(f["obligation"], f["status"], f["inputs"]) for f in r["failures"]][:3])
        else:
            print("ok", r["name"], r["obl"], "%.1f" % r["wall"])
