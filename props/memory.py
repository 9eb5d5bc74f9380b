"""Addresses and storage: where every variable, field, element and pointer target lives, and what an access, an
assignment, a copy, a call or a conversion of pointers does to memory.

Every program is built together with its meaning: each expression and statement carries its source text and a closure
that performs it on a byte-level memory according to the language's rules (own layout of classes and arrays, values of
indices and offsets as mathematical integers).  The IR that the repository's compiler emits for the program is executed
symbolically on the same initial memory, and the final memories and results have to be equal for all inputs, all
contents of memory and all aliasing of what the parameters refer to."""
import random, os, itertools
import z3
import bytevc as bx
import emit, vrun
import langops as lo
from bytevc import bv, simp, Bad, Outside


class Discard(Exception):
    """the generated program is not one the language defines (or its locals escape)"""


# ------------------------------------------------------------------ types
class Ty:
    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
        if k == "num":
            self.name, self.size, self.align = ("Bool" if a is lo.B else a.name), a.size(), a.size()
            self.ls = [(0, self)]
        elif k == "ptr":
            self.name, self.size, self.align = ("ptr" if a is None else "ptr[%s]" % a.name), 8, 8
            self.ls = [(0, self)]
        elif k == "arr":
            self.name, self.size, self.align = "array[%s, %d]" % (a.name, n), a.size * n, a.align
            self.ls = [(i * a.size + o, t) for i in range(n) for o, t in a.ls]

    def __eq__(self, o):
        return isinstance(o, Ty) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    @property
    def agg(self):
        return self.k in ("arr", "cls")


class Field:
    def __init__(self, name, ty, ref=False, inj=False):
        self.name, self.ty, self.ref, self.inj = name, ty, ref, inj


class Cls(Ty):
    def __init__(self, name):
        self.k, self.name, self.fields, self.a, self.n = "cls", name, [], None, None
        self.methods = []

    def seal(self):
        o, al, self.off = 0, 1, {}
        for f in self.fields:
            s, a = (8, 8) if f.ref else (f.ty.size, f.ty.align)
            o = (o + a - 1) // a * a
            self.off[f.name] = o
            o += s
            al = max(al, a)
        self.size, self.align = (o + al - 1) // al * al, al
        self.ls = []
        for f in self.fields:
            self.ls += [(self.off[f.name] + x, t) for x, t in ([(0, REFT)] if f.ref else f.ty.ls)]
        return self

    def all_fields(self, hops=(), base=0):
        """(name, where, field) with the fields of injected members; where: offsets of the references to follow, and the
        offset from there"""
        for f in self.fields:
            yield f.name, (hops, base + self.off[f.name]), f
            if f.inj:
                o = base + self.off[f.name]
                yield from f.ty.all_fields(hops + (o,), 0) if f.ref else f.ty.all_fields(hops, o)

    def text(self):
        return "  class %s {\n%s%s  };\n" % (self.name, "".join("    %sdef %s: %s;\n" % ("@injection " if f.inj else "", f.name, "ref[%s]" % f.ty.name if f.ref else f.ty.name) for f in self.fields),
                                             "".join(m.source("    ") + "\n" for m in self.methods))


NUM = {t.name if t is not lo.B else "Bool": Ty("num", t) for t in lo.NUM + [lo.B]}
REFT = Ty("ptr")
VPTR = Ty("ptr")
INTN = [t for t in NUM.values() if t.a.int and t.a is not lo.B]
IDX = [t for t in INTN]
BOOL = NUM["Bool"]


def ptr(t):
    return Ty("ptr", t)


def padding(t):
    used = set()
    for o, l in t.ls:
        used |= set(range(o, o + l.size))
    return [i for i in range(t.size) if i not in used]


def tofp(t, v):
    return z3.fpBVToFP(v, t.sort())


def conv(v, s, t):
    """numbers as bit patterns"""
    if s is t or s.name == t.name:
        return v
    x = v if s.int else tofp(s, v)
    r = lo.conv(x, s, t)
    return simp(r if t.int else z3.fpToIEEEBV(r))


# ------------------------------------------------------------------ the machine of the source language
class S:
    def __init__(self, mem, symbolic=True):
        self.m, self.env, self.n, self.sym = mem, [], 0, symbolic
        self.glob, self.dontcare, self.regs = {}, [], set()
        self.steps = 0

    def local(self, size, tag=""):
        self.n += 1
        nm = "spec%d %s" % (self.n, tag)
        b = self.m.region(nm, size)
        self.regs.add(nm)
        return b

    def mentions(self, e):
        """a local address"""
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n in bx.DEFS:
                    st.extend(bx.DEFS[n])
                if n.startswith("&spec"):
                    return True
            st.extend(x.children())
        return False

    def rd(self, a, t):
        self.steps += len(t.ls)
        if self.steps > 260:
            raise Discard("too long")
        if t.agg:
            return [self.rd(simp(a + o), l) for o, l in t.ls]
        v = self.m.load(a, t.size)
        if not self.sym and t is BOOL and v.as_long() > 1:
            raise Skip("not a Bool")
        return simp(z3.Extract(0, 0, v)) if t.k == "num" and t.a.bits == 1 else v

    def wr(self, a, t, v):
        self.steps += len(t.ls)
        if self.steps > 260:
            raise Discard("too long")
        if t.agg:
            for (o, l), x in zip(t.ls, v):
                self.wr(simp(a + o), l, x)
            for p in padding(t):
                self.dontcare.append(simp(a + p))
            return
        if t.k == "num" and t.a.bits == 1:
            v = z3.ZeroExt(7, v)
        if self.sym and self.m.where(a)[0] == "heap" and (self.mentions(v) or self.mentions(a)):
            raise Discard("a local address or an uninitialised value reaches the caller's memory")
        self.m.store(a, v)

    def var(self, name):
        for n, a, t, ref in reversed(self.env[-1]):
            if n == name:
                return a, ref
        a = self.glob[name]
        return a, False

    def define(self, name, t, ref, v=None):
        a = self.local(8 if ref else t.size, name)
        self.env[-1].append((name, a, t, ref))
        if v is not None:
            self.wr(a, REFT if ref else t, v)
        return a

    def addr(self, name):
        a, ref = self.var(name)
        return self.rd(a, REFT) if ref else a


class E:
    """an expression.  lv: ev gives the address of an object of type ty; otherwise the value"""
    def __init__(self, text, ty, lv, ev, root=None, dep=0, steps=0, refslot=None):
        self.text, self.ty, self.lv, self.ev, self.root, self.steps, self.refslot = text, ty, lv, ev, root, steps, refslot
        # the object is found through a pointer that is itself in memory: l.{ } follows that pointer if it is changed inside
        self.lazy = bool(steps and refslot is not None)

    def val(self, s):
        return s.rd(self.ev(s), self.ty) if self.lv else self.ev(s)


class Param:
    def __init__(self, name, ty, mode):
        self.name, self.ty, self.mode = name, ty, mode      # mode: ref | val

    def text(self):
        return "%s: %s" % (self.name, "ref[%s]" % self.ty.name if self.mode == "ref" else self.ty.name)


class Fn:
    """a function: source text and meaning"""
    def __init__(self, name, params, ret, retref, cls=None, varargs=None):
        self.name, self.params, self.ret, self.retref, self.cls, self.varargs = name, params, ret, retref, cls, varargs
        self.body = []          # (text, exec)
        self.result = None      # E
        self.pure = True

    def rtext(self):
        return "" if self.ret is None else ": " + ("ref[%s]" % self.ret.name if self.retref else self.ret.name)

    def source(self, ind="  "):
        ps = [p.text() for p in self.params]
        if self.varargs is not None:
            ps.append("args: ...any")
        b = " ".join(t for t, _ in self.body) + (" return %s;" % self.result.text if self.result is not None else "")
        if self.cls is not None:
            return "%shandler this.%s(%s)%s { %s };" % (ind, self.name, ", ".join(ps), self.rtext(), b)
        return "%s@expname[%s] func %s(%s)%s { %s };" % (ind, self.name, self.name, ", ".join(ps), self.rtext(), b)

    def run(self, s, args, this=None):
        """args: addresses (ref) or values; -> result (address if retref)"""
        s.env.append([])
        if self.cls is not None:
            s.define("this", self.cls, True, this)
        for p, a in zip(self.params, args):
            s.define(p.name, p.ty, p.mode == "ref", a)
        if self.varargs is not None:
            s.env[-1].append(("args", args[len(self.params):], None, None))
        for _, x in self.body:
            x(s)
        r = None
        if self.result is not None:
            if self.retref:
                r = self.result.ev(s)
            else:
                r = self.result.val(s)
                if self.ret.k == "num":
                    r = conv(r, self.result.ty.a, self.ret.a)
        s.env.pop()
        return r


# ------------------------------------------------------------------ generator
class Chunk:
    def __init__(self, seed, k):
        self.rng = r = random.Random("mem/%d/%d" % (seed, k))
        self.tag = "%d_%d" % (seed, k)
        self.classes, self.nf, self.helpers, self.progs = [], 0, [], []
        self.text = ""
        for i in range(r.randint(3, 5)):
            c = Cls("M%s_%d" % (self.tag, i))
            c.fields = []
            nf = r.choice((1, 2, 3, 3, 4, 4, 5, 6))
            inj = r.random() < 0.4
            flat = r.random()       # members of few, small types: layouts that depend on single types and their order
            few = ([t for t in INTN if t.size <= 2] + [BOOL] if flat < 0.15 else [self.num() for _ in range(2)]) if flat < 0.3 else None
            if few:
                nf, inj = max(nf, 3), False
            for j in range(nf):
                self.nf += 1
                nm = "f%d" % self.nf
                x = r.random()
                if few:
                    c.fields.append(Field(nm, r.choice(few)))
                elif self.classes and inj and (j == 0 or r.random() < 0.3):
                    c.fields.append(Field(nm, r.choice(self.classes), inj=True, ref=r.random() < 0.25))
                    inj = False
                elif x < 0.14:
                    c.fields.append(Field(nm, self.pointee(c), ref=True))
                else:
                    c.fields.append(Field(nm, self.type(r, 2, c)))
            self.classes.append(c.seal())
        self.globals = []
        for i in range(2):
            self.globals.append(("g%s_%d" % (self.tag, i), r.choice(self.classes) if i == 0 else self.type(r, 1)))

    def num(self, r=None):
        r = r or self.rng
        return r.choice(list(NUM.values()) if r.random() < 0.4 else INTN)

    def pointee(self, cur=None):
        r = self.rng
        cs = self.classes + ([cur] if cur is not None else [])
        x = r.random()
        if cs and x < 0.6:
            return r.choice(cs)
        if x < 0.75:
            return self.num()
        if x < 0.85:
            return Ty("arr", self.num(), r.choice((r.randint(2, 4), 2, 130, 200, 256, 300)))
        if x < 0.95 and self.classes:
            return ptr(r.choice(self.classes))
        return self.num()

    def type(self, r, depth, cur=None):
        x = r.random()
        if x < 0.45 or depth == 0:
            return self.num()
        if x < 0.65:
            return ptr(self.pointee(cur))
        if x < 0.69:
            return VPTR
        if x < 0.85:
            return Ty("arr", self.type(r, depth - 1), r.randint(2, 3))
        return r.choice(self.classes) if self.classes else self.num()

    def build(self, nhelpers, nprogs):
        r = self.rng
        for i in range(nhelpers):
            g = Gen(self, r, "h%s_%d" % (self.tag, i), helper=True)
            f = g.function(pure=r.random() < 0.5)
            if f:
                self.helpers.append(f)
        for i in range(nprogs):
            for t in range(30):
                g = Gen(self, r, "p%s_%d" % (self.tag, i), helper=False)
                f = g.function()
                if f:
                    self.progs.append(f)
                    break
        return self

    def source(self, progs=None):
        ps = self.progs if progs is None else progs
        return 'import "Spp";\nmodule T {\n%s%s%s\n%s\n}\nSpp.buildMgr.dumpLlvmIrForElement(T~ast);\n' % (
            "".join(c.text() for c in self.classes), "".join("  def %s: %s;\n" % (n, t.name) for n, t in self.globals),
            "\n".join(h.source() for h in self.helpers if h.cls is None), "\n".join(p.source() for p in ps))


class Gen:
    def __init__(self, ch, rng, name, helper):
        self.c, self.r, self.name, self.helper = ch, rng, name, helper
        self.k = self.depth = self.inblock = 0

    def fresh(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    # ---- variables in scope: (name, type, isref, local)
    def start(self):
        r = self.r
        if r.random() < 0.08 and self.c.globals:
            n, t = r.choice(self.c.globals)
            return E(n, t, True, lambda s, n=n: s.glob[n])
        if r.random() < 0.08:
            hs = [h for h in self.c.helpers if h.pure and h.retref and h.cls is None]
            if hs:
                e = self.callx(r.choice(hs))
                if e is not None:
                    return e
        if self.inblock and r.random() < 0.25:
            th = [v for v in self.vars if v[0] == "this"]
            if th and th[0][1].k == "cls":
                # a field of this, by its own name
                n, o, f = r.choice(list(th[0][1].all_fields()))
                return self.field(E("this", th[0][1], True, lambda s: s.addr("this"), "this"), n, o, f, n)
        if r.random() < 0.06:
            e = self.tempfield()
            if e is not None:
                return e
        n, t, ref = r.choice(self.vars)
        return E(n, t, True, lambda s, n=n: s.addr(n), root=n, refslot=(lambda s, n=n: s.var(n)[0]) if ref else None)

    def tempfield(self, want=None):
        """a field of an object that a function returns"""
        r = self.r
        hs = [h for h in self.c.helpers if h.pure and not h.retref and h.ret is not None and h.ret.k == "cls" and h.cls is None]
        for _ in range(1 if want is None else 3):
            if not hs or self.depth > 1:
                return None
            h = r.choice(hs)
            fs = [x for x in h.ret.all_fields() if want is None or want(x[2].ty)]
            e = self.callx(h) if fs else None
            if e is None:
                continue

            def temp(s):
                v = e.ev(s)
                a = s.local(e.ty.size, "temp")
                s.wr(a, e.ty, v)
                return a
            return self.field(E(e.text, e.ty, True, temp, "temp!"), *r.choice(fs))
        return None

    def lval(self, want=None, tries=25, localok=True):
        """a random lvalue (of the wanted type)"""
        r = self.r
        for _ in range(tries):
            e = self.start()
            n = 0
            while n < 7:
                if (want is None and r.random() < 0.25) or (want is not None and e.ty == want and r.random() < 0.75):
                    break
                f = self.step(e)
                if f is None:
                    break
                e = f
                n += 1
            if want is None or e.ty == want:
                return e
        return None

    def step(self, e):
        r, t = self.r, e.ty
        if t.k == "cls":
            if r.random() < 0.15:
                ms = [m for m in self.c.helpers if m.cls is not None and m.cls == t and m.pure and m.retref]
                if ms:
                    x = self.callx(r.choice(ms), e)
                    if x is not None:
                        return x
            n, o, f = r.choice(list(t.all_fields()))
            return self.field(e, n, o, f)
        if t.k == "arr":
            ix = self.index(t.n)
            if ix is None:
                return None
            txt, ev = ix
            return E("%s(%s)" % (e.text, txt), t.a, True, lambda s: simp(e.ev(s) + ev(s) * t.a.size), e.root, steps=e.steps + 1)
        if t.k == "ptr" and t.a is not None:
            x = E(e.text + "~cnt", t.a, True, lambda s: s.rd(e.ev(s), t), None, steps=e.steps + 1)
            x.lazy = True
            return x
        return None

    def field(self, e, n, o, f, text=None):
        text = text or "%s.%s" % (e.text, n)
        hops, o = o

        def at(s):
            a = e.ev(s)
            for h in hops:
                a = s.rd(simp(a + h), REFT)
            return simp(a + o)
        if f.ref:
            return E(text, f.ty, True, lambda s: s.rd(at(s), REFT), None, steps=e.steps + 1, refslot=at)
        x = E(text, f.ty, True, at, None if hops else e.root, steps=e.steps + 1)
        if hops:
            x.lazy = True
        return x

    def index(self, n):
        """an index: its text and 64-bit value"""
        r = self.r
        x = r.random()
        if x < 0.45 or self.depth > 1:
            i = r.randrange(n)
            return str(i), lambda s: bv(i)
        e = None
        for _ in range(8):
            self.depth += 1
            e = self.lval(tries=1)
            self.depth -= 1
            if e.ty.k == "num" and e.ty.a.int and e.ty.a is not lo.B:
                break
        else:
            return None
        t = e.ty
        if x < 0.6 and t.a.bits >= 32:
            # a masked index
            m = 1 if n < 4 else 3
            bt = lo.bit_type(t.a, lo.I[32])

            def ev(s):
                v = conv(e.val(s), t.a, bt) & bv(m, bt.bits)
                return conv(simp(v), bt, lo.I[64])
            return "(%s & %d)" % (e.text, m), ev
        return e.text, lambda s: conv(e.val(s), t.a, lo.I[64])

    # ---- values
    def value(self, t, depth=0):
        """an rvalue convertible to t -> E or None"""
        if t.k == "arr" and t.n > 20:
            return None
        if t.k == "num":
            return self.numval(t)
        if t.k == "ptr":
            return self.ptrval(t, depth)
        if self.r.random() < 0.2:
            hs = [h for h in self.c.helpers if h.pure and not h.retref and h.ret == t and h.cls is None]
            if hs:
                x = self.callx(self.r.choice(hs))
                if x is not None:
                    return x
        return self.lval(t)

    def numval(self, t):
        r = self.r
        x = r.random()
        if t is BOOL:
            if x < 0.4:
                e = self.ptrcmp()
                if e is not None:
                    return e
            return self.lval(t)
        if x < 0.16:
            return self.lit(t)
        if x < 0.22:
            a = r.choice(self.c.classes + [Ty("arr", r.choice(self.c.classes), 2), ptr(self.c.classes[0])])
            return self.sized("%s~size" % a.name, a.size)
        if x < 0.26:
            e = self.lval()
            return self.sized("%s~size" % e.text, e.ty.size)
        if x < 0.31 and t.a.int:
            p = self.anyptr()
            if p is not None:
                return E("%s~cast[ArchInt]" % p.text, NUM["ArchInt"], False, lambda s: p.val(s))
        if x < 0.37:
            hs = [h for h in self.c.helpers if h.pure and not h.retref and h.ret is not None and h.ret.k == "num" and (h.ret.a.int or not t.a.int)]
            if hs:
                h = r.choice(hs)
                e = self.callx(h) if h.cls is None else None
                if e is not None:
                    return e
        y = r.random()
        for _ in range(20):
            e = self.tempfield(lambda u: u.k == "num") if y < 0.2 else None
            if e is None:
                e = self.lval()
            if e.ty.k == "num" and (e.ty.a.int or not t.a.int) and (t.a.int or True):
                if x > (0.6 if y < 0.2 else 0.9) and e.ty.a.int and t.a.int and e.ty is not BOOL:
                    f = (self.tempfield(lambda u: u.k == "num") if y < 0.2 else None) or self.lval()
                    if f.ty.k == "num" and f.ty.a.int and f.ty is not BOOL:
                        op = r.choice("&|$")
                        bt = lo.bit_type(e.ty.a, f.ty.a)
                        rt = NUM[bt.name]
                        return E("%s %s %s" % (e.text, op, f.text), rt, False,
                                 lambda s: simp(lo.bitop(op, bt, conv(e.val(s), e.ty.a, bt), conv(f.val(s), f.ty.a, bt))[0]))
                if x > 0.8 and not e.text.startswith("("):
                    u = r.choice(INTN) if e.ty.a.int else r.choice((NUM["Float[32]"], NUM["Float[64]"]))
                    if t.a.int or True:
                        return E("%s~cast[%s]" % (e.text, u.name), u, False, lambda s: conv(e.val(s), e.ty.a, u.a))
                return e
        return self.lit(t)

    def lit(self, t):
        v = self.r.choice((0, 1, 2, 3, 7, 100, 127, 255, 300, 1000, 65535, 70000))
        it = NUM["Int[64]"]
        return E(str(v), it, False, lambda s: bv(v))

    def sized(self, text, n):
        return E(text, NUM["Int[64]"], False, lambda s: bv(n))

    def anyptr(self):
        for _ in range(15):
            e = self.lval()
            if e.ty.k == "ptr":
                return e
        return None

    def ptrcmp(self):
        r = self.r
        p = self.anyptr()
        if p is None or p.ty.a is None:
            return None
        op = r.choice(("==", "!="))
        if r.random() < 0.3:
            return E("%s %s 0" % (p.text, op), BOOL, False, lambda s: simp(z3.If((p.val(s) == 0) if op == "==" else (p.val(s) != 0), bv(1, 1), bv(0, 1))))
        q = self.ptrval(p.ty, 1)
        if q is None:
            return None

        def ev(s):
            b, a = q.val(s), p.val(s)
            if s.sym and (s.mentions(a) or s.mentions(b)):
                raise Discard("local address compared")
            return simp(z3.If((a == b) if op == "==" else (a != b), bv(1, 1), bv(0, 1)))
        return E("%s %s %s" % (p.text, op, q.text), BOOL, False, ev)

    def offset(self, minus):
        """an integer added to a pointer: text, 64-bit value"""
        r = self.r
        if r.random() < 0.4:
            n = r.randint(0, 5)
            return str(n), lambda s: bv(n)
        for _ in range(10):
            e = self.lval()
            if e.ty.k == "num" and e.ty.a.int:
                return e.text, lambda s: conv(e.val(s), e.ty.a, lo.I[64])
        return None

    def ptrval(self, t, depth=0):
        r = self.r
        for _ in range(6):
            x = r.random()
            if x < 0.3:
                e = self.lval(t, 8)
                if e is not None:
                    return e
            elif t.a is None:
                e = self.anyptr()
                if e is not None:
                    return E(e.text, t, False, lambda s: e.val(s))
            elif x < 0.6:
                e = self.lval(t.a, 10)
                if e is not None:
                    return E(e.text + "~ptr", t, False, lambda s: e.ev(s))
            elif x < 0.75 and depth == 0:
                p = self.lval(t, 8)
                minus = r.random() < 0.4
                o = self.offset(minus) if p is not None else None
                if o is not None:
                    return E("%s %s %s" % (p.text, "-" if minus else "+", o[0]), t, False,
                             lambda s: simp(p.val(s) - o[1](s) * t.a.size) if minus else simp(p.val(s) + o[1](s) * t.a.size))
            elif x < 0.84:
                p = self.anyptr()
                if p is not None:
                    return E("%s~cast[%s]" % (p.text, t.name), t, False, lambda s: p.val(s))
            elif x < 0.88:
                e = self.lval()
                return E("%s~ptr~cast[%s]" % (e.text, t.name), t, False, lambda s: e.ev(s))
            elif x < 0.92:
                # a pointer to an array is a pointer to its first element
                for _ in range(8):
                    p = self.lval()
                    if p.ty.k == "ptr" and p.ty.a is not None and p.ty.a.k == "arr" and p.ty.a.a == t.a:
                        return E(p.text, t, False, lambda s: p.val(s))
            else:
                hs = [h for h in self.c.helpers if h.pure and not h.retref and h.ret == t and h.cls is None]
                if hs:
                    e = self.callx(r.choice(hs))
                    if e is not None:
                        return e
        e = self.lval()
        return E("%s~ptr~cast[%s]" % (e.text, t.name), t, False, lambda s: e.ev(s))

    # ---- calls
    def args(self, f):
        out = []
        for p in f.params:
            if p.mode == "ref":
                e = self.lval(p.ty)
                if e is None and p.ty.k == "cls":
                    # an object of a class that begins with an injected member of this class
                    for _ in range(6):
                        d = self.lval()
                        if d.ty.k == "cls" and d.ty.fields[0].inj and not d.ty.fields[0].ref and d.ty.fields[0].ty == p.ty:
                            e = d
                            break
                if e is None:
                    return None
                out.append((e.text, lambda s, e=e: e.ev(s)))
            else:
                e = self.value(p.ty)
                if e is None:
                    return None
                if p.ty.k == "num":
                    out.append((e.text, lambda s, e=e, p=p: conv(e.val(s), e.ty.a, p.ty.a)))
                else:
                    out.append((e.text, lambda s, e=e: e.val(s)))
        for t in f.varargs or ():
            e = self.lval(t, 40)
            if e is None:
                return None
            out.append((e.text, lambda s, e=e: e.val(s)))
        return out

    def callx(self, f, this=None):
        if self.depth > 1:
            return None
        self.depth += 1
        a = self.args(f)
        self.depth -= 1
        if a is None:
            return None
        txt = "%s(%s)" % (f.name if this is None else "%s.%s" % (this.text, f.name), ", ".join(x for x, _ in a))
        if len(txt) > 400:
            return None

        def ev(s):
            t = this.ev(s) if this is not None else None
            return f.run(s, [x(s) for _, x in a], t)
        return E(txt, f.ret, f.retref, ev, None)

    # ---- statements
    def assign(self, pure):
        r = self.r
        for _ in range(12):
            l = self.lval()
            if l.text == "this" or l.text.startswith("(") or l.root == "temp!":
                continue
            if pure and not self.islocal(l):
                continue
            t = l.ty
            if t.k == "num" and t.a.int and t is not BOOL and r.random() < 0.2:
                x = self.lval()
                if x.ty.k == "num" and x.ty.a.int and x.ty is not BOOL:
                    op = r.choice("&|$")

                    def ex(s, l=l, x=x, t=t, op=op):
                        b = conv(x.val(s), x.ty.a, t.a)
                        a = l.ev(s)
                        s.wr(a, t, simp(lo.bitop(op, t.a, s.rd(a, t), b)[0]))
                    return "%s %s= %s;" % (l.text, op, x.text), ex
            if t.k == "num" and t.a.kind == "u" and t.a.bits >= 32 and r.random() < 0.2:
                pre, op = r.random() < 0.5, r.choice("+-")

                def ex(s, l=l, t=t, op=op):
                    a = l.ev(s)
                    v = s.rd(a, t)
                    s.wr(a, t, simp(v + 1 if op == "+" else v - 1))
                return ("%s%s;" % (op * 2, l.text) if pre else "%s%s;" % (l.text, op * 2)), ex
            if t.k == "ptr":
                if t.a is not None and r.random() < 0.25:
                    minus = r.random() < 0.4
                    o = self.offset(minus)
                    if o is not None:
                        def ex(s, l=l, t=t, o=o, minus=minus):
                            d = o[1](s) * t.a.size
                            a = l.ev(s)
                            s.wr(a, t, simp(s.rd(a, t) - d if minus else s.rd(a, t) + d))
                        return "%s %s= %s;" % (l.text, "-" if minus else "+", o[0]), ex
                if r.random() < 0.08 and t.a is not None:
                    return "%s = 0;" % l.text, lambda s, l=l, t=t: s.wr(l.ev(s), t, bv(0))
            e = self.value(t)
            if e is None or e.text == l.text:
                continue

            def ex(s, l=l, e=e, t=t):
                v = e.val(s)
                a = l.ev(s)
                s.wr(a, t, conv(v, e.ty.a, t.a) if t.k == "num" else v)
            return "%s = %s;" % (l.text, e.text), ex
        return None

    def islocal(self, e):
        return e.root is not None and e.root in self.locals

    def rebind(self, pure):
        """a reference is made to refer to something else"""
        r = self.r
        for _ in range(12):
            e = self.lval()
            if e.refslot is None or e.text == "this" or e.root == "temp!":
                continue
            if pure and not (e.root in self.locals or e.root is not None):
                continue
            if pure and e.steps:
                continue
            if r.random() < 0.5:
                p = self.ptrval(ptr(e.ty))
                if p is None or p.text == e.text + "~ptr":
                    continue
                return "%s~ptr = %s;" % (e.text, p.text), lambda s, e=e, p=p: s.wr(e.refslot(s), REFT, p.val(s))
            l = self.lval(e.ty)
            if l is None or l.text == e.text:
                continue
            return "%s~no_deref = %s;" % (e.text, l.text), lambda s, e=e, l=l: s.wr(e.refslot(s), REFT, l.ev(s))
        return None

    def define(self):
        """a local variable -> one or more (text, exec)"""
        r = self.r
        n = self.fresh("v")
        x = r.random()
        if x < 0.3:
            l = self.lval()
            t = l.ty
            self.vars.append((n, t, True))
            if r.random() < 0.5 or l.ty.k == "arr":
                return "def %s: ref[%s]; %s~ptr = %s~ptr;" % (n, t.name, n, l.text), lambda s: s.define(n, t, True, l.ev(s))
            return "def %s: ref[%s](%s);" % (n, t.name, l.text), lambda s: s.define(n, t, True, l.ev(s))
        hs = [h for h in self.c.helpers if h.ret is not None and not h.retref and h.cls is None and (h.pure or not self.purefn)]
        if x < 0.45 and hs:
            h = r.choice(hs)
            e = self.callx(h)
            if e is not None:
                t = h.ret
                self.locals.add(n)
                self.vars.append((n, t, False))
                return "def %s: %s = %s;" % (n, t.name, e.text), lambda s: s.define(n, t, False, e.val(s))
        t = self.lval().ty if r.random() < 0.7 else self.c.type(r, 1)
        e = self.value(t)
        if e is None:
            return None
        self.locals.add(n)
        self.vars.append((n, t, False))

        def ex(s):
            v = e.val(s)
            s.define(n, t, False, conv(v, e.ty.a, t.a) if t.k == "num" else v)
        if r.random() < 0.5 and t.k == "num" or r.random() < 0.3 and t.k != "arr":
            return "def %s: %s(%s);" % (n, t.name, e.text), ex
        if t.agg and r.random() < 0.3 or r.random() < 0.1:
            return "def %s: %s; %s = %s;" % (n, t.name, n, e.text), ex
        return "def %s: %s = %s;" % (n, t.name, e.text), ex

    def callst(self):
        r = self.r
        hs = [h for h in self.c.helpers if not h.pure]
        if not hs:
            return None
        h = r.choice(hs)
        this = None
        if h.cls is not None:
            this = self.lval(h.cls)
            if this is None or this.text.startswith("("):
                return None
        e = self.callx(h, this)
        if e is None:
            return None
        return e.text + ";", lambda s: e.ev(s)

    def within(self, pure):
        """l.{ ... }"""
        r = self.r
        for _ in range(10):
            l = self.lval()
            if l.ty.k != "cls" or l.text == "this" or l.lazy:
                continue
            if pure and not self.islocal(l):
                continue
            name = "this"
            save, sl = self.vars, set(self.locals)
            self.vars = [v for v in self.vars if v[0] != "this"] + [("this", l.ty, True)]
            out = []
            # the object's fields by their own names: reached through this
            self.inblock += 1
            for _ in range(r.randint(1, 3)):
                st = self.assign(pure)
                if st is not None:
                    out.append(st)
            self.inblock -= 1
            self.vars = save
            if not out:
                continue

            def ex(s, l=l, out=out):
                a = l.ev(s)
                k = len(s.env[-1])
                s.define("this", l.ty, True, a)
                for _, x in out:
                    x(s)
                del s.env[-1][k:]
            return "%s.{ %s };" % (l.text, " ".join(t for t, _ in out)), ex
        return None

    # ---- functions
    def function(self, pure=False):
        r = self.r
        self.purefn = pure
        cls = r.choice(self.c.classes) if self.helper and r.random() < 0.3 else None
        params = []
        for i in range(r.randint(0 if cls is not None else 1, 2 if self.helper else 4)):
            x = r.random()
            n = "a%d" % i
            if x < 0.55 or i == 0 and cls is None:
                params.append(Param(n, r.choice(self.c.classes) if x < 0.45 else self.c.type(r, 1), "ref"))
            elif x < 0.7:
                params.append(Param(n, self.c.num(), "val"))
            elif x < 0.82:
                params.append(Param(n, ptr(self.c.pointee()), "val"))
            elif x < 0.94:
                params.append(Param(n, r.choice(self.c.classes), "val"))
            else:
                params.append(Param(n, Ty("arr", self.c.num(), r.randint(2, 3)), "val"))
        r.shuffle(params)
        self.vars = [(p.name, p.ty, p.mode == "ref") for p in params]
        self.locals = {p.name for p in params if p.mode == "val"}
        if cls is not None:
            self.vars.append(("this", cls, True))
        va = None
        if self.helper and cls is None and r.random() < 0.15:
            va = [r.choice([NUM["Int[32]"], NUM["Int[64]"], NUM["Word[32]"], NUM["Word[64]"], NUM["Float[64]"], NUM["ArchInt"], ptr(r.choice(self.c.classes))]) for _ in range(r.randint(1, 3))]
        f = Fn(self.name, params, None, False, cls, va)
        body = []
        if va is not None:
            for i, t in enumerate(va):
                n = self.fresh("w")
                body.append(("def %s: %s = args~next_arg[%s];" % (n, t.name, t.name), lambda s, n=n, t=t, i=i: s.define(n, t, False, [x for x in s.env[-1] if x[0] == "args"][0][1][i])))
                self.vars.append((n, t, False))
                self.locals.add(n)
        for _ in range(r.randint(0, 2) if self.helper else r.randint(2, 7)):
            x = r.random()
            if x < 0.22:
                s = self.define()
            elif x < 0.32:
                s = self.rebind(pure)
            elif x < 0.44 and not pure:
                s = self.callst()
            elif x < 0.52:
                s = self.within(pure)
            else:
                s = self.assign(pure)
            if s is not None and len(s[0]) < 500:
                body.append(s)
        x = r.random()
        if x < 0.75 or pure:
            k = r.random()
            if k < 0.25:
                e = self.lval()
                if not self.islocal(e) and e.root not in self.locals and not (e.root is None and False):
                    f.ret, f.retref, f.result = e.ty, True, e
            elif k < 0.5:
                t = self.c.num()
                e = self.numval(t)
                if e is not None:
                    f.ret, f.result = t, e
            elif k < 0.7:
                t = ptr(self.c.pointee())
                e = self.ptrval(t)
                if e is not None:
                    f.ret, f.result = t, e
            elif k < 0.92:
                t = r.choice(self.c.classes)
                e = self.lval(t)
                if e is not None:
                    f.ret, f.result = t, e
            else:
                e = self.lval()
                if e.ty.k == "arr":
                    f.ret, f.result = e.ty, e
            if f.ret is None and pure:
                t = self.c.num()
                e = self.lit(t) if t is not BOOL else None
                if e is None:
                    return None
                f.ret, f.result = t, e
        f.body, f.pure = body, pure
        if not body and f.result is None:
            return None
        # is it a program the language defines?
        try:
            self.c.trial = spec_run(self.c, f, bx.Memory())
        except (Discard, Bad):
            return None
        if cls is not None:
            cls.methods.append(f)
        return f


# ------------------------------------------------------------------ comparison
def sym_args(mem, f):
    """parameters: terms or regions shared by both sides.  -> (arguments for the IR, values for the machine)"""
    ir, sp = [], []
    for p in f.params:
        nm = "in " + p.name
        if p.mode == "ref" or p.ty.k == "ptr":
            v = z3.BitVec(nm, 64)
            ir.append(v)
            sp.append(v)
        elif p.ty.k == "num":
            v = z3.BitVec(nm, p.ty.a.bits)
            ir.append(v)
            sp.append(v)
        elif p.ty.k == "cls":
            b = mem.region(nm, p.ty.size, True)
            ir.append(b)
            sp.append(None)
        else:
            v = [z3.BitVec("%s %d" % (nm, o), 1 if l.k == "num" and l.a.bits == 1 else 8 * l.size) for o, l in p.ty.ls]
            ir.append(v)
            sp.append(v)
    this = None
    if f.cls is not None:
        this = z3.BitVec("in this", 64)
        ir.insert(0, this)
    va = []
    for i, t in enumerate(f.varargs or ()):
        v = z3.BitVec("in va%d" % i, 64 if t.k == "ptr" else t.a.bits)
        va.append((t, v))
        sp.append(v)
    return ir, sp, this, va


def spec_run(ch, f, mem):
    """-> (ir args, S after the run, result)"""
    ir, sp, this, va = sym_args(mem, f)
    m = mem.copy()
    s = S(m)
    for n, t in ch.globals:
        s.glob[n] = z3.BitVec("@!T." + n, 64)
    for i, p in enumerate(f.params):
        if sp[i] is None:
            sp[i] = s.rd(z3.BitVec("&in " + p.name, 64), p.ty)
    mark = len(m.oob)
    m.oob = []
    r = f.run(s, sp, this)
    for x in (r if isinstance(r, list) else [r] if r is not None else []):
        if s.mentions(x):
            raise Discard("local address or uninitialised value returned")
    return ir, va, s, r


class Result:
    def __init__(self):
        self.obl, self.bad, self.by, self.inlined, self.model = 0, None, {}, set(), None
        self.undecided = False

    def prove(self, ante, goal, what, seconds=15):
        self.obl += 1
        g = simp(goal)
        if z3.is_true(g):
            self.by["simplifier"] = self.by.get("simplifier", 0) + 1
            return True
        s = z3.Solver()
        s.set("timeout", seconds * 1000)
        for a in list(ante) + [z3.Not(g)]:
            s.add(a)
            s.add(bx.definitions(a))
        c = s.check()
        if c == z3.unsat:
            self.by["z3"] = self.by.get("z3", 0) + 1
            return True
        self.bad = what
        if c == z3.sat:
            self.model = str(s.model())[:600]
        else:
            self.undecided = True
        return False


def check_fn(mod, ch, f):
    """the obligations of one function"""
    R = Result()
    mem = bx.Memory()
    ir, va, s, r = spec_run(ch, f, mem)
    m = mem.copy()
    m.oob = []
    ex = bx.Exec(mod, m)
    for n, t in ch.globals:
        ex.globals["!T." + n] = z3.BitVec("@!T." + n, 64)
    args = list(ir)
    if f.ret is not None and not f.retref and f.ret.k == "cls":
        args.insert(0, m.region("result", f.ret.size))
    try:
        fn = mod.funcs.get(f.name)
        if fn is None or fn.decl:
            raise Bad("no function %s is emitted" % f.name)
        extra = []
        for t, v in va:
            extra.append((fn_type(mod, t), v))
        got = ex.call(f.name, args + extra)
        want = r
        R.inlined = ex.inlined
        ante = [c for c, _ in s.m.oob]
        for c, w in m.oob:
            if not R.prove(ante, c, "access inside of its variable: " + w):
                return R
        if f.ret is not None:
            if not f.retref and f.ret.k == "cls":
                got = [ex.read(simp(args[0] + o), leaf_ir(l)) for o, l in f.ret.ls]
            gs, ws = (got, want) if isinstance(want, list) else ([got], [want])
            if got is None or len(gs) != len(ws):
                raise Bad("the result has another form")
            for i, (g, w) in enumerate(zip(gs, ws)):
                if g is None or g.size() != w.size():
                    raise Bad("the result has another width")
                if not R.prove(ante, g == w, "result" + (" part %d" % i if len(gs) > 1 else "")):
                    return R
        h1, h2 = m.state("heap"), s.m.state("heap")
        R.obl += 1
        if h1.eq(h2):
            R.by["identical"] = R.by.get("identical", 0) + 1
        else:
            R.obl -= 1
            k = z3.BitVec("any address", 64)
            dc = [k != a for a in s.dontcare]
            if not R.prove(ante + dc, z3.Select(h1, k) == z3.Select(h2, k), "memory after the call"):
                return R
    except Bad as b:
        R.obl += 1
        R.bad = str(b)
    except Outside as o:
        R.obl += 1
        R.bad, R.undecided = "outside the verifier's fragment: %s" % o, True
    return R


def leaf_ir(l):
    import irparse as irp
    if l.k == "ptr":
        return irp.INT(64)
    return irp.INT(l.a.bits)


def fn_type(mod, t):
    import irparse as irp
    if t.k == "ptr":
        return irp.T("ptr")
    if t.a.int:
        return irp.INT(t.a.bits)
    return irp.T("float" if t.a.bits == 32 else "double")


# ------------------------------------------------------------------ the suite
class Eng:
    def __init__(self):
        import irvc
        self.stats, self.failures, self.inlined, self.used_contracts = irvc.Stats(), [], set(), set()


NH, NP = 10, 30


class Suite:
    def __init__(self, seeds, n):
        import concurrent.futures as cf
        import multiprocessing as mp
        self.keys = [(s, k) for s in seeds for k in range(n)]
        emit.dist()
        with cf.ThreadPoolExecutor(8) as ex, mp.get_context("fork").Pool(8) as pool:
            texts = pool.imap(chunk_text, self.keys)
            jobs = []
            for key, t in zip(self.keys, texts):
                jobs.append((key, t, ex.submit(self.one, key, t[0])))
            self.text = {key: t[0] for key, t, _ in jobs}
            self.nprogs = sum(t[1] for _, t, _ in jobs)
            self.ll = {}
            for key, t, j in jobs:
                self.ll[key] = j.result()

    def one(self, key, text):
        try:
            return emit.alusus_ir(text, "mem%d_%d" % key)[1]
        except emit.EmitError as e:
            if not e.concrete:
                raise
            # which program of the group is rejected?
            ch = Chunk(*key).build(NH, NP)
            for p in ch.progs:
                try:
                    emit.alusus_ir(ch.source([p]), "mem%d_%d_%s" % (key + (p.name,)))
                except emit.EmitError as e1:
                    raise e1
            raise e

    def tasks(self):
        return [vrun.Task("programs %d/%d" % k, t_chunk, (self, k), function="memory") for k in self.keys]


def chunk_text(key):
    ch = Chunk(*key).build(NH, NP)
    return ch.source(), len(ch.progs) + len([h for h in ch.helpers if h.cls is None])


def t_chunk(suite, key):
    import irvc, irparse
    e = Eng()
    ch = Chunk(*key).build(NH, NP)
    if ch.source() != suite.text[key]:
        raise irvc.Unsupported("the generator is not deterministic")
    mod = irparse.parse(open(suite.ll[key], encoding="utf-8", errors="surrogateescape").read())
    for f in ch.helpers + ch.progs:
        if f.cls is not None:
            continue
        R = check_fn(mod, ch, f)
        e.stats.obl += R.obl
        for k, v in R.by.items():
            e.stats.by["z3" if k == "z3" else "simplifier"] += v
        e.stats.covers += 1
        e.inlined |= R.inlined
        if R.bad:
            e.failures.append(irvc.Failure("%s: %s" % (f.name, R.bad), "undecided" if R.undecided else "refuted",
                                           {"chunk": "%d/%d" % key, "program": f.source(), "counterexample": R.model}, "function " + f.name, None))
            if len(e.failures) > 3:
                break
    return [e]


# ------------------------------------------------------------------ replay on the compiled code
class Skip(Exception):
    """the chosen memory does not fit the program (an address outside of the prepared objects)"""


class CMem:
    """the same memory with known contents: the prepared objects (real addresses) and locals"""
    def __init__(self, ranges, read):
        self.ranges, self.read = ranges, read       # [(start, end)], byte reader
        self.w = {}
        self.loc = 0x7fff00000000
        self.oob, self.names = [], {}
        self.locals = []

    def region(self, name, size, unknown=False):
        a = self.loc
        self.loc += (size + 63) // 16 * 16
        self.locals.append((a, a + size))
        return bv(a)

    def where(self, a):
        return "", a

    def at(self, addr, n):
        a = simp(addr)
        if not z3.is_bv_value(a):
            raise Skip("unknown address")
        a = a.as_long()
        for lo_, hi in self.ranges:
            if lo_ <= a and a + n <= hi:
                return a
        for lo_, hi in self.locals:
            if lo_ <= a and a + n <= hi:
                return a
        raise Skip("outside")

    def load(self, addr, n):
        a = self.at(addr, n)
        out = 0
        for i in range(n):
            x = self.w.get(a + i)
            if x is None:
                if a >= 0x7fff00000000 and any(lo_ <= a < hi for lo_, hi in self.locals):
                    raise Skip("uninitialised")
                x = self.read(a + i)
            out |= x << (8 * i)
        return bv(out, 8 * n)

    def store(self, addr, v):
        n = v.size() // 8
        a = self.at(addr, n)
        v = simp(v)
        if not z3.is_bv_value(v):
            raise Skip("unknown value")
        x = v.as_long()
        for i in range(n):
            self.w[a + i] = x >> (8 * i) & 255


class Pools:
    """objects of every type a pointer of the chunk can point to, with pointers among them"""
    def __init__(self, ch, rng, base, size):
        self.ch, self.r, self.base, self.size = ch, rng, base, size
        self.pool, self.at, self.bytes = {}, base + 64, {}
        self.loc, self.fill, self.top = {}, [], []

    def addr(self, t):
        """an address of an object of type t"""
        t = t if t is not None else NUM["Int[64]"]
        r = self.r
        l = self.loc.get(t.name)
        if l and (t.name in self.pool and r.random() < 0.6 or r.random() < 0.35):
            return r.choice(l)
        if t.name not in self.pool:
            a = (self.at + 15) // 16 * 16
            n = 4
            self.at = a + n * t.size + 32
            if self.at > self.base + self.size:
                raise Skip("too many objects")
            self.pool[t.name] = a
            for i in range(n):
                self.fill.append((a + i * t.size, t))
                self.sub(a + i * t.size, t)
        return self.pool[t.name] + r.choice((0, 1, 1, 2)) * t.size

    def sub(self, a, t):
        self.loc.setdefault(t.name, []).append(a)
        if t.k == "arr":
            for i in range(t.n):
                self.sub(a + i * t.a.size, t.a)
        elif t.k == "cls":
            for f in t.fields:
                if not f.ref:
                    self.sub(a + t.off[f.name], f.ty)

    def run(self):
        while self.fill:
            a, t = self.fill.pop()
            self.put(a, t)

    def put(self, a, t):
        if t.k == "arr":
            for i in range(t.n):
                self.put(a + i * t.a.size, t.a)
        elif t.k == "cls":
            for i in padding(t):
                self.bytes[a + i] = 0xA5
            for f in t.fields:
                if f.ref:
                    self.word(a + t.off[f.name], self.addr(f.ty), 8)
                else:
                    self.put(a + t.off[f.name], f.ty)
        elif t.k == "ptr":
            self.word(a, self.addr(t.a), 8)
        else:
            self.word(a, self.num(t), t.size)

    def word(self, a, v, n):
        for i in range(n):
            self.bytes[a + i] = v >> (8 * i) & 255

    def num(self, t):
        import struct
        r = self.r
        if t is BOOL:
            return r.randint(0, 1)
        if t.a.kind == "f":
            v = r.choice((0.0, 1.0, 2.5, -3.75, 1e10))
            return int.from_bytes(struct.pack("<f" if t.a.bits == 32 else "<d", v), "little")
        x = r.random()
        v = r.randint(0, 2) if x < 0.75 else r.choice((3, 200, 255, 0xfffe, 1 << (t.a.bits - 1), (1 << t.a.bits) - 1, (1 << t.a.bits) - 2, 0x0102030405060708))
        return v & ((1 << t.a.bits) - 1)


def run_native(so, ch, f, seed, ansi={}):
    """one call of the compiled function on prepared memory -> text of a disagreement, or None; Skip if the program leaves the prepared memory"""
    import ctypes as c, mmap
    L = c.CDLL(so)
    rng = random.Random(seed)
    SZ = 1 << 16
    arena = mmap.mmap(-1, SZ)
    base = c.addressof(c.c_char.from_buffer(arena))
    P = Pools(ch, rng, base, SZ)
    gaddr = {}
    for n, t in ch.globals:
        try:
            gaddr[n] = c.addressof((c.c_char * t.size).in_dll(L, "!T." + n))
        except ValueError:
            raise Skip("no global")
        P.fill.append((gaddr[n], t))
        P.sub(gaddr[n], t)
    vals, shown = [], []
    for p in f.params:
        if p.mode == "ref":
            vals.append(P.addr(p.ty))
        elif p.ty.k == "ptr":
            vals.append(P.addr(p.ty.a))
        elif p.ty.k == "num":
            vals.append(P.num(p.ty))
        else:
            vals.append(P.addr(p.ty))       # its contents are passed
    vv = [P.addr(t.a) if t.k == "ptr" else P.num(t) for t in f.varargs or ()]
    P.run()
    for a, x in P.bytes.items():
        c.c_ubyte.from_address(a).value = x
    ranges = [(base, base + SZ)] + [(gaddr[n], gaddr[n] + t.size) for n, t in ch.globals]
    cm = CMem(ranges, lambda a: c.c_ubyte.from_address(a).value)
    s = S(cm, False)
    for n, a in gaddr.items():
        s.glob[n] = bv(a)
    sp = []
    for p, v in zip(f.params, vals):
        if p.mode == "ref" or p.ty.k == "ptr":
            sp.append(bv(v))
        elif p.ty.k == "num":
            sp.append(bv(v, p.ty.a.bits))
        else:
            sp.append(s.rd(bv(v), p.ty))
    for t, v in zip(f.varargs or (), vv):
        sp.append(bv(v) if t.k == "ptr" else bv(v, t.a.bits))
    r = f.run(s, sp)
    r = [simp(x) for x in (r if isinstance(r, list) else [r] if r is not None else [])]
    if any(not z3.is_bv_value(x) for x in r):
        raise Skip("unknown result")
    dc = set()
    for a in s.dontcare:
        dc.add(simp(a).as_long())
    # ---- the call
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        import signal, pickle
        signal.alarm(5)
        os.close(rd)
        out = None
        fn = getattr(L, "wrap_" + f.name)
        res = c.create_string_buffer(f.ret.size + 16 if f.ret is not None else 16)
        args, at = [c.addressof(res)], [c.c_void_p]
        for ty, v in [(VPTR if p.mode == "ref" or p.ty.agg else p.ty, v) for p, v in zip(f.params, vals)] + list(zip(f.varargs or (), vv)):
            if ty.k == "ptr":
                at.append(c.c_void_p)
                args.append(v)
            else:
                ct = lo.ctype(ty.a)
                at.append(ct)
                if ty.a.kind == "f":
                    args.append(ct.from_buffer_copy(v.to_bytes(ty.size, "little")).value)
                else:
                    args.append(bool(v) if ty is BOOL else v - (1 << ty.a.bits) if ty.a.kind == "i" and v >> (ty.a.bits - 1) else v)
        fn.argtypes = at
        if f.ret is None or not f.retref and f.ret.agg:
            fn.restype = None
        elif f.retref or f.ret.k == "ptr":
            fn.restype = c.c_void_p
        else:
            fn.restype = lo.ctype(f.ret.a)
        v = fn(*args)
        if f.ret is None:
            got = []
        elif fn.restype is None:
            got = [int.from_bytes(res.raw[o:o + l.size], "little") & (1 if l is BOOL else (1 << 64) - 1) for o, l in f.ret.ls]
        elif fn.restype is c.c_void_p:
            got = [v or 0]
        elif f.ret.a.kind == "f":
            got = [int.from_bytes(bytes(fn.restype(v)), "little")]
        else:
            got = [int(v) & ((1 << f.ret.a.bits) - 1)]
        desc = "called with %s" % ", ".join("%s=%s" % (p.name, hex(v)) for p, v in zip(f.params, vals))
        if got != [x.as_long() for x in r]:
            out = "%s\nreturns %s, the language defines %s" % (desc, [hex(x) for x in got], [hex(x.as_long()) for x in r])
        else:
            for lo_, hi in ranges:
                for a in range(lo_, hi):
                    w = cm.w.get(a)
                    if w is None:
                        w = P.bytes.get(a, 0)
                    if a in dc:
                        continue
                    x = c.c_ubyte.from_address(a).value
                    if x != w and out is None:
                        out = "%s\nleaves %#x in the byte at %#x, the language defines %#x (prepared memory %#x-%#x, before the call %#x)" % (desc, x, a, w, base, P.at, P.bytes.get(a, 0))
        os.write(wr, pickle.dumps(out))
        os._exit(0)
    os.close(wr)
    import pickle
    with os.fdopen(rd, "rb") as g:
        d = g.read()
    _, st = os.waitpid(pid, 0)
    if d:
        return pickle.loads(d)
    if os.WIFEXITED(st):
        raise Skip("not called")
    return "called with %s\nthe call crashes (signal %d)" % (", ".join("%s=%s" % (p.name, hex(v)) for p, v in zip(f.params, vals)), os.WTERMSIG(st))


def with_wrappers(ll, fns, path):
    """the module with, for every function, a caller that takes and returns aggregates through pointers"""
    import re
    text = open(ll, encoding="utf-8", errors="surrogateescape").read()
    out = []
    for f in fns:
        m = re.search(r'^define (.*?)@%s\((.*)\) .*\{$' % re.escape(f.name), text, re.M)
        if not m:
            continue
        rt = m.group(1).split()[-1] if "[" not in m.group(1) else m.group(1)[m.group(1).index("["):m.group(1).rindex("]") + 1]
        ps = [x for x in re.split(r', (?![^\[]*\])', m.group(2)) if x]
        sig, call, body, k = [], [], [], 0
        if ps and "sret(" in ps[0]:
            call.append(ps[0].rsplit(" ", 1)[0] + " %r")
            ps = ps[1:]
        va = bool(ps) and ps[-1] == "..."
        if va:
            ps = ps[:-1]
        for i, p in enumerate(ps):
            t = p.rsplit(" ", 1)[0]
            if t.startswith("["):
                sig.append("ptr %%p%d" % i)
                body.append("  %%v%d = load %s, ptr %%p%d, align 1" % (i, t, i))
                call.append("%s %%v%d" % (t, i))
            else:
                sig.append("%s %%p%d" % (t.split()[0], i))
                call.append("%s %%p%d" % (t, i))
        for i, t in enumerate(f.varargs or ()):
            lt = "ptr" if t.k == "ptr" else {"f32": "float", "f64": "double"}["f%d" % t.a.bits] if t.a.kind == "f" else "i%d" % t.a.bits
            sig.append("%s %%x%d" % (lt, i))
            call.append("%s %%x%d" % (lt, i))
        ft = "%s (%s)" % (rt, ", ".join([p.rsplit(" ", 1)[0].split()[0] if not p.startswith("[") else p.rsplit(" ", 1)[0] for p in ps] + ["..."])) if va else rt
        c = "call %s @%s(%s)" % (ft, f.name, ", ".join(call))
        if rt == "void":
            body += ["  " + c, "  ret void"]
        elif rt.startswith("["):
            body += ["  %%z = %s" % c, "  store %s %%z, ptr %%r, align 1" % rt, "  ret void"]
            rt = "void"
        else:
            body += ["  %%z = %s" % c, "  ret %s %%z" % rt]
        out.append("define %s @wrap_%s(%s) {\n%s\n}\n" % (rt, f.name, ", ".join(["ptr %r"] + sig), "\n".join(body)))
    open(path, "w", encoding="utf-8", errors="surrogateescape").write(text + "\n" + "\n".join(out))
    return path


def replay(suite, bad, seconds=100):
    import native, time
    wd = emit.workdir("memory-replay")
    todo, t0 = [], time.time()
    for r in bad:
        for f in r["failures"]:
            k = (f["inputs"] or {}).get("chunk")
            if k:
                todo.append((tuple(int(x) for x in k.split("/")), f["obligation"].split(":")[0]))
    sos, tried = {}, set()

    def attempt(key, pick, trials):
        ch = Chunk(*key).build(NH, NP)
        fns = [x for x in ch.helpers + ch.progs if x.cls is None]
        if key not in sos:
            try:
                sos[key] = native.shared([with_wrappers(suite.ll[key], fns, os.path.join(wd, "w%d_%d.ll" % key))], wd, "m%d_%d" % key)
            except RuntimeError as e:
                return "LLVM rejects what this tree's compiler emits for these valid programs:\n%s\n%s" % (suite.text[key], str(e)[:1500])
        for f in fns:
            if not pick(f) or time.time() - t0 > seconds:
                continue
            for i in range(trials):
                try:
                    t = run_native(sos[key], ch, f, i)
                except Skip:
                    continue
                if t:
                    return "this program, compiled by this tree's compiler and called natively on prepared objects:\n%s\n%s\n%s\n%s" % (
                        "".join(c.text() for c in ch.classes), "".join("  def %s: %s;\n" % (x[0], x[1].name) for x in ch.globals) + "\n".join(h.source() for h in ch.helpers if h.cls is None), f.source(), t)
        return None
    for key, name in todo[:60]:
        if time.time() - t0 > seconds:
            break
        t = attempt(key, lambda f: f.name == name, 150)
        if t:
            return t
    for key in dict.fromkeys(k for k, _ in todo):
        if time.time() - t0 > seconds:
            break
        t = attempt(key, lambda f: True, 15)
        if t:
            return t
    return None


def plan_memory():
    import check
    thorough = vrun.TIER == "thorough"
    seeds, n = [0, vrun.SEED], 150 if thorough else 60
    suite = Suite(seeds, n)
    return check.Plan(suite.tasks(), search=lambda bad: replay(suite, bad),
                      trusted=[x for x in check.TR_ALUSUS] + ["the storage semantics of the source language (/verif/props/memory.py) and the byte-level machine of the IR (/verif/lib/bytevc.py)"],
                      level="translation_validation",
                      assumptions=["objects copied by value are identical or do not overlap; padding bytes are not observable", "local variables' addresses do not outlive the call (programs that let them escape are not generated)",
                                   "floating point conversion is IEEE 754 round-to-nearest"],
                      notes="%d generated functions over random class, array, pointer and reference types (seeds %s); each compared with its meaning for all inputs, all memory contents and all aliasing" % (suite.nprogs, seeds),
                      extra={"programs": suite.nprogs, "disagreements_checked": 0, "samples": [suite.text[suite.keys[0]][:3000]], "seeds": seeds})
