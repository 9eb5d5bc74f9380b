"""Byte-level symbolic execution of emitted IR, for contracts about addresses and storage.

Memory is a set of regions, each a z3 array of bytes: one flat region for everything the caller can reach (any aliasing
of the parameters is covered), one region per local variable, global variable and result.  A pointer is a 64-bit term;
pointers into a region other than the flat one carry the region's symbolic base address as an addend."""
import z3
import irparse as ir


class Bad(Exception):
    """an obligation fails"""


class Outside(Exception):
    """outside the fragment"""


BV8, BV64 = z3.BitVecSort(8), z3.BitVecSort(64)


def bv(v, n=64):
    return z3.BitVecVal(v, n)


def simp(e):
    return z3.simplify(e)


INTERN, DEFS = {}, {}
ZERO = z3.K(BV64, bv(0, 8))


def version(prev, off, v):
    """the memory after a write: one name for equal writes to equal memories"""
    k = (prev.get_id(), off.get_id(), v.get_id())
    if k not in INTERN:
        c = z3.Const("M%d" % len(INTERN), z3.ArraySort(BV64, BV8))
        INTERN[k] = (c, prev, off, v)       # keeps the terms alive: their ids stay valid
        DEFS[c.decl().name()] = (prev, off, v)
    return INTERN[k][0]


def definitions(e):
    """the meaning of the memory names in a term"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and z3.is_array(x) and x.decl().name() in DEFS:
            prev, off, v = DEFS[x.decl().name()]
            a = prev
            for i in range(v.size() // 8):
                a = z3.Store(a, off + i, z3.Extract(8 * i + 7, 8 * i, v))
            out.append(x == a)
            st += [prev, off, v]
        else:
            st.extend(x.children())
    return out


class Memory:
    """regions: name -> base term (None: the flat one), size, initial contents, list of writes (offset, value, memory after it)"""
    def __init__(self):
        self.base, self.size, self.arr, self.log, self.byterm = {}, {}, {}, {}, {}
        self.arr["heap"] = z3.Const("heap", z3.ArraySort(BV64, BV8))
        self.base["heap"] = self.size["heap"] = None
        self.log["heap"] = ()
        self.oob = []       # conditions under which an access to a region is inside it

    def copy(self):
        m = Memory.__new__(Memory)
        m.base, m.size, m.byterm, m.arr = self.base, self.size, self.byterm, self.arr
        m.log, m.oob = dict(self.log), self.oob
        return m

    def region(self, name, size, unknown=False):
        """a fresh region -> its base address.  Fresh storage is filled with zeros: a defined program does not depend on it"""
        b = z3.BitVec("&" + name, 64)
        self.base[name], self.size[name] = b, size
        self.byterm[b.decl().name()] = name
        self.arr[name] = z3.Const("mem " + name, z3.ArraySort(BV64, BV8)) if unknown else ZERO
        self.log[name] = ()
        return b

    def where(self, addr):
        """-> (region, offset)"""
        a = simp(addr)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0 and a.decl().name() in self.byterm:
            return self.byterm[a.decl().name()], bv(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_BADD:
            for c in a.children():
                if z3.is_app(c) and c.num_args() == 0 and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.decl().name() in self.byterm:
                    return self.byterm[c.decl().name()], simp(a - c)
        return "heap", a

    def inside(self, r, off, n):
        if self.size[r] is not None:
            c = simp(z3.And(z3.ULE(off, bv(self.size[r] - n)) if self.size[r] >= n else z3.BoolVal(False)))
            if z3.is_false(c):
                raise Bad("access outside of %s (%d bytes at offset %s of %d)" % (r, n, off.sexpr()[:80], self.size[r]))
            if not z3.is_true(c):
                self.oob.append((c, "%d bytes of %s" % (n, r)))

    def state(self, r):
        return self.log[r][-1][2] if self.log[r] else self.arr[r]

    def load(self, addr, n):
        """n bytes, little endian -> bit-vector of 8n bits"""
        r, off = self.where(addr)
        self.inside(r, off, n)
        got, need, i = {}, set(range(n)), len(self.log[r])
        # the latest writes of these bytes, while it is known what they overlap
        while need and i:
            o, v, _ = self.log[r][i - 1]
            d = off - o
            d = simp(d)
            if not z3.is_bv_value(d):
                break
            d, k = d.as_signed_long(), v.size() // 8
            if d == 0 and k == n and len(need) == n:
                return v
            for j in list(need):
                if 0 <= d + j < k:
                    got[j] = z3.Extract(8 * (d + j) + 7, 8 * (d + j), v)
                    need.discard(j)
            i -= 1
        if need:
            a = self.log[r][i - 1][2] if i else self.arr[r]
            for j in need:
                got[j] = z3.Select(a, simp(off + j))
        return simp(z3.Concat(*[got[j] for j in range(n - 1, -1, -1)])) if n > 1 else simp(got[0])

    def store(self, addr, v):
        n = v.size() // 8
        r, off = self.where(addr)
        self.inside(r, off, n)
        v = simp(v)
        self.log[r] = self.log[r] + ((off, v, version(self.state(r), off, v)),)


def leaves(mod, t, off=0):
    """scalar parts of a type: (offset, type)"""
    t = mod.resolve(t)
    if t.k == "struct":
        for o, f in zip(mod.struct_layout(t)[0], t.a):
            yield from leaves(mod, f, off + o)
    elif t.k == "array":
        n = mod.size(t.b)
        for i in range(t.a):
            yield from leaves(mod, t.b, off + i * n)
    else:
        yield off, t


class VaList:
    def __init__(self, args):
        self.args, self.k = args, 0


class Exec:
    """runs one function of straight-line code (conditional branches must be decided by the values)"""
    def __init__(self, mod, mem, externs=None):
        self.mod, self.mem, self.externs = mod, mem, externs or {}
        self.va = {}
        self.nalloca = 0
        self.inlined = set()
        self.steps = 0
        self.obl = 0
        self.globals = {}
        self.events = []

    def bits(self, t):
        t = self.mod.resolve(t)
        return {"int": t.a, "ptr": 64, "float": 32, "double": 64}[t.k] if t.k != "int" else t.a

    def read(self, addr, t):
        t = self.mod.resolve(t)
        if t.k in ("struct", "array"):
            return [self.read(simp(addr + o), l) for o, l in leaves(self.mod, t)]
        n = self.bits(t)
        v = self.mem.load(addr, (n + 7) // 8)
        return simp(z3.Extract(n - 1, 0, v)) if n % 8 else v

    def write(self, addr, t, v):
        t = self.mod.resolve(t)
        if t.k in ("struct", "array"):
            ls = list(leaves(self.mod, t))
            if v is None:
                return
            for (o, l), x in zip(ls, v):
                self.write(simp(addr + o), l, x)
            return
        if v is None:       # undefined
            self.nalloca += 1
            v = z3.BitVec("undef!%d" % self.nalloca, self.bits(t))
        n = self.bits(t)
        if n % 8:
            v = z3.ZeroExt(8 - n % 8, v)
        self.mem.store(addr, v)

    def val(self, e, v):
        k = v.k
        if k == "local":
            if v.v not in e:
                raise Outside("undefined register " + v.v)
            return e[v.v]
        t = self.mod.resolve(v.ty)
        if k == "int":
            return bv(v.v, t.a)
        if k == "null":
            return bv(0)
        if k == "zero":
            if t.k in ("struct", "array"):
                return [bv(0, self.bits(l)) for _, l in leaves(self.mod, t)]
            return bv(0, self.bits(t))
        if k == "undef":
            if t.k in ("struct", "array"):
                return [None] * len(list(leaves(self.mod, t)))
            self.nalloca += 1
            return z3.BitVec("undef!%d" % self.nalloca, self.bits(t))
        if k == "global":
            return self.globaladdr(v.v)
        if k == "float":
            import struct
            s = v.v
            if s.startswith("0x"):
                d = struct.unpack("<d", struct.pack("<Q", int(s[2:], 16)))[0]
            else:
                d = float(s)
            return bv(struct.unpack("<I", struct.pack("<f", d))[0], 32) if t.k == "float" else bv(struct.unpack("<Q", struct.pack("<d", d))[0])
        if k == "cexpr":
            if v.v == "gep":
                return self.gep(v.x[0], [self.val(e, x) for x in v.x[1]])
            if v.v in ("bitcast", "inttoptr", "ptrtoint"):
                return self.val(e, v.x[0])
        if k == "agg":
            out = []
            for x in v.v:
                y = self.val(e, x)
                out += y if isinstance(y, list) else [y]
            return out
        if k == "str":
            return [bv(c, 8) for c in v.v]
        raise Outside("constant %r" % v)

    def globaladdr(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.mod.funcs:
            b = z3.BitVec("@" + name, 64)
        else:
            t, init, const = self.mod.globals[name]
            b = self.mem.region("@" + name, self.mod.size(t))
            if const and init is not None:
                self.write(b, t, self.val({}, init))
        self.globals[name] = b
        return b

    def gep(self, t, a):
        r = a[0]

        def ext(x):
            n = x.size()
            return x if n == 64 else z3.SignExt(64 - n, x) if n < 64 else z3.Extract(63, 0, x)
        r = r + ext(a[1]) * self.mod.size(t)
        for x in a[2:]:
            t = self.mod.resolve(t)
            if t.k == "struct":
                i = simp(x).as_long()
                r = r + self.mod.struct_layout(t)[0][i]
                t = t.a[i]
            else:
                t = t.b
                r = r + ext(x) * self.mod.size(t)
        return simp(r)

    def alloca(self, t, tag):
        self.nalloca += 1
        return self.mem.region("local%d %s" % (self.nalloca, tag), self.mod.size(t))

    def call(self, name, args, attrs=(), depth=0):
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            if name in self.externs:
                return self.externs[name](self, args)
            raise Outside("call of external " + name)
        if depth > 40:
            raise Outside("call depth")
        ir.body(f, self.mod)
        if len(args) < len(f.params) or len(args) > len(f.params) and not f.vararg:
            raise Bad("%s is called with %d arguments and has %d parameters" % (name, len(args), len(f.params)))
        if depth:
            self.inlined.add(name)
        e = {}
        for k, ((t, nm, at), a) in enumerate(zip(f.params, args)):
            ca = attrs[k] if k < len(attrs) else {}
            if depth and bool(ca.get("byval")) != bool(at.get("byval")):
                raise Bad("%s: by-value passing of argument %d does not agree" % (name, k))
            if depth and at.get("byval"):
                t2 = at["byval"]
                b = self.alloca(t2, nm)
                for o in range(0, self.mod.size(t2), 1):
                    pass
                self.write(b, t2, self.read(a, t2))
                a = b
            e[nm] = a
        extra = args[len(f.params):]
        blk, prev = f.order[0], None
        while True:
            goto = None
            ins_list = f.blocks[blk]
            i = 0
            while i < len(ins_list):
                ins = ins_list[i]
                self.steps += 1
                if self.steps > 20000:
                    raise Outside("too many steps")
                op = ins.op
                if op == "br":
                    if len(ins.x) == 1:
                        goto = ins.x[0]
                    else:
                        c = simp(self.val(e, ins.a[0]))
                        if not z3.is_bv_value(c):
                            raise Outside("branch on a symbolic condition")
                        goto = ins.x[0] if c.as_long() else ins.x[1]
                    break
                if op == "ret":
                    return self.val(e, ins.a[0]) if ins.a else None
                if op == "unreachable":
                    raise Bad("unreachable code is reached")
                r = self.step(ins, e, prev, extra, depth, name)
                if ins.res is not None:
                    e[ins.res] = r
                i += 1
            if goto is None:
                raise Outside("end of block")
            prev, blk = blk, goto

    def step(self, ins, e, prev, extra, depth, fname):
        op = ins.op
        if op == "phi":
            for v, l in ins.x:
                if l == prev:
                    return self.val(e, v)
            raise Outside("phi")
        if op == "alloca":
            return self.alloca(ins.ty, str(ins.res))
        if op == "load":
            return self.read(self.val(e, ins.a[0]), ins.ty)
        if op == "store":
            self.write(self.val(e, ins.a[1]), ins.a[0].ty, self.val(e, ins.a[0]))
            return None
        if op == "getelementptr":
            return self.gep(ins.ty, [self.val(e, a) for a in ins.a])
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.val(e, ins.a[0])
            if not isinstance(v, list):
                n = self.bits(ins.ty)
                if op == "ptrtoint" and n < 64:
                    return simp(z3.Extract(n - 1, 0, v))
                if op == "inttoptr" and v.size() < 64:
                    return simp(z3.ZeroExt(64 - v.size(), v))
            return v
        if op in ("sext", "zext", "trunc"):
            v, n = self.val(e, ins.a[0]), self.bits(ins.ty)
            return simp(z3.SignExt(n - v.size(), v) if op == "sext" else z3.ZeroExt(n - v.size(), v) if op == "zext" else z3.Extract(n - 1, 0, v))
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = self.val(e, ins.a[0]), self.val(e, ins.a[1])
            return simp({"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                         "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]())
        if op == "icmp":
            a, b = self.val(e, ins.a[0]), self.val(e, ins.a[1])
            c = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b,
                 "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[ins.x]()
            return simp(z3.If(c, bv(1, 1), bv(0, 1)))
        if op == "select":
            c, a, b = [self.val(e, x) for x in ins.a]
            return simp(z3.If(c == 1, a, b))
        if op == "extractvalue":
            v = self.val(e, ins.a[0])
            t = self.mod.resolve(ins.a[0].ty)
            base = 0
            for i in ins.x:
                if t.k == "struct":
                    base += sum(len(list(leaves(self.mod, x))) for x in t.a[:i])
                    t = self.mod.resolve(t.a[i])
                else:
                    base += i * len(list(leaves(self.mod, t.b)))
                    t = self.mod.resolve(t.b)
            k = len(list(leaves(self.mod, t)))
            return v[base:base + k] if t.k in ("struct", "array") else v[base]
        if op == "insertvalue":
            v, x = list(self.val(e, ins.a[0])), self.val(e, ins.a[1])
            t = self.mod.resolve(ins.a[0].ty)
            base = 0
            for i in ins.x:
                if t.k == "struct":
                    base += sum(len(list(leaves(self.mod, y))) for y in t.a[:i])
                    t = self.mod.resolve(t.a[i])
                else:
                    base += i * len(list(leaves(self.mod, t.b)))
                    t = self.mod.resolve(t.b)
            xs = x if isinstance(x, list) else [x]
            v[base:base + len(xs)] = xs
            return v
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            a = self.val(e, ins.a[0])
            n = self.bits(ins.ty)
            S = {32: z3.Float32(), 64: z3.Float64()}
            rne = z3.RNE()
            if op == "sitofp":
                return simp(z3.fpToIEEEBV(z3.fpSignedToFP(rne, a, S[n])))
            if op == "uitofp":
                return simp(z3.fpToIEEEBV(z3.fpUnsignedToFP(rne, a, S[n])))
            if op in ("fpext", "fptrunc"):
                return simp(z3.fpToIEEEBV(z3.fpFPToFP(rne, z3.fpBVToFP(a, S[a.size()]), S[n])))
            raise Outside(op)
        if op == "va_arg":
            p = str(simp(self.val(e, ins.a[0])))
            l = self.va.get(p)
            if l is None:
                raise Bad("va_arg without va_start")
            if l.k >= len(l.args):
                raise Bad("more variadic arguments are read than were passed")
            t, v = l.args[l.k]
            l.k += 1
            a, b = self.mod.resolve(t), self.mod.resolve(ins.ty)
            if repr(a) != repr(b):
                raise Bad("a variadic argument passed as %r is read as %r" % (a, b))
            return v
        if op == "call":
            callee = ins.x[0]
            if callee.k == "global":
                name = callee.v
            else:
                p = simp(self.val(e, callee))
                n = p.decl().name() if z3.is_app(p) and p.num_args() == 0 else ""
                if not n.startswith("@"):
                    raise Outside("call through an unknown pointer")
                name = n[1:]
            if name.startswith("llvm.va_start"):
                self.va[str(simp(self.val(e, ins.a[0])))] = VaList(extra)
                return None
            if name.startswith(("llvm.va_end", "llvm.dbg", "llvm.lifetime", "llvm.assume")):
                return None
            args = [self.val(e, a) for a in ins.a]
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                n = simp(args[2])
                if not z3.is_bv_value(n):
                    raise Outside("memcpy of symbolic size")
                bs = [self.mem.load(simp(args[1] + i), 1) for i in range(n.as_long())]
                for i, b in enumerate(bs):
                    self.mem.store(simp(args[0] + i), b)
                return None
            if name.startswith("llvm.memset"):
                n = simp(args[2])
                if not z3.is_bv_value(n):
                    raise Outside("memset of symbolic size")
                for i in range(n.as_long()):
                    self.mem.store(simp(args[0] + i), args[1])
                return None
            f = self.mod.funcs.get(name)
            np = len(f.params) if f else len(args)
            if f is not None and f.vararg:
                args = args[:np] + [(a.ty, v) for a, v in zip(ins.a[np:], args[np:])]
            return self.call(name, args, ins.x[3], depth + 1)
        raise Outside("instruction " + op)
