"""Protocol (typestate) verification of emitted IR against a reference automaton.

External functions carry contracts over a ghost state: the node of the reference automaton and the map from live
source objects to storage.  A call is allowed only where the automaton allows it, with exactly the arguments it names;
its result, when a condition, is arbitrary.  The invariant of every loop is a finite disjunction of abstract states
(program point, control values, ghost state), inferred as the least fixpoint and thereby proved inductive: every
iteration of every loop and every outcome of every condition is covered."""
import irparse as ir


class Bad(Exception):
    """an obligation fails at this point"""


class Diverges(Bad):
    pass


class Outside(Exception):
    """the code leaves the fragment handled here"""


class N:
    """node of the reference automaton; succ: result of the call -> state of the reference machine.
    res: None | "bool" | "int" (zero or not) | ("val", key) opaque value | "ref" (one of the argument objects)"""
    __slots__ = ("kind", "name", "args", "bind", "succ", "res")

    def __init__(self, kind, name=None, args=(), succ=None, res=None, bind=None):
        self.kind, self.name, self.args, self.succ, self.res, self.bind = kind, name, tuple(args), succ, res, bind

    def __repr__(self):
        if self.kind == "call":
            return "%s(%s)" % (self.name, ", ".join(text(a) for a in self.args))
        if self.kind == "grp":
            return "one of the terminations " + ", ".join("%s(%s)" % (t, text(o)) for t, o in self.args)
        if self.kind == "ret":
            return "return %s" % ", ".join(text(a) for a in self.args)
        return self.kind


def text(o):
    if isinstance(o, tuple) and o and o[0] == "o":
        return text(o[1])
    if isinstance(o, tuple) and len(o) == 3 and isinstance(o[1], tuple):
        return text(o[1]) + "." + o[2]
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], str):
        return o[1]
    return str(o)


def liveness(f):
    """per block: list of frozensets of registers needed after each instruction"""
    if hasattr(f, "_live"):
        return f._live

    def regs(vs):
        for v in vs:
            if v is None:
                continue
            if isinstance(v, ir.Val):
                if v.k == "local":
                    yield v.v
                elif v.k == "agg":
                    yield from regs(v.v)
                elif v.k == "cexpr":
                    x = v.x[1] if v.v == "gep" else [v.x[0]] if v.v in ir.CASTS else v.x[0]
                    yield from regs(x)

    def uses(i):
        s = set(regs(i.a))
        if i.op in ("call", "invoke"):
            s |= set(regs([i.x[0]])) if i.x[0] is not None and isinstance(i.x[0], ir.Val) else set()
        return s
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        succ[b] = list(t.x) if t.op == "br" else [t.x[0]] + [l for _, l in t.x[1]] if t.op == "switch" else [t.x[1], t.x[2]] if t.op == "invoke" else []
    li = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            out = set()
            for s in succ[b]:
                out |= li[s]
                for i in f.blocks[s]:
                    if i.op != "phi":
                        break
                    out |= set(regs([v for v, l in i.x if l == b]))
            cur = set(out)
            for i in reversed(f.blocks[b]):
                if i.res:
                    cur.discard(i.res)
                if i.op != "phi":
                    cur |= uses(i)
            if cur != li[b]:
                li[b] = cur
                ch = True
    after = {}
    for b in f.order:
        cur = set()
        for s in succ[b]:
            cur |= li[s]
            for i in f.blocks[s]:
                if i.op != "phi":
                    break
                cur |= set(regs([v for v, l in i.x if l == b]))
        a = []
        for i in reversed(f.blocks[b]):
            a.append(frozenset(cur))
            if i.res:
                cur.discard(i.res)
            if i.op != "phi":
                cur |= uses(i)
        after[b] = a[::-1]
    f._live = after
    return after


class IRState:
    """frames: [(function, block, index, previous block, {register: value})]; mem: {alloca: {offset: value}}"""
    __slots__ = ("frames", "mem")

    def __init__(self, frames, mem):
        self.frames, self.mem = frames, mem

    def copy(self):
        return IRState([[f, b, i, p, dict(e)] for f, b, i, p, e in self.frames], {k: dict(v) for k, v in self.mem.items()})

    def key(self):
        out = []
        for f, b, i, p, e in self.frames:
            lv = liveness(f)[b][i]
            out.append((f.name, b, i, tuple(sorted((k, v) for k, v in e.items() if k in lv))))
        return (tuple(out), tuple(sorted((k, tuple(sorted(v.items()))) for k, v in self.mem.items() if v)))


UNDEF = ("undef",)


class Machine:
    """executes the IR between external calls; every value is concrete, a pointer, or an opaque result"""
    def __init__(self, mod, externs):
        self.mod, self.externs = mod, externs
        self.inlined = set()
        self.regions = {}

    def start(self, fname, args):
        f = self.mod.funcs.get(fname)
        if f is None or f.decl:
            raise Outside("no body for " + fname)
        ir.body(f, self.mod)
        if len(args) != len(f.params):
            raise Bad("%s has %d parameters in the emitted code, %d by its source" % (fname, len(f.params), len(args)))
        return IRState([[f, f.order[0], 0, None, {p[1]: a for p, a in zip(f.params, args)}]], {})

    def val(self, e, v):
        if v.k == "local":
            if v.v not in e:
                raise Outside("undefined register " + v.v)
            return e[v.v]
        if v.k == "int":
            t = self.mod.resolve(v.ty)
            return ("i", v.v & ((1 << t.a) - 1), t.a)
        if v.k == "null":
            return ("p", "null", 0)
        if v.k == "undef":
            return UNDEF
        if v.k == "global":
            return ("p", "@" + v.v, 0)
        if v.k == "zero":
            t = self.mod.resolve(v.ty)
            return ("i", 0, t.a) if t.k == "int" else ("p", "null", 0) if t.k == "ptr" else ("zero", repr(t))
        if v.k == "float":
            return ("f", v.v)
        if v.k == "cexpr" and v.v == "gep":
            return self.gep(v.x[0], [self.val(e, x) for x in v.x[1]])
        if v.k == "cexpr" and v.v == "bitcast":
            return self.val(e, v.x[0])
        raise Outside("constant %r" % v)

    def gep(self, t, a):
        base = a[0]
        if base[0] != "p" or any(x[0] != "i" for x in a[1:]):
            return ("gep", repr(t), tuple(a))

        def s(x):
            return x[1] - (1 << x[2]) if x[1] >> (x[2] - 1) else x[1]
        off = base[2] + s(a[1]) * self.mod.size(t)
        for x in a[2:]:
            t = self.mod.resolve(t)
            if t.k == "struct":
                off += self.mod.struct_layout(t)[0][x[1]]
                t = t.a[x[1]]
            else:
                t = t.b
                off += s(x) * self.mod.size(t)
        return ("p", base[1], off)

    def run(self, st, steps=200000):
        """to the next external call or the end: ("call", name, args, ins) | ("ret", value); st is changed in place, and
        rests on the calling instruction"""
        for _ in range(steps):
            fr = st.frames[-1]
            f, b, i, prev, e = fr
            ins = f.blocks[b][i]
            op = ins.op
            if op == "phi":
                # all phis of the block at once
                new = {}
                k = i
                while f.blocks[b][k].op == "phi":
                    x = f.blocks[b][k]
                    for v, l in x.x:
                        if l == prev:
                            new[x.res] = self.val(e, v)
                            break
                    else:
                        raise Outside("phi")
                    k += 1
                e.update(new)
                fr[2] = k
                continue
            if op == "br":
                if len(ins.x) == 1:
                    t = ins.x[0]
                else:
                    c = self.val(e, ins.a[0])
                    if c[0] != "i":
                        raise Bad("a branch depends on a value the source does not define: %s" % (c,))
                    t = ins.x[0] if c[1] & 1 else ins.x[1]
                fr[1], fr[2], fr[3] = t, 0, b
                continue
            if op == "switch":
                c = self.val(e, ins.a[0])
                if c[0] != "i":
                    raise Bad("a branch depends on a value the source does not define: %s" % (c,))
                t = ins.x[0]
                for v, l in ins.x[1]:
                    if v & ((1 << c[2]) - 1) == c[1]:
                        t = l
                        break
                fr[1], fr[2], fr[3] = t, 0, b
                continue
            if op == "ret":
                v = self.val(e, ins.a[0]) if ins.a else None
                if len(st.frames) == 1:
                    return ("ret", v)
                d = len(st.frames)
                for k in [k for k in st.mem if k[0] == d]:
                    del st.mem[k]
                st.frames.pop()
                self.resume(st, v)
                continue
            if op == "unreachable":
                raise Bad("the emitted code reaches an unreachable instruction")
            if op == "call":
                callee = ins.x[0]
                if not isinstance(callee, ir.Val):
                    raise Outside("asm")
                if callee.k == "global":
                    name = callee.v
                else:
                    p = self.val(e, callee)
                    if p[0] == "p" and p[1].startswith("@"):
                        name = p[1][1:]
                    else:
                        raise Outside("call of an unknown pointer")
                if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stacksave", "llvm.stackrestore")):
                    fr[2] += 1
                    continue
                args = [self.val(e, a) for a in ins.a]
                g = self.mod.funcs.get(name)
                if name in self.externs or g is None or g.decl:
                    return ("call", name, args, ins)
                ir.body(g, self.mod)
                self.inlined.add(name)
                if len(st.frames) > 30:
                    raise Outside("call depth")
                st.frames.append([g, g.order[0], 0, None, {p[1]: a for p, a in zip(g.params, args)}])
                continue
            e[ins.res] = self.step(st, ins, e)
            if ins.res is None:
                e.pop(None, None)
            fr[2] += 1
        raise Diverges("the emitted code does not reach the next event or the end of the function")

    def resume(self, st, v):
        """finish the call instruction the top frame rests on"""
        fr = st.frames[-1]
        ins = fr[0].blocks[fr[1]][fr[2]]
        if ins.res is not None:
            fr[4][ins.res] = v
        fr[2] += 1

    def step(self, st, ins, e):
        op = ins.op
        if op == "alloca":
            k = (len(st.frames), st.frames[-1][0].name, ins.res)
            st.mem.setdefault(k, {})
            self.regions["%" + ":".join(map(str, k))] = self.mod.size(ins.ty)
            return ("p", "%" + ":".join(map(str, k)), 0)
        if op == "store":
            v, p = self.val(e, ins.a[0]), self.val(e, ins.a[1])
            m = self.cell(st, p)
            n = self.mod.store_size(ins.a[0].ty)
            for o in [o for o in m if o < p[2] + n and p[2] < o + m[o][1]]:
                del m[o]
            m[p[2]] = (v, n)
            return None
        if op == "load":
            p = self.val(e, ins.a[0])
            m = self.cell(st, p)
            c = m.get(p[2])
            n = self.mod.store_size(ins.ty)
            if c is None or c[1] != n:
                return UNDEF
            return c[0]
        if op == "getelementptr":
            return self.gep(ins.ty, [self.val(e, a) for a in ins.a])
        a = [self.val(e, x) for x in ins.a]
        if op in ("bitcast", "freeze", "addrspacecast"):
            return a[0]
        if op in ("icmp", "fcmp") or op in ir.BIN or op in ir.CASTS or op == "select" or op == "fneg":
            r = self.fold(op, ins, a)
            return r if r is not None else (op, str(ins.x) if op in ("icmp", "fcmp") else "", tuple(a))
        raise Outside("instruction " + op)

    def cell(self, st, p):
        if p[0] != "p":
            raise Outside("access through %s" % (p,))
        if p[1].startswith("%"):
            a = p[1][1:].split(":")
            k = (int(a[0]), ":".join(a[1:-1]), a[-1])
            if k not in st.mem:
                raise Bad("access to a local variable of a function that has returned")
            return st.mem[k]
        return st.mem.setdefault((0, p[1], ""), {})

    def fold(self, op, ins, a):
        if op == "icmp" and a[0][0] == "nz" and a[1][0] == "i" and a[1][1] == 0 and ins.x in ("eq", "ne", "ugt", "ule"):
            return ("i", int(ins.x in ("ne", "ugt")), 1)
        if op == "select":
            return (a[1] if a[0][1] & 1 else a[2]) if a[0][0] == "i" else None
        if op in ("icmp",) and all(x[0] == "p" for x in a):
            if ins.x in ("eq", "ne"):
                return ("i", int((a[0][1:] == a[1][1:]) == (ins.x == "eq")), 1)
            return None
        if not all(x[0] == "i" for x in a):
            return None
        n = a[0][2]

        def s(x):
            return x[1] - (1 << x[2]) if x[1] >> (x[2] - 1) else x[1]
        if op == "icmp":
            x, y = (a[0][1], a[1][1]) if ins.x in ("eq", "ne") or ins.x[0] == "u" else (s(a[0]), s(a[1]))
            p = ins.x if ins.x in ("eq", "ne") else ins.x[1:]
            return ("i", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]), 1)
        if op in ("zext", "sext", "trunc"):
            m = self.mod.resolve(ins.ty).a
            return ("i", (s(a[0]) if op == "sext" else a[0][1]) & ((1 << m) - 1), m)
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            x, y = a[0][1], a[1][1]
            return ("i", {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[op] & ((1 << n) - 1), n)
        return None


class Result:
    def __init__(self):
        self.states = self.obl = 0
        self.bad = None
        self.trace = []
        self.outside = None
        self.inlined = set()


class Matcher:
    """ref: the reference machine (entry(), node(state)); lay: locate(o) -> (whole, offset), within(o) -> enclosing
    objects, SIZE: class -> size"""
    def __init__(self, ref, lay, regions=None):
        self.ref, self.lay, self.regions = ref, lay, regions or {}

    def pointer(self, o, bnd):
        w, d = self.lay.locate(o)
        b = bnd.get(w)
        return None if b is None else ("p", b[1], b[2] + d)

    def show(self, v, bnd):
        if isinstance(v, tuple) and v and v[0] == "p":
            for o, p in bnd.items():
                if p == v:
                    return text(o)
            return "storage %s%s" % (v[1], "+%d" % v[2] if v[2] else "")
        if isinstance(v, tuple) and v and v[0] == "i":
            return str(v[1] - (1 << v[2]) if v[2] > 1 and v[1] >> (v[2] - 1) else v[1])
        if v is None:
            return "nothing"
        return "value of %s" % (v[1:],) if v[0] == "tok" else str(v)

    def call_text(self, name, args, bnd):
        return "%s(%s)" % (name, ", ".join(self.show(a, bnd) for a in args))

    def expect(self, n, rem):
        if n.kind == "grp" and rem is not None:
            return repr(N("grp", args=sorted(rem, key=repr)))
        return repr(n)

    def same(self, w, a, bnd):
        if isinstance(w, tuple) and w and w[0] == "o":
            return self.pointer(w[1], bnd) == a
        if isinstance(w, int):
            return a is not None and a[0] == "i" and a[1] == w & ((1 << a[2]) - 1)
        return a == w

    def wtext(self, w):
        return text(w) if not (isinstance(w, tuple) and w and w[0] == "tok") else self.show(w, {})

    def create(self, o, a, name, bnd):
        """object o comes to life at pointer a"""
        if a[0] != "p":
            raise Bad("%s: the object is %s" % (name, a))
        w, d = self.lay.locate(o)
        base = ("p", a[1], a[2] - d)
        if w in bnd:
            if bnd[w] != base:
                raise Bad("%s is created in %s, not in its own storage" % (text(o), self.show(a, bnd)))
            return bnd
        n = self.lay.SIZE[w[0]]
        for x, p in bnd.items():
            if p[1] == base[1] and p[2] < base[2] + n and base[2] < p[2] + self.lay.SIZE[x[0]]:
                raise Bad("%s creates %s in the storage of %s, which is still alive" % (name, text(o), text(x)))
        z = self.regions.get(base[1])
        if z is not None and (base[2] < 0 or base[2] + n > z):
            raise Bad("%s creates %s outside of its storage (%d bytes at %d of %d)" % (name, text(o), n, base[2], z))
        b = dict(bnd)
        b[w] = base
        return b

    def match(self, n, rem, bnd, ev):
        """-> [(reference state or None, node, remaining, binding, value returned by the call, label, )]"""
        if ev[0] == "ret":
            if n.kind != "ret":
                raise Bad("the function returns where the source continues with: %s" % self.expect(n, rem))
            if n.args:
                if ev[1] is None or not self.same(n.args[0], ev[1], bnd):
                    raise Bad("the function returns %s where the source returns %s" % (self.show(ev[1], bnd), self.wtext(n.args[0])))
            elif ev[1] is not None:
                raise Bad("a value is returned from a function without a value")
            return []
        _, name, args, ins = ev
        if n.kind == "grp":
            rem = frozenset(n.args) if rem is None else rem
            early = None
            # an owner and its first member may share address and handler: the owner goes first
            for it in sorted(rem, key=lambda it: (len(list(self.lay.within(it[1]))), repr(it))):
                t, o = it
                if t == name and len(args) == 1 and self.lay.locate(o)[0] not in bnd:
                    # an object whose creation and use made no call so far: this call shows where it lives
                    try:
                        bnd = self.create(o, args[0], name, bnd)
                    except Bad:
                        continue
                if t == name and len(args) == 1 and self.pointer(o, bnd) == args[0]:
                    objs = {x for _, x in rem}
                    if any(x in objs for x in self.lay.within(o)):
                        early = early or "%s is terminated before the object it belongs to" % text(o)
                        continue
                    r2 = rem - {it}
                    b2, w = bnd, self.lay.locate(o)[0]
                    if not any(self.lay.locate(x)[0] == w for _, x in r2):
                        b2 = dict(bnd)
                        del b2[w]
                    lab = (name, None)
                    if not r2:
                        return [(self.ref.node(n.succ(None)), None, b2, None, lab)]
                    return [(n, r2, b2, None, lab)]
            if early:
                raise Bad(early)
        if n.kind != "call" or n.name != name:
            raise Bad("%s is called where the source continues with: %s" % (self.call_text(name, args, bnd), self.expect(n, rem)))
        if len(n.args) != len(args):
            raise Bad("%s is called with %d arguments, %d by the source" % (name, len(args), len(n.args)))
        b2 = bnd
        for w, a in zip(n.args, args):
            if n.bind is not None and w == ("o", n.bind):
                b2 = self.create(n.bind, a, name, b2)
            elif isinstance(w, tuple) and w and w[0] == "o" and self.lay.locate(w[1])[0] not in b2:
                b2 = self.create(w[1], a, name, b2)
                continue
            elif not self.same(w, a, b2):
                raise Bad("%s gets %s where the source has %s" % (name, self.show(a, bnd), self.wtext(w)))

        def to(v):
            return self.ref.node(n.succ(v))
        r = n.res
        if r is None:
            return [(to(None), None, b2, None, (name, None))]
        if r == "bool":
            return [(to(v), None, b2, ("i", v, 1), (name, v)) for v in (0, 1)]
        if r == "int":
            return [(to(0), None, b2, ("i", 0, 32), (name, 0)), (to(1), None, b2, ("nz", name), (name, 1 << 16))]
        if r == "ref":
            return [(to(w[1]), None, b2, a, (name, k)) for k, (w, a) in enumerate(zip(n.args, args))]
        v = ("tok", name, r[1])
        return [(to(v), None, b2, v, (name, None))]


def verify(mod, fname, args, ref, binding, externs, lay, limit=60000):
    """the automaton of function fname against its emitted code; binding: {object: pointer} of the parameters"""
    R = Result()
    M = Machine(mod, externs)
    X = Matcher(ref, lay, M.regions)
    try:
        st = M.start(fname, args)
        entry = ref.entry()
    except Bad as b:
        R.bad = str(b)
        return R
    except Outside as b:
        R.outside = str(b)
        return R
    todo = [(entry, None, dict(binding), st, None)]
    seen = set()
    while todo:
        n, rem, bnd, st, hist = todo.pop()
        st = st.copy()
        try:
            if n.kind == "div":     # the source loops for ever without an event
                R.states += 1
                R.obl += 1
                try:
                    ev = M.run(st, 5000)
                except Diverges:
                    continue
                raise Bad("the code goes on where the source loops for ever")
            ev = M.run(st)
            R.states += 1
            if R.states > limit:
                raise Outside("more than %d abstract states" % limit)
            R.obl += 1
            succs = X.match(n, rem, bnd, ev)
        except Bad as b:
            R.bad, R.trace = str(b), unroll(hist)
            return R
        except Outside as b:
            R.outside, R.trace = str(b), unroll(hist)
            return R
        for n2, r2, b2, retv, label in succs:
            s2 = st.copy()
            M.resume(s2, retv)
            k = (id(n2), r2, tuple(sorted(b2.items(), key=repr)), keyat(s2))
            if k in seen:
                continue
            seen.add(k)
            todo.append((n2, r2, b2, s2, (hist, label)))
    R.inlined = M.inlined
    return R


def keyat(st):
    out = []
    top = len(st.frames) - 1
    for q, (f, b, i, p, e) in enumerate(st.frames):
        # what is live before instruction i = live after i-1 (the call just finished), or after the pending call of an outer frame
        lv = liveness(f)[b][i - 1] if q == top and i > 0 else liveness(f)[b][i]
        out.append((f.name, b, i, tuple(sorted(((k, v) for k, v in e.items() if k in lv), key=repr))))
    return (tuple(out), tuple(sorted(((k, tuple(sorted(v.items(), key=repr))) for k, v in st.mem.items() if v), key=repr)))


def unroll(h):
    out = []
    while h is not None:
        out.append(h[1])
        h = h[0]
    return out[::-1]
