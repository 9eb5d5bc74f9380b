"""Contracts of Srl.Array (Sources/Srt/Srl/Array.alusus)."""
import z3
import irvc, emit
from irvc import *

RC, LEN, BUF, DATA = 0, 8, 16, 24
MAXCAP = lambda es: ((1 << 46) - DATA) // es


class Spec:
    """an Array instantiation: element size, and whether elements have managed lifetime (Probe)"""
    def __init__(self, pre, es, probe, tname):
        self.pre, self.es, self.probe, self.tname = pre, es, probe, tname


def live_key(oid):
    return ("live", oid)


def getlive(st, oid):
    return st.ghost.get(live_key(oid))


class ArrayShape(Shape):
    cells, nseq = (0,), 1

    def __init__(self, spec):
        self.s, self.name = spec, "Array"

    def shared(self, eng, st, p):
        """block id when *p points to a block that has other holders"""
        d = eng.read_cell(st.mem[p.o], lin(p.off)[0], 8, irvc.ir.PTR, st)
        if d.o is None or isinstance(d.o, tuple) or not st.mem[d.o].alive:
            return None
        if eng.valid(st, fields(eng, st, d)[0] == 1):
            return None
        return d.o

    def havoc(self, eng, st, p, tag):
        out = []
        for kind in ("null", "uniq") + (("orig",) if self.shared(eng, st, p) else ()):
            s2 = st.copy()
            if kind == "null":
                eng.store(s2, p, NULL, irvc.ir.PTR)
            elif kind == "uniq":
                d, m = new_data(eng, s2, tag, self.s, "uniq")
                eng.store(s2, p, Ptr(d, 0), irvc.ir.PTR)
            out.append(s2)
        return out

    def model(self, eng, st, p):
        return [view(eng, st, p, self.s)]

    def check(self, eng, st, p, entry=None):
        d = eng.load(st, p, irvc.ir.PTR)
        if d.o is None:
            return z3.BoolVal(True)
        if entry is not None and not isinstance(d.o, tuple) and d.o == self.shared(eng, entry, p):
            return valid_data(eng, st, d, self.s, unique=False)
        return valid_data(eng, st, d, self.s, unique=True)

    def owned(self, eng, st, p):
        d = st.mem[p.o].cells.get(lin(p.off)[0])
        if not d or not isinstance(d[1], Ptr) or d[1].o is None or isinstance(d[1].o, tuple) or self.shared(eng, st, p):
            return []
        return [d[1].o]

    def cands(self, eng, ctx, slots):
        """a shared block loses exactly one reference per value that has left it"""
        est, out = ctx.entry.st, []
        for d in {self.shared(eng, est, p) for p in slots} - {None}:
            sl = [p for p in slots if self.shared(eng, est, p) == d]
            rc0 = fields(eng, est, Ptr(d, 0))[0]

            def inv(v, d=d, sl=sl, rc0=rc0):
                left = sum(1 for p in sl if eng.read_cell(v.st.mem[p.o], lin(p.off)[0], 8, irvc.ir.PTR, v.st).o != d)
                return fields(eng, v.st, Ptr(d, 0))[0] == rc0 - left
            out.append(Cand("refcount", inv))
        return out


def new_data(eng, st, tag, spec, kind, raw_len=None):
    """an arbitrary valid data block; kind uniq (one holder) / shared (rc >= 2)"""
    es = spec.es
    rc, ln, cap = fresh(tag + ".rc"), fresh(tag + ".len"), fresh(tag + ".cap")
    if raw_len is not None:
        ln = raw_len
    i = eng.new_obj(st, tag + ".data", "heap", norm(cap * bv(es) + bv(DATA)))
    arr = Base(tag + ".buf", es * 8)
    st.mem[i] = st.mem[i].upd(cells={RC: (8, rc), LEN: (8, ln), BUF: (8, cap)}, regions=(Region(DATA, es, cap, arr),))
    st.assume(ln >= 0, ln <= cap, cap >= 2, cap <= bv(MAXCAP(es)))
    if kind == "uniq":
        st.assume(rc == 1)
    elif kind == "shared2":
        st.assume(rc == 2)
    else:
        st.assume(rc >= (3 if kind == "shared3" else 2), rc < (1 << 62))
    if spec.probe:
        st.ghost[live_key(i)] = Lam(lambda k, ln=ln: z3.If(z3.ULT(k, ln), bv(1, 8), bv(0, 8)), 8)
    if raw_len is not None:
        return i, (rc, ln, cap, arr)
    eng.inputs.update({tag + ".rc": rc, tag + ".len": ln, tag + ".cap": cap})
    for k in range(4):
        eng.inputs["%s[%d]" % (tag, k)] = arr.read(bv(k))
    return i, (rc, ln, cap, arr)


def fields(eng, st, d):
    L = lambda o: eng.read_cell(st.mem[d.o], o, 8, irvc.ir.INT(64), st)
    return L(RC), L(LEN), L(BUF)


def region(st, oid):
    for r in st.mem[oid].regions:
        if r.start == DATA:
            return r
    return None


def valid_data(eng, st, d, spec, unique=True):
    if isinstance(d.o, (tuple, str)) or d.o not in st.mem:
        return z3.BoolVal(False)
    o = st.mem[d.o]
    r = region(st, d.o)
    if not o.alive or o.kind != "heap" or r is None:
        return z3.BoolVal(False)
    rc, ln, cap = fields(eng, st, d)
    c = [d.off == 0, ln >= 0, ln <= cap, cap >= 2, z3.ULE(cap, r.cap), cap <= bv(MAXCAP(spec.es))]
    c.append(rc == 1 if unique else rc >= 1)
    if spec.probe:
        lv = getlive(st, d.o)
        if lv is None:
            return z3.BoolVal(False)
        k = fresh("sk")
        c.append(z3.Implies(z3.ULT(k, r.cap), lv.read(k) == z3.If(z3.ULT(k, ln), bv(1, 8), bv(0, 8))))
    return z3.And(*c)


def view(eng, st, p, spec):
    """(length, content) of the Array at p"""
    d = eng.read_cell(st.mem[p.o], lin(p.off)[0], 8, irvc.ir.PTR, st)
    if d.o is None or isinstance(d.o, tuple) or d.o not in st.mem or region(st, d.o) is None:
        return (bv(0), ConstArr(bv(0, spec.es * 8)))
    rc, ln, cap = fields(eng, st, d)
    return (ln, region(st, d.o).arr)


# ---------------------------------------------------------------- element contracts (managed lifetime)
def slot(eng, st, p, what):
    """(object id, element index) of a Probe slot"""
    o = eng.access(st, p, 4, what)
    for r in o.regions:
        k = idx(p.off, 4, r.start)
        if k is not None:
            return o.id, k
    return o.id, p.off


def live_of(st, oid):
    k = live_key(oid)
    if k not in st.ghost:
        st.ghost[k] = ConstArr(bv(0, 8))
    return st.ghost[k]


I32 = irvc.ir.INT(32)


def p_construct(valfn):
    def c(eng, st, args, ins):
        oid, k = slot(eng, st, args[0], "element-construct")
        eng.oblige(st, live_of(st, oid).read(k) == 0, "element-constructed-only-in-raw-storage")
        v = valfn(eng, st, args)
        eng.store(st, args[0], v, I32)
        st.ghost[live_key(oid)] = Store(live_of(st, oid), k, bv(1, 8))
        return [(st, None)]
    return c


def read_live(eng, st, p):
    oid, k = slot(eng, st, p, "element-read")
    eng.oblige(st, live_of(st, oid).read(k) == 1, "element-read-only-while-live")
    return eng.load(st, p, I32)


def p_term(eng, st, args, ins):
    oid, k = slot(eng, st, args[0], "element-terminate")
    eng.oblige(st, live_of(st, oid).read(k) == 1, "element-terminated-exactly-once")
    st.ghost[live_key(oid)] = Store(live_of(st, oid), k, bv(0, 8))
    return [(st, None)]


def p_assign(eng, st, args, ins):
    oid, k = slot(eng, st, args[0], "element-assign")
    eng.oblige(st, live_of(st, oid).read(k) == 1, "element-assigned-only-while-live")
    eng.store(st, args[0], read_live(eng, st, args[1]), I32)
    return [(st, None)]


def p_eq(eng, st, args, ins):
    return [(st, read_live(eng, st, args[0]) == read_live(eng, st, args[1]))]


PROBE = {"probe_init": p_construct(lambda e, s, a: bv(0, 32)), "probe_init_int": p_construct(lambda e, s, a: a[1]),
         "probe_copy": p_construct(lambda e, s, a: read_live(e, s, a[1])), "probe_assign": p_assign,
         "probe_eq": p_eq, "probe_term": p_term}


def on_malloc(eng, st, i):
    st.ghost[live_key(i)] = ConstArr(bv(0, 8))


def on_free(eng, st, p):
    lv = getlive(st, p.o)
    if lv is None:
        return
    r = region(st, p.o)
    if r is not None:
        k = fresh("sk")
        eng.oblige(st, z3.Implies(z3.ULT(k, r.cap), lv.read(k) == 0), "no-live-element-in-freed-block", assume=False)


def on_realloc(eng, st, old, new):
    lv = getlive(st, old)
    if lv is None:
        return
    ro, rn = region(st, old), region(st, new)
    if rn is not None:
        k = fresh("sk")
        eng.oblige(st, z3.Implies(z3.And(z3.ULT(k, ro.cap), z3.UGE(k, rn.cap)), lv.read(k) == 0), "no-live-element-cut-off", assume=False)
    st.ghost[live_key(new)] = Copy(ConstArr(bv(0, 8)), bv(0), lv, bv(0), ro.cap)
    st.ghost[live_key(old)] = ConstArr(bv(0, 8))


def on_move(eng, st, do, kd, so, ks, m):
    """elements are relocatable: moving the bytes moves the liveness"""
    lv, ls = live_of(st, do), live_of(st, so)
    k = fresh("sk")
    insrc = z3.And(z3.BoolVal(do == so), z3.ULT(k - ks, m))
    eng.oblige(st, z3.Implies(z3.And(z3.ULT(k - kd, m), z3.Not(insrc)), lv.read(k) == 0), "no-live-element-overwritten", assume=False)
    if do == so:
        cleared = Copy(lv, ks, ConstArr(bv(0, 8)), bv(0), m)
        st.ghost[live_key(do)] = Copy(cleared, kd, lv, ks, m)
    else:
        st.ghost[live_key(so)] = Copy(ls, ks, ConstArr(bv(0, 8)), bv(0), m)
        st.ghost[live_key(do)] = Copy(lv, kd, ls, ks, m)


# ---------------------------------------------------------------- cases
class Case:
    """a pre-state: holders (arrays by name) and the data blocks they share"""
    def __init__(self, eng, spec):
        self.eng, self.spec = eng, spec
        self.st = State()
        self.holders = {}
        self.data = {}
        self.views = {}

    def holder(self, name, d):
        i = self.eng.new_obj(self.st, name, "arg", 8)
        self.eng.obj_type[i] = irvc.ir.T("named", self.spec.tname)
        self.eng.store(self.st, Ptr(i, 0), NULL if d is None else Ptr(d, 0), irvc.ir.PTR)
        self.holders[name] = Ptr(i, 0)
        return Ptr(i, 0)

    def block(self, name, kind):
        i, m = new_data(self.eng, self.st, name, self.spec, kind)
        self.data[i] = (m, kind)
        return i

    def snap(self):
        self.pre = self.st.copy()
        for n, p in self.holders.items():
            self.views[n] = view(self.eng, self.pre, p, self.spec)


def one(eng, spec, shape, name="a"):
    c = Case(eng, spec)
    c.holder(name, None if shape == "null" else c.block("d", shape))
    c.snap()
    return c


def two(eng, spec, shape):
    """a and b: independent shapes, or sharing one block, or one and the same array"""
    c = Case(eng, spec)
    if shape.startswith("same-"):
        k = shape[5:]
        p = c.holder("a", None if k == "null" else c.block("d", k))
        c.holders["b"] = p
    elif shape.startswith("both-"):
        d = c.block("d", shape[5:])
        c.holder("a", d)
        c.holder("b", d)
    else:
        ka, kb = shape.split("/")
        c.holder("a", None if ka == "null" else c.block("da", ka))
        c.holder("b", None if kb == "null" else c.block("db", kb))
    c.snap()
    return c


ONE = ["null", "uniq", "shared"]
TWO = ["%s/%s" % (x, y) for x in ONE for y in ONE] + ["both-shared2", "both-shared3", "same-null", "same-uniq", "same-shared"]


def globals_setup(eng, st):
    """run the module's global constructors (real code) to establish the initial global state"""
    g = eng.mod.globals.get("alusus.global_ctors")
    eng.global_init = "all"
    if not g or g[1].k != "agg":
        return st
    items = sorted(g[1].v, key=lambda a: a.v[0].v)
    for it in items:
        fn = it.v[1].v
        outs = eng.call(st, fn, [])
        assert len(outs) == 1
        st = outs[0][0]
    return st


# ---------------------------------------------------------------- modular contracts of the class's own methods
def modify(eng, st, p, spec, cond, item=None):
    """contract shared by _prepareToModify and add: afterwards *p alone holds a block with the same
    sequence (plus the item); a shared block has lost one reference"""
    d = eng.load(st, p, irvc.ir.PTR, "array")
    out = []
    if d.o is None:
        alts = [(st, "null")]
    else:
        eng.oblige(st, valid_data(eng, st, d, spec, unique=False), "precondition:array-representation")
        rc, ln, cap = fields(eng, st, d)
        alts = []
        for k, g in (("uniq", rc == 1), ("shared", rc >= 2)):
            s2 = st.copy()
            s2.assume(g)
            if eng.feasible(s2):
                alts.append((s2, k))
    for s2, k in alts:
        if k == "null":
            ln, old = bv(0), None
        else:
            rc, ln, cap = fields(eng, s2, d)
            old = region(s2, d.o).arr
            o = s2.mem[d.o]
            if k == "uniq":
                s2.mem[d.o] = o.upd(alive=False)
                s2.ghost[live_key(d.o)] = ConstArr(bv(0, 8))
            else:
                eng.store(s2, Ptr(d.o, RC), norm(rc - 1), irvc.ir.INT(64))
        i, (rc2, ln2, cap2, arr2) = new_data(eng, s2, "m", spec, "uniq", raw_len=norm(ln + 1) if item is not None else ln)
        if item is None:
            s2.assume(z3.Implies(cond, cap2 > ln))
        arr = arr2 if old is None else Copy(arr2, bv(0), old, bv(0), ln)
        if item is not None:
            arr = Store(arr, ln, item)
        o = s2.mem[i]
        s2.mem[i] = o.upd(regions=(o.regions[0].with_arr(arr),))
        eng.store(s2, p, Ptr(i, 0), irvc.ir.PTR)
        out.append((s2, None))
    return out


def c_prepare(spec):
    def c(eng, st, args, ins):
        return modify(eng, st, args[0], spec, tobool(args[1]))
    return c


def c_add(spec):
    def c(eng, st, args, ins):
        v = read_live(eng, st, args[1]) if spec.probe else args[1]
        return modify(eng, st, args[0], spec, None, v)
    return c


def find_fn(mod, spec, what):
    """mangled name of a method of this instantiation, by signature"""
    el = "T.Probe" if spec.probe else "Int[32]"
    n = {"prepare": "Srl.Array[%s]._prepareToModify()(ref[Srl.Array[%s]],Word[1])" % (el, el),
         "add": "Srl.Array[%s].add()(ref[Srl.Array[%s]],%s)" % (el, el, el)}[what]
    return n if n in mod.funcs else None


def make_engine(mod, spec, modular=()):
    contracts = dict(PROBE)
    for m in modular:
        n = find_fn(mod, spec, m)
        if n:
            contracts[n] = {"prepare": c_prepare, "add": c_add}[m](spec)
    eng = Engine(mod, contracts=contracts, alloc_layout=lambda n, e: (DATA, spec.es))
    eng.shapes = {spec.tname: ArrayShape(spec)}
    if spec.probe:
        eng.on_malloc, eng.on_free, eng.on_realloc, eng.on_move = on_malloc, on_free, on_realloc, on_move
        eng.sources = [("one", 8, lambda i: bv(1, 8)), ("zero", 8, lambda i: bv(0, 8))]
    return eng


def arg_obj_probe(eng, st, name="v"):
    """a live Probe passed by reference"""
    v = fresh(name, 32)
    i = eng.new_obj(st, name, "arg", 4)
    eng.store(st, Ptr(i, 0), v, I32)
    st.ghost[live_key(i)] = Store(ConstArr(bv(0, 8)), bv(0), bv(1, 8))
    eng.inputs[name] = v
    return Ptr(i, 0), v


def check_post(c, st, expect, tag, init=()):
    """all holders have the expected views; reference counts, ownership and frame are exact.
    expect: name -> (len, fn(k)); others unchanged.  init: holders that were raw storage before."""
    eng, spec = c.eng, c.spec
    post_refs = {}
    seen = set()
    for n, p in c.holders.items():
        if p.o in seen:
            continue
        seen.add(p.o)
        if p.o not in st.mem:
            continue
        d = eng.load(st, p, irvc.ir.PTR)
        if d.o is not None:
            if isinstance(d.o, tuple):
                eng.oblige(st, False, "valid-storage:" + n)
                continue
            eng.oblige(st, valid_data(eng, st, d, spec, unique=False), "representation-valid:" + n, assume=False)
            if st.mem[d.o].alive:
                post_refs[d.o] = post_refs.get(d.o, 0) + 1
        ln, arr = view(eng, st, p, spec)
        if n in expect:
            el, ef = expect[n]
        else:
            el, ea = c.views[n]
            ef = ea.read
        eng.oblige(st, ln == el, "length:" + n + ":" + tag, assume=False)
        k = fresh("sk")
        eng.oblige(st, z3.Implies(z3.And(ln == el, z3.ULT(k, el)), arr.read(k) == ef(k)), "content:" + n + ":" + tag, assume=False)
    pre_refs = {}
    seen = set()
    for n, p in c.holders.items():
        if p.o in seen or n in init:
            continue
        seen.add(p.o)
        d = eng.read_cell(c.pre.mem[p.o], 0, 8, irvc.ir.PTR, c.pre)
        if d.o is not None:
            pre_refs[d.o] = pre_refs.get(d.o, 0) + 1
    for d, (m, kind) in c.data.items():
        rc, ln, cap, arr = m
        delta = post_refs.get(d, 0) - pre_refs.get(d, 0)
        o = st.mem[d]
        if not o.alive:
            eng.oblige(st, z3.And(rc + bv(delta) == 0, z3.BoolVal(post_refs.get(d, 0) == 0)), "block-freed-only-by-its-last-holder:" + tag, assume=False)
            continue
        rc2, ln2, cap2 = fields(eng, st, Ptr(d, 0))
        eng.oblige(st, z3.And(rc2 == rc + bv(delta), rc2 >= 1), "reference-count-exact:" + tag, assume=False)
        if kind.startswith("shared"):
            # holders outside this call still see the same array
            k = fresh("sk")
            eng.oblige(st, z3.And(ln2 == ln, cap2 <= cap, ln2 <= cap2), "other-holders-unaffected:length:" + tag, assume=False)
            check_live(eng, st, d, ln, tag)
            if kind != "shared2" or pre_refs.get(d, 0) < 2:
                eng.oblige(st, z3.Implies(z3.ULT(k, ln), region(st, d).arr.read(k) == arr.read(k)), "other-holders-unaffected:content:" + tag, assume=False)
    for i, o in st.mem.items():
        if i in c.pre.mem or o.kind != "heap" or not o.alive:
            continue
        n = post_refs.get(i, 0)
        if n == 0:
            eng.oblige(st, False, "no-leaked-block:" + tag, assume=False)
        else:
            rc2, _, _ = fields(eng, st, Ptr(i, 0))
            eng.oblige(st, rc2 == n, "reference-count-exact:new:" + tag, assume=False)
    if spec.probe:
        # temporaries are gone
        for i, o in st.mem.items():
            lv = getlive(st, i)
            if o.kind == "stack" and lv is not None:
                eng.oblige(st, lv.read(bv(0)) == 0, "temporary-terminated:" + tag, assume=False)


def check_live(eng, st, d, ln, tag):
    """the elements of a block that other arrays still hold are live, one each"""
    if eng_probe(eng):
        k, r = fresh("sk"), region(st, d)
        eng.oblige(st, z3.Implies(z3.ULT(k, r.cap), live_of(st, d).read(k) == z3.If(z3.ULT(k, ln), bv(1, 8), bv(0, 8))), "other-holders-unaffected:elements-live:" + tag, assume=False)


def eng_probe(eng):
    return bool(getattr(eng, "on_move", None))


# ---------------------------------------------------------------- method contracts
import vrun

SPEC_I = Spec("i_", 4, False, "Srl_Array_Int_32__")
SPEC_P = Spec("p_", 4, True, "Srl_Array_T_Probe_")


def rd(v):
    return v[1].read


def appended(v, item):
    ln, arr = v
    return (norm(ln + 1), lambda k: z3.If(k == ln, item, arr.read(k)))


def run(c, fn, args, post, tag):
    """execute the real function from the case's pre-state; check post at every exit"""
    eng = c.eng
    if not eng.feasible(c.st):
        raise irvc.Unsupported("contradictory pre-state")
    eng.stats.covers += 1
    outs = eng.call(c.st, fn, args)
    n = 0
    for st, v in outs:
        if isinstance(v, (Throw, Exit)):
            eng.oblige(st, False, "normal-return:" + tag)
            continue
        if not eng.feasible(st):
            continue
        n += 1
        post(st, v)
    if n == 0:
        raise irvc.Unsupported("no feasible exit")
    return eng


def scalar(eng, name, bits=64):
    v = fresh(name, bits)
    eng.inputs[name] = v
    return v


def elem_arg(c, spec, st, name):
    """the element argument of a call: (arg value, model value)"""
    if spec.probe:
        return arg_obj_probe(c.eng, st, name)
    v = scalar(c.eng, name, 32)
    return v, v


def mods(op, modular):
    """methods whose calls are replaced by their contract when verifying op"""
    if not modular or op == "prepare":
        return ()
    return ("prepare",) if op == "add" else ("prepare", "add")


def unshared(eng, st, a, tag, cond=None):
    d = eng.load(st, a, irvc.ir.PTR)
    if d.o is None or isinstance(d.o, tuple):
        return eng.oblige(st, False, "unshared-after-modification:" + tag, assume=False)
    rc, ln, cap = fields(eng, st, d)
    eng.oblige(st, rc == 1, "unshared-after-modification:" + tag, assume=False)
    if cond is not None:
        eng.oblige(st, z3.Implies(cond, cap > ln), "room-for-one-more:" + tag, assume=False)


def t_one(modf, spec, shape, op, modular=True):
    mod = modf()
    eng = make_engine(mod, spec, mods(op, modular))
    st0 = globals_setup(eng, State())
    c = one(eng, spec, shape)
    c.st = merge_globals(c.st, st0)
    c.pre = c.st.copy()
    a, va = c.holders["a"], c.views["a"]
    ln, arr = va
    fn = spec.pre + op
    st = c.st
    if op == "init":
        raise NotImplementedError
    if op == "term":
        def post(st, v):
            # the array's storage is dead after termination: only the block accounting matters
            del c.holders["a"]
            h = st.mem[a.o]
            d = eng.load(st, a, irvc.ir.PTR)
            c.dropped = [a]
            check_post_dropped(c, st, a, op)
        return run(c, fn, [a], post, op)
    if op in ("len", "buf"):
        def post(st, v):
            if op == "len":
                eng.oblige(st, v == ln, "result:getLength", assume=False)
            else:
                eng.oblige(st, v >= ln, "result:getBufSize>=length", assume=False)
            check_post(c, st, {}, op)
        return run(c, fn, [a], post, op)
    if op == "reserve":
        n = scalar(eng, "n")
        st.assume(n <= MAXCAP(spec.es))

        def post(st, v):
            check_post(c, st, {}, op)
            d = eng.load(st, a, irvc.ir.PTR)
            if d.o is not None and not isinstance(d.o, tuple):
                eng.oblige(st, fields(eng, st, d)[2] >= n, "capacity-reserved", assume=False)
            else:
                eng.oblige(st, n <= 0, "capacity-reserved", assume=False)
        return run(c, fn, [a, n], post, op)
    if op == "add":
        x, xv = elem_arg(c, spec, st, "v")

        def post(st, v):
            check_post(c, st, {"a": appended(va, xv)}, op)
            unshared(eng, st, a, op)
        return run(c, fn, [a, x], post, op)
    if op == "prepare":
        e = fresh("enlarge", 1)

        def post(st, v):
            check_post(c, st, {}, op)
            unshared(eng, st, a, op, e)
        return run(c, find_fn(mod, spec, "prepare"), [a, e], post, op)
    if op == "set":
        i = scalar(eng, "i")
        x, xv = elem_arg(c, spec, st, "v")
        inr = z3.And(i >= 0, i < ln)
        e = (z3.If(inr, ln, ln + 1), lambda k: z3.If(inr, z3.If(k == i, xv, arr.read(k)), z3.If(k == ln, xv, arr.read(k))))
        return run(c, fn, [a, i, x], lambda st, v: check_post(c, st, {"a": e}, op), op)
    if op == "insert":
        i = scalar(eng, "i")
        x, xv = elem_arg(c, spec, st, "v")
        at = z3.If(z3.And(i >= 0, i < ln), i, ln)
        e = (norm(ln + 1), lambda k: z3.If(k == at, xv, z3.If(z3.ULT(k, at), arr.read(k), arr.read(norm(k - 1)))))
        return run(c, fn, [a, i, x], lambda st, v: check_post(c, st, {"a": e}, op), op)
    if op == "remove":
        i = scalar(eng, "i")
        inr = z3.And(i >= 0, i < ln)
        e = (z3.If(inr, ln - 1, ln), lambda k: z3.If(z3.And(inr, k >= i), arr.read(norm(k + 1)), arr.read(k)))
        return run(c, fn, [a, i], lambda st, v: check_post(c, st, {"a": e}, op), op)
    if op == "clear":
        return run(c, fn, [a], lambda st, v: check_post(c, st, {"a": (bv(0), arr.read)}, op), op)
    if op == "find":
        x, xv = elem_arg(c, spec, st, "v")
        eng.preds.append(("neq", lambda i: arr.read(i) != xv))

        def post(st, v):
            k = fresh("sk")
            eng.oblige(st, z3.Or(v == -1, z3.And(v >= 0, v < ln, arr.read(v) == xv)), "result:findPos-is-a-match", assume=False)
            eng.oblige(st, z3.Implies(z3.And(z3.ULT(k, z3.If(v == -1, ln, v))), arr.read(k) != xv), "result:findPos-is-the-first-match", assume=False)
            check_post(c, st, {}, op)
        return run(c, fn, [a, x], post, op)
    if op == "at":
        i = scalar(eng, "i")

        def post(st, v):
            d = eng.load(st, a, irvc.ir.PTR)
            inr = z3.And(i >= 0, i < ln)
            if v.o == d.o and d.o is not None:
                eng.oblige(st, z3.And(inr, v.off == DATA + i * spec.es), "result:element-address", assume=False)
                eng.oblige(st, fields(eng, st, d)[0] == 1, "element-reference-not-into-a-shared-block", assume=False)
            else:
                eng.oblige(st, z3.Not(inr), "result:element-address", assume=False)
                eng.oblige(st, z3.BoolVal(not isinstance(v.o, tuple) and v.o is not None and st.mem[v.o].kind == "global"), "result:out-of-range-gives-dummy", assume=False)
            check_post(c, st, {}, op)
        return run(c, fn, [a, i], post, op)
    if op == "add3":
        xs = [scalar(eng, n, 32) for n in "xyz"]
        return run(c, fn, [a] + xs, lambda st, v: check_post(c, st, {"a": appended_n(va, xs)}, op), op)
    if op == "slice":
        b, n = scalar(eng, "b"), scalar(eng, "n")
        r = c.holder("r", None)
        c.snap()
        st = c.st
        st.assume(b >= 0)
        avail = z3.If(b < ln, ln - b, bv(0))
        m = z3.If(n <= 0, bv(0), z3.If(n < avail, n, avail))
        e = (m, lambda k: arr.read(norm(k + b)))
        return run(c, fn, [r, a, b, n], lambda st, v: check_post(c, st, {"r": e}, op), op)
    raise NotImplementedError(op)


def appended_n(v, items):
    ln, arr = v

    def f(k):
        e = arr.read(k)
        for i, x in enumerate(items):
            e = z3.If(k == ln + i, x, e)
        return e
    return (norm(ln + len(items)), f)


def check_post_dropped(c, st, a, tag):
    """the array at a is gone: its reference is given up"""
    eng, spec = c.eng, c.spec
    for d, (m, kind) in c.data.items():
        rc, ln, cap, arr = m
        o = st.mem[d]
        if not o.alive:
            eng.oblige(st, rc == 1, "block-freed-only-by-its-last-holder:" + tag, assume=False)
            continue
        rc2, ln2, cap2 = fields(eng, st, Ptr(d, 0))
        eng.oblige(st, z3.And(rc > 1, rc2 == rc - 1), "reference-count-exact:" + tag, assume=False)
        k = fresh("sk")
        eng.oblige(st, z3.And(ln2 == ln, cap2 == cap, z3.Implies(z3.ULT(k, ln), region(st, d).arr.read(k) == arr.read(k))), "other-holders-unaffected:" + tag, assume=False)
        check_live(eng, st, d, ln, tag)


def merge_globals(st, st0):
    for i, o in st0.mem.items():
        st.mem.setdefault(i, o)
    for k, v in st0.ghost.items():
        st.ghost.setdefault(k, v)
    return st


def t_init(modf, spec, op, modular=True):
    mod = modf()
    eng = make_engine(mod, spec, mods(op, modular))
    st0 = globals_setup(eng, State())
    c = Case(eng, spec)
    c.st = merge_globals(c.st, st0)
    i = eng.new_obj(c.st, "a", "arg", 8)
    eng.obj_type[i] = irvc.ir.T("named", spec.tname)
    c.holders["a"] = Ptr(i, 0)
    c.pre = c.st.copy()
    a = Ptr(i, 0)
    st = c.st
    z = (bv(0), ConstArr(bv(0, spec.es * 8)))
    if op == "init":
        return run(c, spec.pre + op, [a], lambda st, v: check_post(c, st, {"a": (bv(0), z[1].read)}, op, init=("a",)), op)
    xs = [scalar(eng, n, 32) for n in "xyz"]
    return run(c, spec.pre + op, [a] + xs, lambda st, v: check_post(c, st, {"a": appended_n(z, xs)}, op, init=("a",)), op)


def t_initc(modf, spec, shape):
    mod = modf()
    eng = make_engine(mod, spec)
    st0 = globals_setup(eng, State())
    c = one(eng, spec, shape, "b")
    c.st = merge_globals(c.st, st0)
    i = eng.new_obj(c.st, "a", "arg", 8)
    eng.obj_type[i] = irvc.ir.T("named", spec.tname)
    c.holders["a"] = Ptr(i, 0)
    c.pre = c.st.copy()
    vb = c.views["b"]
    return run(c, spec.pre + "initc", [c.holders["a"], c.holders["b"]], lambda st, v: check_post(c, st, {"a": (vb[0], vb[1].read)}, "initc", init=("a",)), "initc")


def t_two(modf, spec, shape, op, modular=True):
    mod = modf()
    eng = make_engine(mod, spec, mods(op, modular))
    st0 = globals_setup(eng, State())
    c = two(eng, spec, shape)
    c.st = merge_globals(c.st, st0)
    c.pre = c.st.copy()
    a, b = c.holders["a"], c.holders["b"]
    va, vb = c.views["a"], c.views["b"]
    if op in ("assign", "opassign"):
        e = (vb[0], vb[1].read)
    elif op == "addall":
        ln, arr = va
        ln2, arr2 = vb
        c.st.assume(ln + ln2 <= MAXCAP(spec.es))
        e = (norm(ln + ln2), lambda k: z3.If(z3.ULT(k, ln), arr.read(k), arr2.read(norm(k - ln))))
    exp = {"a": e}
    if a.o == b.o:
        exp["b"] = e
    return run(c, spec.pre + op, [a, b], lambda st, v: check_post(c, st, exp, op), op)


WEIGHT = {"addall": 60, "slice": 40, "insert": 20, "remove": 15, "set": 10, "opassign": 5, "assign": 5}


def tasks(modf, modular=True, specs="ip"):
    T = []
    for spec, nm in ((SPEC_I, "Array[Int]"), (SPEC_P, "Array[Probe]")):
        if spec.pre[0] not in specs:
            continue
        ops1 = ["prepare", "term", "reserve", "add", "set", "insert", "remove", "slice", "clear", "find"] + (["len", "buf", "at", "add3"] if not spec.probe else [])
        if find_fn(modf(), spec, "prepare") is None:
            ops1.remove("prepare")

        def add(op, sh, fn, args):
            T.append(vrun.Task("%s.%s%s" % (nm, op, "/" + sh if sh else ""), fn, args, function="%s.%s" % (nm, op), weight=WEIGHT.get(op, 1)))
        for op in ops1:
            for sh in ONE:
                add(op, sh, t_one, (modf, spec, sh, op, modular))
        for op in (["init", "initv"] if not spec.probe else ["init"]):
            add(op, "", t_init, (modf, spec, op, modular))
        for sh in ONE:
            add("initc", sh, t_initc, (modf, spec, sh))
        for op in (["assign", "opassign", "addall"] if not spec.probe else ["opassign", "addall"]):
            for sh in TWO:
                add(op, sh, t_two, (modf, spec, sh, op, modular))
    return T


# ---------------------------------------------------------------- checks
_emitted = None


def emitted():
    global _emitted
    if _emitted is None:
        _emitted = emit.alusus_ir(open(vrun.VERIF + "/harness/array.alusus", encoding="utf-8").read(), "array")
    return _emitted


def search(bad):
    import search as S
    m, ll, raw = emitted()
    wd = emit.workdir("array-search")
    exe = S.build(ll, vrun.VERIF + "/drivers/array.cpp", wd, "array")
    return S.run(exe, 20, header="Array operations compiled from /repo/Sources/Srt/Srl/Array.alusus, AddressSanitizer build; driver drivers/array.cpp")


def plan(specs):
    import check
    m, ll, raw = emitted()
    modf = lambda: m

    def retry(bad):
        names = {r["name"] for r in bad}
        pre = any(".prepare" in n for n in names)
        return [t for t in tasks(modf, False, specs) if ".prepare" not in t.name and (pre or t.name in names)]
    return check.Plan(tasks(modf, True, specs), search=search, retry=retry, trusted=check.TR_ALUSUS + ["contracts of the C library: malloc, realloc, free, memcpy, memmove, memset, va_arg"],
                      assumptions=["malloc/realloc succeed for requests up to 2^46 bytes; lengths are below that limit (machine arithmetic is exact, 64-bit two's complement)",
                                   "reference counts of shared blocks are below 2^62", "slice is called with a non-negative start",
                                   "element copies, assignments, comparisons and terminations follow the ghost contract of the Probe class (they do not touch the array)"])


def plan_values():
    return plan("i")


def plan_elements():
    return plan("p")
