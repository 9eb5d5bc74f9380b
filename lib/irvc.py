"""irvc: a deductive verifier (verification-condition generator) for LLVM IR with z3/cvc5 back ends.

Functions are executed symbolically path by path over ALL inputs; loops are cut by inductive
invariants (inferred Houdini-style from candidate templates, each one proved on entry and
preserved), so no iteration bound is involved unless a loop is concretely bounded (then it is
unrolled completely).  Callees are replaced by contracts where one is registered, otherwise
inlined.  Memory is a set of disjoint objects; every access yields a bounds/liveness obligation.
"""
import os, sys, time, itertools
import z3
import irparse as ir

SCALE, NCPU = 1.0, os.cpu_count() or 1

sys.setrecursionlimit(20000)
BV = z3.BitVecSort


class Unsupported(Exception):
    """The code under contract left the fragment the verifier handles: undecided."""


class PathLimit(Unsupported):
    pass


_fresh = itertools.count()


def fresh(name, bits=64):
    n = "%s!%d" % (name, next(_fresh))
    if bits == 1:
        return z3.Bool(n)
    return z3.BitVec(n, bits)


def bv(v, n=64):
    return z3.BitVecVal(v, n)


def simp(e):
    return z3.simplify(e)


def is_true(e):
    return z3.is_true(e)


# ---------------------------------------------------------------- linear forms
_lin = {}


def lin(e):
    """BV expr -> (const, ((term, coef),...)) modulo 2^n."""
    i = e.get_id()
    r = _lin.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    n = e.size()
    M = (1 << n) - 1
    acc, c = {}, 0

    def add(x, k):
        nonlocal c
        st = [(x, k)]
        while st:
            x, k = st.pop()
            if z3.is_bv_value(x):
                c = (c + k * x.as_long()) & M
                continue
            d = x.decl().kind()
            if d == z3.Z3_OP_BADD:
                for y in x.children():
                    st.append((y, k))
            elif d == z3.Z3_OP_BSUB:
                ch = x.children()
                st.append((ch[0], k))
                for y in ch[1:]:
                    st.append((y, -k))
            elif d == z3.Z3_OP_BNEG:
                st.append((x.arg(0), -k))
            elif d == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
                st.append((x.arg(1), k * x.arg(0).as_long()))
            elif d == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(1)):
                st.append((x.arg(0), k * x.arg(1).as_long()))
            elif d == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() < n:
                st.append((x.arg(0), k << x.arg(1).as_long()))
            else:
                t = x.get_id()
                if t in acc:
                    acc[t][1] += k
                else:
                    acc[t] = [x, k]
    add(e, 1)
    terms = tuple((x, k & M) for x, k in sorted(acc.values(), key=lambda p: p[0].get_id()) if k & M)
    r = (c, terms)
    _lin[i] = (e, r)
    return r


def unlin(c, terms, n=64):
    M = (1 << n) - 1
    e = None
    for x, k in terms:
        k &= M
        if k == 0:
            continue
        if k == 1:
            t = x
        elif k == M:
            t = -x
        else:
            t = bv(k, n) * x
        e = t if e is None else e + t
    c &= M
    if e is None:
        return bv(c, n)
    if c:
        e = e + bv(c, n)
    return e


def norm(e):
    c, t = lin(e)
    return unlin(c, t, e.size())


def ladd(e, k):
    """e + const, canonical."""
    c, t = lin(e)
    return unlin(c + k, t, e.size())


def lsub(a, b):
    return norm(a - b)


def cdiff(a, b):
    """constant a-b if syntactically known else None (unsigned)."""
    c, t = lin(a - b)
    return c if not t else None


def idx(e, es, start):
    """(off - start)/es as expression if exactly divisible in the linear form, else None."""
    c, t = lin(e)
    M = 1 << 64
    c = (c - start) % M
    if c >= M // 2:
        c -= M
    out = []
    if c % es:
        return None
    for x, k in t:
        if k >= M // 2:
            k -= M
        if k % es:
            return None
        out.append((x, k // es))
    return unlin(c // es, out)


# ---------------------------------------------------------------- functional arrays
FUNCS = {}   # base function decls by name


class FArr:
    bits = 8


class Base(FArr):
    def __init__(self, name, bits):
        self.name = "%s@%d" % (name, next(_fresh))
        self.bits = bits
        self.f = z3.Function(self.name, BV(64), BV(bits))
        FUNCS[self.name] = self

    def read(self, i):
        return self.f(norm(i))


class ConstArr(FArr):
    def __init__(self, v):
        self.v, self.bits = v, v.size()

    def read(self, i):
        return self.v


class Store(FArr):
    def __init__(self, a, i, v):
        self.a, self.i, self.v, self.bits = a, norm(i), v, a.bits

    def read(self, j):
        d = cdiff(j, self.i)
        if d == 0:
            return self.v
        if d is not None:
            return self.a.read(j)
        return z3.If(norm(j) == self.i, self.v, self.a.read(j))


class Copy(FArr):
    """a with [d,d+n) replaced by src[s..s+n)"""
    def __init__(self, a, d, src, s, n):
        self.a, self.d, self.src, self.s, self.n, self.bits = a, norm(d), src, norm(s), norm(n), a.bits

    def read(self, j):
        o = lsub(j, self.d)
        inr = z3.ULT(o, self.n)
        si = simp(inr)
        if z3.is_true(si):
            return self.src.read(norm(o + self.s))
        if z3.is_false(si):
            return self.a.read(j)
        return z3.If(inr, self.src.read(norm(o + self.s)), self.a.read(j))


class Lam(FArr):
    def __init__(self, f, bits):
        self.f, self.bits = f, bits

    def read(self, j):
        return self.f(norm(j))


class Fact:
    """universally quantified hypothesis: forall i:BV64. fn(i)"""
    __slots__ = ("fn", "name", "memo", "pats")

    def __init__(self, fn, name=""):
        self.fn, self.name, self.memo, self.pats = fn, name, {}, None

    def patterns(self, eng):
        """array reads a(i + c) in the body: [(array, c or None)]"""
        if self.pats is None:
            out = {}
            e = simp(self.fn(_PI))
            for g, t in eng.idx_terms(e).values():
                c, ts = lin(t)
                k = [q for x, q in ts if x.eq(_PI)]
                if k != [1] or any(uses_const(x, _PI) for x, q in ts if not x.eq(_PI)):
                    continue
                d = norm(t - _PI)
                out[(g, d.get_id())] = (g, None if lin(d) == (0, ()) else d)
            self.pats = list(out.values())
        return self.pats

    def inst(self, t):
        """instance at t (None when trivially true)"""
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None and r[0].eq(t):
            return r[1]
        e = simp(self.fn(t))
        e = None if z3.is_true(e) else e
        self.memo[i] = (t, e)
        return e


_idxmemo = {}
_PI = z3.BitVec("pattern!i", 64)


def uses_const(e, c):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        st.extend(x.children())
    return False


# ---------------------------------------------------------------- values / memory
class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off if not isinstance(off, int) else bv(off)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


NULL = Ptr(None, 0)


class Region:
    """[start, start+es*cap) holds an array of es-byte elements."""
    __slots__ = ("start", "es", "cap", "arr")

    def __init__(self, start, es, cap, arr):
        self.start, self.es, self.cap, self.arr = start, es, cap if not isinstance(cap, int) else bv(cap), arr

    def with_arr(self, arr):
        return Region(self.start, self.es, self.cap, arr)


class Obj:
    """immutable object state (functional update)"""
    __slots__ = ("id", "name", "kind", "size", "alive", "cells", "regions", "lazy", "ro", "ghost")

    def __init__(self, id, name, kind, size, alive=True, cells=None, regions=(), lazy=None, ro=False, ghost=None):
        self.id, self.name, self.kind = id, name, kind
        self.size = bv(size) if isinstance(size, int) else size
        self.alive, self.cells, self.regions = alive, cells or {}, tuple(regions)
        self.lazy = lazy    # dict shared: off -> (size, value) initial values created on first read
        self.ro = ro
        self.ghost = ghost or {}

    def upd(self, **k):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        for a, b in k.items():
            setattr(o, a, b)
        return o

    def __repr__(self):
        return "%s#%s" % (self.name, self.id)


_oid = itertools.count(1)


class State:
    __slots__ = ("mem", "pc", "facts", "ghost", "trace", "depth", "steps")

    def __init__(self):
        self.mem, self.pc, self.facts, self.ghost, self.trace = {}, [], [], {}, ()
        self.depth = 0
        self.steps = 0

    def copy(self):
        s = State.__new__(State)
        s.mem, s.pc, s.facts, s.ghost = dict(self.mem), list(self.pc), list(self.facts), dict(self.ghost)
        s.trace, s.depth, s.steps = self.trace, self.depth, self.steps
        return s

    def obj(self, p):
        return self.mem[p.o if isinstance(p, Ptr) else p]

    def assume(self, *c):
        for x in c:
            if x is True:
                continue
            x = z3.simplify(x) if not isinstance(x, bool) else z3.BoolVal(x)
            if not z3.is_true(x):
                self.pc.append(x)

    def fact(self, fn, name=""):
        self.facts.append(Fact(fn, name))


class Struct:
    """first-class aggregate value"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = list(f)


class Throw:
    def __init__(self, info=""):
        self.info = info


class Exit:
    """process terminated (exit/abort)"""
    def __init__(self, info=""):
        self.info = info


def b2i(x, n=1):
    return z3.If(x, bv(1, n), bv(0, n))


def tobool(x):
    return x if z3.is_bool(x) else x == 1


class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks


def find_loops(f):
    """natural loops by dominators: header -> Loop"""
    if hasattr(f, "_loops"):
        return f._loops
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == "br":
            succ[b] = list(t.x)
        elif t.op == "switch":
            succ[b] = [t.x[0]] + [l for _, l in t.x[1]]
        elif t.op == "invoke":
            succ[b] = [t.x[1], t.x[2]]
        else:
            succ[b] = []
    pred = {b: [] for b in f.order}
    for b in succ:
        for s in succ[b]:
            pred[s].append(b)
    dom = {b: set(f.order) for b in f.order}
    dom[f.order[0]] = {f.order[0]}
    # reachable only
    reach, st = set(), [f.order[0]]
    while st:
        b = st.pop()
        if b not in reach:
            reach.add(b)
            st.extend(succ[b])
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            if b not in reach:
                continue
            ps = [dom[p] for p in pred[b] if p in reach]
            d = (set.intersection(*ps) if ps else set()) | {b}
            if d != dom[b]:
                dom[b], ch = d, True
    loops = {}
    for b in reach:
        for s in succ[b]:
            if s in dom[b]:
                L = loops.setdefault(s, Loop(s, {s}))
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        st.extend(p for p in pred[x] if p in reach)
    f._loops, f._succ, f._pred = loops, succ, pred
    return loops


class CModel:
    """values of selected expressions in a cvc5 model"""
    def __init__(self, txt, vals):
        import re
        self.v = {}
        for k, x in re.findall(r"\(\|?pv!(\d+)\|? ([^()]+|\(_ [^()]*\)|\(fp [^()]*\))\)", txt):
            e = vals[int(k)]
            x = x.strip()
            if x in ("true", "false"):
                r = z3.BoolVal(x == "true")
            elif x.startswith("#b") and z3.is_bv(e):
                r = z3.BitVecVal(int(x[2:], 2), e.size())
            elif x.startswith("#x") and z3.is_bv(e):
                r = z3.BitVecVal(int(x[2:], 16), e.size())
            elif x.startswith("(_ bv") and z3.is_bv(e):
                r = z3.BitVecVal(int(x[5:].split()[0]), e.size())
            else:
                continue
            self.v[e.get_id()] = r

    def eval(self, e, model_completion=True):
        r = self.v.get(e.get_id())
        if r is None:
            return z3.simplify(e) if z3.is_bool(e) else e
        return r


class Failure:
    def __init__(self, name, status, model, where, pc):
        self.name, self.status, self.model, self.where, self.pc = name, status, model, where, pc

    def __repr__(self):
        return "<FAIL %s [%s] at %s>" % (self.name, self.status, self.where)


class Stats:
    def __init__(self):
        self.obl = 0
        self.by = {"simplifier": 0, "z3": 0, "cvc5": 0}
        self.solver_s = 0.0
        self.queries = 0
        self.loops = 0
        self.unrolled = 0
        self.inv = 0
        self.paths = 0
        self.covers = 0
        self.names = {}

    def merge(self, o):
        for a in ("obl", "solver_s", "queries", "loops", "unrolled", "inv", "paths", "covers"):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        for k, v in o.by.items():
            self.by[k] = self.by.get(k, 0) + v
        for k, v in o.names.items():
            self.names[k] = self.names.get(k, 0) + v


class Engine:
    def __init__(self, mod, contracts=None, hints=None, alloc_layout=None, timeout=8000, max_paths=4000):
        self.mod = mod
        self.contracts = dict(LIBC)
        self.contracts.update(contracts or {})
        self.hints = hints or (lambda *a: [])
        self.opaques = {}
        self.const_terms = True         # constants of comparisons in loop bodies become candidate bounds
        self.alloca_layout = None       # (start, element size) of stack arrays of computed size
        self.alloc_layout = alloc_layout or (lambda size, eng: None)
        self.timeout, self.max_paths = timeout, max_paths
        self.failures, self.stats = [], Stats()
        self.dry = 0
        self.gl = {}
        self.addr = {}
        self.addr_rev = {}
        self.fn_stack = []
        self.icmps = None
        self.inputs = {}
        self.inlined = set()
        self.used_contracts = set()
        self.where = ""
        self.deadline = None
        self.quick_ms = 250
        self.last = "z3"
        self.max_inline = 40
        self.globals_as_inputs = True
        self.terminates = []
        self.throw_ok = True
        self.global_init = {}
        self.extern_hook = None
        self.addrmap = {}
        self.obj_type, self.shapes, self.sources, self.preds, self.dead_ptr = {}, {}, [], [], set()

    # ------------------------------------------------------------ solver
    def idx_terms(self, e):
        """reads of uninterpreted array contents in e: {(array, index id): (array, index)} (memoised)"""
        i = e.get_id()
        r = _idxmemo.get(i)
        if r is not None and r[0].eq(e):
            return r[1]
        out, seen, st = {}, set(), [e]
        while st:
            x = st.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            m = _idxmemo.get(j)
            if m is not None and m[0].eq(x):
                out.update(m[1])
                continue
            if z3.is_app(x):
                if x.num_args() == 1:
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in FUNCS:
                        t = norm(x.arg(0))
                        out.setdefault((d.name(), t.get_id()), (d.name(), t))
                st.extend(x.children())
        _idxmemo[i] = (e, out)
        return out

    def ground(self, st, extra, rounds=3, cap=400):
        """path condition + facts instantiated by matching the array reads they mention"""
        fs = list(st.pc) + list(extra)
        if not st.facts:
            return fs
        terms, done = {}, set()
        for e in fs:
            terms.update(self.idx_terms(e))
        trig = {}
        blind = []
        for fi, f in enumerate(st.facts):
            pats = f.patterns(self)
            if not pats:
                blind.append(fi)
            for g, c in pats:
                trig.setdefault(g, []).append((fi, c))
        insts = []
        todo = list(terms.values())
        for _ in range(rounds):
            new = []
            for g, t in todo[:cap]:
                for fi, c in trig.get(g, ()):
                    u = t if c is None else norm(t - c)
                    k = (fi, u.get_id())
                    if k in done:
                        continue
                    done.add(k)
                    e = st.facts[fi].inst(u)
                    if e is not None:
                        new.append(e)
                for fi in blind:
                    k = (fi, t.get_id())
                    if k not in done:
                        done.add(k)
                        e = st.facts[fi].inst(t)
                        if e is not None:
                            new.append(e)
            if not new:
                break
            insts += new
            todo = []
            for e in new:
                for k, v in self.idx_terms(e).items():
                    if k not in terms:
                        terms[k] = v
                        todo.append(v)
            if not todo:
                break
        return fs + insts

    def check(self, fs, timeout=None, want_model=True, vals=None):
        """portfolio: z3 briefly, then cvc5, then z3 with the full limit.
        vals: expressions whose values are wanted from a model (list, returned via Model.eval)"""
        if self.deadline and time.time() > self.deadline:
            return "unknown", None
        t = time.time()
        # time limits are wall-clock: more of it when the machine is busy with other work
        scale = SCALE * min(4.0, max(1.0, os.getloadavg()[0] / NCPU))
        timeout = int((timeout or self.timeout) * scale)
        self.stats.queries += 1
        for f in fs:
            if z3.is_false(f):
                return "unsat", None
        try:
            s = z3.Solver()
            s.add(*fs)
            pv = []
            if vals:
                for k, e in enumerate(vals):
                    v = z3.Const("pv!%d" % k, e.sort())
                    pv.append(v)
                    s.add(v == e)
            quick = min(int(self.quick_ms * scale), timeout)
            s.set("timeout", quick)
            r = s.check()
            if r == z3.unknown:
                s = z3.Solver()     # (the checked solver has preprocessed its assertions)
                s.add(*fs)
                s.add(*[v == e for v, e in zip(pv, vals or ())])
                c, m = self.run_cvc5(s, timeout, pv, vals)
                if c in ("sat", "unsat"):
                    self.last = "cvc5"
                    return c, m
                if timeout > quick:
                    s = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "ackermannize_bv", "simplify", "max-bv-sharing", "bit-blast", "sat").solver() if not want_model else z3.Solver()
                    s.add(*fs)
                    s.set("timeout", timeout)
                    r = s.check()
            self.last = "z3"
            if r == z3.sat:
                return "sat", s.model() if want_model else None
            if r == z3.unsat:
                return "unsat", None
            if os.environ.get("IRVC_DEBUG"):
                print("UNKNOWN after %.1fs n=%d" % (time.time() - t, len(fs)), file=sys.stderr)
            return "unknown", None
        finally:
            self.stats.solver_s += time.time() - t

    def run_cvc5(self, s, timeout, pv=(), vals=()):
        import subprocess
        names = " ".join("|%s|" % v.decl().name() for v in pv)
        txt = "(set-option :produce-models true)\n(set-logic ALL)\n" + s.to_smt2()
        if pv:
            txt += "\n(get-value (%s))\n" % names
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "-"], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        except Exception:
            return "unknown", None
        out = p.stdout.strip()
        if out.startswith("unsat"):
            return "unsat", None
        if not out.startswith("sat"):
            return "unknown", None
        if not pv:
            return "sat", None
        if os.environ.get("IRVC_DEBUG") == "2":
            print(out[:1500], file=sys.stderr); open("/tmp/w/last.smt2","w").write(txt)
        return "sat", CModel(out[3:], vals)

    def feasible(self, st, extra=()):
        fs = self.ground(st, extra)
        for f in fs:
            if z3.is_false(f):
                return False
        r, _ = self.check(fs, timeout=3000, want_model=False)
        return r != "unsat"

    def valid(self, st, cond, timeout=None):
        c = simp(cond)
        if z3.is_true(c):
            return True
        r, _ = self.check(self.ground(st, [z3.Not(c)]), timeout, False)
        return r == "unsat"

    def oblige(self, st, cond, name, assume=True):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        c = simp(cond)
        if not self.dry:
            self.stats.obl += 1
            self.stats.names[name] = self.stats.names.get(name, 0) + 1
            if z3.is_true(c):
                self.stats.by["simplifier"] += 1
            else:
                fs = self.ground(st, [simp(z3.Not(c))])
                r, m = self.check(fs, vals=list(self.inputs.values()))
                if r == "unsat":
                    self.stats.by[self.last] += 1
                else:
                    self.failures.append(Failure(name, r, self.model_inputs(m), self.where, [str(x)[:300] for x in fs[-6:]]))
        if assume and not z3.is_true(c):
            st.pc.append(c)

    def oblige_all(self, st, fn, name, width=64):
        """prove forall i. fn(i)"""
        k = fresh("sk", width)
        # make sure the skolem itself is an instantiation point
        self.oblige(st, fn(k), name, assume=False)

    def model_inputs(self, m):
        if m is None:
            return None
        out = {}
        for k, e in self.inputs.items():
            try:
                v = m.eval(e, model_completion=True)
                out[k] = str(v)
            except Exception:
                pass
        return out

    # ------------------------------------------------------------ memory
    def new_obj(self, st, name, kind, size, **k):
        i = next(_oid)
        o = Obj(i, name, kind, size, **k)
        st.mem[i] = o
        return i

    def gobj(self, st, name):
        """object for a global variable / function"""
        if name in self.mod.aliases:
            v = self.mod.aliases[name]
            if v.k == "global":
                return self.gobj(st, v.v)
        if name in self.mod.funcs:
            return Ptr("fn:" + name, 0)
        if name not in self.gl:
            self.gl[name] = next(_oid)
        i = self.gl[name]
        if i not in st.mem:
            t, init, const = self.mod.globals.get(name, (None, None, False))
            size = self.mod.size(t) if t is not None else 8
            o = Obj(i, "@" + name, "global", size, ro=const)
            if t is not None:
                self.layout_obj(o, t)
                if init is not None and (const or name in self.global_init or self.global_init == "all"):
                    o = self.init_obj(o, t, init, 0, st)
                else:
                    o = o.upd(lazy=self.lazies(i))
            else:
                o = o.upd(lazy=self.lazies(i))
            st.mem[i] = o
        return Ptr(i, 0)

    def lazies(self, key):
        self._lz = getattr(self, "_lz", {})
        return self._lz.setdefault(key, {})

    def layout_obj(self, o, t, off=0):
        """adds regions for (large or variable-indexed) arrays of scalars inside t"""
        rt = self.mod.resolve(t)
        regs = list(o.regions)

        def rec(t, off):
            t = self.mod.resolve(t)
            if t.k == "array":
                e = self.mod.resolve(t.b)
                if e.k in ("int", "float", "double") and (e.k != "int" or e.a % 8 == 0) and t.a > 1:
                    es = self.mod.size(e)
                    regs.append(Region(off, es, t.a, Base(o.name + "[]", es * 8)))
                elif t.a <= 64:
                    for i in range(t.a):
                        rec(t.b, off + i * self.mod.size(t.b))
            elif t.k == "struct":
                offs, _ = self.mod.struct_layout(t)
                for f, x in zip(t.a, offs):
                    rec(f, off + x)
        rec(rt, off)
        o.regions = tuple(regs)

    def init_obj(self, o, t, v, off, st):
        t = self.mod.resolve(t)
        if v.k == "str":
            rs = []
            for r in o.regions:
                if r.start == off:
                    a = r.arr
                    for i, b in enumerate(v.v):
                        a = Store(a, bv(i), bv(b, 8))
                    r = r.with_arr(a)
                rs.append(r)
            if not any(r.start == off for r in o.regions):
                cells = dict(o.cells)
                for i, b in enumerate(v.v):
                    cells[off + i] = (1, bv(b, 8))
                return o.upd(cells=cells)
            return o.upd(regions=tuple(rs))
        if v.k == "zero":
            return self.fill_obj(o, off, self.mod.size(t), 0)
        if v.k == "agg":
            if t.k == "array":
                es = self.mod.size(t.b)
                for i, x in enumerate(v.v):
                    o = self.init_obj(o, t.b, x, off + i * es, st)
            else:
                offs, _ = self.mod.struct_layout(t)
                for x, f, ft in zip(v.v, offs, t.a):
                    o = self.init_obj(o, ft, x, off + f, st)
            return o
        if v.k == "undef":
            return o
        val = self.const(v, st)
        for j, r in enumerate(o.regions):
            if isinstance(r.cap, z3.BitVecNumRef) and r.start <= off < r.start + r.es * r.cap.as_long():
                x = self.tobits(val, t)
                rs = list(o.regions)
                rs[j] = r.with_arr(Store(r.arr, bv((off - r.start) // r.es), x))
                return o.upd(regions=tuple(rs))
        cells = dict(o.cells)
        cells[off] = (self.mod.store_size(t), val)
        return o.upd(cells=cells)

    def fill_obj(self, o, off, n, byte):
        """concrete memset on an object"""
        cells = {k: v for k, v in o.cells.items() if not (off <= k < off + n)}
        rs = []
        covered = []
        for r in o.regions:
            c = r.cap.as_long() if z3.is_bv_value(r.cap) else None
            if c is not None and r.start < off + n and off < r.start + r.es * c:
                v = int.from_bytes(bytes([byte]) * r.es, "little")
                if off <= r.start and off + n >= r.start + r.es * c:
                    rs.append(r.with_arr(ConstArr(bv(v, r.es * 8))))
                else:
                    lo, hi = (off - r.start) // r.es, (off + n - r.start) // r.es
                    rs.append(r.with_arr(Copy(r.arr, bv(max(lo, 0)), ConstArr(bv(v, r.es * 8)), bv(0), bv(hi - max(lo, 0)))))
                covered.append((r.start, r.start + r.es * c))
            else:
                rs.append(r)
        p = off
        fills = []
        for a, b in sorted(covered):
            if p < a:
                fills.append((p, a))
            p = max(p, b)
        if p < off + n:
            fills.append((p, off + n))
        z = dict(cells)
        for a, b in fills:
            z[a] = (b - a, ("fill", byte))
        return o.upd(cells=z, regions=tuple(rs))

    def addr_of(self, o):
        """symbolic base address of an object, as BV64"""
        if o is None:
            return bv(0)
        if o not in self.addr:
            a = z3.BitVec("addr!%s" % o, 64)
            self.addr[o] = a
            self.addr_rev[a.get_id()] = o
            self.addrmap[o] = a
        return self.addr[o]

    def p2i(self, p):
        return norm(self.addr_of(p.o) + p.off)

    def i2p(self, e):
        c, t = lin(e)
        for x, k in t:
            if k == 1 and x.get_id() in self.addr_rev:
                o = self.addr_rev[x.get_id()]
                return Ptr(o, unlin(c, [(y, l) for y, l in t if y is not x]))
        if not t and c == 0:
            return NULL
        return Ptr(("sym", e.get_id(), e), 0)

    def tobits(self, v, t=None):
        """value -> BV of its bit representation"""
        if isinstance(v, Ptr):
            if isinstance(v.o, tuple):
                return norm(v.o[2] + v.off)
            return self.p2i(v)
        if z3.is_bool(v):
            return b2i(v, 8)
        if z3.is_fp(v):
            return self.fpbits(v)
        if z3.is_bv(v):
            n = v.size()
            m = (n + 7) // 8 * 8
            return v if m == n else z3.ZeroExt(m - n, v)
        raise Unsupported("bits of %r" % (v,))

    def fpbits(self, v):
        # z3's fp.to_ieee_bv is total; recover original bits when v came from bits
        if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1:
            return v.arg(0)
        return z3.fpToIEEEBV(v)

    def frombits(self, b, t):
        t = self.mod.resolve(t)
        if t.k == "ptr":
            return self.i2p(b)
        if t.k == "float":
            return z3.fpBVToFP(b, z3.Float32())
        if t.k == "double":
            return z3.fpBVToFP(b, z3.Float64())
        if t.k == "int":
            if t.a == 1:
                return z3.Extract(0, 0, b) == 1
            if b.size() == t.a:
                return b
            return z3.Extract(t.a - 1, 0, b)
        raise Unsupported("load of type %r" % t)

    def fresh_of(self, t, name="v"):
        t = self.mod.resolve(t)
        if t.k == "int":
            return fresh(name, t.a)
        if t.k == "float":
            return z3.FP("%s!%d" % (name, next(_fresh)), z3.Float32())
        if t.k == "double":
            return z3.FP("%s!%d" % (name, next(_fresh)), z3.Float64())
        if t.k == "ptr":
            e = fresh(name + ".p")
            return Ptr(("sym", e.get_id(), e), 0)
        if t.k == "struct":
            return Struct([self.fresh_of(x, name) for x in t.a])
        if t.k == "array":
            return Struct([self.fresh_of(t.b, name) for _ in range(t.a)])
        raise Unsupported("fresh of %r" % t)

    def access(self, st, p, n, what):
        """liveness + bounds obligation of an n-byte access; returns Obj"""
        if p.o is None:
            self.oblige(st, False, "valid-pointer:" + what + ":null")
            raise DeadPath()
        if isinstance(p.o, str):
            raise Unsupported("access to function memory " + p.o)
        if isinstance(p.o, tuple):
            return self.sym_access(st, p, n, what)
        o = st.mem.get(p.o)
        if o is None and p.o in self.opaques:
            self.opaque(st, self.opaques[p.o], p.o)
            o = st.mem[p.o]
        if o is None:
            raise Unsupported("unknown object %s" % (p.o,))
        if not o.alive:
            self.oblige(st, False, "no-use-after-free:" + what + ":" + o.name)
            raise DeadPath()
        ok = self.inb(o, p.off, n)
        self.oblige(st, ok, "in-bounds:" + what + ":" + o.name)
        return o

    def sym_access(self, st, p, n, what):
        raise Unsupported("access through unknown pointer (%s)" % what)

    def inb(self, o, off, n):
        # region form is stronger and simpler for the solver
        c, t = lin(off)
        if t:
            for r in o.regions:
                k = idx(off, r.es, r.start)
                if k is not None and n <= r.es:
                    return z3.ULT(k, r.cap)
                if k is not None and n % r.es == 0:
                    m = n // r.es
                    return z3.And(z3.ULE(bv(m), r.cap), z3.ULE(k, r.cap - bv(m)))
        if z3.is_bv_value(o.size) and not t:
            return z3.BoolVal(c + n <= o.size.as_long())
        return z3.And(z3.ULE(bv(n), o.size), z3.ULE(off, o.size - bv(n)))

    def find_region(self, o, off):
        """region containing off, as (j, region, index) or None when it is a plain cell"""
        c, t = lin(off)
        if not t:
            for j, r in enumerate(o.regions):
                if c >= r.start:
                    if z3.is_bv_value(r.cap) and c >= r.start + r.es * r.cap.as_long():
                        continue
                    nxt = [q.start for q in o.regions if q.start > r.start]
                    if nxt and c >= min(nxt) and not z3.is_bv_value(r.cap):
                        continue
                    if (c - r.start) % r.es:
                        return (j, r, None, (c - r.start) % r.es, bv((c - r.start) // r.es))
                    return (j, r, bv((c - r.start) // r.es), 0, None)
            return None
        for j, r in enumerate(o.regions):
            k = idx(off, r.es, r.start)
            if k is not None:
                return (j, r, k, 0, None)
            # sub-element access at constant displacement
            for d in range(1, r.es):
                k = idx(off, r.es, r.start + d)
                if k is not None:
                    return (j, r, None, d, k)
        raise Unsupported("symbolic offset %s into %r" % (off, o))

    def init_cell(self, o, off, n, t):
        """first read of a never-written cell: a fresh symbol, remembered in o.lazy"""
        lz = o.lazy if o.lazy is not None else {}
        if off in lz and lz[off][0] == n:
            return lz[off][1]
        v = None
        if o.kind == "opaque" and self.mod.resolve(t).k == "ptr":
            v = Ptr(next(_oid), 0)          # the graph of opaque objects is unfolded on demand; see opaque()
            self.opaques[v.o] = "%s+%d" % (o.name, off)
        if v is None:
            v = self.fresh_of(t, "%s+%d" % (o.name, off))
        lz[off] = (n, v)
        return v

    def opaque(self, st, name, oid=None):
        """a live object about whose content nothing is known (its pointer fields lead to further such objects,
        distinct from every other object)"""
        i = oid or next(_oid)
        st.mem[i] = Obj(i, name, "opaque", 1 << 20, lazy=self.lazies(i))
        return Ptr(i, 0)

    def load(self, st, p, t, what="load"):
        rt = self.mod.resolve(t)
        if rt.k == "struct":
            offs, _ = self.mod.struct_layout(rt)
            return Struct([self.load(st, Ptr(p.o, ladd(p.off, f)), x, what) for f, x in zip(offs, rt.a)])
        if rt.k == "array":
            es = self.mod.size(rt.b)
            return Struct([self.load(st, Ptr(p.o, ladd(p.off, i * es)), rt.b, what) for i in range(rt.a)])
        n = self.mod.store_size(rt)
        o = self.access(st, p, n, what)
        fr = self.find_region(o, p.off)
        if fr:
            j, r, k, d, kk = fr
            if k is not None:
                if n == r.es:
                    return self.frombits(r.arr.read(k), rt)
                if n < r.es:
                    return self.frombits(z3.Extract(n * 8 - 1, 0, r.arr.read(k)), rt)
                if n % r.es == 0:
                    parts = [r.arr.read(ladd(k, i)) for i in range(n // r.es)]
                    return self.frombits(z3.Concat(*reversed(parts)), rt)
            elif d + n <= r.es:
                return self.frombits(z3.Extract((d + n) * 8 - 1, d * 8, r.arr.read(kk)), rt)
            raise Unsupported("load straddling elements of %r" % o)
        off = lin(p.off)[0]
        v = self.read_cell(o, off, n, rt, st)
        return v

    def read_cell(self, o, off, n, rt, st):
        if off in o.cells:
            m, v = o.cells[off]
            if isinstance(v, tuple) and v[0] == "fill":
                if n <= m:
                    return self.frombits(bv(int.from_bytes(bytes([v[1]]) * n, "little"), n * 8), rt)
            elif m == n:
                if isinstance(v, Ptr):
                    return v if rt.k == "ptr" else self.frombits(self.tobits(v), rt)
                if rt.k == "int" and z3.is_bv(v) and v.size() == rt.a:
                    return v
                if rt.k == "int" and rt.a == 1 and z3.is_bool(v):
                    return v
                if rt.k in ("float", "double") and z3.is_fp(v):
                    return v
                return self.frombits(self.tobits(v), rt)
            elif m > n:
                return self.frombits(z3.Extract(n * 8 - 1, 0, self.tobits(v)), rt)
        # inside a larger cell or spanning smaller ones
        for k, (m, v) in o.cells.items():
            if k <= off and off + n <= k + m:
                if isinstance(v, tuple) and v[0] == "fill":
                    return self.frombits(bv(int.from_bytes(bytes([v[1]]) * n, "little"), n * 8), rt)
                d = off - k
                return self.frombits(z3.Extract((d + n) * 8 - 1, d * 8, self.tobits(v)), rt)
        over = [(k, m) for k, (m, v) in o.cells.items() if k < off + n and off < k + m]
        if not over:
            if o.lazy is not None:
                v = self.init_cell(o, off, n, rt)
                self.set_cell_shared(st, o.id, off, n, v)
                return v
            v = self.fresh_of(rt, "uninit.%s+%d" % (o.name, off))
            return v
        parts, q = [], off
        while q < off + n:
            c = o.cells.get(q)
            if c is None:
                b = self.read_cell(o, q, 1, ir.INT(8), st)
                parts.append(b)
                q += 1
                continue
            m, v = c
            if q + m > off + n:
                raise Unsupported("partial overlapping load")
            if isinstance(v, tuple):
                parts.append(bv(int.from_bytes(bytes([v[1]]) * m, "little"), m * 8))
            else:
                parts.append(self.tobits(v))
            q += m
        return self.frombits(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0], rt)

    def set_cell_shared(self, st, oid, off, n, v):
        o = st.mem[oid]
        c = dict(o.cells)
        c[off] = (n, v)
        st.mem[oid] = o.upd(cells=c)

    def store(self, st, p, v, t, what="store"):
        rt = self.mod.resolve(t)
        if isinstance(v, Struct):
            if rt.k == "struct":
                offs, _ = self.mod.struct_layout(rt)
                for f, x, ft in zip(offs, v.f, rt.a):
                    self.store(st, Ptr(p.o, ladd(p.off, f)), x, ft, what)
            else:
                es = self.mod.size(rt.b)
                for i, x in enumerate(v.f):
                    self.store(st, Ptr(p.o, ladd(p.off, i * es)), x, rt.b, what)
            return
        n = self.mod.store_size(rt)
        o = self.access(st, p, n, what)
        if o.ro:
            self.oblige(st, False, "write-to-constant:" + o.name)
            raise DeadPath()
        fr = self.find_region(o, p.off)
        if fr:
            j, r, k, d, kk = fr
            b = self.tobits(v)
            if k is not None and n == r.es:
                a = Store(r.arr, k, b)
            elif k is not None and n < r.es:
                old = r.arr.read(k)
                a = Store(r.arr, k, z3.Concat(z3.Extract(r.es * 8 - 1, n * 8, old), b))
            elif k is not None and n % r.es == 0:
                a = r.arr
                for i in range(n // r.es):
                    a = Store(a, ladd(k, i), z3.Extract((i + 1) * r.es * 8 - 1, i * r.es * 8, b))
            elif k is None and d + n <= r.es:
                old = r.arr.read(kk)
                ps = []
                if d + n < r.es:
                    ps.append(z3.Extract(r.es * 8 - 1, (d + n) * 8, old))
                ps.append(b)
                if d:
                    ps.append(z3.Extract(d * 8 - 1, 0, old))
                a = Store(r.arr, kk, z3.Concat(*ps))
            else:
                raise Unsupported("store straddling elements of %r" % o)
            rs = list(o.regions)
            rs[j] = r.with_arr(a)
            st.mem[o.id] = o.upd(regions=tuple(rs))
            return
        off = lin(p.off)[0]
        cells = dict(o.cells)
        for k, (m, w) in list(cells.items()):
            if k < off + n and off < k + m and not (k == off and m == n):
                # split the overlapped cell into bytes
                del cells[k]
                if k >= off and k + m <= off + n:
                    continue
                if isinstance(w, tuple):
                    if k < off:
                        cells[k] = (off - k, w)
                    if k + m > off + n:
                        cells[off + n] = (k + m - off - n, w)
                else:
                    wb = self.tobits(w)
                    for i in range(m):
                        if not (off <= k + i < off + n):
                            cells[k + i] = (1, z3.Extract(i * 8 + 7, i * 8, wb))
        cells[off] = (n, v)
        st.mem[o.id] = o.upd(cells=cells)

    # ------------------------------------------------------------ values
    def const(self, v, st):
        t = self.mod.resolve(v.ty)
        if v.k == "int":
            if t.a == 1:
                return z3.BoolVal(v.v & 1 == 1)
            return bv(v.v & ((1 << t.a) - 1), t.a)
        if v.k == "null":
            return NULL
        if v.k == "global":
            return self.gobj(st, v.v)
        if v.k == "undef":
            return self.fresh_of(t, "undef")
        if v.k == "zero":
            return self.zero(t)
        if v.k == "float":
            return self.fconst(v.v, t)
        if v.k == "agg":
            return Struct([self.const(x, st) for x in v.v])
        if v.k == "str":
            return Struct([bv(b, 8) for b in v.v])
        if v.k == "cexpr":
            if v.v == "gep":
                st_ty, args = v.x
                return self.gep(st, st_ty, [self.const(a, st) for a in args], args)
            if v.v in ir.CASTS:
                a, t2 = v.x
                return self.cast(v.v, self.const(a, st), a.ty, t2)
            args, pred = v.x
            a, b = [self.const(x, st) for x in args]
            if v.v == "icmp":
                return self.icmp(st, pred, a, b)
            return self.binop(st, v.v, a, b, set())
        raise Unsupported("constant %r" % v)

    def zero(self, t):
        t = self.mod.resolve(t)
        if t.k == "int":
            return z3.BoolVal(False) if t.a == 1 else bv(0, t.a)
        if t.k == "ptr":
            return NULL
        if t.k == "float":
            return z3.FPVal(0.0, z3.Float32())
        if t.k == "double":
            return z3.FPVal(0.0, z3.Float64())
        if t.k == "struct":
            return Struct([self.zero(x) for x in t.a])
        if t.k == "array":
            return Struct([self.zero(t.b) for _ in range(t.a)])
        raise Unsupported("zero of %r" % t)

    def fconst(self, s, t):
        import struct as _s
        if s.startswith("0x"):
            if t.k not in ("float", "double"):
                raise Unsupported("float constant " + s)
            d = int(s[2:], 16)
            f = z3.fpBVToFP(bv(d, 64), z3.Float64())
            if t.k == "double":
                return simp(f)
            x = _s.unpack("<d", _s.pack("<Q", d))[0]
            b = _s.unpack("<I", _s.pack("<f", x))[0]
            return simp(z3.fpBVToFP(bv(b, 32), z3.Float32()))
        x = float(s)
        return z3.FPVal(x, z3.Float32() if t.k == "float" else z3.Float64())

    def ev(self, v, env, st):
        if v.k == "local":
            return env[v.v]
        return self.const(v, st)

    def gep(self, st, ty, vals, args):
        p = vals[0]
        off = p.off
        t = ty
        first = True
        for v, a in zip(vals[1:], args[1:]):
            if first:
                scale = self.mod.size(t)
                first = False
                nt = t
            else:
                rt = self.mod.resolve(t)
                if rt.k == "struct":
                    i = lin(v)[0]
                    off = ladd(off, self.mod.struct_layout(rt)[0][i])
                    t = rt.a[i]
                    continue
                nt = rt.b
                scale = self.mod.size(rt.b)
            n = v.size()
            w = v
            if n < 64:
                c, tt = lin(v)
                w = bv(c - (1 << n) if c >> (n - 1) else c) if not tt else z3.SignExt(64 - n, v)
            elif n > 64:
                w = z3.Extract(63, 0, v)
            off = norm(off + w * bv(scale))
            t = nt
        return Ptr(p.o, off)

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        if z3.is_bool(a):
            if pred == "eq":
                return a == b
            if pred == "ne":
                return a != b
            a, b = b2i(a), b2i(b)
        if self.icmps is not None:
            self.icmps.append((a, b))
        return {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
                "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]()

    def nonnull(self, p):
        return p.o is not None and not isinstance(p.o, tuple)

    def pcmp(self, st, pred, a, b):
        if isinstance(a.o, tuple) or isinstance(b.o, tuple):
            x, y = self.tobits(a), self.tobits(b)
            return self.icmp(st, pred, x, y)
        if a.o == b.o:
            x, y = a.off, b.off
            return self.icmp(st, pred, x, y)
        eq = None
        if a.o is None or b.o is None:
            # a valid object never contains the null address
            eq = z3.BoolVal(False)
            n, p = (a, b) if a.o is None else (b, a)
            if lin(n.off) != (0, ()):
                eq = self.tobits(a) == self.tobits(b)
        else:
            eq = z3.BoolVal(False)
        if pred == "eq":
            return eq
        if pred == "ne":
            return z3.Not(eq)
        if a.o is None or b.o is None:
            gt = {"ugt": b.o is None, "uge": b.o is None, "ult": a.o is None, "ule": a.o is None,
                  "sgt": b.o is None, "sge": b.o is None, "slt": a.o is None, "sle": a.o is None}
            return z3.BoolVal(gt[pred])
        return self.icmp(st, pred, self.tobits(a), self.tobits(b))

    def binop(self, st, op, a, b, fl):
        if isinstance(a, Ptr):
            a = self.tobits(a)
        if isinstance(b, Ptr):
            b = self.tobits(b)
        if z3.is_bool(a):
            if op == "and":
                return z3.And(a, b)
            if op == "or":
                return z3.Or(a, b)
            if op == "xor":
                return z3.Xor(a, b)
            r = self.binop(st, op, b2i(a), b2i(b), fl)
            return r == 1
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.div_guard(st, op, a, b)
        if op in ("shl", "lshr", "ashr"):
            self.shift_guard(st, op, a, b)
        rm = z3.RNE()
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: z3.UDiv(a, b),
                "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b), "srem": lambda: z3.SRem(a, b),
                "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "and": lambda: a & b,
                "or": lambda: a | b, "xor": lambda: a ^ b,
                "fadd": lambda: z3.fpAdd(rm, a, b), "fsub": lambda: z3.fpSub(rm, a, b), "fmul": lambda: z3.fpMul(rm, a, b),
                "fdiv": lambda: z3.fpDiv(rm, a, b), "frem": lambda: self.frem(a, b)}[op]()

    def frem(self, a, b):
        raise Unsupported("frem")

    def div_guard(self, st, op, a, b):
        ok = b != 0
        if op[0] == "s":
            n = a.size()
            ok = z3.And(ok, z3.Not(z3.And(a == bv(1 << (n - 1), n), b == bv((1 << n) - 1, n))))
        self.oblige(st, ok, "no-division-trap")

    def shift_guard(self, st, op, a, b):
        self.oblige(st, z3.ULT(b, bv(b.size(), b.size())), "shift-in-range")

    def cast(self, op, v, t, t2):
        t, t2 = self.mod.resolve(t), self.mod.resolve(t2)
        if op == "bitcast":
            if t.k == t2.k == "ptr":
                return v
            return self.frombits(self.tobits(v), t2)
        if op == "addrspacecast":
            return v
        if op == "ptrtoint":
            b = self.tobits(v)
            return b if t2.a == 64 else z3.Extract(t2.a - 1, 0, b) if t2.a < 64 else z3.ZeroExt(t2.a - 64, b)
        if op == "inttoptr":
            if z3.is_bool(v):
                v = b2i(v, 64)
            if v.size() < 64:
                v = z3.ZeroExt(64 - v.size(), v)
            elif v.size() > 64:
                v = z3.Extract(63, 0, v)
            return self.i2p(v)
        if op in ("trunc", "zext", "sext"):
            m = t2.a
            if z3.is_bool(v):
                if op == "zext":
                    return b2i(v, m)
                return z3.If(v, bv((1 << m) - 1, m), bv(0, m))
            n = v.size()
            if op == "trunc":
                return z3.Extract(0, 0, v) == 1 if m == 1 else z3.Extract(m - 1, 0, v)
            return (z3.ZeroExt if op == "zext" else z3.SignExt)(m - n, v)
        rm = z3.RNE()
        S = {"float": z3.Float32(), "double": z3.Float64()}
        if op in ("fptrunc", "fpext"):
            if t2.k not in S or t.k not in S:
                raise Unsupported("cast %r %r" % (t, t2))
            return z3.fpToFP(rm, v, S[t2.k])
        if op in ("sitofp", "uitofp"):
            if t2.k not in S:
                raise Unsupported("cast to %r" % t2)
            if z3.is_bool(v):
                v = b2i(v)
            return z3.fpToFP(rm, v, S[t2.k]) if op == "sitofp" else z3.fpToFPUnsigned(rm, v, S[t2.k])
        if op in ("fptosi", "fptoui"):
            n = t2.a
            r = z3.fpToSBV(z3.RTZ(), v, BV(n)) if op == "fptosi" else z3.fpToUBV(z3.RTZ(), v, BV(n))
            return r == 1 if n == 1 else r
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ execution
    def find_contract(self, name):
        return self.contracts.get(name)

    def call(self, st, name, args, ins=None, retty=None):
        """-> list of (state, value | Throw | Exit)"""
        c = self.find_contract(name)
        if c is not None:
            self.used_contracts.add(name)
            return c(self, st, args, ins)
        f = self.mod.funcs.get(name)
        if f is None and name in self.mod.aliases and self.mod.aliases[name].k == "global":
            return self.call(st, self.mod.aliases[name].v, args, ins, retty)
        if f is None or f.decl:
            if self.extern_hook:
                r = self.extern_hook(self, st, name, args, ins)
                if r is not None:
                    return r
            if name.startswith("llvm."):
                return self.intrinsic(st, name, args, ins)
            raise Unsupported("no contract for external function " + name)
        if self.fn_stack.count(name) > 0 and name in self.fn_stack:
            raise Unsupported("recursion without contract: " + name)
        if len(self.fn_stack) > self.max_inline:
            raise Unsupported("inline depth")
        self.inlined.add(name)
        return self.exec_func(st, f, args)

    def intrinsic(self, st, name, args, ins):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "assume", "donothing", "stackrestore", "prefetch", "experimental", "va_end"):
            return [(st, None)]
        if b == "va_start":
            st.ghost["_val%s" % args[0].o] = (st.ghost["_va"][-1], 0)
            return [(st, None)]
        if b in ("memcpy", "memmove"):
            return memmove(self, st, args, ins)
        if b == "memset":
            return memset(self, st, args, ins)
        if b == "stacksave":
            return [(st, NULL)]
        if b == "trap":
            return [(st, Exit("trap"))]
        if b in ("umax", "umin", "smax", "smin"):
            x, y = args[:2]
            c = {"umax": z3.UGT(x, y), "umin": z3.ULT(x, y), "smax": x > y, "smin": x < y}[b]
            return [(st, z3.If(c, x, y))]
        if b == "fabs":
            return [(st, z3.fpAbs(args[0]))]
        if b in ("uadd", "sadd", "umul", "smul", "usub", "ssub") and name.split(".")[2] == "with":
            x, y = args
            n = x.size()
            ex = (z3.ZeroExt if b[0] == "u" else z3.SignExt)
            k = n if b.endswith("mul") else 1
            X, Y = ex(k, x), ex(k, y)
            op = b[1:]
            W = X + Y if op == "add" else X - Y if op == "sub" else X * Y
            R = z3.Extract(n - 1, 0, W)
            return [(st, Struct([R, ex(k, R) != W]))]
        if b == "eh":
            return [(st, bv(0, 32))]
        raise Unsupported("intrinsic " + name)

    def exec_func(self, st, f, args):
        ir.body(f, self.mod)
        find_loops(f)
        env = {}
        for (t, n, at), a in zip(f.params, args):
            if "byval" in at:
                ty = at["byval"]
                sz = self.mod.size(ty)
                i = self.new_obj(st, f.name[:30] + "." + n, "stack", sz)
                self.layout_obj(st.mem[i], ty)
                v = self.load(st, a, ty, "byval")
                self.store(st, Ptr(i, 0), v, ty)
                a = Ptr(i, 0)
            env[n] = a
        self.fn_stack.append(f.name)
        if f.vararg:
            st.ghost["_va"] = st.ghost.get("_va", ()) + (tuple(args[len(f.params):]),)
        try:
            outs = self.run(f, [(f.order[0], None, env, st, 0)], None)
        finally:
            self.fn_stack.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                if f.vararg:
                    o[1].ghost["_va"] = o[1].ghost["_va"][:-1]
                res.append((o[1], o[2]))
            else:
                raise Unsupported("irreducible control flow in " + f.name)
        return res

    def run(self, f, work, loop, fromheader=None):
        outs = []
        loops = f._loops
        first = True
        while work:
            blk, prev, env, st, ip = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise PathLimit("time limit in " + f.name)
            if ip == 0:
                if loop is not None:
                    if blk not in loop.blocks:
                        outs.append(("edge", st, env, prev, blk))
                        continue
                    if blk == loop.header and not first:
                        outs.append(("back", st, env, prev, blk))
                        continue
                if blk in loops and not (loop is not None and blk == loop.header):
                    for o in self.do_loop(f, loops[blk], prev, env, st):
                        if o[0] == "edge":
                            work.append((o[4], o[3], o[2], o[1], 0))
                        else:
                            outs.append(o)
                    continue
                if not (first and fromheader):
                    env = self.phis(f, blk, prev, env, st)
            first = False
            self.stats.paths += 0
            st.steps += 1
            try:
                self.block(f, blk, prev, env, st, ip, work, outs)
            except DeadPath:
                pass
            if len(outs) + len(work) > self.max_paths:
                raise PathLimit("too many paths in " + f.name)
        return outs

    def phis(self, f, blk, prev, env, st):
        new = None
        for ins in f.blocks[blk]:
            if ins.op != "phi":
                break
            for v, l in ins.x:
                if l == prev:
                    if new is None:
                        new = dict(env)
                    new[ins.res] = self.ev(v, env, st)
                    break
        return new if new is not None else env

    def choose(self, st, cond):
        """feasible truth values of cond"""
        c = simp(cond)
        if z3.is_true(c):
            return [True]
        if z3.is_false(c):
            return [False]
        r = []
        if self.feasible(st, [c]):
            r.append(True)
        if not r:
            return [False]
        if self.feasible(st, [simp(z3.Not(c))]):
            r.append(False)
        return r

    def block(self, f, blk, prev, env, st, ip, work, outs):
        code = f.blocks[blk]
        n = len(code)
        env = dict(env)
        while ip < n:
            ins = code[ip]
            op = ins.op
            self.where = "%s / %s / %s" % (f.name, blk, ins.text[:110])
            if op == "phi":
                ip += 1
                continue
            if op in ir.BIN:
                env[ins.res] = self.binop(st, op, self.ev(ins.a[0], env, st), self.ev(ins.a[1], env, st), ins.x)
            elif op == "load":
                p = self.ev(ins.a[0], env, st)
                env[ins.res] = self.load(st, p, ins.ty)
            elif op == "store":
                v, p = self.ev(ins.a[0], env, st), self.ev(ins.a[1], env, st)
                self.store(st, p, v, ins.ty)
            elif op == "getelementptr":
                env[ins.res] = self.gep(st, ins.ty, [self.ev(a, env, st) for a in ins.a], ins.a)
            elif op == "icmp":
                env[ins.res] = self.icmp(st, ins.x, self.ev(ins.a[0], env, st), self.ev(ins.a[1], env, st))
            elif op == "fcmp":
                env[ins.res] = self.fcmp(ins.x, self.ev(ins.a[0], env, st), self.ev(ins.a[1], env, st))
            elif op in ir.CASTS:
                env[ins.res] = self.cast(op, self.ev(ins.a[0], env, st), ins.a[0].ty, ins.ty)
            elif op == "alloca":
                i = self.new_obj(st, "%" + ins.res, "stack", self.alloca_size(ins, env, st))
                if not ins.a:
                    self.layout_obj(st.mem[i], ins.ty)
                    if self.mod.resolve(ins.ty).k == "struct":
                        self.obj_type[i] = ins.ty
                elif self.alloca_layout:
                    eng_layout(self, st, i, st.mem[i].size, self.alloca_layout)
                env[ins.res] = Ptr(i, 0)
            elif op == "select":
                c = tobool(self.ev(ins.a[0], env, st))
                a, b = self.ev(ins.a[1], env, st), self.ev(ins.a[2], env, st)
                if z3.is_expr(a) and z3.is_expr(b):
                    env[ins.res] = z3.If(c, a, b)
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                    env[ins.res] = Ptr(a.o, z3.If(c, a.off, b.off))
                else:
                    ch = self.choose(st, c)
                    for k in ch[1:]:
                        s2, e2 = st.copy(), dict(env)
                        s2.assume(c if k else z3.Not(c))
                        e2[ins.res] = a if k else b
                        work.append((blk, prev, e2, s2, ip + 1))
                    st.assume(c if ch[0] else z3.Not(c))
                    env[ins.res] = a if ch[0] else b
            elif op == "va_arg":
                p = self.ev(ins.a[0], env, st)
                va, k = st.ghost["_val%s" % p.o]
                if k >= len(va):
                    self.oblige(st, False, "va_arg-within-arguments")
                    raise DeadPath()
                st.ghost["_val%s" % p.o] = (va, k + 1)
                env[ins.res] = va[k]
            elif op == "fneg":
                env[ins.res] = z3.fpNeg(self.ev(ins.a[0], env, st))
            elif op == "freeze":
                env[ins.res] = self.ev(ins.a[0], env, st)
            elif op == "extractvalue":
                v = self.ev(ins.a[0], env, st)
                for k in ins.x:
                    v = v.f[k]
                env[ins.res] = v
            elif op == "insertvalue":
                v = self.ev(ins.a[0], env, st)
                e = self.ev(ins.a[1], env, st)
                env[ins.res] = self.insval(v, e, ins.x)
            elif op in ("call", "invoke"):
                callee, nrm, unw, attrs = ins.x
                if callee == "asm":
                    raise Unsupported("inline asm")
                args = [None if a is None else self.ev(a, env, st) for a in ins.a]
                fp = self.ev(callee, env, st)
                if not (isinstance(fp.o, str) and fp.o.startswith("fn:")):
                    res = self.call_ptr(st, fp, args, ins)
                else:
                    res = self.call(st, fp.o[3:], args, ins, ins.ty)
                cont = []
                for s2, v in res:
                    if isinstance(v, Exit):
                        outs.append(("ret", s2, v))
                    elif isinstance(v, Throw):
                        if op == "invoke":
                            s2.ghost["_exc"] = v
                            work.append((unw, blk, dict(env), s2, 0))
                        else:
                            outs.append(("ret", s2, v))
                    else:
                        cont.append((s2, v))
                if not cont:
                    return
                for s2, v in cont[1:]:
                    e2 = dict(env)
                    if ins.res:
                        e2[ins.res] = v
                    if op == "invoke":
                        work.append((nrm, blk, e2, s2, 0))
                    else:
                        work.append((blk, prev, e2, s2, ip + 1))
                st = cont[0][0]
                if ins.res:
                    env[ins.res] = cont[0][1]
                if op == "invoke":
                    work.append((nrm, blk, env, st, 0))
                    return
            elif op == "br":
                if len(ins.x) == 1:
                    work.append((ins.x[0], blk, env, st, 0))
                    return
                c = tobool(self.ev(ins.a[0], env, st))
                ch = self.choose(st, c)
                for k in ch:
                    s2 = st if len(ch) == 1 else st.copy()
                    s2.assume(c if k else z3.Not(c))
                    work.append((ins.x[0 if k else 1], blk, dict(env), s2, 0))
                return
            elif op == "switch":
                v = self.ev(ins.a[0], env, st)
                d, cases = ins.x
                if z3.is_bool(v):
                    v = b2i(v)
                ne = []
                for k, l in cases:
                    c = v == bv(k & ((1 << v.size()) - 1), v.size())
                    if True in self.choose(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        work.append((l, blk, dict(env), s2, 0))
                    ne.append(z3.Not(c))
                c = z3.And(*ne) if ne else z3.BoolVal(True)
                if True in self.choose(st, c):
                    st.assume(c)
                    work.append((d, blk, env, st, 0))
                return
            elif op == "ret":
                outs.append(("ret", st, self.ev(ins.a[0], env, st) if ins.a else None))
                return
            elif op == "unreachable":
                self.unreachable(st)
                return
            elif op == "landingpad":
                env[ins.res] = Struct([NULL, bv(0, 32)])
            elif op == "resume":
                outs.append(("ret", st, st.ghost.get("_exc", Throw())))
                return
            else:
                raise Unsupported("instruction " + ins.text)
            ip += 1
        raise Unsupported("fell off block")

    def unreachable(self, st):
        self.oblige(st, False, "unreachable-reached")

    def alloca_size(self, ins, env, st):
        n = self.mod.size(ins.ty)
        if ins.a:
            k = self.ev(ins.a[0], env, st)
            if k.size() < 64:
                k = z3.ZeroExt(64 - k.size(), k)
            return norm(k * bv(n))
        return max(n, 1)

    def insval(self, v, e, path):
        f = list(v.f)
        f[path[0]] = e if len(path) == 1 else self.insval(f[path[0]], e, path[1:])
        return Struct(f)

    def call_ptr(self, st, fp, args, ins):
        if self.extern_hook:
            r = self.extern_hook(self, st, fp, args, ins)
            if r is not None:
                return r
        raise Unsupported("indirect call through %r" % fp)

    def fcmp(self, pred, a, b):
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {"eq": z3.fpEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b), "lt": z3.fpLT(a, b), "le": z3.fpLEQ(a, b)}
        if pred == "true":
            return z3.BoolVal(True)
        if pred == "false":
            return z3.BoolVal(False)
        if pred == "ord":
            return z3.Not(un)
        if pred == "uno":
            return un
        o, k = pred[0], pred[1:]
        if k == "ne":
            r = z3.Not(z3.fpEQ(a, b))
            return z3.And(r, z3.Not(un)) if o == "o" else r
        r = base[k]
        return r if o == "o" else z3.Or(r, un)

    # ------------------------------------------------------------ loops
    def do_loop(self, f, L, prev, env, st):
        key = (f.name, L.header)
        entry_env = self.phis(f, L.header, prev, env, st)
        r = self.try_unroll(f, L, entry_env, st)
        if r is not None:
            return r
        if not self.dry:
            self.stats.loops += 1
        phis = [i for i in f.blocks[L.header] if i.op == "phi"]
        mod_cells, mod_regs, mod_ghost, shaped, mod_null = set(), set(), set(), {}, set()
        tag = "L%d" % next(_fresh)
        for attempt in range(16):
            known = set(st.mem)
            heads, sym = self.loop_heads(f, L, st, entry_env, phis, tag, mod_cells, mod_regs, mod_ghost, shaped)
            # dry run of the body
            self.dry += 1
            old_icmps, self.icmps = self.icmps, []
            try:
                runs = []
                for hst, henv in heads:
                    outs = self.run(f, [(L.header, prev, dict(henv), hst.copy(), 0)], L, fromheader=True)
                    runs.append([o for o in outs if o[0] == "back"])
            finally:
                self.dry -= 1
                icmps, self.icmps = self.icmps, old_icmps
            if old_icmps is not None:
                old_icmps.extend(icmps)
            grew = False
            for (hst, henv), backs in zip(heads, runs):
                for b in backs:
                    grew |= self.loop_diff(f, L, st, hst, henv, b, phis, known, mod_cells, mod_regs, mod_ghost, shaped)
                    if grew:
                        break
                if grew:
                    break
            if not grew:
                break
        else:
            raise Unsupported("loop frame did not converge")
        for (oid, off), sh in shaped.items():
            g = sh.check(self, st, Ptr(oid, off), st)
            self.oblige(st, g, "representation-invariant:loop-entry:" + sh.name, assume=False)
        # ----- candidate invariants
        ve = View(self, f, st, entry_env, phis, sym, mod_cells, "entry", shaped, mod_regs)
        vheads, vbacks = [], []
        for (hst, henv), backs in zip(heads, runs):
            vh = View(self, f, hst, henv, phis, sym, mod_cells, "head", shaped, mod_regs)
            vheads.append(vh)
            l = []
            for b in backs:
                e2 = dict(b[2])
                for p in phis:
                    e2[p.res] = self.phi_in(f, L.header, p, b[3], b[2], b[1])
                l.append(View(self, f, b[1], e2, phis, sym, mod_cells, "back", shaped, mod_regs))
            vbacks.append(l)
        inv_terms = {}
        ids = set()
        for vh in vheads:
            ids |= vh.symset()
        ids -= {v.get_id() for v in ve.ints.values()}
        for a, b in icmps:
            for x in (a, b):
                if z3.is_bv(x) and not uses(x, ids, tag + "."):
                    x = norm(x)
                    inv_terms.setdefault(x.get_id(), x)
        terms = [t for t in inv_terms.values() if self.const_terms or not z3.is_bv_value(t)][:12]
        cands = self.auto_cands(ve, vheads, terms)
        ctx = LoopCtx(self, f, L, ve, vheads, terms, mod_cells, mod_regs, mod_ghost, shaped)
        cands += self.content_cands(ctx)
        cands += list(self.hints(ctx) or [])
        for sh in {id(x): x for x in shaped.values()}.values():
            cands += sh.cands(self, ctx, [Ptr(*k) for k, x in shaped.items() if x is sh])
        live = []
        for c in cands:
            try:
                h = self.cand_entry(st, c, ve)
                if h is not None:
                    live.append(h)
            except (Unsupported, z3.Z3Exception):
                pass
        live = self.prefilter(f, L, st, entry_env, phis, sym, mod_cells, shaped, mod_regs, live)
        live = [c for c in live if not getattr(c, "axiom", False) or c.useful(live)]
        if any(isinstance(c, CandAll) for c in live):
            qf = self.houdini(vheads, vbacks, [c for c in live if not isinstance(c, CandAll)])
            live = self.houdini(vheads, vbacks, qf + [c for c in live if isinstance(c, CandAll)])
        else:
            live = self.houdini(vheads, vbacks, live)
        if not self.dry:
            self.stats.inv += len(live)
            self.stats.names["loop-invariant"] = self.stats.names.get("loop-invariant", 0) + 2 * len(live)
            self.stats.obl += 2 * len(live)
            self.stats.by["z3"] += 2 * len(live)
        if os.environ.get("IRVC_DEBUG"):
            print("LOOP", key, "heads", len(heads), "vars", list(ve.ints), "shaped", list(shaped), "inv:", [c.name for c in live], "of", len(cands), file=sys.stderr)
        res = []
        for (hst, henv), vh in zip(heads, vheads):
            for c in live:
                c.assume(hst, vh)
            if not self.feasible(hst):
                continue
            outs = self.run(f, [(L.header, prev, dict(henv), hst, 0)], L, fromheader=True)
            for o in outs:
                if o[0] != "back":
                    res.append(o)
                else:
                    self.no_frees(st, hst, o[1], known, shaped)
                    for (oid, off), sh in shaped.items():
                        g = sh.check(self, o[1], Ptr(oid, off), st)
                        self.oblige(o[1], g, "representation-invariant:loop-preserved:" + sh.name, assume=False)
                    self.rank(f, L, vh, o, phis, sym, mod_cells, shaped, mod_regs)
        return res

    def no_frees(self, st, hst, bst, known, shaped):
        dyn = set()
        for (oid, off), sh in shaped.items():
            dyn |= set(sh.owned(self, st, Ptr(oid, off)))
        for oid in known:
            o, h = bst.mem.get(oid), hst.mem.get(oid)
            if o is not None and h is not None and o.alive != h.alive and oid not in dyn:
                if self.feasible(bst):
                    raise Unsupported("object %r freed in a loop" % o)

    def rank(self, f, L, vh, o, phis, sym, mod_cells, shaped, mod_regs):
        """termination argument: some bounded difference strictly decreases (reported, not required)"""

    def loop_heads(self, f, L, st, entry_env, phis, tag, mod_cells, mod_regs, mod_ghost, shaped):
        hst = st.copy()
        henv = dict(entry_env)
        sym = {}
        for p in phis:
            henv[p.res] = self.havoc(entry_env[p.res], p.ty, tag + "." + p.res, sym, ("phi", p.res))
        for (oid, off) in sorted(mod_cells):
            o = hst.mem[oid]
            if off not in o.cells:
                continue
            m, v = o.cells[off]
            cells = dict(o.cells)
            cells[off] = (m, self.havoc(v, None, "%s.%s+%d" % (tag, o.name, off), sym, ("cell", oid, off)))
            hst.mem[oid] = o.upd(cells=cells)
        for (oid, j) in sorted(mod_regs):
            o = hst.mem[oid]
            rs = list(o.regions)
            rs[j] = rs[j].with_arr(Base("%s.%s" % (tag, o.name), rs[j].arr.bits))
            hst.mem[oid] = o.upd(regions=tuple(rs))
        for g in sorted(mod_ghost, key=str):
            v = st.ghost[g]
            if isinstance(v, FArr):
                hst.ghost[g] = Base("%s.%s" % (tag, g), v.bits)
            elif isinstance(v, z3.ExprRef):
                hst.ghost[g] = fresh("%s.%s" % (tag, g), 1 if z3.is_bool(v) else v.size())
                if not z3.is_bool(v):
                    sym[("ghost", g)] = hst.ghost[g]
            elif isinstance(v, int):
                hst.ghost[g] = fresh("%s.%s" % (tag, g))
                sym[("ghost", g)] = hst.ghost[g]
            else:
                raise Unsupported("ghost %s changes in loop" % g)
        heads = [hst]
        for (oid, off), sh in shaped.items():
            nh = []
            for h in heads:
                for x in sh.havoc(self, h, Ptr(oid, off), "%s.%s+%d" % (tag, sh.name, off)):
                    # storage owned by the entry value is folded into the abstract value
                    if x.mem[oid].cells != st.mem[oid].cells:
                        for q in sh.owned(self, st, Ptr(oid, off)):
                            x.mem[q] = x.mem[q].upd(alive=False)
                    nh.append(x)
            heads = nh
        return [(h, dict(henv)) for h in heads], sym

    def shape_at(self, oid, off):
        """(base offset, shape) covering a cell, from the object's declared type"""
        if not isinstance(off, int):
            return None
        tn = self.obj_type.get(oid)
        if tn is None:
            return None
        base, t = 0, tn
        while True:
            if t.k == "named" and t.a in self.shapes:
                return base, self.shapes[t.a]
            t = self.mod.resolve(t)
            if t.k != "struct":
                return None
            offs, _ = self.mod.struct_layout(t)
            for f, o in zip(t.a, offs):
                if base + o <= off < base + o + self.mod.size(f):
                    base, t = base + o, f
                    break
            else:
                return None

    def loop_diff(self, f, L, st, hst, henv, b, phis, known, mod_cells, mod_regs, mod_ghost, shaped):
        bst = b[1]
        grew = False
        covered = set()
        dyn = set()
        for (oid, off), sh in shaped.items():
            for k in sh.cells:
                covered.add((oid, off + k))
            dyn |= set(sh.owned(self, st, Ptr(oid, off)))
        for oid in known:
            o, h = bst.mem.get(oid), hst.mem.get(oid)
            if o is h or o is None or h is None or oid in dyn:
                continue
            if o.alive != h.alive:
                # freed in the body: acceptable only when the owner is a shaped value
                found = self.shape_owner(st, oid, bst)
                if found and found[0] not in shaped:
                    shaped[found[0]] = found[1]
                    return True
                continue  # must prove infeasible: see no_frees
            for off, (m, v) in list(o.cells.items()):
                if (oid, off) in covered:
                    continue
                w = h.cells.get(off)
                if w is None:
                    e0 = st.mem[oid]
                    if off in e0.cells:
                        continue
                    if o.lazy is not None and off in o.lazy and same(o.lazy[off][1], v):
                        continue
                    c0 = dict(e0.cells)
                    if o.lazy is not None:
                        if off not in o.lazy:
                            o.lazy[off] = (m, self.fresh_like(v))
                        c0[off] = o.lazy[off]
                    else:
                        c0[off] = (m, self.fresh_like(v))
                    st.mem[oid] = e0.upd(cells=c0)
                    mod_cells.add((oid, off))
                    return True
                if not same(w[1], v) or w[0] != m:
                    if w[0] != m:
                        raise Unsupported("cell size changes in loop")
                    if isinstance(w[1], Ptr) or isinstance(v, Ptr):
                        if not (isinstance(w[1], Ptr) and isinstance(v, Ptr) and w[1].o == v.o) and not (isinstance(w[1], Ptr) and isinstance(w[1].o, tuple)):
                            s = self.shape_at(oid, off)
                            if s is None:
                                if o.kind == "stack" and off in st.mem[oid].cells and (oid, off) not in mod_cells:
                                    mod_cells.add((oid, off))
                                    self.dead_ptr.add((oid, off))
                                    grew = True
                                    continue
                                raise Unsupported("pointer in %r+%d changes object in loop" % (o, off))
                            shaped[(oid, s[0])] = s[1]
                            for k in s[1].cells:
                                mod_cells.discard((oid, s[0] + k))
                            return True
                    if (oid, off) not in mod_cells:
                        s = self.shape_at(oid, off)
                        mod_cells.add((oid, off))
                        grew = True
            for j, (r, r0) in enumerate(zip(o.regions, h.regions)):
                if r.arr is not r0.arr and (oid, j) not in mod_regs:
                    mod_regs.add((oid, j))
                    grew = True
            for k in o.ghost:
                if o.ghost[k] is not h.ghost.get(k):
                    raise Unsupported("object ghost changes in loop")
        for g, v in bst.ghost.items():
            w = hst.ghost.get(g)
            if g in st.ghost and not same(v, w) and g not in mod_ghost and not str(g).startswith("_"):
                mod_ghost.add(g)
                grew = True
        for p in phis:
            a, b_ = henv[p.res], self.phi_in(f, L.header, p, b[3], b[2], bst)
            if isinstance(a, Ptr) and isinstance(b_, Ptr) and a.o != b_.o and not isinstance(a.o, tuple):
                raise Unsupported("pointer %s changes object in loop" % p.res)
        return grew

    def shape_owner(self, st, oid, bst):
        """shaped value (in st) that owns heap object oid"""
        for k, o in st.mem.items():
            if k not in self.obj_type:
                continue
            for off, (m, v) in o.cells.items():
                if isinstance(v, Ptr) and v.o == oid:
                    s = self.shape_at(k, off)
                    if s:
                        return (k, s[0]), s[1]
        return None

    def phi_in(self, f, blk, p, prev, env, st):
        for v, l in p.x:
            if l == prev:
                return self.ev(v, env, st)
        raise Unsupported("phi")

    def fresh_like(self, v):
        if isinstance(v, Ptr):
            return self.fresh_of(ir.PTR, "u")
        if z3.is_bool(v):
            return fresh("u", 1)
        if z3.is_bv(v):
            return fresh("u", v.size())
        if z3.is_fp(v):
            return z3.FP("u!%d" % next(_fresh), v.sort())
        raise Unsupported("fresh_like")

    def havoc(self, v, ty, name, sym, key):
        if isinstance(v, Ptr):
            if isinstance(v.o, tuple) or v.o is None or (len(key) == 3 and key[1:] in self.dead_ptr):
                e = fresh(name + ".p")
                sym[key] = e
                return Ptr(("sym", e.get_id(), e), 0)
            e = fresh(name + ".off")
            sym[key] = e
            return Ptr(v.o, e)
        if isinstance(v, Struct):
            raise Unsupported("aggregate loop variable")
        if isinstance(v, tuple):
            raise Unsupported("filled cell modified in loop")
        if z3.is_bool(v):
            return fresh(name, 1)
        if z3.is_fp(v):
            return z3.FP("%s!%d" % (name, next(_fresh)), v.sort())
        e = fresh(name, v.size())
        sym[key] = e
        return e

    def try_unroll(self, f, L, env, st, limit=70):
        """complete unrolling when every loop decision is syntactically decided; else None"""
        # cheap pre-check: is the first decision concrete?
        self.dry += 1
        try:
            hdr = self.peek_decision(f, L, env, st)
        finally:
            self.dry -= 1
        if hdr is None:
            return None
        res = []
        nfail = len(self.failures)
        snap = self.stats
        self.stats = Stats()
        ok = False
        try:
            states = [(dict(env), st.copy())]
            for it in range(limit):
                nxt = []
                for e, s in states:
                    o = self.run(f, [(L.header, None, e, s, 0)], L, fromheader=True)
                    res += [x for x in o if x[0] != "back"]
                    for b in o:
                        if b[0] == "back":
                            nxt.append((self.phis(f, L.header, b[3], b[2], b[1]), b[1]))
                if not nxt:
                    ok = True
                    break
                if len(nxt) > 40:
                    break
                self.dry += 1
                try:
                    dec = [self.peek_decision(f, L, e, s) for e, s in nxt]
                finally:
                    self.dry -= 1
                if None in dec:
                    break
                states = nxt
        finally:
            if ok:
                snap.merge(self.stats)
                if not self.dry:
                    snap.unrolled += 1
            else:
                snap.queries += self.stats.queries
                snap.solver_s += self.stats.solver_s
            self.stats = snap
        if ok:
            return res
        del self.failures[nfail:]
        return None

    def peek_decision(self, f, L, env, st):
        """truth value of the header's exit decision if syntactically decided"""
        st = st.copy()
        env = dict(env)
        blk = L.header
        prev = None
        for _ in range(6):
            code = f.blocks[blk]
            for ins in code:
                if ins.op == "phi":
                    if blk != L.header:
                        env = self.phis(f, blk, prev, env, st)
                    continue
                if ins.op == "br":
                    if len(ins.x) == 1:
                        break
                    c = simp(tobool(self.ev(ins.a[0], env, st)))
                    if z3.is_true(c) or z3.is_false(c):
                        t = ins.x[0] if z3.is_true(c) else ins.x[1]
                        # only a decision that can leave the loop counts
                        if any(x not in L.blocks for x in ins.x):
                            return True
                        return None
                    return None
                try:
                    if ins.op in ir.BIN:
                        env[ins.res] = self.binop(st, ins.op, self.ev(ins.a[0], env, st), self.ev(ins.a[1], env, st), ins.x)
                    elif ins.op == "load":
                        env[ins.res] = self.load(st, self.ev(ins.a[0], env, st), ins.ty)
                    elif ins.op == "getelementptr":
                        env[ins.res] = self.gep(st, ins.ty, [self.ev(a, env, st) for a in ins.a], ins.a)
                    elif ins.op == "icmp":
                        env[ins.res] = self.icmp(st, ins.x, self.ev(ins.a[0], env, st), self.ev(ins.a[1], env, st))
                    elif ins.op in ir.CASTS:
                        env[ins.res] = self.cast(ins.op, self.ev(ins.a[0], env, st), ins.a[0].ty, ins.ty)
                    elif ins.op == "store":
                        self.store(st, self.ev(ins.a[1], env, st), self.ev(ins.a[0], env, st), ins.ty)
                    else:
                        return None
                except (DeadPath, Unsupported, KeyError):
                    return None
            else:
                return None
            prev, blk = blk, ins.x[0]
            if blk == L.header:
                return None
        return None

    def cand_holds(self, st, c, view):
        e = c.goal(view)
        if e is None:
            return False
        s = simp(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        r, _ = self.check(self.ground(st, [z3.Not(s)]), timeout=2000, want_model=False)
        return r == "unsat"

    def cand_entry(self, st, c, view):
        """candidate restricted to its truth on entry: c itself if it holds, None if it cannot,
        otherwise (quantifier-free ones) the implication 'true on entry => true now'"""
        e = c.goal(view)
        if e is None:
            return None
        s = simp(e)
        if z3.is_true(s):
            return c
        if z3.is_false(s):
            return None
        r, _ = self.check(self.ground(st, [z3.Not(s)]), timeout=2000, want_model=False)
        if r == "unsat":
            return c
        if not isinstance(c, Cand) or r != "sat":
            return None
        r, _ = self.check(self.ground(st, [s]), timeout=2000, want_model=False)
        if r == "unsat":
            return None
        return Cand("entry(" + c.name + ") => " + c.name, lambda v, c=c, s=s: (lambda g: None if g is None else z3.Implies(s, g))(c.fn(v)))

    def prefilter(self, f, L, st, entry_env, phis, sym, mod_cells, shaped, mod_regs, live):
        """drop candidates refuted by one or two real iterations from the entry state"""
        states = [(dict(entry_env), st.copy())]
        self.dry += 1
        nf, icm = len(self.failures), self.icmps
        self.icmps = None
        try:
            for _ in range(2):
                nxt = []
                for env, s in states:
                    try:
                        outs = self.run(f, [(L.header, None, env, s, 0)], L, fromheader=True)
                    except (Unsupported, DeadPath, KeyError):
                        continue
                    for o in outs:
                        if o[0] != "back" or not self.feasible(o[1]):
                            continue
                        e2 = dict(o[2])
                        for p in phis:
                            e2[p.res] = self.phi_in(f, L.header, p, o[3], o[2], o[1])
                        v = View(self, f, o[1], e2, phis, sym, mod_cells, "back", shaped, mod_regs)
                        live = self.refute(o[1], v, live)
                        nxt.append((e2, o[1]))
                states = nxt[:4]
        finally:
            self.dry -= 1
            self.icmps = icm
            del self.failures[nf:]
        return live

    def refute(self, st, v, live):
        todo, ok = [], []
        for c in live:
            if getattr(c, "axiom", False):
                c.assume(st, v)
        for c in live:
            try:
                g = c.goal(v)
            except (Unsupported, z3.Z3Exception, KeyError, IndexError):
                g = None
            g = z3.BoolVal(False) if g is None else simp(g)
            if z3.is_false(g):
                continue
            (ok if z3.is_true(g) else todo).append(c if z3.is_true(g) else (c, g))
        for _ in range(60):
            if not todo:
                break
            r, m = self.check(self.ground(st, [z3.Or(*[z3.Not(g) for _, g in todo])]), timeout=3000, vals=[g for _, g in todo])
            if r != "sat":
                break
            n = [(c, g) for c, g in todo if z3.is_true(m.eval(g, model_completion=True))]
            if len(n) == len(todo):
                break
            todo = n
        keep = set(map(id, ok)) | {id(c) for c, _ in todo}
        return [c for c in live if id(c) in keep]

    def houdini(self, vheads, vbacks, live):
        while True:
            changed = False
            for vh, vbs in zip(vheads, vbacks):
                for vb in vbs:
                    ast = vb.st.copy()
                    for c in live:
                        c.assume(ast, vh)
                    todo = []
                    for c in live:
                        try:
                            g = c.goal(vb)
                        except (Unsupported, z3.Z3Exception):
                            g = None
                        g = z3.BoolVal(False) if g is None else simp(g)
                        if not z3.is_true(g):
                            todo.append((c, g))
                    bad = set()
                    while todo:
                        neg = z3.Or(*[z3.Not(g) for _, g in todo])
                        r, m = self.check(self.ground(ast, [neg]), timeout=self.timeout, vals=[g for _, g in todo])
                        if r == "unsat":
                            break
                        if r == "sat":
                            rm = [c for c, g in todo if not z3.is_true(m.eval(g, model_completion=True))]
                            if not rm:
                                rm = [todo[0][0]]
                            bad.update(map(id, rm))
                        else:
                            for c, g in todo:
                                r, m = self.check(self.ground(ast, [z3.Not(g)]), timeout=3000, want_model=False)
                                if r != "unsat":
                                    bad.add(id(c))
                            break
                        todo = [(c, g) for c, g in todo if id(c) not in bad]
                    if bad:
                        live = [c for c in live if id(c) not in bad]
                        changed = True
            if not changed:
                return live

    def content_cands(self, ctx):
        """array-content candidates: prefix/suffix relations between modified content and
        known sequences / predicates, parameterised by the loop's integer variables"""
        out = []
        ve = ctx.entry
        vh0 = ctx.heads[0] if ctx.heads else None
        if vh0 is None:
            return out
        keys = [k for k in vh0.ints if k in ve.ints]

        def w64(x):
            return x if x.size() == 64 else z3.SignExt(64 - x.size(), x) if x.size() < 64 else z3.Extract(63, 0, x)
        targets = []
        for (oid, j) in ctx.mod_regs:
            if oid in ve.st.mem and len(ve.st.mem[oid].regions) > j:
                e0 = ve.st.mem[oid].regions[j].arr
                targets.append(("r%s.%d" % (oid, j), e0.bits, e0,
                                lambda v, oid=oid, j=j: v.st.mem[oid].regions[j].arr))
        for (oid, off), sh in ctx.shaped.items():
            for q in range(sh.nseq):
                e0 = sh.model(self, ve.st, Ptr(oid, off))[q]
                targets.append(("s%s.%d.%d" % (oid, off, q), e0[1].bits, e0[1],
                                lambda v, oid=oid, off=off, sh=sh, q=q: sh.model(self, v.st, Ptr(oid, off))[q][1]))
        for g in ctx.mod_ghost:
            if isinstance(ve.st.ghost.get(g), FArr):
                e0 = ve.st.ghost[g]
                targets.append(("g" + str(g), e0.bits, e0, lambda v, g=g: v.st.ghost[g]))
        sources = list(self.sources)
        for (oid, o) in ve.st.mem.items():
            if o.alive and o.kind != "global":
                for j, r in enumerate(o.regions):
                    sources.append(("m%s.%d" % (oid, j), r.arr.bits, r.arr.read))
        for nm, bits, e0, acc in targets:
            srcs = [(n, fn) for n, b, fn in sources if b == bits]
            for k in keys:
                out.append(CandAll("%s[i]=old,i>=%s" % (nm, k), lambda v, i, k=k, e0=e0, acc=acc: z3.Or(i < w64(v.ints[k]), acc(v).read(i) == e0.read(i))))
                out.append(CandAll("%s[i]=old,i<%s0" % (nm, k), lambda v, i, z=w64(ve.ints[k]), e0=e0, acc=acc: z3.Or(i >= z, acc(v).read(i) == e0.read(i))))
                out.append(CandAll("%s[i]=old,0<=i<%s0" % (nm, k), lambda v, i, z=w64(ve.ints[k]), e0=e0, acc=acc: z3.Or(i < 0, i >= z, acc(v).read(i) == e0.read(i))))
                out.append(CandAll("%s[i]=old,i<=%s" % (nm, k), lambda v, i, k=k, e0=e0, acc=acc: z3.Or(i > w64(v.ints[k]), acc(v).read(i) == e0.read(i))))
                for sn, fn in srcs:
                    out.append(CandAll("%s[i]=%s[i],0<=i<%s" % (nm, sn, k), lambda v, i, k=k, fn=fn, acc=acc: z3.Or(i < 0, i >= w64(v.ints[k]), acc(v).read(i) == fn(i))))
                    z = w64(ve.ints[k])
                    if lin(z) != (0, ()):
                        out.append(CandAll("%s[i]=%s[i],%s0<=i<%s" % (nm, sn, k, k), lambda v, i, k=k, z=z, fn=fn, acc=acc: z3.Or(i < z, i >= w64(v.ints[k]), acc(v).read(i) == fn(i))))
                        out.append(CandAll("%s[i]=%s[i-%s0],%s0<=i<%s" % (nm, sn, k, k, k), lambda v, i, k=k, z=z, fn=fn, acc=acc: z3.Or(i < z, i >= w64(v.ints[k]), acc(v).read(i) == fn(norm(i - z)))))
                        for k2 in keys:
                            if k2 != k:
                                z2 = w64(ve.ints[k2])
                                out.append(CandAll("%s[i]=%s[i+%s0],0<=i<%s" % (nm, sn, k, k2), lambda v, i, k=k, k2=k2, z=z, fn=fn, acc=acc: z3.Or(i < 0, i >= w64(v.ints[k2]), acc(v).read(i) == fn(norm(i + z)))))
        for pn, pf in self.preds:
            for k in keys:
                z = w64(ve.ints[k])
                out.append(CandAll("%s(i),0<=i<%s" % (pn, k), lambda v, i, k=k, pf=pf: z3.Or(i < 0, i >= w64(v.ints[k]), pf(i))))
                out.append(CandAll("%s(i),%s0<=i<%s" % (pn, k, k), lambda v, i, k=k, z=z, pf=pf: z3.Or(i < z, i >= w64(v.ints[k]), pf(i))))
                out.append(CandAll("%s(i),%s<i<=%s0" % (pn, k, k), lambda v, i, k=k, z=z, pf=pf: z3.Or(i > z, i <= w64(v.ints[k]), pf(i))))
                out.append(CandAll("%s(i),%s<=i<%s0" % (pn, k, k), lambda v, i, k=k, z=z, pf=pf: z3.Or(i >= z, i < w64(v.ints[k]), pf(i))))
        return out

    def auto_cands(self, ve, vheads, terms):
        out = []
        if not vheads:
            return out
        vh = vheads[0]
        ks = list(vh.ints)
        for a in ks:
            n = vh.ints[a].size()
            e0 = ve.ints.get(a)
            if e0 is None:
                continue
            ts = [bv(0, n), e0] + [t for t in terms if t.size() == n]
            uniq = {}
            for t in ts:
                t = norm(t)
                uniq.setdefault(t.get_id(), t)
            for t in uniq.values():
                for nm, op in (("sle", lambda x, y: x <= y), ("sge", lambda x, y: x >= y),
                               ("ule", z3.ULE), ("uge", z3.UGE)):
                    out.append(Cand("%s %s %s" % (a, nm, str(t)[:40]), lambda v, a=a, t=t, op=op: op(v.ints[a], t) if a in v.ints else None))
        # a loop whose entry condition is false leaves everything unchanged
        unch = [a for a in ks if a in ve.ints]
        for a in unch:
            e0 = ve.ints[a]
            n = e0.size()
            for t in [bv(0, n)] + [t for t in terms if t.size() == n]:
                for nm, op in (("sle", lambda x, y: x <= y), ("sge", lambda x, y: x >= y), ("uge", z3.UGE)):
                    g = simp(op(e0, t))
                    if z3.is_true(g) or z3.is_false(g):
                        continue
                    out.append(Cand("%s0 %s %s => unchanged" % (a, nm, str(t)[:40]), lambda v, g=g: z3.Implies(g, z3.And(*[v.ints[x] == ve.ints[x] for x in unch if x in v.ints]))))
        for a, b in itertools.combinations(ks, 2):
            if vh.ints[a].size() != vh.ints[b].size() or a not in ve.ints or b not in ve.ints:
                continue
            a0, b0 = ve.ints[a], ve.ints[b]
            out.append(Cand("%s-%s const" % (a, b), lambda v, a=a, b=b, a0=a0, b0=b0: v.ints[a] - a0 == v.ints[b] - b0))
            out.append(Cand("%s+%s const" % (a, b), lambda v, a=a, b=b, a0=a0, b0=b0: v.ints[a] + v.ints[b] == a0 + b0))
            out.append(Cand("%s<=%s" % (a, b), lambda v, a=a, b=b: v.ints[a] <= v.ints[b]))
            out.append(Cand("%s>=%s" % (a, b), lambda v, a=a, b=b: v.ints[a] >= v.ints[b]))
            for k in (2, 4, 8):
                out.append(Cand("d%s=%d*d%s" % (a, k, b), lambda v, a=a, b=b, a0=a0, b0=b0, k=k: v.ints[a] - a0 == (v.ints[b] - b0) * k))
                out.append(Cand("d%s=%d*d%s" % (b, k, a), lambda v, a=a, b=b, a0=a0, b0=b0, k=k: v.ints[b] - b0 == (v.ints[a] - a0) * k))
        return out


class NotConcrete(Exception):
    pass


class DeadPath(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and norm(a.off).eq(norm(b.off))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b) or (z3.is_bv(a) and z3.is_bv(b) and a.size() == b.size() and norm(a).eq(norm(b)))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    return False


def uses(e, ids, pre=None):
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_app(x) and x.num_args() <= 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name().startswith(pre) if pre else x.num_args() and x.decl().name()[0] == "L"):
            return True
        st.extend(x.children())
    return False


class View:
    """state at a loop point; .ints maps loop-variable keys to their value there"""
    def __init__(self, eng, f, st, env, phis, sym, mod_cells, kind, shaped, mod_regs):
        self.eng, self.st, self.env, self.kind = eng, st, env, kind
        self.ints = {}
        self.facts, self.keep = {}, []
        self.sym = sym
        for p in phis:
            v = env.get(p.res)
            if isinstance(v, Ptr) and not isinstance(v.o, tuple) and v.o is not None:
                self.ints["phi." + p.res] = v.off
            elif z3.is_expr(v) and z3.is_bv(v):
                self.ints["phi." + p.res] = v
        for (oid, off) in mod_cells:
            o = st.mem.get(oid)
            if o is None or off not in o.cells:
                continue
            v = o.cells[off][1]
            if isinstance(v, Ptr) and not isinstance(v.o, tuple) and v.o is not None:
                self.ints["cell.%s.%d" % (oid, off)] = v.off
            elif z3.is_expr(v) and z3.is_bv(v):
                self.ints["cell.%s.%d" % (oid, off)] = v
        for k in sym:
            if k[0] == "ghost":
                v = st.ghost[k[1]]
                self.ints["ghost.%s" % (k[1],)] = bv(v) if isinstance(v, int) else v
        for (oid, off), sh in shaped.items():
            for q, (ln, arr) in enumerate(sh.model(eng, st, Ptr(oid, off))):
                self.ints["len.%s.%d.%d" % (oid, off, q)] = ln

    def symset(self):
        return {v.get_id() for v in self.sym.values()} | {v.get_id() for k, v in self.ints.items() if k.startswith("len.")}


class Cand:
    """candidate invariant; fn(view) -> Bool"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def goal(self, view):
        return self.fn(view)

    def assume(self, st, view):
        e = self.fn(view)
        if e is not None:
            st.assume(e)


class Axiom(Cand):
    """instance of a definition (of ghost functions) at a loop point: assumed, nothing to prove"""
    axiom = True

    def __init__(self, name, fn, needs=None):
        self.name, self.fn, self.needs = name, fn, needs

    def goal(self, view):
        return z3.BoolVal(True)

    def useful(self, live):
        """an instance is only kept while one of the candidates that needs it is"""
        return self.needs is None or any(c is n for c in live for n in self.needs)


class CandAll:
    """candidate invariant: forall i. fn(view, i)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def goal(self, view):
        return self.fn(view, fresh("sk"))

    def assume(self, st, view):
        f = view.facts.get(id(self))
        if f is None:
            f = view.facts[id(self)] = Fact(lambda i: self.fn(view, i), self.name)
            view.keep.append(self)
        st.facts.append(f)


class LoopCtx:
    def __init__(self, eng, f, L, ve, vheads, terms, mc, mr, mg, shaped):
        self.eng, self.f, self.loop, self.entry, self.heads, self.terms = eng, f, L, ve, vheads, terms
        self.mod_cells, self.mod_regs, self.mod_ghost, self.shaped = mc, mr, mg, shaped


class Shape:
    """Representation predicate of a value type (folded ownership): all valid shapes of a value.
    cells: offsets of the value's own cells; nseq: number of model sequences."""
    name, cells, nseq = "shape", (0,), 1

    def havoc(self, eng, st, p, tag):
        """-> list of states in which *p is an arbitrary valid value (one per shape)"""
        raise NotImplementedError

    def check(self, eng, st, p, entry=None):
        """Bool: *p is valid in st (and owns its storage alone, unless unchanged since entry)"""
        raise NotImplementedError

    def cands(self, eng, ctx, slots):
        """extra candidate invariants; slots: pointers to the shaped values of this shape"""
        return []

    def model(self, eng, st, p):
        """-> [(length, FArr)]"""
        raise NotImplementedError

    def owned(self, eng, st, p):
        """ids of heap objects reachable only through *p"""
        return []


# ---------------------------------------------------------------- libc contracts
def split_access(eng, st, p, n, what):
    """bounds obligation for a symbolic byte count; n BV64"""
    if p.o is None or isinstance(p.o, str):
        eng.oblige(st, n == 0, "valid-pointer:" + what + ":null")
        return None
    if isinstance(p.o, tuple):
        raise Unsupported(what + " through unknown pointer")
    o = st.mem[p.o]
    if not o.alive:
        eng.oblige(st, n == 0, "no-use-after-free:" + what + ":" + o.name)
        return None
    c, t = lin(p.off)
    done = False
    for r in o.regions:
        k, m = idx(p.off, r.es, r.start), idx(n, r.es, 0)
        if k is not None and m is not None and not (not t and c < r.start):
            eng.oblige(st, z3.Or(n == 0, z3.And(z3.ULE(k, r.cap), z3.ULE(m, r.cap - k))), "in-bounds:" + what + ":" + o.name)
            done = True
            break
    if not done:
        eng.oblige(st, z3.Or(n == 0, z3.And(z3.ULE(p.off, o.size), z3.ULE(n, o.size - p.off))), "in-bounds:" + what + ":" + o.name)
    return o


def memmove(eng, st, args, ins):
    d, s, n = args[:3]
    n = z3.ZeroExt(64 - n.size(), n) if n.size() < 64 else n
    n = norm(n)
    c, t = lin(n)
    if not t and c == 0:
        return [(st, d)]
    so = split_access(eng, st, s, n, "memmove-src")
    do = split_access(eng, st, d, n, "memmove-dst")
    if so is None or do is None:
        return [(st, d)]
    if do.ro:
        eng.oblige(st, False, "write-to-constant:" + do.name)
    fs, fd = region_of(so, s.off), region_of(do, d.off)
    if fs and fd and fs[1].es == fd[1].es and idx(n, fs[1].es, 0) is not None:
        j, r, k = fd
        js, rs, ks = fs
        m = idx(n, r.es, 0)
        rr = list(do.regions)
        rr[j] = r.with_arr(Copy(r.arr, k, rs.arr, ks, m))
        st.mem[do.id] = do.upd(regions=tuple(rr))
        if getattr(eng, "on_move", None):
            eng.on_move(eng, st, do.id, k, so.id, ks, m)
        return [(st, d)]
    if not t and not lin(d.off)[1] and not lin(s.off)[1] and c <= 4096:
        copy_concrete(eng, st, do, lin(d.off)[0], so, lin(s.off)[0], c)
        return [(st, d)]
    raise Unsupported("memmove between different layouts (%r -> %r, %s)" % (so, do, n))


def region_of(o, off):
    c, t = lin(off)
    for j, r in enumerate(o.regions):
        if not t:
            if c < r.start or (z3.is_bv_value(r.cap) and c > r.start + r.es * r.cap.as_long()):
                continue
        k = idx(off, r.es, r.start)
        if k is not None:
            return (j, r, k)
    return None


def copy_concrete(eng, st, do, d, so, s, n):
    """byte range copy with concrete offsets; copies cells and regions"""
    out = []
    q = 0
    # regions fully inside
    while q < n:
        off = s + q
        done = False
        for r in so.regions:
            cap = r.cap.as_long() if z3.is_bv_value(r.cap) else None
            if r.start <= off and (cap is None or off < r.start + r.es * cap):
                if (off - r.start) % r.es or (n - q) < r.es:
                    raise Unsupported("partial region copy")
                out.append((q, r.es, r.arr.read(bv((off - r.start) // r.es))))
                q += r.es
                done = True
                break
        if done:
            continue
        c = so.cells.get(off)
        if c is not None and c[0] <= n - q:
            out.append((q, c[0], c[1]))
            q += c[0]
            continue
        if c is None and not any(k <= off < k + m for k, (m, v) in so.cells.items()):
            # never written: keep as undefined unless lazily initialised
            if so.lazy is not None:
                step = 8 if (off % 8 == 0 and n - q >= 8) else 4 if (off % 4 == 0 and n - q >= 4) else 1
                nxt = [k for k in so.cells if off < k < off + step]
                if nxt:
                    step = 1
                v = eng.read_cell(so, off, step, ir.INT(step * 8), st)
                so = st.mem[so.id]
                out.append((q, step, v))
                q += step
            else:
                q += 1
            continue
        v = eng.read_cell(so, off, 1, ir.INT(8), st)
        out.append((q, 1, v))
        q += 1
    do = st.mem[do.id]
    cells = {k: v for k, v in do.cells.items() if not (d <= k < d + n)}
    st.mem[do.id] = do.upd(cells=cells)
    for q, m, v in out:
        if isinstance(v, tuple):
            do = st.mem[do.id]
            cells = dict(do.cells)
            cells[d + q] = (m, v)
            st.mem[do.id] = do.upd(cells=cells)
        elif isinstance(v, Ptr):
            eng.store(st, Ptr(do.id, d + q), v, ir.PTR)
        elif z3.is_bool(v):
            eng.store(st, Ptr(do.id, d + q), v, ir.INT(1))
        elif z3.is_fp(v):
            eng.store(st, Ptr(do.id, d + q), v, ir.DOUBLE if v.sort() == z3.Float64() else ir.FLOAT)
        else:
            eng.store(st, Ptr(do.id, d + q), v, ir.INT(v.size()))


def memset(eng, st, args, ins):
    d, c, n = args[:3]
    n = z3.ZeroExt(64 - n.size(), n) if n.size() < 64 else n
    n = norm(n)
    o = split_access(eng, st, d, n, "memset")
    if o is None:
        return [(st, d)]
    byte = z3.Extract(7, 0, c)
    nc, nt = lin(n)
    if not nt and nc == 0:
        return [(st, d)]
    dc, dt = lin(d.off)
    fr = region_of(o, d.off)
    if fr and idx(n, fr[1].es, 0) is not None and (not z3.is_bv_value(fr[1].cap) or nt or dt or nc <= fr[1].es * fr[1].cap.as_long()):
        j, r, k = fr
        val = z3.Concat(*[byte] * r.es) if r.es > 1 else byte
        rs = list(o.regions)
        rs[j] = r.with_arr(Copy(r.arr, k, ConstArr(simp(val)), bv(0), idx(n, r.es, 0)))
        st.mem[o.id] = o.upd(regions=tuple(rs))
        return [(st, d)]
    if not nt and not dt and z3.is_bv_value(simp(byte)):
        st.mem[o.id] = eng.fill_obj(o, dc, nc, simp(byte).as_long())
        return [(st, d)]
    raise Unsupported("memset")


MAXALLOC = 1 << 46


def malloc(eng, st, args, ins):
    n = args[0]
    n = norm(n if n.size() == 64 else z3.ZeroExt(64 - n.size(), n))
    # allocation succeeds; sizes are far below the address-space limit (trusted: no out-of-memory)
    eng.oblige(st, z3.ULE(n, bv(MAXALLOC * 64)), "allocation-size-sane")
    st.assume(z3.ULE(n, bv(MAXALLOC)))
    i = eng.new_obj(st, "heap", "heap", n)
    lay = eng.alloc_layout(n, eng)
    if lay:
        eng_layout(eng, st, i, n, lay)
    if getattr(eng, "on_malloc", None):
        eng.on_malloc(eng, st, i)
    return [(st, Ptr(i, 0))]


def eng_layout(eng, st, i, n, lay):
    start, es = lay
    c, t = lin(n)
    k = idx(n, es, start)
    if k is None:
        # capacity rounded down
        k = z3.UDiv(n - bv(start), bv(es))
        if not t:
            k = bv((c - start) // es) if c >= start else bv(0)
    o = st.mem[i]
    st.mem[i] = o.upd(regions=(Region(start, es, k, Base("%s.%d" % (o.name, i), es * 8)),))


def free(eng, st, args, ins):
    p = args[0]
    if p.o is None:
        return [(st, None)]
    if isinstance(p.o, (tuple, str)):
        raise Unsupported("free of unknown pointer")
    o = st.mem[p.o]
    eng.oblige(st, z3.And(z3.BoolVal(o.alive and o.kind == "heap"), p.off == 0), "valid-free:" + o.name)
    if not (o.alive and o.kind == "heap"):
        raise DeadPath()
    if getattr(eng, "on_free", None):
        eng.on_free(eng, st, p)
        o = st.mem[p.o]
    st.mem[p.o] = o.upd(alive=False)
    return [(st, None)]


def realloc(eng, st, args, ins):
    p, n = args
    n = norm(n)
    if p.o is None:
        return malloc(eng, st, [n], ins)
    o = st.mem[p.o]
    eng.oblige(st, z3.And(z3.BoolVal(o.alive and o.kind == "heap"), p.off == 0), "valid-realloc:" + o.name)
    if not (o.alive and o.kind == "heap"):
        raise DeadPath()
    eng.oblige(st, z3.ULE(n, bv(MAXALLOC * 64)), "allocation-size-sane")
    st.assume(z3.ULE(n, bv(MAXALLOC)))
    i = eng.new_obj(st, "heap", "heap", n, cells=dict(o.cells), ghost=dict(o.ghost))
    regs = []
    for r in o.regions:
        k = idx(n, r.es, r.start)
        if k is None:
            k = z3.UDiv(n - bv(r.start), bv(r.es))
        # bytes up to min(old,new) size keep their value; the rest is indeterminate
        regs.append(Region(r.start, r.es, k, Copy(Base("heap.%d" % i, r.es * 8), bv(0), r.arr, bv(0), r.cap)))
    st.mem[i] = st.mem[i].upd(regions=tuple(regs))
    if not o.regions:
        lay = eng.alloc_layout(n, eng)
        if lay:
            eng_layout(eng, st, i, n, lay)
    if getattr(eng, "on_realloc", None):
        eng.on_realloc(eng, st, p.o, i)
    st.mem[p.o] = st.mem[p.o].upd(alive=False)
    return [(st, Ptr(i, 0))]


def cstr(eng, st, p, what):
    """(obj, region idx, region) of a byte string pointer"""
    if p.o is None:
        eng.oblige(st, False, "valid-pointer:" + what + ":null")
        raise DeadPath()
    if isinstance(p.o, (tuple, str)):
        raise Unsupported(what + " of unknown pointer")
    o = st.mem[p.o]
    if not o.alive:
        eng.oblige(st, False, "no-use-after-free:" + what + ":" + o.name)
        raise DeadPath()
    fr = region_of(o, p.off)
    if fr is None:
        # a single-cell string (e.g. a shared terminator character)
        o2 = cells_as_region(eng, st, o)
        fr = region_of(o2, p.off)
        o = o2
        if fr is None:
            raise Unsupported(what + ": no byte region at %s of %r" % (p.off, o))
    return o, fr[0], fr[1], fr[2]


def cells_as_region(eng, st, o):
    """view a small concrete object as a byte region"""
    if not z3.is_bv_value(o.size) or o.size.as_long() > 64 or o.regions:
        raise Unsupported("string in %r" % o)
    n = o.size.as_long()
    a = Base(o.name, 8)
    arr = a
    for i in range(n):
        arr = Store(arr, bv(i), eng.read_cell(o, i, 1, ir.INT(8), st))
    o = st.mem[o.id]
    o = o.upd(cells={}, regions=(Region(0, 1, n, arr),))
    st.mem[o.id] = o
    return o


def nul_terms(eng, st, r, k):
    """candidate indices at which region content may be proved NUL"""
    out = []
    a = r.arr
    d = 0
    while True:
        if isinstance(a, Store):
            out.append(a.i)
            a = a.a
        elif isinstance(a, Copy):
            for x in nul_terms_of(a.src):
                out.append(norm(x - a.s + a.d))
            out.append(norm(a.d + a.n))
            out.append(norm(a.d + a.n - 1))
            a = a.a
        else:
            break
        d += 1
        if d > 40:
            break
    out += [t for t in st.ghost.get("_nul", ())]
    return out


def nul_terms_of(a):
    out = []
    while isinstance(a, (Store, Copy)):
        if isinstance(a, Store):
            out.append(a.i)
        a = a.a
    return out


def strlen_of(eng, st, p, what="strlen"):
    o, j, r, k = cstr(eng, st, p, what)
    R = fresh("strlen")
    # witness of termination
    seen, ok = set(), False
    hy = getattr(eng, "nul_witness", None)
    ws = (list(hy(st, p, o, r, k)) if hy else []) + nul_terms(eng, st, r, k)
    # witnesses given by facts about this object's content: any index with content 0 known in pc
    for w in ws:
        w = norm(w)
        if w.get_id() in seen:
            continue
        seen.add(w.get_id())
        c = z3.And(z3.ULE(k, w), z3.ULT(w, r.cap), r.arr.read(w) == 0)
        if eng.valid(st, c, 3000):
            ok = True
            st.assume(z3.ULE(R, w - k))
            eng.oblige(st, z3.BoolVal(True), "nul-terminated:" + what + ":" + o.name)
            break
    if not ok:
        eng.oblige(st, False, "nul-terminated:" + what + ":" + o.name, assume=False)
    st.assume(z3.ULT(R, r.cap), z3.ULE(k, r.cap), z3.ULT(k + R, r.cap), r.arr.read(k + R) == 0)
    arr = r.arr
    st.fact(lambda i, arr=arr, k=k, R=R: z3.Implies(z3.ULT(i - k, R), arr.read(i) != 0), "strlen")
    return R, o, j, r, k


def strlen(eng, st, args, ins):
    R = strlen_of(eng, st, args[0])[0]
    return [(st, R)]


def strcpy(eng, st, args, ins):
    d, s = args
    R, so, js, rs, ks = strlen_of(eng, st, s, "strcpy-src")
    do = split_access(eng, st, d, norm(R + 1), "strcpy-dst")
    if do is None:
        return [(st, d)]
    do, jd, rd, kd = cstr(eng, st, d, "strcpy-dst")
    if do.id == so.id:
        eng.oblige(st, z3.Or(z3.ULT(kd + R, ks), z3.ULT(ks + R, kd)), "no-overlap:strcpy")
    rr = list(do.regions)
    rr[jd] = rd.with_arr(Copy(rd.arr, kd, rs.arr, ks, norm(R + 1)))
    st.mem[do.id] = do.upd(regions=tuple(rr))
    return [(st, d)]


def strncpy(eng, st, args, ins):
    d, s, n = args
    n = norm(n)
    c, t = lin(n)
    if not t and c == 0:
        return [(st, d)]
    do = split_access(eng, st, d, n, "strncpy-dst")
    if do is None:
        return [(st, d)]
    so, js, rs, ks = cstr(eng, st, s, "strncpy-src")
    do, jd, rd, kd = cstr(eng, st, d, "strncpy-dst")
    R = fresh("snlen")   # number of non-NUL bytes copied, R <= n
    arr = rs.arr
    st.assume(z3.ULE(R, n))
    st.fact(lambda i: z3.Implies(z3.ULT(i - ks, R), arr.read(i) != 0), "strncpy")
    st.assume(z3.Or(R == n, arr.read(ks + R) == 0))
    # readable: either n bytes fit, or a NUL within the object (witnesses)
    ok = eng.valid(st, z3.And(z3.ULE(ks, rs.cap), z3.ULE(n, rs.cap - ks)))
    if not ok:
        hy = getattr(eng, "nul_witness", None)
        for w in (list(hy(st, s, so, rs, ks)) if hy else []) + nul_terms(eng, st, rs, ks):
            w = norm(w)
            if eng.valid(st, z3.And(z3.ULE(ks, w), z3.ULT(w, rs.cap), arr.read(w) == 0), 3000):
                ok = True
                st.assume(z3.ULE(R, w - ks))
                break
    eng.oblige(st, z3.BoolVal(ok), "in-bounds:strncpy-src:" + so.name, assume=False)
    if do.id == so.id:
        eng.oblige(st, z3.Or(z3.ULE(kd + n, ks), z3.ULE(ks + R, kd)), "no-overlap:strncpy")
    src = Lam(lambda j: z3.If(z3.ULT(j, R), arr.read(norm(j + ks)), bv(0, 8)), 8)
    rr = list(do.regions)
    rr[jd] = rd.with_arr(Copy(rd.arr, kd, src, bv(0), n))
    st.mem[do.id] = do.upd(regions=tuple(rr))
    return [(st, d)]


def _noop(eng, st, args, ins):
    return [(st, None)]


def _exit(eng, st, args, ins):
    return [(st, Exit("exit"))]


LIBC = {"malloc": malloc, "free": free, "realloc": realloc, "memmove": memmove, "memcpy": memmove, "memset": memset,
        "strlen": strlen, "strcpy": strcpy, "strncpy": strncpy, "exit": _exit, "abort": _exit,
        "_Znwm": malloc, "_Znam": malloc, "_ZdlPv": free, "_ZdaPv": free, "_ZdlPvm": free}
