"""Contracts of the shared and weak references: C++ (Sources/Srt/Srl/refs.h) and Alusus (Sources/Srt/Srl/refs_base.alusus);
both have the same memory layout."""
import z3
import irvc, emit, vrun
import arrays as R
from irvc import *

CNT, SINGLE, TERM, MOBJ, RSZ = 0, 4, 8, 16, 24
I8, I32, PT = irvc.ir.INT(8), irvc.ir.INT(32), irvc.ir.PTR
DOFF = 8          # offset of Probe inside Derived

_em = {}


def emitted(lang="cxx"):
    if lang not in _em:
        if lang == "cxx":
            _em[lang] = emit.cxx_ir(open(vrun.VERIF + "/harness/cxxrefs.cpp").read(), "cxxrefs", extra=["-I" + emit.REPO + "/Sources/Srt/Srl", "-fno-threadsafe-statics"])
        else:
            _em[lang] = emit.alusus_ir(open(vrun.VERIF + "/harness/alrefs.alusus", encoding="utf-8").read(), "alrefs")
    return _em[lang]


class World:
    def __init__(self, lang):
        mod = emitted(lang)[0]
        self.lang = lang
        self.contracts = dict(R.PROBE, ghost_term=self.ghost_term, _ZdlPv=irvc.free)
        self.eng = Engine(mod, contracts=self.contracts)
        self.eng.global_init = "all"
        self.eng.on_malloc, self.eng.on_free = R.on_malloc, self.on_free
        self.st = R.globals_setup(self.eng, State())
        self.counters = {}      # counter oid -> (count, managed Ptr, separate?)
        self.holders = {}       # name -> Ptr (counting)
        self.weak = {}
        self.pre = {}
        self.nested = {}        # managed oid -> holder inside it
        self.gone = set()

    def ghost_term(self, eng, st, args, ins):
        for c, (n, m, sep) in self.counters.items():
            if args[0].o == m.o:
                break
        else:
            eng.oblige(st, False, "terminator-called-with-the-managed-object")
            raise DeadPath()
        eng.oblige(st, args[0].off == m.off, "terminator-called-with-the-managed-object")
        eng.oblige(st, z3.BoolVal(st.mem[m.o].alive), "object-terminated-while-allocated")
        eng.oblige(st, z3.BoolVal(st.ghost.get(("term", c), 0) == 0), "object-terminated-once")
        st.ghost[("term", c)] = st.ghost.get(("term", c), 0) + 1
        if m.o in self.nested:
            # the object contains a reference: its destructor gives that up (one level of nesting, not recursion)
            stack, eng.fn_stack = eng.fn_stack, []
            try:
                return [(s2, None) for s2, v in eng.call(st, "s_term", [self.nested[m.o]])]
            finally:
                eng.fn_stack = stack
        return [(st, None)]

    def on_free(self, eng, st, p):
        for c, (n, m, sep) in self.counters.items():
            if p.o in (c, m.o):
                eng.oblige(st, z3.BoolVal(st.ghost.get(("term", c), 0) == 1), "memory-freed-only-after-the-object-is-terminated")
        lv = R.getlive(st, p.o)
        if lv is not None:
            k = fresh("sk")
            eng.oblige(st, lv.read(k) == 0, "no-live-object-in-freed-memory", assume=False)

    def counter(self, name, kind):
        """kind: <uniq|shared>-<single|own>"""
        u, s = kind.split("-")
        eng, st = self.eng, self.st
        n = fresh(name + ".count", 32)
        eng.inputs[name + ".count"] = n
        st.assume(n == 1 if u == "uniq" else z3.And(n >= 2, n < (1 << 31) - 8))
        if s == "single":
            sz = fresh(name + ".size")
            st.assume(z3.UGE(sz, bv(RSZ)), z3.ULE(sz, bv(1 << 40)))
            c = eng.new_obj(st, name, "heap", sz)
            m = Ptr(c, RSZ)
        else:
            c = eng.new_obj(st, name, "heap", bv(RSZ))
            sz = fresh(name + ".size")
            st.assume(z3.ULE(sz, bv(1 << 40)), z3.UGE(sz, bv(16)))
            m = Ptr(eng.new_obj(st, name + ".obj", "heap", sz), 0)
        st.mem[c] = st.mem[c].upd(cells={CNT: (4, n), SINGLE: (1, bv(1 if s == "single" else 0, 8)), TERM: (8, Ptr("fn:ghost_term", 0)), MOBJ: (8, m)})
        self.counters[c] = (n, m, s == "own")
        return Ptr(c, 0)

    def value(self, name, kind):
        """(counter, object) of an arbitrary reference"""
        if kind == "null":
            return NULL, NULL
        if kind == "raw":
            return NULL, Ptr(self.eng.new_obj(self.st, name + ".raw", "heap", bv(64)), 0)
        if kind == "nullobj":
            return self.counter(name, "shared-own"), NULL
        c = self.counter(name, kind)
        m = self.counters[c.o][1]
        d = fresh(name + ".off")
        self.st.assume(z3.ULE(d, self.st.mem[m.o].size - bv(R_(m))))
        return c, Ptr(m.o, norm(bv(R_(m)) + d))

    def holder(self, name, val, weak=False, at=None):
        if at is None:
            at = Ptr(self.eng.new_obj(self.st, name, "arg", 16), 0)
        self.eng.store(self.st, at, val[0], PT)
        self.eng.store(self.st, Ptr(at.o, norm(at.off + 8)), val[1], PT)
        (self.weak if weak else self.holders)[name] = at
        self.pre[name] = val
        return at

    def read(self, st, p):
        return self.eng.load(st, p, PT), self.eng.load(st, Ptr(p.o, norm(p.off + 8)), PT)

    def check(self, st, expect, tag, init=(), dropped=()):
        """expect: name -> (counter, obj); every other holder unchanged; counts exact"""
        eng = self.eng
        pre, post = {}, {}
        done = {}
        for n, p in list(self.holders.items()) + list(self.weak.items()):
            strong = n in self.holders
            if strong and p.o not in init and n not in init and (p.o, str(p.off)) not in done:
                c = self.pre[n][0]
                if c.o is not None:
                    pre[c.o] = pre.get(c.o, 0) + 1
            if not st.mem[p.o].alive or n in dropped:
                if n not in dropped and not any(p == q for q in self.nested.values()):
                    eng.oblige(st, False, "holder-alive:" + n)
                continue
            v = self.read(st, p)
            e = expect.get(n, self.pre.get(n))
            eng.oblige(st, eng.pcmp(st, "eq", v[0], e[0]), "counter-of:" + n + ":" + tag, assume=False)
            eng.oblige(st, eng.pcmp(st, "eq", v[1], e[1]), "object-of:" + n + ":" + tag, assume=False)
            if strong and (p.o, str(p.off)) not in done and v[0].o is not None:
                post[v[0].o] = post.get(v[0].o, 0) + 1
            done[(p.o, str(p.off))] = 1
        for c, (n, m, sep) in self.counters.items():
            d = post.get(c, 0) - pre.get(c, 0)
            t = st.ghost.get(("term", c), 0)
            if not st.mem[c].alive:
                eng.oblige(st, z3.And(n + d == 0, z3.BoolVal(t == 1)), "released-only-by-the-last-reference:" + tag, assume=False)
                if sep:
                    eng.oblige(st, z3.BoolVal(not st.mem[m.o].alive), "object-memory-freed:" + tag, assume=False)
                continue
            L = lambda o, t: eng.read_cell(st.mem[c], o, t[0], t[1], st)
            eng.oblige(st, z3.And(L(CNT, (4, I32)) == n + d, n + d >= 1), "reference-count-exact:" + tag, assume=False)
            eng.oblige(st, z3.BoolVal(t == 0 and st.mem[m.o].alive), "object-alive-while-referenced:" + tag, assume=False)
            eng.oblige(st, z3.And(L(SINGLE, (1, I8)) == (0 if sep else 1), eng.pcmp(st, "eq", L(MOBJ, (8, PT)), m), eng.pcmp(st, "eq", L(TERM, (8, PT)), Ptr("fn:ghost_term", 0))), "counter-frame:" + tag, assume=False)
        self.post = post
        return [i for i, o in st.mem.items() if o.kind == "heap" and o.alive and i not in self.known]

    def run(self, fn, args, post, tag):
        eng = self.eng
        self.known = set(self.st.mem)
        if not eng.feasible(self.st):
            raise irvc.Unsupported("contradictory pre-state")
        eng.stats.covers += 1
        n = 0
        for st, v in eng.call(self.st, fn, args):
            if isinstance(v, (Throw, Exit)):
                eng.oblige(st, False, "normal-return:" + tag)
                continue
            if not eng.feasible(st):
                continue
            n += 1
            post(st, v)
        if not n and not eng.failures:
            raise irvc.Unsupported("no feasible exit")
        return eng


def R_(m):
    return m.off.as_long() if z3.is_expr(m.off) and z3.is_bv_value(m.off) else m.off


KINDS = ["null", "raw", "nullobj", "uniq-single", "uniq-own", "shared-single", "shared-own"]


def convert(w, v, derived):
    if not derived or v[1].o is None:
        return v
    return v[0], Ptr(v[1].o, norm(v[1].off + DOFF))


def no_new(w, st, extra, tag):
    w.eng.oblige(st, z3.BoolVal(not extra), "no-leaked-block:" + tag, assume=False)


def t_unary(lang, p, op, kind):
    w = World(lang)
    a = w.holder("a", w.value("a", kind), weak=p == "w_")
    va = w.pre["a"]
    eng = w.eng
    if op == "term":
        def post(st, v):
            no_new(w, st, w.check(st, {}, op, dropped=("a",)), op)
        return w.run(p + op, [a], post, op)
    if op == "release":
        return w.run(p + op, [a], lambda st, v: no_new(w, st, w.check(st, {"a": (NULL, NULL)}, op), op), op)
    if op in ("get", "arrow", "rc"):
        def post(st, v):
            eng.oblige(st, eng.pcmp(st, "eq", v, va[0 if op == "rc" else 1]), "result:" + op, assume=False)
            no_new(w, st, w.check(st, {}, op), op)
        return w.run(p + op, [a], post, op)
    if op == "eq":
        engs = []
        o = Ptr(eng.new_obj(w.st, "o", "heap", bv(64)), fresh("o.off"))
        def post(st, v):
            eng.oblige(st, (v == 1 if z3.is_bv(v) else v) == eng.pcmp(st, "eq", va[1], o), "result:" + op, assume=False)
            no_new(w, st, w.check(st, {}, op), op)
        return w.run(p + op, [a, o], post, op)
    if op in ("eqn", "neqn"):
        def post(st, v):
            r = z3.BoolVal((va[1].o is None) == (op == "eqn"))
            eng.oblige(st, tobool(v) == r, "result:" + op, assume=False)
            no_new(w, st, w.check(st, {}, op), op)
        return w.run(p + op, [a], post, op)
    # operations that create a counter
    if op in ("alloc", "construct"):
        x = R.scalar(eng, "x", 32)
        return w.run(p + op, [a] + ([x] if op == "construct" and lang == "cxx" else []), lambda st, v: created(w, st, v, a, None, x, op), op)
    if op in ("own", "own-null", "own-same"):
        o = NULL if op == "own-null" else va[1] if op == "own-same" else live_obj(w, "o")

        def post(st, v):
            if op == "own-same":
                return no_new(w, st, w.check(st, {}, op), op)
            if op == "own-null":
                e = va if va[1].o is None else (NULL, NULL)
                return no_new(w, st, w.check(st, {"a": e}, op), op)
            created(w, st, v, a, o, None, op)
        return w.run(p + "own", [a, o], post, op)
    raise NotImplementedError(op)


def live_obj(w, name):
    i = w.eng.new_obj(w.st, name, "heap", bv(4))
    w.st.ghost[R.live_key(i)] = Store(ConstArr(bv(0, 8)), bv(0), bv(1, 8))
    w.eng.store(w.st, Ptr(i, 0), fresh(name, 32), I32)
    return Ptr(i, 0)


def created(w, st, v, a, o, x, tag):
    """a owns a new counter with count 1; giving it up terminates the object once and frees everything"""
    eng = w.eng
    c, obj = w.read(st, a)
    new = w.check(st, {"a": (c, obj)}, tag, init=())
    ok = c.o is not None and not isinstance(c.o, tuple) and c.o in new and new == [c.o]
    eng.oblige(st, z3.BoolVal(bool(ok)), "one-new-counter:" + tag, assume=False)
    if not ok:
        return
    cnt = eng.read_cell(st.mem[c.o], CNT, 4, I32, st)
    eng.oblige(st, z3.And(c.off == 0, cnt == 1), "reference-count-exact:new:" + tag, assume=False)
    if o is not None:
        eng.oblige(st, eng.pcmp(st, "eq", obj, o), "object-of:a:" + tag, assume=False)
        k = (o.o, bv(0))
    else:
        eng.oblige(st, z3.And(z3.BoolVal(obj.o == c.o), z3.UGE(obj.off, bv(RSZ)), z3.ULE(obj.off + 4, st.mem[c.o].size), obj.off % 4 == 0), "object-inside-the-block:" + tag, assume=False)
        if obj.o != c.o:
            return
        if tag.startswith("construct"):
            eng.oblige(st, z3.And(R.live_of(st, c.o).read(obj.off) == 1, eng.load(st, obj, I32) == (x if w.lang == "cxx" else 0)), "object-constructed:" + tag, assume=False)
        else:
            if v is not None:
                eng.oblige(st, eng.pcmp(st, "eq", v, obj), "result:" + tag, assume=False)
            eng.store(st, obj, fresh("u", 32), I32)
            st.ghost[R.live_key(c.o)] = Store(R.live_of(st, c.o), obj.off, bv(1, 8))
        k = (c.o, obj.off)
    blk = {c.o, obj.o}
    for s2, v2 in eng.call(st, "s_term", [a]):
        eng.oblige(s2, R.live_of(s2, k[0]).read(k[1]) == 0, "object-terminated-by-the-last-reference:" + tag, assume=False)
        eng.oblige(s2, z3.BoolVal(not any(s2.mem[b].alive for b in blk)), "memory-freed-by-the-last-reference:" + tag, assume=False)


def t_new(lang, op):
    w = World(lang)
    a = Ptr(w.eng.new_obj(w.st, "a", "arg", 16), 0)
    w.holders["a"] = a
    w.pre["a"] = (NULL, NULL)
    if op == "init" or op == "w_init":
        if op == "w_init":
            w.weak["a"] = w.holders.pop("a")
        return w.run("s_init" if op == "init" else op, [a], lambda st, v: no_new(w, st, w.check(st, {"a": (NULL, NULL)}, op), op), op)
    x = R.scalar(w.eng, "x", 32)
    o = live_obj(w, "o") if op in ("initown", "ownToNew") else None
    args = [a] + ([o] if o is not None else []) + ([x] if op.startswith("construct") and lang == "cxx" else [])
    return w.run("s_" + op, args, lambda st, v: created(w, st, v, a, o, x, op), op)


def t_binary(lang, p, op, ka, kb):
    """a.op(b); ka/kb kinds, or relations: both-<kind> (one counter, two references), same-<kind> (b is a), nested-<kind>"""
    w = World(lang)
    eng = w.eng
    src = op.rstrip("m").replace("assign", "").replace("set", "").replace("init", "")
    init, cr, derived, wb = op.startswith("init"), src == "cr", src.endswith("D"), src.startswith("W")
    wa = p == "w_"
    tag = op
    if ka == "both":
        vb = w.value("d", kb)
        va = (vb[0], vb[1])
        a = w.holder("a", va, weak=wa)
        b = None if cr else w.holder("b", vb, weak=wb)
    elif ka == "same":
        vb = w.value("a", kb)
        a = b = w.holder("a", vb, weak=wa)
        if derived or cr:
            raise NotImplementedError
    elif ka == "nested":
        va = w.value("a", "uniq-own")
        a = w.holder("a", va, weak=wa)
        vb = w.value("b", kb)
        m = w.counters[va[0].o][1]
        b = w.holder("b", vb, weak=wb, at=m)
        w.nested[m.o] = b
    else:
        if not init:
            a = w.holder("a", w.value("a", ka), weak=wa)
        vb = w.value("b", kb)
        b = None if cr else w.holder("b", vb, weak=wb)
    if init:
        a = Ptr(eng.new_obj(w.st, "a", "arg", 16), 0)
        (w.weak if wa else w.holders)["a"] = a
        w.pre["a"] = (NULL, NULL)
    exp = {"a": convert(w, vb, derived)}
    args = [a] + (list(vb) if cr else [b])

    def post(st, v):
        no_new(w, st, w.check(st, exp, tag, init=("a",) if init else ()), tag)
    return w.run(p + op, args, post, tag)


def t_unq(op, kind, arg):
    """UnqRef: the object is terminated exactly once and its memory freed when the reference gives it up"""
    w = World("al")
    eng, st = w.eng, w.st
    old = NULL if kind == "null" else live_obj(w, "old")
    new = None if arg is None else NULL if arg == "null" else live_obj(w, "new")
    a = Ptr(eng.new_obj(st, "a", "arg", 8), 0)
    if not op.startswith("init"):
        eng.store(st, a, old, PT)
    args = [a] + ([new] if new is not None else [])

    def live(st, p):
        return st.mem[p.o].alive, R.live_of(st, p.o).read(bv(0))

    def post(st, v):
        gone = op in ("term", "construct", "release", "set")
        if old.o is not None:
            al, lv = live(st, old)
            eng.oblige(st, z3.And(lv == (0 if gone else 1), z3.BoolVal(al == (not gone))), "old-object-%s:" % ("terminated-once-and-freed" if gone else "kept") + op, assume=False)
        if new is not None and new.o is not None:
            al, lv = live(st, new)
            eng.oblige(st, z3.And(lv == 1, z3.BoolVal(al)), "new-object-kept:" + op, assume=False)
        fresh_heap = [i for i, o in st.mem.items() if o.kind == "heap" and o.alive and i not in w.known]
        if op != "term":
            p = eng.load(st, a, PT)
            if op == "construct":
                ok = fresh_heap == [p.o]
                eng.oblige(st, z3.BoolVal(ok), "object-of:a:" + op, assume=False)
                if ok:
                    eng.oblige(st, z3.And(p.off == 0, R.live_of(st, p.o).read(bv(0)) == 1, z3.UGE(st.mem[p.o].size, bv(4))), "object-constructed:" + op, assume=False)
                return
            e = NULL if op in ("init", "release") else new if op in ("initp", "set") else old
            eng.oblige(st, eng.pcmp(st, "eq", p, e), "object-of:a:" + op, assume=False)
        if op == "null":
            eng.oblige(st, tobool(v) == z3.BoolVal(old.o is None), "result:" + op, assume=False)
        if op == "get":
            eng.oblige(st, eng.pcmp(st, "eq", v, old), "result:" + op, assume=False)
        no_new(w, st, fresh_heap, op)
    return w.run("u_" + op, args, post, op)


def tasks():
    T = []
    for lang in ("cxx", "al"):
        cx = lang == "cxx"

        def add(nm, fn, args, f):
            T.append(vrun.Task(("C++ " if cx else "Alusus ") + nm, fn, (lang,) + args, function=("C++ " if cx else "Alusus ") + f))
        for p, c in (("s_", "SrdRef"), ("w_", "WkRef")):
            ops = ["term", "release", "get", "arrow", "rc", "eq", "eqn", "neqn"] + (["alloc", "construct", "own", "own-null", "own-same"] if p == "s_" else [])
            if not cx:
                ops = [o for o in ops if o not in ("arrow", "eq", "neqn") and (p, o) != ("w_", "term")]
            for op in ops:
                for k in KINDS:
                    if k == "raw" and op in ("release", "own-null"):
                        continue        # releasing a reference that never had a counter: left unspecified
                    add("%s.%s/%s" % (c, op, k), t_unary, (p, op, k), "%s.%s" % (c, op))
            srcs = ["S", "Sm", "SD", "SDm", "W", "Wm", "WD", "WDm", "cr"] if cx else ["S", "W", "cr"]
            for s in srcs:
                for k in KINDS:
                    add("%s.init%s/%s" % (c, s, k), t_binary, (p, "init" + s, "", k), "%s(%s)" % (c, s))
            for op in ["assignS", "assignW", "assigncr"] + ["set" + s for s in srcs if s != "cr"]:
                s = op.replace("assign", "").replace("set", "")
                for ka in KINDS:
                    for kb in KINDS:
                        add("%s.%s/%s/%s" % (c, op, ka, kb), t_binary, (p, op, ka, kb), "%s.%s" % (c, op))
                for k in ["shared-single", "shared-own"] + (["uniq-single", "uniq-own"] if s[0] == "W" or s == "cr" or p == "w_" else []):
                    add("%s.%s/both/%s" % (c, op, k), t_binary, (p, op, "both", k), "%s.%s" % (c, op))
                if s in (("S", "Sm") if p == "s_" else ("W", "Wm")):
                    for k in KINDS:
                        add("%s.%s/same/%s" % (c, op, k), t_binary, (p, op, "same", k), "%s.%s" % (c, op))
                if p == "s_" and s in ("S", "Sm", "SD", "SDm"):
                    for k in KINDS:
                        add("%s.%s/nested/%s" % (c, op, k), t_binary, (p, op, "nested", k), "%s.%s" % (c, op))
        for op in ("init", "w_init", "initown", "ownToNew", "allocToNew", "constructToNew"):
            if cx or op != "initown":
                add("SrdRef.%s" % op, t_new, (op,), "SrdRef.%s" % op)
    for op in ("init", "initp", "term", "construct", "release", "set", "null", "get"):
        for k in ["null", "obj"] if not op.startswith("init") else ["null"]:
            for g in ["null", "obj"] if op in ("initp", "set") else [None]:
                T.append(vrun.Task("Alusus UnqRef.%s/%s%s" % (op, k, "/" + g if g else ""), t_unq, (op, k, g), function="Alusus UnqRef.%s" % op))
    return T


def plan():
    import check, search as S

    def search(bad):
        wd = emit.workdir("cxxrefs-search")
        exe = S.build_cxx(vrun.VERIF + "/drivers/cxxrefs.cpp", wd, "cxxrefs", [emit.REPO + "/Sources/Srt/Srl"])
        return S.run(exe, 20, header="Srl::SrdRef / WkRef from /repo/Sources/Srt/Srl/refs.h, AddressSanitizer build; driver drivers/cxxrefs.cpp")
    emitted("cxx"), emitted("al")
    return check.Plan(tasks(), search=search, trusted=check.TR_CXX + check.TR_ALUSUS + ["contracts of the C library: malloc, free"],
                      assumptions=["malloc succeeds", "reference counts are below 2^31 - 8", "terminators and destructors of managed objects follow their ghost contracts: they run once and give up at most the references the object itself holds",
                                   "objects taken over by own() come from malloc and have no other owner", "a managed object does not hold a reference to itself (reference cycles)"])


if __name__ == "__main__":
    emitted("cxx"), emitted("al")
    pat = __import__("sys").argv[1:] or [""]
    n = o = 0
    for r in vrun.run_tasks([t for t in tasks() if any(p in t.name for p in pat)], linger=500):
        if r["undecided"] or r["failures"]:
            print(r["name"], r["undecided"], r.get("tb", "")[-900:], [(f["obligation"], f["where"], f["inputs"]) for f in r["failures"]])
        else:
            n += 1
            o += r["obl"]
    print(n, "tasks ok", o)
