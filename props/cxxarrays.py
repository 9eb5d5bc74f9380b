"""Contracts of the C++ Srl::Array (Sources/Srt/Srl/Array.h).  The representation and the element contracts are
those of the Alusus class (props/arrays.py): both have the same memory layout."""
import re
import z3
import irvc, emit, vrun
import arrays as R
from irvc import *


class XSpec(R.Spec):
    cxx = True


XI = XSpec("i_", 4, False, "class.Srl::Array")
XP = XSpec("p_", 4, True, "class.Srl::Array")

_em = {}


def emitted(el):
    if el not in _em:
        _em[el] = emit.cxx_ir(open(vrun.VERIF + "/harness/cxxarray.cpp").read(), "cxxarray%d" % el,
                              extra=["-DEL=%d" % el, "-I" + emit.REPO + "/Sources/Srt/Srl", "-fno-threadsafe-statics"])
    return _em[el]


def find_fn(mod, what):
    pat = {"prepare": r"_ZN3Srl5ArrayI.*E16_prepareToModifyEb", "add": r"_ZN3Srl5ArrayI.*E3addE[^l]*"}[what]
    for n in mod.funcs:
        if re.fullmatch(pat, n):
            return n
    return None


def make_engine(mod, spec, modular=()):
    contracts = dict(R.PROBE)
    contracts["__cxa_atexit"] = lambda eng, st, args, ins: [(st, bv(0, 32))]
    for m in modular:
        n = find_fn(mod, m)
        if n:
            contracts[n] = {"prepare": R.c_prepare, "add": R.c_add}[m](spec)
    eng = Engine(mod, contracts=contracts, alloc_layout=lambda n, e: (R.DATA, spec.es))
    eng.shapes = {spec.tname: R.ArrayShape(spec)}
    if spec.probe:
        eng.on_malloc, eng.on_free, eng.on_realloc, eng.on_move = R.on_malloc, R.on_free, R.on_realloc, R.on_move
        eng.sources = [("one", 8, lambda i: bv(1, 8)), ("zero", 8, lambda i: bv(0, 8))]
    return eng


def statics(eng, st, spec):
    """function-local static dummies: either not yet constructed, or live (arbitrary)"""
    if not spec.probe:
        return
    for n in list(eng.mod.globals):
        if n.startswith("_ZGV"):
            g = fresh("guard", 8)
            gp, dp = eng.gobj(st, n), eng.gobj(st, "_ZZ" + n[4:])
            st.assume(z3.Or(g == 0, g == 1))
            eng.store(st, gp, g, irvc.ir.INT(8))
            st.ghost[R.live_key(dp.o)] = Store(ConstArr(bv(0, 8)), bv(0), g)


def mods(op, modular):
    return R.mods(op, modular)


def elem(c, spec, st, name):
    return R.elem_arg(c, spec, st, name)


def t_one(modf, spec, shape, op, modular=True):
    mod = modf()
    eng = make_engine(mod, spec, mods(op, modular))
    c = R.one(eng, spec, shape)
    statics(eng, c.st, spec)
    c.pre = c.st.copy()
    a, va = c.holders["a"], c.views["a"]
    ln, arr = va
    fn, st = spec.pre + op, c.st
    run, post_ = R.run, R.check_post
    if op == "term":
        def post(st, v):
            del c.holders["a"]
            R.check_post_dropped(c, st, a, op)
        return run(c, fn, [a], post, op)
    if op in ("len", "buf"):
        def post(st, v):
            if op == "len":
                eng.oblige(st, v == ln, "result:getLength", assume=False)
            else:
                eng.oblige(st, v >= ln, "result:getBufSize>=length", assume=False)
            post_(c, st, {}, op)
        return run(c, fn, [a], post, op)
    if op == "reserve":
        n = R.scalar(eng, "n")
        st.assume(n <= R.MAXCAP(spec.es))

        def post(st, v):
            post_(c, st, {}, op)
            d = eng.load(st, a, irvc.ir.PTR)
            if d.o is not None and not isinstance(d.o, tuple):
                eng.oblige(st, R.fields(eng, st, d)[2] >= n, "capacity-reserved", assume=False)
            else:
                eng.oblige(st, n <= 0, "capacity-reserved", assume=False)
        return run(c, fn, [a, n], post, op)
    if op == "add":
        x, xv = elem(c, spec, st, "v")

        def post(st, v):
            post_(c, st, {"a": R.appended(va, xv)}, op)
            R.unshared(eng, st, a, op)
        return run(c, fn, [a, x], post, op)
    if op == "prepare":
        e = fresh("enlarge", 1)

        def post(st, v):
            post_(c, st, {}, op)
            R.unshared(eng, st, a, op, e)
        return run(c, find_fn(mod, "prepare"), [a, e], post, op)
    if op == "insert":
        i = R.scalar(eng, "i")
        x, xv = elem(c, spec, st, "v")
        at = z3.If(z3.And(i >= 0, i < ln), i, ln)
        e = (norm(ln + 1), lambda k: z3.If(k == at, xv, z3.If(z3.ULT(k, at), arr.read(k), arr.read(norm(k - 1)))))
        return run(c, fn, [a, i, x], lambda st, v: post_(c, st, {"a": e}, op), op)
    if op == "remove":
        i = R.scalar(eng, "i")
        inr = z3.And(i >= 0, i < ln)
        e = (z3.If(inr, ln - 1, ln), lambda k: z3.If(z3.And(inr, k >= i), arr.read(norm(k + 1)), arr.read(k)))
        return run(c, fn, [a, i], lambda st, v: post_(c, st, {"a": e}, op), op)
    if op == "clear":
        return run(c, fn, [a], lambda st, v: post_(c, st, {"a": (bv(0), arr.read)}, op), op)
    if op == "find":
        x, xv = elem(c, spec, st, "v")
        eng.preds.append(("neq", lambda i: arr.read(i) != xv))

        def post(st, v):
            k = fresh("sk")
            eng.oblige(st, z3.Or(v == -1, z3.And(v >= 0, v < ln, arr.read(v) == xv)), "result:findPos-is-a-match", assume=False)
            eng.oblige(st, z3.Implies(z3.And(z3.ULT(k, z3.If(v == -1, ln, v))), arr.read(k) != xv), "result:findPos-is-the-first-match", assume=False)
            post_(c, st, {}, op)
        return run(c, fn, [a, x], post, op)
    if op in ("at", "op", "cat", "cop"):
        i = R.scalar(eng, "i")

        def post(st, v):
            d = eng.load(st, a, irvc.ir.PTR)
            inr = z3.And(i >= 0, i < ln)
            if v.o == d.o and d.o is not None:
                eng.oblige(st, z3.And(inr, v.off == R.DATA + i * spec.es), "result:element-address", assume=False)
                if op[0] != "c":
                    eng.oblige(st, R.fields(eng, st, d)[0] == 1, "element-reference-not-into-a-shared-block", assume=False)
            else:
                eng.oblige(st, z3.Not(inr), "result:element-address", assume=False)
                eng.oblige(st, z3.BoolVal(not isinstance(v.o, tuple) and v.o is not None and st.mem[v.o].kind == "global"), "result:out-of-range-gives-dummy", assume=False)
            post_(c, st, {}, op)
        return run(c, fn, [a, i], post, op)
    raise NotImplementedError(op)


def raw(eng, spec, c):
    i = eng.new_obj(c.st, "a", "arg", 8)
    eng.obj_type[i] = irvc.ir.T("named", spec.tname)
    c.holders["a"] = Ptr(i, 0)
    statics(eng, c.st, spec)
    c.pre = c.st.copy()
    return Ptr(i, 0)


def t_init(modf, spec, op, modular=True):
    eng = make_engine(modf(), spec, mods(op, modular))
    c = R.Case(eng, spec)
    a = raw(eng, spec, c)
    if op == "init":
        return R.run(c, spec.pre + op, [a], lambda st, v: R.check_post(c, st, {"a": (bv(0), ConstArr(bv(0, spec.es * 8)).read)}, op, init=("a",)), op)
    n = R.scalar(eng, "n")
    x, xv = elem(c, spec, c.st, "v")
    c.st.assume(n <= R.MAXCAP(spec.es) // 4)
    c.pre = c.st.copy()
    eng.sources = getattr(eng, "sources", []) + [("val", 32, lambda i: xv)]
    e = (z3.If(n > 0, n, bv(0)), lambda k: xv)
    return R.run(c, spec.pre + op, [a, n, x], lambda st, v: R.check_post(c, st, {"a": e}, op, init=("a",)), op)


def t_initc(modf, spec, shape):
    eng = make_engine(modf(), spec)
    c = R.one(eng, spec, shape, "b")
    raw(eng, spec, c)
    vb = c.views["b"]
    return R.run(c, spec.pre + "initc", [c.holders["a"], c.holders["b"]], lambda st, v: R.check_post(c, st, {"a": (vb[0], vb[1].read)}, "initc", init=("a",)), "initc")


def t_two(modf, spec, shape, op, modular=True):
    eng = make_engine(modf(), spec, mods(op, modular))
    c = R.two(eng, spec, shape)
    statics(eng, c.st, spec)
    c.pre = c.st.copy()
    a, b = c.holders["a"], c.holders["b"]
    vb = c.views["b"]
    e = (vb[0], vb[1].read)
    exp = {"a": e}
    if a.o == b.o:
        exp["b"] = e
    return R.run(c, spec.pre + op, [a, b], lambda st, v: R.check_post(c, st, exp, op), op)


def tasks(modular=True):
    T = []
    for el, spec, nm in ((0, XI, "Array<Int>"), (1, XP, "Array<Probe>")):
        modf = lambda el=el: emitted(el)[0]
        ops1 = ["prepare", "term", "reserve", "add", "insert", "remove", "clear", "find", "len", "buf", "at", "op", "cat", "cop"]
        if find_fn(modf(), "prepare") is None:
            ops1.remove("prepare")

        def add(op, sh, fn, args):
            T.append(vrun.Task("%s.%s%s" % (nm, op, "/" + sh if sh else ""), fn, args, function="%s.%s" % (nm, op), weight=R.WEIGHT.get(op, 1)))
        for op in ops1:
            for sh in R.ONE:
                add(op, sh, t_one, (modf, spec, sh, op, modular))
        for op in ("init", "initn"):
            add(op, "", t_init, (modf, spec, op, modular))
        for sh in R.ONE:
            add("initc", sh, t_initc, (modf, spec, sh))
        for op in ("assign", "opassign"):
            for sh in R.TWO:
                add(op, sh, t_two, (modf, spec, sh, op, modular))
    return T


def plan():
    import check, search as S

    def search(bad):
        wd = emit.workdir("cxxarray-search")
        exe = S.build_cxx(vrun.VERIF + "/drivers/cxxarray.cpp", wd, "cxxarray", [emit.REPO + "/Sources/Srt/Srl"])
        return S.run(exe, 20, header="Srl::Array from /repo/Sources/Srt/Srl/Array.h, AddressSanitizer build; driver drivers/cxxarray.cpp")

    def retry(bad):
        names = {r["name"] for r in bad}
        pre = any(".prepare" in n for n in names)
        return [t for t in tasks(False) if ".prepare" not in t.name and (pre or t.name in names)]
    for el in (0, 1):
        emitted(el)
    return check.Plan(tasks(), search=search, retry=retry, trusted=check.TR_CXX + ["contracts of the C library: malloc, realloc, free, memmove; of the C++ runtime: __cxa_atexit"],
                      assumptions=["malloc/realloc succeed for requests up to 2^46 bytes; lengths are below that limit (machine arithmetic is exact, 64-bit two's complement)",
                                   "reference counts of shared blocks are below 2^62",
                                   "element copies, assignments, comparisons and destructions follow the ghost contract of the Probe class (they do not throw and do not touch the array)",
                                   "function-local static dummies are initialised by one thread"])


if __name__ == "__main__":
    for el in (0, 1):
        emitted(el)
    pat = __import__("sys").argv[1:] or [""]
    for r in vrun.run_tasks([t for t in tasks() if any(p in t.name for p in pat)], linger=500):
        if r["undecided"] or r["failures"]:
            print(r["name"], r["undecided"], r.get("tb", "")[-600:], [(f["obligation"], f["inputs"]) for f in r["failures"]])
        else:
            print("ok", r["name"], r["obl"], "%.1f" % r["wall"])
