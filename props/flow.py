"""Control flow and object lifetime of the code the repository's compiler emits.

Every program of the family below is compiled by the repository's own compiler.  Its source is also read as a reference
automaton: the sequences of external calls (with their arguments, for every outcome of every condition) that the language
defines.  The two are compared for all executions by lib/typestate.py: every external call is an obligation (this call,
with these arguments, is what the source does next), loop invariants are inferred and are inductive."""
import os, random, subprocess, time
import emit, vrun, typestate as ts
from typestate import N, Bad, Outside


class A:
    """node of a program's syntax tree (identity is its site)"""
    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return "%s%r" % (self.k, self.a)


# ------------------------------------------------------------------ classes
# name -> (own init events?, own terminate?, members [(name, class, ctor argument or None)])
PRELUDE = """
  @expname[c1] function c1(): Bool;
  @expname[c2] function c2(): Bool;
  @expname[n1] function n1(): Int;
  @expname[v1] function v1(k: Int): Int;
  @expname[act] function act(k: Int);
  @expname[actb] function actb(b: Bool);
  @expname[act2] function act2(k: Int, l: Int);
  @expname[t_init0] function t_init0(p: ptr);
  @expname[t_init1] function t_init1(p: ptr, k: Int);
  @expname[t_copy] function t_copy(p: ptr, q: ptr);
  @expname[t_term] function t_term(p: ptr);
  @expname[t_assign] function t_assign(p: ptr, q: ptr);
  @expname[t_ok] function t_ok(p: ptr): Bool;
  @expname[t_val] function t_val(p: ptr): Int;
  class Ob {
    def x: Int;
    def y: Int[64];
    handler this~init() { t_init0(this~ptr) }
    handler this~init(k: Int) { t_init1(this~ptr, k) }
    handler this~init(o: ref[Ob]) { t_copy(this~ptr, o~ptr) }
    handler this~terminate() { t_term(this~ptr) }
    handler this = ref[Ob] { t_assign(this~ptr, value~ptr) }
    handler this.ok(): Bool { return t_ok(this~ptr) }
    handler this.val(): Int { return t_val(this~ptr) }
    handler this.meet(o: ref[Ob]) { both(this, o) }
  }
  @expname[p_init0] function p_init0(p: ptr);
  @expname[p_init1] function p_init1(p: ptr, k: Int);
  @expname[p_copy] function p_copy(p: ptr, q: ptr);
  @expname[p_term] function p_term(p: ptr);
  class Pair {
    def n: Int;
    def a: Ob;
    def w: Word[8];
    def b: Ob(7);
    handler this~init() { p_init0(this~ptr) }
    handler this~init(k: Int) { p_init1(this~ptr, k) }
    handler this~init(o: ref[Pair]) { p_copy(this~ptr, o~ptr) }
    handler this~terminate() { p_term(this~ptr) }
  }
  class Auto { def a: Ob; def m: Int[16]; def b: Ob(9); }
  @expname[n_term] function n_term(p: ptr);
  class Nest {
    def h: Float;
    def q: Pair;
    def u: Auto;
    def r: Pair(5);
    handler this~terminate() { n_term(this~ptr) }
  }
  @expname[m_term] function m_term(p: ptr);
  @expname[tellm] function tellm(p: ref[Tm]);
  class Tm { def z: Int[8]; handler this~terminate() { m_term(this~ptr) } }
  class Wrap { def c: Char; def t: Tm; }
  @expname[i_init0] function i_init0(p: ptr);
  @expname[telli] function telli(p: ref[In]);
  class In { def z: Int; handler this~init() { i_init0(this~ptr) } }
  class Box { def c: Char; def t: Tm; def s: In; }
  class Mix { def i: In; def o: Ob; handler this~terminate() { x_term(this~ptr) } @injection def inj: Tm; }
  @expname[x_term] function x_term(p: ptr);
  class Der { @injection def base: Ob(4); def extra: Int[16]; }
  class Ini { def a: Ob(1); act(77); def n: Int; act(78); def b: Ob(3); }
  @expname[vact] function vact(k: Int, args: ...any);
  @expname[mk] function mk(k: Int): Ob;
  class Mex { def n: Int; def a: Ob(mk(31)); def b: Ob; def c: Ob(mk(32)); }
  @expname[byval] function byval(o: Ob);
  @expname[touch] function touch(o: ref[Ob]);
  @expname[both] function both(o: ref[Ob], q: ref[Ob]);
  @expname[pick] function pick(o: ref[Ob], q: ref[Ob]): ref[Ob];
  @expname[tellp] function tellp(o: ref[Pair]);
"""
CLS = {"Ob": ("t", [], "t_term"), "Pair": ("p", [("a", "Ob", None), ("b", "Ob", 7)], "p_term"),
       "Auto": (None, [("a", "Ob", None), ("b", "Ob", 9)], None),
       "Nest": (None, [("q", "Pair", None), ("u", "Auto", None), ("r", "Pair", 5)], "n_term"),
       "Tm": (None, [], "m_term"), "Wrap": (None, [("t", "Tm", None)], None), "Box": (None, [("t", "Tm", None), ("s", "In", None)], None), "In": ("i", [], None),
       "Mix": (None, [("i", "In", None), ("o", "Ob", None), ("inj", "Tm", None)], "x_term"),
       "Der": (None, [("base", "Ob", 4)], None), "Ini": (None, [("a", "Ob", 1), (None, None, 77), (None, None, 78), ("b", "Ob", 3)], None),
       "Mex": (None, [("a", "Ob", ("mk", 31)), ("b", "Ob", None), ("c", "Ob", ("mk", 32))], None)}
OFF = {"Ob": {}, "Pair": {"a": 8, "b": 32}, "Auto": {"a": 0, "b": 24}, "Nest": {"q": 8, "u": 56, "r": 96}, "Tm": {}, "In": {}, "Wrap": {"t": 1}, "Box": {"t": 1, "s": 4}, "Mix": {"i": 0, "o": 8, "inj": 24}, "Der": {"base": 0}, "Ini": {"a": 0, "b": 24}, "Mex": {"a": 8, "b": 24, "c": 40}}
SIZE = {"Ob": 16, "Pair": 48, "Auto": 40, "Nest": 144, "Tm": 1, "In": 4, "Wrap": 2, "Box": 8, "Mix": 32, "Der": 24, "Ini": 40, "Mex": 56}
# external functions: argument kinds (p pointer, i int), result (None, bool, int, val, ref)
EXT = {"c1": ("", "bool"), "c2": ("", "bool"), "n1": ("", "int"), "v1": ("i", "val"), "act": ("i", None), "actb": ("b", None), "act2": ("ii", None), "t_init0": ("p", None),
       "t_init1": ("pi", None), "t_copy": ("pp", None), "t_term": ("p", None), "t_assign": ("pp", None), "t_ok": ("p", "bool"), "t_val": ("p", "val"),
       "p_init0": ("p", None), "p_init1": ("pi", None), "p_copy": ("pp", None), "p_term": ("p", None), "n_term": ("p", None),
       "mk": ("pi", None), "byval": ("p", None), "touch": ("p", None), "both": ("pp", None), "pick": ("pp", "ref"), "tellp": ("p", None), "m_term": ("p", None), "tellm": ("p", None),
       "i_init0": ("p", None), "telli": ("p", None), "x_term": ("p", None), "vact": ("i.i", None)}
TELL = {"Ob": "touch", "Pair": "tellp", "Tm": "tellm", "In": "telli"}


PRIM = {"Int": 4, "Char": 1, "Float": 4, "Int[64]": 8, "Word[16]": 2, "Bool": 1, "ptr[Int]": 8, "Float[64]": 8, "array[Int[16], 3]": (6, 2)}
ALIGN = {"Ob": 8, "Pair": 8, "Auto": 8, "Nest": 8, "Tm": 1, "In": 4, "Wrap": 1, "Box": 4, "Mix": 8, "Der": 8, "Ini": 8, "Mex": 8}


def creations(c):
    return len(ctor((c, "x"), ()))


def random_class(rng, nm, pool):
    """adds class nm (members of the classes of pool) to the tables; -> its text"""
    while True:
        text, mem, off, at, al = [], [], {}, 0, 1
        inj = rng.random() < 0.3
        for k in range(rng.randint(1, 5)):
            y = rng.random()
            if y < 0.4:
                t = rng.choice(list(PRIM))
                n = PRIM[t]
                n, a = n if isinstance(n, tuple) else (n, n)
                text.append("def f%d: %s;" % (k, t))
            elif y < 0.9:
                c = rng.choice(pool)
                n, a = SIZE[c], ALIGN[c]
                arg = rng.randint(1, 99) if CLS[c][0] in ("t", "p") and rng.random() < 0.4 else None
                if c == "Ob" and rng.random() < 0.15:
                    arg = ("mk", rng.randint(1, 99))
                i = "@injection " if inj and rng.random() < 0.5 else ""
                text.append("%sdef m%d: %s%s;" % (i, k, c, "" if arg is None else "(mk(%d))" % arg[1] if isinstance(arg, tuple) else "(%d)" % arg))
                mem.append(("m%d" % k, c, arg))
            else:
                v = rng.randint(1, 99)
                text.append("act(%d);" % v)
                mem.append((None, None, v))
                continue
            at = (at + a - 1) // a * a
            off[text[-1].split(":")[0].split()[-1]] = at
            at += n
            al = max(al, a)
        pre, t = rng.choice((None, None, "p", "p", "i")), rng.choice((None, None, "p_term", "n_term", "x_term"))
        if at == 0 or at > 200:
            continue
        CLS[nm], OFF[nm], SIZE[nm], ALIGN[nm] = (pre, mem, t), {m[0]: off[m[0]] for m in mem if m[0]}, (at + al - 1) // al * al, al
        # an object is recognised by its creation; without one, the only termination must show where it is
        if not [e for e in ctor((nm, "x"), ()) if e[2] is not None] and len(dtor((nm, "x"))) > 1:
            continue
        break
    if pre:
        text.append("handler this~init() { %s_init0(this~ptr) }" % pre)
    if pre == "p":
        text.append("handler this~init(k: Int) { p_init1(this~ptr, k) }")
        text.append("handler this~init(o: ref[%s]) { p_copy(this~ptr, o~ptr) }" % nm)
    if t:
        text.append("handler this~terminate() { %s(this~ptr) }" % t)
    if rng.random() < 0.3:
        rng.shuffle(text[-2:])
    return "  class %s { %s }\n" % (nm, " ".join(text))


# objects are tuples (class, site or name) for whole objects, (class, whole or part, field) for members
def member(o, f):
    return (dict((m[0], m[1]) for m in CLS[o[0]][1])[f], o, f)


def locate(o):
    """(whole object, offset in it)"""
    d = 0
    while len(o) == 3:
        d += OFF[o[1][0]][o[2]]
        o = o[1]
    return o, d


def within(o):
    while len(o) == 3:
        o = o[1]
        yield o


def ctor(o, how):
    """events constructing o; how: () default, (int,) or ("copy", object)"""
    pre, mem, _ = CLS[o[0]]
    ev = []
    for f, c, arg in mem:
        if f is None:   # a statement of the class body
            ev.append(("act", (arg,), None))
        else:
            if isinstance(arg, tuple):      # def f: Ob(mk(k)), copied from a temporary
                tmp = (c, ("made for", o, f))
                ev.append(("mk", (("o", tmp), arg[1]), tmp))
                ev += ctor((c, o, f), ("copy", tmp))
                ev.append((None, tmp, None))    # its end
            else:
                ev += ctor((c, o, f), () if arg is None else (arg,))
    if pre:
        if how == ():
            ev.append((pre + "_init0", (("o", o),), o))
        elif how[0] == "copy":
            ev.append((pre + "_copy", (("o", o), ("o", how[1])), o))
        else:
            ev.append((pre + "_init1", (("o", o), how[0]), o))
    return ev


def dtor(o):
    """set of (event, object)"""
    _, mem, t = CLS[o[0]]
    s = {(t, o)} if t else set()
    for f, c, _ in mem:
        if f is not None:
            s |= dtor((c, o, f))
    return s


# ------------------------------------------------------------------ the reference machine
class W:
    """remaining work: an interned linked list of items"""
    __slots__ = ("it", "rest")
    table = {}

    def __new__(cls, it, rest):
        k = (it, rest)
        w = cls.table.get(k)
        if w is None:
            w = cls.table[k] = object.__new__(cls)
            w.it, w.rest = it, rest
        return w

    def __init__(self, it, rest):
        pass


def seq(items, w):
    for x in reversed(items):
        w = W(x, w)
    return w


class Ref:
    """states: (work, scopes, env); work is a linked list of items"""
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.ids = {}

    def entry(self):
        f = self.prog
        W.table = {}
        items = [("ctor", (cls, name), ("copy", (cls, "arg " + name))) for name, cls, byval in f.params if byval]
        return self.node((seq(items + [("block", tuple(f.body)), ("end",)], None), ((),), ()))

    def node(self, st):
        n = self.memo.get(st)
        if n is None:
            n = self.memo[st] = N("nop")
            self.fill(n, st)
        return n

    def fill(self, n, st):
        """run silent steps until an event"""
        k = 0
        while True:
            k += 1
            if k > 5000:
                n.kind = "div"
                return
            r = self.step(*st)
            if r[0] == "go":
                st = r[1]
                continue
            if r[0] == "ev":
                _, name, args, bind, res, cont = r
                n.kind, n.name, n.args, n.bind, n.res = "call", name, args, bind, res
                n.succ = cont
            elif r[0] == "grp":
                if not r[1]:
                    st = r[2]
                    continue
                n.kind, n.args, n.succ = "grp", tuple(sorted(r[1], key=repr)), (lambda v, s=r[2]: s)
            elif r[0] == "ret":
                n.kind, n.args = "ret", (r[1],) if r[1] is not None else ()
            return

    def step(self, work, scopes, env):
        if work is None:
            raise Outside("reference machine ran out of work")
        it, rest = work.it, work.rest
        k = it[0]

        def go(w, s=scopes, e=env):
            return ("go", (w, s, e))

        def ev(name, args, w, bind=None, res=None, s=scopes):
            return ("ev", name, args, bind, res, lambda v: (w, s, env))

        if k == "push":
            return go(rest, scopes + ((),))
        if k == "pop":
            dead = set()
            for o in scopes[-1]:
                dead |= dtor(o)
            e2 = tuple(x for x in env if not (isinstance(x[0], tuple) and x[0][0] == "pick")) if len(it) > 1 else env
            return ("grp", dead, (rest, scopes[:-1], e2))
        if k == "unwind":
            dead = set()
            for s in scopes[it[1]:]:
                for o in s:
                    dead |= dtor(o)
            return ("grp", dead, (rest, scopes[:it[1]], env))
        if k == "end":
            dead = set()
            for s in scopes:
                for o in s:
                    dead |= dtor(o)
            return ("grp", dead, (W(("return", it[1] if len(it) > 1 else None), None), (), ()))
        if k == "return":
            return ("ret", it[1])
        if k == "cd":
            return go(W(("c", it[1], rest, rest), None))
        if k == "cb":
            return go(W(("c", it[1], W(("call", "actb", (1,)), rest), W(("call", "actb", (0,)), rest)), None))
        if k == "own":
            d = len(scopes) - it[2]
            return go(rest, scopes[:d] + (scopes[d] + (it[1],),) + scopes[d + 1:])
        if k == "kill":
            return ("grp", dtor(it[1]), (rest, scopes, env))
        if k == "raw":
            return ev(it[1], it[2], rest, bind=it[3])
        if k in ("call", "ctor", "valcall", "okc", "pick"):
            used = {a[1][1] for a in (it[1] if k == "pick" else [("o", it[1])] if k == "okc" else [("o", it[2][1])] if k == "ctor" and it[2] and it[2][0] == "copy" else it[2]) if isinstance(a, tuple) and a[0] == "o" and a[1][0] == "dyn"}
            full = env
            if used:
                env = tuple(x for x in env if not (isinstance(x[0], tuple) and x[0][0] == "pick" and x[0][1] in used))
        else:
            full = env
        if k == "ctor":
            evs = ctor(it[1], it[2] if not (it[2] and it[2][0] == "copy") else ("copy", self.obj(it[2][1], full)))
            return go(seq([("raw",) + e if e[0] else ("kill", e[1]) for e in evs] + ([] if it[3:] == (0,) else [("own", it[1], it[3] if len(it) > 3 else 1)]), rest), scopes, env)
        if k == "call":     # args may contain ("o", object or dyn)
            args = tuple(("o", self.obj(a[1], full)) if isinstance(a, tuple) and a[0] == "o" else a for a in it[2])
            return ev(it[1], args, rest, bind=it[3] if len(it) > 3 else None)
        if k == "block":
            return go(W(("push",), seq([("s", s) for s in it[1]], W(("pop",), rest))))
        if k == "c":
            return self.cond(it, scopes, env, go, ev)
        if k == "jump":
            return go(it[1])
        if k == "set":
            e = dict(env)
            e[it[1]] = it[2]
            return go(rest, scopes, tuple(sorted(e.items(), key=repr)))
        if k == "inc":
            e = dict(env)
            e[it[1]] = e[it[1]] + it[2]
            return go(rest, scopes, tuple(sorted(e.items(), key=repr)))
        if k == "valcall":   # evaluate v1(k) and remember the opaque value
            args = tuple(("o", self.obj(a[1], full)) if isinstance(a, tuple) and a[0] == "o" else dict(env)[a[1]] if isinstance(a, tuple) and a[0] == "v" else a for a in it[2])

            def cont(v):
                e = dict(env)
                for a in it[2]:
                    if isinstance(a, tuple) and a[0] == "v":
                        e.pop(a[1], None)
                e[it[3]] = v
                return (rest, scopes, tuple(sorted(e.items(), key=repr)))
            return ("ev", it[1], args, None, ("val", it[3]), cont)
        if k == "pick":
            args = tuple(("o", self.obj(a[1], full)) for a in it[1])

            def cont(v):
                e = dict(env)
                e[("pick", it[2])] = v
                return (rest, scopes, tuple(sorted(e.items(), key=repr)))
            return ("ev", "pick", args, None, "ref", cont)
        if k == "okc":
            return ("ev", "t_ok", (("o", self.obj(it[1], full)),), None, "bool", lambda v: (it[2] if v else it[3], scopes, env))
        if k == "loopend":
            return go(rest)
        if k == "vcall":     # call with remembered values
            e = dict(env)
            args = tuple(e[a[1]] if isinstance(a, tuple) and a[0] == "v" else a for a in it[2])
            for a in it[2]:
                if isinstance(a, tuple) and a[0] == "v":
                    e.pop(a[1], None)
            e2 = tuple(sorted(e.items(), key=repr))
            return ("ev", it[1], args, None, None, lambda v: (rest, scopes, e2))
        if k == "vret":
            e = dict(env)
            v = e.pop(it[1])
            dead = set()
            for s in scopes:
                for o in s:
                    dead |= dtor(o)
            return ("grp", dead, (W(("return", v), None), (), ()))
        if k == "loophead":
            return self.loop(it, scopes, env, go)
        assert k == "s", k
        return self.stmt(it[1], rest, scopes, env, go)

    def obj(self, o, env):
        if o[0] == "dyn":
            return dict(env)[("pick", o[1])]
        return o

    # object expressions -> (items, object)
    def oexpr(self, e):
        k = e.k
        if k == "var":
            return [], e.a[0]
        if k == "mem":
            it, o = self.oexpr(e.a[0])
            return it, member(o, e.a[1])
        if k == "new":      # Ob(k) / Ob() / Pair(k)
            o = (e.a[0], "temporary %d" % self.site(e))
            return [("ctor", o, () if e.a[1] is None else (e.a[1],))], o
        if k == "mk":
            o = ("Ob", "temporary %d" % self.site(e))
            return [("call", "mk", (("o", o), e.a[0]), o), ("own", o, 1)], o
        if k == "base":
            it, o = self.oexpr(e.a[0])
            return it, member(o, "base")
        if k == "this":
            return [], self.oexpr(e.a[0])[1]
        if k == "pick":
            i1, a = self.oexpr(e.a[0])
            i2, b = self.oexpr(e.a[1])
            return i1 + i2 + [("pick", (("o", a), ("o", b)), e)], ("dyn", e)
        raise AssertionError(k)

    def vexpr(self, x):
        """value expression -> (items, value)"""
        if not isinstance(x, A):
            return [], x
        if x.k == "v1":
            i, v = self.vexpr(x.a[0])
            return i + [("valcall", "v1", (v,), x)], ("v", x)
        i, o = self.oexpr(x.a[0])
        return i + [("valcall", "t_val", (("o", o),), x)], ("v", x)

    def site(self, e):
        return self.ids.setdefault(e, len(self.ids) + 1)

    def cond(self, it, scopes, env, go, ev):
        _, e, T, F = it
        k = e.k
        if k in ("c1", "c2"):
            return ("ev", k, (), None, "bool", lambda v: (T if v else F, scopes, env))
        if k == "n1":
            return ("ev", "n1", (), None, "int", lambda v: (T if v else F, scopes, env))
        if k == "lit":
            return go(T if e.a[0] else F)
        if k == "not":
            return go(W(("c", e.a[0], F, T), None))
        if k == "and":
            return go(W(("c", e.a[0], W(("push",), W(("c", e.a[1], W(("pop",), T), W(("pop",), F)), None)), F), None))
        if k == "or":
            return go(W(("c", e.a[0], T, W(("push",), W(("c", e.a[1], W(("pop",), T), W(("pop",), F)), None))), None))
        if k == "bv":
            return go(T if dict(env)[e.a[0]] else F)
        if k == "lt":
            return go(T if dict(env)[e.a[0]] < e.a[1] else F)
        if k == "ok":
            items, o = self.oexpr(e.a[0])
            return go(seq(items, W(("okc", o, T, F), None)))
        raise AssertionError(k)

    def loop(self, it, scopes, env, go):
        _, s, out, depth = it
        # out: work after the loop; depth: number of scopes outside the body
        body = s.a[-1]
        cond = s.a[0] if s.k == "while" else s.a[1]
        again = W(it, None)
        upd = again if s.k == "while" else seq([("push",)] + self.simple(s.a[2]) + [("pop", 1)], again)
        inner = W(("push",), seq([("s", x) for x in body], W(("pop",), W(("loopend", out, upd, depth), upd))))
        return go(W(("push",), W(("c", cond, W(("pop", 1), inner), W(("pop", 1), out)), None)))

    def simple(self, s):
        """expression statements -> items (without the statement's own scope)"""
        k = s.k
        if k in ("act", "fpact"):
            return [("call", "act", (s.a[0],))]
        if k == "condst":
            return [("cd", s.a[0])]
        if k == "actb":
            return [("cb", s.a[0])]
        if k in ("act2", "vact", "actv"):
            items, args = [], []
            for x in s.a:
                i, v = self.vexpr(x)
                items += i
                args.append(v)
            return items + [("vcall", "act" if k == "actv" else k, tuple(args))]
        if k == "meet":     # the arguments are evaluated before the object the method belongs to
            i2, b = self.oexpr(s.a[1])
            i1, a = self.oexpr(s.a[0])
            return i2 + i1 + [("call", "both", (("o", a), ("o", b)))]
        if k == "init":
            return [("ctor", self.oexpr(s.a[0])[1], () if s.a[1] is None else (s.a[1],), 0)]
        if k == "term":
            return [("call", "t_term", (("o", self.oexpr(s.a[0])[1]),))]
        if k in ("touch", "byval", "both", "tellp", "tellm", "telli"):
            items, args = [], []
            for x in s.a:
                i, o = self.oexpr(x)
                items += i
                args.append(("o", o))
            return items + [("call", k, tuple(args))]
        if k == "asgn":
            # the target is evaluated first, then the value
            i1, o = self.oexpr(s.a[0])
            i2, v = self.oexpr(s.a[1])
            return i1 + i2 + [("call", "t_assign", (("o", o), ("o", v)))]
        if k == "iset":
            return [("set", s.a[0], s.a[1])]
        if k == "iinc":
            return [("inc", s.a[0], 1)]
        if k == "seq":
            return [x for y in s.a[0] for x in self.simple(y)]
        raise AssertionError(k)

    def stmt(self, s, rest, scopes, env, go):
        k = s.k
        if k == "idef":
            return go(W(("set", s.a[0], s.a[1]), rest)) if s.a[1] is not None else go(rest)
        if k in ("bdef", "bset"):
            b, c = s.a
            T, F = [W(("pop", 1), W(("set", b, v), rest)) for v in (1, 0)]
            return go(W(("push",), W(("c", c, T, F), None)))
        if k == "def":
            o, how = s.a
            if how[0] == "default":
                return go(W(("ctor", o, ()), rest))
            if how[0] == "arg":
                return go(W(("ctor", o, (how[1],)), rest))
            items, v = self.oexpr(how[1])
            if how[0] == "copy":
                return go(seq([("push",)] + items + [("ctor", o, ("copy", v), 2), ("pop", 1)], rest))
            # = value: construct, then assign in a statement of its own
            return go(seq([("ctor", o, ()), ("push",)] + items + [("call", "t_assign", (("o", o), ("o", v))), ("pop", 1)], rest))
        if k == "block":
            return go(W(("block", tuple(s.a[0])), rest))
        if k == "usein":
            return go(W(("push",), seq(self.oexpr(s.a[0])[0] + [("block", tuple(s.a[1]))], W(("pop", 1), rest))))
        if k == "if":
            c, th, el = s.a
            T = W(("push",), seq([("s", x) for x in th], W(("pop",), rest)))
            F = rest if el is None else W(("push",), seq([("s", x) for x in el], W(("pop",), rest)))
            return go(W(("push",), W(("c", c, W(("pop", 1), T), W(("pop", 1), F)), None)))
        if k == "while":
            return go(W(("loophead", s, rest, len(scopes)), None))
        if k == "for":
            init = [] if s.a[0] is None else [("push",)] + self.simple(s.a[0]) + [("pop", 1)]
            return go(seq(init, W(("loophead", s, rest, len(scopes)), None)))
        if k in ("break", "cont"):
            # the enclosing loops are found in the remaining work: every loop body leaves a mark
            n = s.a[0]
            out, upd, depth = self.find(rest, s, n)
            return go(W(("unwind", depth), out if k == "break" else upd))
        if k == "ret":
            e = s.a[0]
            if e is None:
                return go(W(("end",), None))
            if self.prog.ret == "Bool":
                return go(W(("push",), W(("c", e, W(("end", 1), None), W(("end", 0), None)), None)))
            if self.prog.ret == "Int":
                if isinstance(e, int):
                    return go(W(("end", e), None))
                i, _ = self.vexpr(e)
                return go(seq([("push",)] + i, W(("vret", e), None)))
            items, v = self.oexpr(e)
            return go(seq([("push",)] + items + [("ctor", (self.prog.ret, "result"), ("copy", v), 0)], W(("end",), None)))
        return go(W(("push",), seq(self.simple(s), W(("pop", 1), rest))))

    def find(self, work, s, n):
        while work is not None:
            it = work.it
            if it[0] == "loopend":
                n -= 1
                if n == 0:
                    return it[1], it[2], it[3]
                work = it[1]
            else:
                work = work.rest
        raise Outside("no enclosing loop")


# ------------------------------------------------------------------ program text
class Prog:
    def __init__(self, params, ret, body):
        self.params, self.ret, self.body = params, ret, body
        self.name = None

    def source(self):
        ps = ", ".join("%s: %s" % (n, c if v else "ref[%s]" % c) for n, c, v in self.params)
        t = stmts_text(self.body, 1)
        fp = ""
        if "fp_mk(" in t:
            fp += "  def fp_mk: ptr[function (k: Int): Ob]; fp_mk = mk~ptr;\n"
        if "fp_act(" in t:
            fp += "  def fp_act: ptr[function (k: Int)]; fp_act = act~ptr;\n"
        return "@expname[%s] func %s(%s)%s {\n%s%s\n}" % (self.name, self.name, ps, ": " + self.ret if self.ret else "", fp, t)


def name(o):
    return o[1][4:] if o[1].startswith("arg ") else o[1]


def otext(e):
    k = e.k
    if k == "var":
        return name(e.a[0])
    if k == "mem":
        return "%s.%s" % (otext(e.a[0]), e.a[1])
    if k == "new":
        return "%s(%s)" % (e.a[0], "" if e.a[1] is None else e.a[1])
    if k == "mk":
        return "%smk(%d)" % ("fp_" if len(e.a) > 1 else "", e.a[0])
    if k == "base":
        return otext(e.a[0])
    if k == "this":
        return "this"
    return "pick(%s, %s)" % (otext(e.a[0]), otext(e.a[1]))


PREC = {"or": 1, "and": 1, "not": 3}   # and, or: one level, left to right


def ctext(e, p=0):
    k = e.k
    if k in ("c1", "c2"):
        return k + "()"
    if k == "n1":
        return "n1() != 0" if p == 0 else "(n1() != 0)"
    if k == "lit":
        return "true" if e.a[0] else "false"
    if k == "bv":
        return e.a[0]
    if k == "lt":
        t = "%s < %d" % e.a
        return t if p == 0 else "(%s)" % t
    if k == "ok":
        return otext(e.a[0]) + ".ok()"
    t = "not " + ctext(e.a[0], 4) if k == "not" else "%s %s %s" % (ctext(e.a[0], PREC[k]), k, ctext(e.a[1], PREC[k] + 1))
    return "(%s)" % t if p > PREC[k] else t


def vtext(e):
    return str(e) if isinstance(e, int) else "v1(%s)" % vtext(e.a[0]) if e.k == "v1" else otext(e.a[0]) + ".val()"


def etext(s):
    k = s.k
    if k == "act":
        return "act(%d)" % s.a
    if k in ("act2", "vact", "actv"):
        return "%s(%s)" % ("act" if k == "actv" else k, ", ".join(vtext(x) for x in s.a))
    if k == "meet":
        return "%s.meet(%s)" % tuple(otext(x) for x in s.a)
    if k == "init":
        return "%s~init(%s)" % (otext(s.a[0]), "" if s.a[1] is None else s.a[1])
    if k == "term":
        return "%s~terminate()" % otext(s.a[0])
    if k == "usein":
        return "%s.{\n%s\n}" % (otext(s.a[0]), stmts_text(s.a[1], 2))
    if k == "condst":
        t = ctext(s.a[0])
        return "not (%s)" % t if t.startswith("(") else t    # "(" would apply to what stands before
    if k == "actb":
        return "actb(%s)" % ctext(s.a[0])
    if k == "fpact":
        return "fp_act(%d)" % s.a
    if k in ("touch", "byval", "both", "tellp", "tellm", "telli"):
        return "%s(%s)" % (k, ", ".join(otext(x) for x in s.a))
    if k == "asgn":
        return "%s = %s" % (otext(s.a[0]), otext(s.a[1]))
    if k == "iset":
        return "%s = %d" % s.a
    if k == "iinc":
        return "++%s" % s.a
    if k == "seq":
        return "(%s)" % ", ".join(etext(x) for x in s.a[0])
    raise AssertionError(k)


def stmts_text(ss, d):
    return "\n".join("  " * d + stext(s, d) for s in ss)


def body_text(ss, d, braces):
    if not braces and len(ss) == 1 and ss[0].k not in ("def", "idef", "bdef", "if") and not stext(ss[0], d).startswith("("):
        return stext(ss[0], d)
    return "{\n%s\n%s}" % (stmts_text(ss, d + 1), "  " * d)


def stext(s, d=0):
    k = s.k
    br = id(s) % 3 != 0 if not hasattr(s, "braces") else s.braces
    if k == "idef":
        return "def %s: Int%s;" % (s.a[0], "" if s.a[1] is None else " = %d" % s.a[1])
    if k == "bdef":
        return "def %s: Bool = %s;" % (s.a[0], ctext(s.a[1]))
    if k == "bset":
        return "%s = %s;" % (s.a[0], ctext(s.a[1]))
    if k == "def":
        o, how = s.a
        if how[0] == "default":
            return "def %s: %s;" % (o[1], o[0])
        if how[0] == "arg":
            return "def %s: %s(%d);" % (o[1], o[0], how[1])
        return ("def %s: %s(%s);" if how[0] == "copy" else "def %s: %s = %s;") % (o[1], o[0], otext(how[1]))
    if k == "block":
        return "{\n%s\n%s}" % (stmts_text(s.a[0], d + 1), "  " * d)
    if k == "if":
        t = "if %s %s" % (ctext(s.a[0]), body_text(s.a[1], d, br or s.a[2] is not None and s.a[1][0].k in ("break", "cont", "ret", "while", "for")))
        if s.a[2] is not None:
            t = t.rstrip(";") if not t.endswith("}") else t
            t += " else " + body_text(s.a[2], d, br)
        return t if t.endswith(";") else t + ";"
    if k == "while":
        t = "while %s %s" % (ctext(s.a[0]), body_text(s.a[1], d, br))
        return t if t.endswith(";") else t + ";"
    if k == "for":
        t = "for %s, %s, %s %s" % ("" if s.a[0] is None else etext(s.a[0]), ctext(s.a[1]), etext(s.a[2]), body_text(s.a[3], d, br))
        return t if t.endswith(";") else t + ";"
    if k == "break":
        return "break;" if s.a[0] == 1 else "break %d;" % s.a
    if k == "cont":
        return "continue;" if s.a[0] == 1 else "continue %d;" % s.a
    if k == "ret":
        e = s.a[0]
        if e is None:
            return "return;"
        return "return %s;" % (str(e) if isinstance(e, int) else ctext(e) if e.k in ("c1", "c2", "n1", "lit", "bv", "lt", "ok", "not", "and", "or") else vtext(e) if e.k in ("v1", "val") else otext(e))
    return etext(s) + ";"


# ------------------------------------------------------------------ the family of programs
class Gen:
    """random programs; objects: whether class objects appear"""
    def __init__(self, rng, objects, size=14, classes=()):
        self.r, self.objects, self.size, self.classes = rng, objects, size, tuple(classes)
        self.n = 0

    def program(self):
        r = self.r
        self.left = r.randint(3, self.size)
        params, vis = [], []
        if self.objects:
            for nm in ("p", "q")[:r.choice((0, 0, 1, 2))]:
                bv = r.random() < 0.6
                cls = r.choice(("Ob", "Ob", "Pair"))
                params.append((nm, cls, bv))
                vis.append((cls, nm if bv else "arg " + nm))
        self.ret = r.choice((None, None, "Bool", "Int") + (("Ob", "Ob", "Pair") if self.objects else ()))
        self.bools, self.ints, self.loops, self.k, self.this = [], [], 0, 0, []
        body, term = self.stmts(vis, 0, [], [], True)
        if self.ret and not term:
            body.append(self.ret_stmt(vis, self.scopeb))
        return Prog(params, self.ret, body)

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def lit(self):
        self.k += 1
        return self.r.choice((self.k, -self.k, 1000 + self.k))

    def stmts(self, vis, depth, bools, ints, top=False):
        vis, bools, ints = list(vis), list(bools), list(ints)
        out, term = [], False
        for _ in range(self.r.randint(1, 4) if not top else 30):
            if self.left <= 0 or term:
                break
            self.left -= 1
            s, term = self.stmt(vis, depth, bools, ints)
            out.append(s)
        if not out:
            out.append(A("act", self.lit()))
        self.scopeb = bools
        if top:
            self.topvis = vis
            if self.ret and not term:
                out.append(self.ret_stmt(vis, bools))
                term = True
        return out, term

    def oex(self, vis, cls="Ob", d=0, fresh=False):
        """an expression for an object of class cls"""
        r = self.r
        opts = []
        if not fresh:
            for o in vis:
                if o[0] == cls:
                    opts.append(lambda o=o: A("var", o))
                for path in paths(o[0], cls):
                    opts.append(lambda o=o, path=path: mem(A("var", o), path))
                if o[0] == "Der" and cls == "Ob":
                    opts.append(lambda o=o: A("base", A("var", o)))
        if cls == "Ob":
            tmp = [lambda: A("mk", self.lit()) if r.random() < 0.75 else A("mk", self.lit(), "fp"), lambda: A("new", "Ob", r.choice((None, self.lit())))]
            if self.this and not fresh:
                opts.append(lambda: A("this", self.this[-1]))
                opts.append(lambda: A("this", self.this[-1]))
            if d < 2 and not fresh and r.random() < (0.6, 0.25)[d]:
                tmp.append(lambda: A("pick", self.oex(vis, "Ob", d + 1), self.oex(vis, "Ob", d + 1)))
        else:
            tmp = [lambda: A("new", cls, self.lit() if CLS[cls][0] == "p" and r.random() < 0.5 else None)]
        if opts and r.random() < 0.5:
            return r.choice(opts)()
        return r.choice(tmp)()

    def vex(self, vis, cls="Ob", fresh=False):
        """an object expression where a value of exactly the class is wanted (no implicit reference to the base)"""
        e = self.oex(vis, cls, fresh=fresh)
        return A("mem", e.a[0], "base") if e.k == "base" else e

    def cond(self, vis, bools, ints, d=0):
        r = self.r
        x = r.random()
        if d < 3 and x < 0.16:
            return A("not", self.cond(vis, bools, ints, d + 1))
        if d < 3 and x < 0.36:
            return A("and", self.cond(vis, bools, ints, d + 1), self.cond(vis, bools, ints, d + 1))
        if d < 3 and x < 0.56:
            return A("or", self.cond(vis, bools, ints, d + 1), self.cond(vis, bools, ints, d + 1))
        if self.objects and x < 0.75:
            return A("ok", self.oex(vis))
        if bools and x < 0.82:
            return A("bv", r.choice(bools))
        if x > 0.95:
            return A("n1")
        return A(r.choice(("c1", "c2")))

    def value(self, vis):
        r = self.r
        if self.objects and r.random() < 0.5:
            return A("val", self.oex(vis))
        return A("v1", self.lit() if r.random() < 0.75 else self.value(vis))

    def simple(self, vis, ints=(), bools=()):
        r = self.r
        if r.random() < (0.04 if self.objects else 0.2):
            return A(r.choice(("condst", "actb")), self.cond(vis, bools, ints))
        x = r.random()
        if self.objects and x < 0.7:
            k = r.choice(("touch", "touch", "byval", "both", "asgn", "tellp"))
            if k == "both":
                return A(k, self.oex(vis), self.oex(vis))
            if k == "asgn":
                t = [e for o in vis for e in ([A("var", o)] if o[0] == "Ob" else [mem(A("var", o), p) for p in paths(o[0], "Ob")])]
                if t:
                    return A(k, r.choice(t), self.vex(vis))
                k = "touch"
            if k == "tellp":
                t = [e for o in vis for e in ([A("var", o)] if o[0] == "Pair" else [mem(A("var", o), p) for p in paths(o[0], "Pair")])]
                if t and r.random() < 0.7:
                    return A(k, r.choice(t))
                return A(k, A("new", "Pair", r.choice((None, self.lit()))))
            if r.random() < 0.15:
                t = [e for o in vis for e in ([A("var", o)] if o[0] == "Ob" else [mem(A("var", o), p) for p in paths(o[0], "Ob")])]
                if t:
                    e = r.choice(t)
                    y = r.random()
                    if y < 0.3:
                        return A("init", e, r.choice((None, self.lit())))
                    if y < 0.5:
                        return A("term", e)
                    return A("meet", e, self.oex(vis)) if y < 0.75 else A("meet", self.oex(vis), e)
            if r.random() < 0.2:
                c = r.choice(("Tm", "In"))
                t = [e for o in vis for e in ([A("var", o)] if o[0] == c else [mem(A("var", o), p) for p in paths(o[0], c)])]
                if t:
                    return A(TELL[c], r.choice(t))
            return A(k, self.vex(vis) if k == "byval" else self.oex(vis))
        if x < 0.9:
            return A(r.choice(("act", "act", "act", "fpact")), self.lit())
        if x < 0.93:
            return A("vact", self.lit(), self.value(vis))
        if x < 0.96:
            return A("actv", self.value(vis))
        return A("act2", self.value(vis) if r.random() < 0.7 else self.lit(), self.value(vis) if r.random() < 0.7 else self.lit())

    def ret_stmt(self, vis, bools):
        r = self.r
        if self.ret is None:
            return A("ret", None)
        if self.ret == "Bool":
            return A("ret", self.cond(vis, bools, []))
        if self.ret == "Int":
            return A("ret", self.lit() if r.random() < 0.3 else self.value(vis))
        return A("ret", self.vex(vis, self.ret))

    def stmt(self, vis, depth, bools, ints):
        r = self.r
        x = r.random()
        if depth < 4 and x < 0.17:
            c = self.cond(vis, bools, ints)
            th, t1 = self.stmts(vis, depth + 1, bools, ints)
            el, t2 = (None, False) if r.random() < 0.5 else self.stmts(vis, depth + 1, bools, ints)
            return self.br(A("if", c, th, el)), t1 and t2
        if depth < 4 and x < 0.30:
            c = self.cond(vis, bools, ints)
            self.loops += 1
            b, _ = self.stmts(vis, depth + 1, bools, ints)
            self.loops -= 1
            return self.br(A("while", c, b)), False
        if depth < 4 and x < 0.42:
            init = r.choice((None, self.simple(vis, (), bools), A("seq", [self.simple(vis), self.simple(vis, (), bools)])))
            c, u = self.cond(vis, bools, ints), r.choice((self.simple(vis, (), bools), A("seq", [self.simple(vis), self.simple(vis, (), bools)])))
            self.loops += 1
            b, _ = self.stmts(vis, depth + 1, bools, ints)
            self.loops -= 1
            return self.br(A("for", init, c, u, b)), False
        if depth < 4 and x < 0.46:
            b, t = self.stmts(vis, depth + 1, bools, ints)
            return A("block", b), t
        if self.loops and x < 0.56 and depth:
            return A(r.choice(("break", "cont")), r.randint(1, self.loops)), True
        if depth and x < 0.60:
            return self.ret_stmt(vis, bools), True
        if x < 0.66:
            if bools and r.random() < 0.5:
                return A("bset", r.choice(bools), self.cond(vis, bools, ints)), False
            b = self.fresh("b")
            s = A("bdef", b, self.cond(vis, bools, ints))
            bools.append(b)
            return s, False
        if self.objects and depth < 4 and x < 0.70:
            e = self.oex(vis)
            if e.k == "pick":
                e = A("mk", self.lit())
            self.this.append(e)
            b, t = self.stmts(vis, depth + 1, bools, ints)
            self.this.pop()
            return A("usein", e, b), t
        if self.objects and x < 0.86:
            cls = r.choice(("Ob", "Ob", "Ob", "Ob", "Pair", "Auto", "Nest", "Tm", "Wrap", "Box", "In", "Mix", "Der", "Ini", "Mex") + self.classes * 2)
            o = (cls, self.fresh("x"))
            hows = [("default",)]
            if cls in ("Ob", "Pair") or CLS[cls][0] == "p":
                hows += [("arg", self.lit()), ("copy", self.vex(vis, cls))]
            if cls == "Ob":
                hows += [("assign", self.vex(vis)), ("assign", self.vex(vis, fresh=True))]
            s = A("def", o, r.choice(hows))
            vis.append(o)
            return s, False
        return self.simple(vis, ints, bools), False

    def br(self, s):
        s.braces = self.r.random() < 0.6
        return s


def paths(cls, want):
    for f, c, _ in CLS[cls][1]:
        if f is None:
            continue
        if c == want:
            yield (f,)
        for p in paths(c, want):
            yield (f,) + p


def mem(e, path):
    for f in path:
        e = A("mem", e, f)
    return e


def counted(rng):
    """loops with counters: the number of iterations is exact"""
    i, j = "i", "j"
    n, m = rng.randint(0, 3), rng.randint(0, 3)
    inner = [A("act", 5)]
    if rng.random() < 0.6:
        inner.append(A("if", A("lt", i, rng.randint(0, 3)), [A(rng.choice(("break", "cont")), rng.choice((1, 2)))], None))
        inner.append(A("act", 6))
    lp = A("for", A("iset", j, 0), A("lt", j, m), A("iinc", j), inner)
    lp.braces = True
    body = [A("act", 1), lp, A("act", 2)]
    if rng.random() < 0.5:
        o = A("while", A("lt", i, n), [A("iinc", i)] + body)
    else:
        o = A("for", A("iset", i, 0), A("lt", i, n), A("iinc", i), body)
    o.braces = True
    return Prog([], None, [A("idef", i, 0), A("idef", j, None), o, A("act", 9)])


CHUNK = 50


def family(objects, n, seed):
    out = []
    names, text = (), ""
    for k in range(n):
        rng = random.Random("%s/%d/%d" % ("o" if objects else "c", seed, k))
        if objects and k % CHUNK == 0:
            names, text = [], ""
            for i in range(5):
                nm = "K%d_%d_%d" % (seed, k // CHUNK, i)
                text += random_class(rng, nm, ["Ob", "Ob", "Pair", "Auto", "Tm", "In", "Der", "Ini", "Mex"] + names * 2)
                names.append(nm)
        if not objects and k % 12 == 0:
            p = counted(rng)
        else:
            p = Gen(rng, objects, rng.choice((6, 10, 16, 24)), names).program()
        p.name, p.classes = "f%d" % k, text
        out.append(p)
    return out


# ------------------------------------------------------------------ checking
class Lay:
    SIZE = SIZE
    locate = staticmethod(locate)
    within = staticmethod(within)


def source(progs):
    classes = "".join(dict.fromkeys(p.classes for p in progs))
    return 'import "Spp";\nmodule T {%s%s%s\n}\nSpp.buildMgr.dumpLlvmIrForElement(T~ast);\n' % (PRELUDE, classes, "\n".join(p.source() for p in progs))


def check_prog(mod, p):
    ref = Ref(p)
    args, binding = [], {}
    if p.ret in CLS:
        args.append(("p", "@result", 0))
        binding[(p.ret, "result")] = args[-1]
    for nm, cls, bv in p.params:
        v = ("p", "@arg " + nm, 0)
        args.append(v)
        binding[(cls, "arg " + nm)] = v
    return ts.verify(mod, p.name, args, ref, binding, set(EXT), Lay)


class Eng:
    """result of one chunk in the form vrun expects"""
    def __init__(self):
        self.stats, self.failures, self.inlined, self.used_contracts = irvc_stats(), [], set(), set(EXT)


def irvc_stats():
    import irvc
    return irvc.Stats()


def t_chunk(suite, ids):
    import irvc
    e = Eng()
    for i in ids:
        p = suite.progs[i]
        r = check_prog(suite.where[i][0], p)
        e.stats.obl += r.obl
        e.stats.by["simplifier"] += r.obl
        e.stats.covers += 1
        e.stats.loops += suite.loops[i]
        e.inlined |= r.inlined
        if r.bad or r.outside:
            f = irvc.Failure("%s: %s" % (p.name, r.bad or "outside the verifier's fragment: " + r.outside), "refuted" if r.bad else "undecided",
                             {"program": p.source(), "after the calls": r.trace}, "function " + p.name, None)
            e.failures.append(f)
            if len(e.failures) > 3:
                break
    return [e]


def nloops(ss):
    n = 0
    for s in ss:
        if s.k in ("while", "for"):
            n += 1 + nloops(s.a[-1])
        elif s.k == "if":
            n += nloops(s.a[1]) + nloops(s.a[2] or [])
        elif s.k == "block":
            n += nloops(s.a[0])
        elif s.k == "usein":
            n += nloops(s.a[1])
    return n


class Suite:
    def __init__(self, name, progs, chunk=CHUNK):
        self.name, self.progs, self.chunk = name, progs, chunk
        self.loops = [nloops(p.body) for p in progs]

    def emit(self):
        import concurrent.futures as cf
        emit.dist()
        parts = [list(range(k, min(k + self.chunk, len(self.progs)))) for k in range(0, len(self.progs), self.chunk)]

        def one(k):
            try:
                return emit.alusus_ir(source([self.progs[i] for i in parts[k]]), "%s%d" % (self.name, k))
            except emit.EmitError as e:
                if len(parts[k]) == 1:
                    raise
                # which program of the group is rejected?
                for i in parts[k]:
                    try:
                        emit.alusus_ir(source([self.progs[i]]), "%s%d_%d" % (self.name, k, i))
                    except emit.EmitError as e1:
                        raise e1
                raise e
        with cf.ThreadPoolExecutor(8) as ex:
            r = list(ex.map(one, range(len(parts))))
        self.where = {}
        for k, p in enumerate(parts):
            for i in p:
                self.where[i] = r[k]
        return self

    def tasks(self):
        n = len(self.progs)
        step = 40
        return [vrun.Task("programs %d-%d" % (k, min(k + step, n) - 1), t_chunk, (self, range(k, min(k + step, n))), function=self.name) for k in range(0, n, step)]


# ------------------------------------------------------------------ replay on the compiled code
def stub_source():
    o = ["#include <stdint.h>\ntypedef int64_t (*hook_t)(int, int64_t, int64_t);\nhook_t hook;"]
    for k, (n, (args, res)) in enumerate(EXT.items()):
        if "." in args:
            o.append("#include <stdarg.h>\nvoid %s(int32_t a0, ...) { va_list l; va_start(l, a0); int32_t a1 = va_arg(l, int32_t); va_end(l); hook(%d, a0, a1); }" % (n, k))
            continue
        ps = ["void *a%d" % i if a == "p" else "_Bool a%d" % i if a == "b" else "int32_t a%d" % i for i, a in enumerate(args)]
        vs = ["(int64_t)a%d" % i for i in range(len(args))] + ["0"] * (2 - len(args))
        ret = {None: "void", "bool": "_Bool", "int": "int32_t", "val": "int32_t", "ref": "void*"}[res]
        o.append("%s %s(%s) { %shook(%d, %s); }" % (ret, n, ", ".join(ps) or "void", "" if res is None else "return (%s)" % ret, k, ", ".join(vs)))
    return "\n".join(o) + "\n"


def run_native(so, p, script, seed):
    """one execution of the compiled function, followed step by step in the reference; -> text of a disagreement"""
    import ctypes as c, sys
    L = c.CDLL(so)
    ref = Ref(p)
    X = ts.Matcher(ref, Lay)
    names = list(EXT)
    rng = random.Random(seed)
    bnd, args, keep = {}, [], []

    def storage(cls, o):
        b = c.create_string_buffer(SIZE[cls] + 64)
        keep.append(b)
        a = (c.addressof(b) + 15) & ~15
        bnd[(cls, o)] = ("p", "", a)
        args.append(c.c_void_p(a))
    if p.ret in CLS:
        storage(p.ret, "result")
    for nm, cls, bv in p.params:
        storage(cls, "arg " + nm)
    st = {"n": ref.entry(), "rem": None, "bnd": bnd, "log": [], "k": 0, "vals": {}}
    fin = []

    class Stop(Exception):
        pass

    def advance(ev):
        n = st["n"]
        r = X.match(n, st["rem"], st["bnd"], ev)
        return r

    def hook(k, a0, a1):
        nm = names[k]
        kinds, res = EXT[nm]
        vs = [("p", "", a & (2 ** 64 - 1)) if kd == "p" else ("i", a & 1, 1) if kd == "b" else ("i", a & 0xffffffff, 32) for kd, a in zip(kinds.replace(".", ""), (a0, a1))]
        # opaque values are recognised by the number they were given
        vs = [st["vals"].get(v[1], v) if v[0] == "i" else v for v in vs]
        try:
            r = advance(("call", nm, vs, None))
        except Bad as b:
            report("after the calls %s\n%s" % (", ".join(st["log"]) or "(none)", b))
        st["log"].append("%s(%s)" % (nm, ", ".join(X.show(v, st["bnd"]) for v in vs)))
        if len(st["log"]) > 3000:
            report(None)
        i = 0
        if len(r) > 1:
            want = script[st["k"]][1] if st["k"] < len(script) and script[st["k"]][0] == nm else None
            i = next((j for j, x in enumerate(r) if x[4][1] == want), None) if want is not None else None
            if i is None:
                i = rng.randrange(len(r))
        st["k"] += 1
        n, rem, b, v, lab = r[i]
        st["n"], st["rem"], st["bnd"] = n, rem, b
        if res == "val":
            st["vals"][777000 + st["k"]] = v
            out = 777000 + st["k"]
        elif res == "int":
            out = lab[1]
        elif res == "bool":
            out = v[1]
        elif res == "ref":
            out = v[2]
        else:
            out = 0
        if len(r) > 1 or res == "int":
            st["log"][-1] += " -> %s" % lab[1]
        return out

    def report(t):
        import pickle
        os.write(fin[0], pickle.dumps(("ok", t)))
        os._exit(0)
    import ctypes
    rd, wr = os.pipe()
    fin.append(wr)
    pid = os.fork()
    if pid == 0:
        import signal
        signal.alarm(10)
        os.close(rd)
        cb = ctypes.CFUNCTYPE(c.c_int64, c.c_int, c.c_int64, c.c_int64)(hook)
        c.c_void_p.in_dll(L, "hook").value = ctypes.cast(cb, c.c_void_p).value
        f = getattr(L, p.name)
        f.argtypes = [c.c_void_p] * len(args)
        f.restype = {None: None, "Bool": c.c_bool, "Int": c.c_int32}.get(p.ret)
        v = f(*args)
        ev = None if p.ret not in ("Bool", "Int") else ("i", int(v), 1) if p.ret == "Bool" else st["vals"].get(v, ("i", v & 0xffffffff, 32))
        try:
            advance(("ret", ev))
        except Bad as b:
            report("after the calls %s\n%s" % (", ".join(st["log"]) or "(none)", b))
        report(None)
    os.close(wr)
    import pickle
    with os.fdopen(rd, "rb") as f:
        d = f.read()
    _, stt = os.waitpid(pid, 0)
    if d:
        return pickle.loads(d)[1]
    if os.WIFSIGNALED(stt) and os.WTERMSIG(stt) == 14:
        # no event for a long time: right only where the source loops for ever
        return None if st["n"].kind == "div" else "the execution does not reach the next event (or the end)"
    return "the execution crashes (%s)" % (os.WTERMSIG(stt) if os.WIFSIGNALED(stt) else os.WEXITSTATUS(stt))


def replay(suite, bad, seconds=100):
    import native
    wd = emit.workdir(suite.name + "-replay")
    stubs = os.path.join(wd, "stubs.c")
    open(stubs, "w").write(stub_source())
    by = {p.name: i for i, p in enumerate(suite.progs)}
    todo, t0 = [], time.time()
    for r in bad:
        for f in r["failures"]:
            nm = f["obligation"].split(":")[0]
            if nm in by:
                todo.append((by[nm], f))
    todo.sort(key=lambda x: len(suite.progs[x[0]].source()))
    sos = {}
    for i, f in todo[:30]:
        if time.time() - t0 > seconds:
            break
        ll = suite.where[i][1]
        p = suite.progs[i]
        if ll not in sos:
            try:
                sos[ll] = native.shared([ll], wd, "m%d" % len(sos), extra=[stubs])
            except RuntimeError as e:
                return "LLVM rejects what this tree's compiler emits for this valid program:\n%s\n%s" % (p.source(), str(e)[:1500])
        script = f["inputs"]["after the calls"]
        for k in range(60):
            t = run_native(sos[ll], p, script if k < 5 else [], k)
            if t:
                return "this program, compiled by this tree's compiler and run natively (external functions answer as listed):\n%s\n%s" % (p.source(), t)
    return None


def make_plan(objects, n, seeds):
    import check
    progs = []
    for s in seeds:
        progs += family(objects, n, s)
    for k, p in enumerate(progs):
        p.name = "f%d" % k
    suite = Suite("lifetime" if objects else "flow", progs).emit()
    size = sum(len(p.source()) for p in progs)
    return check.Plan(suite.tasks(), search=lambda bad: replay(suite, bad), trusted=[x for x in check.TR_ALUSUS] + ["the reference machine of the source language and the abstract machine of the IR (/verif/props/flow.py, /verif/lib/typestate.py)"],
                      level="translation_validation",
                      assumptions=["external functions change nothing the compiled function can see except through their result"] +
                      (["the order in which the objects of one scope are terminated is left free; arrays of objects and objects in global variables are not part of the family"] if objects else []),
                      notes="%d generated programs (seeds %s), %d bytes of source; each compared with its reference automaton for all outcomes of all conditions and all numbers of loop iterations" % (len(progs), list(seeds), size),
                      extra={"programs": len(progs), "disagreements_checked": 0, "samples": [p.source() for p in progs[:3]], "seeds": list(seeds), "loops_in_programs": sum(suite.loops)})


def plan_flow():
    t = vrun.TIER == "thorough"
    return make_plan(False, 8000 if t else 2000, [0, vrun.SEED])


def plan_lifetime():
    t = vrun.TIER == "thorough"
    return make_plan(True, 6000 if t else 1600, [0, vrun.SEED])
