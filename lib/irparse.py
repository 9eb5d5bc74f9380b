"""Parser for textual LLVM IR (LLVM 18, opaque pointers) as printed by llvm-dis-18/opt-18."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gvar>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<lvar>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|^])
''', re.X)


class T:
    __slots__ = ("k", "a", "b", "c")

    def __init__(self, k, a=None, b=None, c=None):
        self.k, self.a, self.b, self.c = k, a, b, c

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "array":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.a))
        if self.k == "named":
            return "%" + self.a
        return self.k


PTR, VOID, FLOAT, DOUBLE, LABEL, META = T("ptr"), T("void"), T("float"), T("double"), T("label"), T("metadata")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = T("int", n)
    return _ints[n]


class Val:
    """operand: kind in local, global, int, float, null, undef, zero, str, agg, cexpr"""
    __slots__ = ("k", "ty", "v", "x")

    def __init__(self, k, ty, v=None, x=None):
        self.k, self.ty, self.v, self.x = k, ty, v, x

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "text")

    def __init__(self, op, res=None, ty=None, a=None, x=None, text=""):
        self.op, self.res, self.ty, self.a, self.x, self.text = op, res, ty, a or [], x, text

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name, rty, params, vararg):
        self.name, self.rty, self.params, self.vararg = name, rty, params, vararg  # params: [(ty, name, attrs)]
        self.blocks = {}
        self.order = []
        self.decl = True
        self.text = ""


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.aliases = {}, {}, {}, {}

    # ---- type layout (x86-64) ----
    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            n = (t.a + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return min(p, 16) if t.a > 64 else min(p, 8)
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k in ("x86_fp80", "fp128"):
            return 16
        if t.k == "half":
            return 2
        if t.k == "array":
            return self.align(t.b)
        if t.k == "struct":
            if t.b:
                return 1
            return max([self.align(x) for x in t.a] or [1])
        if t.k == "vector":
            return max(1, self.size(t))
        raise ValueError("align of %r" % t)

    def store_size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return (t.a + 7) // 8
        return self.size(t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            n, a = (t.a + 7) // 8, self.align(t)
            return (n + a - 1) // a * a
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k in ("x86_fp80", "fp128"):
            return 16
        if t.k == "half":
            return 2
        if t.k == "array":
            return t.a * self.size(t.b)
        if t.k == "vector":
            return t.a * self.size(t.b)
        if t.k == "struct":
            return self.struct_layout(t)[1]
        if t.k == "opaque":
            return 0
        raise ValueError("size of %r" % t)

    def struct_layout(self, t):
        if t.c is not None:
            return t.c
        off, offs, al = 0, [], 1
        for f in t.a:
            a = 1 if t.b else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        t.c = (offs, off)
        return t.c


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
        try:
            s = s.encode("latin-1").decode("utf-8")
        except (UnicodeEncodeError, UnicodeDecodeError):
            pass
    return s


PARAM_ATTRS = {"dead_on_unwind", "writable", "dead_on_return", "noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "returned", "readonly",
               "readnone", "writeonly", "immarg", "nest", "swiftself", "swifterror", "noinline", "nofree", "allocptr", "allocalign"}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "align", "byval", "sret", "elementtype", "byref", "preallocated", "inalloca", "nofpclass", "memory", "captures", "initializes", "range"}
LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
           "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
           "dllimport", "dllexport", "local_unnamed_addr", "unnamed_addr", "fastcc", "ccc", "coldcc",
           "externally_initialized", "thread_local", "tailcc", "x86_thiscallcc", "win64cc", "nonlazybind"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nneg", "disjoint", "nusw", "samesign"}


class ParseError(Exception):
    pass


class P:
    def __init__(self, text, mod, ctx=""):
        self.mod, self.ctx = mod, ctx
        self.t = []
        pos = 0
        n = len(text)
        while pos < n:
            m = TOK.match(text, pos)
            if not m:
                raise ParseError("bad token at %r" % text[pos:pos + 40])
            pos = m.end()
            if m.lastgroup != "ws":
                self.t.append((m.lastgroup, m.group()))
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def pk(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise ParseError("unexpected end: " + self.ctx)
        v = self.t[self.i][1]
        self.i += 1
        return v

    def acc(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise ParseError("expected %r got %r in %s" % (v, self.peek(), self.ctx))

    # ---- types ----
    def type(self):
        w = self.next()
        if w == "void":
            t = VOID
        elif w == "ptr":
            t = PTR
            if self.acc("addrspace"):
                self.exp("("); self.next(); self.exp(")")
        elif w == "float":
            t = FLOAT
        elif w == "double":
            t = DOUBLE
        elif w in ("x86_fp80", "fp128", "half", "bfloat", "opaque", "token"):
            t = T(w)
        elif w == "label":
            t = LABEL
        elif w == "metadata":
            t = META
        elif re.fullmatch(r"i\d+", w):
            t = INT(int(w[1:]))
        elif w == "[":
            n = int(self.next()); self.exp("x")
            t = T("array", n, self.type()); self.exp("]")
        elif w == "{":
            t = T("struct", self.tlist("}"), False)
        elif w == "<":
            if self.acc("{"):
                l = self.tlist("}"); self.exp(">")
                t = T("struct", l, True)
            else:
                n = int(self.next()); self.exp("x")
                t = T("vector", n, self.type()); self.exp(">")
        elif w[0] == "%":
            t = T("named", unq(w))
        else:
            raise ParseError("type? %r in %s" % (w, self.ctx))
        while True:
            if self.peek() == "(":   # function type
                self.next()
                va = False
                while not self.acc(")"):
                    if self.acc("..."):
                        va = True
                    else:
                        self.type()
                        self.attrs()
                    self.acc(",")
                t = T("func", t, va)
            elif self.peek() == "*":
                self.next(); t = PTR
            else:
                return t

    def tlist(self, end):
        out = []
        while not self.acc(end):
            out.append(self.type()); self.acc(",")
        return out

    def attrs(self):
        at = {}
        while True:
            w = self.peek()
            if w in PARAM_ATTRS:
                self.next(); at[w] = True
            elif w in PAREN_ATTRS:
                self.next()
                if self.acc("("):
                    depth, ty = 1, None
                    if w in ("byval", "sret", "byref"):
                        ty = self.type()
                    while depth:
                        x = self.next()
                        depth += (x == "(") - (x == ")")
                    at[w] = ty or True
                else:
                    self.next(); at[w] = True   # align 8
            elif self.pk() == "str" and not w.startswith("c"):
                self.next()
                if self.acc("="):
                    self.next()
            else:
                return at

    # ---- values ----
    def value(self, ty):
        k, w = self.pk(), self.next()
        if k == "lvar":
            return Val("local", ty, unq(w))
        if k == "gvar":
            return Val("global", ty, unq(w))
        if k == "num":
            rt = self.mod.resolve(ty) if ty.k == "named" else ty
            if rt.k == "int":
                return Val("int", ty, int(w))
            return Val("float", ty, w)
        if w in ("true", "false"):
            return Val("int", ty, 1 if w == "true" else 0)
        if w == "null":
            return Val("null", ty)
        if w in ("undef", "poison"):
            return Val("undef", ty)
        if w == "zeroinitializer":
            return Val("zero", ty)
        if w == "none":
            return Val("undef", ty)
        if k == "str" and w.startswith("c"):
            s = w[2:-1]
            b = bytearray()
            i = 0
            raw = s.encode("utf-8")
            while i < len(raw):
                if raw[i] == 0x5c:
                    if raw[i + 1] == 0x5c:
                        b.append(0x5c); i += 2
                    else:
                        b.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(raw[i]); i += 1
            return Val("str", ty, bytes(b))
        if w == "[":
            return Val("agg", ty, self.vlist("]"))
        if w == "{":
            return Val("agg", ty, self.vlist("}"))
        if w == "<":
            if self.acc("{"):
                l = self.vlist("}"); self.exp(">")
                return Val("agg", ty, l)
            return Val("agg", ty, self.vlist(">"))
        if w == "getelementptr":
            while self.peek() in FLAGS:
                self.next()
            self.exp("(")
            st = self.type(); self.exp(",")
            args = self.vlist(")")
            return Val("cexpr", ty, "gep", (st, args))
        if w in CASTS:
            self.exp("(")
            t = self.type(); v = self.value(t)
            self.exp("to"); t2 = self.type(); self.exp(")")
            return Val("cexpr", ty, w, (v, t2))
        if w in BIN or w in ("icmp",):
            pred = None
            while self.peek() in FLAGS:
                self.next()
            if w == "icmp":
                pred = self.next()
            self.exp("(")
            args = self.vlist(")")
            return Val("cexpr", ty, w, (args, pred))
        if w in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        raise ParseError("value? %r in %s" % (w, self.ctx))

    def vlist(self, end):
        out = []
        while not self.acc(end):
            if self.peek() == "inrange":
                self.next()
            t = self.type()
            self.attrs()
            out.append(self.value(t)); self.acc(",")
        return out

    def tv(self):
        t = self.type()
        self.attrs()
        return self.value(t)

    def label(self):
        self.exp("label")
        return unq(self.next())

    # ---- instructions ----
    def ins(self, text):
        res = None
        if self.pk() == "lvar" and self.peek(1) == "=":
            res = unq(self.next()); self.next()
        op = self.next()
        if op in ("tail", "musttail", "notail"):
            op = self.next()
        I = lambda *a, **k: Ins(op, res, *a, text=text, **k)
        if op in BIN:
            fl = set()
            while self.peek() in FLAGS:
                fl.add(self.next())
            t = self.type(); a = self.value(t); self.exp(","); b = self.value(t)
            return I(t, [a, b], x=fl)
        if op == "fneg":
            while self.peek() in FLAGS:
                self.next()
            v = self.tv()
            return I(v.ty, [v])
        if op in CASTS:
            while self.peek() in FLAGS:
                self.next()
            v = self.tv(); self.exp("to"); t = self.type()
            return I(t, [v])
        if op in ("icmp", "fcmp"):
            while self.peek() in FLAGS:
                self.next()
            pred = self.next()
            t = self.type(); a = self.value(t); self.exp(","); b = self.value(t)
            return I(INT(1), [a, b], x=pred)
        if op == "alloca":
            self.acc("inalloca")
            t = self.type(); n = None
            while self.acc(","):
                if self.acc("align"):
                    self.next()
                elif self.acc("addrspace"):
                    self.exp("("); self.next(); self.exp(")")
                else:
                    n = self.tv()
            return I(t, [n] if n else [])
        if op == "load":
            self.acc("atomic"); self.acc("volatile")
            t = self.type(); self.exp(","); p = self.tv()
            return I(t, [p])
        if op == "store":
            self.acc("atomic"); self.acc("volatile")
            v = self.tv(); self.exp(","); p = self.tv()
            return I(v.ty, [v, p])
        if op == "getelementptr":
            while self.peek() in FLAGS:
                self.next()
            st = self.type(); self.exp(",")
            args = [self.tv()]
            while self.acc(","):
                if self.pk() == "meta":
                    break
                args.append(self.tv())
            return I(st, args)
        if op == "phi":
            while self.peek() in FLAGS:
                self.next()
            t = self.type(); inc = []
            while self.acc("["):
                v = self.value(t); self.exp(","); inc.append((v, unq(self.next()))); self.exp("]"); self.acc(",")
            return I(t, [], x=inc)
        if op == "select":
            while self.peek() in FLAGS:
                self.next()
            c = self.tv(); self.exp(","); a = self.tv(); self.exp(","); b = self.tv()
            return I(a.ty, [c, a, b])
        if op in ("call", "invoke"):
            while self.peek() in FLAGS or self.peek() in LINKAGE or self.peek() == "cc":
                if self.next() == "cc":
                    self.next()
            self.attrs()
            t = self.type()
            if t.k == "func":
                t = t.a
            if self.pk() == "word" and self.peek() == "asm":
                return I(t, [], x=("asm", None, None))
            callee = self.value(PTR)
            self.exp("(")
            args, attrs = [], []
            while not self.acc(")"):
                ty = self.type(); at = self.attrs()
                if ty.k == "metadata":
                    depth = 0
                    while not (depth == 0 and self.peek() in (",", ")")):
                        x = self.next()
                        depth += (x == "(") - (x == ")")
                    args.append(None); attrs.append({})
                else:
                    args.append(self.value(ty)); attrs.append(at)
                self.acc(",")
            nrm = unw = None
            if op == "invoke":
                while self.peek() != "to":
                    self.next()
                self.exp("to"); nrm = self.label(); self.exp("unwind"); unw = self.label()
            return I(t, args, x=(callee, nrm, unw, attrs))
        if op == "br":
            if self.peek() == "label":
                return I(None, [], x=[self.label()])
            c = self.tv(); self.exp(","); a = self.label(); self.exp(","); b = self.label()
            return I(None, [c], x=[a, b])
        if op == "switch":
            c = self.tv(); self.exp(","); d = self.label(); self.exp("[")
            cases = []
            while not self.acc("]"):
                v = self.tv(); self.exp(","); cases.append((v.v, self.label()))
            return I(c.ty, [c], x=(d, cases))
        if op == "ret":
            if self.acc("void"):
                return I(VOID, [])
            v = self.tv()
            return I(v.ty, [v])
        if op == "unreachable":
            return I()
        if op == "resume":
            return I(None, [self.tv()])
        if op == "extractvalue":
            v = self.tv(); idx = []
            while self.acc(","):
                if self.pk() == "meta":
                    break
                idx.append(int(self.next()))
            return I(v.ty, [v], x=idx)
        if op == "insertvalue":
            v = self.tv(); self.exp(","); e = self.tv(); idx = []
            while self.acc(","):
                if self.pk() == "meta":
                    break
                idx.append(int(self.next()))
            return I(v.ty, [v, e], x=idx)
        if op == "landingpad":
            return I(self.type(), [])
        if op == "freeze":
            v = self.tv()
            return I(v.ty, [v])
        if op == "va_arg":
            v = self.tv(); self.exp(","); t = self.type()
            return I(t, [v])
        if op in ("fence",):
            return I()
        if op in ("atomicrmw", "cmpxchg"):
            return Ins(op, res, None, [], None, text)
        raise ParseError("instruction? %s" % text)


DEFRE = re.compile(r'^(define|declare)\b')


def parse(text):
    mod = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    # types first
    for l in lines:
        m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
        if m:
            mod.types[unq(m.group(1))] = T("lazy", m.group(2))
    for k in list(mod.types):
        mod.types[k] = P(mod.types[k].a, mod, k).type()
    while i < n:
        l = lines[i]
        if l.startswith("@"):
            try:
                parse_global(l, mod)
            except ParseError:
                pass
        elif l.startswith("declare") or l.startswith("define"):
            f = parse_header(l, mod)
            mod.funcs[f.name] = f
            if l.startswith("define"):
                f.decl = False
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                f.text = body
                f.header = l
        i += 1
    return mod


def parse_header(l, mod):
    p = P(l, mod, l)
    p.next()
    while p.peek() in LINKAGE:
        p.next()
        if p.peek() == "(":
            while not p.acc(")"):
                p.next()
    p.attrs()
    rty = p.type()
    # a function type following: type() may swallow nothing since name follows
    name = unq(p.next())
    p.exp("(")
    params, va = [], False
    while not p.acc(")"):
        if p.acc("..."):
            va = True
        else:
            t = p.type(); at = p.attrs()
            nm = None
            if p.pk() == "lvar":
                nm = unq(p.next())
            params.append((t, nm, at))
        p.acc(",")
    f = Func(name, rty, params, va)
    cnt = 0
    out = []
    for t, nm, at in params:
        if nm is None:
            nm = str(cnt); cnt += 1
        out.append((t, nm, at))
    f.params = out
    f.firstanon = cnt
    return f


def parse_global(l, mod):
    p = P(l, mod, l)
    name = unq(p.next()); p.exp("=")
    ext = False
    while True:
        w = p.peek()
        if w in LINKAGE:
            ext |= w in ("external", "extern_weak")
            p.next()
            if p.peek() == "(":
                while not p.acc(")"):
                    p.next()
        else:
            break
    if p.peek() in ("alias", "ifunc"):
        p.next(); p.type(); p.exp(","); v = p.tv()
        mod.aliases[name] = v
        return
    kind = p.next()
    if kind not in ("global", "constant"):
        raise ParseError(l)
    t = p.type()
    init = None
    if not ext and p.peek() not in (None, ","):
        init = p.value(t)
    mod.globals[name] = (t, init, kind == "constant")


def body(f, mod):
    """Parses a function body on demand."""
    if f.blocks or f.decl:
        return f
    joined = []
    src = f.text
    j = 0
    while j < len(src):
        l = src[j]
        s = l.strip()
        if not s or s.startswith(";"):
            j += 1
            continue
        if re.match(r'switch ', s) and not s.rstrip().endswith("]"):
            while "]" not in src[j]:
                j += 1
                s += " " + src[j].strip()
        elif re.search(r'(^|= )invoke ', s):
            j += 1
            s += " " + src[j].strip()
        elif re.search(r'= landingpad ', s):
            while j + 1 < len(src) and re.match(r'\s+(cleanup|catch|filter)\b', src[j + 1]):
                j += 1
        joined.append(s)
        j += 1
    cur = None
    for s in joined:
        m = re.match(r'^((?:"[^"]*")|[-a-zA-Z$._0-9]+):', s)
        if m:
            nm = m.group(1)
            nm = nm[1:-1] if nm.startswith('"') else nm
            cur = nm
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = str(f.firstanon)
            f.blocks[cur] = []
            f.order.append(cur)
        f.blocks[cur].append(P(s, mod, s).ins(s))
    return f


if __name__ == "__main__":
    import sys
    m = parse(open(sys.argv[1]).read())
    for f in m.funcs.values():
        body(f, m)
        print(f.name, len(f.order), f.params)
