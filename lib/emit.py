"""Mechanical extraction of the verified text: IR emitted, on every run, by the repository's own
compiler (Alusus sources) or by clang from the repository's own C++ sources."""
import hashlib, os, re, subprocess, sys, tempfile, shutil
import build_alusus
import irparse

REPO = build_alusus.REPO
CACHE = build_alusus.CACHE


class EmitError(Exception):
    """concrete: the repository's own compiler failed on a valid program (the program is the failing input)"""
    def __init__(self, msg, concrete=False):
        Exception.__init__(self, msg)
        self.concrete = concrete


def workdir(name):
    d = os.path.join(CACHE, "work-%d" % os.getpid(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


_dist = None


def dist():
    global _dist
    if _dist is None:
        _dist = build_alusus.build()
    return _dist


def env():
    e = dict(os.environ)
    d = dist()
    e["LD_LIBRARY_PATH"] = d
    e["ALUSUS_LIBS"] = REPO + "/Sources/Srt:" + d
    e["LC_ALL"] = "en_US.UTF-8"
    e["LANG"] = "en_US.UTF-8"
    return e


def run_alusus(path, timeout=120, cwd=None, e=None):
    p = subprocess.run([dist() + "/alusus", path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=e or env(), timeout=timeout, cwd=cwd or os.path.dirname(path))
    return p.returncode, p.stdout


def split_ir(out):
    """modules printed by dumpLlvmIrForElement"""
    t = out.decode("utf-8", "surrogateescape")
    mods = []
    for m in re.finditer(r'-+ Generated LLVM IR -+\n(.*?)\n-{40,}\n', t, re.S):
        mods.append(m.group(1))
    rest = re.sub(r'-+ Generated LLVM IR -+\n(.*?)\n-{40,}\n', '', t, flags=re.S)
    return mods, rest


def lower(ir14, wd, name="m", passes="mem2reg"):
    ir14 = ir14.replace("@llvm.global_ctors", "@alusus.global_ctors").replace("@llvm.global_dtors", "@alusus.global_dtors")
    a = os.path.join(wd, name + ".14.ll")
    with open(a, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(ir14)
    bc, out = os.path.join(wd, name + ".bc"), os.path.join(wd, name + ".ll")
    p = subprocess.run(["llvm-as-14", a, "-o", bc], capture_output=True, text=True)
    if p.returncode:
        raise EmitError("emitted IR is not well formed: " + p.stderr[:2000])
    p = subprocess.run(["opt-18", "-passes=" + passes, "-S", bc, "-o", out], capture_output=True, text=True)
    if p.returncode:
        raise EmitError("opt: " + p.stderr[:2000])
    return out


def alusus_ir(src, name, wd=None, passes="mem2reg"):
    """compile an Alusus harness with the repository's compiler; -> (Module, ll path, raw IR text)"""
    wd = wd or workdir(name)
    p = os.path.join(wd, name + ".alusus")
    with open(p, "w", encoding="utf-8") as f:
        f.write(src)
    try:
        rc, out = run_alusus(p)
    except subprocess.TimeoutExpired:
        raise EmitError("the repository's compiler does not finish on this valid program:\n%s" % src, concrete=True)
    mods, rest = split_ir(out)
    if not mods or "ERROR" in rest:
        raise EmitError("the repository's compiler (exit %d) does not compile this valid program:\n%s\n---- its output:\n%s" % (rc, src, rest[-3000:]), concrete=True)
    try:
        ll = lower(mods[0], wd, name, passes)
    except EmitError as e:
        raise EmitError("for this valid program the repository's compiler emits code that LLVM rejects\n%s\n%s" % (e, src), concrete=True)
    m = irparse.parse(open(ll, encoding="utf-8", errors="surrogateescape").read())
    return m, ll, mods[0]


CXXDEFS = build_alusus.DEFS + ["-std=c++17", "-fno-rtti", "-w"] + build_alusus.CORE_INC


SPP = ["-fno-threadsafe-statics", "-fno-access-control"] + ["-I%s/Sources/%s" % (REPO, d) for d in ("Srt/Srl", "Core", "Spp")] + ["-I/opt/vp/llvm-compat/include", "-I/usr/lib/llvm-14/include"]


def cxx_ir(src, name, wd=None, extra=(), passes="mem2reg", opt="-O0", extract=None):
    """compile C++ (including the repository's headers/sources) with clang; -> (Module, ll path)"""
    wd = wd or workdir(name)
    p = os.path.join(wd, name + ".cpp")
    with open(p, "w") as f:
        f.write(src)
    ll0, ll = os.path.join(wd, name + ".0.ll"), os.path.join(wd, name + ".ll")
    r = subprocess.run(["clang++-18" if shutil.which("clang++-18") else "clang++", opt, "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-S", "-emit-llvm", "-g0"] + CXXDEFS + list(extra) + [p, "-o", ll0], capture_output=True, text=True)
    if r.returncode:
        raise EmitError("clang: " + r.stderr[:3000])
    if extract:
        ll1 = os.path.join(wd, name + ".1.ll")
        r = subprocess.run(["llvm-extract-18", "-S", "--keep-const-init", "--rfunc=" + extract, "--recursive", ll0, "-o", ll1], capture_output=True, text=True)
        if r.returncode:
            raise EmitError("llvm-extract: " + r.stderr[:2000])
        ll0 = ll1
    r = subprocess.run(["opt-18", "-passes=" + passes, "-S", ll0, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise EmitError("opt: " + r.stderr[:2000])
    m = irparse.parse(open(ll, encoding="utf-8", errors="surrogateescape").read())
    return m, ll
