"""Concrete replay: the verified IR is compiled natively (AddressSanitizer) together with a driver that runs
operation sequences against a reference model, to turn a failed obligation into a failing execution."""
import os, re, subprocess, sys
import emit, vrun

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:free_fill_byte=222:max_free_fill_size=65536:detect_stack_use_after_return=0:symbolize=0"}


def sanitize(ll_text):
    """mark every function for AddressSanitizer, give constructors back to the C runtime"""
    t = re.sub(r'^(define [^\n]*?) \{$', r'\1 sanitize_address {', ll_text, flags=re.M)
    t = t.replace("@alusus.global_dtors = appending", "@alusus.global_dtors = private")
    return t.replace("@alusus.global_ctors", "@llvm.global_ctors")


def build(ll, driver, wd, name, extra=(), extra_ll=()):
    objs = []
    for i, l in enumerate([ll] + list(extra_ll)):
        p = os.path.join(wd, "%s.san%d.ll" % (name, i))
        with open(l, encoding="utf-8", errors="surrogateescape") as f, open(p, "w", encoding="utf-8", errors="surrogateescape") as g:
            g.write(sanitize(f.read()))
        objs.append(p)
    exe = os.path.join(wd, name + ".exe")
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-g0", "-w", "-fsanitize=address", "-fno-rtti", "-o", exe, driver] + objs + list(extra) + ["-I" + vrun.VERIF + "/drivers"],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("driver build: " + r.stderr[:3000])
    return exe


def build_cxx(driver, wd, name, inc):
    """a driver compiled directly against the repository's C++ headers"""
    exe = os.path.join(wd, name + ".exe")
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-g0", "-w", "-fsanitize=address", "-o", exe, driver, "-I" + vrun.VERIF + "/drivers"] + emit.build_alusus.DEFS + ["-I" + i for i in inc], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("driver build: " + r.stderr[:3000])
    return exe


def run(exe, seconds, args=(), header=""):
    """-> text of the failing execution, or None"""
    e = dict(os.environ)
    e.update(ASAN_ENV)
    cmd = [exe, str(vrun.SEED), str(seconds)] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=seconds * 3 + 30, env=e, cwd=os.path.dirname(exe))
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace") + "\nthe execution does not end", 98
    if rc == 0:
        return None
    return "%s\n%s\n(driver exit status %d)" % (header or "driver: " + " ".join(cmd), out[-6000:], rc)
