"""Replay on the real code: the emitted IR is compiled to a shared library and its functions are called, in a
child process, with chosen argument values."""
import ctypes, os, pickle, re, signal, subprocess, sys, time
import emit


def shared(lls, wd, name="native", opt="-O1", extra=()):
    so = os.path.join(wd, name + ".so")
    ps = []
    for k, l in enumerate(lls):
        p = os.path.join(wd, "%s.%d.ll" % (name, k))
        with open(l, encoding="utf-8", errors="surrogateescape") as f, open(p, "w", encoding="utf-8", errors="surrogateescape") as g:
            g.write(f.read().replace("@alusus.global_dtors = appending", "@alusus.global_dtors = private").replace("@alusus.global_ctors", "@llvm.global_ctors"))
        ps.append(p)
    r = subprocess.run(["clang", "-shared", "-fPIC", opt, "-w", "-o", so] + ps + list(extra), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("native build: " + r.stderr[:2000])
    return so


def in_child(fn, seconds=60):
    """run fn() in a forked child -> (result, None) or (None, how it died)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(int(seconds) + 1)
            try:
                d = pickle.dumps(("ok", fn()))
            except BaseException as e:
                d = pickle.dumps(("exc", "%s: %s" % (type(e).__name__, e)))
            with os.fdopen(w, "wb") as f:
                f.write(d)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    _, st = os.waitpid(pid, 0)
    if d:
        k, v = pickle.loads(d)
        return (v, None) if k == "ok" else (None, "error: " + v)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return None, "the execution does not end" if s == signal.SIGALRM else "killed by signal %s" % signal.Signals(s).name
    return None, "exit status %d" % os.WEXITSTATUS(st)
