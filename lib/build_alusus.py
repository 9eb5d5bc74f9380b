#!/usr/bin/env python3
"""Builds the Alusus compiler from /repo's current working tree, outside /repo.

Content-addressed: every object is keyed by the text of its translation unit, of all
headers and of the command line, so a stale object can never stand in for changed
source (no mtimes are involved).  Output: <cache>/dist-<key>/{alusus,libalusus_spp.so,...}
"""
import concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys, shutil, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
SRC = REPO + "/Sources"
COMPAT = "/opt/vp/llvm-compat/include"
DEFS = ['-DALUSUS_HIJRI_RELEASE_DATE=""', '-DALUSUS_RELEASE_DATE="2026-01-12"',
        '-DALUSUS_REVISION="-DEV"', '-DALUSUS_VERSION="0.0.0"', '-DUSE_LOGS']
BASE = DEFS + ["-g0", "-O0", "-w", "-fno-rtti", "-std=c++17", "-fPIC"]
CORE_INC = ["-I" + SRC + "/Srt/Srl", "-I" + SRC + "/Core"]
SPP_INC = ["-I" + COMPAT, "-I/usr/lib/llvm-14/include"] + CORE_INC + ["-I" + SRC + "/Spp",
           "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
CXX = "/usr/bin/clang++"


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big"))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))


def tree_headers(dirs):
    out = []
    for d in dirs:
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith(".h"):
                    out.append(os.path.join(root, f))
    return sorted(out)


def units(srcs, n):
    """compilation units: the sources in n groups of similar weight (membership by name order)"""
    g = [[] for _ in range(n)]
    w = [0] * n
    for f in sorted(srcs, key=lambda f: (-os.path.getsize(f) // 4096, f)):
        i = w.index(min(w))
        g[i].append(f)
        w[i] += os.path.getsize(f) + 3000
    return [x for x in g if x]


def weight(s):
    return os.path.getsize(s) if isinstance(s, str) else sum(map(os.path.getsize, s))


def build(jobs=8, verbose=False):
    os.makedirs(CACHE + "/obj", exist_ok=True)
    core_h = sha(*[p + "\0" + read(p).decode("utf-8", "replace") for p in tree_headers([SRC + "/Core", SRC + "/Srt"])])
    spp_h = sha(core_h, *[p + "\0" + read(p).decode("utf-8", "replace") for p in tree_headers([SRC + "/Spp"])])

    def make_pch(name, header, incs, key, extra):
        k = sha("pch2", key, " ".join(BASE + incs + extra))
        d = "%s/pch/%s-%s" % (CACHE, name, k)
        h = d + "/pch.h"
        if not os.path.exists(h + ".pch"):
            os.makedirs(d, exist_ok=True)
            with open(h, "w") as f:
                f.write('#include "%s"\n' % header)
            tmp = h + ".tmp%d" % os.getpid()
            run([CXX] + BASE + extra + incs + ["-x", "c++-header", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp", h, "-o", tmp])
            os.replace(tmp, h + ".pch")
        return h, k

    core_dirs = ["Basic", "Data", "Data/Grammar", "Data/Ast", "Notices", "Processing", "Processing/Handlers", "Main"]
    core_src = sum([sorted(glob.glob(SRC + "/Core/" + d + "/*.cpp")) for d in core_dirs], [])
    spp_src = [SRC + "/Spp/" + f for f in ("LibraryGateway.cpp", "BuildManager.cpp", "SeekerExtension.cpp",
               "RootScopeHandlerExtension.cpp", "RootManagerExtension.cpp", "main.cpp")]
    for d in ["Ast", "Notices", "Handlers", "Grammar", "CodeGen", "LlvmCodeGen", "Rt"]:
        spp_src += sorted(glob.glob(SRC + "/Spp/" + d + "/*.cpp"))
    tus = []  # (src, incs, extra, pchname)
    VH = ["-fvisibility=hidden"]
    for s in units(core_src, 8):
        tus.append((s, CORE_INC, VH, "core", "corelib"))
    for s in [SRC + "/Core/start.cpp", SRC + "/Core/interop.cpp"]:
        tus.append((s, CORE_INC, VH, "core", "exe"))
    for s in units(spp_src, 12):
        tus.append((s, SPP_INC, [], "spp", "spp"))
    tus.append((SRC + "/Core/core_global_storage.cpp", CORE_INC, VH, None, "storage"))
    tus.append((SRC + "/Srt/Srl/exceptions.cpp", CORE_INC, VH, None, "srl"))
    tus.append((SRC + "/Tests/main.cpp", CORE_INC, VH, None, "tests"))

    with cf.ThreadPoolExecutor(jobs) as pool:
        fc = pool.submit(make_pch, "core", SRC + "/Core/core.h", CORE_INC, core_h, VH)
        fs = pool.submit(make_pch, "spp", SRC + "/Spp/spp.h", SPP_INC, spp_h, [])
        pch = {}
        def comp1(srcs, incs, extra, pn):
            cmd = [CXX] + BASE + extra + incs
            key = sha("obj", *[x for f in srcs for x in (f, read(f))], core_h if pn != "spp" else spp_h, " ".join(cmd), str(pn))
            obj = "%s/obj/%s.o" % (CACHE, key)
            if not os.path.exists(obj):
                if pn:
                    h, k = (fc if pn == "core" else fs).result()
                    cmd = cmd + ["-include-pch", h + ".pch"]
                tmp = obj + ".tmp%d" % os.getpid()
                src = srcs[0]
                if len(srcs) > 1:
                    src = obj[:-2] + ".%d.cpp" % os.getpid()
                    with open(src, "w") as f:
                        f.write("".join('#include "%s"\n' % x for x in srcs))
                try:
                    run(cmd + ["-c", src, "-o", tmp])
                finally:
                    if len(srcs) > 1:
                        os.unlink(src)
                os.replace(tmp, obj)
            return obj

        def comp(tu):
            src, incs, extra, pn, group = tu
            if isinstance(src, str):
                return [comp1([src], incs, extra, pn)]
            try:
                return [comp1(src, incs, extra, pn)]
            except RuntimeError:
                # the sources of this unit do not compile together: one by one
                return [comp1([f], incs, extra, pn) for f in src]
        # big translation units first
        order = sorted(range(len(tus)), key=lambda i: -weight(tus[i][0]) * (3 if tus[i][3] == "spp" else 1))
        futs = {i: pool.submit(comp, tus[i]) for i in order}
        objs = [futs[i].result() for i in range(len(tus))]
    groups = {}
    for tu, o in zip(tus, objs):
        groups.setdefault(tu[4], []).extend(o)
    key = sha(*sorted(x for o in objs for x in o), read(SRC + "/Spp/linker_version_script.map"))
    dist = "%s/dist-%s" % (CACHE, key)
    if not os.path.exists(dist + "/ok"):
        tmp = dist + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        run([CXX, "-fPIC", "-shared", "-Wl,-soname,libalusus_storage.so", "-o", tmp + "/libalusus_storage.so"] + groups["storage"])
        run(["ar", "qc", tmp + "/libcore.a"] + groups["corelib"] + groups["srl"])
        lib = [tmp + "/libcore.a", tmp + "/libalusus_storage.so"]
        with cf.ThreadPoolExecutor(3) as pool:
            f = [pool.submit(run, [CXX, "-Wl,-rpath,$ORIGIN", "-rdynamic", "-fuse-ld=lld" if shutil.which("ld.lld") else "-O0", "-o", tmp + "/alusus"] + groups["exe"] + lib + ["-ldl"]),
                 pool.submit(run, [CXX, "-Wl,-rpath,$ORIGIN", "-rdynamic", "-fuse-ld=lld" if shutil.which("ld.lld") else "-O0", "-o", tmp + "/alusus_tests"] + groups["tests"] + [o[0] for t, o in zip(tus, objs) if isinstance(t[0], str) and t[0].endswith("interop.cpp")] + lib + ["-ldl"]),
                 pool.submit(run, [CXX, "-fPIC", "-shared", "-Wl,-rpath,$ORIGIN", "-Wl,-soname,libalusus_spp.dbg.so", "-o", tmp + "/libalusus_spp.so"] + groups["spp"]
                             + ["-L/usr/lib/llvm-14/lib", "-lLLVM-14"] + lib + ["-Wl,--version-script," + SRC + "/Spp/linker_version_script.map"])]
            for x in f:
                x.result()
        os.symlink("libalusus_spp.so", tmp + "/libalusus_spp.dbg.so")
        open(tmp + "/ok", "w").close()
        try:
            os.rename(tmp, dist)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return dist


if __name__ == "__main__":
    t = time.time()
    print(build())
    print("built in %.1fs" % (time.time() - t), file=sys.stderr)
