"""Builds the compiler under test (from /repo's working tree) and the exploration engine, outside /repo."""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = os.cpu_count() or 4

PCH = """
#include <cstdint>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <vector>
#include <string>
#include <string_view>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <memory>
#include <limits>
#include <iterator>
#include <variant>
#include <optional>
#include <functional>
#include <type_traits>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <array>
#include <chrono>
#include <utility>
#include <random>
#include <numeric>
#include <cmmc/IR/Instruction.hpp>
#include <cmmc/IR/Block.hpp>
#include <cmmc/IR/Function.hpp>
#include <cmmc/IR/ConstantValue.hpp>
#include <cmmc/IR/Type.hpp>
#include <cmmc/IR/Value.hpp>
#include <cmmc/IR/Module.hpp>
#include <cmmc/IR/IRBuilder.hpp>
#include <cmmc/Support/Diagnostics.hpp>
#include <cmmc/Analysis/AnalysisPass.hpp>
#include <cmmc/Transforms/TransformPass.hpp>
#include <cmmc/CodeGen/Target.hpp>
#include <cmmc/CodeGen/MIR.hpp>
"""


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(map(str, cmd)), r.stdout[-3000:]))
    return r.stdout


def which(*names):
    for n in names:
        for d in os.environ.get("PATH", "").split(":") + ["/usr/bin"]:
            if os.access(os.path.join(d, n), os.X_OK):
                return os.path.join(d, n)
    raise BuildError("no " + names[0])


def generate(gen):
    fe = os.path.join(REPO, "cmmc/Frontend")
    for f in ("Spl", "SysY"):
        os.makedirs(os.path.join(gen, f), exist_ok=True)
    jobs = []
    for f in ("Spl", "SysY"):
        d = os.path.join(gen, f)
        jobs.append(["flex", "-P", f, "--header-file=" + d + "/ScannerDecl.hpp", "-o" + d + "/ScannerImpl.hpp", fe + "/Scanner" + f + ".ll"])
        jobs.append(["bison", "--language=c++", "--defines=" + d + "/ParserDecl.hpp", "-o", d + "/ParserImpl.hpp", fe + "/Parser" + f + ".yy"])
    py = which("python3")
    tg = os.path.join(REPO, "cmmc/Target")

    def tgt(t):
        os.makedirs(os.path.join(gen, t), exist_ok=True)
        run([py, tg + "/Template/generate.py", "%s/%s/%s.yml" % (tg, t, t), os.path.join(gen, t)], cwd=gen, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))

    def rt(t):
        os.makedirs(os.path.join(gen, t), exist_ok=True)
        run([py, REPO + "/cmmc/Runtime/compile_runtime.py", t, os.path.join(gen, t, "SysYRuntime.hpp")], cwd=gen, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))

    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(run, j, cwd=gen) for j in jobs]
        fs += [ex.submit(rt, t) for t in ("RISCV", "ARM")]
        fs += [ex.submit(tgt, "Generic")]
        fs += [ex.submit(tgt, t) for t in ("TAC", "RISCV", "MIPS", "ARM")]
        for f in fs:
            f.result()


def sources():
    pats = ["cmmc/*/*.cpp", "cmmc/Transforms/*/*.cpp", "cmmc/Target/*/*.cpp", "cmmc/Frontend/Support/*.cpp"]
    s = set()
    for p in pats:
        s.update(glob.glob(os.path.join(REPO, p)))
    bad = ("LLVM.cpp", "LLVMOrcJIT.cpp", "cmmc_sysy_rt.cpp")
    return sorted((x for x in s if not x.endswith(bad) and "mimalloc" not in x), key=lambda x: -os.path.getsize(x))


MI = ["alloc", "alloc-aligned", "alloc-posix", "arena", "bitmap", "heap", "init", "options", "os", "page", "random", "segment",
      "segment-map", "stats", "prim/prim"]


def build_cmmc(work, extra=(), want=("cmmc",), opt="-O1", objs_filter=None):
    """returns the path of the compiler; objects stay in work/o (all but Driver's main can be relinked)"""
    gen = os.path.join(work, "gen")
    out = os.path.join(work, "o")
    os.makedirs(gen, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    generate(gen)
    inc = ["-I" + gen, "-I" + REPO, "-I" + REPO + "/cmmc/Support/mimalloc/include"]
    flags = ["g++", "-DCMMC_ENABLE_DETERMINISTIC"] + inc + ["-std=c++17", "-DNDEBUG", "-w", "-march=x86-64", "-ffp-contract=on", opt] + list(extra)
    pch = os.path.join(work, "pch.hpp")
    with open(pch, "w") as f:
        f.write(PCH)
    has_pch = True
    try:
        run(flags + ["-x", "c++-header", pch, "-o", pch + ".gch"])
    except BuildError:
        has_pch = False
    objs = []

    def comp(a):
        i, s = a
        o = os.path.join(out, "%03d_%s.o" % (i, os.path.basename(s)[:-4]))
        if has_pch and not s.endswith("CodeGen/Lowering.cpp"):
            r = subprocess.run(flags + ["-include", pch, "-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                return o
        run(flags + ["-c", s, "-o", o])
        return o

    def compc(n):
        o = os.path.join(out, "mi_" + n.replace("/", "_") + ".o")
        run(["gcc", "-DMI_STATIC_LIB", "-O1", "-w", "-DNDEBUG", "-I" + REPO + "/cmmc/Support/mimalloc/include", "-c",
             REPO + "/cmmc/Support/mimalloc/src/" + n + ".c", "-o", o])
        return o

    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(comp, a) for a in enumerate(sources())]
        fs += [ex.submit(compc, n) for n in MI]
        objs = [f.result() for f in fs]
    exe = os.path.join(work, "cmmc")
    run(["g++", "-o", exe] + objs + list(extra) + ["-lpthread"])
    return exe, objs, flags


def build_engine(work):
    exe = os.path.join(work, "engine")
    o1, o2 = os.path.join(work, "rt.o"), os.path.join(work, "engine.o")
    run(["g++", "-O1", "-w", "-std=c++20", "-c", os.path.join(REPO, "cmmc/Runtime/cmmc_sysy_rt.cpp"), "-o", o1])
    # the worker threads are not started in the engine: only the pure support routines are used
    run(["objcopy", "--remove-section", ".init_array", "--remove-section", ".fini_array", "--remove-section", ".ctors", "--remove-section",
         ".dtors", "--remove-section", ".rela.init_array", "--remove-section", ".rela.fini_array", o1])
    run(["g++", "-O2", "-w", "-std=c++17", "-c", HERE + "/src/engine.cpp", "-o", o2])
    run(["g++", o1, o2, "-o", exe, "-lpthread"])
    return exe


def build_all(work, extra=(), opt="-O1"):
    os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        e = ex.submit(build_engine, work)
        c = ex.submit(build_cmmc, work, extra, ("cmmc",), opt)
        exe, objs, flags = c.result()
        return exe, e.result()


if __name__ == "__main__":
    import time
    t = time.time()
    print(build_all(sys.argv[1], extra=sys.argv[2:]), time.time() - t)
