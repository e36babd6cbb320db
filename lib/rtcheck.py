"""Checks of the run-time library: the library source of the working tree under the explicit-state explorer src/rtmc.cpp."""
import json
import os
import subprocess
import harness

REDEF = "clone syscall mmap munmap waitpid sched_setaffinity clock_gettime gettimeofday usleep nanosleep sched_yield".split()
SRC = os.environ.get("VP_RT_SRC", "/repo/cmmc/Runtime/cmmc_sysy_rt.cpp")


def build(ctx):
    w = ctx.work
    def run(*a):
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            raise RuntimeError("%s: %s" % (" ".join(a)[:200], p.stdout[-3000:]))
    run("g++", "-std=c++17", "-O1", "-w", "-fPIC", "-fsanitize=thread", "-c", SRC, "-o", w + "/rt0.o")
    run("objcopy", *[x for s in REDEF for x in ("--redefine-sym", "%s=vp_%s" % (s, s))], w + "/rt0.o", w + "/rt.o")
    run("g++", "-shared", "-nostdlib", "-o", w + "/librt.so", w + "/rt.o")
    run("g++", "-std=c++17", "-O2", "-w", "-rdynamic", os.path.join(harness.HERE, "src/rtmc.cpp"), "-o", w + "/rtmc", "-ldl")


def explore(ctx, mode):
    p = subprocess.run([ctx.work + "/rtmc", ctx.work + "/librt.so", mode, ctx.tier if ctx.tier == "thorough" else "quick"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    sc, summ, nv = [], {}, 0
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if "violation" in d:
            nv += 1
            ctx.violation("rt/" + d["scenario"], mode, d["violation"], replay_text="schedule / history (from the initial state):\n" + "\n".join(map(str, d["trace"])) + "\n")
        elif "summary" in d:
            summ = d
        elif "scenario" in d:
            sc.append(d)
    if p.returncode not in (0, 1) or (p.returncode == 1) != (nv > 0):
        raise RuntimeError("rtmc exit %s: %s" % (p.returncode, (p.stderr or p.stdout)[-2000:]))
    return sc, summ


def finish(ctx, sc, summ, what, assume):
    inc = [s["scenario"] for s in sc if not s["complete"]]
    ctx.add(states=summ.get("states", 0), executions=summ.get("executions", 0), scenarios=len(sc), incomplete=len(inc))
    cov = {"states": summ.get("states", 0), "transitions": summ.get("transitions", summ.get("states", 0)), "traces_validated_against_impl": summ.get("executions", 0) or summ.get("states", 0),
           "scenarios": len(sc), "scenarios_incomplete": inc, "max_depth": max([s["depth"] for s in sc] or [0]),
           "samples": [{k: s[k] for k in ("scenario", "states", "depth")} for s in sc[:4]] or ["none"], "explored_space": what,
           "meaning": "the implementation itself is explored (no separate model): every state is a state of the compiled library, every transition a step of its code", **{k: v for k, v in summ.items() if k != "summary"}}
    return ctx.finish("model_checking", cov, assume, exhaustive=not inc)
