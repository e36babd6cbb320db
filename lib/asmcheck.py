"""Every emitted module goes through the real assembler of its target; the object's symbol table is compared with the source."""
import concurrent.futures as cf
import os
import subprocess
import sys
import threading
import time

AS = {"riscv": [["riscv64-linux-gnu-as", "-march=rv64gc_zba_zbb"]],
      "arm": [["arm-linux-gnueabihf-as", "-march=armv7ve", "-mfpu=vfpv4"]],
      "mips": [["clang", "--target=mipsel-linux-gnu", "-mcpu=mips32r2", "-Wno-unused-command-line-argument", "-c"]]}
NM = {"riscv": "riscv64-linux-gnu-nm", "arm": "arm-linux-gnueabihf-nm", "mips": "llvm-nm-18"}
RUNTIME = set("""getint getch getfloat getarray getfarray putint putch putfloat putarray putfarray putf _sysy_starttime _sysy_stoptime
memset memcpy cmmcCacheLookup cmmcParallelFor cmmcReduceAddI32 cmmcReduceAddF32 cmmcAddRec3SRem""".split())


class Assembler:
    def __init__(self, ctx):
        self.ctx, self.lock, self.n = ctx, threading.Lock(), 0
        self.stat = dict(modules=0, objects=0, symbols=0, instructions=0)
        self.nm = {t: n if any(os.access(os.path.join(d, n), os.X_OK) for d in os.environ["PATH"].split(":")) else "nm" for t, n in NM.items()}

    def one(self, units, cfg):
        """returns None or the complaint"""
        t, o = cfg.split(":")
        with self.lock:
            self.n += 1
            b = os.path.join(self.ctx.work, "as%d" % self.n)
        try:
            with open(b + ".sy", "w", newline="") as f:
                f.write("\n".join(u.src for u in units))
            r = subprocess.run([self.ctx.cmmc, "-t", t, "-O", o, "--with-runtime=false", "-w", "0", "-o", b + ".s", b + ".sy"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            if r.returncode or not os.path.exists(b + ".s"):
                return "compiler exit %d: %s" % (r.returncode, r.stdout[-300:])
            for cmd in AS[t]:
                r = subprocess.run(cmd + [b + ".s", "-o", b + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode:
                    return "%s rejects the emitted code: %s" % (cmd[0], r.stdout[:400].replace(b, ""))
            r = subprocess.run([self.nm[t], "-P", b + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sym = {}
            for l in r.stdout.splitlines():
                w = l.split()
                if len(w) >= 2:
                    sym[w[0]] = w[1]
            und = sorted(s for s, k in sym.items() if k in "Uw" and s not in RUNTIME)
            if und:
                return "undefined symbols " + " ".join(und[:6])
            for u in units:
                for fn in u.fns:
                    if sym.get(fn[0]) != "T":
                        return "function %s is not an exported text symbol (%s)" % (fn[0], sym.get(fn[0]))
            with self.lock:
                self.stat["objects"] += 1
                self.stat["symbols"] += len(sym)
                self.stat["instructions"] += sum(1 for l in open(b + ".s", errors="replace") if l.startswith("\t") and not l.startswith("\t.") and l[1] not in "#@")
            return None
        except subprocess.TimeoutExpired:
            return "compiler does not end within 120 s"
        finally:
            for e in (".sy", ".s", ".o"):
                if os.path.exists(b + e):
                    os.unlink(b + e)

    def explore(self, units, cfgs, pack=24, tag=""):
        groups, cur = [], []
        for u in units:
            cur.append(u)
            if sum(x.weight for x in cur) >= pack:
                groups.append(cur)
                cur = []
        if cur:
            groups.append(cur)
        jobs = [(g, c) for i, g in enumerate(groups) for c in (cfgs(i) if callable(cfgs) else cfgs)]
        self.stat["modules"] += len(groups)
        self.ctx.nunits += sum(len(g) for g in groups)
        t0 = time.time()
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            bad = [(j, m) for j, m in zip(jobs, ex.map(lambda j: self.one(*j), jobs)) if m]
            if os.environ.get("VP_TIMES"):
                print("%s: %d jobs %.1f s" % (tag, len(jobs), time.time() - t0), file=sys.stderr)
            n = 0
            for (g, c), m in bad:
                if len(g) > 1 and n < 4:
                    n += 1
                    hit = False
                    for u, m2 in zip(g, ex.map(lambda u: self.one([u], c), g)):
                        if m2:
                            hit = True
                            self.ctx.violation(u.id, c, m2, replay_text=u.src)
                    if hit:
                        continue
                self.ctx.violation(g[0].id if len(g) == 1 else "module:%s-%s" % (tag, g[0].id), c, m, replay_text="\n".join(u.src for u in g))
