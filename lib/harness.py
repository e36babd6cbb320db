"""Shared driver of the checks: packs enumerated units into modules, runs the exploration engine on every
(unit, configuration, input vector), isolates failing units, applies the known-findings list, writes evidence."""
import fnmatch
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild  # noqa: E402

I32MIN, I32MAX = -2147483648, 2147483647


def fbits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


class Unit:
    """A self-contained piece of program with unique symbol names.
    fns: list of (function name, [arg specs], [input lists] or None); arg spec: string understood by the engine"""
    __slots__ = ("id", "src", "fns", "opts", "weight")

    def __init__(self, id, src, fns, opts=(), weight=1):
        self.id, self.src, self.fns, self.opts, self.weight = id, src, fns, tuple(opts), weight


def I(*vals):
    return "i " + ",".join(str(v) for v in vals)


def F(*vals):
    return "f " + ",".join(str(fbits(v)) for v in vals)


def A(*arrs):
    return "A " + "/".join(",".join(str(v) for v in a) for a in arrs)


def FA(*arrs):
    return "F " + "/".join(",".join(str(fbits(v)) for v in a) for a in arrs)


def alias(k, off=0):
    return "@ %d+%d" % (k, off)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.viol = []
        self.known_hits = []
        self.stats = {}
        self.samples = []
        self.mnems = {}
        self.notes = {}
        self.known = load_known(prop)
        self.replay_dir = os.path.join(HERE, "evidence", "replay", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.nunits = 0
        self.labels = []
        self.cmmc = self.engine = None

    @property
    def quick(self):
        return self.tier != "thorough"

    def build(self, extra=(), opt="-O1"):
        self.cmmc, self.engine = vbuild.build_all(self.work, extra, opt)
        self.notes["build_s"] = round(time.time() - self.t0, 1)

    def add(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    # -- engine ---------------------------------------------------------------------------------
    def _write_jobs(self, path, jobs):
        with open(path, "wb") as f:
            for name, units, cfgs, opts in jobs:
                f.write(("JOB %s\n" % name).encode())
                for c in cfgs:
                    f.write(("CFG %s\n" % c).encode())
                for o in opts:
                    f.write((o + "\n").encode())
                src = "\n".join(u.src for u in units).encode()
                f.write(b"SRC %d\n" % len(src) + src + b"\n")
                for u in units:
                    for fn in u.fns:
                        f.write(("FN %s\n" % fn[0]).encode())
                        for a in fn[1]:
                            f.write(("ARG %s\n" % a).encode())
                        if len(fn) > 2 and fn[2] is not None:
                            f.write(("IN " + "/".join(" " + ",".join(str(v) for v in x) for x in fn[2]) + "\n").encode())
                f.write(b"END\n")

    def _engine(self, jobs, tag, ctimeout=60):
        jf = os.path.join(self.work, "jobs-%s.txt" % tag)
        out = os.path.join(self.work, "out-%s" % tag)
        self._write_jobs(jf, jobs)
        p = subprocess.run([self.engine, "--cmmc", self.cmmc, "--out", out, "--prop", self.prop, "--jobs", jf, "--ctimeout", str(ctimeout)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode not in (0, 1):
            raise RuntimeError("engine exit %s: %s" % (p.returncode, p.stderr[-3000:]))
        viol, st = [], None
        for line in p.stdout.splitlines():
            d = json.loads(line)
            if "stats" in d:
                st = d
            elif "label" in d:
                self.labels.append(d)
            else:
                viol.append(d)
        os.unlink(jf)
        return viol, st

    def explore(self, units, cfgs, pack=24, tag="main", opts=(), isolate_limit=6, ctimeout=60):
        """units: iterable of Unit; cfgs: list of config strings, or callable unit->list"""
        if len(self.viol) >= 12:   # enough to report: the rest of the space would only repeat it
            self.notes["stopped_early"] = "after %d violations" % len(self.viol)
            return
        units = list(units)
        ids = set()
        for u in units:
            if u.id in ids:
                raise RuntimeError("duplicate unit id " + u.id)
            ids.add(u.id)
        self.nunits += len(units)
        groups, cur, curw = [], {}, {}
        for u in units:
            c = tuple(cfgs(u) if callable(cfgs) else cfgs)
            solo = any("unit" in k and fnmatch.fnmatchcase(u.id, k["unit"]) for k in self.known)
            key = (c, u.opts)
            if solo:
                groups.append(((c, u.opts + ("KNOWN",)), [u]))
                continue
            cur.setdefault(key, []).append(u)
            curw[key] = curw.get(key, 0) + u.weight
            if curw[key] >= pack:
                groups.append((key, cur.pop(key)))
                curw[key] = 0
        for key, us in cur.items():
            groups.append((key, us))
        groups.sort(key=lambda g: -sum(u.weight for u in g[1]))
        jobs = [("%s-%d" % (tag, i), us, key[0], tuple(opts) + key[1]) for i, (key, us) in enumerate(groups)]
        t0 = time.time()
        viol, st = self._engine(jobs, tag, ctimeout)
        if os.environ.get("VP_TIMES"):
            print("%s: %d jobs %.1f s" % (tag, len(jobs), time.time() - t0), file=sys.stderr)
        self._merge(st)
        self._labels()
        if not viol:
            return
        byname = {j[0]: j for j in jobs}
        fn2unit = {}
        for u in units:
            for fn in u.fns:
                fn2unit[(u.id, fn[0])] = u
        bad = {}
        for v in viol:
            bad.setdefault(v["job"], []).append(v)
        # isolate: run the units of a failing module one by one
        solo_jobs, todo, n = [], [], 0
        for jn, vs in bad.items():
            _, us, c, o = byname[jn]
            if len(us) == 1:
                for v in vs:
                    self._report(us[0], v)
                continue
            n += 1
            if n > isolate_limit:
                continue
            fns = {v["fn"] for v in vs}
            cset = tuple(x for x in c if any(v["cfg"].split(" schedule ")[0] == x for v in vs))
            sus = us if "" in fns else [u for u in us if any(f[0] in fns for f in u.fns)]
            for u in sus:
                name = "%s-iso-%d" % (tag, len(solo_jobs))
                solo_jobs.append((name, [u], cset or c, o))
                todo.append((name, jn, u, vs))
        if solo_jobs:
            v2, st2 = self._engine(solo_jobs, tag + "-iso", ctimeout)
            self._labels()
            hit = {}
            for v in v2:
                hit.setdefault(v["job"], []).append(v)
            explained = set()
            for name, jn, u, vs in todo:
                for v in hit.get(name, []):
                    explained.add(jn)
                    self._report(u, v)
            for jn in {t[1] for t in todo}:
                if jn not in explained:
                    for v in bad[jn]:
                        self._report(None, v)

    def _merge(self, st):
        for k in ("programs", "compiles", "vectors", "undef", "executions", "guest_steps", "ref_steps", "outcomes", "asm_lines"):
            self.stats[k] = self.stats.get(k, 0) + st[k]
        for m, n in st["mnemonics"].items():
            self.mnems[m] = self.mnems.get(m, 0) + n
        self.samples += st["samples"][:3]

    def match_known(self, uid, cfg, what):
        for k in self.known:
            if "unit" in k and fnmatch.fnmatchcase(uid, k["unit"]) and fnmatch.fnmatchcase(cfg, k["cfg"]) and k["match"] in what:
                return k
        return None

    def _labels(self):
        for d in self.labels:
            for k in self.known:
                if k.get("label") == d["label"] and fnmatch.fnmatchcase(d["cfg"], k["cfg"]):
                    self.known_hits.append((d["fn"], d["cfg"], d["what"], k))
                    break
            else:
                self.violation(d["fn"], d["cfg"], "%s [%s]" % (d["what"], d["label"]))
        self.labels = []

    def _report(self, unit, v):
        uid = unit.id if unit else "module:" + v["job"]
        self.violation(uid, v["cfg"], v["violation"], v.get("replay"))

    def violation(self, uid, cfg, what, replay_src=None, replay_text=None):
        k = self.match_known(uid, cfg, what)
        if k is not None:
            self.known_hits.append((uid, cfg, what, k))
            return
        if len(self.viol) >= 40:
            self.viol.append(None)
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, "viol-%d.txt" % (len(self.viol) + 1))
        with open(p, "w") as f:
            f.write("property: %s\nunit: %s\nconfig: %s\nwhat: %s\n\n" % (self.prop, uid, cfg, what))
            if replay_src and os.path.exists(replay_src):
                f.write(open(replay_src, errors="replace").read())
            if replay_text:
                f.write(replay_text)
        self.viol.append((uid, cfg, what, p))

    # -- end ------------------------------------------------------------------------------------
    def finish(self, level, coverage, assumptions, exhaustive=True):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
              "coverage": dict(coverage), "assumptions": list(assumptions), "wall_s": round(wall, 2),
              "violations": len(self.viol), "known_findings_hit": len({(h[0], h[1]) for h in self.known_hits})}
        ev["coverage"].setdefault("exhaustive", exhaustive)
        ev["coverage"].update({k: v for k, v in self.notes.items()})
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for uid, cfg, what, k in self.known_hits:
            key = k["id"]
            if key in seen:
                continue
            seen.add(key)
            print("KNOWN-FINDING: property=%s %s [%s %s: %s]" % (self.prop, k["text"], uid, cfg, what[:160]))
        for v in self.viol[:40]:
            if v is None:
                continue
            uid, cfg, what, p = v
            print("  unit %s config '%s': %s" % (uid, cfg, what[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %s in %.1fs; %s" % (self.prop, self.tier, "VIOLATED" if self.viol else "held", wall,
                                         ", ".join("%s=%s" % kv for kv in sorted(self.stats.items()))))
        sys.stdout.flush()
        return 1 if self.viol else 0

    def mc_coverage(self, what, extra=None):
        s = self.stats
        c = {"states": s.get("outcomes", 0), "transitions": s.get("guest_steps", 0) + s.get("ref_steps", 0),
             "traces_validated_against_impl": s.get("executions", 0), "samples": self.samples[:6] or ["none"],
             "program_units": self.nunits, "modules": s.get("programs", 0), "compiler_runs": s.get("compiles", 0),
             "input_vectors": s.get("vectors", 0), "vectors_undefined_skipped": s.get("undef", 0),
             "emitted_instructions_decoded": s.get("asm_lines", 0), "distinct_mnemonics": len(self.mnems),
             "explored_space": what,
             "meaning": "states = distinct terminal observations of the reference machine; transitions = reference steps + emulated "
                        "target instructions; traces_validated = complete executions of emitted code compared with the reference trace"}
        if extra:
            c.update(extra)
        return c

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for i, l in enumerate(open(p)):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == "*" or prop in d["property"].split(","):
                d["id"] = i
                d.setdefault("match", "")
                d.setdefault("cfg", "*")
                r.append(d)
    return r


STD_ASSUME = [
    "the reference machine (src/sysy_ref.hpp) states SysY semantics; inputs on which it finds undefined behaviour are skipped",
    "the target emulators (src/emu.hpp) implement the documented RV64GC+Zba+Zbb, ARMv7-A+VFPv4 and MIPS32 semantics",
    "g++ -O1 builds of the compiler behave like the release build",
]


def main(prop, fn):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = Ctx(prop, tier)

    def onsig(s, f):
        raise KeyboardInterrupt
    signal.signal(signal.SIGTERM, onsig)
    try:
        rc = fn(ctx)
    finally:
        if not os.environ.get("VP_KEEP"):
            ctx.cleanup()
        else:
            print("kept", ctx.work)
    return rc
