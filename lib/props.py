"""One function per property: what is enumerated, on which configurations."""
from harness import STD_ASSUME
from families import intarith as ia
from families import control as ct
from families import memory as me
from families import calls as ca
from families import floats as fl
from families import effects as ef
from families import pressure as pr
from families import inits as ini
from families import syntax as sx
from families import whole as wh
from asmcheck import Assembler
import rtcheck

TGT = ("riscv", "arm", "mips")
O2 = ["riscv:2", "arm:2", "mips:2"]
ALLCFG = ["%s:%d" % (t, o) for t in TGT for o in (0, 1, 2, 3)]
REST = ["riscv:3", "arm:0", "mips:3", "riscv:1", "arm:3", "mips:0", "riscv:0", "arm:1", "mips:1"]


class Rot:
    """every unit on `always`, plus n of `rot`, the choice advancing every `g` units so that packs stay homogeneous"""

    def __init__(self, always, rot, n=1, g=24):
        self.always, self.rot, self.n, self.g, self.k = list(always), list(rot), n, g, 0

    def __call__(self, u):
        g = self.k // self.g
        self.k += u.weight
        return self.always + [self.rot[(g * self.n + i) % len(self.rot)] for i in range(self.n if self.rot else 0)]


def sweep(ctx, units, tag, always=None, rot=None, n=1, **kw):
    """quick: `always` plus n rotating configurations per pack; thorough: all twelve target/level pairs"""
    units = list(units)
    pack = kw.pop("pack", 24)
    if ctx.quick:
        ctx.explore(units, Rot(O2 if always is None else always, REST if rot is None else rot, n, pack), tag=tag, pack=pack, **kw)
    else:
        ctx.explore(units, ALLCFG + [c for c in (always or []) + (rot or []) if c not in ALLCFG], tag=tag, pack=pack, **kw)


def every(units, k, off=0):
    return [u for i, u in enumerate(units) if (i + off) % k == 0]


# ---------------------------------------------------------------------------------------------------------------------
def c01(ctx):
    ctx.build()
    q = ctx.quick
    edge = [-2147483648, 2147483647, -2147483647, 2147483646, -2048, 2047, 2048, -2049, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, -32768, -32769, 65535, 65536, 1000000007]
    sweep(ctx, ia.one_const(), "one")
    sweep(ctx, ia.one_const_cmp([k for k in ia.CONSTS if abs(k) <= 20 or k in edge] if q else None), "onecmp")
    a = [-7, -4, -1, 0, 1, 2, 3, 8, 10, 2147483647] if q else [-100, -16, -8, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 1000, 65536, 2147483647]
    b = [-8, -3, -1, 0, 1, 2, 5, 16, 100] if q else [-128, -8, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 16, 100, 1024]
    sweep(ctx, ia.two_const(a, b), "two")
    sweep(ctx, ia.two_const_rev(a[:8] if q else a, [-8, -1, 0, 1, 5, 16] if q else b), "tworev")
    sweep(ctx, ia.cmp_arith(a + [16], [-2147483648, -9, -1, 0, 1, 2, 8, 100, 2147483647]), "cmpa")
    sweep(ctx, ia.two_var(), "twovar")
    sweep(ctx, ia.logic(), "logic")
    sweep(ctx, ia.logic_var(), "logicv")
    sweep(ctx, ia.select(), "select")
    sweep(ctx, ia.boolarith(), "bool")
    sweep(ctx, ia.ranged(), "range")
    sweep(ctx, ia.bitops(), "bit")
    mixed(ctx, ia.valuesets(), "valset", 6)
    mixed(ctx, ia.valuesets(True), "valwrap", 6, pack=1)
    mixed(ctx, ia.wrapsums(), "wsum", 6, pack=1)
    mixed(ctx, ia.zero_tests(q), "zero", 4)
    mixed(ctx, ia.edge_chain(), "edge", 3)
    mixed(ctx, ia.mod_sums(), "modsum", 3)
    mixed(ctx, ia.mod_sums(True), "modsumneg", 2, pack=1)
    sweep(ctx, ia.deep(["+", "-", "*", "/", "%"], ia.DEEP_LEAVES), "deep")
    if not q:
        sweep(ctx, ia.deep(["+", "-", "*", "/", "%", "<", "==", ">="], ia.DEEP_LEAVES, pre="deepc"), "deepc")
    return ctx.finish("model_checking", ctx.mc_coverage(
        "all integer expression functions of the families (one/two constants from the constant alphabet, two variables, logical combinations, "
        "conditional selections, boolean arithmetic, range-narrowed operands, bit operations, constant chains at the edge of the range, sums of remainders, depth-3 trees) x all input vectors of the boundary alphabets x configurations"), STD_ASSUME)


# ---------------------------------------------------------------------------------------------------------------------
MIX = ["riscv:2", "arm:3", "mips:2", "riscv:3", "arm:2", "mips:3", "riscv:2", "arm:1", "mips:3", "riscv:1", "arm:2", "mips:0",
       "riscv:3", "arm:3", "mips:2", "riscv:0", "arm:0", "mips:1"]


def mixed(ctx, units, tag, n=2, **kw):
    sweep(ctx, units, tag, always=[], rot=MIX, n=n, **kw)


def c02(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, ct.conds(), "conds", 3)
    mixed(ctx, ct.diamonds(), "diamonds")
    mixed(ctx, ct.retests(), "retests", 2)
    mixed(ctx, ct.loops(q), "loops", 1)
    mixed(ctx, ct.loop_exits(), "exits", 1)
    mixed(ctx, ct.accums(11 if q else 1), "accum", 1)
    mixed(ctx, ct.nested(), "nested", 1)
    mixed(ctx, ct.trips(), "trips")
    sweep(ctx, ct.ctrips(q), "ctrips", always=[], rot=["riscv:2", "arm:2", "mips:2", "riscv:3", "mips:3", "arm:3"], n=2)
    mixed(ctx, ct.longtrips(), "long", 1)
    mixed(ctx, every(ct.arms(), 3 if q else 1), "arms", 1)
    mixed(ctx, ct.chains(), "chains", 1)
    mixed(ctx, ct.syntax_loops(), "syntax", 6)
    mixed(ctx, ct.dowhile(), "dowhile", 6, pack=1)
    mixed(ctx, ct.grammar(3, 1, 0), "gram3", 4)
    mixed(ctx, ct.grammar(4, 8 if q else 1, 0), "gram4")
    if not q:
        sweep(ctx, ct.grammar(5, 8, 0), "gram5")
    return ctx.finish("model_checking", ctx.mc_coverage(
        "all single loops of the alphabet (initial value x condition x step x body), loops with early exits at every position, nested loops, "
        "chains of loops, comparisons in conditions, nested diamonds, every pair of conditions tested in turn around joins and inside loops, loops of up to 65535 rounds, arms which differ in one of several values, trip-count families (constant start, bound and step in either direction), and every program of the statement grammar up to the "
        "stated size x all input vectors of the boundary alphabets x configurations"), STD_ASSUME)


def c03(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, me.matmul(q), "matmul", 1, pack=3)
    mixed(ctx, me.reductions(), "reduce", 1)
    mixed(ctx, me.seqs(2), "seq2", 3)
    mixed(ctx, me.seqs(3, 6 if q else 1, "mseqb"), "seq3", 1)
    mixed(ctx, me.seqs_sep(3, 6 if q else 1), "sep3", 1)
    mixed(ctx, me.array_loops(q), "aloop", 1)
    mixed(ctx, me.matrices(q), "matrix", 1)
    mixed(ctx, me.tables(), "table", 2)
    mixed(ctx, me.mod_index(), "modidx", 3)
    mixed(ctx, me.globals_(3), "globals", 1)
    mixed(ctx, me.locals_(3), "locals", 1)
    mixed(ctx, me.nest_stores(21 if q else 1), "nests", 1)
    ctx.explore(list(me.reloads()), Rot(["riscv:3"], MIX3, 1, 2) if q else ALLCFG, tag="reload", pack=2)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "all statement sequences over overlapping / separate arrays, globals and local arrays (length 2 complete, length 3 complete in the thorough "
        "tier and every 6th in the quick tier), all index-pair array loops, reductions, loop nests over two-dimensional arrays, matrix products in every "
        "loop order, constant tables, elements selected by remainders, every pair of a read repeated around a store in every control structure x all input vectors x overlap of the arguments x configurations"), STD_ASSUME)


# the call transforms (tail calls, memo table, inlining of large bodies) run at -O3 only: one of every two configurations is an -O3 one
MIX3 = ["riscv:3", "arm:2", "mips:3", "riscv:2", "arm:3", "mips:2", "riscv:3", "arm:0", "mips:3", "riscv:1", "arm:3", "mips:1", "riscv:3", "mips:0", "arm:3", "riscv:0", "mips:3", "arm:1"]


def c04(ctx):
    ctx.build()
    for units, tag, n in ((ca.memo(), "memo", 4), (ca.recursion(), "rec", 2), (ca.tails(), "tail", 2), (ca.inlining(), "inl", 4), (ca.accumulated(), "acc", 2)):
        sweep(ctx, units, tag, always=[], rot=MIX3, n=n)
    sweep(ctx, ca.speculated(), "spec", always=[], rot=MIX3, n=6, pack=1)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "all self-recursive functions of the alphabet (base x step x combination, effects before/after, two and three recursive calls), every way of combining the recursive result in one or two branches, all tail calls with every "
        "argument permutation, memoised functions over colliding/negative/extreme keys in every order, every callee kind in every calling context "
        "(inlined and not) x input vectors x configurations"), STD_ASSUME)


def c05(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, fl.ops(), "fop", 12)
    mixed(ctx, fl.pairs(q), "fpair", 6)
    mixed(ctx, fl.compares(), "fcmp", 12)
    mixed(ctx, fl.ranges(), "frange", 3)
    nomips = ["riscv:3", "arm:2", "riscv:1", "arm:3", "riscv:2", "arm:1", "riscv:0", "arm:0"]
    for tag, units in (("frangen", fl.ranges(neg=True)), ("fnanr", fl.ranges(True)), ("fnanrn", fl.ranges(True, neg=True))):
        ctx.explore(list(units), Rot([], nomips, 2, 24) if q else nomips, tag=tag, pack=24)
    mixed(ctx, fl.conversions(), "fcvt", 12)
    mixed(ctx, fl.x_exprs(), "fexpr", 6)
    mixed(ctx, fl.x_loops(q), "floop", 6)
    mixed(ctx, fl.x_arrays(q), "farr", 6)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "all float operations on the value alphabet (signed zeros, subnormals, extremes), operations with one and two constants, every comparison in every context "
        "(infinities and NaN included), every pair of comparisons of one variable with constants (negated pairs and NaN not on MIPS), all int/float conversions, mixed arithmetic, multiply-add shapes on exact values, float loops, float arrays x configurations"), STD_ASSUME + [
        "an arithmetic result that is NaN or infinite is treated as undefined behaviour, +0 and -0 are the same value, a multiply may be fused into an addition"])


def c06(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, ef.stmts(2), "st2", 3)
    mixed(ctx, ef.stmts(3, 11 if q else 1), "st3", 2)
    mixed(ctx, ef.shortcircuit(q), "sc", 3)
    mixed(ctx, ef.loops(q), "el", 2)
    mixed(ctx, ef.calls(), "ec", 2)
    mixed(ctx, ef.mains(), "main", 6, pack=1)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "all sequences of effectful statements (length 2; length 3 complete in the thorough tier, every 11th in the quick tier), all boolean trees up to 4 leaves over "
        "effectful leaves, effects in every loop shape, effectful callees in every caller, whole programs x input tapes x configurations; "
        "the compared observation is the complete sequence of I/O calls with their arguments, the result, and the final contents of every global and array"), STD_ASSUME)


def c07(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, ca.arg_kinds(4 if q else 6), "args", 3)
    mixed(ctx, ca.arg_pass(), "pass", 6)
    mixed(ctx, ca.live_across(), "live", 3)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "every int/float/array parameter list up to the bound plus long uniform, alternating and mixed lists (up to 20), every selection of passed-on parameters, "
        "every number of integer and float values live across calls to each callee kind, straight and in loops x configurations"), STD_ASSUME)


def c08(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, pr.copies(q), "copies", 1, pack=12)
    mixed(ctx, pr.big_copies(), "bigcopies", 1, pack=6)
    if not q:
        sweep(ctx, pr.big_copies((16, 20), "rbm"), "bigcopies2", pack=3)
    mixed(ctx, pr.straight(), "straight", 2, pack=8)
    mixed(ctx, pr.merged(), "merged", 3, pack=4)
    mixed(ctx, pr.trees(), "trees", 2, pack=8)
    mixed(ctx, pr.loop_pressure(), "looppr", 2, pack=6)
    mixed(ctx, pr.frames(), "frames", 2, pack=3)
    mixed(ctx, pr.frames(pr.FRL, "frl"), "framesl", 2, pack=2)
    sweep(ctx, pr.frames([1022, 1100, 2000], "frx"), "framesx", always=["arm:2", "mips:2"], rot=["arm:3", "mips:3", "arm:0", "mips:0", "arm:1", "mips:1"], pack=6) if q else \
        ctx.explore(list(pr.frames([1022, 1100, 2000], "frx")), [c for c in ALLCFG if "riscv" not in c], tag="framesx", pack=6)
    mixed(ctx, pr.long_functions() if q else pr.long_functions((10, 20, 30, 40, 50, 60), far=(80, 160, 320)), "long", 3, pack=3)
    mixed(ctx, pr.wide(), "wide", 6)
    mixed(ctx, pr.offsets(), "offsets", 6)
    mixed(ctx, pr.addressing(), "addressing", 3)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "1 to 64 simultaneously live values in every definition/use order, every map of 2-4 loop-carried variables into themselves (all parallel-copy shapes), rotations, reversals "
        "and swaps of 6-14 loop-carried values, up to 40 values set by constants, computations or stack arguments in the arms of a conditional, expression trees up to 64 leaves, pressure in loops with branches, frames of every size around the addressing limits, every power-of-two "
        "neighbourhood constant in every use, element offsets around every immediate limit, every pair of index forms x inputs x configurations"), STD_ASSUME)


def c09(ctx):
    ctx.build()
    q = ctx.quick
    a = Assembler(ctx)
    allc = lambda i: ALLCFG  # noqa: E731
    six = lambda i: [MIX[(i * 6 + j) % len(MIX)] for j in range(6)] if q else ALLCFG  # noqa: E731
    two = lambda i: [MIX[(i * 2 + j) % len(MIX)] for j in range(2)] if q else ALLCFG  # noqa: E731
    k = 4 if q else 1
    a.explore(sx.symbols(), lambda i: ["riscv:2", "arm:2", "mips:2"] if q else ALLCFG, pack=1, tag="sym")
    a.explore(list(pr.frames()) + list(pr.frames(pr.FRL, "frl")), lambda i: [c for c in six(i) if "riscv" not in c], pack=3, tag="frames")
    a.explore(list(pr.frames()), ["riscv:0", "riscv:2", "riscv:3"], pack=3, tag="framesr")
    a.explore(pr.wide(), six, pack=24, tag="wide")
    a.explore(pr.offsets(), allc, pack=24, tag="offsets")
    a.explore(pr.addressing(), two, pack=24, tag="addr")
    a.explore(pr.long_functions(), six, pack=3, tag="long")
    a.explore(every(pr.straight(), 2 if q else 1), two, pack=8, tag="straight")
    a.explore(pr.trees(), two, pack=8, tag="trees")
    a.explore(ca.arg_pass(), two, pack=24, tag="pass")
    a.explore(every(ca.arg_kinds(4), k), two, tag="args")
    a.explore(every(ca.live_across(), k), two, tag="live")
    a.explore(me.tables(), two, tag="tables")
    a.explore(every(me.globals_(3), k), two, tag="globals")
    a.explore(every(ini.braces(), 8 if q else 1), two, tag="braces")
    a.explore(fl.ops(), six, tag="fop")
    a.explore(fl.conversions(), six, tag="fcvt")
    a.explore(fl.compares(), six, tag="fcmp")
    a.explore(ef.mains(), six, pack=1, tag="main")
    a.explore(ia.one_const(), six, tag="one")
    a.explore(ia.bitops(), six, tag="bit")
    a.explore(every(ct.loops(True), k), two, tag="loops")
    s = a.stat
    ctx.stats.update(s)
    return ctx.finish("model_checking", {"states": s["objects"], "transitions": s["instructions"], "traces_validated_against_impl": s["objects"], "program_units": ctx.nunits,
                                         "symbols_checked": s["symbols"], "samples": [{"modules": s["modules"], "objects": s["objects"]}],
                                         "explored_space": "every module of the listed program families x configurations, each emitted file assembled by the target's real assembler and its symbol table compared",
                                         "meaning": "states = distinct (module, configuration) outputs; transitions = emitted instructions accepted by the assembler"},
                      ["GNU as (RISC-V, ARM) and the LLVM integrated assembler (MIPS) define which instructions, operands and directives exist"])


def c10(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, ini.braces(q), "braces", 3)
    mixed(ctx, ini.consts(q), "consts", 6)
    mixed(ctx, ini.folding(q), "folding", 4)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "every brace structure (lists and elements, up to the stated number of items) for 13 array shapes x storage class and element type; every operator on every pair of the "
        "constant alphabet through named int/float constants at global and local scope; every pair of operators over constants, the same over variables; conversions; "
        "constant calls x configurations"), STD_ASSUME)


def c11(ctx):
    ctx.build()
    q = ctx.quick
    mixed(ctx, sx.precedence(q), "prec", 2)
    mixed(ctx, sx.literals(), "lit", 6)
    mixed(ctx, sx.symbols(), "sym", 3, pack=1)
    mixed(ctx, every(sx.statements(), 2) if q else sx.statements(), "stx", 2)
    mixed(ctx, sx.scopes(), "scp", 2)
    mixed(ctx, sx.extended(), "ext", 6)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "every pair and triple of binary operators without parentheses with every unary prefix (quick: fixed stride over the prefixes), every literal form, every adjacency of tokens and "
        "comments in the list, identifiers equal to registers, mnemonics and labels, every pair of statement forms under every header, every subset of nesting levels declaring one name "
        "x inputs x configurations"), STD_ASSUME)


# ---------------------------------------------------------------------------------------------------------------------
HID = [c + " -H" for c in ("riscv:2", "arm:3", "mips:2", "riscv:3", "arm:2", "mips:3", "riscv:1", "arm:1", "mips:2", "riscv:2", "arm:2", "mips:3", "riscv:3", "arm:3", "mips:0")]


def hidden(ctx, units, tag, n=1):
    units = list(units)
    if ctx.quick:
        ctx.explore(units, Rot([], HID, n, 1), tag=tag, pack=1)
    else:
        ctx.explore(units, [c + " -H" for c in ("riscv:2", "arm:3", "mips:2", "riscv:3", "arm:2", "mips:3")], tag=tag, pack=1)


def c12(ctx):
    ctx.build()
    q = ctx.quick
    hidden(ctx, wh.globals_(2, 8 if q else 1), "globals")
    hidden(ctx, wh.refs(3 if q else 1), "refs")
    hidden(ctx, wh.args(113 if q else 8), "args")
    hidden(ctx, wh.twoglobals(37 if q else 4), "two")
    hidden(ctx, wh.loops(7 if q else 1), "loops")
    hidden(ctx, wh.matrices(19 if q else 2), "mat")
    hidden(ctx, wh.braces(), "braces")
    hidden(ctx, [u for u in ef.mains()], "mains", 3)
    if not q:
        hidden(ctx, wh.globals_(3, 13), "globals3")
    return ctx.finish("model_checking", ctx.mc_coverage(
        "whole programs whose functions and globals are all private: every kind of global x helper x sequence of main statements, every way of passing arguments to a private function "
        "(constants, dead parameters, unused results, recursion), every aliasing of reference parameters, interleaved stores and loads of two globals, loop nests over private arrays, private matrices walked in every loop order next to every other kind of access, every brace structure as initialiser of a private global "
        "(fixed stride over each product in the quick tier) x input tapes x configurations with --hide-symbol"), STD_ASSUME)


SIM = ["sim:0", "sim:3", "sim:2", "sim:1"]


def c13(ctx):
    ctx.build()
    q = ctx.quick
    def sim(units, tag, n=1, pack=24):
        ctx.explore(list(units), Rot([], SIM, n, pack) if q else SIM, tag=tag, pack=pack, ctimeout=15)
    sim(every(ia.one_const(), 2 if q else 1), "one", 2)
    sim(ia.two_var(), "twovar")
    sim(every(ia.logic(), 2), "logic")
    sim(ia.bitops(), "bit", 2)
    sim(every(ia.select(), 3 if q else 1), "select", 2)
    sim(every(ia.boolarith(), 4 if q else 1), "bool", 2)
    sim(every(ia.ranged(), 2 if q else 1), "range", 2)
    sim(every(ct.retests(1, True), 4 if q else 1), "retests", 2)
    sim(every(ca.accumulated(), 3 if q else 1), "acc", 2)
    sim(ca.speculated(), "spec", 2, 1)
    sim(every(ct.loops(True), 4 if q else 1), "loops")
    sim(every(ct.loop_exits(), 4 if q else 1), "exits")
    sim(fl.ops(), "fop", 2)
    sim(fl.compares(), "fcmp", 4)
    sim(fl.conversions(), "fcvt", 4)
    sim([u for u in ef.mains() if "getfloat" not in u.src], "mains", 4, 1)
    sim(wh.globals_(2, 60 if q else 7), "wg", 1, 1)
    sim(wh.refs(12 if q else 2), "wr", 1, 1)
    sim(wh.args(1501 if q else 101), "wa", 1, 1)
    return ctx.finish("model_checking", ctx.mc_coverage(
        "the integer, float and control families of the other properties driven through the built-in interpreter (one run per module covers every defined input vector of every function), "
        "and whole programs with helpers, recursion, arrays and globals, at every optimization level"), STD_ASSUME)


# ---------------------------------------------------------------------------------------------------------------------
RT_ASSUME = ["the library compiled by g++ for the host with ThreadSanitizer's instrumentation behaves like its cross-compiled form; the stand-ins for clone, futex, mmap and waitpid follow Linux semantics",
             "atomics are explored under interleaving semantics; weaker orders are covered by the happens-before race detector over all plain accesses"]


def c14(ctx):
    rtcheck.build(ctx)
    sc, su = rtcheck.explore(ctx, "par")
    return rtcheck.finish(ctx, sc, su, "every interleaving of the main thread and the worker threads at atomic operations, fences and system calls (states merged), spurious futex wake-ups included, "
                          "for every start/stop and parallel-for scenario listed: loop sizes around every threshold, bounds at both ends of int32_t, one and several loops, repeated start and stop, "
                          "every outcome of the tuner's clock; some scenarios with bounded preemptions", RT_ASSUME)


def c15(ctx):
    rtcheck.build(ctx)
    sc, su = rtcheck.explore(ctx, "memo")
    return rtcheck.finish(ctx, sc, su, "every history of nested calls (begin with any key of the set, finish the innermost) up to the stated length over every listed set of colliding, adjacent and extreme keys, "
                          "states merged on the whole table contents", RT_ASSUME[:1])
