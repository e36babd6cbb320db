#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded-exhaustive enumeration of programs and inputs on the reference machine (explicit-state), every emitted program executed on a target machine model and its whole observation compared"

P = []


def prop(id, title, statement, over, otext, why, files, mech, observe, state=None, hook=None, technique=TECH, claimed=True, note="", reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, otext=otext, why=why, files=files, mech=mech, observe=observe, state=state,
                  hook=hook, technique=technique, claimed=claimed, note=note, reason=reason))


BACK = ["cmmc/CodeGen/Lowering.cpp", "cmmc/CodeGen/Peephole.cpp", "cmmc/Target/RISCV/RISCVISelInfo.cpp", "cmmc/Target/ARM/ARMISelInfo.cpp", "cmmc/Target/MIPS/MIPSISelInfo.cpp"]

prop("C01", "Integer expressions compute the value the language defines",
     "For every integer expression and every input on which it is defined, the code emitted for RISC-V, ARM and MIPS at every optimisation level returns the 32-bit value the language defines. "
     "This covers wrapping-free arithmetic, division and remainder by constants and variables, shifts and bit operations, comparisons, logical operators, selections, and operands whose range is narrowed by surrounding conditions. "
     "Rewriting, strength reduction and instruction selection must not change any of these values.",
     ["programs", "inputs", "configurations"], "all expressions of the enumerated shapes x boundary and small operand values x target x optimisation level",
     "Tests sample a few constants and operands; a wrong magic number, a comparison narrowed past INT_MAX or a bad immediate form shows only for particular constants and operands.",
     ["cmmc/Transforms/Combine/ArithmeticReduce.cpp", "cmmc/Transforms/Combine/ConstraintReduce.cpp", "cmmc/CodeGen/MultiplyByConstant.cpp"] + BACK,
     [("algebraic rewriting", "cmmc/Transforms/Combine/ArithmeticReduce.cpp"), ("constant division/multiplication", "cmmc/CodeGen/Lowering.cpp"), ("instruction selection", "cmmc/Target/ARM/ARMISelInfo.cpp"), ("range based rewriting", "cmmc/Transforms/Combine/RangeAwareArithReduce.cpp")],
     ["return value of the emitted function under the target machine model", "return value of the reference machine"],
     note="exhaustive over the stated expression families and operand alphabets")

prop("C02", "Control flow and loops run exactly as written",
     "For every structured program of conditionals, loops, early exits and nested loops over integers, the emitted code for every target and optimisation level takes the same path and produces the same result as the source, for every trip count including zero, one and the boundaries of unrolling. "
     "Loops that end do end after the same number of iterations, and the final values of all variables after a loop are those of the last executed iteration.",
     ["programs", "inputs", "configurations"], "all programs of the enumerated loop and statement grammars up to the stated size x trip counts and condition values x target x level",
     "Loop and branch transforms are guarded by side conditions (trip counts, exits, ranges); an unsound guard shows only for one combination of bound, step and body.",
     ["cmmc/Transforms/Loop/LoopUnroll.cpp", "cmmc/Transforms/Loop/DynamicLoopUnroll.cpp", "cmmc/Transforms/Loop/LoopRotate.cpp", "cmmc/Transforms/Loop/IndVarSimplify.cpp", "cmmc/Transforms/ControlFlow", "cmmc/Analysis/LoopAnalysis.cpp", "cmmc/Analysis/SCEVAnalysis.cpp"],
     [("loop transforms", "cmmc/Transforms/Loop"), ("control flow simplification", "cmmc/Transforms/ControlFlow"), ("block layout and branches", "cmmc/CodeGen/BlockLayoutOpt.cpp")],
     ["return value and termination of the emitted function", "reference machine trace"],
     note="exhaustive over the stated loop families and the statement grammar up to the bound")

prop("C03", "Arrays, globals and aggregate memory hold exactly what was stored",
     "For every program that reads and writes arrays, globals and local aggregates, every load returns the value of the last store to that element, whichever names, array parameters or overlapping arguments lead to it. "
     "After the program every global and every array passed in holds exactly the values the source stores, on every target and at every optimisation level. "
     "Promotion to registers, store elimination, load reuse, loop interchange, and moving code across memory accesses must not change this.",
     ["programs", "inputs", "configurations"], "all enumerated statement sequences and loops over arrays x inputs x aliasing of the arguments x target x level",
     "Alias and liveness reasoning is right or wrong per combination of accesses; a test covers one combination, the property needs every combination of index, order and overlap.",
     ["cmmc/Transforms/Combine/LoadReduce.cpp", "cmmc/Transforms/Combine/ScalarMem2Reg.cpp", "cmmc/Transforms/DCE/StoreEliminate.cpp", "cmmc/Transforms/DCE/StoreOnlyGlobalEliminate.cpp", "cmmc/Transforms/Misc/GlobalScalar2Local.cpp", "cmmc/Transforms/Misc/SROA.cpp", "cmmc/Transforms/Loop/LICMMemory.cpp", "cmmc/Transforms/Loop/LoopInterchange.cpp", "cmmc/Transforms/Merge/TailStoreMerge.cpp", "cmmc/Analysis/AliasAnalysis.cpp", "cmmc/Analysis/PointerAddressSpaceAnalysis.cpp"],
     [("alias queries", "cmmc/Analysis/AliasAnalysis.cpp"), ("memory promotion", "cmmc/Transforms/Misc/SROA.cpp"), ("redundant loads and dead stores", "cmmc/Transforms/DCE/StoreEliminate.cpp"), ("loop memory motion", "cmmc/Transforms/Loop/LICMMemory.cpp")],
     ["return value of the emitted function", "final contents of every array argument and global in target memory"],
     note="exhaustive over the stated families (longest sequences by a fixed stride in the quick tier)")

prop("C04", "Calls, recursion, tail calls and memoised calls return what the body defines",
     "Every call, direct, mutually or self recursive, in tail position or not, evaluates to what the source of the callee defines for its arguments and has exactly its side effects once. "
     "This holds when the callee is inlined, when a tail call is turned into a loop, when unused arguments or results are dropped, and when results are remembered in the run-time memo table, for every argument value including negative and extreme ones.",
     ["programs", "inputs", "histories", "configurations"], "all enumerated recursive shapes, argument permutations, callee/caller combinations and key sequences x target x level",
     "Inlining and recursion rewriting depend on which argument feeds which; the memo table fails only for particular key collisions and nesting, which no sampled test hits.",
     ["cmmc/Transforms/IPO/Inlining.cpp", "cmmc/Transforms/ControlFlow/TailCallEliminate.cpp", "cmmc/Transforms/Misc/StatelessCache.cpp", "cmmc/Transforms/Misc/ConstexprFuncEval.cpp", "cmmc/Transforms/DCE/DeadArgEliminate.cpp", "cmmc/Transforms/IPO/DiscardReturnValue.cpp", "cmmc/Transforms/IPO/IPConstantPropagation.cpp", "cmmc/Runtime/cmmc_sysy_rt.cpp"],
     [("inlining", "cmmc/Transforms/IPO/Inlining.cpp"), ("tail calls", "cmmc/Transforms/ControlFlow/TailCallEliminate.cpp"), ("memo table", "cmmc/Runtime/cmmc_sysy_rt.cpp")],
     ["return value and I/O of the emitted functions linked with the real memo table"],
     note="exhaustive over the stated families; the real cmmcCacheLookup runs inside the machine model")

prop("C05", "Floating-point code computes the defined single-precision values",
     "For every float expression, conversion, comparison and float loop whose value is defined and finite, the emitted code for every target returns exactly the single-precision result of the source; the only freedom taken is fusing a multiply into an addition. "
     "Comparisons involving infinities and NaN take the side the language defines, conversions truncate toward zero, and integers are converted with correct rounding.",
     ["programs", "inputs", "configurations"], "all expressions, comparisons and conversions of the enumerated shapes x a value alphabet with signed zeros, subnormals, extremes, halves and inexact integers x target x level",
     "A float rewrite that is wrong for one rounding case, one signed zero or one unordered comparison passes every test that does not use that very value.",
     ["cmmc/Transforms/Combine/ArithmeticReduce.cpp", "cmmc/Transforms/Combine/CombineFma.cpp", "cmmc/Transforms/Combine/ConstantPropagation.cpp"] + BACK,
     [("float rewriting", "cmmc/Transforms/Combine/ArithmeticReduce.cpp"), ("fused multiply-add selection", "cmmc/Transforms/Combine/CombineFma.cpp"), ("float compare selection", "cmmc/Target/MIPS/MIPSISelInfo.cpp")],
     ["bit pattern of the returned float (zero signs identified)", "returned int of comparisons and conversions"],
     note="exhaustive over the stated expression families and value alphabets; NaN/infinite arithmetic results are outside the property")

prop("C06", "I/O and side effects happen exactly as often and in the order written",
     "The sequence of input and output calls an emitted program performs, with their arguments, is exactly the sequence the source prescribes: none lost, none repeated, none reordered, with && and || evaluating their right side only when needed. "
     "Global variables have the prescribed value at every call that can observe them, and the exit code of the program is the value main returns.",
     ["programs", "histories", "configurations"], "all enumerated sequences of effectful statements, boolean trees over effectful leaves, effectful loops and calls x input tapes x target x level",
     "Dead-code elimination, code motion and branch rewriting may drop, duplicate or reorder one effect on one path only; tests look at a handful of paths.",
     ["cmmc/Transforms/DCE/NoSideEffectEliminate.cpp", "cmmc/Transforms/DCE/CallLoadEliminate.cpp", "cmmc/Transforms/Analysis/FunctionAttrInfer.cpp", "cmmc/Transforms/Misc/CodeMove.cpp", "cmmc/Transforms/Misc/CodeSink.cpp", "cmmc/Transforms/ControlFlow/ShortCircuitCombine.cpp", "cmmc/Transforms/Loop/FinalValueReplacement.cpp", "cmmc/Frontend/ParserSysY.yy"],
     [("purity inference", "cmmc/Transforms/Analysis/FunctionAttrInfer.cpp"), ("code motion", "cmmc/Transforms/Misc/CodeMove.cpp"), ("short circuit", "cmmc/Transforms/ControlFlow/ShortCircuitCombine.cpp")],
     ["history of run-time library calls with arguments", "result and final global memory"],
     note="exhaustive over the stated families")

prop("C07", "Arguments, results and live values survive every call",
     "For every parameter list of ints, floats and arrays, in registers or on the stack, the callee receives exactly the arguments the caller passed, and the caller receives exactly the result. "
     "Values the caller still needs after a call are unchanged by it, callee-saved registers and the stack pointer are restored, on every target and at every optimisation level.",
     ["programs", "inputs", "configurations"], "all parameter lists up to the bound plus long lists, every selection of forwarded parameters, every number of live values across calls x target x level",
     "Argument placement, parallel moves and spilling change behaviour at particular counts and mixes; tests exercise a few signatures.",
     ["cmmc/CodeGen/GraphColoringRegisterAllocator.cpp", "cmmc/CodeGen/Lowering.cpp", "cmmc/Target/RISCV/RISCVTarget.cpp", "cmmc/Target/ARM/ARMTarget.cpp", "cmmc/Target/MIPS/MIPSTarget.cpp", "cmmc/Transforms/IPO/ShrinkWrapping.cpp"],
     [("calling convention lowering", "cmmc/Target/RISCV/RISCVTarget.cpp"), ("register allocation", "cmmc/CodeGen/GraphColoringRegisterAllocator.cpp"), ("prologue and epilogue", "cmmc/CodeGen/StackAllocation.cpp")],
     ["values received by the callee and returned", "callee-saved registers and stack pointer at return"],
     note="exhaustive over the stated signature and liveness families")


ASMT = "bounded-exhaustive enumeration of programs x configurations; every emitted file run through the target's real assembler and its symbol table compared with the source"

prop("C08", "Register pressure, large frames and far offsets never change results",
     "Whatever number of values is live at once, however loop-carried values are permuted into each other, and however large the stack frame, the constants or the element offsets are, the emitted code computes the same result as the source on every target. "
     "Spilled values are reloaded unchanged, parallel copies are ordered correctly, every constant is materialised exactly, and no valid program makes the compiler abort in register allocation or frame lowering.",
     ["programs", "inputs", "configurations"], "all parallel-copy maps up to 4 variables, all live-value counts up to 64, frame sizes and offsets around every immediate limit, all power-of-two neighbourhood constants x target x level",
     "Spilling, copy sequencing and immediate splitting are exercised only when a count or size crosses a limit of the target; tests are far below or above, rarely at it.",
     ["cmmc/CodeGen/GraphColoringRegisterAllocator.cpp", "cmmc/CodeGen/RegisterCoalescing.cpp", "cmmc/CodeGen/StackAllocation.cpp", "cmmc/CodeGen/Scheduler.cpp", "cmmc/CodeGen/CodeGenPrepare.cpp"] + BACK[2:],
     [("register allocation", "cmmc/CodeGen/GraphColoringRegisterAllocator.cpp"), ("copy coalescing", "cmmc/CodeGen/RegisterCoalescing.cpp"), ("frame lowering", "cmmc/CodeGen/StackAllocation.cpp"), ("constant and address materialisation", "cmmc/Target/ARM/ARMISelInfo.cpp")],
     ["return value and memory of the emitted function", "callee-saved registers and stack pointer"],
     note="exhaustive over the stated families; RISC-V frames above 2047 bytes are a recorded finding")

prop("C09", "Every emitted file assembles and defines exactly the symbols of the source",
     "For every accepted program, target and optimisation level, the emitted file is accepted by the assembler of the target: every mnemonic, operand, immediate, register list and directive exists. "
     "Every function of the source is a defined global text symbol, whatever its name, and every symbol that is used but not defined belongs to the run-time library, so the program links.",
     ["programs", "configurations"], "all modules of the enumerated families (identifiers, constants, offsets, frames, signatures, statements) x target x optimisation level",
     "An immediate out of range, an operand form that does not exist or a branch to a label that was removed appears only for particular constants, sizes or control flow.",
     ["cmmc/Target/RISCV/RISCVTarget.cpp", "cmmc/Target/ARM/ARMTarget.cpp", "cmmc/Target/MIPS/MIPSTarget.cpp", "cmmc/CodeGen/SimplifyCFG.cpp", "cmmc/CodeGen/ICF.cpp", "cmmc/CodeGen/MIR.cpp"],
     [("emission", "cmmc/CodeGen/MIR.cpp"), ("immediate legality", "cmmc/Target/ARM/ARMISelInfo.cpp"), ("block removal and labels", "cmmc/CodeGen/SimplifyCFG.cpp")],
     ["exit status of the target's assembler", "symbol table of the object file"], technique=ASMT,
     note="the assembler's verdict is complete for each enumerated module; MIPS through the LLVM assembler")

prop("C10", "Initialisers and constant expressions evaluate to what the program would compute",
     "For every valid initialiser of a scalar or array, global or local, constant or not, with any brace structure, the object holds before first use exactly the values the language assigns, with zero everywhere else. "
     "Every expression the compiler evaluates itself, in constants, dimensions, or while optimising, has the value the program would compute at run time, including integer/float conversions.",
     ["programs", "inputs", "configurations"], "all brace structures up to the stated number of items for 13 shapes x storage class; all operator pairs over the constant alphabets x target x level",
     "Brace matching and constant folding have many structural cases, each right or wrong on its own; tests use a few tidy initialisers.",
     ["cmmc/Frontend/EmitIR.cpp", "cmmc/IR/ConstantValue.cpp", "cmmc/Transforms/Combine/ConstantPropagation.cpp", "cmmc/Transforms/Misc/ConstexprFuncEval.cpp", "cmmc/Transforms/Misc/GlobalZeroEliminate.cpp", "cmmc/ExecutionEngine/Interpreter.cpp"],
     [("array initialisers", "cmmc/Frontend/EmitIR.cpp"), ("constant folding", "cmmc/Transforms/Combine/ConstantPropagation.cpp"), ("compile-time calls", "cmmc/Transforms/Misc/ConstexprFuncEval.cpp"), ("data emission", "cmmc/CodeGen/Lowering.cpp")],
     ["values read back by the emitted code", "return value of folded and unfolded expressions"],
     note="exhaustive over the stated structures; operands from the constant alphabets")

prop("C11", "Source text means what the language grammar says",
     "Every valid source text is read with the lexical forms, operator precedence and associativity, statement nesting and name scopes of the language: literals of every base and form have their value, a dangling else belongs to the nearest if, the innermost visible declaration is the one used, and comments and spacing change nothing. "
     "Identifiers may be any name of the language, including register names and mnemonics of the target.",
     ["programs", "inputs"], "all pairs and triples of binary operators with unary prefixes, all literal forms, all statement-form pairs under every header, all declaration subsets of nesting levels",
     "A precedence or scoping slip shows only for particular operator pairs or shadowing patterns; tests are written with parentheses and distinct names.",
     ["cmmc/Frontend/ScannerSysY.ll", "cmmc/Frontend/ParserSysY.yy", "cmmc/Frontend/EmitIR.cpp", "cmmc/Frontend/Support/SysYSupport.cpp"],
     [("scanner", "cmmc/Frontend/ScannerSysY.ll"), ("grammar and precedence", "cmmc/Frontend/ParserSysY.yy"), ("scopes", "cmmc/Frontend/EmitIR.cpp")],
     ["return value of the emitted function against the reference machine's own parser"],
     note="exhaustive over the stated token and statement combinations")

prop("C12", "Programs compiled as a whole, with private symbols, behave the same",
     "When the compiler is told that only main is visible (--hide-symbol), the program still produces exactly the output and exit code its source defines, for every input. "
     "Localising, folding, merging or deleting private globals, propagating constant arguments, dropping dead arguments and results, passing references by value, and specialising or inlining private functions must not change anything observable, "
     "including when two references name the same object, or a global is written through a reference or by a callee.",
     ["programs", "inputs", "configurations"], "all whole programs of the enumerated families (global kind x helper x main statements, argument kinds, aliasing references, two interleaved globals, loop nests) x input tapes x target x level",
     "Whole-program facts are only as good as their alias and reachability conditions; each holds for the tests' programs and fails for one combination of access, call and control flow.",
     ["cmmc/Transforms/Misc/GlobalScalar2Local.cpp", "cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp", "cmmc/Transforms/IPO/IPConstantPropagation.cpp", "cmmc/Transforms/DCE/DeadArgEliminate.cpp", "cmmc/Transforms/IPO/DiscardReturnValue.cpp", "cmmc/Transforms/DCE/StoreOnlyGlobalEliminate.cpp", "cmmc/Transforms/DCE/GlobalEliminate.cpp", "cmmc/Transforms/IPO/Inlining.cpp", "cmmc/Transforms/Analysis/GlobalVarAttrInfer.cpp"],
     [("private globals", "cmmc/Transforms/Misc/GlobalScalar2Local.cpp"), ("reference arguments", "cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp"), ("interprocedural constants", "cmmc/Transforms/IPO/IPConstantPropagation.cpp"), ("visibility", "cmmc/Frontend/DriverImpl.cpp")],
     ["history of run-time library calls with arguments", "exit code of the program"],
     note="exhaustive over the stated products in the thorough tier; fixed stride over them in the quick tier")

prop("C13", "The built-in interpreter executes programs as the language defines",
     "Running a program with the compiler's own interpreter (-t sim), at any optimisation level, prints exactly what the source prescribes and returns its exit code. "
     "Every integer, float, conversion, comparison, selection, memory and call operation of the intermediate code is evaluated as the language defines; the same evaluation is what compile-time function evaluation relies on.",
     ["programs", "inputs", "configurations"], "all functions of the integer, float, conversion, comparison and loop families driven by a reading main x every defined input vector x level; whole programs with helpers, recursion and globals",
     "The interpreter is the reference people debug with and the engine of compile-time evaluation; tests run it on a few programs and check neither operators at their extremes nor optimised code.",
     ["cmmc/ExecutionEngine/Interpreter.cpp", "cmmc/Transforms/Misc/ConstexprFuncEval.cpp", "cmmc/IR/ConstantValue.cpp", "cmmc/IR/Instruction.cpp"],
     [("instruction evaluation", "cmmc/ExecutionEngine/Interpreter.cpp"), ("compile-time evaluation", "cmmc/Transforms/Misc/ConstexprFuncEval.cpp")],
     ["text written by the interpreted program", "exit status"],
     technique="bounded-exhaustive enumeration of programs and inputs on the reference machine (explicit-state), each trace replayed through the compiler's own interpreter and compared",
     note="one interpreter run covers all defined vectors of a module")


prop("C14", "The parallel-for run-time runs every index exactly once under any schedule",
     "cmmcParallelFor(beg, end, f) called on the library after start-up calls f on half-open sub-ranges that together cover every index of [beg, end) exactly once, for every beg and end of int32_t including empty and reversed ranges, "
     "for every interleaving of the worker threads with the caller, every spurious wake-up and every sequence of loops. When it returns every call of f has returned and its memory effects are visible to the caller, "
     "no access of the library or the body races with another, no thread waits for ever, and cmmcInitRuntime/cmmcUninitRuntime start and stop all workers. The choice of the number of threads from measured times changes only performance.",
     ["schedules", "inputs", "histories"], "all interleavings of workers and caller at atomic operations and system calls x loop bounds x sequences of loops and start/stop x outcomes of the clock",
     "The suite never enables auto-parallelisation, and a lost wake-up, an early return or a missing barrier needs one particular interleaving of five threads.",
     ["cmmc/Runtime/cmmc_sysy_rt.cpp"], [("worker threads, futex hand-over, chunking, tuning", "cmmc/Runtime/cmmc_sysy_rt.cpp"), ("generation of parallel loops", "cmmc/Transforms/Loop/LoopParallel.cpp")],
     ["sub-ranges passed to the body and order of its effects", "return of cmmcParallelFor", "threads alive after cmmcUninitRuntime"],
     state=[("workers[]", "per-thread hand-over record: bounds, function, ready and done flags", "cmmc/Runtime/cmmc_sysy_rt.cpp"), ("parallelCache", "per-loop tuning table", "cmmc/Runtime/cmmc_sysy_rt.cpp")],
     technique="stateless/explicit-state model checking of the real library: controlled scheduler over all interleavings with state merging, plus happens-before race detection on every execution",
     note="exhaustive per scenario; the tuner scenarios with a bound on preemptions")

prop("C15", "The memo table never answers a call with another call's value",
     "For every history of nested calls of memoised functions (look up a key pair; if there is no value compute it, possibly looking up other keys in between; then store it), an entry reported as holding a value holds the value stored for exactly that pair of "
     "32-bit keys. This holds for keys that collide in the table, for keys evicted while their call is still running, for zero and extreme keys, and the look-up stays inside the table.",
     ["histories", "inputs"], "all nested call histories up to the stated length over every listed set of colliding, adjacent and extreme key pairs",
     "Wrong answers need two live keys in one slot with an eviction between look-up and store; tests call memoised functions with a few small keys.",
     ["cmmc/Runtime/cmmc_sysy_rt.cpp", "cmmc/Transforms/Misc/StatelessCache.cpp"], [("hash table of remembered results", "cmmc/Runtime/cmmc_sysy_rt.cpp"), ("look-up and store inserted into functions", "cmmc/Transforms/Misc/StatelessCache.cpp")],
     ["hasVal and val of the entry returned by cmmcCacheLookup", "table memory outside the entry"],
     state=[("table entries", "key pair, value and presence flag", "cmmc/Runtime/cmmc_sysy_rt.cpp")],
     technique="explicit-state model checking of the real library: all call histories up to a bound, states merged on the table contents, against a map from keys to values",
     note="exhaustive up to the stated depth for every key set")


def write():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            for x in p["files"] + [b for _, b in p["mech"]]:
                if not os.path.exists("/repo/" + x):
                    print("no such path:", p["id"], x)
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["otext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "CMMC_VERIF", "enable": "-DCMMC_VERIF (no hooks are needed at present: everything is observed from outside)", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"],
                     "level": "model_checking", "level_note": p["note"]} for p in P if p["claimed"]],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
         "notes": "every check builds the compiler from /repo's working tree outside /repo; see DESIGN.md"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def validate():
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(json.load(open(HERE + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(HERE + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    print("valid", len(P))


if __name__ == "__main__":
    write()
    validate()
