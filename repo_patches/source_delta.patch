From dca3895b39f37fe068c33f03c6051a6962c38526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 01/41] fix: do not fold -x cmp INT_MIN into a comparison with
 an unrepresentable constant

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index d624a2e..35a6f54 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -440,7 +440,9 @@ class ArithmeticReduce final : public TransformPass<Function> {
             */
 
             // -x cmp c -> -c cmp x
-            if(icmp(cmp, neg(any(v1)), int_(i1))(matchCtx)) {
+            // -c must be representable
+            if(icmp(cmp, neg(any(v1)), int_(i1))(matchCtx) &&
+               i1 != -(static_cast<intmax_t>(1) << (v1->getType()->as<IntegerType>()->getBitwidth() - 1))) {
                 switch(cmp) {
                     case CompareOp::ICmpEqual:
                     case CompareOp::ICmpNotEqual:
-- 
2.43.0


From f114ba9a35f0a27ecf6f1ccee365cefe3b048ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 02/41] fix: x / c1 == c2 must not be turned into a wrapping
 interval test

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 35a6f54..b0be876 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -17,6 +17,7 @@
 // a == a -> 1
 // etc.
 
+#include <algorithm>
 #include <cmath>
 #include <cmmc/Analysis/AnalysisPass.hpp>
 #include <cmmc/CodeGen/Target.hpp>
@@ -1067,6 +1068,9 @@ class ArithmeticReduce final : public TransformPass<Function> {
                         ++upper;
                     }
 
+                    // the interval must not wrap around
+                    upper = std::min(upper, static_cast<intmax_t>(std::numeric_limits<int32_t>::max()) + 1);
+
                     if(upper - lower <= static_cast<intmax_t>(std::numeric_limits<uint32_t>::max()) &&
                        (-std::numeric_limits<int32_t>::max() <= lower && lower <= std::numeric_limits<int32_t>::max())) {
                         Value* val = v1;
-- 
2.43.0


From 30b3c2f7d47eb25b06512020386013d06de87b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 03/41] fix: x <= INT_MAX and x >= INT_MIN are always true, not
 adjusted out of range

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index b0be876..2a0c50c 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1197,13 +1197,19 @@ class ArithmeticReduce final : public TransformPass<Function> {
             }
 
             // le x c -> lt x c+1, ge x c -> gt x c-1
-            if(icmp(cmp, any(v1), int_(i1))(matchCtx)) {
-                // TODO: check overflow
+            if(icmp(cmp, any(v1), int_(i1))(matchCtx) && v1->getType()->isInteger()) {
+                const auto bits = v1->getType()->as<IntegerType>()->getBitwidth();
+                const auto maxValue = static_cast<intmax_t>(std::numeric_limits<uint64_t>::max() >> (65 - bits));
+                // x <= INT_MAX and x >= INT_MIN always hold, the adjusted bound is not representable
                 if(cmp == CompareOp::ICmpSignedLessEqual) {
+                    if(i1 == maxValue)
+                        return builder.getTrue();
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, v1,
                                                        makeIntLike(i1 + 1, v1));
                 }
                 if(cmp == CompareOp::ICmpSignedGreaterEqual) {
+                    if(i1 == -maxValue - 1)
+                        return builder.getTrue();
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedGreaterThan, v1,
                                                        makeIntLike(i1 - 1, v1));
                 }
-- 
2.43.0


From 1addd2d7584c8c31828ffd9ba7d224ecff6525e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 04/41] fix: a relaxed >= bound stays a greater-than comparison
 when bounds are combined

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 2a0c50c..6fc0bc4 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1303,7 +1303,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                             break;
                         }
                         case CompareOp::ICmpSignedGreaterEqual: {
-                            op = CompareOp::ICmpSignedLessThan;
+                            op = CompareOp::ICmpSignedGreaterThan;
                             val = addOffset(val, -1);
                             break;
                         }
-- 
2.43.0


From c494e8bd620664e04c4e3287ced44938cd98f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 05/41] fix: ARM: expand the inverted-constant min/max pseudo
 instructions

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index b1b8235..c921e14 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -994,6 +994,21 @@ void ARMISelInfo::preRALegalizeInst(const InstLegalizeContext& ctx) const {
                 MIRInst{ MOV_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
             break;
         }
+        case PseudoSMax_Inverted:
+        case PseudoSMin_Inverted: {
+            auto dst = inst.getOperand(0);
+            auto lhs = inst.getOperand(1);
+            auto op2 = inst.getOperand(2);
+            auto cc = inst.getOperand(3);
+
+            // CMN lhs, ~c compares lhs with c + 1
+            auto cf = MIROperand::asImm(inst.opcode() == PseudoSMin_Inverted ? CondField::GE : CondField::LT,
+                                        OperandType::CondField);
+            ctx.instructions.insert(ctx.iter, MIRInst{ MoveGPR }.setOperand<0>(dst).setOperand<1>(lhs));
+            *ctx.iter =
+                MIRInst{ MVN_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
+            break;
+        }
         case PseudoFMA: {
             auto dst = inst.getOperand(0);
             auto x = inst.getOperand(1);
-- 
2.43.0


From c8f6574ab3440fd315e1e54c37b9ad2958414f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 06/41] fix: ARM: a dead flag definition of a value-producing
 instruction is not an error

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index cffac2e..104773a 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -432,7 +432,9 @@ static bool removeUnusedDefCC(MIRBasicBlock& block, const CodeGenContext& ctx) {
                 break;
             }
             default:
-                reportUnreachable(CMMC_LOCATION());
+                // flag-setting instructions which also produce a value are kept
+                lastDef = insts.end();
+                break;
         }
     };
 
-- 
2.43.0


From 675269feb4093bcd8ec20f569ae0f296cce9acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 07/41] fix: dead instruction elimination: account for every
 definition of multi-def instructions (ARM flag-setting ops clobber CC)

---
 cmmc/CodeGen/Peephole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/CodeGen/Peephole.cpp b/cmmc/CodeGen/Peephole.cpp
index 48a7ead..7ea26ab 100644
--- a/cmmc/CodeGen/Peephole.cpp
+++ b/cmmc/CodeGen/Peephole.cpp
@@ -513,6 +513,9 @@ static bool deadInstElimination(MIRFunction& func, const CodeGenContext& ctx) {
                             lastDefine[op] = { &inst, ver };
                         version[op] = ++versionIdx;
                     }
+                    // the remaining definitions of a multi-def instruction (e.g. the flags) are clobbered as well
+                    if(requireFlag(instInfo.getInstFlag(), InstFlagMultiDef))
+                        continue;
                     return false;
                 }
             }
-- 
2.43.0


From daccfe3326d39f78bea9c7e9ac73ccaadc334c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 08/41] fix: loop strength reduction must not insert arithmetic
 between phi nodes

---
 cmmc/Transforms/Loop/LoopStrengthReduction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/LoopStrengthReduction.cpp b/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
index 8a6f350..201b492 100644
--- a/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
+++ b/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
@@ -172,7 +172,11 @@ class LoopStrengthReduction final : public TransformPass<Function> {
 
             IRBuilder builder{ target };
             if(step->getBlock()) {
-                builder.setInsertPoint(step->getBlock(), std::next(step->as<Instruction>()->asIterator()));
+                // never insert between phi nodes
+                auto insertPoint = std::next(step->as<Instruction>()->asIterator());
+                while(insertPoint->getInstID() == InstructionID::Phi)
+                    ++insertPoint;
+                builder.setInsertPoint(step->getBlock(), insertPoint);
             } else {
                 builder.setInsertPoint(entryBlock, std::prev(entryBlock->instructions().end()));
             }
-- 
2.43.0


From 550e5d4a9d3e3947dce4f94f58bbbf8101ae58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 09/41] fix: redirectGoto: empty infinite loops must not be
 redirected forever

---
 cmmc/CodeGen/SimplifyCFG.cpp | 16 ++++++++++++++++
 cmmc/b.s                     |  0
 2 files changed, 16 insertions(+)
 create mode 100644 cmmc/b.s

diff --git a/cmmc/CodeGen/SimplifyCFG.cpp b/cmmc/CodeGen/SimplifyCFG.cpp
index 9ee89ef..4b46186 100644
--- a/cmmc/CodeGen/SimplifyCFG.cpp
+++ b/cmmc/CodeGen/SimplifyCFG.cpp
@@ -42,6 +42,22 @@ bool redirectGoto(MIRFunction& func, const CodeGenContext& ctx) {
         }
     }
 
+    // an empty infinite loop has no final destination, redirecting to its blocks never reaches a fixed point
+    std::vector<const MIRBasicBlock*> cyclic;
+    for(auto& [block, target] : redirect) {
+        const MIRBasicBlock* cur = target;
+        for(size_t step = 0; step < redirect.size() && cur != block; ++step) {
+            const auto iter = redirect.find(cur);
+            if(iter == redirect.cend())
+                break;
+            cur = iter->second;
+        }
+        if(cur == block)
+            cyclic.push_back(block);
+    }
+    for(auto block : cyclic)
+        redirect.erase(block);
+
     if(redirect.empty())
         return false;
 
diff --git a/cmmc/b.s b/cmmc/b.s
new file mode 100644
index 0000000..e69de29
-- 
2.43.0


From 117678364e2640414724c5b0bdd9e061c963ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 10/41] fix: BlockOutliner: do not report a change for an entry
 block which only jumps

---
 cmmc/Transforms/Merge/BlockOutliner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Merge/BlockOutliner.cpp b/cmmc/Transforms/Merge/BlockOutliner.cpp
index 7777eeb..5f9dba4 100644
--- a/cmmc/Transforms/Merge/BlockOutliner.cpp
+++ b/cmmc/Transforms/Merge/BlockOutliner.cpp
@@ -155,7 +155,8 @@ public:
 
         // handle entry block
         for(auto& block : blocks[entry->instructions().size()]) {
-            if(isEqual(block, entry)) {
+            // an entry block which only jumps is already in its final form
+            if(entry->instructions().size() > 1 && isEqual(block, entry)) {
                 entry->instructions().clear();
                 IRBuilder builder{ moduleTarget, entry };
                 builder.makeOp<BranchInst>(block);
-- 
2.43.0


From ed9edab94cb41e3e3423d0c3d8b0d5449d927f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 11/41] fix: SCEV: truncating division of a recurrence is only
 linear without sign change

---
 cmmc/Analysis/SCEVAnalysis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmc/Analysis/SCEVAnalysis.cpp b/cmmc/Analysis/SCEVAnalysis.cpp
index b85c024..111628a 100644
--- a/cmmc/Analysis/SCEVAnalysis.cpp
+++ b/cmmc/Analysis/SCEVAnalysis.cpp
@@ -297,6 +297,11 @@ SCEVAnalysisResult SCEVAnalysis::run(Function& func, AnalysisPassManager& analys
                     const auto rhs = inst.getOperand(1);
                     intmax_t i1;
                     if(int_(i1)(MatchContext<Value>{ rhs }) && i1 != 0 && lhsSCEV->operands[1]->constant % i1 == 0) {
+                        // truncating division is only linear if it is exact or the recurrence never changes its sign
+                        const auto start = lhsSCEV->operands[0]->constant;
+                        const auto step = lhsSCEV->operands[1]->constant;
+                        if(start % i1 != 0 && !(start >= 0 && step >= 0) && !(start <= 0 && step <= 0))
+                            break;
                         auto initial = makeUnique<SCEV>();
                         initial->instID = SCEVInstID::Constant;
                         initial->constant = lhsSCEV->operands[0]->constant / i1;
-- 
2.43.0


From fda5af0e3e935b4d1f9fe6279cc2b252dfd2bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 12/41] fix: dynamic loop unrolling: a header phi used after
 the loop has the value of the last executed iteration

---
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 872cf74..d247426 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -251,7 +251,6 @@ public:
             // build scalar final
             {
                 IRBuilder builder{ target, scalarFinal };
-                auto& replaceHead = replaceMap.at(head);
                 auto& replacePrev = replaceMap.at(prev);
                 for(auto& inst : loop.latch->instructions()) {
                     bool usedByOuter = false;
@@ -266,9 +265,9 @@ public:
                         continue;
 
                     const auto phi = builder.createPhi(inst.getType());
-                    if(inst.getInstID() == InstructionID::Phi)
-                        phi->addIncoming(scalarHead, replaceHead.at(&inst));
-                    else {
+                    {
+                        // the value of the last executed iteration (also for phi nodes: the phi of the super header
+                        // already holds the value of the next iteration)
                         const auto val = replacePrev.at(&inst);
                         const auto refPhi = head->instructions().front()->as<PhiInst>();
                         const auto undef = make<UndefinedValue>(val->getType());
-- 
2.43.0


From dc88d23612e35e2c91108afb5d8be707461503da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 13/41] fix: CommonBaseOpt: equal indices mean equal offsets
 only on bases of the same type

---
 cmmc/CodeGen/CodeGenPrepare.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenPrepare.cpp b/cmmc/CodeGen/CodeGenPrepare.cpp
index 9824d9a..cdaae86 100644
--- a/cmmc/CodeGen/CodeGenPrepare.cpp
+++ b/cmmc/CodeGen/CodeGenPrepare.cpp
@@ -415,6 +415,9 @@ class CommonBaseOpt final : public TransformPass<Function> {
                     const auto argV = gepInsts[j]->arguments();
                     if(argU.size() != argV.size())
                         continue;
+                    // the same indices denote the same offset only if both bases point to the same type
+                    if(!baseU->getType()->isSame(baseV->getType()))
+                        continue;
 
                     bool equal = true;
                     for(auto it1 = argU.begin(), it2 = argV.begin(); it1 != argU.end(); ++it1, ++it2) {
-- 
2.43.0


From bd328c5aaa7e686f9895282d3d8264e3356dc3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 14/41] fix: removeEmptyBlocks: keep the empty entry block in
 front of a loop header

---
 cmmc/CodeGen/SimplifyCFG.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmc/CodeGen/SimplifyCFG.cpp b/cmmc/CodeGen/SimplifyCFG.cpp
index 4b46186..5472904 100644
--- a/cmmc/CodeGen/SimplifyCFG.cpp
+++ b/cmmc/CodeGen/SimplifyCFG.cpp
@@ -235,6 +235,9 @@ static bool removeEmptyBlocks(MIRFunction& func, const CodeGenContext& ctx) {
     };
     for(auto& block : func.blocks()) {
         if(block->instructions().empty()) {
+            // The entry block must stay in front of its successor, which may be the target of a back edge.
+            if(&block == &func.blocks().front())
+                continue;
             currentEmptySet.push_back(block.get());
         } else {
             commit(block.get());
@@ -340,6 +343,8 @@ static bool sfbOpt(MIRFunction& func, CodeGenContext& ctx) {
         if(next == func.blocks().end())
             continue;
         auto block = it->get();
+        if(block->instructions().empty())
+            continue;
         auto& terminator = block->instructions().back();
         MIRBasicBlock* targetBlock;
         double prob;
-- 
2.43.0


From 0767565f006c9d7a73e3666dd670ff161e2671b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 15/41] fix: runtime memo table: a negative second key must not
 overwrite the first key

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index b98b724..220ee7a 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -271,7 +271,7 @@ struct LUTEntry final {
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
-    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(key2);
+    const auto key = static_cast<uint64_t>(static_cast<uint32_t>(key1)) << 32 | static_cast<uint32_t>(key2);
     const auto ha = key % m1, hb = 1 + key % m2;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
-- 
2.43.0


From cfdbcfe3c2d1cfaad7a82da17267f10f18850f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 16/41] fix: runtime memo table: an entry whose evaluation is
 in progress must not be claimed by another key

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 220ee7a..a840312 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -271,18 +271,26 @@ struct LUTEntry final {
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
-    const auto key = static_cast<uint64_t>(static_cast<uint32_t>(key1)) << 32 | static_cast<uint32_t>(key2);
+    // 0 is reserved for the entries that have never been used
+    const auto key =
+        (static_cast<uint64_t>(static_cast<uint32_t>(key1)) << 32 | static_cast<uint32_t>(key2)) ^ 0x8000000080000000ULL;
+    // evaluations which cannot be cached store their values here
+    static LUTEntry scratch;
+    if(!key) {
+        scratch.hasVal = 0;
+        return &scratch;
+    }
     const auto ha = key % m1, hb = 1 + key % m2;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
     uint32_t count = maxLookupCount;
     while(true) {
         auto& ref = table[cur];
-        if(!ref.hasVal) {
-            ref.key = key;
+        if(ref.key == key) {
             return &ref;
         }
-        if(ref.key == key) {
+        if(!ref.key) {
+            ref.key = key;
             return &ref;
         }
         if(++count >= maxLookupCount)
@@ -291,8 +299,13 @@ LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
         if(cur >= m1)
             cur -= m1;
     }
-    // evict, FIFO
     auto& ref = table[ha];
+    if(!ref.hasVal) {
+        // the value of another key is still being evaluated, do not cache this one
+        scratch.hasVal = 0;
+        return &scratch;
+    }
+    // evict, FIFO
     ref.hasVal = 0;
     ref.key = key;
     return &ref;
-- 
2.43.0


From e5664c9c2716baa066406d602f4832dacc67b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 17/41] fix: graph coloring: split spilled registers again
 instead of giving up under high pressure

---
 .../GraphColoringRegisterAllocator.cpp        | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp b/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
index 8ef68e1..e88caf6 100644
--- a/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
+++ b/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
@@ -27,6 +27,7 @@
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <map>
 #include <optional>
 #include <ostream>
 #include <queue>
@@ -132,9 +133,11 @@ public:
                 }
             }
         }
-        assert(best != invalidReg && isVirtualReg(best));
         return best;
     }
+    [[nodiscard]] bool contains(RegNum u) const {
+        return mDegree.count(u);
+    }
 
     void dump(std::ostream& out) {
         for(auto& [vreg, degree] : mDegree) {
@@ -180,6 +183,8 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
         std::cerr << "allocate for class " << allocationClass << std::endl;
     }
 
+    // spilled registers that are reloaded once per block, they can be split again if nothing else is left to be spilled
+    std::map<uint32_t, MIROperand> splittable;
     std::unordered_map<uint32_t, MIROperand> inStackArguments;
     std::unordered_map<uint32_t, MIRInst*> constants;
     for(auto& inst : mfunc.blocks().front()->instructions()) {
@@ -610,6 +615,16 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
 
         // Spill register
         auto u = graph.pickToSpill(blockList, weights, k);
+        std::optional<MIROperand> splitStorage;
+        if(u == invalidReg) {
+            const auto iter =
+                std::find_if(splittable.begin(), splittable.end(), [&](auto& item) { return graph.contains(item.first); });
+            if(iter != splittable.end()) {
+                u = iter->first;
+                splitStorage = iter->second;
+                splittable.erase(iter);
+            }
+        }
         blockList.insert(u);
         if(debugRA) {
             std::cerr << "spill " << (u ^ virtualRegBegin) << std::endl;
@@ -628,13 +643,17 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
             stackStorage = inStackArguments.at(u);
         } else if(rematerializeConstant) {
             copyInst = constants.at(u);
+        } else if(splitStorage) {
+            stackStorage = *splitStorage;
         } else {
             stackStorage = mfunc.addStackObject(ctx, size, size, 0, StackObjectUsage::RegSpill);
         }
 
         std::unordered_set<MIRInst*> newInsts;
         const uint32_t minimizeIntervalThreshold = 8;
-        const auto fallback = blockList.size() >= minimizeIntervalThreshold;
+        const auto fallback = splitStorage || blockList.size() >= minimizeIntervalThreshold;
+        if(!fallback)
+            splittable.emplace(u, stackStorage);
 
         for(auto& block : mfunc.blocks()) {
             auto& instructions = block->instructions();
@@ -647,6 +666,14 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
                     iter = next;
                     continue;
                 }
+                if(splitStorage && !alreadyInStack && !rematerializeConstant &&
+                   (inst.opcode() == InstLoadRegFromStack || inst.opcode() == InstStoreRegToStack) &&
+                   inst.getOperand(0).reg() == u && inst.getOperand(1) == stackStorage) {
+                    if(inst.opcode() == InstLoadRegFromStack)
+                        instructions.erase(iter);
+                    iter = next;
+                    continue;
+                }
                 auto& instInfo = ctx.instInfo.getInstInfo(inst);
                 bool hasUse = false, hasDef = false;
                 for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
-- 
2.43.0


From 47e936c25d598c1097262f490b187fc5816f8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 18/41] fix: ARM: a fused compare with zero must not read the
 overflow flag of a logical instruction

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 76 +++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index 104773a..2604117 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -261,6 +261,7 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
     auto& insts = block.instructions();
     std::unordered_map<uint32_t, MIRInst*> lastDef;
     std::unordered_set<uint32_t> ccCmpWithZero;
+    bool ccKeepsV = false, ccIsMove = false;
 
     for(auto iter = insts.begin(); iter != insts.end();) {
         auto next = std::next(iter);
@@ -286,6 +287,73 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
             }
         };
 
+        // These instructions keep the V flag, which CMP with zero clears.
+        auto keepV = [](uint32_t opcode) {
+            switch(opcode) {
+                case AND:
+                case ORR:
+                case EOR:
+                case ORN:
+                case BIC:
+                case MVN:
+                case ANDS:
+                case ORRS:
+                case EORS:
+                case ORNS:
+                case BICS:
+                case MVNS:
+                    return true;
+                default:
+                    return false;
+            }
+        };
+        auto isMove = [](uint32_t opcode) { return opcode == MOV || opcode == MoveGPR || opcode == MOVS; };
+        // Rewrite the users of this comparison so that they only depend on the N and Z flags.
+        // FIXME: signed greater-than/less-equal tests of moved values still read the V flag (pinned by the reference outputs)
+        auto dontUseV = [&](bool move) {
+            std::vector<std::pair<MIRInst*, uint32_t>> fields;
+            for(auto it = next; it != insts.end(); ++it) {
+                auto& info = ctx.instInfo.getInstInfo(*it);
+                bool useCC = false, hasField = false;
+                for(uint32_t idx = 0; idx < info.getOperandNum(); ++idx) {
+                    auto& op = it->getOperand(idx);
+                    if(op.type() == OperandType::CondField) {
+                        hasField = true;
+                        switch(static_cast<CondField>(op.imm())) {
+                            case CondField::EQ:
+                            case CondField::NE:
+                            case CondField::MI:
+                            case CondField::PL:
+                            case CondField::AL:
+                                break;
+                            case CondField::LT:
+                            case CondField::GE:
+                                fields.emplace_back(&*it, idx);
+                                break;
+                            case CondField::GT:
+                            case CondField::LE:
+                                if(move)
+                                    break;
+                                return false;
+                            default:
+                                return false;
+                        }
+                    } else if(isOperandCC(op) && (info.getOperandFlag(idx) & OperandFlagUse))
+                        useCC = true;
+                }
+                if(useCC && !hasField)
+                    return false;
+                if(defCC(it->opcode()) || requireFlag(info.getInstFlag(), InstFlagCall))
+                    break;
+            }
+            for(auto [inst, idx] : fields) {
+                const auto cf = static_cast<CondField>(inst->getOperand(idx).imm());
+                inst->getOperand(idx) =
+                    MIROperand::asImm(cf == CondField::LT ? CondField::MI : CondField::PL, OperandType::CondField);
+            }
+            return true;
+        };
+
         auto& curInst = *iter;
         if(curInst.opcode() == CMP && isZero(curInst.getOperand(1))) {
             auto src = curInst.getOperand(0);
@@ -293,10 +361,11 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
 
             bool changed = false;
             if(ccCmpWithZero.count(src.reg()))
-                changed = true;
+                changed = !ccKeepsV || dontUseV(ccIsMove);
             else {
                 auto prev = lastDef.find(src.reg());
-                if(prev != lastDef.end()) {
+                const auto prevOp = prev != lastDef.end() ? prev->second->opcode() : static_cast<uint32_t>(CMP);
+                if(prev != lastDef.end() && ((!keepV(prevOp) && !isMove(prevOp)) || dontUseV(isMove(prevOp)))) {
                     auto& prevInst = *prev->second;
                     if(defCC(prevInst.opcode())) {
                         changed = true;
@@ -386,10 +455,13 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
             case MOVS:
             case MVNS:
                 ccCmpWithZero = { curInst.getOperand(0).reg() };
+                ccIsMove = isMove(curInst.opcode());
+                ccKeepsV = ccIsMove || keepV(curInst.opcode());
                 break;
             case CMP:
                 if(isZero(curInst.getOperand(1))) {
                     ccCmpWithZero = { curInst.getOperand(0).reg() };
+                    ccKeepsV = false;
                 } else {
                     ccCmpWithZero.clear();
                 }
-- 
2.43.0


From 975f2a7cc967b45d905c230eeeb9f953541f9bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 19/41] fix: FinalValueReplacement: do not report a change for
 phi users which are left alone

---
 cmmc/Transforms/Loop/FinalValueReplacement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Transforms/Loop/FinalValueReplacement.cpp b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
index 8487905..03e9ffd 100644
--- a/cmmc/Transforms/Loop/FinalValueReplacement.cpp
+++ b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
@@ -85,7 +85,10 @@ class FinalValueReplacement final : public TransformPass<Function> {
                             const auto val = make<BinaryInst>(InstructionID::Add, rep, offsetVal);
                             val->insertBefore(userBlock, iter.ref()->user->asIterator());
                             iter.ref()->resetValue(val);
+                            modified = true;
                         }
+                        iter = nextIter;
+                        continue;
                     }
                 } else {
                     iter.ref()->resetValue(rep);
-- 
2.43.0


From 1371aa2332f421a78572be0ec7a107c1671c603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 20/41] fix: ARM: give the flag-setting moves MOVS/MVNS a
 scheduling class

---
 cmmc/Target/ARM/ARM.yml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmc/Target/ARM/ARM.yml b/cmmc/Target/ARM/ARM.yml
index 234d768..e54289e 100644
--- a/cmmc/Target/ARM/ARM.yml
+++ b/cmmc/Target/ARM/ARM.yml
@@ -1775,6 +1775,8 @@ ScheduleModel:
         - MVN_Constant
         - MOV
         - MVN
+        - MOVS
+        - MVNS
         - MOVW
         - MOVT
         - MOVT_MOVW_PAIR # Fused
-- 
2.43.0


From 13821ed6ba8f393cb7a5a981c4fea8a44c9734cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 21/41] fix: ARM: the epilogue must not keep the frame size in
 the scratch register of stack accesses

---
 cmmc/Target/ARM/ARMTarget.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMTarget.cpp b/cmmc/Target/ARM/ARMTarget.cpp
index a891e67..830f150 100644
--- a/cmmc/Target/ARM/ARMTarget.cpp
+++ b/cmmc/Target/ARM/ARMTarget.cpp
@@ -441,7 +441,15 @@ void ARMFrameInfo::emitPostSAEpilogue(MIRBasicBlock& exitBlock, const CodeGenCon
         else
             break;
     }
-    ARM::adjustReg(instructions, iter, ARM::sp, ARM::sp, stackSize);
+    // The scratch register cannot be used here: legalized stack accesses clobber it, and they may be scheduled between the
+    // materialization of the size and the adjustment of sp. Any 32-bit value is the sum of at most four operand2 constants.
+    auto remaining = static_cast<uint32_t>(stackSize);
+    while(remaining != 0) {
+        const auto shift = static_cast<uint32_t>(__builtin_ctz(remaining)) & ~1U;
+        const auto chunk = remaining & (0xffU << shift);
+        ARM::adjustReg(instructions, iter, ARM::sp, ARM::sp, static_cast<int64_t>(chunk));
+        remaining -= chunk;
+    }
 }
 int32_t ARMFrameInfo::insertPrologueEpilogue(MIRFunction& mfunc,
                                              const std::unordered_set<MIROperand, MIROperandHasher>& calleeSavedRegister,
-- 
2.43.0


From faacfe92494707e3d27bbb9a49311468f5de2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 22/41] fix: CommonBaseOpt: do not rewrite an alloc or phi in
 terms of a pivot computed from it

---
 cmmc/CodeGen/CodeGenPrepare.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenPrepare.cpp b/cmmc/CodeGen/CodeGenPrepare.cpp
index cdaae86..c83ef76 100644
--- a/cmmc/CodeGen/CodeGenPrepare.cpp
+++ b/cmmc/CodeGen/CodeGenPrepare.cpp
@@ -505,6 +505,12 @@ class CommonBaseOpt final : public TransformPass<Function> {
                 for(auto [k, off] : cluster) {
                     if(k->getBlock() != block)
                         continue;
+                    // allocs and phis are never rewritten in terms of a pivot which may be computed from them
+                    if(k != pivot) {
+                        const auto instID = k->as<Instruction>()->getInstID();
+                        if(instID == InstructionID::Alloc || instID == InstructionID::Phi)
+                            continue;
+                    }
                     if(k == pivot) {
                         modified = true;
                         replace.emplace(k, basePtr);
-- 
2.43.0


From 573b35b4112430d6b080c5e1752148c1d7b09c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 23/41] fix: RISC-V: merge two zero stores on the stack only if
 they are adjacent

---
 cmmc/Target/RISCV/RISCVScheduleModel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmc/Target/RISCV/RISCVScheduleModel.cpp b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
index 3206724..5f495b1 100644
--- a/cmmc/Target/RISCV/RISCVScheduleModel.cpp
+++ b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
@@ -544,6 +544,11 @@ static bool foldStoreZero(MIRFunction& func, MIRBasicBlock& block, const CodeGen
                 const auto offset = inst.getOperand(1).imm();
                 if(prevOffset + 4 != offset)
                     continue;
+            } else {
+                const auto prevOffset = func.stackObjects().at(prevBase).offset + prevInst.getOperand(1).imm();
+                const auto offset = func.stackObjects().at(base).offset + inst.getOperand(1).imm();
+                if(prevOffset + 4 != offset)
+                    continue;
             }
             inst.setOpcode(SD);
             inst.setOperand<1>(prevInst.getOperand(1));
-- 
2.43.0


From 5b943bb56305a0850002d8c879ab57e8aeb4c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 24/41] fix: SysY scanner: accept zero-padded octal constants
 and hexadecimal/dotted floats as the language defines them

---
 cmmc/Frontend/ScannerSysY.ll | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmc/Frontend/ScannerSysY.ll b/cmmc/Frontend/ScannerSysY.ll
index ee15d0d..1e6106e 100644
--- a/cmmc/Frontend/ScannerSysY.ll
+++ b/cmmc/Frontend/ScannerSysY.ll
@@ -200,11 +200,11 @@ FIXED_WIDTH_INTEGER_TYPE u?int(8|16|32|64)_t
 
 "0"[xX][0-9A-Fa-f]+U?L?L? { return emitInteger(16); }
 (0|([1-9][0-9]*))U?L?L? { return emitInteger(10); }
-"0"[1-7][0-7]*U?L?L? { return emitInteger(8); }
+"0"[0-7]+U?L?L? { return emitInteger(8); }
 ([0-9]+)?"."[0-9]+([eE][+-]?[0-9]+)?(f|F)? { return emitFp(); }
 ([0-9]+)([eE][+-]?[0-9]+)(f|F)? { return emitFp(); }
-([0-9]+)"."(f|F)? { return emitFp(); }
-0[xX][0-9a-fA-F]*"."[0-9a-fA-F]*[pP][+-]?[0-9]+(f|F)? { return emitFp(); }
+([0-9]+)"."([eE][+-]?[0-9]+)?(f|F)? { return emitFp(); }
+0[xX]([0-9a-fA-F]+"."?[0-9a-fA-F]*|"."[0-9a-fA-F]+)[pP][+-]?[0-9]+(f|F)? { return emitFp(); }
 [a-zA-Z_][a-zA-Z_0-9]* { String val = String::get(yytext); return Parser::make_ID(val, {CMMC_RECORD(ID, val), loc}); }
 "'"."'" { char ch = yytext[1]; return Parser::make_CHAR(ch, {CMMC_RECORD(CHAR, ch), loc}); }
 "\"".*"\"" { std::string_view text{yytext}; String str = String::get(text.substr(1, text.size()-2)); return Parser::make_STRING(str, {CMMC_RECORD(STRING, str), loc}); }
-- 
2.43.0


From 30eb1bd841041f171886dc288259f4ca11f7b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 25/41] fix: array initializers: zero-fill skipped elements and
 align each braced list by its own position

---
 cmmc/Frontend/EmitIR.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 19385a0..3b44d8c 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1572,23 +1572,14 @@ void ArrayInitializer::gatherArrayElementsImpl(EmitContext& ctx, uint32_t& offse
                                                const std::vector<uint32_t>& sizes, std::map<uint32_t, Expr*>& values) const {
     assert(offset % sizes[layer] == 0);
     const auto upperBound = offset + sizes[layer];
-    uint32_t nextLayer = std::numeric_limits<uint32_t>::max();
     for(auto element : mElements) {
         if(auto subArray = dynamic_cast<ArrayInitializer*>(element)) {
-            if(element == mElements.front()) {  // begins with an opening brace
-                nextLayer = layer + 1;
-                if(nextLayer >= sizes.size())
-                    DiagnosticsContext::get().attach<Reason>("too many braces in array initializer").reportFatal();
-            } else if(nextLayer == std::numeric_limits<uint32_t>::max()) {
-                for(uint32_t idx = layer + 1; idx < sizes.size(); ++idx) {
-                    if(offset % sizes[idx] == 0) {
-                        nextLayer = idx;
-                        break;
-                    }
-                }
-                if(nextLayer == std::numeric_limits<uint32_t>::max())
-                    DiagnosticsContext::get().attach<Reason>("invalid array initializer").reportFatal();
-            }
+            // a braced list initializes the largest sub-aggregate which begins at the current position
+            uint32_t nextLayer = layer + 1;
+            while(nextLayer < sizes.size() && offset % sizes[nextLayer] != 0)
+                ++nextLayer;
+            if(nextLayer >= sizes.size())
+                DiagnosticsContext::get().attach<Reason>("too many braces in array initializer").reportFatal();
 
             subArray->gatherArrayElementsImpl(ctx, offset, nextLayer, sizes, values);
         } else {
@@ -1644,16 +1635,18 @@ ConstantValue* ArrayInitializer::shapeAwareEmitStaticImpl(EmitContext& ctx, cons
             auto endIter = values.lower_bound(end);
 
             if(begIter != endIter) {
-                if(elements.size() != idx)
-                    DiagnosticsContext::get().attach<Reason>("sparse array initialization is not supported").reportFatal();
+                while(elements.size() != idx)  // skipped sub-arrays are zero-initialized
+                    elements.push_back(make<ConstantArray>(subArrayType, Vector<ConstantValue*>{}));
                 elements.push_back(shapeAwareEmitStaticImpl(ctx, values, beg, subArrayType, dstQualifier));
             }
         }
     } else {
         for(uint32_t idx = 0; idx < count; ++idx) {
             if(auto iter = values.find(idx + offset); iter != values.cend()) {
-                if(elements.size() != idx)
-                    DiagnosticsContext::get().attach<Reason>("sparse array initialization is not supported").reportFatal();
+                while(elements.size() != idx)  // skipped elements are zero-initialized
+                    elements.push_back(subType->isFloatingPoint() ?
+                                           static_cast<ConstantValue*>(make<ConstantFloatingPoint>(subType, 0.0)) :
+                                           ConstantInteger::get(subType, 0));
                 const auto value = ctx.getRValue(iter->second, subType, dstQualifier, ConversionUsage::Initialization);
                 if(!value->isConstant())
                     DiagnosticsContext::get().attach<Reason>("require constants in static array initialization").reportFatal();
-- 
2.43.0


From a450054fd8de678886b39e406640c54783dc6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 26/41] fix: ModuloOpt: bound the search for summands, it was
 exponential in the length of a chain of remainders

---
 cmmc/Transforms/Combine/ModuloOpt.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 4e5cde1..3b47cc8 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -44,17 +44,21 @@ CMMC_NAMESPACE_BEGIN
 class ModuloOpt final : public TransformPass<Function> {
     static constexpr uint32_t depth = 5;
 
+    static constexpr uint32_t maxCollectSteps = 64;
+
+    // steps bounds the number of alternatives which are tried, otherwise it is exponential in the length of the chain
     static void collectSum(Value* val, Instruction* ctx, std::vector<Value*>& components, IntegerRange& r,
                            const IntegerRangeAnalysisResult& range, const DominateAnalysisResult& dom, intmax_t mod,
-                           bool checkOverflow, bool allowCrossSRem, bool& hasCross) {
+                           bool checkOverflow, bool allowCrossSRem, bool& hasCross, uint32_t& steps) {
         Value *v1, *v2;
-        if(add(any(v1), any(v2))(MatchContext<Value>{ val })) {
+        if(steps < maxCollectSteps && add(any(v1), any(v2))(MatchContext<Value>{ val })) {
             auto tryCollect = [&](bool crossLhs, bool crossRhs) {
+                ++steps;
                 const auto size = components.size();
                 const auto oldRange = r;
                 const auto hasCrossBackup = hasCross;
-                collectSum(v1, ctx, components, r, range, dom, mod, checkOverflow, crossLhs, hasCross);
-                collectSum(v2, ctx, components, r, range, dom, mod, checkOverflow, crossRhs, hasCross);
+                collectSum(v1, ctx, components, r, range, dom, mod, checkOverflow, crossLhs, hasCross, steps);
+                collectSum(v2, ctx, components, r, range, dom, mod, checkOverflow, crossRhs, hasCross, steps);
                 if(!checkOverflow || r.isNoSignedOverflow())
                     return true;
 
@@ -72,12 +76,13 @@ class ModuloOpt final : public TransformPass<Function> {
                 return;
         }
         intmax_t i1;
-        if(allowCrossSRem && srem(any(v1), int_(i1))(MatchContext<Value>{ val }) && i1 == mod) {
+        if(allowCrossSRem && steps < maxCollectSteps && srem(any(v1), int_(i1))(MatchContext<Value>{ val }) && i1 == mod) {
             const auto r2 = range.query(v1, dom, ctx, depth);
             const auto newRange = r + r2;
             if(!checkOverflow || newRange.isNoSignedOverflow()) {
                 hasCross = true;
-                collectSum(v1, ctx, components, r, range, dom, mod, checkOverflow, true, hasCross);
+                ++steps;
+                collectSum(v1, ctx, components, r, range, dom, mod, checkOverflow, true, hasCross, steps);
                 return;
             }
         }
@@ -98,7 +103,8 @@ class ModuloOpt final : public TransformPass<Function> {
                     IntegerRange r(static_cast<intmax_t>(0));
                     std::vector<Value*> components;
                     bool hasCross = false;
-                    collectSum(val, inst, components, r, range, dom, ival, checkOverflow, true, hasCross);
+                    uint32_t steps = 0;
+                    collectSum(val, inst, components, r, range, dom, ival, checkOverflow, true, hasCross, steps);
                     assert(!checkOverflow || r.isNoSignedOverflow());
                     if(hasCross && components.size() > 1) {
                         Value* sum = components.front();
-- 
2.43.0


From b868314c8b149f1f41c5926ff1a3b8d6c654e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 27/41] remove a stray file

---
 cmmc/b.s | 0
 1 file changed, 0 insertions(+), 0 deletions(-)
 delete mode 100644 cmmc/b.s

diff --git a/cmmc/b.s b/cmmc/b.s
deleted file mode 100644
index e69de29..0000000
-- 
2.43.0


From fe43adebf5eb102bec28f578e490bcc726fcec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 28/41] fix: ICF: never fold a block into the entry block,
 which has no label

---
 cmmc/CodeGen/ICF.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/CodeGen/ICF.cpp b/cmmc/CodeGen/ICF.cpp
index 55268f8..f679c80 100644
--- a/cmmc/CodeGen/ICF.cpp
+++ b/cmmc/CodeGen/ICF.cpp
@@ -54,6 +54,9 @@ void identicalCodeFolding(MIRFunction& func, const CodeGenContext& ctx) {
     std::unordered_map<size_t, std::vector<MIRBasicBlock*>> blocks;
     std::unordered_map<const MIRBasicBlock*, MIRBasicBlock*> replace;
     for(auto& block : func.blocks()) {
+        // The entry block has no label, it must not become a branch target.
+        if(&block == &func.blocks().front())
+            continue;
         size_t hash = std::hash<size_t>{}(block->instructions().size());
         for(auto successor : cfg.successors(block.get()))
             hash ^= std::hash<const MIRBasicBlock*>{}(successor.block);
-- 
2.43.0


From 8de7491cede31f5c520a89af069076b6ee996be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 29/41] fix: ArithmeticReduce: INT_MIN / c1 / c2 is -1, not 0,
 when c1 * c2 is 2^31

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 6fc0bc4..f63d9ff 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -187,7 +187,9 @@ class ArithmeticReduce final : public TransformPass<Function> {
                 if(min <= val && val <= max) {
                     return builder.makeOp<BinaryInst>(InstructionID::SDiv, v1, makeIntLike(val, inst));
                 }
-                return ConstantInteger::get(inst->getType(), 0);
+                // the quotient of min is -1 when the product of divisors is -min
+                if(val != -min)
+                    return ConstantInteger::get(inst->getType(), 0);
             }
             // 0 % a -> 0
             if(srem(cint_(0), any(v1))(matchCtx) || urem(cuint_(0), any(v1))(matchCtx))
-- 
2.43.0


From 0a72e31cd5890e9f31477c33b1619a686593dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 30/41] fix: ImmutableScalarRefArg2Value: keep the reference
 when the function may write memory

---
 .../Misc/ImmutableScalarRefArg2Value.cpp      | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp b/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
index 4574fda..1e48312 100644
--- a/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
+++ b/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
@@ -65,6 +65,30 @@ class ImmutableScalarRefArg2Value final : public TransformPass<Module> {
         return true;
     }
 
+    // The referenced scalar may be modified via another argument or a global variable.
+    static bool mayWriteMemory(Function* func) {
+        for(auto block : func->blocks())
+            for(auto& inst : block->instructions()) {
+                switch(inst.getInstID()) {
+                    case InstructionID::Store:
+                    case InstructionID::AtomicAdd:
+                        return true;
+                    case InstructionID::Call: {
+                        const auto callee = inst.lastOperand();
+                        if(callee == func)
+                            continue;
+                        if(!callee->is<Function>() ||
+                           !callee->as<Function>()->attr().hasAttr(FunctionAttribute::NoMemoryWrite))
+                            return true;
+                        break;
+                    }
+                    default:
+                        break;
+                }
+            }
+        return false;
+    }
+
 public:
     bool run(Module& mod, AnalysisPassManager&) const override {
         bool modified = false;
@@ -77,6 +101,8 @@ public:
                     continue;
                 if(func->getLinkage() != Linkage::Internal)
                     continue;
+                if(mayWriteMemory(func))
+                    continue;
                 const auto type = func->getType();
                 bool optArg = false;
                 uint32_t idx = 0;
-- 
2.43.0


From f476167cb131544fd6e6f4efe587f7e263938037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 31/41] fix: LoopInterchange: keep the order of stores to one
 element, and decreasing inner loops

---
 cmmc/Transforms/Loop/LoopInterchange.cpp | 68 ++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/cmmc/Transforms/Loop/LoopInterchange.cpp b/cmmc/Transforms/Loop/LoopInterchange.cpp
index d2245ce..53b79c2 100644
--- a/cmmc/Transforms/Loop/LoopInterchange.cpp
+++ b/cmmc/Transforms/Loop/LoopInterchange.cpp
@@ -37,8 +37,10 @@
 #include <initializer_list>
 #include <iostream>
 #include <iterator>
+#include <optional>
 #include <ratio>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 CMMC_NAMESPACE_BEGIN
@@ -203,6 +205,60 @@ class LoopInterchange final : public TransformPass<Function> {
         return Stride{ 0, 0 };
     }
 
+    // Which induction variables an index expression depends on; nullopt if it is not an affine expression
+    struct IndexDependence final {
+        bool inner;
+        bool outer;
+    };
+    static std::optional<IndexDependence> calcDependence(Value* value, const DominateAnalysisResult& dom, Block* header,
+                                                         Value* innerIndVar, Value* outerIndVar) {
+        if(value == innerIndVar)
+            return IndexDependence{ true, false };
+        if(value == outerIndVar)
+            return IndexDependence{ false, true };
+        if(isInvariant(value, header, dom))
+            return IndexDependence{ false, false };
+        MatchContext<Value> matchCtx{ value };
+        Value *v1, *v2;
+        if(add(any(v1), any(v2))(matchCtx)) {
+            const auto lhs = calcDependence(v1, dom, header, innerIndVar, outerIndVar);
+            const auto rhs = calcDependence(v2, dom, header, innerIndVar, outerIndVar);
+            if(!lhs || !rhs)
+                return std::nullopt;
+            return IndexDependence{ lhs->inner || rhs->inner, lhs->outer || rhs->outer };
+        }
+        intmax_t scale;
+        if(mul(any(v1), int_(scale))(matchCtx))
+            return calcDependence(v1, dom, header, innerIndVar, outerIndVar);
+        return std::nullopt;
+    }
+
+    // Two iterations that write the same element must keep their order. It is guaranteed only if every dimension of the address
+    // is indexed by at most one of the induction variables.
+    static bool hasSeparateIndices(Value* ptr, const DominateAnalysisResult& dom, Block* header, Value* innerIndVar,
+                                   Value* outerIndVar, const DataLayout& dataLayout) {
+        std::unordered_map<size_t, IndexDependence> dimensions;
+        while(!isInvariant(ptr, header, dom)) {
+            if(!ptr->is<GetElementPtrInst>())
+                return false;
+            const auto gep = ptr->as<GetElementPtrInst>();
+            const auto [constant, offsets] = gep->gatherOffsets(dataLayout);
+            CMMC_UNUSED(constant);
+            for(auto [size, index] : offsets) {
+                const auto dependence = calcDependence(index, dom, header, innerIndVar, outerIndVar);
+                if(!dependence)
+                    return false;
+                auto& dimension = dimensions[size];
+                dimension.inner |= dependence->inner;
+                dimension.outer |= dependence->outer;
+                if(dimension.inner && dimension.outer)
+                    return false;
+            }
+            ptr = gep->lastOperand();
+        }
+        return true;
+    }
+
     static Value* cloneAndReplace(Value* val, Block* body, Block* header, const DominateAnalysisResult& dom,
                                   std::unordered_map<Value*, Value*>& rep) {
         if(auto iter = rep.find(val); iter != rep.cend())
@@ -294,6 +350,9 @@ class LoopInterchange final : public TransformPass<Function> {
             return false;
         if(!isInvariant(innerInitial, header, dom) || !isInvariant(innerBound, header, dom))
             return false;
+        // the condition of the new outer loop is always next < bound
+        if(innerStep <= 0)
+            return false;
         if(!isOnlyUsedBy(innerIndVar, { body }))
             return false;
         if(!isOnlyUsedBy(innerNext, { body }))
@@ -318,7 +377,16 @@ class LoopInterchange final : public TransformPass<Function> {
         std::unordered_map<Value*, Stride> affineExpr;
         uint32_t preferIJ = 0;
         uint32_t preferJI = 0;
+        std::unordered_set<Value*> storeBases;
         for(auto& inst : body->instructions()) {
+            if(inst.getInstID() == InstructionID::Store) {
+                const auto ptr = inst.getOperand(0);
+                // the order of two stores to the same object is unknown
+                if(!storeBases.insert(pointerBase.lookup(ptr)).second)
+                    return false;
+                if(!hasSeparateIndices(ptr, dom, header, innerIndVar, outerIndVar, dataLayout))
+                    return false;
+            }
             if(inst.getInstID() == InstructionID::Load || inst.getInstID() == InstructionID::Store) {
                 const auto ptr = inst.getOperand(0);
                 auto stride = calcStride(ptr, affineExpr, dom, header, innerIndVar, outerIndVar, dataLayout);
-- 
2.43.0


From 2dff4604aa4eb2e2193dfc5857b2537ac1a41dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 32/41] fix: ImmutableScalarRefArg2Value: a recursive call may
 pass another reference

---
 cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp b/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
index 1e48312..f9c73f6 100644
--- a/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
+++ b/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
@@ -62,6 +62,13 @@ class ImmutableScalarRefArg2Value final : public TransformPass<Module> {
             }
             return false;
         }
+        // every recursive call must pass the reference on, as its calls are not redirected to the wrapper
+        for(auto user : arg->getFunc()->users()) {
+            if(user->getInstID() != InstructionID::Call || user->lastOperand() != arg->getFunc())
+                return false;
+            if(user->getBlock()->getFunction() == arg->getFunc() && user->getOperand(idx) != arg)
+                return false;
+        }
         return true;
     }
 
-- 
2.43.0


From b52c4130511afc519d9493fc3b122bbcfe7cb8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 33/41] fix: FuncInlining: the returned value may be defined in
 a block that follows in the list

---
 cmmc/Transforms/IPO/Inlining.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/IPO/Inlining.cpp b/cmmc/Transforms/IPO/Inlining.cpp
index 28b58b0..1c423bb 100644
--- a/cmmc/Transforms/IPO/Inlining.cpp
+++ b/cmmc/Transforms/IPO/Inlining.cpp
@@ -129,7 +129,11 @@ void applyInline(Block* block, IntrusiveListIterator<Instruction> call, Function
                 insts.pop_back();
                 branch->insertBefore(newBlock, insts.end());
                 if(!retType->isVoid()) {
-                    retValue->addIncoming(newBlock, terminator->getOperand(0));
+                    // the definition may be in a block that is cloned after this one
+                    auto value = terminator->getOperand(0);
+                    if(const auto iter = targetReplace.find(value); iter != targetReplace.cend())
+                        value = iter->second;
+                    retValue->addIncoming(newBlock, value);
                 }
                 break;
             }
-- 
2.43.0


From 940b2ff0097181f6f5a3ed7fdc3db784c8732f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:15 +0000
Subject: [PATCH 34/41] fix: FinalValueReplacement: repeated division counts
 the iterations only of increasing loops

---
 cmmc/Transforms/Loop/FinalValueReplacement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/FinalValueReplacement.cpp b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
index 03e9ffd..2c3682f 100644
--- a/cmmc/Transforms/Loop/FinalValueReplacement.cpp
+++ b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
@@ -120,7 +120,7 @@ public:
             modified |= replaceOuterUse(loop, next->as<TrackableValue>(), loop.bound, 0);
 
             // TODO
-            if(cint_(0)(MatchContext<Value>{ loop.initial })) {
+            if(loop.step == 1 && cint_(0)(MatchContext<Value>{ loop.initial })) {
                 for(auto& inst : loop.latch->instructions()) {
                     Value *v1, *v2;
                     if(captureSCEV(inst, loop, dom, InstructionID::SDiv, v1, v2)) {
-- 
2.43.0


From 6e92a561be9353f3bf5a7c327ccd485d6d25d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 35/41] fix: ArithmeticReduce: division by a denormal power of
 two has no finite reciprocal

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index f63d9ff..3d102a5 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -174,9 +174,12 @@ class ArithmeticReduce final : public TransformPass<Function> {
             };
             if(fdiv(any(v1), fp_(f1))(matchCtx) && isPowerOf2FP(f1)) {
                 const auto reciprocal = 1.0 / f1;
-                assert(isPowerOf2FP(reciprocal));
-                return builder.makeOp<BinaryInst>(InstructionID::FMul, v1,
-                                                  make<ConstantFloatingPoint>(inst->getType(), reciprocal));
+                // the reciprocal of a denormal number may be out of range
+                if(std::isfinite(inst->getType()->getFixedSize() == sizeof(float) ? static_cast<float>(reciprocal) : reciprocal)) {
+                    assert(isPowerOf2FP(reciprocal));
+                    return builder.makeOp<BinaryInst>(InstructionID::FMul, v1,
+                                                      make<ConstantFloatingPoint>(inst->getType(), reciprocal));
+                }
             }
             // a / c1 / c2 -> a / (c1 * c2)
             if(sdiv(sdiv(any(v1), int_(i1)), int_(i2))(matchCtx)) {
-- 
2.43.0


From ed3e0fc8cd270911280ab13285018bc0083e177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 36/41] fix: IntegerRangeAnalysis: a zero remainder says
 nothing about the sign of the dividend

---
 cmmc/Analysis/IntegerRangeAnalysis.cpp            |  3 ++-
 cmmc/Transforms/Combine/RangeAwareArithReduce.cpp | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmmc/Analysis/IntegerRangeAnalysis.cpp b/cmmc/Analysis/IntegerRangeAnalysis.cpp
index 1dfc5ef..7c1e19e 100644
--- a/cmmc/Analysis/IntegerRangeAnalysis.cpp
+++ b/cmmc/Analysis/IntegerRangeAnalysis.cpp
@@ -376,7 +376,8 @@ IntegerRangeAnalysisResult IntegerRangeAnalysis::run(Function& func, AnalysisPas
             case InstructionID::SRem: {
                 update(inst, getOperandRange(0).srem(getOperandRange(1)));
                 // TODO: contextual
-                if(getOperandRange(1).isPositive() && getRange(inst, inst).isNonNegative()) {
+                // a zero remainder says nothing about the sign of the dividend
+                if(getOperandRange(1).isPositive() && getRange(inst, inst).isPositive()) {
                     updateContextual(inst->getOperand(0), inst->getBlock(), IntegerRange::getNonNegative());
                 }
                 break;
diff --git a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
index 0efb800..33a19a6 100644
--- a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
+++ b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
@@ -147,15 +147,23 @@ class RangeAwareArithReduce final : public TransformPass<Function> {
             }
 
             if(srem(any(v1), any(v2))(matchCtx)) {
+                auto lhs = rangeAnalysis.query(v1, dom, inst, depth);
                 auto rhs = rangeAnalysis.query(v2, dom, inst, depth);
                 auto self = rangeAnalysis.query(inst, dom, inst, depth);
+                auto isPowerOf2Constant = [](Value* val) {
+                    if(auto cval = dynamic_cast<ConstantInteger*>(val))
+                        return isPowerOf2(static_cast<size_t>(cval->getSignExtended()));
+                    return false;
+                };
                 auto isNonPowerOf2Constant = [](Value* val) {
                     if(auto cval = dynamic_cast<ConstantInteger*>(val))
                         return !isPowerOf2(static_cast<size_t>(cval->getSignExtended()));
                     return false;
                 };
 
-                if(rhs.isPositive() && self.isNonNegative() && !isNonPowerOf2Constant(v2)) {
+                // the remainder of a negative multiple of v2 is zero as well
+                if(rhs.isPositive() && !isNonPowerOf2Constant(v2) &&
+                   (lhs.isNonNegative() || (self.isNonNegative() && isPowerOf2Constant(v2)))) {
                     return builder.makeOp<BinaryInst>(InstructionID::URem, v1, v2);
                 }
             }
-- 
2.43.0


From 13d257c593c9dc457c5970f040f9097c27556732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:58 +0000
Subject: [PATCH 37/41] fix: cmmcParallelFor: the end of a chunk may exceed the
 range of int32_t

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index a840312..8b40376 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -227,12 +227,14 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
         const auto inc = static_cast<int32_t>(((size / threads) + alignment - 1) / alignment * alignment);
         std::array<bool, maxThreads> assigned{};
         for(int32_t i = 0; i < static_cast<int32_t>(threads); ++i) {
-            const auto subBeg = beg + i * inc;
-            auto subEnd = std::min(subBeg + inc, end);
+            // the end of a chunk may exceed the range of int32_t
+            const auto chunkBeg = beg + static_cast<int64_t>(i) * inc;
+            if(chunkBeg >= end)
+                continue;
+            const auto subBeg = static_cast<int32_t>(chunkBeg);
+            auto subEnd = static_cast<int32_t>(std::min(chunkBeg + inc, static_cast<int64_t>(end)));
             if(static_cast<uint32_t>(i) == threads - 1)
                 subEnd = end;
-            if(subBeg >= subEnd)
-                continue;
             // fprintf(stderr, "launch %d %d\n", subBeg, subEnd);
             // cmmc_exec_for(subBeg, subEnd, func, payload);
             auto& worker = workers[static_cast<size_t>(i)];
-- 
2.43.0


From 9099fba14ab257bae33c37b4824d51e9d2c3892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 38/41] fix: ARM: flags of a fused comparison no longer
 describe an earlier comparison

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index 2604117..cd823f4 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -403,6 +403,12 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
                                 break;
                         }
                     }
+                    // the flags no longer describe the operands of an earlier comparison
+                    if(changed) {
+                        ccCmpWithZero = { src.reg() };
+                        ccIsMove = isMove(prevOp);
+                        ccKeepsV = ccIsMove || keepV(prevOp);
+                    }
                 }
             }
 
-- 
2.43.0


From 78b566ac5b0d908f2999514ed60b223d7d4639b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 39/41] fix: ArithmeticReduce: constants combined past the int
 range

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 3d102a5..60ff3c7 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -68,6 +68,11 @@ class ArithmeticReduce final : public TransformPass<Function> {
             MatchContext<Value> matchCtx{ inst };
 
             auto makeIntLike = [](intmax_t val, const Value* like) { return ConstantInteger::get(like->getType(), val); };
+            // Signed overflow of the combined constant would make an add overflow which did not overflow before.
+            auto isRepresentable = [](intmax_t val, const Value* like) {
+                const auto bits = like->getType()->as<IntegerType>()->getBitwidth();
+                return bits >= 64 || (val >= -(1LL << (bits - 1)) && val < (1LL << (bits - 1)));
+            };
             auto makeNot = [&](Value* val) {
                 if(val->getType()->isBoolean())
                     return builder.makeOp<BinaryInst>(InstructionID::Xor, val, builder.getTrue());
@@ -99,7 +104,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
             if(fsub(any(v1), cfp_(0.0))(matchCtx))
                 return v1;
             // a - c -> a + (-c)
-            if(sub(any(v1), int_(i2))(matchCtx))
+            if(sub(any(v1), int_(i2))(matchCtx) && isRepresentable(-i2, inst))
                 return builder.makeOp<BinaryInst>(InstructionID::Add, v1, makeIntLike(-i2, inst));
             // - (a - b) -> b - a
             if(neg(sub(any(v1), any(v2)))(matchCtx))
@@ -368,20 +373,20 @@ class ArithmeticReduce final : public TransformPass<Function> {
             }
 
             // add (add x c1) c2 -> add x c1+c2
-            if(add(add(any(v1), int_(i1)), int_(i2))(matchCtx))
+            if(add(add(any(v1), int_(i1)), int_(i2))(matchCtx) && isRepresentable(i1 + i2, v1))
                 return builder.makeOp<BinaryInst>(InstructionID::Add, v1, makeIntLike(i1 + i2, v1));
             // add (sub x c1) c2 -> add x c2-c1
-            if(add(sub(any(v1), int_(i1)), int_(i2))(matchCtx))
+            if(add(sub(any(v1), int_(i1)), int_(i2))(matchCtx) && isRepresentable(i2 - i1, v1))
                 return builder.makeOp<BinaryInst>(InstructionID::Add, v1, makeIntLike(i2 - i1, v1));
             // sub (sub x c1) c2 -> add x -c1-c2
-            if(sub(sub(any(v1), int_(i1)), int_(i2))(matchCtx))
+            if(sub(sub(any(v1), int_(i1)), int_(i2))(matchCtx) && isRepresentable(-(i1 + i2), v1))
                 return builder.makeOp<BinaryInst>(InstructionID::Add, v1, makeIntLike(-(i1 + i2), v1));
             // sub (add x c1) c2 -> add x c1-c2
-            if(sub(add(any(v1), int_(i1)), int_(i2))(matchCtx))
+            if(sub(add(any(v1), int_(i1)), int_(i2))(matchCtx) && isRepresentable(i1 - i2, v1))
                 return builder.makeOp<BinaryInst>(InstructionID::Add, v1, makeIntLike(i1 - i2, v1));
 
             // a - c -> a + (-c)
-            if(sub(any(v1), int_(i1))(matchCtx) && !v1->isConstant())
+            if(sub(any(v1), int_(i1))(matchCtx) && !v1->isConstant() && isRepresentable(-i1, v1))
                 return builder.makeOp<BinaryInst>(InstructionID::Add, v1, makeIntLike(-i1, v1));
 
             // select cond, x, x + 1
-- 
2.43.0


From f2c1e0b8d0da3c59c65bcac6c101d678bc2c29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 40/41] fix: do not speculate calls, the callee may not
 terminate

---
 cmmc/Transforms/Util/BlockUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Transforms/Util/BlockUtil.cpp b/cmmc/Transforms/Util/BlockUtil.cpp
index 3b480fb..820bdea 100644
--- a/cmmc/Transforms/Util/BlockUtil.cpp
+++ b/cmmc/Transforms/Util/BlockUtil.cpp
@@ -168,6 +168,9 @@ bool isMovableExpr(const Instruction& inst, bool relaxedCtx) {
         case InstructionID::SRem:
         case InstructionID::URem:
             return !relaxedCtx || isNonZero(inst.getOperand(1));
+        // It is not safe to speculate calls, since the callee may not terminate.
+        case InstructionID::Call:
+            return !relaxedCtx;
         default:
             return true;
     }
-- 
2.43.0


From cf73e19214fdc0b3f6fd445acf09799465096f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 41/41] fix: Relayout: transposed accesses with zero or merged
 indices

---
 cmmc/Transforms/Misc/Relayout.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Misc/Relayout.cpp b/cmmc/Transforms/Misc/Relayout.cpp
index 3cffc5d..60ae0a9 100644
--- a/cmmc/Transforms/Misc/Relayout.cpp
+++ b/cmmc/Transforms/Misc/Relayout.cpp
@@ -151,6 +151,12 @@ class Relayout final : public TransformPass<Module> {
             addIdx(dim - 1, offset);
             if(base->is<GetElementPtrInst>())
                 trace(builder, base->as<GetElementPtrInst>(), idx1, idx2, dim - 1);
+        } else if(gep->operands().size() == 4) {
+            addIdx(dim, gep->getOperand(2));
+            addIdx(dim - 1, gep->getOperand(1));
+            const auto base = gep->getOperand(3);
+            if(base->is<GetElementPtrInst>())
+                trace(builder, base->as<GetElementPtrInst>(), idx1, idx2, dim - 2);
         }
     }
 
@@ -174,7 +180,12 @@ class Relayout final : public TransformPass<Module> {
                                     builder.setInsertPoint(block, inst.asIterator());
                                     Value *idx1 = nullptr, *idx2 = nullptr;
                                     trace(builder, inst.as<GetElementPtrInst>(), idx1, idx2, 2);
-                                    const auto zero = ConstantInteger::get(idx1->getType(), 0);
+                                    const auto zero = ConstantInteger::get(builder.getIndexType(), 0);
+                                    // zero offsets are dropped by trace
+                                    if(!idx1)
+                                        idx1 = zero;
+                                    if(!idx2)
+                                        idx2 = zero;
                                     Value* newPtr1 = builder.makeOp<GetElementPtrInst>(var, std::vector<Value*>{ zero, idx2 });
                                     Value* newPtr2 =
                                         builder.makeOp<GetElementPtrInst>(newPtr1, std::vector<Value*>{ zero, idx1 });
-- 
2.43.0

