From 50aa5ccda0a1efd721ab6ecfdcef6bb196a5f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 01/34] fix: compare memory state joins against joins in
 MemoryStateJoinOperation::operator==

The equality operator tested for MemoryStateMergeOperation, so that a join
never equalled another join, but equalled any merge with the same type and
operand count.
---
 jlm/llvm/ir/operators/MemoryStateOperations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/operators/MemoryStateOperations.cpp b/jlm/llvm/ir/operators/MemoryStateOperations.cpp
index 6040a16..191e733 100644
--- a/jlm/llvm/ir/operators/MemoryStateOperations.cpp
+++ b/jlm/llvm/ir/operators/MemoryStateOperations.cpp
@@ -136,7 +136,7 @@ MemoryStateJoinOperation::~MemoryStateJoinOperation() noexcept = default;
 bool
 MemoryStateJoinOperation::operator==(const Operation & other) const noexcept
 {
-  const auto operation = dynamic_cast<const MemoryStateMergeOperation *>(&other);
+  const auto operation = dynamic_cast<const MemoryStateJoinOperation *>(&other);
   return operation && operation->narguments() == narguments();
 }
 
-- 
2.43.0


From 963b03651d6c9e0f7a429d71b915d8581b11c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 02/34] fix: take the reference type into account in
 DeltaOperation::operator==

---
 jlm/rvsdg/delta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/delta.cpp b/jlm/rvsdg/delta.cpp
index 4d9a9b9..6ad9517 100644
--- a/jlm/rvsdg/delta.cpp
+++ b/jlm/rvsdg/delta.cpp
@@ -62,7 +62,7 @@ bool
 DeltaOperation::operator==(const Operation & other) const noexcept
 {
   auto op = dynamic_cast<const DeltaOperation *>(&other);
-  return op && op->constant_ == constant_ && *op->type_ == *type_;
+  return op && op->constant_ == constant_ && *op->type_ == *type_ && *op->reftype_ == *reftype_;
 }
 
 DeltaNode::~DeltaNode() noexcept = default;
-- 
2.43.0


From 6823536098406d9cba6f93648fc70bb34984d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 03/34] fix: take the match content types into account in
 GammaOperation::operator==

---
 jlm/rvsdg/gamma.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 41b1620..4c3ff5e 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -211,7 +211,16 @@ bool
 GammaOperation::operator==(const Operation & other) const noexcept
 {
   auto op = dynamic_cast<const GammaOperation *>(&other);
-  return op && op->numAlternatives_ == numAlternatives_;
+  if (!op || op->numAlternatives_ != numAlternatives_)
+    return false;
+
+  for (size_t n = 0; n < numAlternatives_; n++)
+  {
+    if (*op->GetMatchContentType(n) != *GetMatchContentType(n))
+      return false;
+  }
+
+  return true;
 }
 
 std::shared_ptr<const Type>
-- 
2.43.0


From d7139819b15b1e428a2f0214ae2d4a79e5f6463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 04/34] fix: compare all attributes of HLS operations in
 operator==

MuxOperation, AddressQueueOperation, DecoupledLoadOperation,
MemoryRequestOperation, and LocalMemoryRequestOperation ignored attributes that
distinguish them. MemoryResponseOperation and LocalMemoryResponseOperation
accessed a non-existing second argument.
---
 jlm/hls/ir/hls.hpp | 58 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/jlm/hls/ir/hls.hpp b/jlm/hls/ir/hls.hpp
index 94ecfed..84e5153 100644
--- a/jlm/hls/ir/hls.hpp
+++ b/jlm/hls/ir/hls.hpp
@@ -14,6 +14,7 @@
 #include <jlm/rvsdg/substitution.hpp>
 #include <jlm/util/common.hpp>
 
+#include <algorithm>
 #include <memory>
 #include <utility>
 
@@ -28,6 +29,30 @@ GetPointerSizeInBits();
 int
 JlmSize(const jlm::rvsdg::Type * type);
 
+/**
+ * Checks whether two simple operations have the same argument and result types.
+ */
+[[nodiscard]] inline bool
+HaveEqualSignatures(const rvsdg::SimpleOperation & op1, const rvsdg::SimpleOperation & op2) noexcept
+{
+  if (op1.narguments() != op2.narguments() || op1.nresults() != op2.nresults())
+    return false;
+
+  for (size_t n = 0; n < op1.narguments(); n++)
+  {
+    if (*op1.argument(n) != *op2.argument(n))
+      return false;
+  }
+
+  for (size_t n = 0; n < op1.nresults(); n++)
+  {
+    if (*op1.result(n) != *op2.result(n))
+      return false;
+  }
+
+  return true;
+}
+
 class BranchOperation final : public rvsdg::SimpleOperation
 {
 public:
@@ -216,7 +241,7 @@ public:
     const auto ot = dynamic_cast<const MuxOperation *>(&other);
     // check predicate and value
     return ot && *ot->argument(0) == *argument(0) && *ot->result(0) == *result(0)
-        && ot->discarding == discarding;
+        && ot->discarding == discarding && ot->loop == loop;
   }
 
   std::string
@@ -998,7 +1023,8 @@ public:
   {
     auto ot = dynamic_cast<const AddressQueueOperation *>(&other);
     // check predicate and value
-    return ot && *ot->argument(1) == *argument(1) && ot->narguments() == narguments();
+    return ot && *ot->argument(1) == *argument(1) && ot->narguments() == narguments()
+        && ot->combinatorial == combinatorial && ot->capacity == capacity;
   }
 
   static std::vector<std::shared_ptr<const jlm::rvsdg::Type>>
@@ -1117,7 +1143,8 @@ public:
   {
     auto ot = dynamic_cast<const DecoupledLoadOperation *>(&other);
     // check predicate and value
-    return ot && *ot->argument(1) == *argument(1) && ot->narguments() == narguments();
+    return ot && *ot->argument(1) == *argument(1) && ot->narguments() == narguments()
+        && ot->capacity == capacity;
   }
 
   static std::vector<std::shared_ptr<const jlm::rvsdg::Type>>
@@ -1194,8 +1221,7 @@ public:
   operator==(const Operation & other) const noexcept override
   {
     auto ot = dynamic_cast<const MemoryResponseOperation *>(&other);
-    // check predicate and value
-    return ot && *ot->argument(1) == *argument(1) && ot->narguments() == narguments();
+    return ot && HaveEqualSignatures(*ot, *this);
   }
 
   static std::vector<std::shared_ptr<const jlm::rvsdg::Type>>
@@ -1269,10 +1295,16 @@ public:
   operator==(const Operation & other) const noexcept override
   {
     auto ot = dynamic_cast<const MemoryRequestOperation *>(&other);
-    // check predicate and value
-    return ot && ot->narguments() == narguments()
-        && (ot->narguments() == 0 || (*ot->argument(1) == *argument(1)))
-        && ot->narguments() == narguments();
+    return ot && HaveEqualSignatures(*ot, *this)
+        && std::equal(
+               ot->LoadTypes_.begin(),
+               ot->LoadTypes_.end(),
+               LoadTypes_.begin(),
+               LoadTypes_.end(),
+               [](const auto & type1, const auto & type2)
+               {
+                 return *type1 == *type2;
+               });
   }
 
   static std::vector<std::shared_ptr<const jlm::rvsdg::Type>>
@@ -1506,8 +1538,7 @@ public:
   operator==(const Operation & other) const noexcept override
   {
     auto ot = dynamic_cast<const LocalMemoryResponseOperation *>(&other);
-    // check predicate and value
-    return ot && *ot->argument(1) == *argument(1) && ot->narguments() == narguments();
+    return ot && HaveEqualSignatures(*ot, *this);
   }
 
   static std::vector<std::shared_ptr<const jlm::rvsdg::Type>>
@@ -1701,10 +1732,7 @@ public:
   operator==(const Operation & other) const noexcept override
   {
     auto ot = dynamic_cast<const LocalMemoryRequestOperation *>(&other);
-    // check predicate and value
-    return ot && ot->narguments() == narguments()
-        && (ot->narguments() == 0 || (*ot->argument(1) == *argument(1)))
-        && ot->narguments() == narguments();
+    return ot && HaveEqualSignatures(*ot, *this);
   }
 
   static std::vector<std::shared_ptr<const jlm::rvsdg::Type>>
-- 
2.43.0


From 61150ffbae77560795f06ddece65d304afe64c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 05/34] fix: fixed and scalable vector types are never equal

Both operators delegated to VectorType::operator==, which only established that
the other type is some vector type.
---
 jlm/llvm/ir/types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index 38f7ee9..c8c3f58 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -274,7 +274,7 @@ FixedVectorType::~FixedVectorType() noexcept = default;
 bool
 FixedVectorType::operator==(const jlm::rvsdg::Type & other) const noexcept
 {
-  return VectorType::operator==(other);
+  return jlm::rvsdg::is<FixedVectorType>(other) && VectorType::operator==(other);
 }
 
 std::size_t
@@ -296,7 +296,7 @@ ScalableVectorType::~ScalableVectorType() noexcept = default;
 bool
 ScalableVectorType::operator==(const jlm::rvsdg::Type & other) const noexcept
 {
-  return VectorType::operator==(other);
+  return jlm::rvsdg::is<ScalableVectorType>(other) && VectorType::operator==(other);
 }
 
 std::size_t
-- 
2.43.0


From 5ad7341f8c3661ee9c9ebdf5703afdd8998171ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 06/34] fix: copy phi nodes without touching the original node

PhiNode::copy diverted the results of the node that is copied to origins in the
copy, which raised an error, and did not register the outputs of the copy in
the substitution map.
---
 jlm/rvsdg/Phi.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jlm/rvsdg/Phi.cpp b/jlm/rvsdg/Phi.cpp
index f859aba..42648e5 100644
--- a/jlm/rvsdg/Phi.cpp
+++ b/jlm/rvsdg/Phi.cpp
@@ -203,20 +203,23 @@ PhiNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   }
 
   // add recursion variables
-  for (auto var : GetFixVars())
+  const auto oldFixVars = GetFixVars();
+  std::vector<FixVar> newFixVars;
+  for (const auto & var : oldFixVars)
   {
-    auto newrv = pb.AddFixVar(var.recref->Type());
-    subregionmap.insert(var.recref, newrv.recref);
+    newFixVars.push_back(pb.AddFixVar(var.recref->Type()));
+    subregionmap.insert(var.recref, newFixVars.back().recref);
   }
 
   // copy subregion
   subregion()->copy(pb.subregion(), subregionmap);
 
   // finalize phi
-  for (auto var : GetFixVars())
+  for (size_t n = 0; n < oldFixVars.size(); ++n)
   {
-    auto neworigin = &subregionmap.lookup(*var.result->origin());
-    var.result->divert_to(neworigin);
+    auto neworigin = &subregionmap.lookup(*oldFixVars[n].result->origin());
+    newFixVars[n].result->divert_to(neworigin);
+    smap.insert(oldFixVars[n].output, newFixVars[n].output);
   }
 
   return pb.end();
-- 
2.43.0


From c014ede29b066b2aff1a132deacdc600b25e513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 07/34] fix: preserve match content in GammaNode::copy

---
 jlm/rvsdg/gamma.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 4c3ff5e..ffcb20f 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -486,10 +486,18 @@ GammaNode::RemoveEntryVars(const std::vector<EntryVar> & entryVars)
 GammaNode *
 GammaNode::copy(rvsdg::Region *, SubstitutionMap & smap) const
 {
-  auto gamma = create(&smap.lookup(*predicate()->origin()), nsubregions());
+  auto gamma = &Create(
+      smap.lookup(*predicate()->origin()),
+      std::make_unique<GammaOperation>(GetOperation()));
 
-  /* add entry variables to new gamma */
+  /* map match content of new gamma */
   std::vector<SubstitutionMap> rmap(nsubregions());
+  const auto oldMatchVar = GetMatchVar();
+  const auto newMatchVar = gamma->GetMatchVar();
+  for (size_t n = 0; n < nsubregions(); n++)
+    rmap[n].insert(oldMatchVar.matchContent[n], newMatchVar.matchContent[n]);
+
+  /* add entry variables to new gamma */
   for (const auto & oev : GetEntryVars())
   {
     auto nev = gamma->AddEntryVar(&smap.lookup(*oev.input->origin()));
-- 
2.43.0


From f04d2f90aaeb4475c77cbc5889b0996bfac9bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 08/34] fix: pass only the call's arguments as variadic
 arguments

---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index f2e86c7..b71a9be 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -1600,7 +1600,7 @@ convertCallArguments(
   if (functionType->isVarArg())
   {
     std::vector<const Variable *> variableArguments;
-    for (size_t n = functionType->getNumParams(); n < callInstruction.getNumOperands() - 1; n++)
+    for (size_t n = functionType->getNumParams(); n < callInstruction.arg_size(); n++)
       variableArguments.push_back(
           ConvertValue(callInstruction.getArgOperand(n), threeAddressCodes, context));
 
-- 
2.43.0


From aea85c509617d863a099a22f19cc72ffa2fe30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 09/34] fix: look up the original delta's result when copying a
 delta node

---
 jlm/rvsdg/delta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/delta.cpp b/jlm/rvsdg/delta.cpp
index 6ad9517..b638729 100644
--- a/jlm/rvsdg/delta.cpp
+++ b/jlm/rvsdg/delta.cpp
@@ -99,7 +99,7 @@ DeltaNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   subregion()->copy(delta->subregion(), subregionmap);
 
   // finalize delta
-  auto result = &subregionmap.lookup(*delta->result().origin());
+  auto result = &subregionmap.lookup(*this->result().origin());
   auto o = &delta->finalize(result);
   smap.insert(&output(), o);
 
-- 
2.43.0


From 144c7146c8761f5d704db641d8c0afbba64dd915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 10/34] fix: emit constant data of half elements as half
 instead of bfloat

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index c69d1ab..efd09de 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -552,7 +552,7 @@ IpGraphToLlvmConverter::convert(
     if (ft->size() == fpsize::half)
     {
       auto data = get_fpdata<uint16_t>(operands);
-      auto type = ::llvm::Type::getBFloatTy(builder.getContext());
+      auto type = ::llvm::Type::getHalfTy(builder.getContext());
       return ::llvm::ConstantDataArray::getFP(type, data);
     }
     else if (ft->size() == fpsize::flt)
@@ -808,7 +808,7 @@ IpGraphToLlvmConverter::convert_constantdatavector(
     if (ft->size() == fpsize::half)
     {
       auto data = get_fpdata<uint16_t>(operands);
-      auto type = ::llvm::Type::getBFloatTy(builder.getContext());
+      auto type = ::llvm::Type::getHalfTy(builder.getContext());
       return ::llvm::ConstantDataVector::getFP(type, data);
     }
     else if (ft->size() == fpsize::flt)
-- 
2.43.0


From 2cbba090d813374899cfcf468d72cbef4426a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 11/34] fix: emit a switch for multi-way branches on one-bit
 values

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index efd09de..1094d1a 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -1903,7 +1903,8 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
   JLM_ASSERT(branch && is<BranchOperation>(branch));
 
   // conditional branch
-  if (Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
+  if (node->NumOutEdges() == 2
+      && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
   // switch
-- 
2.43.0


From b0fbf2bf87ed3873229da328db1a9abcf51b6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 12/34] fix: keep the state order when reducing a load from an
 alloca

The reduction appended the states of the other allocas to the results of the
new load. Whenever such a state did not come last, the users of one state
were connected to another one.
---
 jlm/llvm/ir/operators/Load.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 71d452d..0436ec0 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -148,14 +148,14 @@ perform_load_alloca_reduction(
   const auto allocaNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[0]);
 
   std::vector<rvsdg::Output *> loadstates;
-  std::vector<rvsdg::Output *> otherstates;
+  std::vector<rvsdg::Output *> results(operands.size(), nullptr);
   for (size_t n = 1; n < operands.size(); n++)
   {
     const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[n]);
     if (!is<AllocaOperation>(node) || node == allocaNode)
       loadstates.push_back(operands[n]);
     else
-      otherstates.push_back(operands[n]);
+      results[n] = operands[n];
   }
 
   auto ld = LoadNonVolatileOperation::Create(
@@ -164,9 +164,14 @@ perform_load_alloca_reduction(
       op.GetLoadedType(),
       op.GetAlignment());
 
-  std::vector<rvsdg::Output *> results(1, ld[0]);
-  results.insert(results.end(), std::next(ld.begin()), ld.end());
-  results.insert(results.end(), otherstates.begin(), otherstates.end());
+  // The results must correspond position-wise to the operands
+  results[0] = ld[0];
+  for (size_t n = 1, s = 1; n < results.size(); n++)
+  {
+    if (results[n] == nullptr)
+      results[n] = ld[s++];
+  }
+
   return results;
 }
 
-- 
2.43.0


From ea586e3d8d5a0db777cce7490ae3017ea0cb483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 13/34] fix: only ignore load states that solely depend on
 stores to other allocas

A state from a store to another alloca was considered irrelevant for a load
even when that store itself depended on a store to the alloca of the load.
---
 jlm/llvm/ir/operators/Load.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 0436ec0..7eded9c 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -76,18 +76,28 @@ is_load_alloca_reducible(const std::vector<rvsdg::Output *> & operands)
 static bool
 is_reducible_state(const rvsdg::Output * state, const rvsdg::Node * loadalloca)
 {
-  auto [storeNode, storeOperation] =
-      rvsdg::TryGetSimpleNodeAndOptionalOp<StoreNonVolatileOperation>(*state);
-  if (storeOperation)
+  // The state is only irrelevant for the load if all the stores it depends on are to other allocas.
+  bool isStoreState = false;
+  while (true)
   {
+    auto [storeNode, storeOperation] =
+        rvsdg::TryGetSimpleNodeAndOptionalOp<StoreNonVolatileOperation>(*state);
+    if (!storeOperation)
+      break;
+
     auto address = StoreNonVolatileOperation::AddressInput(*storeNode).origin();
     auto [allocaNode, allocaOperation] =
         jlm::rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(*address);
-    if (allocaOperation && allocaNode != loadalloca)
-      return true;
+    if (!allocaOperation || allocaNode == loadalloca)
+      return false;
+
+    state = StoreNonVolatileOperation::MapMemoryStateOutputToInput(*state).origin();
+    isStoreState = true;
   }
 
-  return false;
+  auto [allocaNode, allocaOperation] =
+      jlm::rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(*state);
+  return isStoreState && allocaOperation && allocaNode != loadalloca;
 }
 
 /*
-- 
2.43.0


From 3ae2c08ac80725f27882d040e70bb8d240a58857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 14/34] fix: keep the state order when reducing a store to an
 alloca

The results of the reduction were the elements of an unordered set of states,
such that they did not correspond to the results of the replaced store.
---
 jlm/llvm/ir/operators/Store.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index fabf118..8ce4027 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -110,15 +110,16 @@ perform_store_alloca_reduction(
   auto value = operands[1];
   auto address = operands[0];
   auto alloca_state = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*address)->output(1);
-  std::unordered_set<jlm::rvsdg::Output *> states(
-      std::next(std::next(operands.begin())),
-      operands.end());
 
   auto outputs =
       StoreNonVolatileOperation::Create(address, value, { alloca_state }, op.GetAlignment());
-  states.erase(alloca_state);
-  states.insert(outputs[0]);
-  return { states.begin(), states.end() };
+
+  // The results must correspond position-wise to the state operands
+  std::vector<jlm::rvsdg::Output *> results;
+  for (size_t n = 2; n < operands.size(); n++)
+    results.push_back(operands[n] == alloca_state ? outputs[0] : operands[n]);
+
+  return results;
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0


From 4ce50c3ffbef1a4b033d83dc30ced3f98c020829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 15/34] fix: handle stores without or with several states in
 the store mux reduction

The reduction accessed the first state of stores that have no state, and
returned a single result for stores whose states all stem from one merge.
---
 jlm/llvm/ir/operators/Store.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 8ce4027..c9e4089 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -44,7 +44,9 @@ StoreNonVolatileOperation::copy() const
 static bool
 is_store_mux_reducible(const std::vector<jlm::rvsdg::Output *> & operands)
 {
-  JLM_ASSERT(operands.size() > 2);
+  // A store node might have no memory state edges
+  if (operands.size() == 2)
+    return false;
 
   const auto memStateMergeNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[2]);
   if (!is<MemoryStateMergeOperation>(memStateMergeNode))
@@ -99,7 +101,9 @@ perform_store_mux_reduction(
       operands[1],
       memStateMergeOperands,
       op.GetAlignment());
-  return { MemoryStateMergeOperation::Create(states) };
+
+  // All state operands stem from the same merge node
+  return std::vector<rvsdg::Output *>(op.nresults(), MemoryStateMergeOperation::Create(states));
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0


From e5c6b17d939c60f4f8a5395090567c0bc8576bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 16/34] fix: only eliminate a store whose states are all
 consumed by the next store

If another user consumed one of the states of the first store, then this store
remained, but was no longer ordered before the store that overwrites it.
---
 jlm/llvm/ir/operators/Store.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index c9e4089..770906d 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -203,6 +203,14 @@ StoreNonVolatileOperation::normalizeStoreStore(
   if (&llvm::traceOutput(store1Address) != &llvm::traceOutput(store2Address))
     return std::nullopt;
 
+  // Check that store2 consumes all used memory states of store1. Otherwise, store1 stays alive
+  // without being ordered with respect to store2.
+  size_t numUsedMemoryStates = 0;
+  for (auto & memoryState : outputs(store1Node))
+    numUsedMemoryStates += memoryState->nusers() != 0;
+  if (numUsedMemoryStates != store2Op.NumMemoryStates())
+    return std::nullopt;
+
   // Check that all memory state inputs originate from store1 AND have no other users
   std::vector<rvsdg::Output *> newMemoryStates;
   for (size_t n = 2; n < operands.size(); n++)
-- 
2.43.0


From d92e1968fb730772cf272e09931473a2c23df6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 17/34] fix: keep the I/O barrier of accesses in front of an
 allocation site

The negative offset wrapped around in the check that the accessed bytes lie
within the allocation site.
---
 jlm/llvm/ir/operators/Load.cpp  | 4 ++++
 jlm/llvm/ir/operators/Store.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 7eded9c..7ab8d07 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -400,6 +400,10 @@ LoadNonVolatileOperation::normalizeIOBarrierAddress(
   size_t offsetInBytes = 0;
   if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
   {
+    // The address lies in front of the allocation site
+    if (offsetInBytesOpt.value() < 0)
+      return std::nullopt;
+
     offsetInBytes = offsetInBytesOpt.value();
   }
 
diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 770906d..2a78c6b 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -311,6 +311,10 @@ StoreNonVolatileOperation::normalizeIOBarrierAddress(
   size_t offsetInBytes = 0;
   if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
   {
+    // The address lies in front of the allocation site
+    if (offsetInBytesOpt.value() < 0)
+      return std::nullopt;
+
     offsetInBytes = offsetInBytesOpt.value();
   }
 
-- 
2.43.0


From dd9ac3fe0fc686556432df81d0295f726307adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 18/34] fix: do not assume that the address of an extern_weak
 import is not null

---
 jlm/llvm/ir/operators/operators.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/operators.cpp b/jlm/llvm/ir/operators/operators.cpp
index 6aa82c4..a63d367 100644
--- a/jlm/llvm/ir/operators/operators.cpp
+++ b/jlm/llvm/ir/operators/operators.cpp
@@ -294,9 +294,10 @@ isAllocationSide(rvsdg::Output & output)
     return true;
   }
 
-  if (dynamic_cast<const LlvmGraphImport *>(&output))
+  if (const auto graphImport = dynamic_cast<const LlvmGraphImport *>(&output))
   {
-    return true;
+    // The address of an undefined weak symbol is null
+    return graphImport->linkage() != Linkage::externalWeakLinkage;
   }
 
   auto [fnToPtrNode, fnToPtrOperation] =
-- 
2.43.0


From eb622864b2de5b1c66a0362fa88cd61418e1e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 19/34] fix: fold constants wider than 64 bits in shifts and
 matches

---
 jlm/llvm/ir/operators/ControlOperations.cpp |  9 +++++++--
 jlm/llvm/ir/operators/IntegerOperations.cpp | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/ir/operators/ControlOperations.cpp b/jlm/llvm/ir/operators/ControlOperations.cpp
index 4f8a6c4..6611fdc 100644
--- a/jlm/llvm/ir/operators/ControlOperations.cpp
+++ b/jlm/llvm/ir/operators/ControlOperations.cpp
@@ -24,8 +24,13 @@ foldMatchOperationWithConstant(
   if (!constantOperation)
     return std::nullopt;
 
-  const auto controlAlternative =
-      matchOperation.alternative(constantOperation->Representation().to_uint());
+  // The constants of a match operation are at most 64 bits wide. Any constant that does not fit in
+  // 64 bits selects the default alternative.
+  const auto & representation = constantOperation->Representation();
+  const auto nbits = representation.nbits();
+  const auto controlAlternative = nbits > 64 && representation.slice(64, nbits) != 0
+                                    ? matchOperation.default_alternative()
+                                    : matchOperation.alternative(representation.to_uint());
 
   auto & controlConstantResult = rvsdg::ControlConstantOperation::create(
       *operand.region(),
diff --git a/jlm/llvm/ir/operators/IntegerOperations.cpp b/jlm/llvm/ir/operators/IntegerOperations.cpp
index dbcfc29..2a9a715 100644
--- a/jlm/llvm/ir/operators/IntegerOperations.cpp
+++ b/jlm/llvm/ir/operators/IntegerOperations.cpp
@@ -9,6 +9,20 @@
 namespace jlm::llvm
 {
 
+/**
+ * Converts the constant shift operand of a shift operation to a shift amount. Shift amounts that are
+ * greater than or equal to the number of bits are capped, as they might not fit in a size_t.
+ */
+static size_t
+getShiftAmount(const IntegerValueRepresentation & representation)
+{
+  const auto nbits = representation.nbits();
+  if (nbits > 64 && representation.slice(64, nbits) != 0)
+    return nbits;
+
+  return representation.to_uint();
+}
+
 template<typename TBinOp>
 static IntegerValueRepresentation
 foldBinaryOperation(const IntegerValueRepresentation & r1, const IntegerValueRepresentation & r2)
@@ -50,11 +64,11 @@ foldBinaryOperation(const IntegerValueRepresentation & r1, const IntegerValueRep
   else if constexpr (std::is_same_v<TBinOp, IntegerURemOperation>)
     return IntegerValueRepresentation(r1.umod(r2));
   else if constexpr (std::is_same_v<TBinOp, IntegerAShrOperation>)
-    return IntegerValueRepresentation(r1.ashr(r2.to_uint()));
+    return IntegerValueRepresentation(r1.ashr(getShiftAmount(r2)));
   else if constexpr (std::is_same_v<TBinOp, IntegerShlOperation>)
-    return IntegerValueRepresentation(r1.shl(r2.to_uint()));
+    return IntegerValueRepresentation(r1.shl(getShiftAmount(r2)));
   else if constexpr (std::is_same_v<TBinOp, IntegerLShrOperation>)
-    return IntegerValueRepresentation(r1.shr(r2.to_uint()));
+    return IntegerValueRepresentation(r1.shr(getShiftAmount(r2)));
   else if constexpr (std::is_same_v<TBinOp, IntegerOrOperation>)
     return IntegerValueRepresentation(r1.lor(r2));
   else if constexpr (std::is_same_v<TBinOp, IntegerAndOperation>)
-- 
2.43.0


From bc9e25638f229d9d4d6d4961194c7498a838c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 20/34] fix: do not convert constants wider than 64 bits in
 predicate correlation

---
 jlm/llvm/opt/PredicateCorrelation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index edb42ac..453a31d 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -51,7 +51,7 @@ extractConstantAlternatives(const rvsdg::Output & gammaOutput)
       auto [constantNode, constantOperation] =
           rvsdg::TryGetSimpleNodeAndOptionalOp<rvsdg::BitConstantOperation>(
               *branchResult->origin());
-      if (constantOperation)
+      if (constantOperation && constantOperation->value().nbits() <= 64)
       {
         alternatives.push_back(constantOperation->value().to_uint());
         continue;
@@ -61,7 +61,7 @@ extractConstantAlternatives(const rvsdg::Output & gammaOutput)
     {
       auto [constantNode, constantOperation] =
           rvsdg::TryGetSimpleNodeAndOptionalOp<IntegerConstantOperation>(*branchResult->origin());
-      if (constantOperation)
+      if (constantOperation && constantOperation->Representation().nbits() <= 64)
       {
         alternatives.push_back(constantOperation->Representation().to_uint());
         continue;
-- 
2.43.0


From 3f2ed6d0665980fa25fb29adcf3536d4e4437180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 21/34] fix: treat constants wider than 64 bits as unknown in
 scalar evolution

---
 jlm/llvm/opt/ScalarEvolution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 2a89ee2..80f3caa 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -992,8 +992,9 @@ ScalarEvolution::GetOrCreateSCEVForOutput(rvsdg::Output & output)
     }
     else if (const auto constOp = dynamic_cast<const IntegerConstantOperation *>(&*simpleOperation))
     {
-      const auto value = constOp->Representation().to_int();
-      result = SCEVConstant::Create(value);
+      // Constants that do not fit in 64 bits are unknown
+      if (const auto & representation = constOp->Representation(); representation.nbits() <= 64)
+        result = SCEVConstant::Create(representation.to_int());
     }
     else if (rvsdg::is<IntegerBinaryOperation>(*simpleOperation))
     {
-- 
2.43.0


From f67b612932a1d4a106523fd0617f9d70a5ea823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 22/34] fix: trace constants through extensions of integers
 wider than 64 bits

---
 jlm/llvm/ir/Trace.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jlm/llvm/ir/Trace.cpp b/jlm/llvm/ir/Trace.cpp
index 17f3aff..cbd7b87 100644
--- a/jlm/llvm/ir/Trace.cpp
+++ b/jlm/llvm/ir/Trace.cpp
@@ -101,6 +101,9 @@ tryGetConstantSignedInteger(const rvsdg::Output & output)
 
     // When doing sign extensions, we only need to care about the size of the input type
     const auto inputBits = sextOp->nsrcbits();
+    if (inputBits >= 64)
+      return inputValue;
+
     return util::truncateAndSignExtend(*inputValue, inputBits);
   }
 
@@ -114,6 +117,14 @@ tryGetConstantSignedInteger(const rvsdg::Output & output)
 
     // When doing zero extensions, we only need to care about the size of the input type
     const auto inputBits = zextOp->nsrcbits();
+    if (inputBits >= 64)
+    {
+      // A negative input value does not fit in 64 bits after the zero extension
+      if (*inputValue < 0)
+        return std::nullopt;
+      return inputValue;
+    }
+
     return util::truncateAndZeroExtend(*inputValue, inputBits);
   }
 
@@ -126,6 +137,9 @@ tryGetConstantSignedInteger(const rvsdg::Output & output)
       return std::nullopt;
 
     const auto outputBits = truncOp->ndstbits();
+    if (outputBits >= 64)
+      return inputValue;
+
     // When truncating, we still need to fill the high bits with something.
     // We chose to sign extend, but this is mainly an aestetic choice
     return util::truncateAndSignExtend(*inputValue, outputBits);
-- 
2.43.0


From 577eaa3dc6b4f9552442273780ae235dd6a9fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 23/34] fix: keep the I/O barrier of accesses to extern_weak
 imports

---
 jlm/llvm/ir/operators/Load.cpp  | 4 ++++
 jlm/llvm/ir/operators/Store.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 7ab8d07..4793473 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -372,6 +372,10 @@ getAllocationSizeInBytes(const rvsdg::Output & output)
 
   if (const auto llvmImport = dynamic_cast<const LlvmGraphImport *>(&output))
   {
+    // There is no memory behind an undefined weak symbol
+    if (llvmImport->linkage() == Linkage::externalWeakLinkage)
+      return std::nullopt;
+
     return GetTypeAllocSize(*llvmImport->ValueType());
   }
 
diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 2a78c6b..f8d48ac 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -282,6 +282,10 @@ getAllocationSizeInBytes(const rvsdg::Output & output)
 
   if (const auto llvmImport = dynamic_cast<const LlvmGraphImport *>(&output))
   {
+    // There is no memory behind an undefined weak symbol
+    if (llvmImport->linkage() == Linkage::externalWeakLinkage)
+      return std::nullopt;
+
     return GetTypeAllocSize(*llvmImport->ValueType());
   }
 
-- 
2.43.0


From f13023de498eb7760aef0e4b80be687fd6a3c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 24/34] fix: NodeHoisting must not hoist memory operations
 based on loop variables that pass through structural nodes

---
 jlm/llvm/opt/push.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 6f9fc19..5718a46 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -106,7 +106,9 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.pre->Users().begin());
   const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.post->origin());
 
-  if (userNode != originNode)
+  // The memory state must be directly consumed and produced by the same simple node. If it passes
+  // through structural nodes instead, then other memory operations might be involved.
+  if (!userNode || userNode != originNode)
     return false;
 
   return true;
-- 
2.43.0


From 13f09681aa1344ee056218789c6dcad6c76abce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 25/34] fix: NodeHoisting must not hoist alloca operations out
 of loops

---
 jlm/llvm/opt/push.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 5718a46..3e72bad 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,6 +3,7 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/alloca.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/opt/push.hpp>
@@ -199,6 +200,10 @@ NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
     return context_->getLambdaSubregion();
   }
 
+  // An alloca allocates new memory each time it is executed, so it must stay in its region
+  if (is<AllocaOperation>(&node))
+    return *node.region();
+
   // Compute target regions for all the inputs of the node
   rvsdg::Region * greatestCommonTargetRegion = nullptr;
 
-- 
2.43.0


From f44ea7067c798424544766fdfecff59d90a2585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 26/34] fix: FunctionInlining must not inline functions whose
 dependencies cannot be routed to the call

---
 jlm/llvm/opt/inlining.cpp | 48 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index a4eebf7..6e10a92 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -94,6 +94,43 @@ FunctionInlining::FunctionInlining()
     : Transformation("FunctionInlining")
 {}
 
+/**
+ * Traces the origin of a function's context variable as far out as possible, such that it can be
+ * routed into the regions of the function's callers.
+ * @param ctxVar the context variable
+ * @return the traced output
+ */
+static rvsdg::Output &
+traceContextVariable(const rvsdg::LambdaNode::ContextVar & ctxVar)
+{
+  constexpr bool enableCaching = false;
+  llvm::OutputTracer tracer(enableCaching);
+  // We avoid entering phi nodes, as we can not route from a sibling region
+  tracer.setEnterPhiNodes(false);
+
+  return tracer.trace(*ctxVar.input->origin());
+}
+
+/**
+ * A function that is defined inside a phi node can depend on other definitions of the phi node,
+ * which are not available in callers outside of the phi node.
+ * @param region the region to make the context variables available in
+ * @param callee the function being called
+ * @return true if all context variables of \p callee can be routed to \p region, otherwise false.
+ */
+static bool
+canRouteContextVariablesToRegion(const rvsdg::Region & region, const rvsdg::LambdaNode & callee)
+{
+  for (auto & ctxVar : callee.GetContextVars())
+  {
+    const auto & origin = traceContextVariable(ctxVar);
+    if (origin.region() != &region && !rvsdg::Region::isAncestor(region, *origin.region()))
+      return false;
+  }
+
+  return true;
+}
+
 /**
  * A function body has access to the function's context variables,
  * so inlining requires these context variables to be routed into the call's region.
@@ -104,15 +141,10 @@ FunctionInlining::FunctionInlining()
 static std::vector<rvsdg::Output *>
 routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode & callee)
 {
-  constexpr bool enableCaching = false;
-  llvm::OutputTracer tracer(enableCaching);
-  // We avoid entering phi nodes, as we can not route from a sibling region
-  tracer.setEnterPhiNodes(false);
-
   std::vector<rvsdg::Output *> deps;
   for (auto & ctxvar : callee.GetContextVars())
   {
-    auto & traced = tracer.trace(*ctxvar.input->origin());
+    auto & traced = traceContextVariable(ctxvar);
     auto & routed = rvsdg::RouteToRegion(traced, region);
     deps.push_back(&routed);
   }
@@ -447,6 +479,10 @@ FunctionInlining::considerCallForInlining(
   if (!context_->inlineableFunctions.Contains(callee))
     return;
 
+  // We can only inline functions whose dependencies are available at the call
+  if (!canRouteContextVariablesToRegion(*callNode.region(), *callee))
+    return;
+
   // At this point we know that it is technically possible to do inlining
   context_->numInlineableCalls++;
   if (shouldInline(callNode, callerLambda, *callee))
-- 
2.43.0


From 1ecaea7cedfc3e1cb58340c46d5d684f799a5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 27/34] fix: determineGammaSubregionRoles must not assign roles
 when both subregions exit or both repeat the loop

---
 jlm/llvm/opt/LoopUnswitching.cpp      |  3 +++
 jlm/llvm/opt/PredicateCorrelation.cpp | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 33e848a..3a8ad4a 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -219,6 +219,9 @@ LoopUnswitching::UnswitchLoop(rvsdg::ThetaNode & oldThetaNode)
   JLM_ASSERT(correlationOpt.has_value());
   auto & correlation = correlationOpt.value();
 
+  if (!determineGammaSubregionRoles(*correlation).has_value())
+    return false;
+
   if (!heuristic_->shouldUnswitchLoop(*correlation))
     return false;
 
diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index 453a31d..2edf829 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -223,6 +223,12 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
+    // Exactly one of the two alternatives must exit the loop
+    if ((controlAlternatives[0] == 0) == (controlAlternatives[1] == 0))
+    {
+      return std::nullopt;
+    }
+
     GammaSubregionRoles roles;
     if (controlAlternatives[0] == 0)
     {
@@ -247,9 +253,17 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
-    GammaSubregionRoles roles;
     const auto matchOperation =
         util::assertedCast<const rvsdg::MatchOperation>(&matchNode->GetOperation());
+
+    // Exactly one of the two alternatives must exit the loop
+    if ((matchOperation->alternative(alternatives[0]) == 0)
+        == (matchOperation->alternative(alternatives[1]) == 0))
+    {
+      return std::nullopt;
+    }
+
+    GammaSubregionRoles roles;
     if (matchOperation->alternative(alternatives[0]) == 0)
     {
       roles.exitSubregion = correlation.gammaNode().subregion(0);
-- 
2.43.0


From 915a8b2fb1a36c7c44057a80653b31ea8df44eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 28/34] fix: predicate correlation must only consider gamma
 nodes that use the match as their predicate

---
 jlm/llvm/opt/LoopUnswitching.cpp      | 2 +-
 jlm/llvm/opt/PredicateCorrelation.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 3a8ad4a..b5ec3d4 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -99,7 +99,7 @@ LoopUnswitching::IsUnswitchable(const rvsdg::ThetaNode & theta)
       continue;
 
     gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
-    if (!gammaNode)
+    if (!gammaNode || &user != gammaNode->predicate())
       return nullptr;
   }
 
diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index 2edf829..0674143 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -139,7 +139,8 @@ computeMatchCorrelation(rvsdg::ThetaNode & thetaNode)
 
   for (auto & user : matchNode->output(0)->Users())
   {
-    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user))
+    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
+        gammaNode && &user == gammaNode->predicate())
     {
       return ThetaGammaPredicateCorrelation::CreateMatchCorrelation(
           thetaNode,
@@ -185,7 +186,7 @@ computeMatchCorrelation(rvsdg::GammaNode & gammaNode1)
   for (auto & user : matchNode->output(0)->Users())
   {
     if (const auto gammaNode2 = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
-        gammaNode2 != &gammaNode1)
+        gammaNode2 && gammaNode2 != &gammaNode1 && &user == gammaNode2->predicate())
     {
       return GammaGammaPredicateCorrelation::CreateMatchCorrelation(
           gammaNode1,
-- 
2.43.0


From 6eae898a321e83b4cdebd6ebbd05e3b1bfbb62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 29/34] fix: FunctionInlining must respect memory states
 compressed into the external memory state

---
 jlm/llvm/opt/inlining.cpp | 79 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index 6e10a92..a28f6ff 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -11,6 +11,7 @@
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/ir/Trace.hpp>
+#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
@@ -218,14 +219,71 @@ tryRerouteMemoryStateMergeAndSplit(
   if (!lambdaExitSplitOp)
     return;
 
+  const auto externalId = aa::PointsToGraph::externalMemoryNode;
+  const auto isCallerId = [&](MemoryNodeId id)
+  {
+    return CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(callEntryMerge, id)
+        != nullptr;
+  };
+  const auto isCalleeId = [&entrySplit = *lambdaEntrySplit](MemoryNodeId id)
+  {
+    return LambdaEntryMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(entrySplit, id)
+        != nullptr;
+  };
+
+  // A memory state ID that is only present in one of the functions can be compressed into the
+  // external memory state of the other function. These states, along with the external memory
+  // states themselves, can not be matched by their ID.
+  const auto belongsToExternalInCaller = [&](MemoryNodeId id)
+  {
+    return id == externalId || (isCallerId(externalId) && !isCallerId(id));
+  };
+  const auto belongsToExternalInCallee = [&](MemoryNodeId id)
+  {
+    return id == externalId || (isCalleeId(externalId) && !isCalleeId(id));
+  };
+
+  // Merges the given states, and splits the result again to replace the given outputs
+  const auto divertToMergedStates =
+      [](const std::vector<rvsdg::Output *> & outputs, const std::vector<rvsdg::Output *> & states)
+  {
+    const auto merged = states.size() == 1 ? states[0] : MemoryStateMergeOperation::Create(states);
+    if (outputs.size() == 1)
+    {
+      outputs[0]->divert_users(merged);
+      return;
+    }
+
+    const auto splitStates = MemoryStateSplitOperation::Create(*merged, outputs.size());
+    for (size_t n = 0; n < outputs.size(); n++)
+      outputs[n]->divert_users(splitStates[n]);
+  };
+
   // For each memory state output of the lambdaEntrySplit, move its users or create undef nodes
+  std::vector<rvsdg::Output *> externalEntryStates;
+  for (auto memoryStateId : callEntryMergeOp->getMemoryNodeIds())
+  {
+    if (belongsToExternalInCallee(memoryStateId))
+    {
+      auto mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+          callEntryMerge,
+          memoryStateId);
+      externalEntryStates.push_back(mergeInput->origin());
+    }
+  }
+
+  std::vector<rvsdg::Output *> externalEntryOutputs;
   for (auto & output : lambdaEntrySplit->Outputs())
   {
     auto memoryStateId = LambdaEntryMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
     auto mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         callEntryMerge,
         memoryStateId);
-    if (mergeInput)
+    if (!externalEntryStates.empty() && belongsToExternalInCaller(memoryStateId))
+    {
+      externalEntryOutputs.push_back(&output);
+    }
+    else if (mergeInput)
     {
       output.divert_users(mergeInput->origin());
     }
@@ -236,15 +294,30 @@ tryRerouteMemoryStateMergeAndSplit(
       output.divert_users(undef);
     }
   }
+  if (!externalEntryOutputs.empty())
+    divertToMergedStates(externalEntryOutputs, externalEntryStates);
 
   // For each memory state output of the callExitSplit, move its users
+  std::vector<rvsdg::Output *> externalExitStates;
+  for (auto & input : lambdaExitSplit->Inputs())
+  {
+    auto memoryStateId = LambdaExitMemoryStateMergeOperation::mapInputToMemoryNodeId(input);
+    if (belongsToExternalInCaller(memoryStateId))
+      externalExitStates.push_back(input.origin());
+  }
+
+  std::vector<rvsdg::Output *> externalExitOutputs;
   for (auto & output : callExitSplit.Outputs())
   {
     auto memoryStateId = CallExitMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
     auto exitMergeInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         *lambdaExitSplit,
         memoryStateId);
-    if (exitMergeInput)
+    if (!externalExitStates.empty() && belongsToExternalInCallee(memoryStateId))
+    {
+      externalExitOutputs.push_back(&output);
+    }
+    else if (exitMergeInput)
     {
       output.divert_users(exitMergeInput->origin());
     }
@@ -259,6 +332,8 @@ tryRerouteMemoryStateMergeAndSplit(
       output.divert_users(entryMergeInput->origin());
     }
   }
+  if (!externalExitOutputs.empty())
+    divertToMergedStates(externalExitOutputs, externalExitStates);
 }
 
 /**
-- 
2.43.0


From af14db514d76c2e75f298643040882068ff65d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:49 +0000
Subject: [PATCH 30/34] fix: a loop whose exit block has further edges into the
 loop is not tail-controlled

---
 jlm/llvm/ir/cfg-structure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/cfg-structure.cpp b/jlm/llvm/ir/cfg-structure.cpp
index a8f0a2b..69fe735 100644
--- a/jlm/llvm/ir/cfg-structure.cpp
+++ b/jlm/llvm/ir/cfg-structure.cpp
@@ -29,7 +29,8 @@ bool
 StronglyConnectedComponentStructure::IsTailControlledLoop() const noexcept
 {
   return NumEntryNodes() == 1 && NumRepetitionEdges() == 1 && NumExitEdges() == 1
-      && (*RepetitionEdges().begin())->source() == (*ExitEdges().begin())->source();
+      && (*RepetitionEdges().begin())->source() == (*ExitEdges().begin())->source()
+      && (*RepetitionEdges().begin())->source()->NumOutEdges() == 2;
 }
 
 std::unique_ptr<StronglyConnectedComponentStructure>
-- 
2.43.0


From ad9fd20c258b9179eccb791144b9e87a5ddc54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:25 +0000
Subject: [PATCH 31/34] fix: the elements of a vector are stored without
 padding between them

---
 jlm/llvm/ir/types.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index c8c3f58..787eeb5 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -455,8 +455,11 @@ GetTypeStoreSize(const rvsdg::Type & type)
   }
   if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
   {
-    // In LLVM, vectors always have alignment >= the number of bytes of data stored in the vector
-    const auto bytesNeeded = vectorType->size() * GetTypeAllocSize(*vectorType->Type());
+    // In LLVM, vectors always have alignment >= the number of bytes of data stored in the vector.
+    // The elements are tightly packed. There is no padding between them, not even to full bytes.
+    const auto bitType = dynamic_cast<const rvsdg::BitType *>(&*vectorType->Type());
+    const auto elementBits = bitType ? bitType->nbits() : 8 * GetTypeStoreSize(*vectorType->Type());
+    const auto bytesNeeded = (vectorType->size() * elementBits + 7) / 8;
     return bytesNeeded;
   }
   if (rvsdg::is<rvsdg::FunctionType>(type))
-- 
2.43.0


From d3949e913609aa3af973719d5a2eba1487085cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:39 +0000
Subject: [PATCH 32/34] fix: integers wider than 128 bits are aligned like 128
 bit integers

---
 jlm/llvm/ir/types.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index 787eeb5..600bc35 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -9,6 +9,7 @@
 #include <jlm/util/Math.hpp>
 #include <jlm/util/strfmt.hpp>
 
+#include <algorithm>
 #include <numeric>
 #include <unordered_map>
 
@@ -487,7 +488,13 @@ GetTypeAllocSize(const rvsdg::Type & type)
 size_t
 GetTypeAlignment(const rvsdg::Type & type)
 {
-  if (jlm::rvsdg::is<rvsdg::BitType>(type) || jlm::rvsdg::is<PointerType>(type)
+  if (jlm::rvsdg::is<rvsdg::BitType>(type))
+  {
+    // Alignment equal to the byte size, rounded up to a power of two. Integers wider than 128 bits
+    // have the same alignment as 128 bit integers.
+    return std::min<size_t>(util::RoundUpToPowerOf2(GetTypeStoreSize(type)), 16);
+  }
+  if (jlm::rvsdg::is<PointerType>(type)
       || jlm::rvsdg::is<FloatingPointType>(type) || jlm::rvsdg::is<VectorType>(type))
   {
     // These types all have alignment equal to their byte size, rounded up to a power of two
-- 
2.43.0


From 6d9caa178cd6185cdab827719724c74f7b0dc43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 33/34] fix: GetElementPtr can index into vectors

---
 jlm/llvm/ir/operators/GetElementPtr.cpp |  9 +++++++++
 jlm/llvm/opt/ScalarEvolution.cpp        | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/jlm/llvm/ir/operators/GetElementPtr.cpp b/jlm/llvm/ir/operators/GetElementPtr.cpp
index e5daca8..f1b2d26 100644
--- a/jlm/llvm/ir/operators/GetElementPtr.cpp
+++ b/jlm/llvm/ir/operators/GetElementPtr.cpp
@@ -97,6 +97,15 @@ GetElementPtrOperation::Constant::getOffsetInBytes() const noexcept
       return offsetInBytes;
     }
 
+    if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
+    {
+      // The elements of a vector are tightly packed
+      const auto & elementType = *vectorType->Type();
+      int64_t offsetInBytes = indexValue * GetTypeStoreSize(elementType);
+      offsetInBytes += computeIntraTypeOffset(index + 1, elementType);
+      return offsetInBytes;
+    }
+
     throw std::logic_error("Unknown GetElementPtr type");
   };
 
diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 80f3caa..04a089a 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -1094,6 +1094,21 @@ ScalarEvolution::ComputeSCEVForGepInnerOffset(
 
     return SCEVAddExpr::Create(std::move(offset), std::move(subOffset));
   }
+  if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
+  {
+    // The elements of a vector are tightly packed
+    const auto & elementType = *vectorType->Type();
+    auto offset = SCEVMulExpr::Create(
+        GetOrCreateSCEVForOutput(*gepInput->origin()),
+        SCEVConstant::Create(GetTypeStoreSize(elementType)));
+
+    auto subOffset = ComputeSCEVForGepInnerOffset(gepNode, inputIndex + 1, elementType);
+
+    if (!subOffset)
+      return offset;
+
+    return SCEVAddExpr::Create(std::move(offset), std::move(subOffset));
+  }
   throw std::logic_error("Unknown GEP type!");
 }
 
-- 
2.43.0


From 4a012313c1802f535378ccd5013abbb500e88d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:34 +0000
Subject: [PATCH 34/34] fix: LoadChainSeparation must treat calls as
 modifications

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 11723b1..7348969 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -439,6 +439,7 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
                 // either modifying or just referencing.
+                hasModRefChainLinkAboveInRegion = true;
                 traceModRefChains(*CallOperation::GetMemoryStateInput(node).origin(), summary);
                 doneTracing = true;
               },
-- 
2.43.0

