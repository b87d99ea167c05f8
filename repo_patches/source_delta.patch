From 838375610a7059a27e825905a6188bf0df87807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 01/72] Add NULLC_VERIFICATION hook: collection before every
 allocation, poisoning of reclaimed blocks

---
 NULLC/StdLib.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4534252..d7be543 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -309,6 +309,9 @@ public:
 			// Check flags again, finalizers might have some objects reachable
 			if(!(marker & (NULLC::OBJECT_VISIBLE | NULLC::OBJECT_FREED)))
 			{
+#ifdef NULLC_VERIFICATION
+				memset(block->data + sizeof(markerType), 0xDD, elemSize - sizeof(markerType));
+#endif
 				Free(block);
 
 				freed++;
@@ -402,6 +405,19 @@ void NULLC::SetLinker(Linker *linker)
 	NULLC::linker = linker;
 }
 
+#ifdef NULLC_VERIFICATION
+namespace NULLC
+{
+	// 0 - regular collections, 1 - a collection before every allocation
+	int verificationGcStress = 0;
+
+	void VerificationSetGcStress(int mode)
+	{
+		verificationGcStress = mode;
+	}
+}
+#endif
+
 void* NULLC::AllocObject(int size, unsigned type)
 {
 	if(size < 0)
@@ -410,6 +426,11 @@ void* NULLC::AllocObject(int size, unsigned type)
 		return NULL;
 	}
 
+#ifdef NULLC_VERIFICATION
+	if(verificationGcStress)
+		CollectMemory();
+#endif
+
 	void *data = NULL;
 	size += sizeof(markerType);
 
@@ -642,6 +663,9 @@ void NULLC::FreePending()
 
 			usedMemory -= size;
 
+#ifdef NULLC_VERIFICATION
+			memset((char*)block + 4 + sizeof(markerType), 0xDD, size - sizeof(markerType));
+#endif
 			NULLC::alignedDealloc(block);
 
 			bigBlocks.erase(curr);
-- 
2.43.0


From 3efbae0b3c9b83bcd79d0518738795166122a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 02/72] fix: fold constant branches before the search for
 unreachable blocks in dead code elimination

An unreachable loop behind a constant condition was left in the module and
aborted register allocation (InstructionTreeRegVmLower.cpp liveOut assertion).
---
 NULLC/InstructionTreeVm.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 59e3cbd..bc9a665 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4847,11 +4847,32 @@ void MarkReachableBlocks(VmBlock *block)
 void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmBlock *block);
 void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmInstruction *inst);
 
+void RemoveConstantConditionalBranch(VmModule *module, VmInstruction *inst)
+{
+	if(inst->cmd != VM_INST_JUMP_Z && inst->cmd != VM_INST_JUMP_NZ)
+		return;
+
+	if(VmConstant *condition = getType<VmConstant>(inst->arguments[0]))
+	{
+		if(inst->cmd == VM_INST_JUMP_Z)
+			ChangeInstructionTo(module, inst, VM_INST_JUMP, condition->iValue == 0 ? inst->arguments[1] : inst->arguments[2], NULL, NULL, NULL, NULL, &module->deadCodeEliminations);
+		else
+			ChangeInstructionTo(module, inst, VM_INST_JUMP, condition->iValue == 0 ? inst->arguments[2] : inst->arguments[1], NULL, NULL, NULL, NULL, &module->deadCodeEliminations);
+	}
+}
+
 void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction* function)
 {
 	if(!function->firstBlock)
 		return;
 
+	// Remove conditional branches with constant condition first, targets that are never taken might become unreachable
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+	{
+		for(VmInstruction *inst = curr->firstInstruction; inst; inst = inst->nextSibling)
+			RemoveConstantConditionalBranch(module, inst);
+	}
+
 	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 	{
 		curr->predecessors.clear();
@@ -4983,14 +5004,7 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmInstructi
 	}
 	else if(inst->cmd == VM_INST_JUMP_Z || inst->cmd == VM_INST_JUMP_NZ)
 	{
-		// Remove conditional branches with constant condition
-		if(VmConstant *condition = getType<VmConstant>(inst->arguments[0]))
-		{
-			if(inst->cmd == VM_INST_JUMP_Z)
-				ChangeInstructionTo(module, inst, VM_INST_JUMP, condition->iValue == 0 ? inst->arguments[1] : inst->arguments[2], NULL, NULL, NULL, NULL, &module->deadCodeEliminations);
-			else
-				ChangeInstructionTo(module, inst, VM_INST_JUMP, condition->iValue == 0 ? inst->arguments[2] : inst->arguments[1], NULL, NULL, NULL, NULL, &module->deadCodeEliminations);
-		}
+		RemoveConstantConditionalBranch(module, inst);
 	}
 	else if(inst->cmd == VM_INST_PHI)
 	{
-- 
2.43.0


From fa56222ff5ec7eaa3c79b2b28d3abc406f2f9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 03/72] fix: keep phi instructions consistent when predecessors
 of a branch on a phi are redirected

The phi kept the incoming edge of a predecessor that no longer enters its block;
later merging of blocks and a second redirection aborted on assertions in
RunControlFlowOptimization at optimization level 2.
---
 NULLC/InstructionTreeVm.cpp | 45 ++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index bc9a665..338fe95 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5033,6 +5033,25 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmInstructi
 	}
 }
 
+bool HasPhiInstructions(VmValue *value)
+{
+	VmBlock *block = getType<VmBlock>(value);
+
+	return block && block->firstInstruction && block->firstInstruction->cmd == VM_INST_PHI;
+}
+
+void RemovePhiIncomingEdge(VmInstruction *phi, unsigned pos)
+{
+	phi->arguments[pos]->RemoveUse(phi);
+	phi->arguments[pos + 1]->RemoveUse(phi);
+
+	phi->arguments[pos] = phi->arguments[phi->arguments.size() - 2];
+	phi->arguments[pos + 1] = phi->arguments[phi->arguments.size() - 1];
+
+	phi->arguments.pop_back();
+	phi->arguments.pop_back();
+}
+
 void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValue *value)
 {
 	(void)ctx;
@@ -5131,15 +5150,18 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 				VmValue *trueBlock = currLastInst->arguments[1];
 				VmValue *falseBlock = currLastInst->arguments[2];
 
-				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
+				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction && phi->users.size() == 1)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
 
 						if(option->cmd != VM_INST_LOAD_IMMEDIATE)
+						{
+							i += 2;
 							continue;
+						}
 
 						VmConstant *condition = getType<VmConstant>(option->arguments[0]);
 
@@ -5147,14 +5169,21 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 						VmInstruction *terminator = edge->lastInstruction;
 
-						if(terminator->cmd == VM_INST_JUMP)
+						// Target can't have phi instructions since they do not expect to be entered from the redirected edge
+						if(terminator->cmd == VM_INST_JUMP && !HasPhiInstructions(target))
 						{
 							assert(terminator->arguments[0] == curr);
 
 							ReplaceValue(module, terminator, terminator->arguments[0], target);
 
+							RemovePhiIncomingEdge(phi, i);
+
 							module->controlFlowSimplifications++;
 						}
+						else
+						{
+							i += 2;
+						}
 					}
 				}
 			}
@@ -5164,9 +5193,9 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 			{
 				VmInstruction *phi = getType<VmInstruction>(currLastInst->arguments[0]);
 
-				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
+				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction && phi->users.size() == 1)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
@@ -5178,6 +5207,12 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 							assert(terminator->arguments[0] == curr);
 
 							ChangeInstructionTo(module, terminator, VM_INST_RETURN, option, NULL, NULL, NULL, NULL, &module->controlFlowSimplifications);
+
+							RemovePhiIncomingEdge(phi, i);
+						}
+						else
+						{
+							i += 2;
 						}
 					}
 				}
-- 
2.43.0


From 41beaa34091933227095967ee84fe18b063c1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 04/72] fix: parse decimal literals with a single rounding

0.75 was read as 0.7500000000000001 since fraction digits were accumulated with
inexact powers of ten.
---
 NULLC/ExpressionTree.cpp | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index eea27c5..0e6fd0f 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -257,25 +257,33 @@ namespace
 	double ParseDouble(ExpressionContext &ctx, const char *str)
 	{
 		unsigned digit;
-		double integer = 0.0;
+
+		// Collect digits into an integer so that the decimal point position and the exponent are applied with a single rounding
+		unsigned long long mantissa = 0;
+		int exponent = 0;
 
 		while((digit = *str - '0') < 10)
 		{
-			integer = integer * 10.0 + digit;
+			if(mantissa < 1000000000000000000ull)
+				mantissa = mantissa * 10 + digit;
+			else
+				exponent++;
+
 			str++;
 		}
 
-		double fractional = 0.0;
-	
 		if(*str == '.')
 		{
-			double power = 0.1;
 			str++;
 
 			while((digit = *str - '0') < 10)
 			{
-				fractional = fractional + power * digit;
-				power /= 10.0;
+				if(mantissa < 1000000000000000000ull)
+				{
+					mantissa = mantissa * 10 + digit;
+					exponent--;
+				}
+
 				str++;
 			}
 		}
@@ -285,12 +293,24 @@ namespace
 			str++;
 
 			if(*str == '-')
-				return (integer + fractional) * pow(10.0, (double)-ParseInteger(ctx, str + 1));
+				exponent -= ParseInteger(ctx, str + 1);
 			else
-				return (integer + fractional) * pow(10.0, (double)ParseInteger(ctx, str));
+				exponent += ParseInteger(ctx, str);
+		}
+
+		double result = (double)mantissa;
+
+		if(exponent >= 0)
+			return mantissa ? result * pow(10.0, (double)exponent) : 0.0;
+
+		// Large negative powers are applied in two steps so that the divisor doesn't overflow
+		if(exponent < -300)
+		{
+			result /= 1e300;
+			exponent += 300;
 		}
 
-		return integer + fractional;
+		return result / pow(10.0, (double)-exponent);
 	}
 
 	bool IsBinaryOp(SynUnaryOpType type)
-- 
2.43.0


From 9297ace2888450df7090bfc9bde6085803293e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 05/72] fix: integer division overflow is a runtime error on
 both execution targets

---
 NULLC/Executor_RegVm.cpp          | 14 ++++++++++++++
 NULLC/Executor_X86.cpp            |  9 ++++++++-
 NULLC/ExpressionEval.cpp          | 13 +++++++++++++
 NULLC/InstructionTreeVm.cpp       |  4 ++--
 NULLC/InstructionTreeVmCommon.cpp | 13 +++++++++++++
 NULLC/InstructionTreeVmCommon.h   |  1 +
 NULLC/InstructionTreeVmEval.cpp   | 12 ++++++++++++
 7 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index bfef0da..2f2c4d8 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1,5 +1,7 @@
 #include "Executor_RegVm.h"
 
+#include <limits.h>
+
 #include "Executor_Common.h"
 
 #include "nullc.h"
@@ -841,6 +843,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(regFilePtr[cmd.rB].intValue == INT_MIN && *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue / *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -858,6 +863,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(regFilePtr[cmd.rB].intValue == INT_MIN && *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue % *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -970,6 +978,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(regFilePtr[cmd.rB].longValue == LLONG_MIN && *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue / *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -987,6 +998,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(regFilePtr[cmd.rB].longValue == LLONG_MIN && *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 52b9b90..60b8c8c 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -329,7 +329,14 @@ namespace NULLC
 		{
 			AddCrashStackFrame(internalInstruction);
 
-			currExecutor->Stop("ERROR: integer division by zero");
+			// Divisor is always placed in RCX/ECX
+#if defined(_M_X64)
+			bool zeroDivisor = ((ucontext_t*)ucontext)->uc_mcontext.gregs[REG_RCX] == 0;
+#else
+			bool zeroDivisor = ((ucontext_t*)ucontext)->uc_mcontext.gregs[REG_ECX] == 0;
+#endif
+
+			currExecutor->Stop(zeroDivisor ? "ERROR: integer division by zero" : "ERROR: integer overflow");
 
 			siglongjmp(errorHandler, 1);
 		}
diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index aa1f38c..52b2a98 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1,5 +1,6 @@
 #include "ExpressionEval.h"
 
+#include <limits.h>
 #include <math.h>
 
 #include "ExpressionTree.h"
@@ -673,11 +674,17 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
+					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
 				case SYN_BINARY_OP_MOD:
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
+					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
 				case SYN_BINARY_OP_POW:
 					if(rhsValueInt < 0)
@@ -749,11 +756,17 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
+					if(lhsValue == LLONG_MIN && rhsValue == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
 				case SYN_BINARY_OP_MOD:
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
+					if(lhsValue == LLONG_MIN && rhsValue == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
 				case SYN_BINARY_OP_POW:
 					if(rhsValue < 0)
diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 338fe95..6301c7d 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4698,7 +4698,7 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 				ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue * consts[1]->lValue), &module->constantPropagations);
 			break;
 		case VM_INST_DIV:
-			if(!IsConstantZero(consts[1]))
+			if(!IsConstantZero(consts[1]) && !IsDivisionOverflow(consts[0], consts[1]))
 			{
 				if(inst->type == VmType::Int)
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue / consts[1]->iValue), &module->constantPropagations);
@@ -4709,7 +4709,7 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 			}
 			break;
 		case VM_INST_MOD:
-			if(!IsConstantZero(consts[1]))
+			if(!IsConstantZero(consts[1]) && !IsDivisionOverflow(consts[0], consts[1]))
 			{
 				if(inst->type == VmType::Int)
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue % consts[1]->iValue), &module->constantPropagations);
diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index 005f06f..dcd551c 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeVmCommon.h"
 
+#include <limits.h>
+
 #include "TypeTree.h"
 #include "InstructionTreeVm.h"
 #include "ExpressionTree.h"
@@ -204,6 +206,17 @@ bool IsConstantOne(VmValue* value)
 	return DoesConstantMatchEither(value, 1, 1.0, 1ll);
 }
 
+bool IsDivisionOverflow(VmConstant* lhs, VmConstant* rhs)
+{
+	if(lhs->type == VmType::Int)
+		return lhs->iValue == INT_MIN && rhs->iValue == -1;
+
+	if(lhs->type == VmType::Long)
+		return lhs->lValue == LLONG_MIN && rhs->lValue == -1;
+
+	return false;
+}
+
 unsigned GetAccessSize(VmInstruction *inst)
 {
 	switch(inst->cmd)
diff --git a/NULLC/InstructionTreeVmCommon.h b/NULLC/InstructionTreeVmCommon.h
index 092aecf..c404768 100644
--- a/NULLC/InstructionTreeVmCommon.h
+++ b/NULLC/InstructionTreeVmCommon.h
@@ -37,6 +37,7 @@ bool DoesConstantMatchEither(VmValue* value, int iValue, double dValue, long lon
 
 bool IsConstantZero(VmValue* value);
 bool IsConstantOne(VmValue* value);
+bool IsDivisionOverflow(VmConstant* lhs, VmConstant* rhs);
 
 unsigned GetAccessSize(VmInstruction *inst);
 
diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 1770a2e..be3f3a9 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -991,6 +991,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		if(arguments[0]->type != VmType::Double && IsConstantZero(arguments[1]))
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+		if(IsDivisionOverflow(arguments[0], arguments[1]))
+			return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 		if(arguments[0]->type == VmType::Int)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / arguments[1]->iValue);
 		else if(arguments[0]->type == VmType::Double)
@@ -1016,6 +1019,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		if(arguments[0]->type != VmType::Double && IsConstantZero(arguments[1]))
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+		if(IsDivisionOverflow(arguments[0], arguments[1]))
+			return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 		if(arguments[0]->type == VmType::Int)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % arguments[1]->iValue);
 		else if(arguments[0]->type == VmType::Double)
@@ -1220,6 +1226,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			if(arguments[0]->type != VmType::Double && IsConstantZero(rhs))
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+			if(IsDivisionOverflow(arguments[0], rhs))
+				return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 			if(arguments[0]->type == VmType::Int)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / rhs->iValue);
 			else if(arguments[0]->type == VmType::Double)
@@ -1258,6 +1267,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			if(arguments[0]->type != VmType::Double && IsConstantZero(rhs))
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+			if(IsDivisionOverflow(arguments[0], rhs))
+				return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 			if(arguments[0]->type == VmType::Int)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % rhs->iValue);
 			else if(arguments[0]->type == VmType::Double)
-- 
2.43.0


From e67eeceb1752180c5240e2f1c2c55f84b76288d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 06/72] fix: do not move a load of a global variable over a
 function call

---
 NULLC/InstructionTreeVm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 6301c7d..d73bacf 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -6385,8 +6385,9 @@ bool IsReachableLoadValue(VmInstruction *user, VmInstruction *load)
 		case VM_INST_MEM_COPY:
 			return false;
 		case VM_INST_CALL:
-			if(loadAddressConstant && loadAddressConstant->container && !HasAddressTaken(loadAddressConstant->container))
-				return true;
+			// Only local variables without an address taken are not visible to the function
+			if(loadAddressConstant && loadAddressConstant->container && !IsGlobalScope(loadAddressConstant->container->scope) && !HasAddressTaken(loadAddressConstant->container))
+				break;
 
 			return false;
 		default:
-- 
2.43.0


From 530b473663f8b9b03d817ac46b38c2313e1bdb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 07/72] fix: keep a jump to the next block when dead
 instructions follow it

---
 NULLC/InstructionTreeRegVmLower.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2648433..d5fe089 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1650,8 +1650,8 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 	}
 	break;
 	case VM_INST_JUMP:
-		// Check if jump is fall-through (except for fallthrough from empty entry block)
-		if(!(lowBlock->vmBlock->nextSibling && lowBlock->vmBlock->nextSibling == inst->arguments[0]) || (lowBlock->vmBlock->prevSibling == NULL && lowBlock->firstInstruction == NULL))
+		// Check if jump is fall-through (except for fallthrough from empty entry block and a jump that is followed by dead instructions)
+		if(!(lowBlock->vmBlock->nextSibling && lowBlock->vmBlock->nextSibling == inst->arguments[0] && !inst->nextSibling) || (lowBlock->vmBlock->prevSibling == NULL && lowBlock->firstInstruction == NULL))
 		{
 			lowBlock->AddInstruction(ctx, inst->source, rviJmp, 0, 0, 0, getType<VmBlock>(inst->arguments[0]));
 		}
-- 
2.43.0


From 2bee8bbf4cf722afaf0869cee72d4fbd0c75bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 08/72] fix: logical not of a long tests all 64 bits in
 generated x64 code

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 3d4f502..9a86cac 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -4300,7 +4300,7 @@ void GenCodeCmdLogNotl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	EMIT_OP_REG_REG(ctx.ctx, o_xor64, rRCX, rRCX);
-	EMIT_OP_REG_REG(ctx.ctx, o_cmp, rRAX, rRCX);
+	EMIT_OP_REG_REG(ctx.ctx, o_cmp64, rRAX, rRCX);
 	EMIT_OP_REG(ctx.ctx, o_sete, rECX);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rECX); // Store int to target
-- 
2.43.0


From 53b94271e5906006d4bed0ee6d8b120b038f417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 09/72] fix: remove unreachable blocks that use values of other
 unreachable blocks

---
 NULLC/InstructionTreeVm.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index d73bacf..96ca6ef 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4952,6 +4952,28 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		curr = next;
 	}
 
+	// Values from an unreachable block might be used in another unreachable block, repeat until all of them are removed
+	for(bool changed = true; changed;)
+	{
+		changed = false;
+
+		for(VmBlock *curr = function->firstBlock->nextSibling; curr;)
+		{
+			VmBlock *next = curr->nextSibling;
+
+			if(!curr->visited && curr->users.empty() && !curr->HasExternalInstructionUsers())
+			{
+				module->deadCodeEliminations++;
+
+				function->RemoveBlock(curr);
+
+				changed = true;
+			}
+
+			curr = next;
+		}
+	}
+
 	VmBlock *curr = function->firstBlock;
 
 	while(curr)
-- 
2.43.0


From b2c51e3e1af18ff856e36804bc76c62e64920807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 10/72] fix: remove branches that follow another branch in dead
 code elimination

---
 NULLC/InstructionTreeVm.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 96ca6ef..4dbb536 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4866,6 +4866,31 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 	if(!function->firstBlock)
 		return;
 
+	// Remove branches that follow another branch first, their targets might become unreachable and values computed between the branches might become unused
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+	{
+		bool terminated = false;
+
+		for(VmInstruction *inst = curr->firstInstruction; inst;)
+		{
+			VmInstruction *next = inst->nextSibling;
+
+			if(IsBlockTerminator(inst->cmd))
+			{
+				if(terminated && inst->users.empty())
+				{
+					module->deadCodeEliminations++;
+
+					curr->RemoveInstruction(inst);
+				}
+
+				terminated = true;
+			}
+
+			inst = next;
+		}
+	}
+
 	// Remove conditional branches with constant condition first, targets that are never taken might become unreachable
 	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 	{
-- 
2.43.0


From 2d8ae9218737e36ff182d8bf180e05475f7f9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 11/72] fix: round a value stored to a float when it is
 forwarded to a load

---
 NULLC/InstructionTreeVm.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 4dbb536..b5bd242 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1672,6 +1672,23 @@ namespace
 		return NULL;
 	}
 
+	// Value that will be loaded after a store, float is kept in a double precision register and store instruction rounds it
+	VmValue* GetValueAfterStore(VmModule *module, VmInstruction *storeInst)
+	{
+		VmValue *value = storeInst->arguments[2];
+
+		if(storeInst->cmd != VM_INST_STORE_FLOAT)
+			return value;
+
+		if(VmConstant *constant = getType<VmConstant>(value))
+			return constant->type == VmType::Double ? CreateConstantDouble(module->allocator, value->source, float(constant->dValue)) : NULL;
+
+		if(VmInstruction *inst = getType<VmInstruction>(value))
+			return inst->cmd == VM_INST_LOAD_FLOAT ? value : NULL;
+
+		return NULL;
+	}
+
 	VmValue* GetLoadStoreInfo(VmModule *module, VmValue *loadPointer, VmConstant *loadOffset, unsigned loadSize, unsigned accessSize, VmInstructionType loadCmd)
 	{
 		if(VmConstant *loadAddress = getType<VmConstant>(loadPointer))
@@ -1701,7 +1718,11 @@ namespace
 				{
 					if(*el.storeAddress == *loadAddress && accessSize == el.accessSize)
 					{
-						VmValue *value = el.storeInst->arguments[2];
+						VmValue *value = GetValueAfterStore(module, el.storeInst);
+
+						// Can't reuse arguments that are changed by the store
+						if(!value)
+							return NULL;
 
 						// Can't reuse arguments of a different size
 						if(value->type.size != loadSize)
@@ -5720,9 +5741,9 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 				{
 					VmValue *storePointer = prev->arguments[0];
 					VmConstant *storeOffset = getType<VmConstant>(prev->arguments[1]);
-					VmValue *storeValue = prev->arguments[2];
+					VmValue *storeValue = GetValueAfterStore(module, prev);
 
-					if(GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
+					if(storeValue && GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
 					{
 						if(curr->type != storeValue->type)
 						{
-- 
2.43.0


From e35f92012d20fee5bc102dec50da1358ed619780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:04 +0000
Subject: [PATCH 12/72] fix: do not negate a long constant that doesn't fit the
 add immediate when lowering a subtraction

---
 NULLC/InstructionTreeRegVmLower.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index d5fe089..acc7561 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -2345,7 +2345,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, -constant->iValue);
 				break;
 			}
-			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue)
+			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue && int(-constant->lValue) == -constant->lValue)
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-- 
2.43.0


From e605a1025b20c78a421d449731ff4fe08cfb7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:04 +0000
Subject: [PATCH 13/72] fix: do not remove addition and subtraction of a
 floating point zero, it can change the sign of a zero

---
 NULLC/InstructionTreeVm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index b5bd242..24254e8 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4331,15 +4331,15 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		switch(inst->cmd)
 		{
 		case VM_INST_ADD:
-			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types
+			if(IsConstantZero(inst->arguments[0]) && inst->type != VmType::Double) // 0 + x, all integer types (0.0 + -0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[1], &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types
+			else if(IsConstantZero(inst->arguments[1]) && inst->type != VmType::Double) // x + 0, all integer types (-0.0 + 0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_SUB:
 			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 - x, integer types
 				ChangeInstructionTo(module, inst, VM_INST_NEG, inst->arguments[1], NULL, NULL, NULL, NULL, &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x - 0, all types
+			else if(IsConstantZero(inst->arguments[1]) && inst->type != VmType::Double) // x - 0, all integer types (-0.0 - -0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_MUL:
-- 
2.43.0


From 2ce488d6e0434a8fde4143e8d319a2312aa1b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 14/72] fix: record a branch with two equal targets as a single
 control flow edge

---
 NULLC/InstructionTreeVm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 24254e8..fb20399 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -2224,7 +2224,8 @@ void VmFunction::UpdateDominatorTree(VmModule *module, bool clear)
 
 			if(VmInstruction *inst = getType<VmInstruction>(user))
 			{
-				if(inst->cmd != VM_INST_PHI)
+				// A conditional branch with both targets being the same block is a single edge
+				if(inst->cmd != VM_INST_PHI && !curr->predecessors.contains(inst->parent))
 				{
 					curr->predecessors.push_back(inst->parent);
 					inst->parent->successors.push_back(curr);
-- 
2.43.0


From 30e90a3608608af7659c80c612ca025ac35f95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:15 +0000
Subject: [PATCH 15/72] fix: share registers between live out instructions of
 the same color in a block

---
 NULLC/InstructionTreeRegVmLower.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index acc7561..7d61bbb 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -3309,8 +3309,21 @@ void AllocateLiveInOutRegisters(ExpressionContext &ctx, RegVmLoweredFunction *lo
 
 		if(liveOut->regVmRegisters.empty())
 		{
-			if(liveOut->color != 0)
-				assert(lowFunction->colorRegisters[liveOut->color] == NULL);
+			// Multiple live out instructions with the same value can share the color, first one has allocated the registers
+			if(liveOut->color != 0 && lowFunction->colorRegisters[liveOut->color])
+			{
+				CopyRegisters(liveOut, lowFunction->colorRegisters[liveOut->color]);
+
+				for(unsigned k = 0; k < liveOut->regVmRegisters.size(); k++)
+				{
+					lowFunction->registerUsers[liveOut->regVmRegisters[k]]++;
+
+					usedRegisters.push_back(liveOut->regVmRegisters[k]);
+				}
+
+				UpdateSharedStorage(liveOut, lowFunction->vmFunction->nextSearchMarker++);
+				continue;
+			}
 
 			if(liveOut->type.type == VM_TYPE_INT || liveOut->type.type == VM_TYPE_LONG || liveOut->type.type == VM_TYPE_DOUBLE || liveOut->type.type == VM_TYPE_POINTER)
 			{
-- 
2.43.0


From d16b4efd3cf43eaa14d16bf95f301e0049ad6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:25 +0000
Subject: [PATCH 16/72] fix: keep a replacement constant alive while users of
 the original value are updated

---
 NULLC/InstructionTreeVm.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index fb20399..91fc805 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1168,9 +1168,25 @@ namespace
 		module->tempUsers.reserve(original->users.size());
 		module->tempUsers.push_back(original->users.data, original->users.size());
 
+		// A constant might temporarily lose all its users when a load/store instruction is legalized to use a different one, keep it alive until all users of the original value are updated
+		VmConstant *constant = getType<VmConstant>(replacement);
+
+		bool canBeRemoved = replacement->canBeRemoved;
+
+		if(constant)
+			constant->canBeRemoved = false;
+
 		for(unsigned i = 0; i < module->tempUsers.size(); i++)
 			ReplaceValue(module, module->tempUsers[i], original, replacement);
 
+		if(constant)
+		{
+			constant->canBeRemoved = canBeRemoved;
+
+			if(constant->users.empty() && !module->tempUsers.empty())
+				constant->RemoveUse(NULL);
+		}
+
 		if(VmBlock *block = getType<VmBlock>(original))
 		{
 			VmFunction *function = block->parent;
-- 
2.43.0


From 9d426e5c844f32eba101bbaa148727260fb61ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:25 +0000
Subject: [PATCH 17/72] fix: do not forward a value to a load of a type with a
 different value size

---
 NULLC/InstructionTreeVm.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 91fc805..542e710 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5498,10 +5498,15 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 			case VM_INST_LOAD_STRUCT:
 				if(VmValue* prevValue = GetLoadStoreInfo(module, curr))
 				{
-					if(curr->type != prevValue->type)
+					// Memory representation might not match the value representation (float member of a class and a whole class with a single float member)
+					if(curr->type.size != prevValue->type.size)
 					{
-						assert(curr->type.size == prevValue->type.size);
+						AddLoadInfo(module, curr);
+						break;
+					}
 
+					if(curr->type != prevValue->type)
+					{
 						module->currentBlock = block;
 
 						block->insertPoint = curr->prevSibling;
-- 
2.43.0


From c7a298c901fe68432b09afe65f77932a2dd319c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:03 +0000
Subject: [PATCH 18/72] fix: evaluate the array expression of a for each loop
 once

---
 NULLC/ExpressionTree.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 0e6fd0f..b640271 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11300,25 +11300,23 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 					type = valueType->subType;
 			}
 
-			ExprBase* wrapped = value;
-
-			if(ExprVariableAccess *node = getType<ExprVariableAccess>(value))
-			{
-				wrapped = new (ctx.get<ExprGetAddress>()) ExprGetAddress(value->source, ctx.GetReferenceType(value->type), new (ctx.get<VariableHandle>()) VariableHandle(node->source, node->variable));
-			}
-			else if(ExprDereference *node = getType<ExprDereference>(value))
-			{
-				wrapped = node->value;
-			}
-			else if(!isType<TypeRef>(wrapped->type))
+			// Array expression is evaluated once, before the loop: place of the array or its value is stored in a variable
+			if(!isType<ExprVariableAccess>(value))
 			{
+				ExprDereference *node = getType<ExprDereference>(value);
+
+				ExprBase *wrapped = node ? node->value : value;
+
 				VariableData *storage = AllocateTemporary(ctx, value->source, wrapped->type);
 
-				ExprBase *assignment = CreateAssignment(ctx, value->source, CreateVariableAccess(ctx, value->source, storage, false), value);
+				ExprBase *assignment = CreateAssignment(ctx, value->source, CreateVariableAccess(ctx, value->source, storage, false), wrapped);
+
+				initializers.push_back(new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(value->source, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, storage), assignment));
 
-				ExprBase *definition = new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(value->source, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, storage), assignment);
+				value = CreateVariableAccess(ctx, value->source, storage, false);
 
-				wrapped = CreateSequence(ctx, value->source, definition, CreateGetAddress(ctx, value->source, CreateVariableAccess(ctx, value->source, storage, false)));
+				if(node)
+					value = new (ctx.get<ExprDereference>()) ExprDereference(value->source, node->type, value);
 			}
 
 			// Create initializer
-- 
2.43.0


From 107ace8b14f0e98463722c83b2abb3357f2b2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:29 +0000
Subject: [PATCH 19/72] fix: restore the JIT error handler after a nested call
 ended by an error signal

---
 NULLC/Executor_X86.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 60b8c8c..8294671 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -989,6 +989,9 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 	{
 		vmState.jitCodeActive = true;
 
+		jmp_buf prevErrorHandler;
+		NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
+
 #ifdef __linux
 		struct sigaction sa;
 		struct sigaction sigFPE;
@@ -1015,9 +1018,6 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1028,8 +1028,6 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		else
 		{
@@ -1050,9 +1048,6 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1063,8 +1058,6 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		__except(NULLC::CanWeHandleSEH(GetExceptionCode(), GetExceptionInformation()))
 		{
@@ -1072,6 +1065,9 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		}
 #endif
 
+		// Previous handler is restored after an error signal as well
+		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
+
 		vmState.jitCodeActive = false;
 	}
 
-- 
2.43.0


From 0d60164a6c71934c2558dfeda38db5278066b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 20/72] fix: release registers taken by interrupted JIT calls,
 keep JIT-active flag after nested calls

---
 NULLC/Executor_X86.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 8294671..1758a3d 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -987,6 +987,7 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 	if(instructionPos != ~0u)
 	{
+		bool prevJitCodeActive = vmState.jitCodeActive;
 		vmState.jitCodeActive = true;
 
 		jmp_buf prevErrorHandler;
@@ -1068,13 +1069,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		// Previous handler is restored after an error signal as well
 		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 
-		vmState.jitCodeActive = false;
+		vmState.jitCodeActive = prevJitCodeActive;
 	}
 
 	vmState.regFileLastPtr = prevRegFilePtr;
 
-	if(functionID == ~0u)
-		vmState.regFileLastTop -= 256;
+	// When function calls are interrupted by an error, registers that they have taken have to be released
+	vmState.regFileLastTop = regFilePtr;
 
 	vmState.dataStackTop = vmState.dataStackBase + prevDataSize;
 
-- 
2.43.0


From 570a2bd384041526b97f335c0986596462aa1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:58 +0000
Subject: [PATCH 21/72] fix: report a call of an invalid function id instead of
 running an unrelated function

---
 NULLC/Executor_RegVm.cpp | 11 ++++++++++-
 NULLC/Executor_X86.cpp   | 11 ++++++++++-
 NULLC/nullc.cpp          |  4 ++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 2f2c4d8..4af80c1 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -188,7 +188,16 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 
 	unsigned *tempStackPtr = tempStackArrayBase;
 
-	if(functionID != ~0u)
+	if(functionID == 0)
+	{
+		Stop("ERROR: invalid function pointer");
+
+		errorState = true;
+
+		// This will disable NULLC code execution while leaving error check and result retrieval
+		instruction = NULL;
+	}
+	else if(functionID != ~0u)
 	{
 		ExternFuncInfo &target = exFunctions[functionID];
 
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 1758a3d..dae67d4 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -869,7 +869,16 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 	RegVmRegister *regFilePtr = vmState.regFileLastTop;
 
-	if(functionID != ~0u)
+	if(functionID == 0)
+	{
+		Stop("ERROR: invalid function pointer");
+
+		errorState = true;
+
+		// This will disable NULLC code execution while leaving error check and result retrieval
+		instructionPos = ~0u;
+	}
+	else if(functionID != ~0u)
 	{
 		ExternFuncInfo &target = exFunctions[functionID];
 
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 5e2b026..0f5ce1b 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -883,6 +883,10 @@ const char*	nullcGetArgumentVector(unsigned functionID, uintptr_t extra, va_list
 {
 	using namespace NULLC;
 
+	// Invalid function pointer has no arguments, error is reported when the call is performed
+	if(functionID == 0)
+		return argBuf;
+
 	// Copy arguments in argument buffer
 	ExternFuncInfo	&func = linker->exFunctions[functionID];
 	char *argPos = argBuf;
-- 
2.43.0


From de679887e25926a50070a2e0f9f758d5ebd79be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:01 +0000
Subject: [PATCH 22/72] fix: list pop, erase and insert keep both ends and the
 links consistent

---
 Modules/std/list.nc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Modules/std/list.nc b/Modules/std/list.nc
index 626f653..85795ac 100644
--- a/Modules/std/list.nc
+++ b/Modules/std/list.nc
@@ -60,13 +60,23 @@ void list:pop_back()
 {
 	if(!last)
 		assert(0, "list::pop_back list is empty");
+	last.parent = nullptr;
 	last = last.prev;
+	if(last)
+		last.next = nullptr;
+	else
+		first = nullptr;
 }
 void list:pop_front()
 {
 	if(!first)
 		assert(0, "list::pop_back list is empty");
+	first.parent = nullptr;
 	first = first.next;
+	if(first)
+		first.prev = nullptr;
+	else
+		last = nullptr;
 }
 void list:insert(list_node<T> ref it, T elem)
 {
@@ -80,6 +90,8 @@ void list:insert(list_node<T> ref it, T elem)
 	it.next.parent = this;
 	if(next)
 		next.prev = it.next;
+	else
+		last = it.next;
 }
 void list:erase(list_node<T> ref it)
 {
@@ -94,6 +106,7 @@ void list:erase(list_node<T> ref it)
 		first = first.next;
 	if(it == last)
 		last = last.prev;
+	it.parent = nullptr;
 }
 void list:clear()
 {
-- 
2.43.0


From 8366c98621018ccaa4c9f578273691b16410cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 23/72] fix: built-in object functions report null pointers
 instead of accessing them

---
 NULLC/StdLib.cpp | 82 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index d7be543..fbe771c 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -886,9 +886,16 @@ NULLCRef NULLC::CopyObject(NULLCRef ptr)
 {
 	NULLCRef ret;
 	ret.typeID = ptr.typeID;
+	ret.ptr = NULL;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
+	if(objSize && !ptr.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
-	memcpy(ret.ptr, ptr.ptr, objSize);
+	if(objSize && ret.ptr)
+		memcpy(ret.ptr, ptr.ptr, objSize);
 	return ret;
 }
 
@@ -914,7 +921,14 @@ NULLCRef NULLC::ReplaceObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: cannot convert from %s ref to %s ref", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return l;
 	}
-	memcpy(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
+	unsigned size = linker->exTypes[r.typeID].size;
+	if(size && (!l.ptr || !r.ptr))
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return l;
+	}
+	if(size)
+		memmove(l.ptr, r.ptr, size);
 	return l;
 }
 
@@ -927,11 +941,22 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 	}
 	unsigned size = linker->exTypes[l.typeID].size;
 
+	if(size == 0)
+		return;
+
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
 	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, l.typeID);
+	if(!tmp)
+		return;
 	memcpy(tmp, l.ptr, size);
-	memcpy(l.ptr, r.ptr, size);
+	memmove(l.ptr, r.ptr, size);
 	memcpy(r.ptr, tmp, size);
 }
 
@@ -942,7 +967,15 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return 0;
 	}
-	return 0 == memcmp(l.ptr, r.ptr, linker->exTypes[l.typeID].size);
+	unsigned size = linker->exTypes[l.typeID].size;
+	if(size == 0)
+		return 1;
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
+	return 0 == memcmp(l.ptr, r.ptr, size);
 }
 
 void NULLC::AssignObject(NULLCRef l, NULLCRef r)
@@ -952,6 +985,11 @@ void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	memcpy(l.ptr, &r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -992,6 +1030,12 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 
 NULLCArray NULLC::StrConcatenateAndSet(NULLCArray *a, NULLCArray b)
 {
+	if(!a)
+	{
+		NULLCArray ret = { 0, 0 };
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	return *a = StrConcatenate(*a, b);
 }
 
@@ -1272,7 +1316,7 @@ NULLC::TypeIDHelper NULLC::Typeid(NULLCRef r)
 {
 	TypeIDHelper help;
 
-	if(linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+	if((linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE) && r.ptr)
 		help.id = *(int*)r.ptr;
 	else
 		help.id = r.typeID;
@@ -1366,6 +1410,11 @@ NULLCAutoArray* NULLC::AutoArrayAssign(NULLCAutoArray* left, NULLCRef right)
 		nullcThrowError("ERROR: null pointer access");
 		return 0;
 	}
+	if(!right.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	if(right.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*left = *(NULLCAutoArray*)right.ptr;
@@ -1400,6 +1449,11 @@ NULLCRef NULLC::AutoArrayAssignRev(NULLCRef left, NULLCAutoArray *right)
 		nullcThrowError("ERROR: null pointer access");
 		return ret;
 	}
+	if(!left.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	if(left.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*(NULLCAutoArray*)left.ptr = *right;
@@ -1524,12 +1578,22 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 		return 0;
 	}
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
+	if(!fPtr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
 	{
 		nullcThrowError("Function is not a coroutine");
 		return 0;
 	}
 
+	if(!fPtr->context)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	unsigned jmpOffset = *(unsigned*)fPtr->context;
 	return jmpOffset == 0;
 }
@@ -1537,9 +1601,17 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 void NULLC::AssertCoroutine(NULLCRef f)
 {
 	if(linker->exTypes[f.typeID].subCat != ExternTypeInfo::CAT_FUNCTION)
+	{
 		nullcThrowError("Argument is not a function");
+		return;
+	}
 
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
+	if(!fPtr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
 		nullcThrowError("ERROR: function is not a coroutine");
 }
-- 
2.43.0


From 79a1ed88bc438b9f06837a7abf875152cebcab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 24/72] fix: auto[] set allocates room for the element it
 stores

---
 NULLC/StdLib.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index fbe771c..953b352 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1540,16 +1540,27 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 	}
 
 	unsigned elemSize = linker->exTypes[arr->typeID].size;
+	if(elemSize && !x.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	if(pos >= arr->len)
 	{
+		if((int)pos < 0)
+		{
+			nullcThrowError("ERROR: array index out of bounds");
+			return;
+		}
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
-			newSize = pos;
-		NULLCAutoArray n;
+			newSize = pos + 1;
+		NULLCAutoArray n = { 0, 0, 0 };
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
 			return;
-		memcpy(n.ptr, arr->ptr, unsigned(arr->len * elemSize));
+		if(arr->len)
+			memcpy(n.ptr, arr->ptr, unsigned(arr->len * elemSize));
 		*arr = n;
 	}
 	memcpy(arr->ptr + elemSize * pos, x.ptr, elemSize);
-- 
2.43.0


From 49cd3b7a0f96289c33fb222a7c31784e3a2bbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:40 +0000
Subject: [PATCH 25/72] fix: auto[] blocks are array blocks for the collector

---
 NULLC/StdLib.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 953b352..984b3f7 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -906,11 +906,13 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 		nullcThrowError("ERROR: null pointer access");
 		return;
 	}
+	NULLCArray data = AllocArray(linker->exTypes[src.typeID].size, src.len, src.typeID);
+
 	dst->typeID = src.typeID;
-	dst->len = src.len;
-	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
+	dst->len = data.len;
+	dst->ptr = data.ptr;
 
-	if(src.len)
+	if(data.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
 }
 
@@ -1521,9 +1523,11 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 		return;
 	}
 
+	NULLCArray data = AllocArray(linker->exTypes[type].size, count, type);
+
 	arr->typeID = type;
-	arr->len = count;
-	arr->ptr = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	arr->len = data.len;
+	arr->ptr = data.ptr;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
-- 
2.43.0


From 815245ff52a6c2d0cb19f3c2ce6484a05143d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 26/72] fix: number to string conversions handle a failed
 allocation

---
 NULLC/StdLib.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 984b3f7..4c174fd 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1113,6 +1113,8 @@ NULLCArray NULLC::ShortToStr(short* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1149,6 +1151,8 @@ NULLCArray NULLC::IntToStr(int* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1198,6 +1202,8 @@ NULLCArray NULLC::LongToStr(long long* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1224,6 +1230,8 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
@@ -1245,6 +1253,8 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
-- 
2.43.0


From ea1f528aee62efe11ee084130ee2f116b5ed6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:18 +0000
Subject: [PATCH 27/72] fix: returned pointer to a local copies the whole
 object and keeps the collector enabled

---
 NULLC/CodeGenRegVm_X86.cpp | 44 ++++++++++++++++++++++++++++++++------
 NULLC/Executor_RegVm.cpp   | 41 +++++++++++++++++++++++++++--------
 NULLC/Executor_RegVm.h     |  2 +-
 3 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 9a86cac..a82c4c0 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2344,20 +2344,48 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
-			char *copy = (char*)NULLC::AllocObject(ctx.exTypes[type.subType].size * length, type.subType);
-			memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
-			memcpy(returnValuePtr, &copy, sizeof(copy));
+			NULLCArray copy = NULLC::AllocArray(ctx.exTypes[type.subType].size, length, type.subType);
+
+			if(copy.ptr)
+			{
+				memcpy(copy.ptr, ptr, unsigned(ctx.exTypes[type.subType].size * length));
+				memcpy(returnValuePtr, &copy.ptr, sizeof(copy.ptr));
+			}
+
+			ptr = copy.ptr;
 		}
 		else
 		{
-			unsigned objSize = type.size;
+			// Copy the object that the returned pointer points to
+			typeId = type.subType;
+
+			// Object of an extendable class might be an instance of a derived class
+			if(ctx.exTypes[typeId].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+				memcpy(&typeId, ptr, sizeof(typeId));
+
+			unsigned objSize = ctx.exTypes[typeId].size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
-			memcpy(copy, ptr, objSize);
-			memcpy(returnValuePtr, &copy, sizeof(copy));
+
+			if(copy)
+			{
+				memcpy(copy, ptr, objSize);
+				memcpy(returnValuePtr, &copy, sizeof(copy));
+			}
+
+			ptr = copy;
 		}
 
-		NULLC::SetCollectMemory(false);
+		NULLC::SetCollectMemory(true);
+
+		// Allocation has failed and the error is already set
+		if(!ptr)
+		{
+			vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
+			vmState->callStackTop++;
+
+			longjmp(vmState->errorHandler, 1);
+		}
 	}
 }
 
@@ -2475,6 +2503,7 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 			EMIT_OP_REG_NUM64(ctx.ctx, o_mov64, rArg1, uintptr_t(ctx.vmState));
 			EMIT_OP_REG_REG(ctx.ctx, o_mov64, rArg2, rR15);
 			EMIT_OP_REG_NUM(ctx.ctx, o_mov, rArg3, typeId);
+			EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, rArg1, unsigned(uintptr_t(&ctx.vmState->callInstructionPos) - uintptr_t(ctx.vmState)), ctx.currInstructionPos);
 			EMIT_REG_READ(ctx.ctx, rArg2);
 			EMIT_REG_READ(ctx.ctx, rArg3);
 			EMIT_OP_RPTR(ctx.ctx, o_call, sQWORD, rArg1, unsigned(uintptr_t(&ctx.vmState->checkedReturnWrap) - uintptr_t(ctx.vmState)));
@@ -2570,6 +2599,7 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		// Checked return value
 		if(cmd.rC)
 		{
+			EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, uintptr_t(&ctx.vmState->callInstructionPos), ctx.currInstructionPos);
 			EMIT_OP_NUM(ctx.ctx, o_push, typeId);
 			EMIT_OP_REG(ctx.ctx, o_push, rESI);
 			EMIT_OP_NUM(ctx.ctx, o_push, uintptr_t(ctx.vmState));
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 4af80c1..2e74ec3 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1636,8 +1636,12 @@ RegVmReturnType ExecutorRegVm::ExecReturn(const RegVmCmd cmd, RegVmCmd * const i
 			}
 		}
 
-		if(cmd.rC)
-			ExecCheckedReturn(typeId, regFilePtr);
+		if(cmd.rC && !ExecCheckedReturn(typeId, regFilePtr))
+		{
+			callStack.push_back(instruction + 1);
+
+			return rvrError;
+		}
 	}
 
 	if(callStack.size() == lastFinalReturn)
@@ -1674,7 +1678,7 @@ bool ExecutorRegVm::ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruct
 	return true;
 }
 
-void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
+bool ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
 {
 	uintptr_t frameBase = regFilePtr[rvrrFrame].ptrValue;
 	uintptr_t frameEnd = regFilePtr[rvrrGlobals].ptrValue + dataStack.size();
@@ -1694,21 +1698,40 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
-			char *copy = (char*)NULLC::AllocObject(exLinker->exTypes[type.subType].size * length, type.subType);
-			memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
-			vmStorePointer(returnValuePtr, copy);
+			NULLCArray copy = NULLC::AllocArray(exLinker->exTypes[type.subType].size, length, type.subType);
+
+			NULLC::SetCollectMemory(true);
+
+			if(!copy.ptr)
+				return false;
+
+			memcpy(copy.ptr, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
+			vmStorePointer(returnValuePtr, copy.ptr);
 		}
 		else
 		{
-			unsigned objSize = type.size;
+			// Copy the object that the returned pointer points to
+			typeId = type.subType;
+
+			// Object of an extendable class might be an instance of a derived class
+			if(exLinker->exTypes[typeId].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+				memcpy(&typeId, ptr, sizeof(typeId));
+
+			unsigned objSize = exLinker->exTypes[typeId].size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+
+			NULLC::SetCollectMemory(true);
+
+			if(!copy)
+				return false;
+
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
-
-		NULLC::SetCollectMemory(true);
 	}
+
+	return true;
 }
 
 RegVmReturnType ExecutorRegVm::ExecError(RegVmCmd * const instruction, const char *errorMessage)
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index fe9aad7..1f513cb 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -109,7 +109,7 @@ private:
 	bool ExecCall(unsigned microcodePos, unsigned functionId, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	RegVmReturnType ExecReturn(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	bool ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
-	void ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
+	bool ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
 
 	RegVmReturnType ExecError(RegVmCmd * const instruction, const char *errorMessage);
 
-- 
2.43.0


From f12b0311e4a15847795fc0be3a930df3807dc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 28/72] fix: thrown object is copied before the execution is
 stopped

---
 NULLC/Executor_RegVm.cpp | 15 +++++++++++----
 NULLC/Executor_X86.cpp   | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 2e74ec3..7241bee 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -393,6 +393,16 @@ void ExecutorRegVm::Stop(const char* error)
 
 void ExecutorRegVm::Stop(NULLCRef error)
 {
+	// Object copy can trigger garbage collection that requires an executor in a running state
+	if(nullcIsStackPointer(error.ptr))
+	{
+		error = NULLC::CopyObject(error);
+
+		// Allocation error is already set
+		if(!error.ptr)
+			return;
+	}
+
 	codeRunning = false;
 
 	callContinue = false;
@@ -401,10 +411,7 @@ void ExecutorRegVm::Stop(NULLCRef error)
 
 	execErrorMessage = execErrorBuffer;
 
-	if(nullcIsStackPointer(error.ptr))
-		execErrorObject = NULLC::CopyObject(error);
-	else
-		execErrorObject = error;
+	execErrorObject = error;
 }
 
 void ExecutorRegVm::Resume()
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index dae67d4..62ffe75 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1175,6 +1175,16 @@ void ExecutorX86::Stop(const char* error)
 
 void ExecutorX86::Stop(NULLCRef error)
 {
+	// Object copy can trigger garbage collection that requires an executor in a running state
+	if(nullcIsStackPointer(error.ptr))
+	{
+		error = NULLC::CopyObject(error);
+
+		// Allocation error is already set
+		if(!error.ptr)
+			return;
+	}
+
 	codeRunning = false;
 
 	callContinue = false;
@@ -1183,10 +1193,7 @@ void ExecutorX86::Stop(NULLCRef error)
 
 	execErrorMessage = execErrorBuffer;
 
-	if(nullcIsStackPointer(error.ptr))
-		execErrorObject = NULLC::CopyObject(error);
-	else
-		execErrorObject = error;
+	execErrorObject = error;
 }
 
 void ExecutorX86::Resume()
-- 
2.43.0


From caee4573fc93a44a2ce49076f1f3cc2ceae0a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 29/72] fix: try leaves the error state before it allocates the
 message

---
 NULLC/includes/error.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/NULLC/includes/error.cpp b/NULLC/includes/error.cpp
index e175dfe..473da00 100644
--- a/NULLC/includes/error.cpp
+++ b/NULLC/includes/error.cpp
@@ -1,5 +1,8 @@
 #include "error.h"
 
+#include <stdlib.h>
+#include <string.h>
+
 #include "../../NULLC/nullc.h"
 #include "../../NULLC/nullbind.h"
 #include "../../NULLC/nullc_debug.h"
@@ -42,18 +45,27 @@ namespace NULLCError
 
 		if(!nullcCallFunction(functionValue))
 		{
+			// Message allocation can trigger a garbage collection, so the exception object must be reachable and the error state must be cleared before that
+			const char *rawMessage = nullcGetLastError();
+			unsigned rawLength = unsigned(strlen(rawMessage));
+
+			char *savedMessage = (char*)malloc(rawLength + 1);
+			memcpy(savedMessage, rawMessage, rawLength + 1);
+
+			*exception = nullcGetLastErrorObject();
+
+			nullcClearError();
+
 			if(message)
 			{
-				const char *rawMessage = nullcGetLastError();
-				unsigned rawLength = unsigned(strlen(rawMessage));
-
 				*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawLength + 1);
-				strcpy(message->ptr, rawMessage);
+
+				if(message->ptr)
+					memcpy(message->ptr, savedMessage, rawLength + 1);
 			}
 
-			*exception = nullcGetLastErrorObject();
+			free(savedMessage);
 
-			nullcClearError();
 			return false;
 		}
 
-- 
2.43.0


From fb1c4f01cbbd3a2f72cd4e0a75e5b9b65dfab4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:12 +0000
Subject: [PATCH 30/72] fix: result object is created without a collection that
 could overwrite the result

---
 NULLC/Executor_Common.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index a193582..1c20a36 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -1668,13 +1668,15 @@ NULLCRef GetExecutorResultObject(unsigned tempStackType, unsigned *tempStackArra
 	else if(tempStackType == NULLC_TYPE_FLOAT)
 	{
 		// 'float' is placed as a 'double' value on the stack
-		NULLCRef result = { NULLC_TYPE_FLOAT, (char*)nullcAllocateTyped(NULLC_TYPE_FLOAT) };
-
 		double tmpDouble;
 		memcpy(&tmpDouble, tempStackArrayBase, sizeof(tmpDouble));
 
+		NULLCRef result = { NULLC_TYPE_FLOAT, (char*)nullcAllocateTyped(NULLC_TYPE_FLOAT) };
+
 		float tmpFloat = float(tmpDouble);
-		memcpy(result.ptr, &tmpFloat, sizeof(tmpFloat));
+
+		if(result.ptr)
+			memcpy(result.ptr, &tmpFloat, sizeof(tmpFloat));
 
 		return result;
 	}
@@ -1689,7 +1691,14 @@ NULLCRef GetExecutorResultObject(unsigned tempStackType, unsigned *tempStackArra
 
 	NULLCRef tmp = { tempStackType, (char*)tempStackArrayBase };
 
-	return NULLC::CopyObject(tmp);
+	// Value in the temporary stack is not visible to the garbage collector and finalizers can overwrite it
+	NULLC::SetCollectMemory(false);
+
+	NULLCRef result = NULLC::CopyObject(tmp);
+
+	NULLC::SetCollectMemory(true);
+
+	return result;
 }
 
 const char* GetExecutorResult(char *execResult, unsigned execResultSize, unsigned tempStackType, unsigned *tempStackArrayBase, char *exSymbols, ExternTypeInfo *exTypes)
-- 
2.43.0


From acdfe78db13de9156538a148ce52c53bd7cff5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:33 +0000
Subject: [PATCH 31/72] fix: vector resize doesn't bring back removed elements

---
 Modules/std/vector.nc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Modules/std/vector.nc b/Modules/std/vector.nc
index f66d2a7..b9e5416 100644
--- a/Modules/std/vector.nc
+++ b/Modules/std/vector.nc
@@ -89,8 +89,8 @@ void vector:resize(int size)
 	assert(size >= 0);
 
 	T[] nArr = new T[size];
-	for(i in data, j in nArr)
-		j = i;
+	for(int i = 0; i < count && i < size; i++)
+		nArr[i] = data[i];
 	data = nArr;
 	count = size;
 }
-- 
2.43.0


From 096d9ae790c40abc182d76a1c232bd34de248565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 32/72] fix: pointers to the last bytes of a large block keep
 it alive

---
 NULLC/StdLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4c174fd..510e56c 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -736,7 +736,8 @@ void* NULLC::GetBasePointer(void* ptr)
 	{
 		void *block = it->key.start;
 
-		if(ptr >= block && ptr <= (char*)block + *(unsigned int*)block)
+		// Block starts with its size that is not included in the size itself
+		if(ptr >= block && ptr < (char*)block + 4 + *(unsigned int*)block)
 			return (char*)block + 4 + sizeof(markerType);
 	}
 
-- 
2.43.0


From 4a317dbe91ef7a3b5a635a28f08e404f3bd691ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:19 +0000
Subject: [PATCH 33/72] fix: no collections while finalizers run, objects
 waiting for theirs aren't reachable

---
 NULLC/StdLib.cpp | 21 ++++++++++++++++-----
 NULLC/StdLib.h   |  1 +
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 510e56c..4bde433 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -342,6 +342,7 @@ namespace NULLC
 	const unsigned int poolBlockSize = 64 * 1024;
 
 	bool collectionEnabled = true;
+	bool finalizersActive = false;
 
 	unsigned int usedMemory = 0;
 
@@ -768,9 +769,20 @@ void NULLC::SetCollectMemory(bool enabled)
 	collectionEnabled = enabled;
 }
 
+void NULLC::RunFinalizers()
+{
+	// Objects that wait for the finalizer call are not visible to a collection, so it can't be performed until all of them are finalized
+	finalizersActive = true;
+
+	(void)nullcRunFunction("__finalizeObjects");
+	finalizeList.clear();
+
+	finalizersActive = false;
+}
+
 void NULLC::CollectMemory()
 {
-	if(!collectionEnabled)
+	if(!collectionEnabled || finalizersActive)
 		return;
 
 	double time = (double(clock()) / CLOCKS_PER_SEC);
@@ -798,8 +810,7 @@ void NULLC::CollectMemory()
 	if(usedMemory + (usedMemory >> 1) >= collectableMinimum)
 		collectableMinimum <<= 1;
 
-	(void)nullcRunFunction("__finalizeObjects");
-	finalizeList.clear();
+	RunFinalizers();
 }
 
 double NULLC::MarkTime()
@@ -819,8 +830,7 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
-	(void)nullcRunFunction("__finalizeObjects");
-	finalizeList.clear();
+	RunFinalizers();
 }
 
 void NULLC::ClearBlock(Range& curr)
@@ -831,6 +841,7 @@ void NULLC::ClearBlock(Range& curr)
 void NULLC::ClearMemory()
 {
 	collectionEnabled = true;
+	finalizersActive = false;
 
 	usedMemory = 0;
 
diff --git a/NULLC/StdLib.h b/NULLC/StdLib.h
index 068b7c1..e5cfcbb 100644
--- a/NULLC/StdLib.h
+++ b/NULLC/StdLib.h
@@ -67,6 +67,7 @@ namespace NULLC
 	double		MarkTime();
 	double		CollectTime();
 
+	void		RunFinalizers();
 	void		FinalizeMemory();
 	void		ClearMemory();
 	void		ResetMemory();
-- 
2.43.0


From 3b3321c570edf5fef91f67d96e610e1971938755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:41 +0000
Subject: [PATCH 34/72] fix: release memory of objects with finalizers before
 the memory limit is reported

---
 NULLC/StdLib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4bde433..982e61e 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -439,6 +439,10 @@ void* NULLC::AllocObject(int size, unsigned type)
 	{
 		CollectMemory();
 
+		// Memory of objects that were finalized by a collection is released by the next one
+		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+			CollectMemory();
+
 		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
 		{
 			nullcThrowError("ERROR: reached global memory maximum");
-- 
2.43.0


From 944576682123df6684fa84b777d3c2ed167f1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 35/72] fix: keep the object of an external member function
 value alive

---
 NULLC/Executor_Common.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 1c20a36..f8b9b24 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -942,10 +942,6 @@ namespace GC
 
 		const ExternFuncInfo &func = NULLC::commonLinker->exFunctions[fPtr->id];
 
-		// External functions shouldn't be checked
-		if(func.regVmAddress == -1)
-			return;
-
 		// If context is "this" pointer
 		if(func.contextType != ~0u)
 			CheckPointer((char*)&fPtr->context);
-- 
2.43.0


From 969c4029ebb51774640df160d69b6b0d3e86b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:11 +0000
Subject: [PATCH 36/72] fix: std.string operations on empty strings and ranges
 that end at the terminator

---
 Modules/std/string.nc | 70 +++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/Modules/std/string.nc b/Modules/std/string.nc
index c351e97..0d09560 100644
--- a/Modules/std/string.nc
+++ b/Modules/std/string.nc
@@ -173,6 +173,7 @@ string operator[](string ref left, int start, int end)
 	assert(start == 0 || (start > 0 && start < left.data.size - 1));
 	assert(end == 0 || (end > 0 && end < left.data.size - 1));
 	assert(start <= end);
+	assert(end < left.size);
 	
 	char[] buf = new char[end - start + 2];
 	
@@ -205,7 +206,7 @@ string ref operator+=(string ref left, string ref right)
 
 string ref operator+=(string ref left, char[] right)
 {
-	left.data = left.data + right;
+	left.data = left.data + string(right).data;
 	return left;
 }
 
@@ -252,7 +253,7 @@ string ref string:insert(int offset, int count, char ch)
 // If the length is not specified, erases all the characters starting from the specified character
 string ref string:erase(int offset, int length = -1)
 {
-	if(length < 0 || length > data.size - offset)
+	if(length < 0 || length >= data.size - offset)
 		length = data.size - offset - 1;
 	if(length == 0)
 		return this;
@@ -279,19 +280,19 @@ string ref string:replace(int offset, int length, string ref str)
 {
 	assert(offset == 0 || (offset > 0 && offset < data.size));
 
-	if(length < 0 || length >= data.size - offset)
-		length = data.size - offset - 1;
+	if(length < 0 || length > size - offset)
+		length = size - offset;
 
-	auto buf = new char[data.size - length + str.data.size - 1];
+	auto buf = new char[size - length + str.size + 1];
 	
 	for(int i = 0; i < offset; i++)
 		buf[i] = data[i];
 
-	for(int i = 0; i < str.data.size - 1; i++)
+	for(int i = 0; i < str.size; i++)
 		buf[i + offset] = str.data[i];
 
-	for(int i = offset + length; i < data.size - 1; i++)
-		buf[i - length + str.data.size - 1] = data[i];
+	for(int i = offset + length; i < size; i++)
+		buf[i - length + str.size] = data[i];
 
 	data = buf;
 	return this;
@@ -324,7 +325,7 @@ void string:swap(char[] right)
 // Optional offset specifies how many characters to skip from the start of the string during the search
 int string:find(string ref str, int offset = 0)
 {
-	int last = data.size - str.data.size + 1;
+	int last = size - str.size + 1;
 
 	for(int i = offset; i < last; i++)
 	{
@@ -361,7 +362,7 @@ int string:find(char ch, int offset = 0)
 // Optional offset specifies how many characters to consider in the search counting from the beginning of the string including the character at the specified offset
 int string:rfind(string ref str, int offset = -1)
 {
-	if(str.data.size == 0)
+	if(str.size == 0)
 		return offset >= 0 && offset < data.size ? offset : size;
 
 	if(offset < 0 || offset >= data.size - 1)
@@ -541,7 +542,7 @@ bool operator in(char ch, string ref str)
 // Returns a substring of [start, start + length) array elements
 string string:substr(int start, int length = -1)
 {
-	if(length < 0 || start + length >= data.size)
+	if(length < 0 || length >= data.size - start)
 		length = data.size - start - 1;
 	if(length <= 0)
 		return string();
@@ -570,19 +571,30 @@ string operator+(string ref left, char[] right)
 	return left + string(right);
 }
 
+// Ordering of character arrays where an array without elements is an empty string
+int string_compare(char[] a, b)
+{
+	if(a.size == 0)
+		a = "";
+	if(b.size == 0)
+		b = "";
+
+	return strcmp(a, b);
+}
+
 // Compare strings for equality
 bool operator==(string ref left, string ref right)
 {
 	if(left.size != right.size)
 		return false;
 
-	return left.data == right.data;
+	return left.size == 0 || left.data == right.data;
 }
 
 bool operator==(string ref left, char[] right)
 {
 	if(right.size > 1)
-		return strcmp(left.data, right) == 0;
+		return string_compare(left.data, right) == 0;
 
 	return left.size == 0;
 }
@@ -590,7 +602,7 @@ bool operator==(string ref left, char[] right)
 bool operator==(char[] left, string ref right)
 {
 	if(left.size > 1)
-		return strcmp(left, right.data) == 0;
+		return string_compare(left, right.data) == 0;
 
 	return right.size == 0;
 }
@@ -601,13 +613,13 @@ bool operator!=(string ref left, string ref right)
 	if(left.size != right.size)
 		return true;
 	
-	return left.data != right.data;
+	return left.size != 0 && left.data != right.data;
 }
 
 bool operator!=(string ref left, char[] right)
 {
 	if(right.size > 1)
-		return strcmp(left.data, right) != 0;
+		return string_compare(left.data, right) != 0;
 	
 	return left.size != 0;
 }
@@ -615,7 +627,7 @@ bool operator!=(string ref left, char[] right)
 bool operator!=(char[] left, string ref right)
 {
 	if(left.size > 1)
-		return strcmp(left, right.data) != 0;
+		return string_compare(left, right.data) != 0;
 	
 	return right.size != 0;
 }
@@ -623,60 +635,60 @@ bool operator!=(char[] left, string ref right)
 // String ordering
 bool operator<(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) < 0;
+	return string_compare(left.data, right.data) < 0;
 }
 
 bool operator<(string ref left, char[] right)
 {
-	return strcmp(left.data, right) < 0;
+	return string_compare(left.data, right) < 0;
 }
 
 bool operator<(char[] left, string ref right)
 {
-	return strcmp(left, right.data) < 0;
+	return string_compare(left, right.data) < 0;
 }
 
 bool operator<=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) <= 0;
+	return string_compare(left.data, right.data) <= 0;
 }
 
 bool operator<=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) <= 0;
+	return string_compare(left.data, right) <= 0;
 }
 
 bool operator<=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) <= 0;
+	return string_compare(left, right.data) <= 0;
 }
 
 bool operator>(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) > 0;
+	return string_compare(left.data, right.data) > 0;
 }
 
 bool operator>(string ref left, char[] right)
 {
-	return strcmp(left.data, right) > 0;
+	return string_compare(left.data, right) > 0;
 }
 
 bool operator>(char[] left, string ref right)
 {
-	return strcmp(left, right.data) > 0;
+	return string_compare(left, right.data) > 0;
 }
 
 bool operator>=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) >= 0;
+	return string_compare(left.data, right.data) >= 0;
 }
 
 bool operator>=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) >= 0;
+	return string_compare(left.data, right) >= 0;
 }
 
 bool operator>=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) >= 0;
+	return string_compare(left, right.data) >= 0;
 }
-- 
2.43.0


From 08ab49ec9b889a022f078d3e48fd642060ef795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:11 +0000
Subject: [PATCH 37/72] fix: concatenation with an empty array dropped the last
 character and wrote past the result

---
 NULLC/StdLib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 982e61e..0142d9e 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1030,8 +1030,8 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 {
 	NULLCArray ret;
 
-	// If first part is zero-terminated, override zero in the new string
-	int shift = a.len && (a.ptr[a.len-1] == 0);
+	// If first part is zero-terminated, override zero in the new string (unless there is nothing to place over it)
+	int shift = a.len && b.len && (a.ptr[a.len-1] == 0);
 	ret.len = a.len + b.len - shift;
 	ret.ptr = (char*)AllocObject(ret.len, NULLC_TYPE_CHAR);
 	if(!ret.ptr)
-- 
2.43.0


From f31388f0899831667aa6c02f74bda4118a166161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:11 +0000
Subject: [PATCH 38/72] fix: conversion of an array without terminating zero to
 a number read past its end

---
 NULLC/StdLib.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 0142d9e..8f51395 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1102,9 +1102,32 @@ long long NULLC::UnsignedValueInt(unsigned int a)
 	return a;
 }
 
+namespace NULLC
+{
+	// Zero-terminated copy of the number text, character array might not have a terminating zero at the end
+	struct NumberText
+	{
+		explicit NumberText(NULLCArray str)
+		{
+			unsigned length = 0;
+			while(length < str.len && str.ptr[length])
+				length++;
+
+			data.resize(length + 1);
+
+			if(length)
+				memcpy(data.data, str.ptr, length);
+
+			data.data[length] = 0;
+		}
+
+		FastVector<char> data;
+	};
+}
+
 int NULLC::StrToShort(NULLCArray str)
 {
-	return str.ptr ? short(atoi(str.ptr)) : 0;
+	return str.ptr ? short(atoi(NumberText(str).data.data)) : 0;
 }
 
 NULLCArray NULLC::ShortToStr(short* r)
@@ -1142,7 +1165,7 @@ NULLCArray NULLC::ShortToStr(short* r)
 
 int NULLC::StrToInt(NULLCArray str)
 {
-	return str.ptr ? atoi(str.ptr) : 0;
+	return str.ptr ? atoi(NumberText(str).data.data) : 0;
 }
 
 NULLCArray NULLC::IntToStr(int* r)
@@ -1183,7 +1206,9 @@ long long NULLC::StrToLong(NULLCArray str)
 	if(!str.ptr)
 		return 0;
 
-	const char *p = str.ptr;
+	NumberText text(str);
+
+	const char *p = text.data.data;
 
 	bool negative = *p == '-';
 	if(negative)
@@ -1231,7 +1256,7 @@ NULLCArray NULLC::LongToStr(long long* r)
 
 float NULLC::StrToFloat(NULLCArray str)
 {
-	return str.ptr ? float(atof(str.ptr)) : 0;
+	return str.ptr ? float(atof(NumberText(str).data.data)) : 0;
 }
 
 NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
@@ -1254,7 +1279,7 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 
 double NULLC::StrToDouble(NULLCArray str)
 {
-	return str.ptr ? atof(str.ptr) : 0;
+	return str.ptr ? atof(NumberText(str).data.data) : 0;
 }
 
 NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
-- 
2.43.0


From 68af5911a3ca96e3af73e755a78dfc5cec865914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:11 +0000
Subject: [PATCH 39/72] fix: long texts of floating point numbers were
 truncated

---
 NULLC/StdLib.cpp      | 43 +++++++++++++++++++++++++++++--------------
 NULLC/includes/io.cpp | 13 ++++++++++---
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 8f51395..d3f67d7 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1259,6 +1259,33 @@ float NULLC::StrToFloat(NULLCArray str)
 	return str.ptr ? float(atof(NumberText(str).data.data)) : 0;
 }
 
+namespace NULLC
+{
+	NULLCArray FormatNumber(int precision, bool exponent, double number)
+	{
+		NULLCArray arr = { 0, 0 };
+
+		const char *format = exponent ? "%.*e" : "%.*f";
+
+		int length = snprintf(NULL, 0, format, precision, number);
+
+		if(length < 0)
+		{
+			nullcThrowError("ERROR: number cannot be converted to a string");
+			return arr;
+		}
+
+		arr = AllocArray(1, length + 1, NULLC_TYPE_CHAR);
+
+		if(!arr.ptr)
+			return arr;
+
+		snprintf(arr.ptr, length + 1, format, precision, number);
+
+		return arr;
+	}
+}
+
 NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 {
 	NULLCArray arr = { 0, 0 };
@@ -1268,13 +1295,7 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 		return arr;
 	}
 
-	char buf[256];
-	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
-	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
-	if(!arr.ptr)
-		return arr;
-	memcpy(arr.ptr, buf, arr.len);
-	return arr;
+	return FormatNumber(precision, exponent, *r);
 }
 
 double NULLC::StrToDouble(NULLCArray str)
@@ -1291,13 +1312,7 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 		return arr;
 	}
 
-	char buf[256];
-	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
-	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
-	if(!arr.ptr)
-		return arr;
-	memcpy(arr.ptr, buf, arr.len);
-	return arr;
+	return FormatNumber(precision, exponent, *r);
 }
 
 NULLCFuncPtr NULLC::FunctionRedirect(NULLCRef r, NULLCArray* arr)
diff --git a/NULLC/includes/io.cpp b/NULLC/includes/io.cpp
index 210174a..8c9e4e9 100644
--- a/NULLC/includes/io.cpp
+++ b/NULLC/includes/io.cpp
@@ -163,10 +163,17 @@ namespace NULLCIO
 		if(!writeFunc)
 			return;
 
-		char buf[128];
-		SafeSprintf(buf, 128, "%.*f", precision, num);
+		int length = snprintf(NULL, 0, "%.*f", precision, num);
 
-		writeFunc(contextFunc, buf, (unsigned)strlen(buf));
+		if(length < 0)
+			return;
+
+		char *buf = new char[length + 1];
+		snprintf(buf, length + 1, "%.*f", precision, num);
+
+		writeFunc(contextFunc, buf, (unsigned)length);
+
+		delete[] buf;
 	}
 
 	void WriteCharConsole(char ch)
-- 
2.43.0


From ff13d372aa6d9f86705bb5bd60d3c9b52b911577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:33 +0000
Subject: [PATCH 40/72] fix: short function argument was analyzed for unrelated
 instances of a generic function

---
 NULLC/ExpressionTree.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index b640271..a605b97 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -7322,6 +7322,18 @@ void AnalyzeFunctionArgumentsFinal(ExpressionContext &ctx, SynBase *source, Expr
 
 					FunctionData *function = functions[i].function;
 
+					// Instances of a generic function that were created by the previous calls are suitable only for the same arguments
+					if(ctx.IsGenericInstance(function))
+					{
+						bool sameArguments = pos <= function->type->arguments.size();
+
+						for(unsigned k = 0; sameArguments && k < pos; k++)
+							sameArguments = resultArguments[k].type == function->type->arguments[k]->type;
+
+						if(!sameArguments)
+							continue;
+					}
+
 					if(function->scope->ownerType)
 					{
 						if(TypeRef *contextType = getType<TypeRef>(functions[i].context->type))
-- 
2.43.0


From fcdec50c9716f44fe723184d20060a3cf96a16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 41/72] fix: removal of an import path changed the order of the
 remaining paths

---
 NULLC/BinaryCache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NULLC/BinaryCache.cpp b/NULLC/BinaryCache.cpp
index 1ce84ea..0dc3208 100644
--- a/NULLC/BinaryCache.cpp
+++ b/NULLC/BinaryCache.cpp
@@ -41,7 +41,10 @@ void BinaryCache::RemoveImportPath(const char* path)
 		{
 			NULLC::dealloc(importPaths[i]);
 
-			importPaths[i] = importPaths.back();
+			// Paths are searched in the order they were added
+			for(unsigned int k = i + 1; k < importPaths.size(); k++)
+				importPaths[k - 1] = importPaths[k];
+
 			importPaths.pop_back();
 			return;
 		}
-- 
2.43.0


From 00fcc27146c5bc33f42dbc3ad67f57a084f17240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 42/72] fix: failed link left parts of the new code in the
 linked program

---
 NULLC/Linker.cpp | 84 +++++++++++++++++++++++++++++++++++++++++++++++-
 NULLC/Linker.h   |  2 ++
 2 files changed, 85 insertions(+), 1 deletion(-)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index e638069..3383c6c 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -116,6 +116,88 @@ void Linker::CleanCode()
 }
 
 bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
+{
+	// Remember current state so that a failure will leave it unchanged
+	FastVector<ExternTypeInfo> prevTypes;
+	prevTypes.push_back(exTypes.data, exTypes.size());
+
+	unsigned prevExTypeExtraSize = exTypeExtra.size();
+	unsigned prevExTypeConstantsSize = exTypeConstants.size();
+	unsigned prevExVariablesSize = exVariables.size();
+	unsigned prevExFunctionsSize = exFunctions.size();
+	unsigned prevExFunctionExplicitTypeArrayOffsetsSize = exFunctionExplicitTypeArrayOffsets.size();
+	unsigned prevExFunctionExplicitTypesSize = exFunctionExplicitTypes.size();
+	unsigned prevExLocalsSize = exLocals.size();
+	unsigned prevExModulesSize = exModules.size();
+	unsigned prevExSymbolsSize = exSymbols.size();
+	unsigned prevExSourceSize = exSource.size();
+	unsigned prevExRegVmCodeSize = exRegVmCode.size();
+	unsigned prevExRegVmSourceInfoSize = exRegVmSourceInfo.size();
+	unsigned prevExRegVmExecCountSize = exRegVmExecCount.size();
+	unsigned prevExRegVmConstantsSize = exRegVmConstants.size();
+	unsigned prevExRegVmRegKillInfoSize = exRegVmRegKillInfo.size();
+	unsigned prevRegVmJumpTargetsSize = regVmJumpTargets.size();
+
+	unsigned prevGlobalVarSize = globalVarSize;
+
+#ifdef NULLC_LLVM_SUPPORT
+	unsigned prevLlvmModuleSizesSize = llvmModuleSizes.size();
+	unsigned prevLlvmModuleCodesSize = llvmModuleCodes.size();
+	unsigned prevLlvmTypeRemapSizesSize = llvmTypeRemapSizes.size();
+	unsigned prevLlvmTypeRemapOffsetsSize = llvmTypeRemapOffsets.size();
+	unsigned prevLlvmTypeRemapValuesSize = llvmTypeRemapValues.size();
+	unsigned prevLlvmFuncRemapSizesSize = llvmFuncRemapSizes.size();
+	unsigned prevLlvmFuncRemapOffsetsSize = llvmFuncRemapOffsets.size();
+	unsigned prevLlvmFuncRemapValuesSize = llvmFuncRemapValues.size();
+#endif
+
+	if(LinkModuleCode(code, moduleName, rootModule))
+		return true;
+
+	exTypes.clear();
+	exTypes.push_back(prevTypes.data, prevTypes.size());
+
+	exTypeExtra.shrink(prevExTypeExtraSize);
+	exTypeConstants.shrink(prevExTypeConstantsSize);
+	exVariables.shrink(prevExVariablesSize);
+	exFunctions.shrink(prevExFunctionsSize);
+	exFunctionExplicitTypeArrayOffsets.shrink(prevExFunctionExplicitTypeArrayOffsetsSize);
+	exFunctionExplicitTypes.shrink(prevExFunctionExplicitTypesSize);
+	exLocals.shrink(prevExLocalsSize);
+	exModules.shrink(prevExModulesSize);
+	exSymbols.shrink(prevExSymbolsSize);
+	exSource.shrink(prevExSourceSize);
+	exRegVmCode.shrink(prevExRegVmCodeSize);
+	exRegVmSourceInfo.shrink(prevExRegVmSourceInfoSize);
+	exRegVmExecCount.shrink(prevExRegVmExecCountSize);
+	exRegVmConstants.shrink(prevExRegVmConstantsSize);
+	exRegVmRegKillInfo.shrink(prevExRegVmRegKillInfoSize);
+	regVmJumpTargets.shrink(prevRegVmJumpTargetsSize);
+
+	globalVarSize = prevGlobalVarSize;
+
+#ifdef NULLC_LLVM_SUPPORT
+	llvmModuleSizes.shrink(prevLlvmModuleSizesSize);
+	llvmModuleCodes.shrink(prevLlvmModuleCodesSize);
+	llvmTypeRemapSizes.shrink(prevLlvmTypeRemapSizesSize);
+	llvmTypeRemapOffsets.shrink(prevLlvmTypeRemapOffsetsSize);
+	llvmTypeRemapValues.shrink(prevLlvmTypeRemapValuesSize);
+	llvmFuncRemapSizes.shrink(prevLlvmFuncRemapSizesSize);
+	llvmFuncRemapOffsets.shrink(prevLlvmFuncRemapOffsetsSize);
+	llvmFuncRemapValues.shrink(prevLlvmFuncRemapValuesSize);
+#endif
+
+	funcMap.clear();
+
+	for(unsigned i = 0; i < exFunctions.size(); i++)
+		funcMap.insert(exFunctions[i].nameHash, i);
+
+	debugOutputIndent = 0;
+
+	return false;
+}
+
+bool Linker::LinkModuleCode(const char *code, const char *moduleName, bool rootModule)
 {
 	TRACE_SCOPE("link", "LinkCode");
 
@@ -193,7 +275,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			{
 				if(bytecode)
 				{
-					if(!LinkCode(bytecode, path, false))
+					if(!LinkModuleCode(bytecode, path, false))
 					{
 						debugOutputIndent--;
 
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index cc8a3f6..de8d67d 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -24,6 +24,8 @@ public:
 
 	const char*	GetLinkError();
 
+	bool	LinkModuleCode(const char *bytecode, const char *moduleName, bool rootModule);
+
 	void	FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize);
 public:
 	char		linkError[LINK_ERROR_BUFFER_SIZE];
-- 
2.43.0


From 49615331f532c4a4af5405d15dedccc6e7cdbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 43/72] fix: bytecode request without a successful compilation
 crashed

---
 NULLC/Compiler.cpp |  6 ++++++
 NULLC/nullc.cpp    | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index a815c02..76f8fa2 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -2031,6 +2031,12 @@ bool TranslateToC(CompilerContext &ctx, const char *fileName, const char *mainNa
 {
 	TRACE_SCOPE("compiler", "TranslateToC");
 
+	if(!ctx.exprModule)
+	{
+		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: no module was built");
+		return false;
+	}
+
 	assert(!ctx.outputCtx.stream);
 	ctx.outputCtx.stream = ctx.outputCtx.openStream(fileName);
 
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 0f5ce1b..e5cdf64 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -627,6 +627,12 @@ unsigned nullcGetBytecode(char **bytecode)
 		return 0;
 	}
 
+	if(!compilerCtx->regVmLoweredModule)
+	{
+		nullcLastError = "ERROR: no bytecode was built";
+		return 0;
+	}
+
 	unsigned size = GetBytecode(*compilerCtx, bytecode);
 
 	// Load it into cache
@@ -647,6 +653,12 @@ unsigned nullcGetBytecodeNoCache(char **bytecode)
 		return 0;
 	}
 
+	if(!compilerCtx->regVmLoweredModule)
+	{
+		nullcLastError = "ERROR: no bytecode was built";
+		return 0;
+	}
+
 	return GetBytecode(*compilerCtx, bytecode);
 }
 
-- 
2.43.0


From 1049feb127997d10aebe0264e0b5b3c0903d197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 44/72] fix: access to a global that is not allocated yet used
 memory out of bounds

---
 NULLC/Executor_X86.cpp |  2 ++
 NULLC/nullc.cpp        | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 62ffe75..0d58a2d 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -795,6 +795,8 @@ bool ExecutorX86::InitExecution()
 
 	if(vmState.dataStackTop >= vmState.dataStackEnd)
 	{
+		vmState.dataStackTop = vmState.dataStackBase;
+
 		Stop("ERROR: allocated stack overflow");
 		return false;
 	}
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index e5cdf64..9eb2173 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1281,7 +1281,8 @@ nullres nullcSetGlobal(const char* name, void* data)
 	using namespace NULLC;
 	NULLC_CHECK_INITIALIZED(false);
 
-	char* mem = (char*)nullcGetVariableData(NULL);
+	unsigned count = 0;
+	char* mem = (char*)nullcGetVariableData(&count);
 	if(!linker || !name || !data || !mem)
 		return 0;
 	unsigned hash = GetStringHash(name);
@@ -1289,6 +1290,10 @@ nullres nullcSetGlobal(const char* name, void* data)
 	{
 		if(linker->exVariables[i].nameHash == hash)
 		{
+			// Global data might not be allocated until the linked code is launched
+			if(linker->exVariables[i].offset + linker->exTypes[linker->exVariables[i].type].size > count)
+				return 0;
+
 			memcpy(mem + linker->exVariables[i].offset, data, linker->exTypes[linker->exVariables[i].type].size);
 			return 1;
 		}
@@ -1301,14 +1306,21 @@ void* nullcGetGlobal(const char* name)
 	using namespace NULLC;
 	NULLC_CHECK_INITIALIZED(0);
 
-	char* mem = (char*)nullcGetVariableData(NULL);
+	unsigned count = 0;
+	char* mem = (char*)nullcGetVariableData(&count);
 	if(!linker || !name || !mem)
 		return NULL;
 	unsigned hash = GetStringHash(name);
 	for(unsigned i = 0; i < linker->exVariables.size(); i++)
 	{
 		if(linker->exVariables[i].nameHash == hash)
+		{
+			// Global data might not be allocated until the linked code is launched
+			if(linker->exVariables[i].offset + linker->exTypes[linker->exVariables[i].type].size > count)
+				return NULL;
+
 			return mem + linker->exVariables[i].offset;
+		}
 	}
 	return NULL;
 }
-- 
2.43.0


From 19e2131ae190b07bb764c3c744210877d798c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 45/72] fix: function could be replaced with a function of a
 different type

---
 NULLC/nullc.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 9eb2173..9ba62c8 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1410,12 +1410,24 @@ nullres nullcSetFunction(const char* name, NULLCFuncPtr func)
 	if(index == ~0u)
 		return false;
 
+	if(func.id == 0 || func.id >= linker->exFunctions.size())
+	{
+		nullcLastError = "ERROR: invalid source function";
+		return false;
+	}
+
 	if(linker->exFunctions[func.id].funcCat != ExternFuncInfo::NORMAL)
 	{
 		nullcLastError = "ERROR: source function uses context, which is unavailable";
 		return false;
 	}
 
+	if(linker->exFunctions[func.id].funcType != linker->exFunctions[index].funcType)
+	{
+		nullcLastError = "ERROR: source function type doesn't match";
+		return false;
+	}
+
 	if(linker->exFunctions[index].builtinIndex != 0)
 	{
 		nullcLastError = "ERROR: can't override builtin function";
-- 
2.43.0


From af8553c06aa96d0232747101b6c6728ef6034268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:01 +0000
Subject: [PATCH 46/72] fix: function was overridden with a null function or a
 function that uses another context

---
 NULLC/includes/dynamic.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/NULLC/includes/dynamic.cpp b/NULLC/includes/dynamic.cpp
index 0054747..53412b5 100644
--- a/NULLC/includes/dynamic.cpp
+++ b/NULLC/includes/dynamic.cpp
@@ -29,7 +29,23 @@ namespace NULLCDynamic
 			return;
 		}
 
-		nullcRedirectFunction(((NULLCFuncPtr*)dest.ptr)->id, ((NULLCFuncPtr*)src.ptr)->id);
+		NULLCFuncPtr destPtr = *(NULLCFuncPtr*)dest.ptr;
+		NULLCFuncPtr srcPtr = *(NULLCFuncPtr*)src.ptr;
+
+		if(!destPtr.id || !srcPtr.id)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
+		// Calls of the destination function will provide context of the destination function
+		if(srcPtr.context && linker->exFunctions[srcPtr.id].contextType != linker->exFunctions[destPtr.id].contextType)
+		{
+			nullcThrowError("Cannot override function '%s' with a function '%s' that has a different context", &linker->exSymbols[linker->exFunctions[destPtr.id].offsetToName], &linker->exSymbols[linker->exFunctions[srcPtr.id].offsetToName]);
+			return;
+		}
+
+		nullcRedirectFunction(destPtr.id, srcPtr.id);
 	}
 
 	void Override(NULLCRef dest, NULLCArray code)
@@ -43,6 +59,12 @@ namespace NULLCDynamic
 			return;
 		}
 
+		if(!((NULLCFuncPtr*)dest.ptr)->id)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		char tmp[2048];
 		char *it = tmp;
 		ExternMemberInfo *memberList = &linker->exTypeExtra[linker->exTypes[dest.typeID].memberOffset];
-- 
2.43.0


From 54deb3b8690401ba7e4229d5e1bc657d4dbfe3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:17 +0000
Subject: [PATCH 47/72] fix: text override used a wrong function and truncated
 the source

---
 NULLC/includes/dynamic.cpp | 55 +++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/NULLC/includes/dynamic.cpp b/NULLC/includes/dynamic.cpp
index 53412b5..c188f90 100644
--- a/NULLC/includes/dynamic.cpp
+++ b/NULLC/includes/dynamic.cpp
@@ -48,6 +48,11 @@ namespace NULLCDynamic
 		nullcRedirectFunction(destPtr.id, srcPtr.id);
 	}
 
+	void Append(FastVector<char> &target, const char *text)
+	{
+		target.push_back(text, (unsigned)strlen(text));
+	}
+
 	void Override(NULLCRef dest, NULLCArray code)
 	{
 		assert(linker);
@@ -65,18 +70,39 @@ namespace NULLCDynamic
 			return;
 		}
 
-		char tmp[2048];
-		char *it = tmp;
+		char name[64];
+		NULLC::SafeSprintf(name, 64, "__override%d", overrideID);
+
+		FastVector<char> source;
+
 		ExternMemberInfo *memberList = &linker->exTypeExtra[linker->exTypes[dest.typeID].memberOffset];
-		ExternTypeInfo &returnType = linker->exTypes[memberList[0].type];
-		it += NULLC::SafeSprintf(it, 2048 - int(it - tmp), "import __last;\r\n%s __override%d(", &linker->exSymbols[0] + returnType.offsetToName, overrideID);
 
-		for(unsigned int i = 0, memberCount = linker->exTypes[dest.typeID].memberCount; i != memberCount; i++)
-			it += NULLC::SafeSprintf(it, 2048 - int(it - tmp), "%s arg%d%s", &linker->exSymbols[0] + linker->exTypes[memberList[i + 1].type].offsetToName, i, i == memberCount - 1 ? "" : ", ");
-		it += NULLC::SafeSprintf(it, 2048 - int(it - tmp), "){ %s }", code.ptr);
+		Append(source, "import __last;\r\n");
+		Append(source, &linker->exSymbols[linker->exTypes[memberList[0].type].offsetToName]);
+		Append(source, " ");
+		Append(source, name);
+		Append(source, "(");
+
+		for(unsigned i = 0, memberCount = linker->exTypes[dest.typeID].memberCount; i != memberCount; i++)
+		{
+			char argument[64];
+			NULLC::SafeSprintf(argument, 64, " arg%d%s", i, i == memberCount - 1 ? "" : ", ");
+
+			Append(source, &linker->exSymbols[linker->exTypes[memberList[i + 1].type].offsetToName]);
+			Append(source, argument);
+		}
+
+		Append(source, "){ ");
+
+		for(unsigned i = 0; i < code.len && code.ptr[i]; i++)
+			source.push_back(code.ptr[i]);
+
+		Append(source, " }");
+		source.push_back(0);
+
 		overrideID++;
 
-		if(!nullcCompile(tmp))
+		if(!nullcCompile(source.data))
 		{
 			nullcThrowError("%s", nullcGetLastError());
 			return;
@@ -91,7 +117,18 @@ namespace NULLCDynamic
 		}
 		delete[] bytecode;
 
-		nullcRedirectFunction(((NULLCFuncPtr*)dest.ptr)->id, linker->exFunctions.size() - 1);
+		unsigned nameHash = NULLC::GetStringHash(name);
+
+		for(unsigned i = linker->exFunctions.size(); i > 0; i--)
+		{
+			if(linker->exFunctions[i - 1].nameHash == nameHash)
+			{
+				nullcRedirectFunction(((NULLCFuncPtr*)dest.ptr)->id, i - 1);
+				return;
+			}
+		}
+
+		nullcThrowError("ERROR: failed to find the new function");
 	}
 }
 
-- 
2.43.0


From 609e6c805269a8435bb99470f3bd302dcebb0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:33 +0000
Subject: [PATCH 48/72] fix: refuse a duplicate module before compiling it

---
 NULLC/nullc.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 9ba62c8..e372aca 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -410,21 +410,6 @@ nullres nullcLoadModuleBySource(const char* module, const char* code)
 	TRACE_SCOPE("nullc", "nullcLoadModuleBySource");
 	TRACE_LABEL(module);
 
-	const unsigned moduleRootLength = 1024;
-	char moduleRoot[moduleRootLength];
-	*moduleRoot = 0;
-
-	if(const char *pos = strrchr(module, '.'))
-	{
-		NULLC::SafeSprintf(moduleRoot, moduleRootLength, "%.*s", unsigned(pos - module), module);
-
-		for(unsigned i = 0, e = unsigned(strlen(moduleRoot)); i < e; i++)
-			moduleRoot[i] = moduleRoot[i] == '.' ? '/' : moduleRoot[i];
-	}
-
-	if(!nullcCompileWithModuleRoot(code, *moduleRoot ? moduleRoot : NULL))
-		return false;
-
 	if(strlen(module) > 512)
 	{
 		nullcLastError = "ERROR: module name is too long";
@@ -445,6 +430,21 @@ nullres nullcLoadModuleBySource(const char* module, const char* code)
 		return false;
 	}
 
+	const unsigned moduleRootLength = 1024;
+	char moduleRoot[moduleRootLength];
+	*moduleRoot = 0;
+
+	if(const char *pos = strrchr(module, '.'))
+	{
+		NULLC::SafeSprintf(moduleRoot, moduleRootLength, "%.*s", unsigned(pos - module), module);
+
+		for(unsigned i = 0, e = unsigned(strlen(moduleRoot)); i < e; i++)
+			moduleRoot[i] = moduleRoot[i] == '.' ? '/' : moduleRoot[i];
+	}
+
+	if(!nullcCompileWithModuleRoot(code, *moduleRoot ? moduleRoot : NULL))
+		return false;
+
 	char *bytecode = NULL;
 	nullcGetBytecode(&bytecode);
 	nullcClean();
-- 
2.43.0


From 3d7519a5240ac4613efd8ac76d3357461cb3f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:06 +0000
Subject: [PATCH 49/72] fix: build file modules a binary module depends on

---
 NULLC/ParseTree.cpp | 90 ++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 33 deletions(-)

diff --git a/NULLC/ParseTree.cpp b/NULLC/ParseTree.cpp
index e7b332b..dcf343b 100644
--- a/NULLC/ParseTree.cpp
+++ b/NULLC/ParseTree.cpp
@@ -2989,6 +2989,51 @@ IntrusiveList<SynBase> ParseExpressions(ParseContext &ctx)
 	return expressions;
 }
 
+const char* BuildModuleBytecode(ParseContext &ctx, Lexeme *start, InplaceStr moduleName, const char *moduleRoot)
+{
+	if(!ctx.bytecodeBuilder)
+		Stop(ctx, start, "ERROR: import builder is not provided");
+
+	if(ctx.errorCount == 0)
+	{
+		ctx.errorPos = start->pos;
+		ctx.errorBufLocation = ctx.errorBuf;
+	}
+
+	const char *messageStart = ctx.errorBufLocation;
+
+	// Separate allocator for each module
+	ChunkedStackPool<65532> pool;
+	GrowingAllocatorRef<ChunkedStackPool<65532>, 16384> allocator(pool);
+
+	ctx.statistics.Finish("Extra", NULLCTime::clockMicro());
+
+	const char *pos = NULL;
+	const char *bytecode = ctx.bytecodeBuilder(&allocator, moduleName, moduleRoot, false, &pos, ctx.errorBufLocation, ctx.errorBufSize - unsigned(ctx.errorBufLocation - ctx.errorBuf), ctx.optimizationLevel, ctx.activeImports, &ctx.statistics);
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	if(!bytecode)
+	{
+		if(ctx.errorBuf && ctx.errorBufSize)
+		{
+			ctx.errorBufLocation += strlen(ctx.errorBufLocation);
+
+			const char *messageEnd = ctx.errorBufLocation;
+
+			ctx.errorInfo.push_back(new (ctx.get<ErrorInfo>()) ErrorInfo(ctx.allocator, messageStart, messageEnd, start, start, pos));
+
+			AddErrorLocationInfo(ctx.code, pos, ctx.errorBufLocation, ctx.errorBufSize - unsigned(ctx.errorBufLocation - ctx.errorBuf));
+
+			ctx.errorBufLocation += strlen(ctx.errorBufLocation);
+		}
+
+		ctx.errorCount++;
+	}
+
+	return bytecode;
+}
+
 const char* GetBytecodeFromPath(ParseContext &ctx, Lexeme *start, IntrusiveList<SynIdentifier> parts)
 {
 	ctx.statistics.Start(NULLCTime::clockMicro());
@@ -3017,44 +3062,23 @@ const char* GetBytecodeFromPath(ParseContext &ctx, Lexeme *start, IntrusiveList<
 
 	if(!bytecode)
 	{
-		if(!ctx.bytecodeBuilder)
-			Stop(ctx, start, "ERROR: import builder is not provided");
-
-		if(ctx.errorCount == 0)
-		{
-			ctx.errorPos = start->pos;
-			ctx.errorBufLocation = ctx.errorBuf;
-		}
-
-		const char *messageStart = ctx.errorBufLocation;
-
-		// Separate allocator for each module
-		ChunkedStackPool<65532> pool;
-		GrowingAllocatorRef<ChunkedStackPool<65532>, 16384> allocator(pool);
-
-		ctx.statistics.Finish("Extra", NULLCTime::clockMicro());
+		bytecode = BuildModuleBytecode(ctx, start, moduleName, ctx.moduleRoot);
+	}
+	else
+	{
+		// Module that was loaded in a binary form might depend on modules that are not available yet
+		ByteCode *bCode = (ByteCode*)bytecode;
 
-		const char *pos = NULL;
-		bytecode = ctx.bytecodeBuilder(&allocator, moduleName, ctx.moduleRoot, false, &pos, ctx.errorBufLocation, ctx.errorBufSize - unsigned(ctx.errorBufLocation - ctx.errorBuf), ctx.optimizationLevel, ctx.activeImports, &ctx.statistics);
+		char *symbols = FindSymbols(bCode);
 
-		ctx.statistics.Start(NULLCTime::clockMicro());
+		ExternModuleInfo *moduleList = FindFirstModule(bCode);
 
-		if(!bytecode)
+		for(unsigned i = 0; i < bCode->dependsCount && bytecode; i++)
 		{
-			if(ctx.errorBuf && ctx.errorBufSize)
-			{
-				ctx.errorBufLocation += strlen(ctx.errorBufLocation);
-
-				const char *messageEnd = ctx.errorBufLocation;
-
-				ctx.errorInfo.push_back(new (ctx.get<ErrorInfo>()) ErrorInfo(ctx.allocator, messageStart, messageEnd, start, start, pos));
-
-				AddErrorLocationInfo(ctx.code, pos, ctx.errorBufLocation, ctx.errorBufSize - unsigned(ctx.errorBufLocation - ctx.errorBuf));
-
-				ctx.errorBufLocation += strlen(ctx.errorBufLocation);
-			}
+			const char *dependencyName = symbols + moduleList[i].nameOffset;
 
-			ctx.errorCount++;
+			if(!BinaryCache::FindBytecode(dependencyName, false) && !BuildModuleBytecode(ctx, start, InplaceStr(dependencyName), NULL))
+				bytecode = NULL;
 		}
 	}
 
-- 
2.43.0


From 8ee79b203df59b29af940fbfee451c794bc57dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 50/72] fix: keep overrides of an imported class that shares a
 module with the virtual table

---
 NULLC/ExpressionTree.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index a605b97..44ef80b 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -13506,12 +13506,6 @@ ExprBase* CreateVirtualTableUpdate(ExpressionContext &ctx, SynBase *source, Vari
 	{
 		FunctionData *function = functionSet[i];
 
-		TypeBase *parentType = function->scope->ownerType;
-
-		// If both type and table are imported, then it should have been filled up inside the module for that type
-		if(parentType->importModule && vtable->importModule && parentType->importModule == vtable->importModule)
-			continue;
-
 		if(function->type != functionType)
 			continue;
 
@@ -13529,7 +13523,9 @@ ExprBase* CreateVirtualTableUpdate(ExpressionContext &ctx, SynBase *source, Vari
 		FunctionData *function = functions[i];
 		TypeBase *type = function->scope->ownerType;
 
-		expressions.push_back(CreateVirtualTableAssignment(ctx, source, vtable, type, function));
+		// If both type and table are imported from the same module, then it should have been filled up inside that module
+		if(!type->importModule || !vtable->importModule || type->importModule != vtable->importModule)
+			expressions.push_back(CreateVirtualTableAssignment(ctx, source, vtable, type, function));
 
 		// Record that owner type recevied an assignment to this function
 		if(isType<TypeClass>(type))
-- 
2.43.0


From 26e48bf3aae526db3f1df5c6776c589b5b86a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:09 +0000
Subject: [PATCH 51/72] fix: use one lexeme stream for a module loaded without
 one

---
 NULLC/ExpressionTree.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 44ef80b..77af80f 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12219,6 +12219,12 @@ void ImportModuleDependencies(ExpressionContext &ctx, SynBase *source, ModuleCon
 			lexStreamSize = moduleData->lexer->GetStreamSize();
 
 			BinaryCache::PutLexemes(moduleFileName, lexStream, lexStreamSize);
+
+			// Use the cached lexemes so that every import of this module refers to the same stream
+			unsigned cachedStreamSize = 0;
+
+			if(Lexeme *cachedStream = BinaryCache::FindLexems(moduleFileName, false, cachedStreamSize))
+				lexStream = cachedStream;
 		}
 
 		moduleData->lexStream = lexStream;
@@ -13281,6 +13287,12 @@ void ImportModule(ExpressionContext &ctx, SynBase *source, ByteCode* bytecode, L
 		assert(!*name.end);
 
 		BinaryCache::PutLexemes(name.begin, lexStream, lexStreamSize);
+
+		// Use the cached lexemes so that every import of this module refers to the same stream
+		unsigned cachedStreamSize = 0;
+
+		if(Lexeme *cachedStream = BinaryCache::FindLexems(name.begin, false, cachedStreamSize))
+			lexStream = cachedStream;
 	}
 
 	moduleData->lexStream = lexStream;
-- 
2.43.0


From 0c3cc62511c49cd222f3f11da3332b11c27e1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:48 +0000
Subject: [PATCH 52/72] fix: find functions that have a forward declaration by
 name

---
 NULLC/Compiler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index 76f8fa2..5297ee4 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -1560,7 +1560,10 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		funcInfo.attributes = function->attributes;
 
 		// Only functions in global or namespace scope remain visible
-		funcInfo.isVisible = (function->scope == ctx.exprCtx.globalScope || function->scope->ownerNamespace) && !function->isHidden;
+		bool isInNamedScope = (function->scope == ctx.exprCtx.globalScope || function->scope->ownerNamespace) && !function->isHidden;
+
+		// A prototype which has an implementation is represented by that implementation
+		funcInfo.isVisible = isInNamedScope && !function->implementation;
 
 		funcInfo.nameHash = function->nameHash;
 
@@ -1613,7 +1616,7 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 			funcInfo.funcCat = ExternFuncInfo::THISCALL;
 		else if(function->coroutine)
 			funcInfo.funcCat = ExternFuncInfo::COROUTINE;
-		else if(!funcInfo.isVisible)
+		else if(!isInNamedScope)
 			funcInfo.funcCat = ExternFuncInfo::LOCAL;
 
 		funcInfo.isGenericInstance = ctx.exprCtx.IsGenericInstance(function);
-- 
2.43.0


From dbc1fc7a7094e736542c9e8496d050eb76215531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:48 +0000
Subject: [PATCH 53/72] fix: keep frame layout of the replacement when a
 function is overridden

---
 NULLC/nullc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index e372aca..27d2bdf 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1454,6 +1454,14 @@ nullres nullcRedirectFunction(unsigned sourceId, unsigned targetId)
 	destFunc.regVmCodeSize = srcFunc.regVmCodeSize;
 	destFunc.regVmRegisters = srcFunc.regVmRegisters;
 
+	// Frame layout is defined by the code that will be executed
+	destFunc.stackSize = srcFunc.stackSize;
+
+	destFunc.offsetToFirstLocal = srcFunc.offsetToFirstLocal;
+	destFunc.paramCount = srcFunc.paramCount;
+	destFunc.localCount = srcFunc.localCount;
+	destFunc.externCount = srcFunc.externCount;
+
 	destFunc.funcPtrRaw = srcFunc.funcPtrRaw;
 	destFunc.funcPtrWrapTarget = srcFunc.funcPtrWrapTarget;
 	destFunc.funcPtrWrap = srcFunc.funcPtrWrap;
-- 
2.43.0


From 236b40cb5b71ddbad42b2d3f25b26947560f26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:48 +0000
Subject: [PATCH 54/72] fix: don't remove instructions at stale locations when
 code is added to a program in JIT

---
 NULLC/CodeGen_X86.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NULLC/CodeGen_X86.cpp b/NULLC/CodeGen_X86.cpp
index 087239a..8d7b192 100644
--- a/NULLC/CodeGen_X86.cpp
+++ b/NULLC/CodeGen_X86.cpp
@@ -424,6 +424,9 @@ void CodeGenGenericContext::KillRegister(x86Reg reg)
 		}
 	}
 
+	// There is no pending write left, instruction at the same location might be a different one later
+	genRegRead[reg] = true;
+
 	// Invalidate the register value
 	genReg[reg].type = x86Argument::argNone;
 }
@@ -442,6 +445,9 @@ void CodeGenGenericContext::KillRegister(x86XmmReg reg)
 		}
 	}
 
+	// There is no pending write left, instruction at the same location might be a different one later
+	xmmRegRead[reg] = true;
+
 	// Invalidate the register value
 	xmmReg[reg].type = x86Argument::argNone;
 }
-- 
2.43.0


From ab80d79102b963668949f6ba692faf8d84fcd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:48 +0000
Subject: [PATCH 55/72] fix: use current constants in functions that were
 linked by a running program in JIT

---
 NULLC/Executor_X86.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 0d58a2d..ae44010 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1459,6 +1459,9 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 				EMIT_OP_REG_RPTR(codeGenCtx->ctx, o_mov64, rRAX, sQWORD, rR13, nullcOffsetOf(&vmState, dataStackBase));
 				EMIT_OP_RPTR_REG(codeGenCtx->ctx, o_mov64, sQWORD, rRBX, 0, rRAX);
 
+				// Constants are moved to a different place if code is linked in while a function is running
+				EMIT_OP_REG_RPTR(codeGenCtx->ctx, o_mov64, rR14, sQWORD, rR13, nullcOffsetOf(&vmState, exRegVmConstants));
+
 				// Advance frame top
 				EMIT_OP_RPTR_NUM(codeGenCtx->ctx, o_add64, sQWORD, rR13, nullcOffsetOf(&vmState, dataStackTop), stackSize); // vmState->dataStackTop += stackSize;
 
-- 
2.43.0


From 14eedeef07582085d0978ec3c11ec3a8eeb685be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:28 +0000
Subject: [PATCH 56/72] fix: classify nested classes, fixed arrays and
 unaligned members of values passed to raw external functions

---
 NULLC/Executor_Common.cpp | 130 ++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 54 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index f8b9b24..2c3070d 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -57,78 +57,100 @@ unsigned ConvertFromAutoRef(unsigned int target, unsigned int source)
 	return 0;
 }
 
-bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+bool IsTypeAligned(ExternTypeInfo &type, unsigned offset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
 {
-	bool aligned = 1;
-	for(unsigned m = 0; m < lType->memberCount; m++)
+	switch(type.type)
 	{
-		ExternMemberInfo &member = exTypeExtra[lType->memberOffset + m];
-		ExternTypeInfo &memberType = exTypes[member.type];
-		unsigned pos = member.offset;
+	case ExternTypeInfo::TYPE_VOID:
+		break;
+	case ExternTypeInfo::TYPE_INT:
+	case ExternTypeInfo::TYPE_FLOAT:
+		return offset % 4 == 0;
+	case ExternTypeInfo::TYPE_LONG:
+	case ExternTypeInfo::TYPE_DOUBLE:
+		return offset % 8 == 0;
+	case ExternTypeInfo::TYPE_SHORT:
+		return offset % 2 == 0;
+	case ExternTypeInfo::TYPE_CHAR:
+		break;
+	case ExternTypeInfo::TYPE_COMPLEX:
+		// Function reference and an unsized array start with a pointer
+		if(type.subCat == ExternTypeInfo::CAT_FUNCTION || (type.subCat == ExternTypeInfo::CAT_ARRAY && type.arrSize == ~0u))
+			return offset % sizeof(void*) == 0;
 
-		switch(memberType.type)
+		if(type.subCat == ExternTypeInfo::CAT_ARRAY)
 		{
-		case ExternTypeInfo::TYPE_COMPLEX:
-			break;
-		case ExternTypeInfo::TYPE_VOID:
-			break;
-		case ExternTypeInfo::TYPE_INT:
-			if(pos % 4 != 0)
-				aligned = 0;
-			break;
-		case ExternTypeInfo::TYPE_FLOAT:
-			break;
-		case ExternTypeInfo::TYPE_LONG:
-			if(pos % 8 != 0)
-				aligned = 0;
-			break;
-		case ExternTypeInfo::TYPE_DOUBLE:
-			break;
-		case ExternTypeInfo::TYPE_SHORT:
-			if(pos % 2 != 0)
-				aligned = 0;
-			break;
-		case ExternTypeInfo::TYPE_CHAR:
-			break;
+			ExternTypeInfo &elementType = exTypes[type.subType];
+
+			// Element alignment pattern repeats after 8 elements
+			for(unsigned i = 0; i < type.arrSize && i < 8; i++)
+			{
+				if(!IsTypeAligned(elementType, offset + i * elementType.size, exTypes, exTypeExtra))
+					return false;
+			}
 		}
-		pos += memberType.size;
+		else if(type.subCat == ExternTypeInfo::CAT_CLASS)
+		{
+			for(unsigned m = 0; m < type.memberCount; m++)
+			{
+				ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
+
+				if(!IsTypeAligned(exTypes[member.type], offset + member.offset, exTypes, exTypeExtra))
+					return false;
+			}
+		}
+		break;
 	}
-	//printf("%s\n", aligned ? "aligned" : "unaligned");
-	return aligned;
+
+	return true;
 }
 
-bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
 {
-	for(unsigned m = 0; m < type.memberCount; m++)
-	{
-		ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
+	return IsTypeAligned(*lType, 0, exTypes, exTypeExtra);
+}
 
-		ExternTypeInfo &memberType = exTypes[member.type];
+bool HasIntegerTypeInRange(ExternTypeInfo &type, unsigned offset, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+{
+	if(offset + type.size <= fromOffset || offset >= toOffset)
+		return false;
 
-		if(memberType.type == ExternTypeInfo::TYPE_COMPLEX)
-		{
-			// Handle opaque types
-			bool opaqueType = memberType.subCat != ExternTypeInfo::CAT_CLASS || memberType.memberCount == 0;
+	if(type.type == ExternTypeInfo::TYPE_FLOAT || type.type == ExternTypeInfo::TYPE_DOUBLE)
+		return false;
 
-			if(opaqueType)
-			{
-				if(member.offset + memberType.size > fromOffset && member.offset < toOffset)
-					return true;
-			}
-			else
-			{
-				if(HasIntegerMembersInRange(memberType, fromOffset - member.offset, toOffset - member.offset, exTypes, exTypeExtra))
-					return true;
-			}
+	if(type.type == ExternTypeInfo::TYPE_COMPLEX && type.subCat == ExternTypeInfo::CAT_ARRAY && type.arrSize != ~0u)
+	{
+		ExternTypeInfo &elementType = exTypes[type.subType];
+
+		for(unsigned i = 0; i < type.arrSize && offset + i * elementType.size < toOffset; i++)
+		{
+			if(HasIntegerTypeInRange(elementType, offset + i * elementType.size, fromOffset, toOffset, exTypes, exTypeExtra))
+				return true;
 		}
-		else if(memberType.type != ExternTypeInfo::TYPE_FLOAT && memberType.type != ExternTypeInfo::TYPE_DOUBLE)
+
+		return false;
+	}
+
+	if(type.type == ExternTypeInfo::TYPE_COMPLEX && type.subCat == ExternTypeInfo::CAT_CLASS && type.memberCount != 0)
+	{
+		for(unsigned m = 0; m < type.memberCount; m++)
 		{
-			if(member.offset + memberType.size > fromOffset && member.offset < toOffset)
+			ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
+
+			if(HasIntegerTypeInRange(exTypes[member.type], offset + member.offset, fromOffset, toOffset, exTypes, exTypeExtra))
 				return true;
 		}
+
+		return false;
 	}
 
-	return false;
+	// Integer types and opaque types
+	return true;
+}
+
+bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+{
+	return HasIntegerTypeInRange(type, 0, fromOffset, toOffset, exTypes, exTypeExtra);
 }
 
 unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, bool withVariables)
-- 
2.43.0


From ae2ad09dfe1f04ab8effc7f31318525cdc072893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:36 +0000
Subject: [PATCH 57/72] fix: return classes larger than 512 bytes from external
 functions

---
 NULLC/Compiler.cpp        |  2 +-
 NULLC/Executor_Common.cpp | 41 +++++++++++++++++++++------------------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index 5297ee4..6578b7b 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -1666,7 +1666,7 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 
 			funcInfo.returnShift = (unsigned char)(returnType->size / 4);
 
-			funcInfo.returnSize = funcInfo.returnShift * 4;
+			funcInfo.returnSize = unsigned(returnType->size / 4) * 4;
 
 			if(funcInfo.retType == ExternFuncInfo::RETURN_VOID)
 				funcInfo.returnSize = 0;
diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 2c3070d..2c5e379 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -1323,8 +1323,10 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 	ExternMemberInfo &member = exTypeExtra[funcType.memberOffset];
 	ExternTypeInfo &returnType = exTypes[member.type];
 
+	unsigned returnSize = returnType.size / 4;
+
 #if defined(_WIN64)
-	bool returnByPointer = func.returnShift > 1;
+	bool returnByPointer = returnSize > 1;
 #elif !defined(_M_X64)
 	bool returnByPointer = true;
 #elif defined(__aarch64__)
@@ -1335,7 +1337,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 	bool firstQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 0, 8, exTypes, exTypeExtra);
 	bool secondQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
 #else
-	bool returnByPointer = func.returnShift > 4 || member.type == NULLC_TYPE_AUTO_REF || (returnType.subCat == ExternTypeInfo::CAT_CLASS && !AreMembersAligned(&returnType, exTypes, exTypeExtra));
+	bool returnByPointer = returnSize > 4 || member.type == NULLC_TYPE_AUTO_REF || (returnType.subCat == ExternTypeInfo::CAT_CLASS && !AreMembersAligned(&returnType, exTypes, exTypeExtra));
 
 	bool opaqueType = returnType.subCat != ExternTypeInfo::CAT_CLASS || returnType.memberCount == 0;
 
@@ -1343,10 +1345,11 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 	bool secondQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
 #endif
 
-	unsigned ret[128];
+	SmallArray<unsigned, 128> ret;
+	ret.resize(returnSize);
 
 	if(retType == ExternFuncInfo::RETURN_UNKNOWN && returnByPointer)
-		dcArgPointer(dcCallVM, ret);
+		dcArgPointer(dcCallVM, ret.data);
 
 	for(unsigned i = 0; i < func.paramCount; i++)
 	{
@@ -1526,7 +1529,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			*newStackPtr = dcCallInt(dcCallVM, fPtr);
 		break;
 	case ExternFuncInfo::RETURN_DOUBLE:
-		if(func.returnShift == 1)
+		if(returnSize == 1)
 			vmStoreDouble(newStackPtr, dcCallFloat(dcCallVM, fPtr));
 		else
 			vmStoreDouble(newStackPtr, dcCallDouble(dcCallVM, fPtr));
@@ -1536,7 +1539,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 		break;
 	case ExternFuncInfo::RETURN_UNKNOWN:
 #if defined(_WIN64)
-		if(func.returnShift == 1)
+		if(returnSize == 1)
 		{
 			*newStackPtr = dcCallInt(dcCallVM, fPtr);
 		}
@@ -1545,19 +1548,19 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			dcCallVoid(dcCallVM, fPtr);
 
 			// copy return value on top of the stack
-			memcpy(newStackPtr, ret, func.returnShift * 4);
+			memcpy(newStackPtr, ret.data, returnSize * 4);
 		}
 #elif !defined(_M_X64)
 		dcCallPointer(dcCallVM, fPtr);
 
 		// copy return value on top of the stack
-		memcpy(newStackPtr, ret, func.returnShift * 4);
+		memcpy(newStackPtr, ret.data, returnSize * 4);
 #elif defined(__aarch64__)
-		if(func.returnShift > 4)
+		if(returnSize > 4)
 		{
 			DCcomplexbig res = dcCallComplexBig(dcCallVM, fPtr);
 
-			memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+			memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 		}
 		else
 		{
@@ -1565,25 +1568,25 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			{
 				DCcomplexdd res = dcCallComplexDD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 			else if(firstQwordInteger && !secondQwordInteger)
 			{
 				DCcomplexld res = dcCallComplexLD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 			else if(!firstQwordInteger && secondQwordInteger)
 			{
 				DCcomplexdl res = dcCallComplexDL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 			else
 			{
 				DCcomplexll res = dcCallComplexLL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 		}
 #else
@@ -1592,7 +1595,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			dcCallPointer(dcCallVM, fPtr);
 
 			// copy return value on top of the stack
-			memcpy(newStackPtr, ret, func.returnShift * 4);
+			memcpy(newStackPtr, ret.data, returnSize * 4);
 		}
 		else
 		{
@@ -1600,25 +1603,25 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			{
 				DCcomplexdd res = dcCallComplexDD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 			else if(firstQwordInteger && !secondQwordInteger)
 			{
 				DCcomplexld res = dcCallComplexLD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 			else if(!firstQwordInteger && secondQwordInteger)
 			{
 				DCcomplexdl res = dcCallComplexDL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 			else
 			{
 				DCcomplexll res = dcCallComplexLL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnSize * 4); // copy return value on top of the stack
 			}
 		}
 #endif
-- 
2.43.0


From 336a4c06e88a75b9de930e4d78a1dc21b7246e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:36 +0000
Subject: [PATCH 58/72] fix: keep the parts of auto ref and auto[] values when
 they are converted to and from classes in registers

---
 NULLC/InstructionTreeRegVmLower.cpp | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 7d61bbb..036a954 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -2899,25 +2899,32 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				else if(inst->arguments[0]->type.type == VM_TYPE_AUTO_REF)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
 
 					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
+					unsigned char tempRegB = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, resRegB, sourceRegs[1], 32u);
+					// First argument receives the high part of the pointer, source registers can be reused after the last read
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegB, tempRegA, sourceRegs[1]);
 
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegA);
+
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+
+					lowBlock->AddInstruction(ctx, inst->source, rviMov, resRegB, 0, tempRegB);
 				}
 				else if(inst->arguments[0]->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
 
 					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
 					unsigned char tempRegB = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, tempRegB, sourceRegs[1], 32u);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegB, tempRegA, sourceRegs[1]);
 
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegA);
+
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegB, sourceRegs[2]);
 				}
 			}
@@ -2979,22 +2986,31 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				else if(inst->type.type == VM_TYPE_AUTO_REF)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
+
+					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
+
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, resRegA, sourceRegs[0]);
+
 					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
-					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, resRegB, sourceRegs[1]);
+					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegA, sourceRegs[1]);
 				}
 				else if(inst->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
 					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
-					unsigned char resRegC = lowFunction->AllocateRegister(inst, 2, true);
 
-					unsigned char tempReg = lowFunction->GetRegisterForConstant();
+					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
+					unsigned char tempRegB = lowFunction->GetRegisterForConstant();
+					unsigned char tempRegC = lowFunction->GetRegisterForConstant();
+
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, resRegA, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegC, tempRegB, sourceRegs[1]);
+					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegA, tempRegB);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempReg, resRegC, sourceRegs[1]);
-					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, resRegB, tempReg);
+					unsigned char resRegC = lowFunction->AllocateRegister(inst, 2, true);
+
+					lowBlock->AddInstruction(ctx, inst->source, rviMov, resRegC, 0, tempRegC);
 				}
 			}
 			else
-- 
2.43.0


From 2524ff03458449ed4a8ec7a54e82828cd71d0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:36 +0000
Subject: [PATCH 59/72] fix: place members of class arguments according to the
 class layout when host calls a function

---
 NULLC/nullc.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 27d2bdf..3e42689 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -979,31 +979,38 @@ const char*	nullcGetArgumentVector(unsigned functionID, uintptr_t extra, va_list
 				for(unsigned k = 0; k < tInfo.memberCount; k++)
 				{
 					const ExternTypeInfo &subType = linker->exTypes[memberList[k].type];
+
+					// Members are placed according to the class layout
+					char *memberPos = argPos + memberList[k].offset;
+
 					switch(subType.type)
 					{
 					case ExternTypeInfo::TYPE_CHAR:
+						*(char*)memberPos = (char)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_SHORT:
+						*(short*)memberPos = (short)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_INT:
-						*(int*)argPos = va_arg(args, int);
-						argPos += 4;
+						*(int*)memberPos = va_arg(args, int);
 						break;
 					case ExternTypeInfo::TYPE_LONG:
-						*(long long*)argPos = va_arg(args, long long);
-						argPos += 8;
+						*(long long*)memberPos = va_arg(args, long long);
 						break;
 					case ExternTypeInfo::TYPE_FLOAT:
-						*(float*)argPos = (float)va_arg(args, double);
-						argPos += 4;
+						*(float*)memberPos = (float)va_arg(args, double);
 						break;
 					case ExternTypeInfo::TYPE_DOUBLE:
-						*(double*)argPos = va_arg(args, double);
-						argPos += 8;
+						*(double*)memberPos = va_arg(args, double);
 						break;
 					default:
 						nullcLastError = "ERROR: unsupported complex function parameter";
 						return NULL;
 					}
 				}
+
+				// Argument slot of an empty class takes 4 bytes
+				argPos += tInfo.size ? tInfo.size : 4;
 			}else{
 				nullcLastError = "ERROR: unsupported complex function parameter";
 				return NULL;
-- 
2.43.0


From 6ec483e54d9d803f6f4a7e13f459f151d3f8873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:39 +0000
Subject: [PATCH 60/72] fix: reserve enough x86 instructions for calls with
 long argument or result lists

---
 NULLC/Executor_X86.cpp | 43 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index ae44010..52c0d50 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1297,6 +1297,42 @@ void ExecutorX86::ClearNative()
 	codeRunning = false;
 }
 
+// Instructions with an operand list in the constant data can generate a few x86 instructions for every list element
+static unsigned GetMicrocodeLength(RegVmCmd cmd, unsigned *exRegVmConstants)
+{
+	unsigned *start = NULL;
+
+	if(cmd.code == rviCall)
+		start = exRegVmConstants + ((cmd.rA << 16) | (cmd.rB << 8) | cmd.rC);
+	else if(cmd.code == rviCallPtr)
+		start = exRegVmConstants + cmd.argument;
+	else if(cmd.code == rviReturn && cmd.rB != rvrError && cmd.rB != rvrVoid)
+		start = exRegVmConstants + cmd.argument + 2; // Skip type and type size
+	else
+		return 0;
+
+	unsigned *pos = start;
+
+	while(*pos != rvmiReturn)
+	{
+		switch(*pos++)
+		{
+		case rvmiCall:
+			pos += 2;
+			break;
+		case rvmiPushMem:
+		case rvmiPopMem:
+			pos += 3;
+			break;
+		default:
+			pos++;
+			break;
+		}
+	}
+
+	return unsigned(pos - start);
+}
+
 bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 {
 	TRACE_SCOPE("x86", "TranslateToNative");
@@ -1402,8 +1438,11 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 
 		unsigned int currSize = (int)(codeGenCtx->ctx.GetLastInstruction() - instList.data);
 		instList.count = currSize;
-		if(currSize + 64 >= instList.max)
-			instList.grow(currSize + 64);
+
+		unsigned reservedSize = 64 + 2 * GetMicrocodeLength(cmd, exRegVmConstants.data);
+
+		if(currSize + reservedSize >= instList.max)
+			instList.grow(currSize + reservedSize);
 
 		codeGenCtx->ctx.SetLastInstruction(instList.data + currSize, instList.data);
 
-- 
2.43.0


From 3da55c1fb575f1ef02060cedcbe50774568601d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:11 +0000
Subject: [PATCH 61/72] fix: reserve native code memory for the longest
 possible instructions

---
 NULLC/Executor_X86.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 52c0d50..f5a1c8b 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1847,10 +1847,10 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 
 	bool codeRelocated = false;
 
-	if((binCodeSize + instList.size() * 8) > binCodeReserved)
+	if((binCodeSize + instList.size() * 16) > binCodeReserved)
 	{
 		unsigned int oldBinCodeReserved = binCodeReserved;
-		binCodeReserved = binCodeSize + (instList.size()) * 8 + 4096;	// Average instruction size is 8 bytes.
+		binCodeReserved = binCodeSize + (instList.size()) * 16 + 4096;	// Instruction size is at most 15 bytes.
 		unsigned char *binCodeNew = (unsigned char*)NULLC::alloc(binCodeReserved);
 
 		// Disable execution of old code body and enable execution of new code body
-- 
2.43.0


From ccb8a98fc2a6293ec89d2a88093acec091cc12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:14 +0000
Subject: [PATCH 62/72] fix: overload rating accepted a derived class value for
 a base class parameter although no such conversion exists

---
 NULLC/ExpressionTree.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 77af80f..c692435 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -5909,18 +5909,6 @@ unsigned GetFunctionRating(ExpressionContext &ctx, FunctionData *function, TypeF
 				}
 			}
 
-			if(isType<TypeClass>(expectedType) && isType<TypeClass>(actualType))
-			{
-				TypeClass *lClass = getType<TypeClass>(expectedType);
-				TypeClass *rClass = getType<TypeClass>(actualType);
-
-				if(IsDerivedFrom(rClass, lClass))
-				{
-					rating += 5;
-					continue;
-				}
-			}
-
 			if(isType<TypeFunction>(expectedType))
 			{
 				TypeFunction *lFunction = getType<TypeFunction>(expectedType);
-- 
2.43.0


From da39e6b568e15512e4b9ce56af484f2e9964ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:39 +0000
Subject: [PATCH 63/72] fix: names were looked up in namespaces and the global
 scope before inner functions, classes and types

---
 NULLC/ExpressionTree.cpp | 357 +++++++++++++++++++++++----------------
 1 file changed, 215 insertions(+), 142 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index c692435..32207bf 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -537,42 +537,74 @@ namespace
 		return NULL;
 	}
 
-	IdentifierLookupResult* LookupObjectByName(ExpressionContext &ctx, unsigned nameHash)
+	unsigned GetPathHashInScope(ScopeData *scope, IntrusiveList<SynIdentifier> path, InplaceStr name)
 	{
-		typedef DirectChainedMap<IdentifierLookupResult>::NodeIterator Node;
-
-		ScopeData *scope = ctx.scope;
+		unsigned hash = scope->ownerNamespace ? NULLC::StringHashContinue(scope->ownerNamespace->fullNameHash, ".") : NULLC::GetStringHash("");
 
-		while(scope)
+		for(SynIdentifier *part = path.head; part; part = getType<SynIdentifier>(part->next))
 		{
-			if(Node lookup = scope->idLookupMap.first(nameHash))
-			{
-				if(ctx.lookupLocation && !scope->unrestricted)
-				{
-					VariableData *variable = lookup.node->value.variable;
+			hash = NULLC::StringHashContinue(hash, part->name.begin, part->name.end);
+			hash = NULLC::StringHashContinue(hash, ".");
+		}
 
-					// Skip variables that are not visible from current point
-					while(variable && !variable->importModule && variable->source->pos.begin > ctx.lookupLocation->pos.begin)
-					{
-						lookup = scope->idLookupMap.next(lookup);
+		return NULLC::StringHashContinue(hash, name.begin, name.end);
+	}
 
-						if(lookup.node)
-							variable = lookup.node->value.variable;
-						else
-							variable = NULL;
-					}
-				}
+	DirectChainedMap<IdentifierLookupResult>::NodeIterator LookupObjectInScope(ExpressionContext &ctx, ScopeData *scope, unsigned nameHash)
+	{
+		DirectChainedMap<IdentifierLookupResult>::NodeIterator lookup = scope->idLookupMap.first(nameHash);
+
+		if(lookup && ctx.lookupLocation && !scope->unrestricted)
+		{
+			VariableData *variable = lookup.node->value.variable;
+
+			// Skip variables that are not visible from current point
+			while(variable && !variable->importModule && variable->source->pos.begin > ctx.lookupLocation->pos.begin)
+			{
+				lookup = scope->idLookupMap.next(lookup);
 
 				if(lookup.node)
-					return &lookup.node->value;;
+					variable = lookup.node->value.variable;
+				else
+					variable = NULL;
 			}
+		}
 
-			scope = scope->scope;
+		return lookup;
+	}
+
+	IdentifierLookupResult* LookupObjectByName(ExpressionContext &ctx, unsigned nameHash)
+	{
+		typedef DirectChainedMap<IdentifierLookupResult>::NodeIterator Node;
+
+		for(ScopeData *scope = ctx.scope; scope; scope = scope->scope)
+		{
+			if(Node lookup = LookupObjectInScope(ctx, scope, nameHash))
+				return &lookup.node->value;
 		}
 
 		return NULL;
 	}
 
+	// Hash of the full name that a name has when it is declared directly in the scope
+	unsigned GetNameHashInScope(ScopeData *scope, InplaceStr name)
+	{
+		for(ScopeData *curr = scope; curr; curr = curr->scope)
+		{
+			if(curr->ownerType || curr->ownerFunction)
+				break;
+
+			if(curr->ownerNamespace)
+			{
+				unsigned hash = NULLC::StringHashContinue(curr->ownerNamespace->fullNameHash, ".");
+
+				return NULLC::StringHashContinue(hash, name.begin, name.end);
+			}
+		}
+
+		return name.hash();
+	}
+
 	VariableData* LookupVariableByName(ExpressionContext &ctx, unsigned nameHash)
 	{
 		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, nameHash))
@@ -595,50 +627,48 @@ namespace
 		return NULL;
 	}
 
-	TypeBase* LookupTypeByName(ExpressionContext &ctx, unsigned nameHash)
+	TypeBase* LookupTypeInScope(ExpressionContext &ctx, ScopeData *scope, unsigned nameHash)
 	{
-		ScopeData *scope = ctx.scope;
-
-		while(scope)
+		if(TypeLookupResult *lookup = scope->typeLookupMap.find(nameHash))
 		{
-			if(TypeLookupResult *lookup = scope->typeLookupMap.find(nameHash))
+			if(TypeBase *type = lookup->type)
 			{
-				if(TypeBase *type = lookup->type)
+				// Check type visibility
+				if(ctx.lookupLocation && !scope->unrestricted && !type->importModule)
 				{
-					// Check type visibility
-					if(ctx.lookupLocation && !scope->unrestricted && !type->importModule)
-					{
-						SynBase *typeLocation = NULL;
+					SynBase *typeLocation = NULL;
 
-						if(TypeClass *exact = getType<TypeClass>(type))
-							typeLocation = exact->source;
-						else if(TypeGenericClassProto *exact = getType<TypeGenericClassProto>(type))
-							typeLocation = exact->definition;
+					if(TypeClass *exact = getType<TypeClass>(type))
+						typeLocation = exact->source;
+					else if(TypeGenericClassProto *exact = getType<TypeGenericClassProto>(type))
+						typeLocation = exact->definition;
 
-						if(typeLocation && typeLocation->pos.begin > ctx.lookupLocation->pos.begin)
-						{
-							scope = scope->scope;
-							continue;
-						}
-					}
-
-					return lookup->type;
+					if(typeLocation && typeLocation->pos.begin > ctx.lookupLocation->pos.begin)
+						return NULL;
 				}
 
-				// Check alias visibility
-				if(ctx.lookupLocation && !scope->unrestricted && !lookup->alias->importModule)
-				{
-					if(lookup->alias->source->pos.begin > ctx.lookupLocation->pos.begin)
-					{
-						scope = scope->scope;
-						continue;
-					}
-				}
+				return lookup->type;
+			}
 
-				return lookup->alias->type;
+			// Check alias visibility
+			if(ctx.lookupLocation && !scope->unrestricted && !lookup->alias->importModule)
+			{
+				if(lookup->alias->source->pos.begin > ctx.lookupLocation->pos.begin)
+					return NULL;
 			}
 
-			scope = scope->scope;
+			return lookup->alias->type;
+		}
+
+		return NULL;
+	}
+
+	TypeBase* LookupTypeByName(ExpressionContext &ctx, unsigned nameHash)
+	{
+		for(ScopeData *scope = ctx.scope; scope; scope = scope->scope)
+		{
+			if(TypeBase *type = LookupTypeInScope(ctx, scope, nameHash))
+				return type;
 		}
 
 		return NULL;
@@ -651,12 +681,22 @@ namespace
 		FunctionLookupChain()
 		{
 			scope = NULL;
+			globalScope = NULL;
 		}
 
 		FunctionLookupChain(Node node, ScopeData *scope)
 		{
 			this->node = node;
 			this->scope = scope;
+			this->globalScope = NULL;
+		}
+
+		FunctionLookupChain(Node node, ScopeData *scope, ScopeData *globalScope, InplaceStr name)
+		{
+			this->node = node;
+			this->scope = scope;
+			this->globalScope = globalScope;
+			this->name = name;
 		}
 
 		FunctionData* operator*()
@@ -680,7 +720,7 @@ namespace
 				if(curr.node->value.variable)
 					return FunctionLookupChain();
 
-				return FunctionLookupChain(curr, scope);
+				return FunctionLookupChain(curr, scope, globalScope, name);
 			}
 
 			// Search in next scopes
@@ -688,13 +728,29 @@ namespace
 			{
 				scope = scope->scope;
 
-				if(Node curr = scope->idLookupMap.first(node.node->hash))
+				// Function from a scope inside of a namespace continues with functions of that namespace
+				if(globalScope && scope->ownerNamespace)
+				{
+					if(Node curr = globalScope->idLookupMap.first(GetNameHashInScope(scope, name)))
+					{
+						if(curr.node->value.variable)
+							return FunctionLookupChain();
+
+						return FunctionLookupChain(curr, globalScope);
+					}
+
+					continue;
+				}
+
+				unsigned hash = globalScope ? GetNameHashInScope(scope, name) : node.node->hash;
+
+				if(Node curr = scope->idLookupMap.first(hash))
 				{
 					// Scopes with mixed variables and functions will block function overload visibility
 					if(curr.node->value.variable)
 						return FunctionLookupChain();
 
-					return FunctionLookupChain(curr, scope);
+					return FunctionLookupChain(curr, scope, globalScope, name);
 				}
 			}
 
@@ -704,6 +760,10 @@ namespace
 		Node node;
 		ScopeData *scope;
 
+		// Set when the chain starts from an unqualified name
+		ScopeData *globalScope;
+		InplaceStr name;
+
 		// Safe bool cast
 		typedef void (FunctionLookupChain::*bool_type)() const;
 		void safe_bool() const{}
@@ -3622,22 +3682,30 @@ TypeBase* AnalyzeType(ExpressionContext &ctx, SynBase *syntax, bool onlyType = t
 
 	if(SynTypeSimple *node = getType<SynTypeSimple>(syntax))
 	{
-		for(ScopeData *nsScope = NamedOrGlobalScopeFrom(ctx.scope); nsScope; nsScope = NamedOrGlobalScopeFrom(nsScope->scope))
+		// Search for the innermost declaration starting from the current scope to global scope
+		for(ScopeData *scope = ctx.scope; scope; scope = scope->scope)
 		{
-			unsigned hash = nsScope->ownerNamespace ? NULLC::StringHashContinue(nsScope->ownerNamespace->fullNameHash, ".") : NULLC::GetStringHash("");
-
-			for(SynIdentifier *part = node->path.head; part; part = getType<SynIdentifier>(part->next))
-			{
-				hash = NULLC::StringHashContinue(hash, part->name.begin, part->name.end);
-				hash = NULLC::StringHashContinue(hash, ".");
-			}
+			// Qualified names refer to namespace contents
+			if(!node->path.empty() && !scope->ownerNamespace && scope != ctx.globalScope)
+				continue;
 
-			hash = NULLC::StringHashContinue(hash, node->name.begin, node->name.end);
+			unsigned hash = 0;
 
-			TypeBase *type = LookupTypeByName(ctx, hash);
+			if(node->path.empty())
+				hash = GetNameHashInScope(scope, node->name);
+			else
+				hash = GetPathHashInScope(scope, node->path, node->name);
 
-			if(type)
+			// Namespace contents are registered in the global scope
+			if(TypeBase *type = LookupTypeInScope(ctx, scope->ownerNamespace ? ctx.globalScope : scope, hash))
 				return type;
+
+			// Some of the local names do not include the namespace
+			if(node->path.empty() && !scope->ownerNamespace)
+			{
+				if(TypeBase *type = LookupTypeInScope(ctx, scope, node->name.hash()))
+					return type;
+			}
 		}
 
 		// Might be a variable
@@ -4070,15 +4138,41 @@ ExprBase* CreateFunctionAccess(ExpressionContext &ctx, SynBase *source, Function
 
 		while(curr)
 		{
-			types.push_back(curr->type);
-			functions.push_back(new (ctx.get<FunctionHandle>()) FunctionHandle(*curr));
+			bool hidden = false;
+
+			// Function from an inner scope hides an outer function with the same arguments
+			for(FunctionHandle *prev = functions.head; prev && !curr->scope->ownerType && !curr->type->isGeneric; prev = prev->next)
+			{
+				if(prev->function->scope != curr->scope && prev->function->type->arguments.size() == curr->type->arguments.size())
+				{
+					hidden = true;
+
+					for(TypeHandle *lhs = prev->function->type->arguments.head, *rhs = curr->type->arguments.head; lhs && rhs; lhs = lhs->next, rhs = rhs->next)
+					{
+						if(lhs->type != rhs->type)
+							hidden = false;
+					}
+
+					if(hidden)
+						break;
+				}
+			}
+
+			if(!hidden)
+			{
+				types.push_back(curr->type);
+				functions.push_back(new (ctx.get<FunctionHandle>()) FunctionHandle(*curr));
+			}
 
 			curr = curr.next();
 		}
 
-		TypeFunctionSet *type = ctx.GetFunctionSetType(types);
+		if(types.size() > 1)
+		{
+			TypeFunctionSet *type = ctx.GetFunctionSetType(types);
 
-		return new (ctx.get<ExprFunctionOverloadSet>()) ExprFunctionOverloadSet(source, type, functions, context);
+			return new (ctx.get<ExprFunctionOverloadSet>()) ExprFunctionOverloadSet(source, type, functions, context);
+		}
 	}
 
 	if(!context)
@@ -4275,95 +4369,74 @@ ExprBase* CreateVariableAccess(ExpressionContext &ctx, SynBase *source, Variable
 
 ExprBase* CreateVariableAccess(ExpressionContext &ctx, SynBase *source, IntrusiveList<SynIdentifier> path, InplaceStr name, bool allowInternal)
 {
-	// Check local scope first
-	{
-		unsigned hash = NULLC::GetStringHash("");
+	typedef DirectChainedMap<IdentifierLookupResult>::NodeIterator Node;
 
-		for(SynIdentifier *part = path.head; part; part = getType<SynIdentifier>(part->next))
-		{
-			hash = NULLC::StringHashContinue(hash, part->name.begin, part->name.end);
-			hash = NULLC::StringHashContinue(hash, ".");
-		}
+	bool searchedType = false;
 
-		hash = NULLC::StringHashContinue(hash, name.begin, name.end);
-
-		if(VariableData *variable = LookupVariableByName(ctx, hash))
+	// Search for the innermost declaration starting from the current scope to global scope
+	for(ScopeData *scope = ctx.scope; scope; scope = scope->scope)
+	{
+		// Qualified names refer to namespace contents
+		if(path.empty() || scope->ownerNamespace || scope == ctx.globalScope)
 		{
-			// Must be non-global scope
-			if(NamedOrGlobalScopeFrom(variable->scope) != ctx.globalScope)
-				return CreateVariableAccess(ctx, source, variable, true);
-		}
-	}
+			ScopeData *lookupScope = scope;
 
-	// Search for variable starting from current namespace to global scope
-	for(ScopeData *nsScope = NamedOrGlobalScopeFrom(ctx.scope); nsScope; nsScope = NamedOrGlobalScopeFrom(nsScope->scope))
-	{
-		unsigned hash = nsScope->ownerNamespace ? NULLC::StringHashContinue(nsScope->ownerNamespace->fullNameHash, ".") : NULLC::GetStringHash("");
+			unsigned hash = 0;
 
-		for(SynIdentifier *part = path.head; part; part = getType<SynIdentifier>(part->next))
-		{
-			hash = NULLC::StringHashContinue(hash, part->name.begin, part->name.end);
-			hash = NULLC::StringHashContinue(hash, ".");
-		}
+			if(path.empty())
+				hash = GetNameHashInScope(scope, name);
+			else
+				hash = GetPathHashInScope(scope, path, name);
 
-		hash = NULLC::StringHashContinue(hash, name.begin, name.end);
+			// Namespace contents are registered in the global scope
+			if(scope->ownerNamespace)
+				lookupScope = ctx.globalScope;
 
-		if(VariableData *variable = LookupVariableByName(ctx, hash))
-			return CreateVariableAccess(ctx, source, variable, true);
-	}
+			Node lookup = LookupObjectInScope(ctx, lookupScope, hash);
 
-	{
-		// Try a class constant or an alias
-		if(TypeStruct *structType = getType<TypeStruct>(ctx.GetCurrentType(ctx.scope)))
-		{
-			for(ConstantData *curr = structType->constants.head; curr; curr = curr->next)
-			{
-				if(curr->name->name == name)
-					return CreateLiteralCopy(ctx, source, curr->value);
-			}
-		}
-	}
+			// Some of the local names do not include the namespace
+			if(!lookup && path.empty() && !scope->ownerNamespace)
+				lookup = LookupObjectInScope(ctx, scope, name.hash());
 
-	if(path.empty())
-	{
-		if(FindNextTypeFromScope(ctx.scope))
-		{
-			if(VariableData *variable = LookupVariableByName(ctx, InplaceStr("this").hash()))
+			if(lookup)
 			{
-				if(ExprBase *member = CreateMemberAccess(ctx, source, CreateVariableAccess(ctx, source, variable, true), new (ctx.get<SynIdentifier>()) SynIdentifier(name), true))
-					return member;
-			}
-		}
-	}
+				if(VariableData *variable = lookup.node->value.variable)
+					return CreateVariableAccess(ctx, source, variable, true);
 
-	FunctionLookupChain function;
+				if(lookup.node->value.function->isInternal && !allowInternal)
+					return NULL;
 
-	for(ScopeData *nsScope = NamedOrGlobalScopeFrom(ctx.scope); nsScope; nsScope = NamedOrGlobalScopeFrom(nsScope->scope))
-	{
-		unsigned hash = nsScope->ownerNamespace ? NULLC::StringHashContinue(nsScope->ownerNamespace->fullNameHash, ".") : NULLC::GetStringHash("");
+				FunctionLookupChain function = path.empty() && !scope->ownerNamespace ? FunctionLookupChain(lookup, scope, ctx.globalScope, name) : FunctionLookupChain(lookup, lookupScope);
 
-		for(SynIdentifier *part = path.head; part; part = getType<SynIdentifier>(part->next))
-		{
-			hash = NULLC::StringHashContinue(hash, part->name.begin, part->name.end);
-			hash = NULLC::StringHashContinue(hash, ".");
+				return CreateFunctionAccess(ctx, source, function, NULL);
+			}
 		}
 
-		hash = NULLC::StringHashContinue(hash, name.begin, name.end);
-
-		function = LookupFunctionChainByName(ctx, hash);
-
-		if(function)
+		if(scope->ownerType && !searchedType)
 		{
-			if(function->isInternal && !allowInternal)
-				function = FunctionLookupChain();
+			searchedType = true;
 
-			break;
+			// Try a class constant or an alias
+			if(TypeStruct *structType = getType<TypeStruct>(scope->ownerType))
+			{
+				for(ConstantData *curr = structType->constants.head; curr; curr = curr->next)
+				{
+					if(curr->name->name == name)
+						return CreateLiteralCopy(ctx, source, curr->value);
+				}
+			}
+
+			if(path.empty())
+			{
+				if(VariableData *variable = LookupVariableByName(ctx, InplaceStr("this").hash()))
+				{
+					if(ExprBase *member = CreateMemberAccess(ctx, source, CreateVariableAccess(ctx, source, variable, true), new (ctx.get<SynIdentifier>()) SynIdentifier(name), true))
+						return member;
+				}
+			}
 		}
 	}
 
-	if(function)
-		return CreateFunctionAccess(ctx, source, function, NULL);
-
 	return NULL;
 }
 
-- 
2.43.0


From 98cf01300139bf8e6675037bde8c3f6c111b351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 64/72] fix: member of an outer class used in a method of a
 local class was accessed through the wrong object

---
 NULLC/ExpressionTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 32207bf..4e9c9b8 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -4300,6 +4300,10 @@ ExprBase* CreateVariableAccess(ExpressionContext &ctx, SynBase *source, Variable
 		if(!thisAccess)
 			Stop(ctx, source, "ERROR: 'this' variable is not available");
 
+		// Member of an outer class is not available to members of a local class
+		if(thisAccess->type != ctx.GetReferenceType(variable->scope->ownerType))
+			Stop(ctx, source, "ERROR: '%.*s' is a member of class '%.*s' which is not available here", FMT_ISTR(variable->name->name), FMT_ISTR(variable->scope->ownerType->name));
+
 		// Member access only shifts an address, so we are left with a reference to get value from
 		ExprMemberAccess *shift = new (ctx.get<ExprMemberAccess>()) ExprMemberAccess(source, ctx.GetReferenceType(variable->type), thisAccess, new (ctx.get<VariableHandle>()) VariableHandle(source, variable));
 
-- 
2.43.0


From f86cd25ac003a17901aab8d646fcd8e8ff2fa102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:36 +0000
Subject: [PATCH 65/72] fix: typedef name conflicting with a variable or with a
 typedef of the same namespace was accepted

---
 NULLC/ExpressionTree.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 4e9c9b8..8efec79 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11205,13 +11205,18 @@ ExprAliasDefinition* AnalyzeTypedef(ExpressionContext &ctx, SynTypedef *syntax)
 	if(LookupTypeByName(ctx, syntax->alias->name.hash()))
 		Stop(ctx, syntax, "ERROR: there is already a type or an alias with the same name");
 
+	InplaceStr aliasName = GetTypeNameInScope(ctx, ctx.scope, syntax->alias->name);
+
+	if(LookupTypeByName(ctx, aliasName.hash()))
+		Stop(ctx, syntax, "ERROR: there is already a type or an alias with the same name");
+
+	CheckTypeConflict(ctx, syntax, aliasName);
+
 	TypeBase *type = AnalyzeType(ctx, syntax->type);
 
 	if(type == ctx.typeAuto)
 		Stop(ctx, syntax, "ERROR: can't alias 'auto' type");
 
-	InplaceStr aliasName = GetTypeNameInScope(ctx, ctx.scope, syntax->alias->name);
-
 	AliasData *alias = new (ctx.get<AliasData>()) AliasData(syntax, ctx.scope, type, new (ctx.get<SynIdentifier>()) SynIdentifier(syntax->alias, aliasName), ctx.uniqueAliasId++);
 
 	ctx.AddAlias(alias);
-- 
2.43.0


From 4f68d85c198072913488864db8533846678bb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 66/72] fix: conflicting declarations in different parts of a
 split namespace were accepted

---
 NULLC/ExpressionTree.cpp | 51 +++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 8efec79..30c7855 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -521,17 +521,18 @@ namespace
 	
 	NamespaceData* FindNamespaceInCurrentScope(ExpressionContext &ctx, InplaceStr name)
 	{
-		ArrayView<NamespaceData*> namespaces;
-
-		if(NamespaceData *ns = ctx.GetCurrentNamespace(ctx.scope))
-			namespaces = ns->children;
-		else
-			namespaces = ctx.globalNamespaces;
+		NamespaceData *parent = ctx.GetCurrentNamespace(ctx.scope);
 
-		for(unsigned i = 0; i < namespaces.size(); i++)
+		for(unsigned i = 0; i < ctx.namespaces.size(); i++)
 		{
-			if(namespaces[i]->name.name == name)
-				return namespaces[i];
+			NamespaceData *ns = ctx.namespaces[i];
+
+			// Definition of a parent namespace might be split into parts
+			if((ns->parent != NULL) != (parent != NULL) || (parent && ns->parent->fullNameHash != parent->fullNameHash))
+				continue;
+
+			if(ns->name.name == name || ns->fullNameHash == name.hash())
+				return ns;
 		}
 
 		return NULL;
@@ -796,6 +797,12 @@ namespace
 		return FunctionLookupChain();
 	}
 
+	// Contents of a namespace belong together even if the namespace definition is split into parts
+	bool IsSameScope(ScopeData *lhs, ScopeData *rhs)
+	{
+		return lhs == rhs || (lhs->ownerNamespace && rhs->ownerNamespace && lhs->ownerNamespace->fullNameHash == rhs->ownerNamespace->fullNameHash);
+	}
+
 	bool CheckVariableConflict(ExpressionContext &ctx, SynBase *source, InplaceStr name)
 	{
 		if(LookupTypeByName(ctx, name.hash()))
@@ -806,13 +813,13 @@ namespace
 
 		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, name.hash()))
 		{
-			if(lookup->variable && lookup->variable->scope == ctx.scope)
+			if(lookup->variable && IsSameScope(lookup->variable->scope, ctx.scope))
 			{
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(name));
 				return true;
 			}
 
-			if(lookup->function && lookup->function->scope == ctx.scope)
+			if(lookup->function && IsSameScope(lookup->function->scope, ctx.scope))
 			{
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a function", FMT_ISTR(name));
 				return true;
@@ -841,7 +848,7 @@ namespace
 	{
 		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, name.hash()))
 		{
-			if(lookup->variable && lookup->variable->scope == ctx.scope)
+			if(lookup->variable && IsSameScope(lookup->variable->scope, ctx.scope))
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(name));
 		}
 
@@ -854,12 +861,12 @@ namespace
 		if(LookupTypeByName(ctx, ns->fullNameHash))
 			Report(ctx, source, "ERROR: name '%.*s' is already taken for a type", FMT_ISTR(ns->name.name));
 
-		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, ns->name.name.hash()))
+		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, ns->fullNameHash))
 		{
-			if(lookup->variable && lookup->variable->scope == ctx.scope)
+			if(lookup->variable && IsSameScope(lookup->variable->scope, ctx.scope))
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(ns->name.name));
 
-			if(lookup->function && lookup->function->scope == ctx.scope)
+			if(lookup->function && IsSameScope(lookup->function->scope, ctx.scope))
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a function", FMT_ISTR(ns->name.name));
 		}
 	}
@@ -9166,7 +9173,7 @@ ExprBase* CreateFunctionDefinition(ExpressionContext &ctx, SynBase *source, bool
 
 	if(VariableData *variable = LookupVariableByName(ctx, functionName.hash()))
 	{
-		if(variable->scope == ctx.scope)
+		if(IsSameScope(variable->scope, ctx.scope))
 			Stop(ctx, errorLocation, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(name->name));
 	}
 
@@ -10738,10 +10745,10 @@ unsigned AddBaseClassMemberVariables(ExpressionContext &ctx, SynBase *syntax, Ty
 
 ExprBase* AnalyzeClassDefinition(ExpressionContext &ctx, SynClassDefinition *syntax, TypeGenericClassProto *proto, IntrusiveList<TypeHandle> generics)
 {
-	CheckTypeConflict(ctx, syntax, syntax->name->name);
-
 	InplaceStr typeName = GetTypeNameInScope(ctx, ctx.scope, syntax->name->name);
 
+	CheckTypeConflict(ctx, syntax, typeName);
+
 	TRACE_SCOPE("analyze", "AnalyzeClassDefinition");
 	TRACE_LABEL2(typeName.begin, typeName.end);
 
@@ -10928,10 +10935,10 @@ ExprBase* AnalyzeClassDefinition(ExpressionContext &ctx, SynClassDefinition *syn
 
 ExprBase* AnalyzeClassPrototype(ExpressionContext &ctx, SynClassPrototype *syntax)
 {
-	CheckTypeConflict(ctx, syntax, syntax->name->name);
-
 	InplaceStr typeName = GetTypeNameInScope(ctx, ctx.scope, syntax->name->name);
 
+	CheckTypeConflict(ctx, syntax, typeName);
+
 	if(TypeBase *type = LookupTypeByName(ctx, typeName.hash()))
 	{
 		TypeClass *originalDefinition = getType<TypeClass>(type);
@@ -11003,10 +11010,10 @@ void AnalyzeEnumConstants(ExpressionContext &ctx, TypeBase *type, IntrusiveList<
 
 ExprBase* AnalyzeEnumDefinition(ExpressionContext &ctx, SynEnumDefinition *syntax)
 {
-	CheckTypeConflict(ctx, syntax, syntax->name->name);
-
 	InplaceStr typeName = GetTypeNameInScope(ctx, ctx.scope, syntax->name->name);
 
+	CheckTypeConflict(ctx, syntax, typeName);
+
 	if(LookupTypeByName(ctx, typeName.hash()) != NULL)
 		Stop(ctx, syntax, "ERROR: '%.*s' is being redefined", FMT_ISTR(syntax->name->name));
 
-- 
2.43.0


From 172315b664d7e8a429e0457696b1f9ad7dd494de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:59 +0000
Subject: [PATCH 67/72] fix: import of namespaces nested three or more levels
 deep failed

---
 NULLC/ExpressionTree.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 30c7855..60e499b 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12325,24 +12325,13 @@ void ImportModuleNamespaces(ExpressionContext &ctx, SynBase *source, ModuleConte
 
 		unsigned nameHash = InplaceStr(symbols + namespaceData.offsetToName).hash();
 
-		NamespaceData *prev = NULL;
-
-		for(unsigned k = 0; k < ctx.namespaces.size(); k++)
-		{
-			if(ctx.namespaces[k]->nameHash == nameHash)
-			{
-				prev = ctx.namespaces[k];
-				break;
-			}
-		}
-
 		NamespaceData *parent = NULL;
 
 		if(namespaceData.parentHash != ~0u)
 		{
 			for(unsigned k = 0; k < ctx.namespaces.size(); k++)
 			{
-				if(ctx.namespaces[k]->nameHash == namespaceData.parentHash)
+				if(ctx.namespaces[k]->fullNameHash == namespaceData.parentHash)
 				{
 					parent = ctx.namespaces[k];
 					break;
@@ -12353,7 +12342,18 @@ void ImportModuleNamespaces(ExpressionContext &ctx, SynBase *source, ModuleConte
 				Stop(ctx, source, "ERROR: namespace %s parent not found", symbols + namespaceData.offsetToName);
 		}
 
-		if(prev && prev->parent == parent)
+		bool exists = false;
+
+		for(unsigned k = 0; k < ctx.namespaces.size(); k++)
+		{
+			if(ctx.namespaces[k]->nameHash == nameHash && ctx.namespaces[k]->parent == parent)
+			{
+				exists = true;
+				break;
+			}
+		}
+
+		if(exists)
 			continue;
 
 		NamespaceData *ns = new (ctx.get<NamespaceData>()) NamespaceData(ctx.allocator, source, ctx.scope, parent, SynIdentifier(InplaceStr(symbols + namespaceData.offsetToName)), ctx.uniqueNamespaceId++);
-- 
2.43.0


From 1aa54151acb41522a9c59495333f81caa76aa1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:59 +0000
Subject: [PATCH 68/72] fix: conflicts with declarations of an imported
 namespace were accepted

---
 NULLC/ExpressionTree.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 60e499b..b9b5797 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -797,10 +797,22 @@ namespace
 		return FunctionLookupChain();
 	}
 
-	// Contents of a namespace belong together even if the namespace definition is split into parts
-	bool IsSameScope(ScopeData *lhs, ScopeData *rhs)
+	// Checks that a variable or a function found by its full name is declared in the current scope
+	template<typename T>
+	bool IsInCurrentScope(ExpressionContext &ctx, T *data)
 	{
-		return lhs == rhs || (lhs->ownerNamespace && rhs->ownerNamespace && lhs->ownerNamespace->fullNameHash == rhs->ownerNamespace->fullNameHash);
+		if(data->scope == ctx.scope)
+			return true;
+
+		if(!ctx.scope->ownerNamespace)
+			return false;
+
+		// Contents of a namespace belong together even if the namespace definition is split into parts
+		if(data->scope->ownerNamespace)
+			return data->scope->ownerNamespace->fullNameHash == ctx.scope->ownerNamespace->fullNameHash;
+
+		// Namespace contents are imported into the global scope
+		return data->importModule && data->scope == ctx.globalScope;
 	}
 
 	bool CheckVariableConflict(ExpressionContext &ctx, SynBase *source, InplaceStr name)
@@ -813,13 +825,13 @@ namespace
 
 		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, name.hash()))
 		{
-			if(lookup->variable && IsSameScope(lookup->variable->scope, ctx.scope))
+			if(lookup->variable && IsInCurrentScope(ctx, lookup->variable))
 			{
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(name));
 				return true;
 			}
 
-			if(lookup->function && IsSameScope(lookup->function->scope, ctx.scope))
+			if(lookup->function && IsInCurrentScope(ctx, lookup->function))
 			{
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a function", FMT_ISTR(name));
 				return true;
@@ -848,7 +860,7 @@ namespace
 	{
 		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, name.hash()))
 		{
-			if(lookup->variable && IsSameScope(lookup->variable->scope, ctx.scope))
+			if(lookup->variable && IsInCurrentScope(ctx, lookup->variable))
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(name));
 		}
 
@@ -863,10 +875,10 @@ namespace
 
 		if(IdentifierLookupResult *lookup = LookupObjectByName(ctx, ns->fullNameHash))
 		{
-			if(lookup->variable && IsSameScope(lookup->variable->scope, ctx.scope))
+			if(lookup->variable && IsInCurrentScope(ctx, lookup->variable))
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(ns->name.name));
 
-			if(lookup->function && IsSameScope(lookup->function->scope, ctx.scope))
+			if(lookup->function && IsInCurrentScope(ctx, lookup->function))
 				Report(ctx, source, "ERROR: name '%.*s' is already taken for a function", FMT_ISTR(ns->name.name));
 		}
 	}
@@ -9173,7 +9185,7 @@ ExprBase* CreateFunctionDefinition(ExpressionContext &ctx, SynBase *source, bool
 
 	if(VariableData *variable = LookupVariableByName(ctx, functionName.hash()))
 	{
-		if(IsSameScope(variable->scope, ctx.scope))
+		if(IsInCurrentScope(ctx, variable))
 			Stop(ctx, errorLocation, "ERROR: name '%.*s' is already taken for a variable in current scope", FMT_ISTR(name->name));
 	}
 
-- 
2.43.0


From b60842ca74792a4a8f4ad031bfc01658727252fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:59 +0000
Subject: [PATCH 69/72] fix: for-each variables in a namespace did not get
 their full names

---
 NULLC/ExpressionTree.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index b9b5797..73c6b7e 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11433,10 +11433,12 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 			// Create definition
 			type = ctx.GetReferenceType(type);
 
-			CheckVariableConflict(ctx, curr, curr->name->name);
+			InplaceStr fullName = GetVariableNameInScope(ctx, ctx.scope, curr->name->name);
+
+			CheckVariableConflict(ctx, curr, fullName);
 
 			unsigned variableOffset = AllocateVariableInScope(ctx, curr, type->alignment, type);
-			VariableData *variable = new (ctx.get<VariableData>()) VariableData(ctx.allocator, curr, ctx.scope, type->alignment, type, curr->name, variableOffset, ctx.uniqueVariableId++);
+			VariableData *variable = new (ctx.get<VariableData>()) VariableData(ctx.allocator, curr, ctx.scope, type->alignment, type, new (ctx.get<SynIdentifier>()) SynIdentifier(curr->name, fullName), variableOffset, ctx.uniqueVariableId++);
 
 			variable->isReference = true;
 
@@ -11521,10 +11523,12 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 				type = functionType->returnType;
 			}
 
-			CheckVariableConflict(ctx, curr, curr->name->name);
+			InplaceStr fullName = GetVariableNameInScope(ctx, ctx.scope, curr->name->name);
+
+			CheckVariableConflict(ctx, curr, fullName);
 
 			unsigned variableOffset = AllocateVariableInScope(ctx, curr, type->alignment, type);
-			VariableData *variable = new (ctx.get<VariableData>()) VariableData(ctx.allocator, curr, ctx.scope, type->alignment, type, curr->name, variableOffset, ctx.uniqueVariableId++);
+			VariableData *variable = new (ctx.get<VariableData>()) VariableData(ctx.allocator, curr, ctx.scope, type->alignment, type, new (ctx.get<SynIdentifier>()) SynIdentifier(curr->name, fullName), variableOffset, ctx.uniqueVariableId++);
 
 			if (IsLookupOnlyVariable(ctx, variable))
 				variable->lookupOnly = true;
@@ -11574,10 +11578,12 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 			if(isType<TypeError>(type))
 				continue;
 
-			CheckVariableConflict(ctx, curr, curr->name->name);
+			InplaceStr fullName = GetVariableNameInScope(ctx, ctx.scope, curr->name->name);
+
+			CheckVariableConflict(ctx, curr, fullName);
 
 			unsigned variableOffset = AllocateVariableInScope(ctx, curr, type->alignment, type);
-			VariableData *variable = new (ctx.get<VariableData>()) VariableData(ctx.allocator, curr, ctx.scope, type->alignment, type, curr->name, variableOffset, ctx.uniqueVariableId++);
+			VariableData *variable = new (ctx.get<VariableData>()) VariableData(ctx.allocator, curr, ctx.scope, type->alignment, type, new (ctx.get<SynIdentifier>()) SynIdentifier(curr->name, fullName), variableOffset, ctx.uniqueVariableId++);
 
 			variable->isReference = isType<TypeRef>(type);
 
-- 
2.43.0


From 8975c636307690e5caa04ef693ba2c7563b9127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:59 +0000
Subject: [PATCH 70/72] fix: local functions of different modules conflicted at
 link time

---
 NULLC/Linker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index 3383c6c..b68ee19 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -630,7 +630,7 @@ bool Linker::LinkModuleCode(const char *code, const char *moduleName, bool rootM
 			{
 				ExternFuncInfo &prev = exFunctions[curr->value];
 
-				if(curr->value < oldFunctionCount && prev.funcType == remappedType && prev.explicitTypeCount == fInfo->explicitTypeCount)
+				if(curr->value < oldFunctionCount && prev.isVisible && prev.funcType == remappedType && prev.explicitTypeCount == fInfo->explicitTypeCount)
 				{
 					bool explicitTypeMatch = true;
 
-- 
2.43.0


From 62c237ac1d2499a39e7a6918bc92adbd5cf22b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:59 +0000
Subject: [PATCH 71/72] fix: declaration of a variable or function did not hide
 types of outer scopes in expressions

---
 NULLC/ExpressionTree.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 73c6b7e..7f1d94e 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -3725,6 +3725,16 @@ TypeBase* AnalyzeType(ExpressionContext &ctx, SynBase *syntax, bool onlyType = t
 				if(TypeBase *type = LookupTypeInScope(ctx, scope, node->name.hash()))
 					return type;
 			}
+
+			// Declaration of a variable or a function hides types from outer scopes
+			if(!onlyType && node->path.empty())
+			{
+				if(LookupObjectInScope(ctx, scope->ownerNamespace ? ctx.globalScope : scope, hash))
+					return NULL;
+
+				if(!scope->ownerNamespace && LookupObjectInScope(ctx, scope, node->name.hash()))
+					return NULL;
+			}
 		}
 
 		// Might be a variable
-- 
2.43.0


From 051edfae4e80d1404866a8729ec488bc42ea1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:54 +0000
Subject: [PATCH 72/72] fix: debugger breakpoints dangled after a reallocation
 and step commands stopped in the wrong calls

---
 NULLC/Executor_RegVm.cpp | 152 +++++++++++++++++++++++++--------------
 NULLC/Executor_RegVm.h   |  13 +++-
 2 files changed, 112 insertions(+), 53 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 7241bee..8c1b3ff 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -94,6 +94,9 @@ ExecutorRegVm::~ExecutorRegVm()
 
 	NULLC::dealloc(regFileArrayBase);
 
+	for(unsigned i = 0; i < breakpoints.size(); i++)
+		NULLC::dealloc(breakpoints[i]);
+
 #if !defined(NULLC_NO_RAW_EXTERNAL_CALL)
 	if(dcCallVM)
 		dcFree(dcCallVM);
@@ -321,6 +324,10 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 			assert(retType == resultType && "expected different result");
 	}
 
+	// Step commands have no effect after the end of execution
+	if(lastFinalReturn == 0)
+		ClearStepBreakpoints();
+
 	// If there was an execution error
 	if(errorState)
 	{
@@ -1291,7 +1298,12 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			return NULL;
 		}
 
-		unsigned target = cmd.argument;
+		Breakpoint *breakpoint = breakpoints[cmd.argument];
+
+		// Step command does not stop in the calls it steps over
+		if(callStack.size() > breakpoint->maxDepth)
+			return &breakpoint->code[0];
+
 		callStack.push_back(instruction + 1);
 
 		if(instruction < codeBase || instruction > exLinker->exRegVmCode.data + exLinker->exRegVmCode.size())
@@ -1303,6 +1315,10 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 		unsigned response = breakFunction(breakFunctionContext, unsigned(instruction - codeBase));
 		callStack.pop_back();
 
+		// This flag means that breakpoint works only once (callback might have already replaced it)
+		if(cmd.rB == EXEC_BREAK_ONCE && instruction->code == rviNop && instruction->argument == cmd.argument)
+			*instruction = breakpoint->code[0];
+
 		if(response == NULLC_BREAK_STOP)
 		{
 			ExecError(instruction, "ERROR: execution was stopped after breakpoint");
@@ -1314,7 +1330,10 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 		{
 			// Next instruction for step command
 			RegVmCmd *nextCommand = instruction + 1;
-			RegVmCmd& breakCmd = breakCode[target];
+			unsigned nextDepth = callStack.size();
+			RegVmCmd& breakCmd = breakpoint->code[0];
+
+			bool leave = breakCmd.code == rviReturn || response == NULLC_BREAK_STEP_OUT;
 
 			// Step command - handle unconditional jump step
 			if(breakCmd.code == rviJmp)
@@ -1325,41 +1344,43 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			// Step command - handle conditional "jump on true" step
 			if(breakCmd.code == rviJmpnz && regFilePtr[cmd.rC].intValue != 0)
 				nextCommand = codeBase + breakCmd.argument;
-			// Step command - handle "return" step
-			if(breakCmd.code == rviReturn && callStack.size() != lastFinalReturn)
-				nextCommand = callStack.back();
 
-			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCall && exFunctions[breakCmd.argument].regVmAddress != -1)
-				nextCommand = codeBase + exFunctions[breakCmd.argument].regVmAddress;
-			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCallPtr && regFilePtr[cmd.rC].intValue && exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress != -1)
-				nextCommand = codeBase + exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress;
+			unsigned callTarget = ~0u;
 
-			if(response == NULLC_BREAK_STEP_OUT && callStack.size() != lastFinalReturn)
-				nextCommand = callStack.back();
+			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCall)
+				callTarget = exFunctions[breakCmd.argument].regVmAddress;
+			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCallPtr && regFilePtr[cmd.rC].intValue)
+				callTarget = exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress;
 
-			// If the next instruction is the breakpoint pseudo-command to return to regular code, place a one time breakpoint on its target
-			if(nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
-				nextCommand = &exLinker->exRegVmCode[nextCommand->argument];
+			if(callTarget != ~0u)
+			{
+				nextCommand = codeBase + callTarget;
+				nextDepth++;
+			}
 
-			if(nextCommand->code != rviNop)
+			// There is nothing to step to if this is the last function
+			if(leave && callStack.size() != lastFinalReturn)
 			{
-				unsigned pos = breakCode.size();
-				breakCode.push_back(*nextCommand);
-				nextCommand->code = rviNop;
-				nextCommand->rB = EXEC_BREAK_ONCE;
-				nextCommand->argument = pos;
+				nextCommand = callStack.back();
+				nextDepth--;
 			}
-		}
-		// This flag means that breakpoint works only once
-		if(cmd.rB == EXEC_BREAK_ONCE)
-		{
-			*instruction = breakCode[target];
+			else if(leave)
+			{
+				nextCommand = NULL;
+			}
+
+			// If the next instruction is the breakpoint pseudo-command to return to regular code, place a one time breakpoint on its target
+			if(nextCommand && nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
+				nextCommand = &exLinker->exRegVmCode[nextCommand->argument];
 
-			return instruction;
+			if(nextCommand && nextCommand->code != rviNop)
+				PlaceBreakpoint(unsigned(nextCommand - codeBase), EXEC_BREAK_ONCE, nextDepth, true);
+			else if(nextCommand && breakpoints[nextCommand->argument]->maxDepth < nextDepth)
+				breakpoints[nextCommand->argument]->maxDepth = nextDepth;
 		}
 
 		// Jump to external code
-		return &breakCode[target];
+		return &breakpoint->code[0];
 	}
 
 	return codeBase + cmd.argument;
@@ -1805,11 +1826,10 @@ unsigned ExecutorRegVm::GetCallStackAddress(unsigned frame)
 
 	RegVmCmd *instruction = callStack[frame];
 
-	if(instruction >= breakCode.data && instruction < breakCode.data + breakCode.count)
+	for(unsigned i = 0; i < breakpoints.size(); i++)
 	{
-		assert(instruction->code == rviNop);
-
-		return instruction->argument;
+		if(instruction == &breakpoints[i]->code[1])
+			return instruction->argument;
 	}
 
 	return unsigned(instruction - codeBase);
@@ -1839,9 +1859,53 @@ void ExecutorRegVm::ClearBreakpoints()
 		// nop instruction is used for breaks
 		// break structure: cmdOriginal, cmdNop
 		if(exLinker->exRegVmCode[i].code == rviNop)
-			exLinker->exRegVmCode[i] = breakCode[exLinker->exRegVmCode[i].argument];	// replace it with original instruction
+			exLinker->exRegVmCode[i] = breakpoints[exLinker->exRegVmCode[i].argument]->code[0];	// replace it with original instruction
+	}
+
+	// Call stack might still contain return addresses from the breakpoints
+	if(callStack.size() != 0)
+		return;
+
+	for(unsigned i = 0; i < breakpoints.size(); i++)
+		NULLC::dealloc(breakpoints[i]);
+
+	breakpoints.clear();
+}
+
+void ExecutorRegVm::PlaceBreakpoint(unsigned instruction, unsigned mode, unsigned maxDepth, bool step)
+{
+	RegVmCmd &cmd = exLinker->exRegVmCode[instruction];
+
+	Breakpoint *breakpoint = (Breakpoint*)NULLC::alloc(sizeof(Breakpoint));
+
+	breakpoint->code[0] = cmd;
+	breakpoint->code[1] = RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1);
+	breakpoint->maxDepth = maxDepth;
+	breakpoint->step = step;
+
+	cmd.code = rviNop;
+	cmd.rB = (unsigned char)mode;
+	cmd.argument = breakpoints.size();
+
+	breakpoints.push_back(breakpoint);
+}
+
+void ExecutorRegVm::ClearStepBreakpoints()
+{
+	for(unsigned i = 0; i < breakpoints.size(); i++)
+	{
+		Breakpoint *breakpoint = breakpoints[i];
+
+		if(!breakpoint->step)
+			continue;
+
+		RegVmCmd &cmd = exLinker->exRegVmCode[breakpoint->code[1].argument - 1];
+
+		if(cmd.code == rviNop && cmd.argument == i)
+			cmd = breakpoint->code[0];
+
+		breakpoint->step = false;
 	}
-	breakCode.clear();
 }
 
 bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
@@ -1853,8 +1917,6 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	unsigned pos = breakCode.size();
-
 	if(exLinker->exRegVmCode[instruction].code == rviNop)
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: cannot set breakpoint on breakpoint");
@@ -1862,28 +1924,14 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	if(oneHit)
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_ONCE;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
-	else
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		breakCode.push_back(RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1));
+	PlaceBreakpoint(instruction, oneHit ? EXEC_BREAK_ONCE : EXEC_BREAK_SIGNAL, ~0u, false);
 
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_SIGNAL;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
 	return true;
 }
 
 bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 {
-	if(instruction > exLinker->exRegVmCode.size())
+	if(instruction >= exLinker->exRegVmCode.size())
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: break position out of code range");
 		execErrorMessage = execErrorBuffer;
@@ -1897,7 +1945,7 @@ bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 		return false;
 	}
 
-	exLinker->exRegVmCode[instruction] = breakCode[exLinker->exRegVmCode[instruction].argument];
+	exLinker->exRegVmCode[instruction] = breakpoints[exLinker->exRegVmCode[instruction].argument]->code[0];
 	return true;
 }
 
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 1f513cb..7441a23 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -99,12 +99,23 @@ private:
 	void *breakFunctionContext;
 	unsigned (*breakFunction)(void*, unsigned);
 
-	FastVector<RegVmCmd>	breakCode;
+	// Breakpoints are executed in place and must not move when more of them are added
+	struct Breakpoint
+	{
+		RegVmCmd code[2]; // Original command followed by a return to regular code
+		unsigned maxDepth; // Breakpoint is ignored by the calls that are deeper than this
+		bool step; // Breakpoint was placed by a step command
+	};
+
+	FastVector<Breakpoint*>	breakpoints;
 
 	static RegVmReturnType RunCode(RegVmCmd *instruction, RegVmRegister * const regFilePtr, ExecutorRegVm *rvm, RegVmCmd *codeBase);
 
 	bool RunExternalFunction(unsigned funcID, unsigned *callStorage);
 
+	void PlaceBreakpoint(unsigned instruction, unsigned mode, unsigned maxDepth, bool step);
+	void ClearStepBreakpoints();
+
 	RegVmCmd* ExecNop(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	bool ExecCall(unsigned microcodePos, unsigned functionId, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	RegVmReturnType ExecReturn(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
-- 
2.43.0

