From cefe9bad6f31a9fb472712924b3d4a7297a0d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 01/62] fix: stop on INT_MIN / -1 in integer division instead
 of raising a host trap

---
 NULLC/Executor_RegVm.cpp          | 18 ++++++++++++++
 NULLC/ExpressionEval.cpp          | 13 ++++++++++
 NULLC/InstructionTreeVm.cpp       |  8 +++----
 NULLC/InstructionTreeVmCommon.cpp | 12 ++++++++++
 NULLC/InstructionTreeVmCommon.h   |  3 +++
 NULLC/InstructionTreeVmEval.cpp   | 40 +++++++++++++++++++++++++++++++
 6 files changed, 90 insertions(+), 4 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index bfef0da..ba6f391 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -8,6 +8,8 @@
 #include "StdLib.h"
 #include "StrAlgo.h"
 
+#include <limits.h>
+
 #if defined(_MSC_VER)
 #pragma warning(disable: 4702) // unreachable code
 #endif
@@ -841,6 +843,10 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			// Quotient of the minimum value and -1 is not representable, report it the same way as the hardware trap does
+			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].intValue == INT_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division by zero");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue / *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -858,6 +864,10 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			// Quotient of the minimum value and -1 is not representable, report it the same way as the hardware trap does
+			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].intValue == INT_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division by zero");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue % *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -970,6 +980,10 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			// Quotient of the minimum value and -1 is not representable, report it the same way as the hardware trap does
+			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division by zero");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue / *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -987,6 +1001,10 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			// Quotient of the minimum value and -1 is not representable, report it the same way as the hardware trap does
+			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division by zero");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index aa1f38c..f5e4ec6 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1,6 +1,7 @@
 #include "ExpressionEval.h"
 
 #include <math.h>
+#include <limits.h>
 
 #include "ExpressionTree.h"
 
@@ -673,11 +674,17 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
+					if(rhsValueInt == -1 && lhsValueInt == INT_MIN)
+						return ReportCritical(ctx, "ERROR: division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
 				case SYN_BINARY_OP_MOD:
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
+					if(rhsValueInt == -1 && lhsValueInt == INT_MIN)
+						return ReportCritical(ctx, "ERROR: modulus division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
 				case SYN_BINARY_OP_POW:
 					if(rhsValueInt < 0)
@@ -749,11 +756,17 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
+					if(rhsValue == -1 && lhsValue == LLONG_MIN)
+						return ReportCritical(ctx, "ERROR: division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
 				case SYN_BINARY_OP_MOD:
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
+					if(rhsValue == -1 && lhsValue == LLONG_MIN)
+						return ReportCritical(ctx, "ERROR: modulus division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
 				case SYN_BINARY_OP_POW:
 					if(rhsValue < 0)
diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 59e3cbd..10dec55 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4700,20 +4700,20 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 		case VM_INST_DIV:
 			if(!IsConstantZero(consts[1]))
 			{
-				if(inst->type == VmType::Int)
+				if(inst->type == VmType::Int && IsDivisionDefined(consts[0]->iValue, consts[1]->iValue))
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue / consts[1]->iValue), &module->constantPropagations);
 				else if(inst->type == VmType::Double)
 					ReplaceValueUsersWith(module, inst, CreateConstantDouble(module->allocator, inst->source, consts[0]->dValue / consts[1]->dValue), &module->constantPropagations);
-				else if(inst->type == VmType::Long)
+				else if(inst->type == VmType::Long && IsDivisionDefined(consts[0]->lValue, consts[1]->lValue))
 					ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue / consts[1]->lValue), &module->constantPropagations);
 			}
 			break;
 		case VM_INST_MOD:
 			if(!IsConstantZero(consts[1]))
 			{
-				if(inst->type == VmType::Int)
+				if(inst->type == VmType::Int && IsDivisionDefined(consts[0]->iValue, consts[1]->iValue))
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue % consts[1]->iValue), &module->constantPropagations);
-				else if(inst->type == VmType::Long)
+				else if(inst->type == VmType::Long && IsDivisionDefined(consts[0]->lValue, consts[1]->lValue))
 					ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue % consts[1]->lValue), &module->constantPropagations);
 			}
 			break;
diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index 005f06f..fe0ac94 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeVmCommon.h"
 
+#include <limits.h>
+
 #include "TypeTree.h"
 #include "InstructionTreeVm.h"
 #include "ExpressionTree.h"
@@ -204,6 +206,16 @@ bool IsConstantOne(VmValue* value)
 	return DoesConstantMatchEither(value, 1, 1.0, 1ll);
 }
 
+bool IsDivisionDefined(int lhs, int rhs)
+{
+	return rhs != 0 && !(rhs == -1 && lhs == INT_MIN);
+}
+
+bool IsDivisionDefined(long long lhs, long long rhs)
+{
+	return rhs != 0 && !(rhs == -1 && lhs == LLONG_MIN);
+}
+
 unsigned GetAccessSize(VmInstruction *inst)
 {
 	switch(inst->cmd)
diff --git a/NULLC/InstructionTreeVmCommon.h b/NULLC/InstructionTreeVmCommon.h
index 092aecf..74db968 100644
--- a/NULLC/InstructionTreeVmCommon.h
+++ b/NULLC/InstructionTreeVmCommon.h
@@ -38,6 +38,9 @@ bool DoesConstantMatchEither(VmValue* value, int iValue, double dValue, long lon
 bool IsConstantZero(VmValue* value);
 bool IsConstantOne(VmValue* value);
 
+bool IsDivisionDefined(int lhs, int rhs);
+bool IsDivisionDefined(long long lhs, long long rhs);
+
 unsigned GetAccessSize(VmInstruction *inst);
 
 bool HasAddressTaken(VariableData *container);
diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 1770a2e..8eda1e0 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -992,11 +992,21 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 		if(arguments[0]->type == VmType::Int)
+		{
+			if(!IsDivisionDefined(arguments[0]->iValue, arguments[1]->iValue))
+				return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / arguments[1]->iValue);
+		}
 		else if(arguments[0]->type == VmType::Double)
 			return CreateConstantDouble(ctx.allocator, NULL, arguments[0]->dValue / arguments[1]->dValue);
 		else if(arguments[0]->type == VmType::Long)
+		{
+			if(!IsDivisionDefined(arguments[0]->lValue, arguments[1]->lValue))
+				return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 			return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue / arguments[1]->lValue);
+		}
 
 		break;
 	case VM_INST_POW:
@@ -1017,11 +1027,21 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 		if(arguments[0]->type == VmType::Int)
+		{
+			if(!IsDivisionDefined(arguments[0]->iValue, arguments[1]->iValue))
+				return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % arguments[1]->iValue);
+		}
 		else if(arguments[0]->type == VmType::Double)
 			return CreateConstantDouble(ctx.allocator, NULL, fmod(arguments[0]->dValue, arguments[1]->dValue));
 		else if(arguments[0]->type == VmType::Long)
+		{
+			if(!IsDivisionDefined(arguments[0]->lValue, arguments[1]->lValue))
+				return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 			return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue % arguments[1]->lValue);
+		}
 
 		break;
 	case VM_INST_LESS:
@@ -1221,11 +1241,21 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 			if(arguments[0]->type == VmType::Int)
+			{
+				if(!IsDivisionDefined(arguments[0]->iValue, rhs->iValue))
+					return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / rhs->iValue);
+			}
 			else if(arguments[0]->type == VmType::Double)
 				return CreateConstantDouble(ctx.allocator, NULL, arguments[0]->dValue / rhs->dValue);
 			else if(arguments[0]->type == VmType::Long)
+			{
+				if(!IsDivisionDefined(arguments[0]->lValue, rhs->lValue))
+					return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 				return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue / rhs->lValue);
+			}
 		}
 		else
 		{
@@ -1259,11 +1289,21 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 			if(arguments[0]->type == VmType::Int)
+			{
+				if(!IsDivisionDefined(arguments[0]->iValue, rhs->iValue))
+					return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % rhs->iValue);
+			}
 			else if(arguments[0]->type == VmType::Double)
 				return CreateConstantDouble(ctx.allocator, NULL, fmod(arguments[0]->dValue, rhs->dValue));
 			else if(arguments[0]->type == VmType::Long)
+			{
+				if(!IsDivisionDefined(arguments[0]->lValue, rhs->lValue))
+					return (VmConstant*)Report(ctx, "ERROR: division overflow");
+
 				return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue % rhs->lValue);
+			}
 		}
 		else
 		{
-- 
2.43.0


From c0130987b58eee82a575ea052b9a2b72bd2b9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 02/62] fix: check for null pointer in rviSetRange of the
 register VM

---
 NULLC/Executor_RegVm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index ba6f391..ad3d272 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -716,6 +716,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			instruction++;
 			BREAK;
 		CASE(rviSetRange)
+			if((uintptr_t)regFilePtr[cmd.rC].ptrValue < 0x00010000)
+				return rvm->ExecError(instruction, "ERROR: null pointer access");
+
 			switch(RegVmSetRangeType(cmd.rB))
 			{
 			case rvsrDouble:
-- 
2.43.0


From 547bff98293cc6008b5ad1a801361965557aa758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 03/62] fix: compare all 64 bits in JIT logical not of a long

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 3d4f502..9a86cac 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -4300,7 +4300,7 @@ void GenCodeCmdLogNotl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	EMIT_OP_REG_REG(ctx.ctx, o_xor64, rRCX, rRCX);
-	EMIT_OP_REG_REG(ctx.ctx, o_cmp, rRAX, rRCX);
+	EMIT_OP_REG_REG(ctx.ctx, o_cmp64, rRAX, rRCX);
 	EMIT_OP_REG(ctx.ctx, o_sete, rECX);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rECX); // Store int to target
-- 
2.43.0


From c5dcd8cf839bb8040a583cebe82b4f68518c18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 04/62] fix: check for null pointers and failed allocations in
 the base module natives

---
 NULLC/StdLib.cpp | 89 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 86 insertions(+), 3 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4534252..2d18d91 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -855,15 +855,22 @@ void NULLC::Assert(int val)
 void NULLC::Assert2(int val, NULLCArray message)
 {
 	if(!val)
-		nullcThrowError("%.*s", message.len, message.ptr);
+		nullcThrowError("%.*s", message.ptr ? message.len : 0, message.ptr ? message.ptr : "");
 }
 
 NULLCRef NULLC::CopyObject(NULLCRef ptr)
 {
-	NULLCRef ret;
+	NULLCRef ret = { 0, 0 };
+	if(!ptr.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	ret.typeID = ptr.typeID;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
+	if(!ret.ptr)
+		return ret;
 	memcpy(ret.ptr, ptr.ptr, objSize);
 	return ret;
 }
@@ -879,7 +886,7 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 	dst->len = src.len;
 	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
 
-	if(src.len)
+	if(dst->ptr && src.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
 }
 
@@ -890,6 +897,11 @@ NULLCRef NULLC::ReplaceObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: cannot convert from %s ref to %s ref", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return l;
 	}
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return l;
+	}
 	memcpy(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
 	return l;
 }
@@ -901,11 +913,18 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	unsigned size = linker->exTypes[l.typeID].size;
 
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
 	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, l.typeID);
+	if(!tmp)
+		return;
 	memcpy(tmp, l.ptr, size);
 	memcpy(l.ptr, r.ptr, size);
 	memcpy(r.ptr, tmp, size);
@@ -918,6 +937,11 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return 0;
 	}
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	return 0 == memcmp(l.ptr, r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -928,6 +952,11 @@ void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	memcpy(l.ptr, &r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -968,6 +997,12 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 
 NULLCArray NULLC::StrConcatenateAndSet(NULLCArray *a, NULLCArray b)
 {
+	NULLCArray ret = { 0, 0 };
+	if(!a)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	return *a = StrConcatenate(*a, b);
 }
 
@@ -1043,6 +1078,8 @@ NULLCArray NULLC::ShortToStr(short* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1079,6 +1116,8 @@ NULLCArray NULLC::IntToStr(int* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1128,6 +1167,8 @@ NULLCArray NULLC::LongToStr(long long* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1154,6 +1195,8 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
@@ -1175,6 +1218,8 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
@@ -1249,7 +1294,15 @@ NULLC::TypeIDHelper NULLC::Typeid(NULLCRef r)
 	TypeIDHelper help;
 
 	if(linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+	{
+		if(!r.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			help.id = 0;
+			return help;
+		}
 		help.id = *(int*)r.ptr;
+	}
 	else
 		help.id = r.typeID;
 
@@ -1342,6 +1395,11 @@ NULLCAutoArray* NULLC::AutoArrayAssign(NULLCAutoArray* left, NULLCRef right)
 		nullcThrowError("ERROR: null pointer access");
 		return 0;
 	}
+	if(!right.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	if(right.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*left = *(NULLCAutoArray*)right.ptr;
@@ -1376,6 +1434,11 @@ NULLCRef NULLC::AutoArrayAssignRev(NULLCRef left, NULLCAutoArray *right)
 		nullcThrowError("ERROR: null pointer access");
 		return ret;
 	}
+	if(!left.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	if(left.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*(NULLCAutoArray*)left.ptr = *right;
@@ -1461,6 +1524,11 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 		return;
 	}
 
+	if(!x.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	unsigned elemSize = linker->exTypes[arr->typeID].size;
 	if(pos >= arr->len)
 	{
@@ -1499,6 +1567,11 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 		nullcThrowError("Argument is not a function");
 		return 0;
 	}
+	if(!f.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
 	{
@@ -1506,6 +1579,11 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 		return 0;
 	}
 
+	if(!fPtr->context)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	unsigned jmpOffset = *(unsigned*)fPtr->context;
 	return jmpOffset == 0;
 }
@@ -1514,6 +1592,11 @@ void NULLC::AssertCoroutine(NULLCRef f)
 {
 	if(linker->exTypes[f.typeID].subCat != ExternTypeInfo::CAT_FUNCTION)
 		nullcThrowError("Argument is not a function");
+	if(!f.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
-- 
2.43.0


From d80f208d6153bd8e53d8f46e5db50f16910bbfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 05/62] fix: grow an auto[] to include the element being set

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 2d18d91..c8f505d 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1534,7 +1534,7 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 	{
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
-			newSize = pos;
+			newSize = pos + 1;
 		NULLCAutoArray n;
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
-- 
2.43.0


From 453dbdc03b000b600e8347cc9cf4a5d660db580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 06/62] fix: return after reporting an invalid argument in
 AssertCoroutine and IsDerivedFrom

---
 NULLC/StdLib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index c8f505d..50f0b87 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1591,7 +1591,10 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 void NULLC::AssertCoroutine(NULLCRef f)
 {
 	if(linker->exTypes[f.typeID].subCat != ExternTypeInfo::CAT_FUNCTION)
+	{
 		nullcThrowError("Argument is not a function");
+		return;
+	}
 	if(!f.ptr)
 	{
 		nullcThrowError("ERROR: null pointer access");
@@ -1636,7 +1639,10 @@ void NULLC::ArrayCopy(NULLCAutoArray dst, NULLCAutoArray src)
 bool NULLC::IsDerivedFrom(NULLCRef derived, unsigned base)
 {
 	if((linker->exTypes[base].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE) == 0)
+	{
 		nullcThrowError("ERROR: type '%s' is not extendable", nullcGetTypeName(base));
+		return false;
+	}
 
 	unsigned typeId = derived.typeID;
 
-- 
2.43.0


From 5b9a349e96986bedfa8e807d6583bf9e98108cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 07/62] fix: check for null pointers in std.math vector
 functions

---
 NULLC/includes/math.cpp | 42 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/NULLC/includes/math.cpp b/NULLC/includes/math.cpp
index 7afe700..653f510 100644
--- a/NULLC/includes/math.cpp
+++ b/NULLC/includes/math.cpp
@@ -147,10 +147,22 @@ namespace NULLCMath
 
 	float length2(float4* v)
 	{
+		if(!v)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		return sqrtf(v->x * v->x + v->y * v->y);
 	}
 	float normalize2(float4* v)
 	{
+		if(!v)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		float len = length2(v), invLen = 1.0f / len;
 		v->x *= invLen;
 		v->y *= invLen;
@@ -159,10 +171,22 @@ namespace NULLCMath
 
 	float length3(float4* v)
 	{
+		if(!v)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		return sqrtf(v->x * v->x + v->y * v->y + v->z * v->z);
 	}
 	float normalize3(float4* v)
 	{
+		if(!v)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		float len = length3(v), invLen = 1.0f / len;
 		v->x *= invLen;
 		v->y *= invLen;
@@ -172,14 +196,32 @@ namespace NULLCMath
 
 	float dot2(float2 *a, float2 *b)
 	{
+		if(!a || !b)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		return a->x*b->x + a->y*b->y;
 	}
 	float dot3(float3 *a, float3 *b)
 	{
+		if(!a || !b)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		return a->x*b->x + a->y*b->y + a->z*b->z;
 	}
 	float dot4(float4 *a, float4 *b)
 	{
+		if(!a || !b)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0.0f;
+		}
+
 		return a->x*b->x + a->y*b->y + a->z*b->z + a->w*b->w;
 	}
 }
-- 
2.43.0


From 4141fefd885b55d00ca36e2029fd235c27b01b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 08/62] fix: check for null pointers and iteration end in
 old.vector

---
 NULLC/includes/vector.cpp | 98 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 96 insertions(+), 2 deletions(-)

diff --git a/NULLC/includes/vector.cpp b/NULLC/includes/vector.cpp
index 11b5bab..04dc415 100644
--- a/NULLC/includes/vector.cpp
+++ b/NULLC/includes/vector.cpp
@@ -27,6 +27,12 @@ namespace NULLCVector
 
 	void ConstructVector(vector* vec, unsigned int type, int reserved)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		vec->elemType = type;
 		vec->flags = nullcIsPointer(type);
 		vec->size = 0;
@@ -46,6 +52,12 @@ namespace NULLCVector
 
 	void VectorPushBack(NULLCRef val, vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		// Check that we received type that is equal to array element type
 		if(val.typeID != (vec->flags ? nullcGetSubType(vec->elemType) : vec->elemType))
 		{
@@ -69,12 +81,23 @@ namespace NULLCVector
 			vec->data.ptr = newData.ptr;
 			vec->data.len = newData.len;
 		}
+		if(!vec->flags && !val.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
 		memcpy(vec->data.ptr + vec->elemSize * vec->size, vec->flags ? (char*)&val.ptr : val.ptr, vec->elemSize);
 		vec->size++;
 	}
 
 	void VectorPopBack(vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!vec->size)
 		{
 			nullcThrowError("vector::pop_back called on an empty vector");
@@ -86,6 +109,12 @@ namespace NULLCVector
 	NULLCRef VectorFront(vector* vec)
 	{
 		NULLCRef ret = { 0, 0 };
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return ret;
+		}
+
 		if(!vec->size)
 		{
 			nullcThrowError("vector::front called on an empty vector");
@@ -99,6 +128,12 @@ namespace NULLCVector
 	NULLCRef VectorBack(vector* vec)
 	{
 		NULLCRef ret = { 0, 0 };
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return ret;
+		}
+
 		if(!vec->size)
 		{
 			nullcThrowError("vector::back called on an empty vector");
@@ -112,6 +147,12 @@ namespace NULLCVector
 	NULLCRef VectorIndex(vector* vec, unsigned int index)
 	{
 		NULLCRef ret = { 0, 0 };
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return ret;
+		}
+
 		if(index >= vec->size)
 		{
 			nullcThrowError("operator[] array index out of bounds");
@@ -124,6 +165,12 @@ namespace NULLCVector
 
 	void VectorReserve(unsigned int size, vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		// If not enough space
 		if(size > vec->data.len)
 		{
@@ -133,7 +180,8 @@ namespace NULLCVector
 			if(!newData.ptr)
 				return;
 
-			memcpy(newData.ptr, vec->data.ptr, unsigned(vec->elemSize * vec->data.len));
+			if(vec->data.len)
+				memcpy(newData.ptr, vec->data.ptr, unsigned(vec->elemSize * vec->data.len));
 
 			vec->data.ptr = newData.ptr;
 			vec->data.len = newData.len;
@@ -143,16 +191,32 @@ namespace NULLCVector
 	void VectorResize(unsigned int size, vector* vec)
 	{
 		VectorReserve(size, vec);
+
+		if(!vec || size > vec->data.len)
+			return;
+
 		vec->size = size;
 	}
 
 	void VectorClear(vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		vec->size = 0;
 	}
 
 	void VectorDestroy(vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		vec->size = 0;
 		vec->data.len = 0;
 		vec->data.ptr = 0;
@@ -160,17 +224,41 @@ namespace NULLCVector
 
 	int VectorSize(vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return vec->size;
 	}
 
 	int VectorCapacity(vector* vec)
 	{
+		if(!vec)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return vec->data.len;
 	}
 
 	NULLCRef VectorNext(vector_iterator* iter)
 	{
-		NULLCRef ret;
+		NULLCRef ret = { 0, 0 };
+		if(!iter || !iter->arr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return ret;
+		}
+
+		if(iter->pos >= iter->arr->size)
+		{
+			nullcThrowError("vector_iterator::next called at the end of a vector");
+			return ret;
+		}
+
 		ret.typeID = (iter->arr->flags ? nullcGetSubType(iter->arr->elemType) : iter->arr->elemType);
 		ret.ptr =  iter->arr->flags ? ((char**)iter->arr->data.ptr)[iter->pos] : iter->arr->data.ptr + iter->arr->elemSize * iter->pos;
 		iter->pos++;
@@ -178,6 +266,12 @@ namespace NULLCVector
 	}
 	int VectorHasNext(vector_iterator* iter)
 	{
+		if(!iter)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return iter->arr && iter->pos < iter->arr->size;
 	}
 
-- 
2.43.0


From 6fdee450a25bc8f2ac4c2006d58b19a525f66427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 09/62] fix: check for null pointers and failed allocation in
 std.error

---
 NULLC/includes/error.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NULLC/includes/error.cpp b/NULLC/includes/error.cpp
index e175dfe..189410f 100644
--- a/NULLC/includes/error.cpp
+++ b/NULLC/includes/error.cpp
@@ -8,7 +8,7 @@ namespace NULLCError
 {
 	void throw_0(NULLCArray message)
 	{
-		nullcThrowError("%.*s", message.len, message.ptr);
+		nullcThrowError("%.*s", message.ptr ? message.len : 0, message.ptr ? message.ptr : "");
 	}
 
 	void throw_1(NULLCRef exception)
@@ -48,10 +48,12 @@ namespace NULLCError
 				unsigned rawLength = unsigned(strlen(rawMessage));
 
 				*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawLength + 1);
-				strcpy(message->ptr, rawMessage);
+				if(message->ptr)
+					strcpy(message->ptr, rawMessage);
 			}
 
-			*exception = nullcGetLastErrorObject();
+			if(exception)
+				*exception = nullcGetLastErrorObject();
 
 			nullcClearError();
 			return false;
-- 
2.43.0


From 0ae6b028fb7fe9c875fbedacf840d786b9c9db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 10/62] fix: check for null pointers in std.dynamic

---
 NULLC/includes/dynamic.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/includes/dynamic.cpp b/NULLC/includes/dynamic.cpp
index 0054747..40d83aa 100644
--- a/NULLC/includes/dynamic.cpp
+++ b/NULLC/includes/dynamic.cpp
@@ -29,6 +29,12 @@ namespace NULLCDynamic
 			return;
 		}
 
+		if(!dest.ptr || !src.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		nullcRedirectFunction(((NULLCFuncPtr*)dest.ptr)->id, ((NULLCFuncPtr*)src.ptr)->id);
 	}
 
@@ -43,6 +49,12 @@ namespace NULLCDynamic
 			return;
 		}
 
+		if(!dest.ptr || !code.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		char tmp[2048];
 		char *it = tmp;
 		ExternMemberInfo *memberList = &linker->exTypeExtra[linker->exTypes[dest.typeID].memberOffset];
-- 
2.43.0


From 39b84c087d78cefef12aaa251f393794bc627093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 11/62] fix: check for a null destination in std.file reads

---
 NULLC/includes/file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NULLC/includes/file.cpp b/NULLC/includes/file.cpp
index 7890586..be15312 100644
--- a/NULLC/includes/file.cpp
+++ b/NULLC/includes/file.cpp
@@ -160,6 +160,12 @@ namespace NULLCFile
 			return 0;
 		}
 
+		if(!data)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return 1 == fread(data, sizeof(T), 1, file->handle);
 	}
 
-- 
2.43.0


From bae456db5c327b53f95dfa1e21bf43c3c040215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 12/62] fix: check for null pointers in std.typeinfo

---
 NULLC/includes/typeinfo.cpp | 81 +++++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/NULLC/includes/typeinfo.cpp b/NULLC/includes/typeinfo.cpp
index b770bb2..1798969 100644
--- a/NULLC/includes/typeinfo.cpp
+++ b/NULLC/includes/typeinfo.cpp
@@ -15,6 +15,12 @@ namespace NULLCTypeInfo
 	int MemberCount(int* type)
 	{
 		assert(linker);
+		if(!type)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		ExternTypeInfo &exType = linker->exTypes[*type];
 		if(exType.subCat != ExternTypeInfo::CAT_CLASS)
 		{
@@ -26,6 +32,12 @@ namespace NULLCTypeInfo
 	TypeID MemberType(int member, int* type)
 	{
 		assert(linker);
+		if(!type)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return getTypeID(0);
+		}
+
 		ExternTypeInfo &exType = linker->exTypes[*type];
 		if(exType.subCat != ExternTypeInfo::CAT_CLASS)
 		{
@@ -43,6 +55,12 @@ namespace NULLCTypeInfo
 	NULLCArray MemberName(int member, int* type)
 	{
 		assert(linker);
+		if(!type)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 
 		ExternTypeInfo &exType = linker->exTypes[*type];
@@ -88,6 +106,12 @@ namespace NULLCTypeInfo
 	NULLCRef MemberByName(NULLCRef obj, NULLCArray member)
 	{
 		assert(linker);
+		if(!member.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCRef();
+		}
+
 		ExternTypeInfo &exType = linker->exTypes[obj.typeID];
 		if(exType.subCat != ExternTypeInfo::CAT_CLASS)
 			return NULLCRef();
@@ -105,6 +129,11 @@ namespace NULLCTypeInfo
 	NULLCRef GetPointerTarget(NULLCRef obj)
 	{
 		assert(linker);
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCRef();
+		}
 
 		ExternTypeInfo &type = linker->exTypes[obj.typeID];
 
@@ -185,6 +214,12 @@ namespace NULLCTypeInfo
 	NULLCArray TypeName(int* type)
 	{
 		assert(linker);
+		if(!type)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		FastVector<ExternTypeInfo> &exTypes = linker->exTypes;
 		char *symbols = &linker->exSymbols[0];
@@ -197,6 +232,12 @@ namespace NULLCTypeInfo
 	TypeID TypeSubType(int* typeID)
 	{
 		assert(linker);
+		if(!typeID)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return getTypeID(0);
+		}
+
 		ExternTypeInfo &type = linker->exTypes[*typeID];
 		if(type.subCat != ExternTypeInfo::CAT_ARRAY && type.subCat != ExternTypeInfo::CAT_POINTER)
 		{
@@ -209,6 +250,12 @@ namespace NULLCTypeInfo
 	int TypeArraySize(int* typeID)
 	{
 		assert(linker);
+		if(!typeID)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return -1;
+		}
+
 		ExternTypeInfo &type = linker->exTypes[*typeID];
 		if(type.subCat != ExternTypeInfo::CAT_ARRAY)
 		{
@@ -221,6 +268,12 @@ namespace NULLCTypeInfo
 	TypeID TypeReturnType(int* typeID)
 	{
 		assert(linker);
+		if(!typeID)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return getTypeID(0);
+		}
+
 		ExternTypeInfo &type = linker->exTypes[*typeID];
 		if(type.subCat != ExternTypeInfo::CAT_FUNCTION)
 		{
@@ -234,6 +287,12 @@ namespace NULLCTypeInfo
 	int TypeArgumentCount(int* typeID)
 	{
 		assert(linker);
+		if(!typeID)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return -1;
+		}
+
 		ExternTypeInfo &type = linker->exTypes[*typeID];
 		if(type.subCat != ExternTypeInfo::CAT_FUNCTION)
 		{
@@ -246,6 +305,12 @@ namespace NULLCTypeInfo
 	TypeID TypeArgumentType(int argument, int* typeID)
 	{
 		assert(linker);
+		if(!typeID)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return getTypeID(0);
+		}
+
 		ExternTypeInfo &type = linker->exTypes[*typeID];
 		if(type.subCat != ExternTypeInfo::CAT_FUNCTION)
 		{
@@ -331,6 +396,11 @@ namespace NULLCTypeInfo
 	TypeID GetFunctionContextType(NULLCRef obj)
 	{
 		assert(linker);
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return getTypeID(0);
+		}
 
 		ExternTypeInfo &type = linker->exTypes[obj.typeID];
 
@@ -347,6 +417,12 @@ namespace NULLCTypeInfo
 	NULLCRef GetFunctionContext(NULLCRef obj)
 	{
 		assert(linker);
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCRef();
+		}
+
 		NULLCRef ret;
 
 		ExternTypeInfo &type = linker->exTypes[obj.typeID];
@@ -377,6 +453,11 @@ namespace NULLCTypeInfo
 	void SetFunctionContext(NULLCRef obj, NULLCRef context)
 	{
 		assert(linker);
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
 
 		ExternTypeInfo &objectType = linker->exTypes[obj.typeID];
 
-- 
2.43.0


From 4c29cc4c0df7659f190beefdc2fd83e7a02f402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 13/62] fix: check for null pointers and failed allocations in
 std.memory

---
 NULLC/includes/memory.cpp | 63 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/NULLC/includes/memory.cpp b/NULLC/includes/memory.cpp
index 6d8e886..aba0929 100644
--- a/NULLC/includes/memory.cpp
+++ b/NULLC/includes/memory.cpp
@@ -128,6 +128,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_BOOL, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(bool) * elements);
 		return result;
 	}
@@ -141,6 +144,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(char) * elements);
 		return result;
 	}
@@ -154,6 +160,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_SHORT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(short) * elements);
 		return result;
 	}
@@ -167,6 +176,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_INT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(int) * elements);
 		return result;
 	}
@@ -180,6 +192,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_LONG, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(long long) * elements);
 		return result;
 	}
@@ -193,6 +208,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_FLOAT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(float) * elements);
 		return result;
 	}
@@ -206,12 +224,21 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_DOUBLE, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(double) * elements);
 		return result;
 	}
 
 	void read_into_bool(NULLCArray buffer, int offset, bool* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 0, 1))
 			return;
 
@@ -220,6 +247,12 @@ namespace NULLCMemory
 
 	void read_into_char(NULLCArray buffer, int offset, char* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 0, 1))
 			return;
 
@@ -228,6 +261,12 @@ namespace NULLCMemory
 
 	void read_into_short(NULLCArray buffer, int offset, short* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 1, 1))
 			return;
 
@@ -236,6 +275,12 @@ namespace NULLCMemory
 
 	void read_into_int(NULLCArray buffer, int offset, int* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 2, 1))
 			return;
 
@@ -244,6 +289,12 @@ namespace NULLCMemory
 
 	void read_into_long(NULLCArray buffer, int offset, long long* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 3, 1))
 			return;
 
@@ -252,6 +303,12 @@ namespace NULLCMemory
 
 	void read_into_float(NULLCArray buffer, int offset, float* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 2, 1))
 			return;
 
@@ -260,6 +317,12 @@ namespace NULLCMemory
 
 	void read_into_double(NULLCArray buffer, int offset, double* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 3, 1))
 			return;
 
-- 
2.43.0


From e387e4f9e7c5421aa8b1c2b5dc2d3dea282e96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 14/62] fix: check for a failed allocation in the execution
 result object

---
 NULLC/Executor_Common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index a193582..281200d 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -1674,7 +1674,8 @@ NULLCRef GetExecutorResultObject(unsigned tempStackType, unsigned *tempStackArra
 		memcpy(&tmpDouble, tempStackArrayBase, sizeof(tmpDouble));
 
 		float tmpFloat = float(tmpDouble);
-		memcpy(result.ptr, &tmpFloat, sizeof(tmpFloat));
+		if(result.ptr)
+			memcpy(result.ptr, &tmpFloat, sizeof(tmpFloat));
 
 		return result;
 	}
-- 
2.43.0


From 9676711688d0c1c07c1a2a691bbc323abb443ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 15/62] fix: stop execution when a checked return cannot
 allocate and reenable memory collection in JIT

---
 NULLC/CodeGenRegVm_X86.cpp | 11 ++++++++---
 NULLC/Executor_RegVm.cpp   | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 9a86cac..c104018 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2345,7 +2345,8 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			char *copy = (char*)NULLC::AllocObject(ctx.exTypes[type.subType].size * length, type.subType);
-			memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
+			if(copy)
+				memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
 		else
@@ -2353,11 +2354,15 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned objSize = type.size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
-			memcpy(copy, ptr, objSize);
+			if(copy)
+				memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
 
-		NULLC::SetCollectMemory(false);
+		NULLC::SetCollectMemory(true);
+
+		if(!ctx.x86rvm->callContinue)
+			longjmp(vmState->errorHandler, 1);
 	}
 }
 
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index ad3d272..9bdfe5f 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1635,7 +1635,15 @@ RegVmReturnType ExecutorRegVm::ExecReturn(const RegVmCmd cmd, RegVmCmd * const i
 		}
 
 		if(cmd.rC)
+		{
 			ExecCheckedReturn(typeId, regFilePtr);
+
+			if(!callContinue)
+			{
+				callStack.push_back(instruction + 1);
+				return rvrError;
+			}
+		}
 	}
 
 	if(callStack.size() == lastFinalReturn)
@@ -1693,7 +1701,8 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			char *copy = (char*)NULLC::AllocObject(exLinker->exTypes[type.subType].size * length, type.subType);
-			memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
+			if(copy)
+				memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
 			vmStorePointer(returnValuePtr, copy);
 		}
 		else
@@ -1701,7 +1710,8 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned objSize = type.size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
-			memcpy(copy, ptr, objSize);
+			if(copy)
+				memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
 
-- 
2.43.0


From 5898c7f19d26e50b135bf271caa1915f1781f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 16/62] fix: check for null pointers and failed allocations in
 ext.pugixml

---
 NULLC/includes/pugi.cpp | 570 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 570 insertions(+)

diff --git a/NULLC/includes/pugi.cpp b/NULLC/includes/pugi.cpp
index ad79817..e04c062 100644
--- a/NULLC/includes/pugi.cpp
+++ b/NULLC/includes/pugi.cpp
@@ -39,12 +39,24 @@ namespace NULLCPugiXML
 	};
 	xml_attribute xml_attribute__next_attribute(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->attribute.next_attribute();
 		return ret;
 	}
 	xml_attribute xml_attribute__previous_attribute(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->attribute.previous_attribute();
 		return ret;
@@ -52,23 +64,53 @@ namespace NULLCPugiXML
 
 	int		xml_attribute__as_int(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.as_int();
 	}
 	double	xml_attribute__as_double(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.as_double();
 	}
 	float	xml_attribute__as_float(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.as_float();
 	}
 	int		xml_attribute__as_bool(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.as_bool();
 	}
 
 	int		xml_attribute__set_name(NULLCArray rhs, xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		if(!rhs.ptr)
 		{
 			nullcThrowError("string is empty");
@@ -79,6 +121,12 @@ namespace NULLCPugiXML
 
 	int		xml_attribute__set_valueS(NULLCArray rhs, xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		if(!rhs.ptr)
 			return ptr->attribute.set_value("");
 
@@ -92,20 +140,44 @@ namespace NULLCPugiXML
 	}
 	int		xml_attribute__set_valueI(int rhs, xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.set_value(rhs);
 	}
 	int		xml_attribute__set_valueD(double rhs, xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.set_value(rhs);
 	}
 
 	int		xml_attribute__empty(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->attribute.empty();
 	}
 
 	NULLCArray	xml_attribute__name(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		ret.ptr = (pugi::char_t*)ptr->attribute.name();
 		ret.len = (unsigned)strlen(ret.ptr) + 1;
@@ -113,6 +185,12 @@ namespace NULLCPugiXML
 	}
 	NULLCArray	xml_attribute__value(xml_attribute* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		ret.ptr = (pugi::char_t*)ptr->attribute.value();
 		ret.len = (unsigned)strlen(ret.ptr) + 1;
@@ -121,6 +199,12 @@ namespace NULLCPugiXML
 
 	xml_attribute* xml_attribute__operatorSetS(xml_attribute* att, NULLCArray rhs)
 	{
+		if(!att)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		if(!rhs.ptr)
 		{
 			nullcThrowError("string is empty");
@@ -131,41 +215,95 @@ namespace NULLCPugiXML
 	}
 	xml_attribute* xml_attribute__operatorSetI(xml_attribute* att, int rhs)
 	{
+		if(!att)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		att->attribute = rhs;
 		return att;
 	}
 	xml_attribute* xml_attribute__operatorSetD(xml_attribute* att, double rhs)
 	{
+		if(!att)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		att->attribute = rhs;
 		return att;
 	}
 		
 	int xml_attribute__operatorNot(xml_attribute* att)
 	{
+		if(!att)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return !att->attribute;
 	}
 	int xml_attribute__operatorEqual(xml_attribute* left, xml_attribute* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->attribute == right->attribute;
 	}
 	int xml_attribute__operatorNEqual(xml_attribute* left, xml_attribute* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->attribute != right->attribute;
 	}
 	int xml_attribute__operatorLess(xml_attribute* left, xml_attribute* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->attribute < right->attribute;
 	}
 	int xml_attribute__operatorGreater(xml_attribute* left, xml_attribute* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->attribute > right->attribute;
 	}
 	int xml_attribute__operatorLEqual(xml_attribute* left, xml_attribute* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->attribute <= right->attribute;
 	}
 	int xml_attribute__operatorGEqual(xml_attribute* left, xml_attribute* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->attribute >= right->attribute;
 	}
 
@@ -176,15 +314,33 @@ namespace NULLCPugiXML
 	};
 	int		xml_node__empty(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return ptr->node.empty();
 	}
 
 	pugi::xml_node_type xml_node__type(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return pugi::node_null;
+		}
+
 		return ptr->node.type();
 	}
 	NULLCArray xml_node__name(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		ret.ptr = (pugi::char_t*)ptr->node.name();
 		ret.len = (unsigned)strlen(ret.ptr) + 1;
@@ -192,6 +348,12 @@ namespace NULLCPugiXML
 	}
 	NULLCArray xml_node__value(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		ret.ptr = (pugi::char_t*)ptr->node.value();
 		ret.len = (unsigned)strlen(ret.ptr) + 1;
@@ -200,6 +362,12 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__child(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -211,6 +379,12 @@ namespace NULLCPugiXML
 	}
 	xml_attribute xml_node__attribute(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -223,6 +397,12 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__next_sibling0(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -234,6 +414,12 @@ namespace NULLCPugiXML
 	}
 	xml_node xml_node__next_sibling1(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.next_sibling();
 		return ret;
@@ -241,6 +427,12 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__previous_sibling0(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -252,6 +444,12 @@ namespace NULLCPugiXML
 	}
 	xml_node xml_node__previous_sibling1(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.previous_sibling();
 		return ret;
@@ -259,12 +457,24 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__parent(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.parent();
 		return ret;
 	}
 	xml_node xml_node__root(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.root();
 		return ret;
@@ -272,6 +482,12 @@ namespace NULLCPugiXML
 
 	NULLCArray xml_node__child_value0(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		ret.ptr = (pugi::char_t*)ptr->node.child_value();
 		ret.len = (unsigned)strlen(ret.ptr) + 1;
@@ -279,6 +495,12 @@ namespace NULLCPugiXML
 	}
 	NULLCArray xml_node__child_value1(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -292,6 +514,12 @@ namespace NULLCPugiXML
 
 	int xml_node__set_name(NULLCArray rhs, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		if(!rhs.ptr)
 		{
 			nullcThrowError("string is empty");
@@ -301,6 +529,12 @@ namespace NULLCPugiXML
 	}
 	int xml_node__set_value(NULLCArray rhs, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		if(!rhs.ptr)
 		{
 			nullcThrowError("string is empty");
@@ -311,6 +545,12 @@ namespace NULLCPugiXML
 
 	xml_attribute xml_node__append_attribute(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -322,6 +562,12 @@ namespace NULLCPugiXML
 	}
 	xml_attribute xml_node__prepend_attribute(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -333,6 +579,12 @@ namespace NULLCPugiXML
 	}
 	xml_attribute xml_node__insert_attribute_after(NULLCArray name, xml_attribute* attr, xml_node* ptr)
 	{
+		if(!attr || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -344,6 +596,12 @@ namespace NULLCPugiXML
 	}
 	xml_attribute xml_node__insert_attribute_before(NULLCArray name, xml_attribute* attr, xml_node* ptr)
 	{
+		if(!attr || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -356,24 +614,48 @@ namespace NULLCPugiXML
 
 	xml_attribute xml_node__append_copy0(xml_attribute* proto, xml_node* ptr)
 	{
+		if(!proto || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->node.append_copy(proto->attribute);
 		return ret;
 	}
 	xml_attribute xml_node__prepend_copy0(xml_attribute* proto, xml_node* ptr)
 	{
+		if(!proto || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->node.prepend_copy(proto->attribute);
 		return ret;
 	}
 	xml_attribute xml_node__insert_copy_after0(xml_attribute* proto, xml_attribute* attr, xml_node* ptr)
 	{
+		if(!proto || !attr || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->node.insert_copy_after(proto->attribute, attr->attribute);
 		return ret;
 	}
 	xml_attribute xml_node__insert_copy_before0(xml_attribute* proto, xml_attribute* attr, xml_node* ptr)
 	{
+		if(!proto || !attr || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->node.insert_copy_before(proto->attribute, attr->attribute);
 		return ret;
@@ -381,24 +663,48 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__append_child(pugi::xml_node_type type, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.append_child(type);
 		return ret;
 	}
 	xml_node xml_node__prepend_child(pugi::xml_node_type type, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.prepend_child(type);
 		return ret;
 	}
 	xml_node xml_node__insert_child_after(pugi::xml_node_type type, xml_node* node, xml_node* ptr)
 	{
+		if(!node || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.insert_child_after(type, node->node);
 		return ret;
 	}
 	xml_node xml_node__insert_child_before(pugi::xml_node_type type, xml_node* node, xml_node* ptr)
 	{
+		if(!node || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.insert_child_before(type, node->node);
 		return ret;
@@ -406,6 +712,12 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__append_child1(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -417,6 +729,12 @@ namespace NULLCPugiXML
 	}
 	xml_node xml_node__prepend_child1(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -428,6 +746,12 @@ namespace NULLCPugiXML
 	}
 	xml_node xml_node__insert_child_after1(NULLCArray name, xml_node* node, xml_node* ptr)
 	{
+		if(!node || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -439,6 +763,12 @@ namespace NULLCPugiXML
 	}
 	xml_node xml_node__insert_child_before1(NULLCArray name, xml_node* node, xml_node* ptr)
 	{
+		if(!node || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -451,24 +781,48 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__append_copy1(xml_node* proto, xml_node* ptr)
 	{
+		if(!proto || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.append_copy(proto->node);
 		return ret;
 	}
 	xml_node xml_node__prepend_copy1(xml_node* proto, xml_node* ptr)
 	{
+		if(!proto || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.prepend_copy(proto->node);
 		return ret;
 	}
 	xml_node xml_node__insert_copy_after1(xml_node* proto, xml_node* node, xml_node* ptr)
 	{
+		if(!proto || !node || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.insert_copy_after(proto->node, node->node);
 		return ret;
 	}
 	xml_node xml_node__insert_copy_before1(xml_node* proto, xml_node* node, xml_node* ptr)
 	{
+		if(!proto || !node || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.insert_copy_before(proto->node, node->node);
 		return ret;
@@ -476,10 +830,22 @@ namespace NULLCPugiXML
 
 	void xml_node__remove_attribute0(xml_attribute* a, xml_node* ptr)
 	{
+		if(!a || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		ptr->node.remove_attribute(a->attribute);
 	}
 	void xml_node__remove_attribute1(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -490,10 +856,22 @@ namespace NULLCPugiXML
 
 	void xml_node__remove_child0(xml_node* n, xml_node* ptr)
 	{
+		if(!n || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		ptr->node.remove_child(n->node);
 	}
 	void xml_node__remove_child1(NULLCArray name, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -504,12 +882,24 @@ namespace NULLCPugiXML
 
 	xml_attribute xml_node__first_attribute(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->node.first_attribute();
 		return ret;
 	}
     xml_attribute xml_node__last_attribute(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute ret;
 		ret.attribute = ptr->node.last_attribute();
 		return ret;
@@ -517,12 +907,24 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__first_child(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.first_child();
 		return ret;
 	}
     xml_node xml_node__last_child(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node ret;
 		ret.node = ptr->node.last_child();
 		return ret;
@@ -530,6 +932,12 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__find_child_by_attribute0(NULLCArray name, NULLCArray attr_name, NULLCArray attr_value, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!name.ptr)
 		{
 			nullcThrowError("name is empty");
@@ -551,6 +959,12 @@ namespace NULLCPugiXML
 	}
 	xml_node xml_node__find_child_by_attribute1(NULLCArray attr_name, NULLCArray attr_value, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!attr_name.ptr)
 		{
 			nullcThrowError("attr_name is empty");
@@ -568,6 +982,12 @@ namespace NULLCPugiXML
 
 	xml_node xml_node__first_element_by_path(NULLCArray path, char delimiter, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!path.ptr)
 		{
 			nullcThrowError("path is empty");
@@ -616,6 +1036,12 @@ namespace NULLCPugiXML
 	};
 	int xml_node__traverse(NULLCFuncPtr begin, NULLCFuncPtr for_each, NULLCFuncPtr end, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		xml_tree_walker walker = xml_tree_walker(begin, for_each, end);
 		return ptr->node.traverse(walker);
 	}
@@ -640,12 +1066,24 @@ namespace NULLCPugiXML
 	};
 	void xml_node__print(NULLCFuncPtr writer, NULLCArray indent, int flags, pugi::xml_encoding encoding, int depth, xml_node* ptr)
 	{
+		if(!indent.ptr || !ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		xml_writer_nullc writer_nullc = xml_writer_nullc(writer);
 		ptr->node.print(writer_nullc, indent.ptr, flags, encoding, depth);
 	}
 
 	int xml_node__offset_debug(xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return (int)ptr->node.offset_debug();
 	}
 
@@ -709,18 +1147,36 @@ namespace NULLCPugiXML
 	};
 	xml_attribute xml_node__find_attribute(NULLCFuncPtr pred, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_attribute();
+		}
+
 		xml_attribute att;
 		att.attribute = ptr->node.find_attribute(predicate_nullc_attribute(pred));
 		return att;
 	}
 	xml_node xml_node__find_child(NULLCFuncPtr pred, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node n;
 		n.node = ptr->node.find_child(predicate_nullc_node(pred));
 		return n;
 	}
 	xml_node xml_node__find_node(NULLCFuncPtr pred, xml_node* ptr)
 	{
+		if(!ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		xml_node n;
 		n.node = ptr->node.find_node(predicate_nullc_node(pred));
 		return n;
@@ -728,30 +1184,72 @@ namespace NULLCPugiXML
 
 	int xml_node__operatorNot(xml_node* att)
 	{
+		if(!att)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return !att->node;
 	}
 	int xml_node__operatorEqual(xml_node* left, xml_node* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->node == right->node;
 	}
 	int xml_node__operatorNEqual(xml_node* left, xml_node* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->node != right->node;
 	}
 	int xml_node__operatorLess(xml_node* left, xml_node* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->node < right->node;
 	}
 	int xml_node__operatorGreater(xml_node* left, xml_node* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->node > right->node;
 	}
 	int xml_node__operatorLEqual(xml_node* left, xml_node* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->node <= right->node;
 	}
 	int xml_node__operatorGEqual(xml_node* left, xml_node* right)
 	{
+		if(!left || !right)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		return left->node >= right->node;
 	}
 
@@ -782,6 +1280,12 @@ namespace NULLCPugiXML
 	
 	NULLCArray description(xml_parse_result* desc)
 	{
+		if(!desc)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULLCArray();
+		}
+
 		NULLCArray ret;
 		pugi::xml_parse_result res;
 		res.status = (pugi::xml_parse_status)desc->status;
@@ -794,62 +1298,108 @@ namespace NULLCPugiXML
 
 	xml_parse_result* xml_document__load(NULLCArray contents, unsigned int options, xml_document* document)
 	{
+		if(!contents.ptr || !document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return NULL; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
 			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
 			::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_string(contents.ptr, options);
 		return res;
 	}
 
 	xml_parse_result* xml_document__load_file(NULLCArray name, unsigned int options, pugi::xml_encoding encoding, xml_document* document)
 	{
+		if(!name.ptr || !document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return NULL; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
 			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
 			::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_file(name.ptr, options, encoding);
 		return res;
 	}
 
 	xml_parse_result* xml_document__load_buffer(NULLCArray contents, int size, unsigned int options, pugi::xml_encoding encoding, xml_document* document)
 	{
+		if(!contents.ptr || !document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return NULL; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
 			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
 			::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_buffer(contents.ptr, size, options, encoding);
 		return res;
 	}
 
 	xml_parse_result* xml_document__load_buffer_inplace(NULLCArray contents, int size, unsigned int options, pugi::xml_encoding encoding, xml_document* document)
 	{
+		if(!contents.ptr || !document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return NULL;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return NULL; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
 			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
 			::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_buffer_inplace(contents.ptr, size, options, encoding);
 		return res;
 	}
 
 	void xml_document__save(NULLCFuncPtr writer, NULLCArray indent, int flags, pugi::xml_encoding encoding, xml_document* document)
 	{
+		if(!indent.ptr || !document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
@@ -863,6 +1413,12 @@ namespace NULLCPugiXML
 
 	int xml_document__save_file(NULLCArray name, NULLCArray indent, int flags, pugi::xml_encoding encoding, xml_document* document)
 	{
+		if(!name.ptr || !indent.ptr || !document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return 0;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return 0; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
@@ -875,11 +1431,19 @@ namespace NULLCPugiXML
 
 	xml_node	xml_document__root(xml_document* document)
 	{
+		if(!document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return xml_node();
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return xml_node(); }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
 			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return xml_node();
 			::new(doc) pugi::xml_document();
 		}
 		xml_node ret;
@@ -889,6 +1453,12 @@ namespace NULLCPugiXML
 
 	void	xml_document__finalize(xml_document_impl* document)
 	{
+		if(!document)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		pugi::xml_document *doc = document->document;
 		if(doc)
 		{
-- 
2.43.0


From 061ea3524bd7db4d4e59d2c9e0989b8905948403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 17/62] fix: check the size passed to the pugixml buffer
 parsing functions

---
 NULLC/includes/pugi.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/includes/pugi.cpp b/NULLC/includes/pugi.cpp
index e04c062..9089ffe 100644
--- a/NULLC/includes/pugi.cpp
+++ b/NULLC/includes/pugi.cpp
@@ -1352,6 +1352,12 @@ namespace NULLCPugiXML
 			return NULL;
 		}
 
+		if(size < 0 || unsigned(size) > contents.len)
+		{
+			nullcThrowError("buffer size is out of bounds");
+			return NULL;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return NULL; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
@@ -1376,6 +1382,12 @@ namespace NULLCPugiXML
 			return NULL;
 		}
 
+		if(size < 0 || unsigned(size) > contents.len)
+		{
+			nullcThrowError("buffer size is out of bounds");
+			return NULL;
+		}
+
 		if(!document->impl){ nullcThrowError("xml_document constructor wasn't called"); return NULL; }
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
-- 
2.43.0


From d73cbe0fdb25f30b3db420276e3818d8740c0297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 18/62] fix: handle a failed or overflowing growth of an auto[]
 on element set

---
 NULLC/StdLib.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 50f0b87..ff59cb9 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1532,10 +1532,18 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 	unsigned elemSize = linker->exTypes[arr->typeID].size;
 	if(pos >= arr->len)
 	{
+		if(pos == ~0u)
+		{
+			nullcThrowError("ERROR: array index out of bounds");
+			return;
+		}
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
 			newSize = pos + 1;
 		NULLCAutoArray n;
+		n.typeID = arr->typeID;
+		n.ptr = NULL;
+		n.len = 0;
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
 			return;
-- 
2.43.0


From d437cc8faa370f7aeed8c0fa28a7820946227640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 19/62] fix: leave an array empty when the allocation of its
 elements fails

---
 NULLC/StdLib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index ff59cb9..2ee5c87 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -883,8 +883,8 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 		return;
 	}
 	dst->typeID = src.typeID;
-	dst->len = src.len;
 	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
+	dst->len = dst->ptr ? src.len : 0;
 
 	if(dst->ptr && src.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
@@ -1507,8 +1507,8 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 	}
 
 	arr->typeID = type;
-	arr->len = count;
 	arr->ptr = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	arr->len = arr->ptr ? count : 0;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
-- 
2.43.0


From 82720b95176152f6fee9b9136347cbb4d3567e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 20/62] fix: do not let the script heap block size and the
 memory limit check overflow

---
 NULLC/StdLib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 2ee5c87..00aaf61 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -410,14 +410,21 @@ void* NULLC::AllocObject(int size, unsigned type)
 		return NULL;
 	}
 
+	// Block size with a marker and a header has to be representable
+	if(size > 0x7fffffff - 64)
+	{
+		nullcThrowError("ERROR: reached global memory maximum");
+		return NULL;
+	}
+
 	void *data = NULL;
 	size += sizeof(markerType);
 
-	if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+	if((unsigned long long)usedMemory + size > globalMemoryLimit)
 	{
 		CollectMemory();
 
-		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+		if((unsigned long long)usedMemory + size > globalMemoryLimit)
 		{
 			nullcThrowError("ERROR: reached global memory maximum");
 			return NULL;
-- 
2.43.0


From 3df7b53a9e47ccae02949999cef30f5503031c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 21/62] fix: do not let the array allocation size overflow when
 a padding is added

---
 NULLC/StdLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 00aaf61..d526f1e 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -518,7 +518,8 @@ NULLCArray NULLC::AllocArray(unsigned size, unsigned count, unsigned type)
 	ret.len = 0;
 	ret.ptr = NULL;
 
-	if((unsigned long long)size * count > globalMemoryLimit)
+	// Array size with padding has to be representable
+	if((unsigned long long)size * count > globalMemoryLimit || (unsigned long long)size * count > 0x7fffffff - 1024)
 	{
 		nullcThrowError("ERROR: can't allocate array with %u elements of size %u", count, size);
 		return ret;
-- 
2.43.0


From fd1941f9f00b18be2cd953e643c86499dc819bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 22/62] fix: keep the source registers of a reference/structure
 conversion and place its parts in the memory order

---
 NULLC/InstructionTreeRegVmLower.cpp | 32 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2648433..621d841 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -2898,27 +2898,28 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				}
 				else if(inst->arguments[0]->type.type == VM_TYPE_AUTO_REF)
 				{
+					// Source registers are read by multiple instructions, they can't be reused for the result
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
 					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, resRegB, sourceRegs[1], 32u);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegB, tempRegA, sourceRegs[1]);
 
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegA);
 				}
 				else if(inst->arguments[0]->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
 					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
 					unsigned char tempRegB = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, tempRegB, sourceRegs[1], 32u);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, tempRegB, sourceRegs[1]);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegA);
-					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegB, sourceRegs[2]);
+					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegB);
+					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegA, sourceRegs[2]);
 				}
 			}
 			else
@@ -2979,22 +2980,25 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				else if(inst->type.type == VM_TYPE_AUTO_REF)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
-					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, resRegB, sourceRegs[1]);
+					unsigned char tempReg = lowFunction->GetRegisterForConstant();
+
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempReg, resRegA, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempReg, sourceRegs[1]);
 				}
 				else if(inst->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
 					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
-					unsigned char resRegC = lowFunction->AllocateRegister(inst, 2, true);
+					unsigned char resRegC = lowFunction->AllocateRegister(inst, 2, false);
 
-					unsigned char tempReg = lowFunction->GetRegisterForConstant();
+					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
+					unsigned char tempRegB = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempReg, resRegC, sourceRegs[1]);
-					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, resRegB, tempReg);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, resRegA, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegC, tempRegB, sourceRegs[1]);
+					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegA, tempRegB);
 				}
 			}
 			else
-- 
2.43.0


From b351c91ba941cf4df59c4e3820d2cd2dea113ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 23/62] fix: move all eight bytes of a register when its type
 is not known to be int

---
 NULLC/CodeGenRegVm_X86.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index c104018..0e6ff0b 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -1186,17 +1186,6 @@ void GetCodeCmdMovHelper(CodeGenRegVmContext &ctx, unsigned char lhs, unsigned c
 		return;
 	}
 
-	// Maybe last write was of dword size
-	sourceReg = ctx.ctx.FindRegAtMemory(sDWORD, rNONE, 1, rREG, rhs * 8, true);
-
-	if(sourceReg != rRegCount)
-	{
-		ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
-
-		EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, lhs * 8, sourceReg); // Store to target
-		return;
-	}
-
 	sourceReg = ctx.ctx.GetReg();
 
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov64, sourceReg, sQWORD, rREG, rhs * 8); // Load source
-- 
2.43.0


From 31bac003fff717c64d8131c1cb66b7048ed745cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 24/62] fix: subtracting INT_MIN can not be lowered to an
 addition of the negated constant

---
 NULLC/InstructionTreeRegVmLower.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 621d841..7e7b760 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeRegVmLower.h"
 
+#include <limits.h>
+
 #include "ExpressionTree.h"
 #include "InstructionTreeVm.h"
 #include "InstructionTreeVmCommon.h"
@@ -2342,10 +2344,10 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, -constant->iValue);
+				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, int(0u - unsigned(constant->iValue)));
 				break;
 			}
-			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue)
+			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue && constant->iValue != INT_MIN && constant->lValue != INT_MIN)
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-- 
2.43.0


From 4ba481627db1f047b76c8b4636d765ec497e9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 25/62] fix: adding or subtracting a floating-point zero is not
 an identity

---
 NULLC/InstructionTreeVm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 10dec55..cd8f8f9 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4310,15 +4310,15 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		switch(inst->cmd)
 		{
 		case VM_INST_ADD:
-			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types
+			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 + x, integer types (0.0 + -0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[1], &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types
+			else if(DoesConstantIntegerMatch(inst->arguments[1], 0)) // x + 0, integer types (-0.0 + 0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_SUB:
 			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 - x, integer types
 				ChangeInstructionTo(module, inst, VM_INST_NEG, inst->arguments[1], NULL, NULL, NULL, NULL, &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x - 0, all types
+			else if(DoesConstantIntegerMatch(inst->arguments[1], 0)) // x - 0, integer types (-0.0 - -0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_MUL:
-- 
2.43.0


From 4502997dd615cb68fa060ce3452e1ec679a47326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 26/62] fix: loads of a float variable observe the single
 precision value that was stored

---
 NULLC/InstructionTreeVm.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index cd8f8f9..2671999 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1672,6 +1672,21 @@ namespace
 		return NULL;
 	}
 
+	// Floating-point store rounds the value to single precision, so it can differ from the value that will be loaded back
+	VmValue* GetRoundedFloatStoreValue(VmModule *module, VmValue *value)
+	{
+		if(VmConstant *constant = getType<VmConstant>(value))
+			return CreateConstantDouble(module->allocator, constant->source, double(float(constant->dValue)));
+
+		if(VmInstruction *inst = getType<VmInstruction>(value))
+		{
+			if(inst->cmd == VM_INST_LOAD_FLOAT)
+				return value;
+		}
+
+		return NULL;
+	}
+
 	VmValue* GetLoadStoreInfo(VmModule *module, VmValue *loadPointer, VmConstant *loadOffset, unsigned loadSize, unsigned accessSize, VmInstructionType loadCmd)
 	{
 		if(VmConstant *loadAddress = getType<VmConstant>(loadPointer))
@@ -1707,6 +1722,9 @@ namespace
 						if(value->type.size != loadSize)
 							return NULL;
 
+						if(el.storeInst->cmd == VM_INST_STORE_FLOAT)
+							return GetRoundedFloatStoreValue(module, value);
+
 						return value;
 					}
 
@@ -5626,7 +5644,10 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 					VmConstant *storeOffset = getType<VmConstant>(prev->arguments[1]);
 					VmValue *storeValue = prev->arguments[2];
 
-					if(GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
+					if(prev->cmd == VM_INST_STORE_FLOAT)
+						storeValue = GetRoundedFloatStoreValue(module, storeValue);
+
+					if(storeValue && GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
 					{
 						if(curr->type != storeValue->type)
 						{
-- 
2.43.0


From 0fa1cf2ce5b8efd3ad9a135d9178291366fb0970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 27/62] fix: floating-point constants 0.0 and -0.0 are not the
 same value

---
 NULLC/InstructionTreeVm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.h b/NULLC/InstructionTreeVm.h
index 4874af0..857cf7a 100644
--- a/NULLC/InstructionTreeVm.h
+++ b/NULLC/InstructionTreeVm.h
@@ -309,7 +309,7 @@ struct VmConstant: VmValue
 
 	bool operator==(const VmConstant& rhs) const
 	{
-		return type == rhs.type && iValue == rhs.iValue && dValue == rhs.dValue && lValue == rhs.lValue && sValue == rhs.sValue && bValue == rhs.bValue && fValue == rhs.fValue && container == rhs.container;
+		return type == rhs.type && iValue == rhs.iValue && memcmp(&dValue, &rhs.dValue, sizeof(dValue)) == 0 && lValue == rhs.lValue && sValue == rhs.sValue && bValue == rhs.bValue && fValue == rhs.fValue && container == rhs.container;
 	}
 
 	int iValue;
-- 
2.43.0


From e556e4ee815ac46522f9fe49f816bf981af922a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 28/62] fix: compile-time negation of an int wraps around the
 same way it does at run time

---
 NULLC/ExpressionEval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index f5e4ec6..4419cf4 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1407,7 +1407,7 @@ ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
 			case SYN_UNARY_OP_PLUS:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
 			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, value->type == ctx.ctx.typeLong ? (long long)(0ull - (unsigned long long)result) : int(0u - unsigned(result))));
 			case SYN_UNARY_OP_BIT_NOT:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
 			case SYN_UNARY_OP_LOGICAL_NOT:
-- 
2.43.0


From ad1c81c0ff91792967432fabea1adbf84cb85295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:18 +0000
Subject: [PATCH 29/62] fix: do not reuse words of the microcode that the
 linker relocates as constants

---
 NULLC/InstructionTreeRegVmLower.cpp | 19 +++++++++++++++++++
 NULLC/InstructionTreeRegVmLower.h   |  5 ++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 7e7b760..3cfc56b 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -285,8 +285,16 @@ bool RegVmLoweredFunction::TransferRegisterTo(VmValue *value, unsigned char reg)
 
 unsigned RegVmLoweredModule::FindConstant(unsigned value)
 {
+	unsigned relocated = 0;
+
 	for(unsigned i = 0; i < constants.size(); i++)
 	{
+		while(relocated < relocatedConstants.size() && relocatedConstants[relocated] < i)
+			relocated++;
+
+		if(relocated < relocatedConstants.size() && relocatedConstants[relocated] == i)
+			continue;
+
 		if(constants[i] == value)
 			return i + 1;
 	}
@@ -296,8 +304,16 @@ unsigned RegVmLoweredModule::FindConstant(unsigned value)
 
 unsigned RegVmLoweredModule::FindConstant(unsigned value1, unsigned value2)
 {
+	unsigned relocated = 0;
+
 	for(unsigned i = 0; i + 1 < constants.size(); i += 2)
 	{
+		while(relocated < relocatedConstants.size() && relocatedConstants[relocated] < i)
+			relocated++;
+
+		if(relocated < relocatedConstants.size() && relocatedConstants[relocated] <= i + 1)
+			continue;
+
 		if(constants[i] == value1 && constants[i + 1] == value2)
 			return i + 1;
 	}
@@ -408,6 +424,7 @@ bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 		{
 			lowModule->constants.push_back(rvmiPushMem);
 			lowModule->constants.push_back(IsLocalScope(constant->container->scope) ? rvrrFrame : rvrrGlobals);
+			lowModule->relocatedConstants.push_back(lowModule->constants.size());
 			lowModule->constants.push_back(constant->container->offset + constant->iValue);
 			lowModule->constants.push_back(int(constant->type.size));
 
@@ -2088,6 +2105,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 			lowModule->constants.push_back(rvmiPopMem);
 			lowModule->constants.push_back(IsLocalScope(resultAddress->container->scope) ? rvrrFrame : rvrrGlobals);
+			lowModule->relocatedConstants.push_back(lowModule->constants.size());
 			lowModule->constants.push_back(resultAddress->container->offset + resultAddress->iValue);
 			lowModule->constants.push_back(int(resultAddress->type.size));
 
@@ -2155,6 +2173,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 			TypeBase *resultBaseType = GetBaseType(ctx, result->type);
 
+			lowModule->relocatedConstants.push_back(lowModule->constants.size());
 			lowModule->constants.push_back(resultBaseType->typeIndex);
 			lowModule->constants.push_back(unsigned(resultBaseType->size));
 
diff --git a/NULLC/InstructionTreeRegVmLower.h b/NULLC/InstructionTreeRegVmLower.h
index 859d52e..b198287 100644
--- a/NULLC/InstructionTreeRegVmLower.h
+++ b/NULLC/InstructionTreeRegVmLower.h
@@ -125,7 +125,7 @@ struct RegVmLoweredFunction
 
 struct RegVmLoweredModule
 {
-	RegVmLoweredModule(Allocator *allocator, VmModule *vmModule): allocator(allocator), vmModule(vmModule), functions(allocator), constants(allocator)
+	RegVmLoweredModule(Allocator *allocator, VmModule *vmModule): allocator(allocator), vmModule(vmModule), functions(allocator), constants(allocator), relocatedConstants(allocator)
 	{
 	}
 
@@ -140,6 +140,9 @@ struct RegVmLoweredModule
 	SmallArray<RegVmLoweredFunction*, 32> functions;
 
 	SmallArray<unsigned, 256> constants;
+
+	// Positions of constants that the linker changes (type indices and global variable offsets of the microcode), in ascending order
+	SmallArray<unsigned, 32> relocatedConstants;
 };
 
 RegVmLoweredModule* RegVmLowerModule(ExpressionContext &ctx, VmModule *module);
-- 
2.43.0


From 0cb61aa397c4e2e1a7bc52a1c3c497be598bde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 30/62] fix: offset from a null pointer is not a constant
 pointer (assertion failure during lowering)

---
 NULLC/InstructionTreeVm.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 2671999..d480221 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4687,7 +4687,9 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 				// Both arguments can't be based on an offset
 				assert(!(consts[0]->container && consts[1]->container));
 
-				ReplaceValueUsersWith(module, inst, CreateConstantPointer(module->allocator, inst->source, consts[0]->iValue + consts[1]->iValue, consts[0]->container ? consts[0]->container : consts[1]->container, inst->type.structType, true), &module->constantPropagations);
+				// Shifted null pointer is not a constant, access to it is an error at runtime
+				if(consts[0]->container || consts[1]->container)
+					ReplaceValueUsersWith(module, inst, CreateConstantPointer(module->allocator, inst->source, consts[0]->iValue + consts[1]->iValue, consts[0]->container ? consts[0]->container : consts[1]->container, inst->type.structType, true), &module->constantPropagations);
 			}
 			else
 			{
@@ -4841,7 +4843,8 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 				unsigned ptr = consts[2]->iValue;
 				unsigned index = consts[3]->iValue;
 
-				if(index < arrayLength)
+				// Element of a null array is not a constant, access to it is an error at runtime
+				if(index < arrayLength && (consts[2]->container || elementSize * index == 0))
 					ReplaceValueUsersWith(module, inst, CreateConstantPointer(module->allocator, inst->source, ptr + elementSize * index, consts[2]->container, inst->type.structType, true), &module->constantPropagations);
 			}
 			break;
-- 
2.43.0


From b3bd891e8004dd481ee9861631e020f8bd21670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 31/62] fix: check the array pointer when indexing, element of
 a large array can lie outside of the null page

---
 NULLC/CodeGenRegVm_X86.cpp          | 42 +++++++++++++++++++++++++++++
 NULLC/CodeGenRegVm_X86.h            |  2 ++
 NULLC/Executor_RegVm.cpp            |  3 +++
 NULLC/InstructionTreeRegVmLower.cpp |  3 ++-
 NULLC/Instruction_X86.cpp           |  2 ++
 5 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 0e6ff0b..6fd440e 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -1345,9 +1345,21 @@ void ErrorOutOfBoundsWrap(CodeGenRegVmStateContext *vmState)
 	longjmp(vmState->errorHandler, 1);
 }
 
+void ErrorNullPointerWrap(CodeGenRegVmStateContext *vmState)
+{
+	CodeGenRegVmContext &ctx = *vmState->ctx;
+
+	vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
+	vmState->callStackTop++;
+
+	ctx.x86rvm->Stop("ERROR: null pointer access");
+	longjmp(vmState->errorHandler, 1);
+}
+
 void GenCodeCmdIndex(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 {
 	ctx.vmState->errorOutOfBoundsWrap = ErrorOutOfBoundsWrap;
+	ctx.vmState->errorNullPointerWrap = ErrorNullPointerWrap;
 
 #if defined(_M_X64)
 	x86Reg indexReg = ctx.ctx.GetReg();
@@ -1372,6 +1384,21 @@ void GenCodeCmdIndex(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov64, pointerReg, sQWORD, rREG, cmd.rC * 8); // Load source pointer
 
+	// Element of a large array might be placed outside of the null page
+	EMIT_OP_REG_NUM(ctx.ctx, o_cmp64, pointerReg, 0x00010000);
+	EMIT_OP_LABEL(ctx.ctx, o_jae, ctx.labelCount, false);
+
+	EMIT_OP_NUM(ctx.ctx, o_set_tracking, 0);
+
+	EMIT_OP_REG_REG(ctx.ctx, o_mov64, rArg1, rR13);
+	EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, rArg1, unsigned(uintptr_t(&ctx.vmState->callInstructionPos) - uintptr_t(ctx.vmState)), ctx.currInstructionPos);
+	EMIT_OP_RPTR(ctx.ctx, o_call, sQWORD, rArg1, unsigned(uintptr_t(&ctx.vmState->errorNullPointerWrap) - uintptr_t(ctx.vmState)));
+
+	EMIT_OP_NUM(ctx.ctx, o_set_tracking, 1);
+
+	EMIT_LABEL(ctx.ctx, ctx.labelCount, false);
+	ctx.labelCount++;
+
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	// Multiply index by size and add to source pointer
@@ -1425,6 +1452,21 @@ void GenCodeCmdIndex(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov, rEDX, sDWORD, rREG, cmd.rC * 8); // Load source pointer
 
+	// Element of a large array might be placed outside of the null page
+	EMIT_OP_REG_NUM(ctx.ctx, o_cmp, rEDX, 0x00010000);
+	EMIT_OP_LABEL(ctx.ctx, o_jae, ctx.labelCount, false);
+
+	EMIT_OP_NUM(ctx.ctx, o_set_tracking, 0);
+
+	EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, uintptr_t(&ctx.vmState->callInstructionPos), ctx.currInstructionPos);
+	EMIT_OP_NUM(ctx.ctx, o_push, uintptr_t(ctx.vmState));
+	EMIT_OP_ADDR(ctx.ctx, o_call, sDWORD, uintptr_t(&ctx.vmState->errorNullPointerWrap));
+
+	EMIT_OP_NUM(ctx.ctx, o_set_tracking, 1);
+
+	EMIT_LABEL(ctx.ctx, ctx.labelCount, false);
+	ctx.labelCount++;
+
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	// Multiply index by size and add to source pointer
diff --git a/NULLC/CodeGenRegVm_X86.h b/NULLC/CodeGenRegVm_X86.h
index 256d232..12ba472 100644
--- a/NULLC/CodeGenRegVm_X86.h
+++ b/NULLC/CodeGenRegVm_X86.h
@@ -28,6 +28,7 @@ struct CodeGenRegVmStateContext
 		convertPtrWrap = NULL;
 
 		errorOutOfBoundsWrap = NULL;
+		errorNullPointerWrap = NULL;
 		errorNoReturnWrap = NULL;
 		errorInvalidFunctionPointer = NULL;
 
@@ -88,6 +89,7 @@ struct CodeGenRegVmStateContext
 	void (*convertPtrWrap)(CodeGenRegVmStateContext *vmState, unsigned targetTypeId, unsigned sourceTypeId);
 
 	void (*errorOutOfBoundsWrap)(CodeGenRegVmStateContext *vmState);
+	void (*errorNullPointerWrap)(CodeGenRegVmStateContext *vmState);
 	void (*errorNoReturnWrap)(CodeGenRegVmStateContext *vmState);
 	void (*errorInvalidFunctionPointer)(CodeGenRegVmStateContext *vmState);
 
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 9bdfe5f..022a79a 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -708,6 +708,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(unsigned(regFilePtr[cmd.rB].intValue) >= unsigned(regFilePtr[(cmd.argument >> 16) & 0xff].intValue))
 				return rvm->ExecError(instruction, "ERROR: array index out of bounds");
 
+			if((uintptr_t)regFilePtr[cmd.rC].ptrValue < 0x00010000)
+				return rvm->ExecError(instruction, "ERROR: null pointer access");
+
 			regFilePtr[cmd.rA].ptrValue = regFilePtr[cmd.rC].ptrValue + regFilePtr[cmd.rB].intValue * (cmd.argument & 0xffff);
 			instruction++;
 			BREAK;
diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 3cfc56b..ecf57f2 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1517,7 +1517,8 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 		if(VmConstant *constantIndex = getType<VmConstant>(index))
 		{
-			if(unsigned(constantIndex->iValue) < unsigned(arrSize->iValue))
+			// Only elements that fit into the null page can be accessed without a check of the array pointer
+			if(unsigned(constantIndex->iValue) < unsigned(arrSize->iValue) && (constantIndex->iValue + 1ll) * elementSize->iValue < 64 * 1024)
 			{
 				if(constantIndex->iValue == 0)
 				{
diff --git a/NULLC/Instruction_X86.cpp b/NULLC/Instruction_X86.cpp
index 32bafc6..99a6f3d 100644
--- a/NULLC/Instruction_X86.cpp
+++ b/NULLC/Instruction_X86.cpp
@@ -181,6 +181,8 @@ int x86Argument::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bufSi
 			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "&ctx.convertPtrWrap");
 		else if(ptrIndex == rNONE && ptrBase == rNONE && uintptr_t(ptrNum) == uintptr_t(&ctx.errorOutOfBoundsWrap))
 			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "&ctx.errorOutOfBoundsWrap");
+		else if(ptrIndex == rNONE && ptrBase == rNONE && uintptr_t(ptrNum) == uintptr_t(&ctx.errorNullPointerWrap))
+			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "&ctx.errorNullPointerWrap");
 		else if(ptrIndex == rNONE && ptrBase == rNONE && uintptr_t(ptrNum) == uintptr_t(&ctx.errorNoReturnWrap))
 			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "&ctx.errorNoReturnWrap");
 		else if(ptrIndex == rNONE && ptrBase == rNONE)
-- 
2.43.0


From 86b04db7c3eb6e740594ecd846d2449c0e9aa8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 32/62] fix: limit nesting of statements, expressions and types
 in the parser (stack overflow)

---
 NULLC/ParseTree.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 NULLC/ParseTree.h   |  1 +
 NULLC/nullcdef.h    |  1 +
 3 files changed, 40 insertions(+)

diff --git a/NULLC/ParseTree.cpp b/NULLC/ParseTree.cpp
index e7b332b..f2b20e9 100644
--- a/NULLC/ParseTree.cpp
+++ b/NULLC/ParseTree.cpp
@@ -91,6 +91,29 @@ namespace
 			StopAt(ctx, pos, pos, pos->pos, msg, args);
 	}
 
+	// Recursive descent through constructs that can be nested without '(' or '{'
+	struct NestingGuard
+	{
+		explicit NestingGuard(ParseContext &ctx): ctx(ctx)
+		{
+			if(ctx.nestingDepth >= NULLC_MAX_PARSE_DEPTH)
+				Stop(ctx, ctx.Current(), "ERROR: reached maximum nesting depth (%d)", NULLC_MAX_PARSE_DEPTH);
+
+			ctx.nestingDepth++;
+		}
+
+		~NestingGuard()
+		{
+			ctx.nestingDepth--;
+		}
+
+		ParseContext &ctx;
+
+	private:
+		NestingGuard(const NestingGuard&);
+		NestingGuard& operator=(const NestingGuard&);
+	};
+
 	NULLC_PRINT_FORMAT_CHECK(3, 4) bool CheckAt(ParseContext &ctx, LexemeType type, const char *msg, ...)
 	{
 		if(!ctx.At(type))
@@ -331,6 +354,7 @@ ParseContext::ParseContext(Allocator *allocator, int optimizationLevel, ArrayVie
 	expressionGroupDepth = 0;
 	expressionBlockDepth = 0;
 	statementBlockDepth = 0;
+	nestingDepth = 0;
 
 	errorHandlerActive = false;
 	errorPos = NULL;
@@ -664,6 +688,8 @@ SynBase* ParseTerminalType(ParseContext &ctx, bool &shrBorrow)
 
 SynBase* ParseType(ParseContext &ctx, bool *shrBorrow, bool onlyType)
 {
+	NestingGuard nestingGuard(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	if(ctx.nonTypeLocations.find(unsigned(start - ctx.firstLexeme) + 1))
@@ -1271,6 +1297,8 @@ SynBase* ParseComplexTerminal(ParseContext &ctx)
 
 SynBase* ParseTerminal(ParseContext &ctx)
 {
+	NestingGuard nestingGuard(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	if(ctx.Consume(lex_true))
@@ -1425,6 +1453,8 @@ SynBase* ParseArithmetic(ParseContext &ctx)
 
 SynBase* ParseTernaryExpr(ParseContext &ctx)
 {
+	NestingGuard nestingGuard(ctx);
+
 	if(SynBase *value = ParseArithmetic(ctx))
 	{
 		Lexeme *pos = ctx.currentLexeme;
@@ -1462,6 +1492,8 @@ SynBase* ParseTernaryExpr(ParseContext &ctx)
 
 SynBase* ParseAssignment(ParseContext &ctx)
 {
+	NestingGuard nestingGuard(ctx);
+
 	if(SynBase *lhs = ParseTernaryExpr(ctx))
 	{
 		Lexeme *pos = ctx.currentLexeme;
@@ -1871,6 +1903,8 @@ SynBlock* ParseBlock(ParseContext &ctx)
 
 SynIfElse* ParseIfElse(ParseContext &ctx, bool forceStaticIf)
 {
+	NestingGuard nestingGuard(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	bool staticIf = forceStaticIf || ctx.Consume(lex_at);
@@ -2527,6 +2561,8 @@ SynConstantSet* ParseConstantSet(ParseContext &ctx)
 
 SynClassStaticIf* ParseClassStaticIf(ParseContext &ctx, bool nested)
 {
+	NestingGuard nestingGuard(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	if(nested || ctx.Consume(lex_at))
@@ -2907,6 +2943,8 @@ SynShortFunctionDefinition* ParseShortFunctionDefinition(ParseContext &ctx)
 
 SynBase* ParseStatement(ParseContext &ctx)
 {
+	NestingGuard nestingGuard(ctx);
+
 	if(SynBase *node = ParseClassDefinition(ctx))
 		return node;
 
diff --git a/NULLC/ParseTree.h b/NULLC/ParseTree.h
index 014c461..3821411 100644
--- a/NULLC/ParseTree.h
+++ b/NULLC/ParseTree.h
@@ -154,6 +154,7 @@ struct ParseContext
 	unsigned expressionGroupDepth;
 	unsigned expressionBlockDepth;
 	unsigned statementBlockDepth;
+	unsigned nestingDepth;
 
 	SmallArray<SynNamespaceElement*, 32> namespaceList;
 	SynNamespaceElement *currentNamespace;
diff --git a/NULLC/nullcdef.h b/NULLC/nullcdef.h
index fdc1f87..e595d91 100644
--- a/NULLC/nullcdef.h
+++ b/NULLC/nullcdef.h
@@ -42,6 +42,7 @@ struct NULLCAutoArray
 #define NULLC_TEMP_OUTPUT_BUFFER_SIZE 16 * 1024
 #define NULLC_MAX_GENERIC_INSTANCE_DEPTH 64
 #define NULLC_MAX_EXPRESSION_DEPTH 2048
+#define NULLC_MAX_PARSE_DEPTH 2048
 #define NULLC_MAX_TYPE_SIZE	256 * 1024 * 1024
 
 //#define NULLC_STACK_TRACE_WITH_LOCALS
-- 
2.43.0


From eaae74184008087a0655b65fd9a3dbc7401f1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 33/62] fix: limit depth of nested type syntax in the analyzer
 (stack overflow)

---
 NULLC/ExpressionTree.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index eea27c5..bcfa69a 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -3346,8 +3346,32 @@ TypeBase* CreateGenericTypeInstance(ExpressionContext &ctx, SynBase *source, Typ
 	return NULL;
 }
 
+struct ExpressionDepthGuard
+{
+	ExpressionDepthGuard(ExpressionContext &ctx, SynBase *syntax): ctx(ctx)
+	{
+		ctx.expressionDepth++;
+
+		if(ctx.expressionDepth > NULLC_MAX_EXPRESSION_DEPTH)
+			Stop(ctx, syntax, "ERROR: reached maximum generic expression depth (%d)", NULLC_MAX_EXPRESSION_DEPTH);
+	}
+
+	~ExpressionDepthGuard()
+	{
+		ctx.expressionDepth--;
+	}
+
+	ExpressionContext &ctx;
+
+private:
+	ExpressionDepthGuard(const ExpressionDepthGuard&);
+	ExpressionDepthGuard& operator=(const ExpressionDepthGuard&);
+};
+
 TypeBase* AnalyzeType(ExpressionContext &ctx, SynBase *syntax, bool onlyType = true, bool *failed = NULL)
 {
+	ExpressionDepthGuard expressionDepthGuard(ctx, syntax);
+
 	if(isType<SynTypeAuto>(syntax))
 	{
 		return ctx.typeAuto;
-- 
2.43.0


From da962748504c2d18af2695265fde9d7b569c001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:14 +0000
Subject: [PATCH 34/62] fix: store to a structure was removed when followed by
 a smaller structure store to the same address

---
 NULLC/InstructionTreeVm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index d480221..029ef89 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5605,6 +5605,10 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 					else
 						same = prev->arguments[0] == curr->arguments[0] && prevOffset->iValue == currOffset->iValue;
 
+					// Structure store can be larger than the following store
+					if(GetAccessSize(prev) > GetAccessSize(curr))
+						same = false;
+
 					if(same)
 					{
 						block->RemoveInstruction(prev);
-- 
2.43.0


From 761848a33b8c7662c0aff1f169cc8e3743e19d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 35/62] fix: store to an element of a large array did not
 invalidate values loaded through pointers

---
 NULLC/InstructionTreeVm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 029ef89..5afabfe 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1488,6 +1488,9 @@ namespace
 
 			assert(storeOffset->iValue == 0);
 
+			// Remove previous loads and stores to this address range
+			ClearLoadStoreInfo(module, storeAddress->container, unsigned(storeAddress->iValue), GetAccessSize(inst));
+
 			// Do not track load-store into large arrays
 			if(TypeArray *typeArray = getType<TypeArray>(storeAddress->container->type))
 			{
@@ -1503,9 +1506,6 @@ namespace
 
 			info.storeAddress = storeAddress;
 
-			// Remove previous loads and stores to this address range
-			ClearLoadStoreInfo(module, storeAddress->container, unsigned(storeAddress->iValue), info.accessSize);
-
 			info.noLoadOrNoContainerAlias = !(info.loadAddress || info.loadPointer) || (info.loadAddress && info.loadAddress->container && !HasAddressTaken(info.loadAddress->container));
 			info.noStoreOrNoContainerAlias = !(info.storeAddress || info.storePointer) || (info.storeAddress && info.storeAddress->container && !HasAddressTaken(info.storeAddress->container));
 
-- 
2.43.0


From 2d04b0f6d52222ae669b5a7cad9b7282dd3f1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 36/62] fix: copy through a pointer did not invalidate values
 loaded through other pointers

---
 NULLC/InstructionTreeVm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 5afabfe..fed0f96 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1296,8 +1296,8 @@ namespace
 		if(loadInst->cmd == VM_INST_LOAD_STRUCT)
 			return true;
 
-		// Struct store can overwrite other types
-		if(storeInst->cmd == VM_INST_STORE_STRUCT)
+		// Struct store or copy can overwrite other types
+		if(storeInst->cmd == VM_INST_STORE_STRUCT || storeInst->cmd == VM_INST_MEM_COPY)
 			return true;
 
 		return false;
-- 
2.43.0


From 751d46a59d04cd3b33de3e70870b3d49420cf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 37/62] fix: load was merged into an operation after a call or
 a store that changes the variable

---
 NULLC/InstructionTreeVm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index fed0f96..60b1cdf 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -6364,8 +6364,9 @@ bool IsReachableLoadValue(VmInstruction *user, VmInstruction *load)
 		case VM_INST_MEM_COPY:
 			return false;
 		case VM_INST_CALL:
-			if(loadAddressConstant && loadAddressConstant->container && !HasAddressTaken(loadAddressConstant->container))
-				return true;
+			// Call doesn't change local variables without a pointer to them
+			if(loadAddressConstant && loadAddressConstant->container && !IsGlobalScope(loadAddressConstant->container->scope) && !HasAddressTaken(loadAddressConstant->container))
+				break;
 
 			return false;
 		default:
-- 
2.43.0


From 3a3170e149608be4579f444a63beaddb1bea4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 38/62] fix: store to a member through a pointer did not
 invalidate a load of the same member of a known variable

---
 NULLC/InstructionTreeVm.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 60b1cdf..b721fb0 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1215,9 +1215,12 @@ namespace
 		VmValue *storeAddress = storeInst->arguments[0];
 		VmConstant *storeOffset = getType<VmConstant>(storeInst->arguments[1]);
 
+		// Different members of the same type do not overlap, but the member offset of a constant address is already a part of that address
+		bool isMemberAccess = loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType && !isType<VmConstant>(loadAddress) && !isType<VmConstant>(storeAddress);
+
 		if(loadInst->cmd == VM_INST_LOAD_BYTE && storeInst->cmd == VM_INST_STORE_BYTE)
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
@@ -1228,7 +1231,7 @@ namespace
 
 		if(loadInst->cmd == VM_INST_LOAD_SHORT && storeInst->cmd == VM_INST_STORE_SHORT)
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
@@ -1239,7 +1242,7 @@ namespace
 
 		if(loadInst->cmd == VM_INST_LOAD_INT && storeInst->cmd == VM_INST_STORE_INT)
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
@@ -1250,7 +1253,7 @@ namespace
 
 		if(loadInst->cmd == VM_INST_LOAD_LONG && storeInst->cmd == VM_INST_STORE_LONG)
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
@@ -1261,7 +1264,7 @@ namespace
 
 		if(loadInst->cmd == VM_INST_LOAD_FLOAT && storeInst->cmd == VM_INST_STORE_FLOAT)
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
@@ -1272,7 +1275,7 @@ namespace
 
 		if(loadInst->cmd == VM_INST_LOAD_DOUBLE && storeInst->cmd == VM_INST_STORE_DOUBLE)
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
@@ -1283,7 +1286,7 @@ namespace
 
 		if(IsBuiltInStructLoadStore(loadInst) && IsBuiltInStructLoadStore(storeInst))
 		{
-			if(loadAddress->type.structType && loadAddress->type.structType == storeAddress->type.structType)
+			if(isMemberAccess)
 			{
 				if(loadOffset->iValue != storeOffset->iValue)
 					return false;
-- 
2.43.0


From ff6f46b66a5d6d9be13ea398692611626b73401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 39/62] fix: load of a float member reused a load of a
 structure of the same size (assertion failure)

---
 NULLC/InstructionTreeVm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index b721fb0..1e1a557 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1706,7 +1706,8 @@ namespace
 				// Reuse previous load
 				if(el.loadInst && el.loadAddress)
 				{
-					if(*el.loadAddress == *loadAddress && accessSize == el.accessSize)
+					// Can't reuse loads of a different size
+					if(*el.loadAddress == *loadAddress && accessSize == el.accessSize && el.loadInst->type.size == loadSize)
 					{
 						assert(el.loadInst->parent);
 
@@ -1751,7 +1752,8 @@ namespace
 				// Reuse previous load
 				if(el.loadInst && el.loadPointer)
 				{
-					if(el.loadPointer == loadPointer && el.loadOffset->iValue == loadOffset->iValue && accessSize == el.accessSize)
+					// Can't reuse loads of a different size
+					if(el.loadPointer == loadPointer && el.loadOffset->iValue == loadOffset->iValue && accessSize == el.accessSize && el.loadInst->type.size == loadSize)
 					{
 						assert(el.loadInst->parent);
 
-- 
2.43.0


From 6cd6b19ebfd87c70d7ae827eb97a8921117c5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 40/62] fix: inverted buffer size assertion when writing the
 machine code log

---
 NULLC/Instruction_X86.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/Instruction_X86.cpp b/NULLC/Instruction_X86.cpp
index 99a6f3d..e737030 100644
--- a/NULLC/Instruction_X86.cpp
+++ b/NULLC/Instruction_X86.cpp
@@ -209,7 +209,7 @@ int x86Argument::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bufSi
 			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "%lld", (long long)imm64Arg);
 	}
 
-	assert(buf + bufSize <= curr);
+	assert(curr <= buf + bufSize);
 	return int(curr - buf);
 }
 
@@ -276,6 +276,6 @@ int	x86Instruction::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bu
 		*curr = 0;
 	}
 
-	assert(buf + bufSize <= curr);
+	assert(curr <= buf + bufSize);
 	return int(curr - buf);
 }
-- 
2.43.0


From 14f06df09a77a997a6457817b3b9558cb4ea3c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:26 +0000
Subject: [PATCH 41/62] fix: concatenation of a terminated string with an empty
 array wrote one byte past the result

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index d526f1e..0f95a82 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -995,7 +995,7 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 		return ret;
 
 	if(a.len)
-		memcpy(ret.ptr, a.ptr, a.len);
+		memcpy(ret.ptr, a.ptr, a.len - shift);
 
 	if(b.len)
 		memcpy(ret.ptr + a.len - shift, b.ptr, b.len);
-- 
2.43.0


From 50a9c6f63ff2f4f8e04f8761ac6a4c10ed41572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:52 +0000
Subject: [PATCH 42/62] fix: assign() to an array wrote the stack of the host
 over its elements

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 0f95a82..ee01a49 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -955,7 +955,7 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 
 void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 {
-	if(linker->exTypes[l.typeID].subType != r.typeID)
+	if(linker->exTypes[l.typeID].subCat != ExternTypeInfo::CAT_POINTER || linker->exTypes[l.typeID].subType != r.typeID)
 	{
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
-- 
2.43.0


From 88e3a305bf34bd3f76693217ffe176267689bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 43/62] fix: a failed string append left an array with a null
 pointer and a non-zero length

---
 NULLC/StdLib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index ee01a49..5819b87 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1011,7 +1011,12 @@ NULLCArray NULLC::StrConcatenateAndSet(NULLCArray *a, NULLCArray b)
 		nullcThrowError("ERROR: null pointer access");
 		return ret;
 	}
-	return *a = StrConcatenate(*a, b);
+
+	ret = StrConcatenate(*a, b);
+	if(ret.ptr)
+		*a = ret;
+
+	return ret;
 }
 
 int NULLC::Char(char a)
-- 
2.43.0


From 661929a7826aa1406805340437e5d7ec7f6471aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 44/62] fix: try() allocated the error message while the
 execution was stopped, crashing in the garbage collector

---
 NULLC/includes/error.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/NULLC/includes/error.cpp b/NULLC/includes/error.cpp
index 189410f..c88d0af 100644
--- a/NULLC/includes/error.cpp
+++ b/NULLC/includes/error.cpp
@@ -42,20 +42,23 @@ namespace NULLCError
 
 		if(!nullcCallFunction(functionValue))
 		{
+			const char *rawMessage = nullcGetLastError();
+
+			if(exception)
+				*exception = nullcGetLastErrorObject();
+
+			// Memory can't be allocated while the execution is stopped by an error
+			nullcClearError();
+
 			if(message)
 			{
-				const char *rawMessage = nullcGetLastError();
 				unsigned rawLength = unsigned(strlen(rawMessage));
 
 				*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawLength + 1);
 				if(message->ptr)
-					strcpy(message->ptr, rawMessage);
+					memcpy(message->ptr, rawMessage, rawLength);
 			}
 
-			if(exception)
-				*exception = nullcGetLastErrorObject();
-
-			nullcClearError();
 			return false;
 		}
 
-- 
2.43.0


From 7a27fc80f0be41d2b6222182dac730d246c5a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:38 +0000
Subject: [PATCH 45/62] fix: throwing a stack object copied it while the
 execution was stopped, crashing in the garbage collector

---
 NULLC/Executor_RegVm.cpp | 15 +++++++++++----
 NULLC/Executor_X86.cpp   | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 022a79a..8ef9e7d 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -384,6 +384,16 @@ void ExecutorRegVm::Stop(const char* error)
 
 void ExecutorRegVm::Stop(NULLCRef error)
 {
+	// Memory can't be allocated after the execution is stopped
+	if(nullcIsStackPointer(error.ptr))
+	{
+		error = NULLC::CopyObject(error);
+
+		// Allocation failure is reported instead
+		if(!error.ptr)
+			return;
+	}
+
 	codeRunning = false;
 
 	callContinue = false;
@@ -392,10 +402,7 @@ void ExecutorRegVm::Stop(NULLCRef error)
 
 	execErrorMessage = execErrorBuffer;
 
-	if(nullcIsStackPointer(error.ptr))
-		execErrorObject = NULLC::CopyObject(error);
-	else
-		execErrorObject = error;
+	execErrorObject = error;
 }
 
 void ExecutorRegVm::Resume()
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 52b9b90..3d9b0ee 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1162,6 +1162,16 @@ void ExecutorX86::Stop(const char* error)
 
 void ExecutorX86::Stop(NULLCRef error)
 {
+	// Memory can't be allocated after the execution is stopped
+	if(nullcIsStackPointer(error.ptr))
+	{
+		error = NULLC::CopyObject(error);
+
+		// Allocation failure is reported instead
+		if(!error.ptr)
+			return;
+	}
+
 	codeRunning = false;
 
 	callContinue = false;
@@ -1170,10 +1180,7 @@ void ExecutorX86::Stop(NULLCRef error)
 
 	execErrorMessage = execErrorBuffer;
 
-	if(nullcIsStackPointer(error.ptr))
-		execErrorObject = NULLC::CopyObject(error);
-	else
-		execErrorObject = error;
+	execErrorObject = error;
 }
 
 void ExecutorX86::Resume()
-- 
2.43.0


From 7fd3df11fd54dda0de9d63aa3c20f16bb9dac0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:50 +0000
Subject: [PATCH 46/62] fix: ext.pugixml went on calling script callbacks after
 one of them failed, crashing the executor

---
 NULLC/includes/pugi.cpp | 61 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/NULLC/includes/pugi.cpp b/NULLC/includes/pugi.cpp
index 9089ffe..0f98600 100644
--- a/NULLC/includes/pugi.cpp
+++ b/NULLC/includes/pugi.cpp
@@ -1006,33 +1006,56 @@ namespace NULLCPugiXML
 			this->beginCB = beginCB;
 			this->for_eachCB = for_eachCB;
 			this->endCB = endCB;
+			this->failed = false;
 		}
 
 		virtual ~xml_tree_walker(){}
 
 		virtual bool begin(pugi::xml_node& node)
 		{
+			if(failed)
+				return false;
+
 			xml_node n;
 			n.node = node;
-			nullcCallFunction(beginCB, PodWrap(n.node));
+			if(!nullcCallFunction(beginCB, PodWrap(n.node)))
+			{
+				failed = true;
+				return false;
+			}
 			return !!nullcGetResultInt();
 		}
 		virtual bool for_each(pugi::xml_node& node)
 		{
+			if(failed)
+				return false;
+
 			xml_node n;
 			n.node = node;
-			nullcCallFunction(for_eachCB, PodWrap(n.node));
+			if(!nullcCallFunction(for_eachCB, PodWrap(n.node)))
+			{
+				failed = true;
+				return false;
+			}
 			return !!nullcGetResultInt();
 		}
 		virtual bool end(pugi::xml_node& node)
 		{
+			if(failed)
+				return false;
+
 			xml_node n;
 			n.node = node;
-			nullcCallFunction(endCB, PodWrap(n.node));
+			if(!nullcCallFunction(endCB, PodWrap(n.node)))
+			{
+				failed = true;
+				return false;
+			}
 			return !!nullcGetResultInt();
 		}
 	private:
 		NULLCFuncPtr beginCB, for_eachCB, endCB;
+		bool failed; // Execution can't be started again after an error
 	};
 	int xml_node__traverse(NULLCFuncPtr begin, NULLCFuncPtr for_each, NULLCFuncPtr end, xml_node* ptr)
 	{
@@ -1051,18 +1074,24 @@ namespace NULLCPugiXML
 		xml_writer_nullc(NULLCFuncPtr writerCB)
 		{
 			this->writerCB = writerCB;
+			this->failed = false;
 		}
 		virtual ~xml_writer_nullc(){}
 
 		virtual void write(const void* data, size_t size)
 		{
+			if(failed)
+				return;
+
 			NULLCArray arr;
 			arr.ptr = (char*)data;
 			arr.len = (unsigned)size;
-			nullcCallFunction(writerCB, arr);
+			if(!nullcCallFunction(writerCB, arr))
+				failed = true;
 		}
 	private:
 		NULLCFuncPtr writerCB;
+		bool failed; // Execution can't be started again after an error
 	};
 	void xml_node__print(NULLCFuncPtr writer, NULLCArray indent, int flags, pugi::xml_encoding encoding, int depth, xml_node* ptr)
 	{
@@ -1114,18 +1143,28 @@ namespace NULLCPugiXML
 		predicate_nullc_attribute(NULLCFuncPtr callback)
 		{
 			this->callback = callback;
+			this->failed = false;
 		}
 
 		bool operator()(pugi::xml_attribute& attribute)
 		{
+			// Stop the search
+			if(failed)
+				return true;
+
 			xml_attribute att;
 			att.attribute = attribute;
-			nullcCallFunction(callback, PodWrap(att.attribute));
+			if(!nullcCallFunction(callback, PodWrap(att.attribute)))
+			{
+				failed = true;
+				return true;
+			}
 			return !!nullcGetResultInt();
 		}
 		
 	private:
 		NULLCFuncPtr callback;
+		bool failed; // Execution can't be started again after an error
 	};
 	class predicate_nullc_node
 	{
@@ -1133,17 +1172,27 @@ namespace NULLCPugiXML
 		predicate_nullc_node(NULLCFuncPtr callback)
 		{
 			this->callback = callback;
+			this->failed = false;
 		}
 
 		bool operator()(pugi::xml_node& node)
 		{
+			// Stop the search
+			if(failed)
+				return true;
+
 			xml_node n;
 			n.node = node;
-			nullcCallFunction(callback, PodWrap(n.node));
+			if(!nullcCallFunction(callback, PodWrap(n.node)))
+			{
+				failed = true;
+				return true;
+			}
 			return !!nullcGetResultInt();
 		}
 	private:
 		NULLCFuncPtr callback;
+		bool failed; // Execution can't be started again after an error
 	};
 	xml_attribute xml_node__find_attribute(NULLCFuncPtr pred, xml_node* ptr)
 	{
-- 
2.43.0


From e0ed7005a35b5b45cb7fc764753c0a7a07978d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:50 +0000
Subject: [PATCH 47/62] fix: declare the search predicates of ext.pugixml with
 the int result that is read from them

---
 Modules/ext/pugixml.nc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Modules/ext/pugixml.nc b/Modules/ext/pugixml.nc
index c43b64d..8f7d37d 100644
--- a/Modules/ext/pugixml.nc
+++ b/Modules/ext/pugixml.nc
@@ -262,9 +262,9 @@ class xml_node
 
 	int offset_debug();
 
-	xml_attribute find_attribute(void ref(xml_attribute) pred);
-	xml_node find_child(void ref(xml_node) pred);
-	xml_node find_node(void ref(xml_node) pred);
+	xml_attribute find_attribute(int ref(xml_attribute) pred);
+	xml_node find_child(int ref(xml_node) pred);
+	xml_node find_node(int ref(xml_node) pred);
 }
 
 int operator!(xml_node ref node);
-- 
2.43.0


From f13d04380d8062aea4bc61c08b202e3337471390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 48/62] fix: an error raised after a hardware exception was
 caught jumped to a finished stack frame

---
 NULLC/Executor_X86.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 3d9b0ee..b27e767 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1004,13 +1004,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		NULLC::JmpBufData data;
 		NULLC::copyMemory(data.data, NULLC::errorHandler, sizeof(sigjmp_buf));
 
+		jmp_buf prevErrorHandler;
+		NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
+
 		if(!(errorCode = sigsetjmp(NULLC::errorHandler, 1)))
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1021,14 +1021,14 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		else
 		{
 			resultType = rvrError;
 		}
 
+		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
+
 		// Disable signal handlers only from top-level Run
 		if(lastFinalReturn == 0)
 		{
@@ -1039,13 +1039,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 		NULLC::copyMemory(NULLC::errorHandler, data.data, sizeof(sigjmp_buf));
 #else
+		jmp_buf prevErrorHandler;
+		NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
+
 		__try
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1056,13 +1056,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		__except(NULLC::CanWeHandleSEH(GetExceptionCode(), GetExceptionInformation()))
 		{
 			resultType = rvrError;
 		}
+
+		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 #endif
 
 		vmState.jitCodeActive = false;
-- 
2.43.0


From f09575cc34d749dd2fcd65f1bb6b3ccbd1a95653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:22 +0000
Subject: [PATCH 49/62] fix: every error caught in generated code leaked the
 registers of the functions it interrupted

---
 NULLC/Executor_X86.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index b27e767..b885052 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -970,6 +970,7 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 	}
 
 	RegVmRegister *prevRegFilePtr = vmState.regFileLastPtr;
+	RegVmRegister *prevRegFileTop = vmState.regFileLastTop;
 
 	vmState.regFileLastPtr = regFilePtr;
 
@@ -1070,8 +1071,8 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 	vmState.regFileLastPtr = prevRegFilePtr;
 
-	if(functionID == ~0u)
-		vmState.regFileLastTop -= 256;
+	// After an error, functions that were interrupted didn't release their registers
+	vmState.regFileLastTop = prevRegFileTop;
 
 	vmState.dataStackTop = vmState.dataStackBase + prevDataSize;
 
-- 
2.43.0


From a8fcd1d928a95ee9bcba009e6d458e1ef102b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:13 +0000
Subject: [PATCH 50/62] fix: a function called back from native code overran
 the register stack of the interpreter

---
 NULLC/Executor_RegVm.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 8ef9e7d..8f5a657 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -254,6 +254,13 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 					Stop("ERROR: stack overflow");
 					retType = rvrError;
 				}
+				else if(regFileTop >= regFileArrayEnd)
+				{
+					callStack.push_back(instruction + 1);
+					instruction = NULL;
+					Stop("ERROR: register overflow");
+					retType = rvrError;
+				}
 				else
 				{
 					dataStack.resize(dataStack.size() + stackSize);
@@ -267,9 +274,9 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 					regFilePtr[rvrrFrame].ptrValue = uintptr_t(dataStack.data + prevDataSize);
 					regFilePtr[rvrrConstants].ptrValue = uintptr_t(exLinker->exRegVmConstants.data);
 					regFilePtr[rvrrRegisters].ptrValue = uintptr_t(regFilePtr);
-				}
 
-				memset(regFilePtr + rvrrCount, 0, (regFileTop - regFilePtr - rvrrCount) * sizeof(regFilePtr[0]));
+					memset(regFilePtr + rvrrCount, 0, (regFileTop - regFilePtr - rvrrCount) * sizeof(regFilePtr[0]));
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6d5b8804335a6e0d50243c2f90d650c2268871ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:31 +0000
Subject: [PATCH 51/62] fix: generated code refused to call back a native
 function with a structure result and then crashed

---
 NULLC/Executor_X86.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index b885052..db36bae 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -873,13 +873,6 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 		if(funcPos == ~0u)
 		{
-			// Can't return complex types here
-			if(target.retType == ExternFuncInfo::RETURN_UNKNOWN)
-			{
-				Stop("ERROR: can't call external function with complex return type");
-				return false;
-			}
-
 			// Copy all arguments
 			NULLC::copyMemory(vmState.tempStackArrayBase, arguments, target.argumentSize);
 
-- 
2.43.0


From 226afc483353e314b6ee3a57262daa4954af03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:36 +0000
Subject: [PATCH 52/62] fix: report function return values over the size limit
 when the return type is deduced or the function is called through a pointer

---
 NULLC/ExpressionTree.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index bcfa69a..de133eb 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -7858,6 +7858,10 @@ ExprBase* CreateFunctionCallFinal(ExpressionContext &ctx, SynBase *source, ExprB
 		assert(expected == NULL);
 	}
 
+	// Function type can be larger than any function definition is allowed to be
+	if(type->returnType->size >= 65536)
+		Report(ctx, source, "ERROR: function return size cannot exceed 65536");
+
 	return new (ctx.get<ExprFunctionCall>()) ExprFunctionCall(source, type->returnType, value, actualArguments);
 }
 
@@ -8276,6 +8280,9 @@ ExprBase* CreateReturn(ExpressionContext &ctx, SynBase *source, ExprBase *result
 
 			returnType = result->type;
 
+			if(returnType->size >= 65536)
+				Report(ctx, source, "ERROR: function return size cannot exceed 65536");
+
 			function->type = ctx.GetFunctionType(source, returnType, function->type->arguments);
 		}
 
@@ -8339,6 +8346,9 @@ ExprBase* AnalyzeYield(ExpressionContext &ctx, SynYield *syntax)
 
 			returnType = result->type;
 
+			if(returnType->size >= 65536)
+				Report(ctx, syntax, "ERROR: function return size cannot exceed 65536");
+
 			function->type = ctx.GetFunctionType(syntax, returnType, function->type->arguments);
 		}
 
-- 
2.43.0


From d5f8035e0cfe4018e6d85c5afb6fee1864c8b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:36 +0000
Subject: [PATCH 53/62] fix: vector normalize functions write memory and cannot
 be marked as free of memory writes

---
 NULLC/includes/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NULLC/includes/math.cpp b/NULLC/includes/math.cpp
index 653f510..61985f6 100644
--- a/NULLC/includes/math.cpp
+++ b/NULLC/includes/math.cpp
@@ -262,13 +262,13 @@ bool nullcInitMathModule()
 	REGISTER_PURE_FUNC(operatorIndex4, "[]", 2);
 
 	REGISTER_PURE_FUNC(length2, "float2::length", 0);
-	REGISTER_PURE_FUNC(normalize2, "float2::normalize", 0);
+	REGISTER_FUNC(normalize2, "float2::normalize", 0);
 
 	REGISTER_PURE_FUNC(length3, "float3::length", 0);
-	REGISTER_PURE_FUNC(normalize3, "float3::normalize", 0);
+	REGISTER_FUNC(normalize3, "float3::normalize", 0);
 
 	REGISTER_PURE_FUNC(length3, "float4::length", 0);
-	REGISTER_PURE_FUNC(normalize3, "float4::normalize", 0);
+	REGISTER_FUNC(normalize3, "float4::normalize", 0);
 
 	REGISTER_PURE_FUNC(dot2, "dot", 0);
 	REGISTER_PURE_FUNC(dot3, "dot", 1);
-- 
2.43.0


From a64c9645acccd62b2409ba28478e2d1f6b23e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 54/62] fix: limit the total size of an array type, a size that
 overflows made a type smaller than its elements

---
 NULLC/ExpressionTree.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index de133eb..0fd7b57 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -2096,6 +2096,7 @@ ExprBase* CreateAssignment(ExpressionContext &ctx, SynBase *source, ExprBase *lh
 ExprBase* CreateReturn(ExpressionContext &ctx, SynBase *source, ExprBase *result);
 
 bool AssertResolvableType(ExpressionContext &ctx, SynBase *source, TypeBase *type, bool allowGeneric);
+void AssertArraySize(ExpressionContext &ctx, SynBase *source, TypeBase *type, long long length);
 bool AssertResolvableTypeLiteral(ExpressionContext &ctx, SynBase *source, ExprBase *expr);
 bool AssertValueExpression(ExpressionContext &ctx, SynBase *source, ExprBase *expr);
 
@@ -3248,6 +3249,8 @@ TypeBase* ApplyArraySizesToType(ExpressionContext &ctx, TypeBase *type, SynBase
 		if(!AssertResolvableType(ctx, size, type, true))
 			return ctx.GetErrorType();
 
+		AssertArraySize(ctx, size, type, number->value);
+
 		return ctx.GetArrayType(type, number->value);
 	}
 
@@ -3496,6 +3499,8 @@ TypeBase* AnalyzeType(ExpressionContext &ctx, SynBase *syntax, bool onlyType = t
 			if(!AssertResolvableType(ctx, syntax, type, true))
 				return ctx.GetErrorType();
 
+			AssertArraySize(ctx, syntax, type, number->value);
+
 			return ctx.GetArrayType(type, number->value);
 		}
 
@@ -3980,6 +3985,8 @@ ExprBase* AnalyzeArray(ExpressionContext &ctx, SynArray *syntax)
 	if(subType->size >= 64 * 1024)
 		Stop(ctx, syntax, "ERROR: array element size cannot exceed 65535 bytes");
 
+	AssertArraySize(ctx, syntax, subType, values.size());
+
 	return new (ctx.get<ExprArray>()) ExprArray(syntax, ctx.GetArrayType(subType, values.size()), values);
 }
 
@@ -6221,7 +6228,13 @@ TypeBase* ResolveGenericTypeAliases(ExpressionContext &ctx, SynBase *source, Typ
 		return ctx.GetReferenceType(ResolveGenericTypeAliases(ctx, source, lhs->subType, aliases));
 
 	if(TypeArray *lhs = getType<TypeArray>(type))
-		return ctx.GetArrayType(ResolveGenericTypeAliases(ctx, source, lhs->subType, aliases), lhs->length);
+	{
+		TypeBase *subType = ResolveGenericTypeAliases(ctx, source, lhs->subType, aliases);
+
+		AssertArraySize(ctx, source, subType, lhs->length);
+
+		return ctx.GetArrayType(subType, lhs->length);
+	}
 
 	if(TypeUnsizedArray *lhs = getType<TypeUnsizedArray>(type))
 		return ctx.GetUnsizedArrayType(ResolveGenericTypeAliases(ctx, source, lhs->subType, aliases));
@@ -9784,6 +9797,16 @@ ExprBase* AnalyzeShortFunctionDefinition(ExpressionContext &ctx, SynShortFunctio
 	return AnalyzeShortFunctionDefinition(ctx, syntax, NULL, argumentType);
 }
 
+void AssertArraySize(ExpressionContext &ctx, SynBase *source, TypeBase *type, long long length)
+{
+	if(type->size >= 64 * 1024)
+		Stop(ctx, source, "ERROR: array element size cannot exceed 65535 bytes");
+
+	// Total size with padding has to be less than the maximum type size
+	if(length > (NULLC_MAX_TYPE_SIZE - 64) / (type->size > 1 ? type->size : 1))
+		Stop(ctx, source, "ERROR: variable size limit exceeded");
+}
+
 bool AssertResolvableType(ExpressionContext &ctx, SynBase *source, TypeBase *type, bool allowGeneric)
 {
 	if(isType<TypeArgumentSet>(type))
-- 
2.43.0


From afe81a9d4c4a660d5a977dc485ae2a55ac5990e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 55/62] fix: limit the size of a stack frame with temporary
 storage, larger frames wrapped around in 32 bits

---
 NULLC/Compiler.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index a815c02..6acbb85 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -710,6 +710,27 @@ bool CompileModuleFromSource(CompilerContext &ctx)
 		return false;
 	}
 
+	// Stack frame of a function or global code grows when temporary storage is created, but the size cannot go over the limit
+	for(VmFunction *function = ctx.vmModule->functions.head; function; function = function->next)
+	{
+		long long stackSize = function->function ? function->function->stackSize : ctx.exprCtx.globalScope->dataSize;
+
+		if(stackSize >= NULLC_MAX_TYPE_SIZE)
+		{
+			ctx.errorPos = function->source ? function->source->begin->pos : NULL;
+
+			if(ctx.errorBuf && ctx.errorBufSize)
+			{
+				NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: stack frame size cannot exceed %d bytes", NULLC_MAX_TYPE_SIZE);
+
+				if(ctx.errorPos)
+					AddErrorLocationInfo(FindModuleCodeWithSourceLocation(ctx.exprCtx, ctx.errorPos), ctx.errorPos, ctx.errorBuf, ctx.errorBufSize);
+			}
+
+			return false;
+		}
+	}
+
 	RegVmFinalizeModule(ctx.instRegVmFinalizeCtx, ctx.regVmLoweredModule);
 
 	ctx.statistics.Finish("IrLowering", NULLCTime::clockMicro());
-- 
2.43.0


From f59c4e5458acd4880f33298f85ac542d2ccf671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:19 +0000
Subject: [PATCH 56/62] fix: address lookup in an object pool does not hang on
 the start of a page

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 5819b87..03e730e 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -206,7 +206,7 @@ public:
 
 			if(ptr < sortedPages.data[pointer])
 				upperBound = pointer;
-			else if(ptr > sortedPages.data[pointer])
+			else
 				lowerBound = pointer;
 		}
 
-- 
2.43.0


From 9ce5e438d5ac29a7f28764cdb0295d49a5b959b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:24 +0000
Subject: [PATCH 57/62] fix: a collection finds objects of empty classes
 instead of the memory after them

---
 NULLC/StdLib.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 03e730e..91d27c5 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -180,9 +180,9 @@ public:
 		MyLargeBlock *curr = activePages;
 		while(curr)
 		{
-			if((char*)ptr >= (char*)curr->page && (char*)ptr <= (char*)curr->page + sizeof(curr->page))
+			if((char*)ptr >= (char*)curr->page + sizeof(markerType) && (char*)ptr <= (char*)curr->page + sizeof(curr->page))
 			{
-				if(((unsigned int)(intptr_t)((char*)ptr - (char*)curr->page) & (elemSize - 1)) == sizeof(markerType))
+				if(((unsigned int)(intptr_t)((char*)ptr - (char*)curr->page - sizeof(markerType)) & (elemSize - 1)) == 0)
 					return true;
 			}
 			curr = curr->next;
@@ -217,9 +217,10 @@ public:
 
 		MyLargeBlock *best = sortedPages.data[pointer];
 
-		uintptr_t fromBase = (uintptr_t)((char*)ptr - (char*)best->page);
+		// Distance from the first object, an object starts after a marker and can be empty
+		uintptr_t fromBase = (uintptr_t)((char*)ptr - (char*)best->page) - sizeof(markerType);
 
-		if(fromBase > sizeof(best->page))
+		if(fromBase >= sizeof(best->page))
 			return NULL;
 
 		return (char*)best->page + (unsigned(fromBase) & ~(elemSize - 1)) + sizeof(markerType);
-- 
2.43.0


From f67f3c02ce08d6c97e738f70ec6cfbbb5332b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:30 +0000
Subject: [PATCH 58/62] fix: a reference to the last bytes of a large object
 keeps it alive

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 91d27c5..5108610 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -721,7 +721,7 @@ void* NULLC::GetBasePointer(void* ptr)
 	{
 		void *block = it->key.start;
 
-		if(ptr >= block && ptr <= (char*)block + *(unsigned int*)block)
+		if(ptr >= block && ptr <= (char*)block + 4 + *(unsigned int*)block)
 			return (char*)block + 4 + sizeof(markerType);
 	}
 
-- 
2.43.0


From 265d750473542bc75f748482585d5374e92834fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:28 +0000
Subject: [PATCH 59/62] fix: memory is not collected while finalizers run,
 objects that wait for their finalizers were freed and finalized again

---
 NULLC/StdLib.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 5108610..2e9400c 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -341,6 +341,9 @@ namespace NULLC
 
 	bool collectionEnabled = true;
 
+	// Objects that wait for their finalizers are not reachable in any other way, so memory is not collected until finalizers are done
+	bool finalizersRunning = false;
+
 	unsigned int usedMemory = 0;
 
 	unsigned int collectableMinimum = 1024 * 1024;
@@ -394,6 +397,8 @@ namespace NULLC
 	void CollectUnmarkedBlock(Range& curr);
 	void ClearBlock(Range& curr);
 
+	void RunFinalizers();
+
 	double	markTime = 0.0;
 	double	collectTime = 0.0;
 }
@@ -752,9 +757,18 @@ void NULLC::SetCollectMemory(bool enabled)
 	collectionEnabled = enabled;
 }
 
+void NULLC::RunFinalizers()
+{
+	finalizersRunning = true;
+	(void)nullcRunFunction("__finalizeObjects");
+	finalizersRunning = false;
+
+	finalizeList.clear();
+}
+
 void NULLC::CollectMemory()
 {
-	if(!collectionEnabled)
+	if(!collectionEnabled || finalizersRunning)
 		return;
 
 	double time = (double(clock()) / CLOCKS_PER_SEC);
@@ -782,8 +796,7 @@ void NULLC::CollectMemory()
 	if(usedMemory + (usedMemory >> 1) >= collectableMinimum)
 		collectableMinimum <<= 1;
 
-	(void)nullcRunFunction("__finalizeObjects");
-	finalizeList.clear();
+	RunFinalizers();
 }
 
 double NULLC::MarkTime()
@@ -803,8 +816,7 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
-	(void)nullcRunFunction("__finalizeObjects");
-	finalizeList.clear();
+	RunFinalizers();
 }
 
 void NULLC::ClearBlock(Range& curr)
@@ -815,6 +827,7 @@ void NULLC::ClearBlock(Range& curr)
 void NULLC::ClearMemory()
 {
 	collectionEnabled = true;
+	finalizersRunning = false;
 
 	usedMemory = 0;
 
-- 
2.43.0


From 357a5e45ced333b67eacc54e52cfeee457d75dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:36 +0000
Subject: [PATCH 60/62] fix: a collection after nullcFinalize does not free
 large blocks twice

---
 NULLC/StdLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 2e9400c..26fd677 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -242,6 +242,8 @@ public:
 
 	void CollectUnmarked()
 	{
+		objectsToFree.clear();
+
 		for(MyLargeBlock *curr = activePages; curr; curr = curr->next)
 		{
 			for(unsigned int i = 0; i < (curr == activePages ? lastNum : countInBlock); i++)
@@ -581,6 +583,9 @@ void NULLC::MarkMemory(unsigned int number)
 
 void NULLC::CollectUnmarked()
 {
+	// Blocks might remain from a finalization that didn't free memory
+	blocksToFree.clear();
+
 	bigBlocks.for_each(CollectUnmarkedBlock);
 
 	pool8.CollectUnmarked();
-- 
2.43.0


From 9ac02929f95c9777424518906c4e145b65214602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:43 +0000
Subject: [PATCH 61/62] fix: variable data and stack frames can be requested
 without nullcInit

---
 NULLC/nullc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 5e2b026..63e98a7 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1753,6 +1753,7 @@ nullres nullcTestEvaluateInstructionTree(char *resultBuf, unsigned resultBufSize
 void* nullcGetVariableData(unsigned int *count)
 {
 	using namespace NULLC;
+	NULLC_CHECK_INITIALIZED(NULL);
 
 	if(currExec == NULLC_X86)
 	{
@@ -1903,6 +1904,7 @@ unsigned int nullcDebugGetStackFrame()
 unsigned int nullcDebugEnumStackFrame(unsigned frame)
 {
 	using namespace NULLC;
+	NULLC_CHECK_INITIALIZED(0);
 
 	unsigned address = 0;
 
-- 
2.43.0


From 3c40944137cfe323d63965e4e1ff3bebe2420545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:03 +0000
Subject: [PATCH 62/62] fix: breakpoints of generated code are forgotten with
 the program, removing one wrote an old byte into the code of the next program

---
 NULLC/nullc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 63e98a7..139dd38 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -705,6 +705,7 @@ void nullcClean()
 	linker->CleanCode();
 
 	#ifdef NULLC_BUILD_X86_JIT
+	executorX86->ClearBreakpoints();
 	executorX86->ClearNative();
 	#endif
 
-- 
2.43.0

