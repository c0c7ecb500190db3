// C01: script memory accesses of the register VM interpreter are dominated by a null page check
#include "rules.h"
static bool isRegFileGep(const Exprs &E, const Value *v)
{
	auto *G = dyn_cast<GEPOperator>(v->stripPointerCasts());
	if(!G) return false;
	auto *T = dyn_cast<StructType>(G->getSourceElementType());
	return T && T->hasName() && T->getName().contains("RegVmRegister");
}
// the register file load an address is built from; nullptr when the address is not script controlled
static const LoadInst *scriptBase(const Exprs &E, const Value *v, int depth = 0)
{
	if(depth > 12) return nullptr;
	if(auto *L = dyn_cast<LoadInst>(v)) return isRegFileGep(E, L->getPointerOperand()) && L->getType()->getPrimitiveSizeInBits() != 32 ? L : nullptr;
	if(auto *G = dyn_cast<GEPOperator>(v)) return scriptBase(E, G->getPointerOperand(), depth + 1);
	if(auto *C = dyn_cast<CastInst>(v)) return scriptBase(E, C->getOperand(0), depth + 1);
	if(auto *B = dyn_cast<BinaryOperator>(v))
		if(B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)
		{
			if(auto *r = scriptBase(E, B->getOperand(0), depth + 1)) return r;
			return scriptBase(E, B->getOperand(1), depth + 1);
		}
	if(auto *P = dyn_cast<PHINode>(v))
		for(auto &in : P->incoming_values()) if(in.get() != v) if(auto *r = scriptBase(E, in.get(), depth + 4)) return r;
	return nullptr;
}
static bool microcodeIndexed(const LoadInst *L)
{
	auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts());
	if(!G || G->getNumIndices() < 1) return false;
	const Value *ix = *G->idx_begin();
	while(auto *C = dyn_cast<CastInst>(ix)) ix = C->getOperand(0);
	if(auto *K = dyn_cast<ConstantInt>(ix)) return true; // a fixed frame/global/constant register
	auto *IL = dyn_cast<LoadInst>(ix);
	return IL && IL->getType()->isIntegerTy(32);
}
RULE(vmnull)
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { return instrCount(C) < 150 && fileOf(C).compare(0, 5, "NULLC") == 0; };
	P.maxDepth = 3;
	long total = 0, fixed = 0;
	auto fns = definedFns();
	std::vector<Function*> todo;
	for(Function *F : fns)
	{
		if(sname(F).compare(0, 15, "ExecutorRegVm::") != 0) continue;
		todo.push_back(F);
	}
	if(!findFn("ExecutorRegVm::RunCode")) R.brk("anchor ExecutorRegVm::RunCode not found");
	for(Function *F : todo) normalise(F, &P, true);
	for(Function *F : todo)
	{
		R.stat("functions");
		bool any = false;
		for(auto &I : instructions(F)) if(auto *G = dyn_cast<GetElementPtrInst>(&I)) if(isRegFileGep(Exprs(), G)) any = true;
		if(!any) continue;
		FactFlow FF(*F);
		FF.run();
		FF.visit([&](const Instruction &I, const FactSet &s) {
			std::vector<const Value*> ps;
			if(auto *L = dyn_cast<LoadInst>(&I)) ps.push_back(L->getPointerOperand());
			else if(auto *S = dyn_cast<StoreInst>(&I)) ps.push_back(S->getPointerOperand());
			else if(auto *MI = dyn_cast<MemIntrinsic>(&I)) { ps.push_back(MI->getRawDest()); if(auto *MT = dyn_cast<MemTransferInst>(MI)) ps.push_back(MT->getRawSource()); }
			for(auto *p : ps)
			{
				auto *base = scriptBase(FF.E, p);
				if(!base) continue;
				if(microcodeIndexed(base)) { fixed++; continue; }
				total++;
				R.sample(locOf(&I) + " " + scopeName(&I) + ": " + FF.E.str(FF.E.of(p)));
				bool ok = false;
				for(int id : FF.ids(base))
					for(auto &f : s)
						if(f.b == id && (f.k == F_ULE || f.k == F_ULT) && FF.E.nodes[f.a].k == Node::Const && (uint64_t)FF.E.nodes[f.a].c + (f.k == F_ULT) >= 0x10000) ok = true;
				if(!ok) R.add("NULL-PAGE", &I, scopeName(&I), "access through script pointer " + FF.E.str(FF.E.of(base)) + " is not preceded on every path by a check that it is at or above 0x10000", FF.E.str(FF.E.of(p)) + "#" + std::to_string(I.getOpcode()));
			}
		});
	}
	R.stat("accesses", total);
	R.stat("fixed_register_accesses", fixed);
	if(total < 60) R.brk("only " + std::to_string(total) + " script memory accesses recognised in the interpreter (hand count: 65+)");
}
