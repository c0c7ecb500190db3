#include "loops.h"
bool countingLoop(LoopInfo &LI, const Instruction *at, Counting &c, bool innermostOnly)
{
	for(Loop *L = LI.getLoopFor(at->getParent()); L; L = innermostOnly ? nullptr : L->getParentLoop())
	{
		BasicBlock *H = L->getHeader();
		std::vector<const PHINode*> ivs;
		for(auto &P : H->phis())
		{
			if(!P.getType()->isIntegerTy()) continue;
			const ConstantInt *start = nullptr; int64_t step = 0; bool ok = true;
			for(unsigned i = 0; i < P.getNumIncomingValues(); i++)
			{
				const Value *v = P.getIncomingValue(i);
				if(!L->contains(P.getIncomingBlock(i))) { auto *k = dyn_cast<ConstantInt>(v); if(!k || (start && start != k)) ok = false; start = k; continue; }
				auto *B = dyn_cast<BinaryOperator>(v);
				auto *k = B && B->getOpcode() == Instruction::Add && B->getOperand(0) == &P ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
				if(!k || (step && step != k->getSExtValue())) ok = false; else step = k->getSExtValue();
			}
			if(!ok || !start || !step) continue;
			// the exit test
			SmallVector<BasicBlock*, 4> exiting;
			L->getExitingBlocks(exiting);
			for(BasicBlock *X : exiting)
			{
				auto *BI = dyn_cast<BranchInst>(X->getTerminator());
				auto *C = BI && BI->isConditional() ? dyn_cast<ICmpInst>(BI->getCondition()) : nullptr;
				if(!C) continue;
				const Value *a = C->getOperand(0), *b = C->getOperand(1);
				auto p = C->getPredicate();
				if(!L->contains(BI->getSuccessor(0))) p = CmpInst::getInversePredicate(p);
				auto isIv = [&](const Value *v) { while(auto *k = dyn_cast<CastInst>(v)) v = k->getOperand(0); return v == &P; };
				auto ivPlus = [&](const Value *v) -> int64_t { while(auto *k = dyn_cast<CastInst>(v)) v = k->getOperand(0); auto *B = dyn_cast<BinaryOperator>(v); auto *k = B && B->getOpcode() == Instruction::Add && isIv(B->getOperand(0)) ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; return k ? k->getSExtValue() : 0; };
				if(X != L->getLoopLatch())
				{
					int64_t k = ivPlus(a), k2 = ivPlus(b);
					if(k || k2)
					{
						c.L = L; c.iv = &P; c.bound = k ? b : a; c.start = start->getSExtValue(); c.step = step; c.slack = k + k2; c.single = exiting.size() == 1;
						return true;
					}
				}
				if(isIv(b)) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
				if(!isIv(a)) continue;
				if(p != CmpInst::ICMP_ULT && p != CmpInst::ICMP_SLT && p != CmpInst::ICMP_NE && p != CmpInst::ICMP_ULE && p != CmpInst::ICMP_SLE) continue;
				c.L = L; c.iv = &P; c.bound = b; c.start = start->getSExtValue(); c.step = step; c.single = exiting.size() == 1;
				c.inclusive = p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE;
				return true;
			}
		}
	}
	return false;
}
