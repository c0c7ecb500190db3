// Conditions known to hold at a program point because a branch that decides them dominates it; structural equality of values.
#pragma once
#include "rules.h"
#include "core.h"
namespace {
// comparisons whose outcome is known when a condition has the given value
[[maybe_unused]] std::vector<std::pair<const ICmpInst*, bool>> implied(const Value *c, bool truth, int d = 0)
{
	std::vector<std::pair<const ICmpInst*, bool>> r;
	if(d > 6) return r;
	if(auto *C = dyn_cast<ICmpInst>(c)) { r.push_back({ C, truth }); return r; }
	auto both = [&](const Value *a, const Value *b) { r = implied(a, truth, d + 1); auto q = implied(b, truth, d + 1); r.insert(r.end(), q.begin(), q.end()); };
	if(auto *S = dyn_cast<SelectInst>(c))
	{
		auto *t = dyn_cast<ConstantInt>(S->getTrueValue()), *f = dyn_cast<ConstantInt>(S->getFalseValue());
		// the arm with the other constant was not chosen
		if(f && f->isOne() != truth) { r = implied(S->getCondition(), true, d + 1); auto q = implied(S->getTrueValue(), truth, d + 1); r.insert(r.end(), q.begin(), q.end()); }
		else if(t && t->isOne() != truth) { r = implied(S->getCondition(), false, d + 1); auto q = implied(S->getFalseValue(), truth, d + 1); r.insert(r.end(), q.begin(), q.end()); }
	}
	if(auto *B = dyn_cast<BinaryOperator>(c))
	{
		if((truth && B->getOpcode() == Instruction::And) || (!truth && B->getOpcode() == Instruction::Or)) both(B->getOperand(0), B->getOperand(1));
		if(B->getOpcode() == Instruction::Xor) if(auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) if(K->isOne()) return implied(B->getOperand(0), !truth, d + 1);
	}
	return r;
}
// a comparison with the operands in the order that makes it true
struct Cmp { CmpInst::Predicate p; const Value *a, *b; };
[[maybe_unused]] std::vector<Cmp> conditionsAt(const Instruction *I, const DominatorTree &DT)
{
	std::vector<Cmp> r;
	auto *B = I->getParent();
	for(auto *N = DT.getNode(B); N && N->getIDom(); N = N->getIDom())
	{
		auto *P = N->getIDom()->getBlock();
		auto *Br = dyn_cast<BranchInst>(P->getTerminator());
		if(!Br || !Br->isConditional()) continue;
		for(int e = 0; e < 2; e++)
			if(DT.dominates(BasicBlockEdge(P, Br->getSuccessor(e)), B))
				for(auto &x : implied(Br->getCondition(), e == 0)) r.push_back({ x.second ? x.first->getPredicate() : x.first->getInversePredicate(), x.first->getOperand(0), x.first->getOperand(1) });
	}
	return r;
}
[[maybe_unused]] const Value *uncast(const Value *v) { while(auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); return v; }
// the same value, or loads of the same place (the caller vouches that the place does not change in between)
[[maybe_unused]] bool sameValue(const Value *a, const Value *b, bool casts, int d = 0)
{
	if(a == b) return true;
	if(d > 8) return false;
	if(casts) { a = uncast(a); b = uncast(b); if(a == b) return true; }
	auto *l = dyn_cast<LoadInst>(a), *m = dyn_cast<LoadInst>(b);
	if(l && m) return sameValue(l->getPointerOperand(), m->getPointerOperand(), casts, d + 1);
	auto *g = dyn_cast<GetElementPtrInst>(a), *h = dyn_cast<GetElementPtrInst>(b);
	if(g && h)
	{
		if(g->getSourceElementType() != h->getSourceElementType() || g->getNumOperands() != h->getNumOperands()) return false;
		for(unsigned i = 0; i < g->getNumOperands(); i++) if(!sameValue(g->getOperand(i), h->getOperand(i), casts, d + 1)) return false;
		return true;
	}
	auto *p = dyn_cast<CastInst>(a), *q = dyn_cast<CastInst>(b);
	if(p && q) return p->getOpcode() == q->getOpcode() && p->getType() == q->getType() && sameValue(p->getOperand(0), q->getOperand(0), casts, d + 1);
	auto *x = dyn_cast<BinaryOperator>(a), *y = dyn_cast<BinaryOperator>(b);
	return x && y && x->getOpcode() == y->getOpcode() && sameValue(x->getOperand(0), y->getOperand(0), casts, d + 1) && sameValue(x->getOperand(1), y->getOperand(1), casts, d + 1);
}
}
