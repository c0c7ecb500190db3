// a way around a loop that changes nothing: once taken it is taken forever
#include "gc.h"
#include "idle.h"
// blocks of a path from the header to a latch; values of merges follow the path
const Instruction *idlePath(Loop *L)
{
	BasicBlock *H = L->getHeader();
	if(L->getBlocks().size() > 400) return nullptr;
	std::vector<PHINode*> phis;
	for(auto &P : H->phis()) phis.push_back(&P);
	// blocks that do something visible
	std::set<const BasicBlock*> active;
	for(auto *B : L->blocks())
		for(auto &I : *B)
		{
			if(I.mayWriteToMemory()) { if(auto *CB = dyn_cast<CallBase>(&I)) if(auto *C = CB->getCalledFunction()) if(C->isIntrinsic() && (C->getName().starts_with("llvm.dbg") || C->getName().starts_with("llvm.lifetime") || C->getName().starts_with("llvm.assume"))) continue; active.insert(B); }
			if(auto *LI2 = dyn_cast<LoadInst>(&I)) if(LI2->isVolatile()) active.insert(B);
		}
	int budget = 20000;
	const Instruction *found = nullptr;
	std::vector<BasicBlock*> path;
	std::set<BasicBlock*> on;
	std::function<void(BasicBlock*)> go = [&](BasicBlock *B)
	{
		if(found || --budget < 0 || active.count(B)) return;
		path.push_back(B); on.insert(B);
		for(auto *S : successors(B))
		{
			if(S == H)
			{
				// conditions that hold on this way around: branches and choices between values
				std::vector<std::pair<const Value*, bool>> taken;
				bool usable = true;
				for(size_t i = 0; i < path.size(); i++)
				{
					auto *T = path[i]->getTerminator();
					auto *next = i + 1 < path.size() ? path[i + 1] : H;
					if(auto *Br = dyn_cast<BranchInst>(T)) { if(Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) taken.push_back({ Br->getCondition(), Br->getSuccessor(0) == next }); }
					else if(auto *Sw = dyn_cast<SwitchInst>(T)) taken.push_back({ Sw->getCondition(), true });
					else usable = false;
				}
				if(!usable) continue;
				std::vector<const Value*> open;
				for(auto *X : path)
					for(auto &I : *X)
						if(auto *Se = dyn_cast<SelectInst>(&I))
							if(std::find(open.begin(), open.end(), Se->getCondition()) == open.end() && std::none_of(taken.begin(), taken.end(), [&](auto &t) { return t.first == Se->getCondition(); })) open.push_back(Se->getCondition());
				if(open.size() > 8) { budget = -1; return; }
				for(unsigned bits = 0; bits < (1u << open.size()) && !found; bits++)
				{
					auto conds = taken;
					for(size_t i = 0; i < open.size(); i++) conds.push_back({ open[i], bool(bits >> i & 1) });
					// the same two values cannot compare in different ways
					std::map<std::tuple<const Value*, const Value*, bool>, int> order;	// 1 less, 2 equal, 4 greater
					bool possible = true;
					for(auto &c : conds)
						if(auto *C = dyn_cast<ICmpInst>(c.first))
						{
							auto p = c.second ? C->getPredicate() : C->getInversePredicate();
							const Value *x = C->getOperand(0), *y = C->getOperand(1);
							if(x > y) { std::swap(x, y); p = ICmpInst::getSwappedPredicate(p); }
							int m = p == ICmpInst::ICMP_EQ ? 2 : p == ICmpInst::ICMP_NE ? 5 : (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SLT) ? 1 : (p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_SLE) ? 3 : (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SGT) ? 4 : 6;
							for(bool sg : { false, true })
							{
								if(ICmpInst::isRelational(p) && ICmpInst::isSigned(p) != sg) continue;
								auto it = order.emplace(std::make_tuple(x, y, sg), 7).first;
								it->second &= m;
								if(!it->second) possible = false;
							}
						}
					if(!possible) continue;
					// merges of the header whose value stays the same along this path
					std::set<const Value*> same;
					auto along = [&](const Value *v)
					{
						for(int i = 0; i < 64; i++)
						{
							if(auto *Se = dyn_cast<SelectInst>(v))
							{
								auto it = std::find_if(conds.begin(), conds.end(), [&](auto &t) { return t.first == Se->getCondition(); });
								if(it == conds.end()) break;
								v = it->second ? Se->getTrueValue() : Se->getFalseValue();
								continue;
							}
							auto *Q = dyn_cast<PHINode>(v);
							if(!Q || Q->getParent() == H) break;
							auto it = std::find(path.begin(), path.end(), Q->getParent());
							if(it == path.end() || it == path.begin()) break;
							v = Q->getIncomingValueForBlock(*(it - 1));
						}
						return v;
					};
					for(auto *P : phis) if(along(P->getIncomingValueForBlock(B)) == P) same.insert(P);
					// the decisions along the path depend on those only
					std::function<bool(const Value*, int)> stable = [&](const Value *v, int d) -> bool
					{
						auto *I = dyn_cast<Instruction>(v);
						if(!I || !L->contains(I->getParent()) || same.count(I)) return true;
						if(d > 24) return false;
						if(isa<PHINode>(I) || isa<SelectInst>(I)) { const Value *w = along(I); return w != I && stable(w, d + 1); }
						if(isa<CallBase>(I)) return false;
						for(auto &o : I->operands()) if(!stable(o.get(), d + 1)) return false;
						return true;
					};
					bool all = true;
					for(auto &c : taken) if(!stable(c.first, 0)) all = false;
					// choices matter when a value that has to stay the same depends on them
					for(auto *v : open) if(!stable(v, 0)) all = false;
					if(all) found = B->getTerminator();
				}
			}
			else if(L->contains(S) && !on.count(S)) go(S);
		}
		on.erase(B); path.pop_back();
	};
	go(H);
	return budget < 0 ? nullptr : found;
}
