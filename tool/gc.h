// shared by the rules about the collector: naming, partial evaluation, obligations on paths
#pragma once
#include "pools.h"
#include "rules.h"
#include "loops.h"
[[maybe_unused]] static const GlobalVariable *globalArg(const CallBase *CB, unsigned i = 0)
{
	return CB->arg_size() > i ? dyn_cast<GlobalVariable>(CB->getArgOperand(i)->stripInBoundsConstantOffsets()) : nullptr;
}
[[maybe_unused]] static std::string gname(const GlobalVariable *G) { return demangle(G->getName().str()); }
[[maybe_unused]] static Function *need(const std::string &n) { Function *F = findFn(n); if(!F) R.brk("function " + n + " not found"); return F; }

// ---- specialisation: fix the value of record fields / masks and let constant folding decide which calls remain
struct Spec
{
	std::map<std::pair<std::string, uint64_t>, int64_t> fields; // (struct name, offset) -> value
	std::map<std::pair<std::string, uint64_t>, int64_t> argFields; // same, only in records passed as arguments
	std::map<int, int64_t> args;
	std::map<std::string, int64_t> calls; // result of a call
	bool nonNull = false;
	bool allLong = false; int64_t longValue = 0; // every 64-bit load
	std::function<int(const Instruction&)> oracle;  // decides a condition: 0, 1 or -1 (unknown)
	bool masks = false; int64_t maskValue = 0;   // and X, m  ->  maskValue & m (small m)
	void field(const char *rec, const char *name, int64_t v)
	{
		auto *T = recordOf(rec);
		if(!T) { R.brk(std::string("record ") + rec + " not found"); return; }
		for(auto &f : fieldsOf(T)) if(f.name == name) { fields[{ rec, f.offset }] = v; return; }
		R.brk(std::string("field ") + rec + "." + name + " not found");
	}
};
[[maybe_unused]] static Function *specialise(Function *F, const Spec &S, const char *passes = "instsimplify,sccp,simplifycfg,loop-simplify,loop-mssa(loop-rotate),instsimplify,sccp,simplifycfg")
{
	Function *C = cloneFn(F);
	const DataLayout &DL = M->getDataLayout();
	std::vector<std::pair<Instruction*, Constant*>> rep;
	for(auto &I : instructions(C))
	{
		if(S.oracle && I.getType()->isIntegerTy())
		{
			int o = S.oracle(I);
			if(o >= 0) { rep.push_back({ &I, ConstantInt::get(I.getType(), o) }); continue; }
		}
		if(auto *L = dyn_cast<LoadInst>(&I))
		{
			if(S.allLong && L->getType()->isIntegerTy(64)) { rep.push_back({ L, ConstantInt::get(L->getType(), S.longValue) }); continue; }
			if(!L->getType()->isIntegerTy()) continue;
			std::string rec; APInt off(64, 0);
			const Value *p = L->getPointerOperand();
			while(auto *G = dyn_cast<GEPOperator>(p))
			{
				auto *ST = dyn_cast<StructType>(G->getSourceElementType());
				if(ST && ST->hasName()) { rec = ST->getName().str(); G->accumulateConstantOffset(DL, off); break; }
				if(!G->accumulateConstantOffset(DL, off)) break;
				p = G->getPointerOperand();
			}
			if(rec.empty()) continue;
			size_t d = rec.find('.'); rec = rec.substr(d + 1);
			size_t e = rec.find('.'); if(e != std::string::npos) rec = rec.substr(0, e);
			if(isa<Argument>(p->stripInBoundsConstantOffsets()))
			{
				auto ia = S.argFields.find({ rec, off.getZExtValue() });
				if(ia != S.argFields.end()) { rep.push_back({ L, ConstantInt::get(L->getType(), ia->second) }); continue; }
			}
			auto it = S.fields.find({ rec, off.getZExtValue() });
			if(it != S.fields.end()) rep.push_back({ L, ConstantInt::get(L->getType(), it->second) });
		}
		else if(auto *CB = dyn_cast<CallBase>(&I))
		{
			Function *X = calleeOf(CB);
			if(X && S.calls.count(sname(X)) && CB->getType()->isIntegerTy()) rep.push_back({ CB, ConstantInt::get(CB->getType(), S.calls.at(sname(X))) });
		}
		else if(auto *Cmp = dyn_cast<ICmpInst>(&I))
		{
			if(S.nonNull && Cmp->isEquality() && isa<ConstantPointerNull>(Cmp->getOperand(1))) rep.push_back({ Cmp, ConstantInt::get(Cmp->getType(), Cmp->getPredicate() == CmpInst::ICMP_NE) });
		}
		else if(auto *B = dyn_cast<BinaryOperator>(&I))
		{
			if(S.masks && B->getOpcode() == Instruction::And)
				if(auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) if(K->getZExtValue() < 256 && !isa<PtrToIntInst>(B->getOperand(0))) rep.push_back({ B, ConstantInt::get(B->getType(), K->getZExtValue() & S.maskValue) });
		}
	}
	for(auto &r : rep) r.first->replaceAllUsesWith(r.second);
	for(auto &a : S.args) if(C->arg_size() > (unsigned)a.first) C->getArg(a.first)->replaceAllUsesWith(ConstantInt::get(C->getArg(a.first)->getType(), a.second));
	runPasses(C, passes);
	return C;
}
[[maybe_unused]] static InstrPred callTo(std::set<std::string> names)
{
	return [names](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && names.count(sname(C)); };
}
[[maybe_unused]] static bool reaches(Function *F, InstrPred p) { for(auto &I : instructions(F)) if(p(I)) return true; return false; }
[[maybe_unused]] static void mustCall(Function *orig, const Spec &S, std::set<std::string> names, const std::string &what, InstrPred extra = nullptr)
{
	Function *F = specialise(orig, S, "instsimplify,sccp,simplifycfg,loop-simplify,instsimplify,sccp,simplifycfg");
	R.stat("specialised_cases");
	auto hit0 = callTo(names);
	// entering a loop that makes the call counts: gctrace decides how often it runs
	std::set<const Instruction*> heads;
	{
		DominatorTree DT(*F); LoopInfo LI(DT);
		for(auto &I : instructions(F)) if(hit0(I)) for(Loop *L = LI.getLoopFor(I.getParent()); L; L = L->getParentLoop()) heads.insert(&L->getHeader()->front());
	}
	auto hit = [&](const Instruction &I) { return hit0(I) || (extra && extra(I)) || heads.count(&I); };
	const Instruction *w = pathAvoiding(F, nullptr, hit);
	if(w) R.addAt("MARK-DISPATCH", fileOf(orig), lineOf(orig), sname(orig), what, what);
	F->eraseFromParent();
}
[[maybe_unused]] static std::vector<CallBase*> callsIn(Function *F, std::function<bool(Function*, CallBase*)> p)
{
	std::vector<CallBase*> r;
	for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) { Function *C = calleeOf(CB); if(C && p(C, CB)) r.push_back(CB); }
	return r;
}
// key of the container a member call is made on
[[maybe_unused]] static std::string containerKey(const CallBase *CB)
{
	if(!CB->arg_size()) return "";
	const Value *v = CB->getArgOperand(0);
	APInt off(64, 0);
	const Value *b = v->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
	if(auto *G = dyn_cast<GlobalVariable>(b)) return G->getName().str();
	if(auto *A = dyn_cast<Argument>(b)) return "arg" + std::to_string(A->getArgNo()) + "+" + std::to_string(off.getZExtValue());
	return "?";
}
[[maybe_unused]] static bool isPush(const Function *C) { std::string m = methodOf(C); return m == "push_back" && classOf(C).compare(0, 10, "FastVector") == 0; }
[[maybe_unused]] static bool isElem(const Function *C) { std::string m = methodOf(C); return (m == "operator[]" || m == "at") && classOf(C).compare(0, 10, "FastVector") == 0; }
[[maybe_unused]] static bool storesOr(const Instruction &I, uint64_t bit)
{
	auto *S = dyn_cast<StoreInst>(&I);
	if(!S) return false;
	const Value *v = S->getValueOperand();
	for(int i = 0; i < 4; i++)
	{
		auto *B = dyn_cast<BinaryOperator>(v);
		if(!B || B->getOpcode() != Instruction::Or) return false;
		auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
		if(K && (K->getZExtValue() & bit)) return true;
		v = B->getOperand(0);
	}
	return false;
}
