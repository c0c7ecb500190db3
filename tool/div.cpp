// integer division: divisor proven non-zero, INT_MIN / -1 excluded
#include "rules.h"
static bool divOk(FactFlow &FF, const FactSet &s, const Value *n, const Value *d, bool sgn, std::string &why);
struct FnCache { std::map<Function*, std::unique_ptr<FactFlow>> m; };
static std::map<Function*, std::unique_ptr<FactFlow>> flows;
static FactFlow &flowOf(Function *F)
{
	auto &p = flows[F];
	if(!p)
	{
		p.reset(new FactFlow(*F));
		std::vector<std::tuple<int, int, int>> pairs;
		FactFlow *ff = p.get();
		for(auto &I : instructions(F))
			if(I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::SRem)
			{
				unsigned w = I.getType()->getIntegerBitWidth();
				for(int a : ff->ids(I.getOperand(0))) for(int b : ff->ids(I.getOperand(1))) pairs.push_back({ a, b, w });
			}
		if(!pairs.empty())
			p->closeHook = [pairs](FactSet &s, FactFlow &f) {
				for(auto &t : pairs)
				{
					int64_t mn = std::get<2>(t) == 64 ? INT64_MIN : -(1ll << (std::get<2>(t) - 1));
					if(f.neNode(s, std::get<0>(t), mn) || f.neNode(s, std::get<1>(t), -1)) s.insert({ F_DERIVED, std::get<0>(t), std::get<1>(t) });
				}
			};
		p->run();
	}
	return *p;
}
static bool zeroOk(Function *F, const Instruction *at, const Value *d, int depth);
static bool argAtCallers(Function *F, std::function<bool(Function*, CallBase*)> ok)
{
	unsigned uses = 0;
	for(auto *U : F->users())
	{
		auto *CB = dyn_cast<CallBase>(U);
		if(!CB || calleeOf(CB) != F) return false; // address taken
		uses++;
		if(!ok(CB->getFunction(), CB)) return false;
	}
	return uses > 0;
}
static bool check(Function *F, const Instruction *at, const Value *n, const Value *d, bool overflow, int depth)
{
	FactFlow &FF = flowOf(F);
	bool ok = false;
	const BasicBlock *B = at->getParent();
	if(!FF.reached.count(B)) return true;
	FactSet s = FF.in[B];
	for(auto &I : *B) { if(&I == at) break; FF.transfer(I, s); }
	if(!overflow) ok = FF.ne(s, d, 0);
	else
	{
		unsigned w = n->getType()->getIntegerBitWidth();
		int64_t mn = w == 64 ? INT64_MIN : -(1ll << (w - 1));
		ok = FF.ne(s, d, -1) || FF.ne(s, n, mn);
		for(int a : FF.ids(n)) for(int b : FF.ids(d)) if(s.count({ F_DERIVED, a, b })) ok = true;
		// a value widened from a narrower type never reaches the minimum
		if(auto *Z = dyn_cast<CastInst>(n)) if((Z->getOpcode() == Instruction::SExt || Z->getOpcode() == Instruction::ZExt)) ok = true;
		if(auto *Z = dyn_cast<CastInst>(d)) if(Z->getOpcode() == Instruction::ZExt) ok = true;
	}
	if(ok) return true;
	if(depth > 3) return false;
	auto *dA = dyn_cast<Argument>(d); auto *nA = dyn_cast<Argument>(n);
	if(dA && (!overflow || nA || isa<Constant>(n)))
		return argAtCallers(F, [&](Function *C, CallBase *CB) { return check(C, CB, nA ? CB->getArgOperand(nA->getArgNo()) : n, CB->getArgOperand(dA->getArgNo()), overflow, depth + 1); });
	return false;
}
// reachable only through the state block used by generated code, whose traps the SIGFPE handler turns into a script error
static bool onlyFromGeneratedCode(Function *F)
{
	unsigned uses = 0;
	for(auto *U : F->users())
	{
		auto *S = dyn_cast<StoreInst>(U);
		if(!S || S->getValueOperand() != F) return false;
		auto *G = dyn_cast<GEPOperator>(S->getPointerOperand());
		auto *T = G ? dyn_cast<StructType>(G->getSourceElementType()) : nullptr;
		if(!T || !T->hasName() || !T->getName().contains("CodeGenRegVmStateContext")) return false;
		uses++;
	}
	return uses > 0;
}
RULE(div)
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { unsigned n = instrCount(C); return fileOf(C).compare(0, 5, "NULLC") == 0 && (n < 25 || (n < 60 && C->getReturnType()->isIntegerTy())); };
	P.maxDepth = 3;
	auto fns = definedFns();
	buildCallGraph();
	for(Function *F : fns) basicSimplify(F, false);
	std::vector<Function*> want;
	for(Function *F : fns)
		for(auto &I : instructions(F))
		{
			unsigned op = I.getOpcode();
			if((op == Instruction::SDiv || op == Instruction::SRem || op == Instruction::UDiv || op == Instruction::URem) && !isa<ConstantInt>(I.getOperand(1))) { want.push_back(F); break; }
		}
	for(Function *F : want) normalise(F, &P, true);
	bool sigfpe = false;
	if(Function *run = findFn("ExecutorX86::Run"))
		for(Function *G : reachableFrom({ run }))
			for(auto &I : instructions(G))
				if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(C->getName() == "sigaction") if(auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(0))) if(K->getZExtValue() == 8 && !isa<ConstantPointerNull>(CB->getArgOperand(1))) sigfpe = true;
	for(Function *F : fns)
	{
		R.stat("functions");
		for(auto &I : instructions(F))
		{
			unsigned op = I.getOpcode();
			if(!(op == Instruction::SDiv || op == Instruction::SRem || op == Instruction::UDiv || op == Instruction::URem)) continue;
			const Value *n = I.getOperand(0), *d = I.getOperand(1);
			if(auto *K = dyn_cast<ConstantInt>(d))
			{
				R.stat("constant_divisor_sites");
				if(K->isZero()) R.add("DIV-ZERO", &I, scopeName(&I), "division by the constant 0", "const");
				continue;
			}
			if(fileOf(&I).compare(0, 5, "NULLC") != 0) continue;
			R.stat("variable_divisor_sites");
			if(sigfpe && onlyFromGeneratedCode(F)) { R.stat("trap_contained_sites"); continue; }
			R.sample(locOf(&I) + " " + scopeName(&I) + ": " + I.getOpcodeName());
			bool sgn = op == Instruction::SDiv || op == Instruction::SRem;
			if(!check(F, &I, n, d, false, 0)) R.add("DIV-ZERO", &I, scopeName(&I), std::string(I.getOpcodeName()) + " by a divisor that can be zero", I.getOpcodeName() + std::string("@") + std::to_string(I.getType()->getIntegerBitWidth()));
			if(sgn && !check(F, &I, n, d, true, 0)) R.add("DIV-OVERFLOW", &I, scopeName(&I), std::string(I.getOpcodeName()) + " can compute minimum / -1, which traps", I.getOpcodeName() + std::string("@") + std::to_string(I.getType()->getIntegerBitWidth()));
		}
	}
	if(R.stats["variable_divisor_sites"] < 20) R.brk("too few divisions recognised");
}
