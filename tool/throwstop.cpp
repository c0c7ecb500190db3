// C12: a native function that reported an error has no further effect
#include "rules.h"
#include "native.h"
static bool inRepo(const Function *F) { return fileOf(F).compare(0, 5, "NULLC") == 0; }
static bool isThrow(const Function *C) { std::string n = sname(C); return n == "nullcThrowError" || n == "nullcThrowErrorObject"; }
// memory the function owns itself: stack slots, the slot its result is returned in, by-value parameters
static bool ownMemory(const Value *v, int depth = 0)
{
	if(depth > 20) return false;
	if(isa<AllocaInst>(v)) return true;
	if(auto *A = dyn_cast<Argument>(v)) return A->hasStructRetAttr() || A->hasByValAttr();
	if(auto *G = dyn_cast<GEPOperator>(v)) return ownMemory(G->getPointerOperand(), depth + 1);
	if(auto *C = dyn_cast<CastInst>(v)) return ownMemory(C->getOperand(0), depth + 1);
	if(auto *P = dyn_cast<PHINode>(v)) { for(auto &in : P->incoming_values()) if(in.get() != v && !ownMemory(in.get(), depth + 5)) return false; return true; }
	return false;
}
static bool releases(const Function *C)
{
	std::string n = sname(C);
	static const char *names[] = { "free", "fclose", "close", "operator delete", "operator delete[]", "NULLC::dealloc", "NULLC::alignedDealloc" };
	for(auto *x : names) if(n == x) return true;
	return n.compare(0, 15, "NULLC::destruct") == 0;
}
static bool readsOnly(const Function *C)
{
	std::string n = sname(C);
	static const char *names[] = { "strlen", "strcmp", "memcmp", "strncmp", "strchr", "strrchr", "strstr", "__errno_location", "feof", "ferror", "isdigit", "isalpha", "isspace" };
	for(auto *x : names) if(n == x) return true;
	return C->doesNotAccessMemory() || C->onlyReadsMemory();
}
// effects visible outside the function
static std::map<const Function*, int> memoEff;
static bool hasEffect(Function *F, int depth, std::string &what);
static bool effectOf(const Instruction &I, int depth, std::string &what)
{
	if(isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) return false;
	if(auto *S = dyn_cast<StoreInst>(&I)) { if(ownMemory(S->getPointerOperand())) return false; what = "writes memory"; return true; }
	if(isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { what = "writes memory"; return true; }
	auto *CB = dyn_cast<CallBase>(&I);
	if(!CB) return false;
	Function *C = calleeOf(CB);
	if(!C) { what = "calls through a pointer"; return true; }
	if(auto *MI = dyn_cast<MemIntrinsic>(CB)) { if(ownMemory(MI->getRawDest())) return false; what = "writes memory"; return true; }
	if(C->isIntrinsic()) return false;
	if(releases(C) || readsOnly(C)) return false;
	if(isThrow(C)) { what = "raises a second error"; return true; }
	if(C->isDeclaration() || !inRepo(C))
	{
		// a foreign routine that is given nothing but the function's own objects (constructors and destructors of temporaries)
		bool own = CB->arg_size() > 0 && CB->getArgOperand(0)->getType()->isPointerTy();
		for(auto &a : CB->args()) if(a->getType()->isPointerTy() && !ownMemory(a.get()) && !isa<Constant>(a.get())) own = false;
		if(own && ownMemory(CB->getArgOperand(0))) return false;
	}
	if(C->isDeclaration() || !inRepo(C)) { what = "calls " + sname(C); return true; }
	std::string sub;
	if(hasEffect(C, depth + 1, sub)) { what = "calls " + sname(C) + ", which " + sub; return true; }
	return false;
}
static std::map<const Function*, std::string> memoWhat;
static bool hasEffect(Function *F, int depth, std::string &what)
{
	auto it = memoEff.find(F);
	if(it != memoEff.end()) { what = memoWhat[F]; return it->second; }
	if(depth > 8) { what = "is too deep to analyse"; return true; }
	memoEff[F] = 0;
	for(auto &I : instructions(F))
		if(effectOf(I, depth, what)) { memoEff[F] = 1; memoWhat[F] = what; return true; }
	return false;
}
RULE(throwstop)
{
	InlinePolicy P;
	// helpers that report errors (and tell the caller through their result) become part of the caller
	// as long as they belong to the same library module; the engine's own entry points keep their error protocol to themselves
	for(Function *F : definedFns()) basicSimplify(F, false);
	auto roots = nativeRoots();
	std::set<Function*> rootSet(roots.begin(), roots.end());
	static Function *cur;
	P.want = [&](Function *C, CallBase *) { return inRepo(C) && fileOf(C) == fileOf(cur) && !rootSet.count(C) && instrCount(C) < 300 && !isThrow(C) && sname(C).find("::Alloc") == std::string::npos; };
	P.maxDepth = 5;
	P.maxInstr = 6000;
	for(Function *F : roots)
	{
		cur = F;
		normalise(F, &P);
		R.stat("native_functions");
		for(auto &I : instructions(F))
		{
			auto *CB = dyn_cast<CallBase>(&I);
			Function *C = CB ? calleeOf(CB) : nullptr;
			if(!C || !isThrow(C)) continue;
			R.stat("raise_sites");
			R.sample(locOf(&I) + " in " + sname(F));
			std::deque<const Instruction*> work;
			std::set<const BasicBlock*> seen;
			auto scan = [&](BasicBlock::const_iterator b, BasicBlock::const_iterator e) {
				for(; b != e; ++b)
				{
					std::string what;
					if(effectOf(*b, 0, what)) { R.add("AFTER-ERROR", &*b, sname(F), "after the error raised at line " + std::to_string(lineOf(&I)) + " the function still " + what, "raise " + std::to_string(0) + " " + what); return false; }
				}
				return true;
			};
			auto cont = [&](const BasicBlock *B) { for(auto *S : successors(B)) if(seen.insert(S).second) work.push_back(&S->front()); };
			if(scan(std::next(I.getIterator()), I.getParent()->end())) cont(I.getParent());
			while(!work.empty())
			{
				const Instruction *s = work.front();
				work.pop_front();
				if(scan(s->getIterator(), s->getParent()->end())) cont(s->getParent());
			}
		}
	}
	if(roots.size() < 250) R.brk("only " + std::to_string(roots.size()) + " native functions found");
}
