// native library functions: what they do with pointers handed in by scripts
#include "rules.h"
#include "native.h"
std::vector<Function*> nativeRoots()
{
	std::vector<Function*> r; std::set<Function*> seen;
	for(auto &F : *M)
		for(auto &I : instructions(F))
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB))
					if(sname(C).find("nullcBindModuleFunction") != std::string::npos)
						for(auto &a : CB->args())
							if(auto *G = dyn_cast<Function>(a.get()->stripPointerCasts()))
								if(!G->isDeclaration() && fileOf(G).find("nullbind.h") == std::string::npos && seen.insert(G).second) r.push_back(G);
	return r;
}
// a pointer value that came from the script: parameter, or pointer field of a by-value parameter
bool scriptPointer(const Value *v)
{
	if(auto *A = dyn_cast<Argument>(v)) return A->getType()->isPointerTy() && !A->hasByValAttr() && !A->hasStructRetAttr();
	if(auto *L = dyn_cast<LoadInst>(v))
		if(L->getType()->isPointerTy())
		{
			const Value *p = L->getPointerOperand();
			while(auto *G = dyn_cast<GEPOperator>(p)) p = G->getPointerOperand();
			if(auto *A = dyn_cast<Argument>(p)) return A->hasByValAttr();
		}
	return false;
}
const Value *scriptRoot(const Value *v, int depth)
{
	if(depth > 12) return nullptr;
	if(scriptPointer(v)) return v;
	if(auto *G = dyn_cast<GEPOperator>(v)) return scriptRoot(G->getPointerOperand(), depth + 1);
	if(auto *C = dyn_cast<CastInst>(v)) return scriptRoot(C->getOperand(0), depth + 1);
	if(auto *P = dyn_cast<PHINode>(v))
		for(auto &in : P->incoming_values()) if(in.get() != v) if(auto *r = scriptRoot(in.get(), depth + 4)) return r;
	return nullptr;
}

// declared type of the parameter an IR argument belongs to (a by-value struct is split into X.coerce0, X.coerce1)
static std::string paramType(const Argument *A)
{
	std::string n = A->getName().str();
	n = n.substr(0, n.find('.'));
	const Function *F = A->getParent();
	for(auto &I : instructions(*F))
		if(auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
			if(D->getVariable()->isParameter() && D->getVariable()->getName() == n && D->getVariable()->getScope()->getSubprogram() == F->getSubprogram() && !D->getDebugLoc().getInlinedAt()) return typeName(D->getVariable()->getType());
	if(auto *SP = F->getSubprogram())
		for(auto *N : SP->getRetainedNodes()) if(auto *V = dyn_cast<DILocalVariable>(N)) if(V->isParameter() && V->getName() == n) return typeName(V->getType());
	return "";
}
// expression of the element count that travels with an array's data pointer, -1 if the pointer is not an array's data
static int lengthOf(FactFlow &FF, const Value *root)
{
	if(auto *A = dyn_cast<Argument>(root))
	{
		if(A->getName().ends_with(".coerce0") && A->getArgNo() + 1 < A->getParent()->arg_size()) { auto *L = A->getParent()->getArg(A->getArgNo() + 1); if(L->getType()->isIntegerTy(32) && paramType(A).find("NULLCArray") != std::string::npos) return FF.E.of(L); }
		return -1;
	}
	if(auto *L = dyn_cast<LoadInst>(root))
	{
		const Value *p = L->getPointerOperand();
		while(auto *G = dyn_cast<GEPOperator>(p)) p = G->getPointerOperand();
		auto *A = dyn_cast<Argument>(p);
		if(!A || paramType(A).find("NULLCAutoArray") == std::string::npos) return -1;
		// the field following the pointer
		for(auto *U : A->users())
			if(auto *G = dyn_cast<GEPOperator>(U))
			{
				APInt off(64, 0);
				if(!G->accumulateConstantOffset(M->getDataLayout(), off) || off != 12) continue;
				for(auto *V : G->users()) if(auto *LL = dyn_cast<LoadInst>(V)) if(LL->getType()->isIntegerTy(32)) return FF.E.of(LL);
			}
	}
	return -1;
}
// the count is known not to be zero
static bool positive(FactFlow &FF, const FactSet &s, int n, int depth = 0)
{
	if(FF.neNode(s, n, 0)) return true;
	for(auto &f : s)
	{
		if(f.k == F_ULT && f.b == n) return true;
		if(depth < 2 && f.k == F_ULE && f.b == n && f.a != n && positive(FF, s, f.a, depth + 1)) return true;
		if(depth < 2 && f.k == F_EQ && (f.a == n || f.b == n) && positive(FF, s, f.a == n ? f.b : f.a, depth + 1)) return true;
	}
	return false;
}
// an array with no elements has no data pointer, any other has one
static bool guardedByLength(FactFlow &FF, const FactSet &s, const Value *root, const Instruction &I)
{
	int n = lengthOf(FF, root);
	if(n < 0) return false;
	if(positive(FF, s, n)) return true;
	if(auto *MI = dyn_cast<MemIntrinsic>(&I))
	{
		// the size copied is a multiple of the element count
		std::vector<int> work{ FF.E.of(MI->getLength()) };
		for(int guard = 0; !work.empty() && guard < 20; guard++)
		{
			int x = FF.E.strip(work.back());
			work.pop_back();
			if(x == FF.E.strip(n)) return true;
			auto &N = FF.E.nodes[x];
			if(N.k == Node::Bin && (N.c == Instruction::Mul || N.c == Instruction::Shl)) { work.push_back(N.ops[0]); if(N.c == Instruction::Mul) work.push_back(N.ops[1]); }
			if(N.k == Node::Trunc) work.push_back(N.ops[0]);
		}
	}
	return false;
}

// visits every use of a pointer as memory: (instruction, pointer, description)
void derefs(const Instruction &I, std::function<void(const Value*, std::string)> fn)
{
	if(auto *L = dyn_cast<LoadInst>(&I)) fn(L->getPointerOperand(), "read");
	else if(auto *S = dyn_cast<StoreInst>(&I)) fn(S->getPointerOperand(), "write");
	else if(auto *CB = dyn_cast<CallBase>(&I))
	{
		if(isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) return;
		Function *C = calleeOf(CB);
		if(C && C->isIntrinsic() && !isa<MemIntrinsic>(I)) return;
		if(auto *MI = dyn_cast<MemIntrinsic>(CB))
		{
			if(auto *n = dyn_cast<ConstantInt>(MI->getLength())) if(n->isZero()) return;
			fn(MI->getRawDest(), "write");
			if(auto *T = dyn_cast<MemTransferInst>(MI)) fn(T->getRawSource(), "read");
			return;
		}
		std::string cn = C ? sname(C) : "an indirect call";
		for(unsigned i = 0; i < CB->arg_size(); i++)
			if(CB->getArgOperand(i)->getType()->isPointerTy()) fn(CB->getArgOperand(i), "passed to " + cn + " as argument " + std::to_string(i));
	}
}
static bool inRepo(const Function *F) { return fileOf(F).compare(0, 5, "NULLC") == 0; }
// callee (analysed on its own) uses its pointer parameter without a null check
static bool argUnsafe(Function *F, unsigned arg, int depth)
{
	static std::map<std::pair<Function*, unsigned>, bool> memo;
	auto it = memo.find({ F, arg });
	if(it != memo.end()) return it->second;
	if(depth > 6) return true;
	memo[{ F, arg }] = false;
	bool bad = false;
	FactFlow FF(*F);
	FF.run();
	FF.visit([&](const Instruction &I, const FactSet &s) {
		derefs(I, [&](const Value *p, std::string how) {
			const Value *r = scriptRoot(p, 0);
			if(bad || r != F->getArg(arg)) return;
			if(FF.nonNull(s, r) || FF.nonNull(s, p) || guardedByLength(FF, s, r, I)) return;
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB))
					if(!C->isDeclaration() && inRepo(C))
						for(unsigned i = 0; i < CB->arg_size() && i < C->arg_size(); i++)
							if(CB->getArgOperand(i) == p) { if(argUnsafe(C, i, depth + 1)) bad = true; return; }
			bad = true;
		});
	});
	return memo[{ F, arg }] = bad;
}
RULE(nativenull)
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { unsigned n = instrCount(C); return inRepo(C) && n < 200 && sname(C).find("nullcThrow") == std::string::npos && sname(C).find("SafeSprintf") == std::string::npos; };
	P.maxDepth = 4;
	P.maxInstr = 4000;
	for(Function *F : definedFns()) basicSimplify(F, false);
	auto roots = nativeRoots();
	for(Function *F : roots)
	{
		normalise(F, &P);
		R.stat("native_functions");
		FactFlow FF(*F);
		FF.run();
		FF.visit([&](const Instruction &I, const FactSet &s) {
			derefs(I, [&](const Value *p, std::string how) {
				const Value *r = scriptRoot(p, 0);
				if(!r) return;
				R.stat("dereferences");
				if(FF.nonNull(s, r) || FF.nonNull(s, p)) return;
				if(auto *A = dyn_cast<Argument>(r)) if(A->getName().ends_with(".coerce0") && paramType(A).find("NULLCFuncPtr") != std::string::npos) { R.stat("function_contexts"); return; } // an opaque context handed back to the virtual machine
				if(guardedByLength(FF, s, r, I)) { R.stat("guarded_by_element_count"); return; }
				if(auto *CB = dyn_cast<CallBase>(&I))
					if(Function *C = calleeOf(CB))
						if(!C->isDeclaration() && inRepo(C))
							for(unsigned i = 0; i < CB->arg_size() && i < C->arg_size(); i++)
								if(CB->getArgOperand(i) == p && !argUnsafe(C, i, 0)) { R.stat("checked_by_callee"); return; }
				R.add("NATIVE-NULL", &I, sname(F), "script pointer " + FF.E.str(FF.E.of(p)) + " " + how + " without a null check", FF.E.str(FF.E.of(r)) + " " + how);
			});
		});
	}
	if(roots.size() < 300) R.brk("only " + std::to_string(roots.size()) + " native functions found");
}

// C11: results of script heap allocation are checked before use
static std::set<Function*> nullable;
static const CallBase *allocRoot(const Value *v, int depth = 0)
{
	if(depth > 12) return nullptr;
	if(auto *CB = dyn_cast<CallBase>(v)) { Function *C = calleeOf(CB); return C && nullable.count(C) ? CB : nullptr; }
	if(auto *G = dyn_cast<GEPOperator>(v)) return allocRoot(G->getPointerOperand(), depth + 1);
	if(auto *C = dyn_cast<CastInst>(v)) return allocRoot(C->getOperand(0), depth + 1);
	if(auto *X = dyn_cast<ExtractValueInst>(v)) return X->getType()->isPointerTy() ? allocRoot(X->getAggregateOperand(), depth + 1) : nullptr;
	if(auto *P = dyn_cast<PHINode>(v))
		for(auto &in : P->incoming_values()) if(in.get() != v) if(auto *r = allocRoot(in.get(), depth + 4)) return r;
	if(auto *S = dyn_cast<SelectInst>(v)) { if(auto *r = allocRoot(S->getTrueValue(), depth + 4)) return r; return allocRoot(S->getFalseValue(), depth + 4); }
	return nullptr;
}
RULE(allocnull)
{
	for(Function *F : definedFns()) basicSimplify(F, false);
	for(const char *n : { "NULLC::AllocObject", "NULLC::AllocArray", "nullcAllocate", "nullcAllocateTyped", "nullcAllocateArrayTyped", "nullcAllocateObjectTyped" })
	{
		Function *F = findFn(n);
		if(!F) { R.brk(std::string("allocation function ") + n + " not found"); continue; }
		nullable.insert(F);
	}
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { return inRepo(C) && !nullable.count(C) && instrCount(C) < 60 && sname(C).find("nullcThrow") == std::string::npos; };
	P.maxDepth = 3;
	P.maxInstr = 20000;
	buildCallGraph();
	std::set<Function*> users;
	for(Function *F : nullable) for(Function *G : callersOf(F)) if(!nullable.count(G) || true) users.insert(G);
	for(Function *F : users) if(inRepo(F)) normalise(F, &P);
	// helpers that hand an unchecked result back
	for(bool ch = true; ch;)
	{
		ch = false;
		for(Function *F : users)
			if(!nullable.count(F))
				for(auto &I : instructions(F))
					if(auto *Rt = dyn_cast<ReturnInst>(&I)) if(Rt->getReturnValue() && Rt->getReturnValue()->getType()->isPointerTy() && allocRoot(Rt->getReturnValue())) { nullable.insert(F); ch = true; }
		std::set<Function*> more;
		buildCallGraph();
		for(Function *F : nullable) for(Function *G : callersOf(F)) if(inRepo(G) && users.insert(G).second) { normalise(G, &P); ch = true; }
	}
	for(Function *F : users)
	{
		if(!inRepo(F)) continue;
		R.stat("functions");
		FactFlow FF(*F);
		FF.run();
		FF.visit([&](const Instruction &I, const FactSet &s) {
			if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(nullable.count(C)) { R.stat("allocation_sites"); R.sample(locOf(&I) + " " + sname(F)); }
			derefs(I, [&](const Value *p, std::string how) {
				const CallBase *c = allocRoot(p);
				if(!c) return;
				R.stat("dereferences");
				const Value *q = p;
				if(FF.nonNull(s, q)) return;
				for(int guard = 0; guard < 12; guard++)
				{
					if(auto *G = dyn_cast<GEPOperator>(q)) q = G->getPointerOperand();
					else if(auto *C = dyn_cast<CastInst>(q)) q = C->getOperand(0);
					else break;
					if(FF.nonNull(s, q)) return;
				}
				R.add("ALLOC-NULL", &I, sname(F), "result of " + sname(calleeOf(c)) + " allocated at line " + std::to_string(lineOf(c)) + " is " + how + " without a null check", sname(calleeOf(c)) + " " + how);
			});
		});
	}
}
