// C04: stack frames are reserved against the limits of the stacks before they are used
#include "rules.h"
#include "lin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
namespace {
struct Member { std::string role; uint64_t off; Type *T; };
// a function of an executor with its members turned into values
struct Frame
{
	Function *F = nullptr; // clone
	std::string name;
	DominatorTree DT;
	std::map<const Value*, const Value*> same;
	Function *role(const std::string &r, Type *T)
	{
		auto C = M->getOrInsertFunction("nv." + r + (T->isPointerTy() ? ".p" : "." + std::to_string(T->getIntegerBitWidth())), FunctionType::get(T, false));
		return cast<Function>(C.getCallee());
	}
	static std::string roleOf(const Value *v)
	{
		auto *C = dyn_cast<CallInst>(v);
		Function *G = C ? C->getCalledFunction() : nullptr;
		if(!G || G->getName().substr(0, 3) != "nv.") return "";
		auto r = G->getName().substr(3);
		return r.substr(0, r.rfind('.')).str();
	}
};
uint64_t fieldAt(const char *rec, const char *field, uint64_t add = 0, const DIType **type = nullptr)
{
	auto *D = recordOf(rec);
	if(D) for(auto &f : fieldsOf(D)) if(f.name == field) { if(type) *type = f.type; return f.offset + add; }
	R.brk(std::string("field ") + rec + "::" + field + " not found");
	return ~0ull;
}
uint64_t inVector(const DIType *T, const char *field)
{
	auto *C = dyn_cast_or_null<DICompositeType>(stripType(T));
	if(C) for(auto &f : fieldsOf(C)) if(f.name == field) return f.offset;
	R.brk(std::string("vector field ") + field + " not found");
	return ~0ull;
}
struct Config { std::string cls; std::map<uint64_t, std::string> roles; bool vm; Int guard = 0; /* bytes after the end of a stack that belong to its protected page */ };
// the allocator is called through a variable
std::string allocatorCall(const CallBase *CB)
{
	auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
	auto *G = L ? dyn_cast<GlobalVariable>(L->getPointerOperand()) : nullptr;
	if(!G) return "";
	StringRef n = G->getName();
	return n == "_ZN5NULLC5allocE" ? "alloc" : n == "_ZN5NULLC7deallocE" ? "dealloc" : "";
}
bool harmless(Function *C, const Instruction &I, const Config &K, const Argument *self)
{
	if(isa<IntrinsicInst>(I) || !allocatorCall(cast<CallBase>(&I)).empty()) return true;
	if(!C) return false;
	StringRef n = C->getName();
	if(n.startswith("nv.") || n.startswith("nvset.") || n == "memcpy" || n == "memset" || n == "memmove" || n == "mprotect") return true;
	std::string s = sname(C);
	if(s == "NULLC::copyMemory" || s == "NULLC::fillMemory") return true;
	if(s.find("FastVector<") == 0) return true; // growing some vector; the one of the frames is looked at separately
	return false;
}
// members of the object become values: loads on entry, fresh values after calls
void promote(Frame &P, const Config &K, Function *runCode)
{
	Function *F = P.F;
	auto &DL = M->getDataLayout();
	Argument *self = F->getArg(0);
	std::map<std::pair<uint64_t, Type*>, std::vector<Instruction*>> acc;
	std::map<uint64_t, bool> stored;
	for(auto &I : instructions(*F))
	{
		Value *p = nullptr; Type *T = nullptr;
		if(auto *L = dyn_cast<LoadInst>(&I)) p = L->getPointerOperand(), T = L->getType();
		if(auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand(), T = S->getValueOperand()->getType();
		if(!p || !(T->isPointerTy() || T->isIntegerTy())) continue;
		APInt o(64, 0);
		if(p->stripAndAccumulateConstantOffsets(DL, o, true) != self) continue;
		acc[{ o.getZExtValue(), T }].push_back(&I);
		if(isa<StoreInst>(I)) stored[o.getZExtValue()] = true;
	}
	IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
	std::vector<std::pair<AllocaInst*, std::string>> vary;
	std::map<AllocaInst*, std::string> names;
	for(auto &x : acc)
	{
		std::string r = "m" + std::to_string(x.first.first);
		bool mutableMember = stored[x.first.first];
		auto it = K.roles.find(x.first.first);
		if(it != K.roles.end()) { r = it->second; mutableMember = r == "count" || r == "top" || r == "dtop" || mutableMember; }
		B.SetInsertPoint(&*F->getEntryBlock().getFirstInsertionPt());
		auto *A = B.CreateAlloca(x.first.second);
		names[A] = r;
		Instruction *first = A->getNextNode();
		while(isa<AllocaInst>(first)) first = first->getNextNode();
		B.SetInsertPoint(first);
		B.CreateStore(B.CreateCall(P.role(r, x.first.second)), A);
		for(auto *I : x.second)
		{
			if(auto *L = dyn_cast<LoadInst>(I)) L->setOperand(L->getPointerOperandIndex(), A);
			else
			{
				auto *S = cast<StoreInst>(I);
				// remember the change as a call that names the value
				if(it != K.roles.end())
				{
					auto C = M->getOrInsertFunction("nvset." + r, FunctionType::get(Type::getVoidTy(M->getContext()), { x.first.second }, false));
					auto *CI = CallInst::Create(C, { S->getValueOperand() }, "", S);
					CI->setDebugLoc(S->getDebugLoc());
				}
				S->setOperand(S->getPointerOperandIndex(), A);
			}
		}
		if(mutableMember) vary.push_back({ A, r });
	}
	// the limits, whether the function looks at them or not
	for(auto &r : K.roles)
		if(r.second == "max" || r.second == "end" || r.second == "dend")
		{
			bool have = false;
			for(auto &n : names) have |= n.second == r.second;
			if(have) continue;
			Instruction *first = &*F->getEntryBlock().getFirstInsertionPt();
			while(isa<AllocaInst>(first)) first = first->getNextNode();
			B.SetInsertPoint(first);
			Type *T = r.second == "max" ? (Type*)B.getInt32Ty() : (Type*)B.getPtrTy();
			B.CreateCall(M->getOrInsertFunction(T->isPointerTy() ? "nv.limit.p" : "nv.limit.32", FunctionType::get(B.getVoidTy(), { T }, false)), { B.CreateCall(P.role(r.second, T)) });
		}
	std::vector<CallBase*> calls;
	// positions of the stacks where a function is entered
	std::vector<CallBase*> enters;
	for(auto &I : instructions(*F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(calleeOf(CB) == runCode) enters.push_back(CB);
	for(auto *CB : enters)
		for(auto &x : names)
		{
			if(x.second != "count" && x.second != "top") continue;
			B.SetInsertPoint(CB);
			auto *T = x.first->getAllocatedType();
			B.CreateCall(M->getOrInsertFunction("nv.now." + x.second, FunctionType::get(B.getVoidTy(), { T }, false)), { B.CreateLoad(T, x.first) });
		}
	for(auto &I : instructions(*F)) if(auto *CB = dyn_cast<CallBase>(&I)) { Function *C = calleeOf(CB); if(C && (C->getName().startswith("nv.") || C->getName().startswith("nvset."))) continue; if(!harmless(C, I, K, self)) calls.push_back(CB); }
	for(auto *CB : calls)
	{
		if(isa<InvokeInst>(CB)) continue;
		B.SetInsertPoint(CB->getNextNode());
		for(auto &v : vary) B.CreateStore(B.CreateCall(P.role(v.second, v.first->getAllocatedType())), v.first);
	}
	runPasses(F, "sroa,early-cse,simplifycfg,sroa");
	P.DT.recalculate(*F);
	// the function table does not change while functions run
	std::vector<LoadInst*> reps;
	for(auto &I : instructions(*F))
		if(auto *L = dyn_cast<LoadInst>(&I))
		{
			auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand());
			bool table = false;
			if(G) if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if(ST->hasName() && (ST->getName().contains("ExternFuncInfo") || ST->getName().contains("FastVector"))) table = true;
			if(!table) continue;
			bool found = false;
			for(auto *Q : reps) if(Q->getType() == L->getType() && sameValue(Q->getPointerOperand(), L->getPointerOperand(), true)) { P.same[L] = Q; found = true; break; }
			if(!found) reps.push_back(L);
		}
}
// ------------------------------------------------------------------ places
struct Places
{
	Frame &P;
	Int guard;
	std::set<const Value*> addrLoads;
	int atom(Facts &F, const Value *v)
	{
		auto key = std::make_tuple(v, false);
		auto it = F.atoms.find(key);
		if(it != F.atoms.end()) return it->second;
		int a = F.next++;
		F.atoms[key] = a;
		F.bounds[a] = { 0, Facts::lim(31) };
		F.cons.push_back(Lin::atom(a));
		F.cons.push_back(Lin(Facts::lim(31)) - Lin::atom(a));
		return a;
	}
	// a pointer as a region and a number of bytes from its start
	bool locate(Facts &F, const Value *v, std::string &region, Lin &off, int depth = 0)
	{
		v = F.res(v);
		if(depth > 24) return false;
		std::string r = Frame::roleOf(v);
		if(!r.empty())
		{
			if(r == "data" || r == "regbase") { region = r == "data" ? "the data stack" : "the register file"; off = Lin(0); return true; }
			if(r == "temp") { region = "the argument buffer"; off = Lin(0); return true; }
			if(r == "dtop" || r == "dend" || r == "top" || r == "end")
			{
				region = r[0] == 'd' ? "the data stack" : "the register file";
				off = Lin::atom(atom(F, v));
				limits(F, v, r);
				return true;
			}
			return false;
		}
		if(auto *G = dyn_cast<GEPOperator>(v))
		{
			if(!locate(F, G->getPointerOperand(), region, off, depth + 1)) return false;
			auto &DL = M->getDataLayout();
			for(auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
			{
				auto *ix = it.getOperand();
				if(auto *ST = it.getStructTypeOrNull()) { off = off + Lin((Int)DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())); continue; }
				off = off + F.of(ix, true) * (Int)DL.getTypeAllocSize(it.getIndexedType());
			}
			return true;
		}
		if(auto *C = dyn_cast<CastInst>(v)) if(C->getOperand(0)->getType()->isPointerTy() && C->getType()->isPointerTy()) return locate(F, C->getOperand(0), region, off, depth + 1);
		if(auto *I = dyn_cast<IntToPtrInst>(v)) if(auto *Q = dyn_cast<PtrToIntInst>(F.res(I->getOperand(0)))) return locate(F, Q->getOperand(0), region, off, depth + 1);
		if(isa<PHINode>(v) || isa<SelectInst>(v)) if(std::find(F.merges.begin(), F.merges.end(), v) == F.merges.end()) F.merges.push_back(v);
		return false;
	}
	const Value *endOf(const std::string &region)
	{
		for(auto &I : instructions(*P.F)) { std::string r = Frame::roleOf(&I); if(r == (region == "the data stack" ? "dend" : "end")) return &I; }
		return nullptr;
	}
	const Value *maxOf() { for(auto &I : instructions(*P.F)) if(Frame::roleOf(&I) == "max") return &I; return nullptr; }
	bool capacity(Facts &F, const std::string &region, Lin &cap)
	{
		if(region == "the argument buffer") { cap = Lin(65536); return true; } // allocations are checked separately
		if(region == "the data stack") if(auto *m = maxOf()) { cap = F.of(m, false); F.cons.push_back(Lin(Facts::lim(31)) - cap); return true; }
		if(auto *e = endOf(region)) { cap = Lin::atom(atom(F, e)); return true; }
		return false;
	}
	void limits(Facts &F, const Value *v, const std::string &r)
	{
		if(r != "dtop" && r != "top") return;
		Lin cap;
		if(capacity(F, r == "top" ? "the register file" : "the data stack", cap)) /* at most the part before the protected page */ cap = cap + Lin(guard / 2), F.cons.push_back(cap - Lin::atom(atom(F, v)));
	}
	static unsigned fieldOf(const LoadInst *L, const char *field)
	{
		static std::map<std::string, uint64_t> off;
		if(!off.count(field)) off[field] = fieldAt("ExternFuncInfo", field);
		auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand());
		if(!G) return 0;
		auto *ST = dyn_cast<StructType>(G->getSourceElementType());
		if(!ST || !ST->hasName() || !ST->getName().contains("ExternFuncInfo")) return 0;
		APInt o(64, 0);
		const Value *b = G;
		// offset inside the structure: the last index list
		if(G->getNumIndices() != 2) return 0;
		auto *K = dyn_cast<ConstantInt>(G->getOperand(2));
		(void)b; (void)o;
		return K && M->getDataLayout().getStructLayout(ST)->getElementOffset(K->getZExtValue()) == off[field];
	}
	// what the compiler guarantees about a function, and what holds whenever script code is not in between
	void axioms(Facts &F)
	{
		const Value *mx = maxOf();
		std::vector<const LoadInst*> st, ar;
		for(auto &I : instructions(*P.F))
		{
			if(Frame::roleOf(&I) == "count" && mx) { F.cons.push_back(F.of(mx, false) - F.of(&I, false)); F.cons.push_back(Lin(Facts::lim(31)) - F.of(mx, false)); }
			auto *L = dyn_cast<LoadInst>(&I);
			if(!L) continue;
			if(fieldOf(L, "stackSize")) { F.cons.push_back(Lin(Facts::lim(28)) - F.of(L, false)); st.push_back(L); }
			if(fieldOf(L, "argumentSize")) { F.cons.push_back(Lin(Facts::lim(16)) - Lin(1) - F.of(L, false)); ar.push_back(L); }
			if(fieldOf(L, "regVmRegisters")) for(bool s : { false, true }) { F.cons.push_back(F.of(L, s) - Lin(4)); F.cons.push_back(Lin(256) - F.of(L, s)); }
		}
		for(auto *s : st) for(auto *a : ar) if(sameValue(s->getPointerOperand()->stripPointerCasts() == nullptr ? s : cast<GetElementPtrInst>(s->getPointerOperand())->getPointerOperand(), cast<GetElementPtrInst>(a->getPointerOperand())->getPointerOperand(), true)) F.cons.push_back(F.of(s, false) - F.of(a, false));
	}
};
bool verboseFrames;
void checkFrame(Function *Orig, const Config &K, const std::set<Function*> &toRunCode, Function *runCode)
{
	Frame P;
	P.F = cloneFn(Orig);
	P.name = sname(Orig);
	R.stat("functions");
	InlinePolicy Pol;
	Pol.maxDepth = 6;
	Pol.want = [&](Function *C, CallBase*) {
		if(!C || C->isDeclaration() || C == runCode || C == Orig) return false;
		std::string s = sname(C);
		if(s.find("FastVector<") == 0) { auto q = s.rfind("::"); std::string m = s.substr(q + 2); return m != "grow" && m != "grow_and_add" && m != "grow_no_destroy"; }
		if(s == K.cls + "::Stop" || s == K.cls + "::Run" || s == K.cls + "::RunCode" || s == K.cls + "::InitExecution") return false;
		if(toRunCode.count(C) && K.vm) return true;
		std::string f = fileOf(C);
		return f.find("Executor_") != std::string::npos && instrCount(C) < 200 && C->getSubprogram() && C->getSubprogram()->getName() != "Stop";
	};
	normalise(P.F, &Pol, false);
	// the fields of the called function, whether the function looks at them or not
	uint64_t addrOff = fieldAt("ExternFuncInfo", "regVmAddress");
	(void)addrOff;
	std::vector<LoadInst*> addr;
	for(auto &I : instructions(*P.F)) if(auto *L = dyn_cast<LoadInst>(&I)) if(Places::fieldOf(L, "regVmAddress")) addr.push_back(L);
	struct Wanted { LoadInst *addr; Value *stack, *regs, *args; };
	std::vector<Wanted> wanted;
	for(auto *L : addr)
	{
		auto *G = cast<GetElementPtrInst>(L->getPointerOperand());
		auto *ST = cast<StructType>(G->getSourceElementType());
		auto *SL = M->getDataLayout().getStructLayout(ST);
		IRBuilder<> B(L);
		auto get = [&](const char *f) -> Value* {
			unsigned ix = SL->getElementContainingOffset(fieldAt("ExternFuncInfo", f));
			std::vector<Value*> idx{ G->getOperand(1), B.getInt32(ix) };
			auto *v = B.CreateLoad(ST->getElementType(ix), B.CreateInBoundsGEP(ST, G->getPointerOperand(), idx));
			// keep it
			B.CreateCall(M->getOrInsertFunction("nv.keep." + std::to_string(v->getType()->getIntegerBitWidth()), FunctionType::get(B.getVoidTy(), { v->getType() }, false)), { v });
			return v;
		};
		wanted.push_back({ L, get("stackSize"), get("regVmRegisters"), get("argumentSize") });
		B.CreateCall(M->getOrInsertFunction("nv.keep.32", FunctionType::get(B.getVoidTy(), { L->getType() }, false)), { L });
	}
	promote(P, K, runCode);
	// simplification may have replaced the loads: find them again by what is kept
	wanted.clear();
	{
		std::vector<Value*> kept;
		for(auto &I : instructions(*P.F)) if(auto *C = dyn_cast<CallInst>(&I)) if(auto *G = C->getCalledFunction()) if(G->getName().startswith("nv.keep.")) kept.push_back(C->getArgOperand(0));
		for(size_t i = 0; i + 3 < kept.size(); i += 4)
		{
			auto *L = dyn_cast<LoadInst>(kept[i + 3]);
			if(L) wanted.push_back({ L, kept[i], kept[i + 1], kept[i + 2] });
		}
	}
	if(verboseFrames) P.F->print(errs());
	Places Pl{ P, K.guard, {} };
	Prover Pr(P.DT);
	Pr.same = &P.same;
	Pr.more = [&](Facts &F) { Pl.axioms(F); };
	static std::map<std::string, int> regionKeys;
	Pr.locate = [&](Facts &F, const Value *v, const Value *&key, Lin &off) {
		std::string r;
		if(!Pl.locate(F, v, r, off)) return false;
		key = r == "the data stack" ? (const Value*)P.F : r == "the argument buffer" ? (const Value*)P.F->getArg(1) : (const Value*)P.F->getArg(0);
		return true;
	};
	Argument *id = nullptr; // the function that is started; none for global code
	for(auto &A : P.F->args()) if(A.getType()->isIntegerTy(32) && !id) id = &A;
	auto globalCode = [&](Facts &F, const Instruction *at) {
		if(!id) return false;
		auto cs = conditionsAt(at, P.DT);
		for(auto &x : F.extra) cs.push_back(x);
		for(auto &c : cs) { if(c.p == CmpInst::ICMP_EQ && c.a == id) if(auto *C = dyn_cast<ConstantInt>(c.b)) if(C->isMinusOne()) return true; }
		return false;
	};
	auto fail = [&](const Instruction *I, const std::string &what, const std::string &key) { R.add("frame", I, P.name, what, key); };
	auto within = [&](const Instruction *I, const Value *ptr, std::function<Lin(Facts&)> len, const std::string &what) {
		std::string region; Lin off; bool seen = false;
		Pr.queries = 0;
		bool ok = Pr.prove(I, [&](Facts &F) {
			std::string r; Lin o;
			if(!Pl.locate(F, ptr, r, o)) return false;
			seen = true; region = r;
			if(r != "the argument buffer" && globalCode(F, I)) return true;
			Lin cap;
			if(!Pl.capacity(F, r, cap)) return false;
			Lin n = len(F);
			bool res = F.holds(o) && F.holds(cap + Lin(r == "the argument buffer" ? 0 : K.guard) - o - n);
			if(!res && verboseFrames) F.print(errs(), { cap }, o, n);
			return res;
		});
		if(!seen) return;
		R.stat("writes");
		if(ok) { R.stat("writes_proved"); R.sample(locOf(I) + " " + P.name + ": " + what + " stays inside " + region); }
		else fail(I, what + " is not known to stay inside " + region, what + ":" + region);
	};
	for(auto &I : instructions(*P.F))
	{
		if(!P.DT.isReachableFromEntry(I.getParent())) continue;
		if(auto *S = dyn_cast<StoreInst>(&I)) { unsigned n = M->getDataLayout().getTypeStoreSize(S->getValueOperand()->getType()); within(&I, S->getPointerOperand(), [=](Facts&) { return Lin((Int)n); }, "a write"); continue; }
		if(auto *MI = dyn_cast<MemIntrinsic>(&I)) { within(&I, MI->getRawDest(), [=](Facts &F) { return F.of(MI->getLength(), false); }, isa<MemSetInst>(MI) ? "a fill" : "a copy"); continue; }
		auto *CB = dyn_cast<CallBase>(&I);
		if(!CB) continue;
		Function *C = calleeOf(CB);
		if(!C) continue;
		std::string s = sname(C);
		if(s == "NULLC::copyMemory" || s == "NULLC::fillMemory" || s == "memcpy" || s == "memset") { within(&I, CB->getArgOperand(0), [=](Facts &F) { return F.of(CB->getArgOperand(2), false); }, s == "NULLC::fillMemory" || s == "memset" ? "a fill" : "a copy"); continue; }
		bool grows = s.find("FastVector<") == 0 && s.find("::grow") != std::string::npos;
		if(grows)
		{
			APInt o(64, 0);
			if(CB->getArgOperand(0)->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true) != P.F->getArg(0) || !K.roles.count(o.getZExtValue()) || !K.vm) continue;
			R.stat("stack_growths");
			Pr.queries = 0;
			bool ok = Pr.prove(&I, [&](Facts&) { return false; }); // never reached
			if(ok) R.stat("stack_growths_excluded");
			else fail(&I, "the data stack can be moved to other memory while functions run on it", "grow");
			continue;
		}
		if(s == "nvset.max" || s == "nvset.data" || s == "nvset.dend" || s == "nvset.end" || s == "nvset.regbase") { fail(&I, "a limit of a stack is changed while functions run", s); continue; }
		if(s == "nvset.count")
		{
			R.stat("stack_tops");
			Pr.queries = 0;
			bool ok = Pr.prove(&I, [&](Facts &F) { Lin cap; if(!Pl.capacity(F, "the data stack", cap)) return false; Lin n = F.of(CB->getArgOperand(0), false); return F.holds(cap - n); });
			if(ok) R.stat("stack_tops_proved");
			else fail(&I, "the top of the data stack is moved without a comparison with its limit", "count");
			continue;
		}
		if(C == runCode)
		{
			// the function that is entered has its frame and its registers
			R.stat("entered");
			const Value *ins = CB->getArgOperand(0), *regs = CB->getArgOperand(1);
			const Value *count = nullptr, *top = nullptr;
			// values of the members at this point: marked before
			for(auto *Q = I.getPrevNode(); Q; Q = Q->getPrevNode()) if(auto *C2 = dyn_cast<CallInst>(Q)) if(auto *G = C2->getCalledFunction()) { if(G->getName() == "nv.now.count" && !count) count = C2->getArgOperand(0); if(G->getName() == "nv.now.top" && !top) top = C2->getArgOperand(0); }
			if(!count || !top) { R.brk("stack positions at the start of a function are not known in " + P.name); continue; }
			std::string why;
			int clearing = 0;
			Pr.queries = 0;
			bool ok = Pr.prove(&I, [&](Facts &F) {
				const Value *v = F.res(ins);
				// follow the address of the first instruction to the function it came from
				std::vector<const Value*> work{ v }; std::set<const Value*> seen; const LoadInst *A = nullptr; bool open = false;
				while(!work.empty())
				{
					const Value *x = F.res(work.back()); work.pop_back();
					if(!seen.insert(x).second) continue;
					auto it = P.same.find(x);
					if(it != P.same.end()) x = it->second;
					if(auto *L = dyn_cast<LoadInst>(x)) { if(Places::fieldOf(L, "regVmAddress")) A = L; continue; }
					if(isa<PHINode>(x) || isa<SelectInst>(x)) { open = true; if(std::find(F.merges.begin(), F.merges.end(), x) == F.merges.end()) F.merges.push_back(x); continue; }
					if(auto *G = dyn_cast<GEPOperator>(x)) { for(auto &o : G->operands()) work.push_back(o.get()); continue; }
					if(auto *C2 = dyn_cast<CastInst>(x)) work.push_back(C2->getOperand(0));
					if(auto *B = dyn_cast<BinaryOperator>(x)) for(auto &o : B->operands()) work.push_back(o.get());
				}
				if(!A) { if(open) return false; return true; } // global code
				const Wanted *W = nullptr;
				for(auto &w : wanted) { auto rep = [&](const Value *x) { auto it = P.same.find(x); return it == P.same.end() ? x : it->second; }; if(rep(w.addr) == rep(A)) W = &w; }
				if(!W) { why = "the function that is entered is not known"; return false; }
				std::string r1, r2; Lin o1, o2, cap, n = F.of(W->regs, true) * 8;
				if(!Pl.locate(F, regs, r1, o1) || !Pl.locate(F, top, r2, o2) || r1 != r2 || !Pl.capacity(F, r1, cap)) { why = "its registers are not known to lie in the register file"; return false; }
				if(!F.holds(cap - o1 - n)) { why = "its registers are not known to lie inside the register file"; return false; }
				if(!F.holds(o2 - o1 - n)) { why = "the registers reserved are fewer than the function uses"; return false; }
				// the frame pointer among the registers
				Lin c = F.of(count, false), sz = F.of(W->stack, false);
				unsigned frames = 0;
				Lin frameAt;
				for(auto &J : instructions(*P.F))
				{
					auto *S = dyn_cast<StoreInst>(&J);
					if(!S || !P.DT.dominates(W->addr, S) || !S->getValueOperand()->getType()->isIntegerTy(64)) continue;
					auto *Q = dyn_cast<PtrToIntInst>(S->getValueOperand());
					std::string r3, r4; Lin o3, o4;
					if(!Q || !Pl.locate(F, S->getPointerOperand(), r3, o3) || r3 != r1) continue;
					if(!F.holds(o3 - o1 - Lin(8)) || !F.holds(o1 + Lin(8) - o3)) continue; // rvrrFrame
					frames++;
					if(!Pl.locate(F, Q->getOperand(0), r4, o4) || r4 != "the data stack") { why = "its frame does not lie in the data stack"; return false; }
					if(!F.holds(c - o4 - sz)) { why = "its frame is smaller than its variables"; if(verboseFrames) F.print(errs(), { c, sz }, o4, sz); return false; }
					frameAt = o4;
				}
				if(!frames) { why = "its frame is not set"; return false; }
				// what is not an argument is cleared
				bool fills = false, cleared = false;
				for(auto &J : instructions(*P.F))
				{
					const Value *dst = nullptr, *len = nullptr;
					if(auto *MS = dyn_cast<MemSetInst>(&J)) { if(auto *Z = dyn_cast<ConstantInt>(MS->getValue())) if(Z->isZero()) dst = MS->getRawDest(), len = MS->getLength(); }
					else if(auto *C3 = dyn_cast<CallInst>(&J)) { Function *G = calleeOf(C3); if(G && sname(G) == "NULLC::fillMemory") if(auto *Z = dyn_cast<ConstantInt>(C3->getArgOperand(1))) if(Z->isZero()) dst = C3->getArgOperand(0), len = C3->getArgOperand(2); }
					if(!dst) continue;
					std::string r5; Lin o5;
					if(!Pl.locate(F, dst, r5, o5) || r5 != "the data stack") continue;
					fills = true;
					Lin e5 = o5 + F.of(len, false);
					if(F.holds(frameAt + F.of(W->args, false) - o5) && F.holds(e5 - frameAt - sz)) cleared = true;
					else if(verboseFrames) F.print(errs(), { frameAt, sz }, o5, e5);
				}
				clearing = fills ? 2 : 1;
				if(fills && !cleared) { why = "its variables are not cleared up to the end of its frame"; return false; }
				return true;
			});
			if(clearing) R.stat(clearing == 2 ? "frames_cleared" : "frames_cleared_undecided");
			if(ok) { R.stat("entered_proved"); R.sample(locOf(&I) + " " + P.name + ": the frame and the registers of the entered function are reserved"); }
			else fail(&I, "a function is entered but " + (why.empty() ? "nothing is known about its frame" : why), "enter");
		}
	}
	P.F->eraseFromParent();
}
// ------------------------------------------------------------------ protected pages after the stacks of machine code
bool alignedAfter(const Value *v, int d = 0) // start of a page, computed from an address
{
	if(d > 8) return false;
	if(auto *C = dyn_cast<CastInst>(v)) return alignedAfter(C->getOperand(0), d + 1);
	auto *B = dyn_cast<BinaryOperator>(v);
	if(!B) return false;
	auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
	if(!K) return false;
	if(B->getOpcode() == Instruction::And) return K->isNegative() && K->getSExtValue() % 4096 == 0;
	if(B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) return K->getSExtValue() % 4096 == 0 && alignedAfter(B->getOperand(0), d + 1);
	return false;
}
const Value *addressIn(const Value *v, int d = 0) // the address such a page was computed from
{
	if(d > 8) return nullptr;
	if(auto *P = dyn_cast<PtrToIntInst>(v)) return P;
	if(auto *C = dyn_cast<CastInst>(v)) return addressIn(C->getOperand(0), d + 1);
	if(auto *B = dyn_cast<BinaryOperator>(v)) return addressIn(B->getOperand(0), d + 1);
	return nullptr;
}
bool zeroPointer(const Value *v) { return isa<ConstantPointerNull>(v); }
void checkGuards(Function *Orig, const Config &K, const std::map<std::string, std::string> &baseOf, Int least = 0)
{
	Frame P;
	P.F = cloneFn(Orig);
	P.name = sname(Orig);
	InlinePolicy Pol;
	Pol.maxDepth = 6;
	Pol.want = [&](Function *C, CallBase*) {
		if(!C || C->isDeclaration() || C == Orig) return false;
		std::string s = sname(C), f = fileOf(C);
		if(s.find("::Stop") != std::string::npos) return false;
		return f.find(K.cls == "ExecutorX86" ? "Executor_X86" : "Executor_RegVm") != std::string::npos && instrCount(C) < 400;
	};
	normalise(P.F, &Pol, false);
	promote(P, K, nullptr);
	if(verboseFrames) P.F->print(errs());
	Prover Pr(P.DT);
	const Value *cur = nullptr; // memory that was allocated
	Pr.locate = [&](Facts &F, const Value *v, const Value *&key, Lin &off) {
		v = F.res(v);
		if(auto *G = dyn_cast<GEPOperator>(v))
		{
			if(!Pr.locate(F, G->getPointerOperand(), key, off)) return false;
			auto &DL = M->getDataLayout();
			for(auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
			{
				if(it.getStructTypeOrNull()) return false;
				off = off + F.of(it.getOperand(), true) * (Int)DL.getTypeAllocSize(it.getIndexedType());
			}
			return true;
		}
		if(v != cur) return false;
		key = v; off = Lin(0);
		return true;
	};
	Pr.more = [&](Facts &F) {
		// a stack is smaller than 2 GB
		for(auto &I : instructions(*P.F)) { std::string r = Frame::roleOf(&I); if(I.getType()->isIntegerTy(32) && !r.empty()) F.cons.push_back(Lin(Facts::lim(31) - 16384) - F.of(&I, false)); }
		for(auto &A : P.F->args()) if(A.getType()->isIntegerTy(32)) F.cons.push_back(Lin(Facts::lim(31) - 16384) - F.of(&A, false));
	};
	auto valueOf = [&](const Value *v, const std::string &r) { return Frame::roleOf(v) == r; };
	// protection of the page after an address
	auto protects = [&](const Instruction *I, std::function<bool(const Value*)> isEnd, bool deny) {
		auto *CB = dyn_cast<CallBase>(I);
		Function *C = CB ? calleeOf(CB) : nullptr;
		if(!C || C->getName() != "mprotect") return false;
		auto *prot = dyn_cast<ConstantInt>(CB->getArgOperand(2));
		if(!prot || (deny ? prot->getZExtValue() != 0 : prot->getZExtValue() != 3)) return false;
		const Value *page = CB->getArgOperand(0), *from = addressIn(page);
		if(!from || !alignedAfter(page) || !isEnd(cast<PtrToIntInst>(from)->getOperand(0))) return false;
		auto *num = dyn_cast<CastInst>(page);
		if(!num || !num->getOperand(0)->getType()->isIntegerTy(64)) return false;
		Pr.queries = 0;
		return Pr.prove(I, [&](Facts &F) {
			Lin e = F.of(from, false), p, n = F.of(CB->getArgOperand(1), false);
			F.cons.push_back(Lin(Facts::lim(48)) - e);
			p = F.of(num->getOperand(0), false);
			// starts no more than a page after the end of the stack, covers a page, and ends where the memory ends
			return F.holds(p - e) && F.holds(e + Lin(4096) - p) && F.holds(n - Lin(4096)) && F.holds(e + Lin(8192) - p - n);
		});
	};
	for(auto &I : instructions(*P.F))
	{
		auto *CB = dyn_cast<CallBase>(&I);
		Function *C = CB ? calleeOf(CB) : nullptr;
		if(!CB || !P.DT.isReachableFromEntry(I.getParent())) continue;
		std::string n = C ? C->getName().str() : "";
		if(n.substr(0, 6) == "nvset." && baseOf.count(n.substr(6)))
		{
			std::string end = n.substr(6), base = baseOf.at(end);
			const Value *v = CB->getArgOperand(0);
			if(zeroPointer(v)) continue;
			R.stat("stacks_allocated");
			const Value *o = getUnderlyingObject(v);
			auto *A = dyn_cast<CallBase>(o);
			if(!A || allocatorCall(A) != "alloc") { R.add("guard", &I, P.name, "the end of the " + end + " is set to memory that is not known to have been allocated for it", "alloc:" + end); continue; }
			cur = A;
			Pr.queries = 0;
			bool ok = Pr.prove(&I, [&](Facts &F) -> bool {
				const Value *k; Lin off;
				if(!Pr.locate(F, v, k, off)) return false;
				const Value *sz = A->getArgOperand(0);
				Lin s = F.of(sz, false);
				bool r = F.holds(off - Lin(least)) && F.holds(s - off - Lin(K.guard));
				if(!r && verboseFrames) F.print(errs(), { s }, off, Lin(8192));
				return r;
			});
			if(ok) R.stat("stacks_allocated_with_page");
			else R.add("guard", &I, P.name, K.guard ? "the memory of the " + end + " has no room for the protected page after its end" : "the memory before " + end + " is not known to be as large as it has to be", "room:" + end);
			R.sample(locOf(&I) + " " + P.name + ": " + end);
			if(!K.guard) continue;
			// the page is protected before the function returns
			std::set<const Instruction*> good;
			for(auto &J : instructions(*P.F)) if(protects(&J, [&](const Value *q) { if(q == v) return true; if(valueOf(q, end)) return true; auto *X = dyn_cast<PHINode>(q); if(X) for(auto &in : X->incoming_values()) if(in == v || valueOf(in, end)) return true; return false; }, true)) good.insert(&J);
			if(pathAvoiding(P.F, &I, [&](const Instruction &J) { return good.count(&J) > 0; })) R.add("guard", &I, P.name, "the page after the " + end + " can be left unprotected", "page:" + end);
			else R.stat("pages_protected");
		}
		if(K.guard && allocatorCall(CB) == "dealloc")
		{
			std::string base = Frame::roleOf(CB->getArgOperand(0)), end;
			for(auto &b : baseOf) if(b.second == base && !base.empty()) end = b.first;
			if(end.empty()) continue;
			R.stat("stacks_freed");
			bool ok = false;
			for(auto &J : instructions(*P.F)) if(P.DT.dominates(&J, &I) && protects(&J, [&](const Value *q) { return valueOf(q, end); }, false)) ok = true;
			if(ok) R.stat("stacks_freed_unprotected");
			else R.add("guard", &I, P.name, "memory of the " + end + " is given back while its page is protected", "free:" + end);
		}
	}
	P.F->eraseFromParent();
}
// a fault in the page after a stack becomes an error of the script
void checkHandler(const std::map<uint64_t, std::string> &ends)
{
	Function *Orig = findFn("NULLC::HandleError");
	if(!Orig) { R.brk("NULLC::HandleError not found"); return; }
	Function *F = cloneFn(Orig);
	InlinePolicy Pol;
	Pol.maxDepth = 4;
	Pol.want = [&](Function *C, CallBase*) { return C && !C->isDeclaration() && C != Orig && fileOf(C).find("Executor_X86") != std::string::npos && instrCount(C) < 80 && sname(C).find("::Stop") == std::string::npos; };
	normalise(F, &Pol, false);
	auto &DL = M->getDataLayout();
	uint64_t addrOff = 16; // siginfo_t::si_addr
	for(auto &end : ends)
	{
		// the address is the end and D bytes, 1 <= D <= 8191
		struct Val { int kind = 0; /* 1 number, 2 end + number, 3 address + number, 4 D + number */ Int k = 0; };
		std::function<Val(const Value*, int)> val = [&](const Value *v, int d) -> Val {
			Val none;
			if(d > 10) return none;
			if(auto *C = dyn_cast<ConstantInt>(v)) { Val r; r.kind = 1; r.k = C->getSExtValue(); return r; }
			if(v == F->getArg(0)) { Val r; r.kind = 1; r.k = 11; return r; }
			if(auto *L = dyn_cast<LoadInst>(v))
			{
				APInt o(64, 0);
				auto *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
				if(b == F->getArg(1) && o == addrOff) { Val r; r.kind = 3; return r; }
				if(auto *Q = dyn_cast<LoadInst>(b)) if(auto *G = dyn_cast<GlobalVariable>(Q->getPointerOperand())) if(G->getName().contains("currExecutor") && o == end.first) { Val r; r.kind = 2; return r; }
				return none;
			}
			if(auto *C = dyn_cast<CastInst>(v)) return val(C->getOperand(0), d + 1);
			if(auto *G = dyn_cast<GEPOperator>(v))
			{
				APInt o(64, 0);
				if(!G->accumulateConstantOffset(DL, o)) return none;
				Val r = val(G->getPointerOperand(), d + 1);
				r.k += o.getSExtValue();
				return r;
			}
			if(auto *B = dyn_cast<BinaryOperator>(v))
			{
				Val a = val(B->getOperand(0), d + 1), b = val(B->getOperand(1), d + 1);
				if(!a.kind || !b.kind) return none;
				if(B->getOpcode() == Instruction::Add)
				{
					if(a.kind == 1) std::swap(a, b);
					if(b.kind != 1) return none;
					a.k += b.k;
					return a;
				}
				if(B->getOpcode() == Instruction::Sub)
				{
					if(b.kind == 1) { a.k -= b.k; return a; }
					if(a.kind == b.kind) { Val r; r.kind = 1; r.k = a.k - b.k; return r; }
					if(a.kind == 3 && b.kind == 2) { Val r; r.kind = 4; r.k = a.k - b.k; return r; }
				}
			}
			return none;
		};
		// 0 false, 1 true, 2 either
		std::function<int(const Value*, const BasicBlock*, int)> truth = [&](const Value *c, const BasicBlock *from, int d) -> int {
			if(d > 10) return 2;
			if(auto *K = dyn_cast<ConstantInt>(c)) return K->isZero() ? 0 : 1;
			if(auto *S = dyn_cast<SelectInst>(c)) { int t = truth(S->getCondition(), from, d + 1); int a = truth(S->getTrueValue(), from, d + 1), b = truth(S->getFalseValue(), from, d + 1); return t == 1 ? a : t == 0 ? b : a == b ? a : 2; }
			if(auto *B = dyn_cast<BinaryOperator>(c))
			{
				int a = truth(B->getOperand(0), from, d + 1), b = truth(B->getOperand(1), from, d + 1);
				if(B->getOpcode() == Instruction::And) return !a || !b ? 0 : a == 1 && b == 1 ? 1 : 2;
				if(B->getOpcode() == Instruction::Or) return a == 1 || b == 1 ? 1 : !a && !b ? 0 : 2;
				if(B->getOpcode() == Instruction::Xor) return a == 2 || b == 2 ? 2 : a ^ b;
				return 2;
			}
			if(auto *P = dyn_cast<PHINode>(c)) { int ix = from ? P->getBasicBlockIndex(from) : -1; return ix < 0 ? 2 : truth(P->getIncomingValue(ix), nullptr, d + 1); }
			auto *I = dyn_cast<ICmpInst>(c);
			if(!I) return 2;
			Val a = val(I->getOperand(0), 0), b = val(I->getOperand(1), 0);
			if(!a.kind || !b.kind) return 2;
			Int lo, hi; // of a - b
			if(a.kind == b.kind) lo = hi = a.k - b.k;
			else if(a.kind == 3 && b.kind == 2) { lo = 1 + a.k - b.k; hi = 8191 + a.k - b.k; }
			else if(a.kind == 2 && b.kind == 3) { lo = -8191 + a.k - b.k; hi = -1 + a.k - b.k; }
			else if(a.kind == 4 && b.kind == 1) { lo = 1 + a.k - b.k; hi = 8191 + a.k - b.k; if(1 + a.k < 0) return 2; }
			else return 2;
			switch(I->getPredicate())
			{
			case CmpInst::ICMP_EQ: return lo > 0 || hi < 0 ? 0 : lo == hi ? 1 : 2;
			case CmpInst::ICMP_NE: return lo > 0 || hi < 0 ? 1 : lo == hi ? 0 : 2;
			case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return lo > 0 ? 1 : hi <= 0 ? 0 : 2;
			case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return lo >= 0 ? 1 : hi < 0 ? 0 : 2;
			case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return hi < 0 ? 1 : lo >= 0 ? 0 : 2;
			case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return hi <= 0 ? 1 : lo > 0 ? 0 : 2;
			default: return 2;
			}
		};
		std::set<std::tuple<const BasicBlock*, const BasicBlock*, bool>> seen;
		const Instruction *bad = nullptr; unsigned handled = 0;
		std::function<void(const BasicBlock*, const BasicBlock*, bool)> go = [&](const BasicBlock *B, const BasicBlock *from, bool stopped) {
			if(bad || !seen.insert({ B, from, stopped }).second) return;
			for(auto &I : *B)
			{
				if(auto *CB = dyn_cast<CallBase>(&I))
				{
					Function *C = calleeOf(CB);
					if(!C) continue;
					std::string s = sname(C);
					if(s == "ExecutorX86::Stop") stopped = true;
					if(s == "siglongjmp" || s == "longjmp") { if(!stopped) bad = &I; else handled++; return; }
					if(s == "raise" || s == "abort" || s == "exit" || s == "_exit" || s == "signal") { bad = &I; return; }
				}
				if(isa<ReturnInst>(I)) { bad = &I; return; }
			}
			auto *T = B->getTerminator();
			auto *Br = dyn_cast<BranchInst>(T);
			if(Br && Br->isConditional())
			{
				int t = truth(Br->getCondition(), from, 0);
				if(t != 0) go(Br->getSuccessor(0), B, stopped);
				if(t != 1) go(Br->getSuccessor(1), B, stopped);
				return;
			}
			for(auto *S : successors(B)) go(S, B, stopped);
		};
		go(&F->getEntryBlock(), nullptr, false);
		R.stat("fault_ranges");
		if(bad) R.add("handler", bad, "NULLC::HandleError", "a fault in the protected page after " + end.second + " can get here without being turned into an error of the script", "handler:" + end.second);
		else if(handled) { R.stat("fault_ranges_handled"); R.sample("NULLC::HandleError: a fault after " + end.second + " stops the script"); }
		else R.brk("handling of faults not understood");
	}
	F->eraseFromParent();
	// the handler is installed
	Function *Run = findFn("ExecutorX86::Run");
	bool installed = false, any = false;
	if(Run)
	{
		Function *G = cloneFn(Run);
		InlinePolicy P2;
		P2.maxDepth = 3;
		P2.want = [&](Function *C, CallBase*) { return C && !C->isDeclaration() && C != Run && fileOf(C).find("Executor_X86") != std::string::npos && instrCount(C) < 120 && sname(C) != "ExecutorX86::InitExecution"; };
		normalise(G, &P2, false);
		std::set<const Value*> with;
		for(auto &I : instructions(*G)) if(auto *S = dyn_cast<StoreInst>(&I)) if(S->getValueOperand()->stripPointerCasts() == Orig) with.insert(getUnderlyingObject(S->getPointerOperand()));
		for(auto &I : instructions(*G))
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB))
					if(C->getName() == "sigaction")
					{
						any = true;
						auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(0));
						if(K && K->getZExtValue() == 11 && with.count(getUnderlyingObject(CB->getArgOperand(1)))) installed = true;
					}
		if(any && !installed) R.add("handler", &*Run->getEntryBlock().getTerminator(), "ExecutorX86::Run", "the handler that recognises the protected pages is not installed for memory faults", "installed");
		if(installed) R.stat("handler_installed");
		G->eraseFromParent();
	}
	if(!Run || !any) R.brk("installation of the fault handler not found");
}
// ------------------------------------------------------------------ frames made by machine code
struct Amount { const Instruction *at; std::string fn; const Value *v; bool add; std::string what; };
bool evalAmount(const Value *v, const std::map<uint64_t, uint64_t> &fields, uint64_t &r, int d = 0)
{
	if(d > 16) return false;
	unsigned w = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64;
	auto mask = [&](uint64_t x) { return w >= 64 ? x : x & ((1ull << w) - 1); };
	if(auto *C = dyn_cast<ConstantInt>(v)) { r = C->getZExtValue(); return true; }
	if(auto *L = dyn_cast<LoadInst>(v))
	{
		auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand());
		auto *ST = G ? dyn_cast<StructType>(G->getSourceElementType()) : nullptr;
		if(!ST || !ST->hasName() || !ST->getName().contains("ExternFuncInfo") || G->getNumIndices() != 2) return false;
		auto *K = dyn_cast<ConstantInt>(G->getOperand(2));
		auto it = K ? fields.find(M->getDataLayout().getStructLayout(ST)->getElementOffset(K->getZExtValue())) : fields.end();
		if(it == fields.end()) return false;
		r = mask(it->second);
		return true;
	}
	if(auto *C = dyn_cast<CastInst>(v))
	{
		uint64_t x;
		if(!C->getOperand(0)->getType()->isIntegerTy() || !v->getType()->isIntegerTy() || !evalAmount(C->getOperand(0), fields, x, d + 1)) return false;
		unsigned ow = C->getOperand(0)->getType()->getIntegerBitWidth();
		if(isa<SExtInst>(C) && ow < 64 && (x >> (ow - 1) & 1)) x |= ~0ull << ow;
		r = mask(x);
		return true;
	}
	auto *B = dyn_cast<BinaryOperator>(v);
	uint64_t x, y;
	if(!B || !evalAmount(B->getOperand(0), fields, x, d + 1) || !evalAmount(B->getOperand(1), fields, y, d + 1)) return false;
	switch(B->getOpcode())
	{
	case Instruction::Add: r = mask(x + y); return true;
	case Instruction::Sub: r = mask(x - y); return true;
	case Instruction::Mul: r = mask(x * y); return true;
	case Instruction::And: r = x & y; return true;
	case Instruction::Or: r = x | y; return true;
	case Instruction::Shl: if(y >= w) return false; r = mask(x << y); return true;
	case Instruction::LShr: if(y >= w) return false; r = x >> y; return true;
	case Instruction::UDiv: if(!y) return false; r = x / y; return true;
	case Instruction::URem: if(!y) return false; r = x % y; return true;
	default: return false;
	}
}
bool constantOf(const Value *v, uint64_t &k)
{
	if(auto *C = dyn_cast<ConstantInt>(v)) { k = C->getZExtValue(); return true; }
	while(auto *C = dyn_cast<CastInst>(v)) { if(isa<PtrToIntInst>(C)) return false; v = C->getOperand(0); }
	// distance between two places of one object
	auto *B = dyn_cast<BinaryOperator>(v);
	if(!B || B->getOpcode() != Instruction::Sub) return false;
	auto *p = dyn_cast<PtrToIntInst>(B->getOperand(0)), *q = dyn_cast<PtrToIntInst>(B->getOperand(1));
	if(!p || !q) return false;
	APInt a(64, 0), b(64, 0);
	auto *x = p->getOperand(0)->stripAndAccumulateConstantOffsets(M->getDataLayout(), a, true), *y = q->getOperand(0)->stripAndAccumulateConstantOffsets(M->getDataLayout(), b, true);
	if(x != y) return false;
	k = (a - b).getZExtValue();
	return true;
}
// what the generated prologue clears, for a function of given sizes: the part of the generator that depends only on the
// sizes is evaluated, and the instructions it emits are followed
struct Cleared
{
	Function *F;
	std::map<uint64_t, uint64_t> fields;
	uint64_t dtop, rtop;
	std::map<std::string, uint64_t> op, reg, size;
	std::map<const Value*, uint64_t> env;
	// contents of machine registers: distance from the top of a stack at entry (0 data stack, 1 register file), or a number
	struct Reg { int kind; uint64_t v; };
	std::map<uint64_t, Reg> regs;
	uint64_t moved[2] = { 0, 0 };
	std::vector<std::pair<uint64_t, uint64_t>> zeroed[2];
	bool based[2] = { false, false }, lost = false;
	const Instruction *last[2] = { nullptr, nullptr };
	bool value(const Value *v, uint64_t &r)
	{
		auto it = env.find(v);
		if(it != env.end()) { r = it->second; return true; }
		if(isa<ConstantInt>(v) && v->getType()->getIntegerBitWidth() <= 64) { r = cast<ConstantInt>(v)->getZExtValue(); return true; }
		return false;
	}
	void step(const Instruction &I)
	{
		env.erase(&I);
		if(!I.getType()->isIntegerTy() || I.getType()->getIntegerBitWidth() > 64) return;
		uint64_t r, a, b;
		if(auto *C = dyn_cast<ICmpInst>(&I))
		{
			if(!C->getOperand(0)->getType()->isIntegerTy() || !value(C->getOperand(0), a) || !value(C->getOperand(1), b)) return;
			unsigned w = C->getOperand(0)->getType()->getIntegerBitWidth();
			env[&I] = ICmpInst::compare(APInt(w, a), APInt(w, b), C->getPredicate());
			return;
		}
		if(auto *S = dyn_cast<SelectInst>(&I)) { if(value(S->getCondition(), a) && value(a ? S->getTrueValue() : S->getFalseValue(), r)) env[&I] = r; return; }
		if(auto *C = dyn_cast<CastInst>(&I))
		{
			if(!C->getOperand(0)->getType()->isIntegerTy() || !value(C->getOperand(0), a)) return;
			unsigned ow = C->getOperand(0)->getType()->getIntegerBitWidth(), w = I.getType()->getIntegerBitWidth();
			APInt x(ow, a);
			env[&I] = (isa<SExtInst>(C) ? x.sextOrTrunc(w) : x.zextOrTrunc(w)).getZExtValue();
			return;
		}
		if(auto *B = dyn_cast<BinaryOperator>(&I))
		{
			if(!value(B->getOperand(0), a) || !value(B->getOperand(1), b)) return;
			unsigned w = I.getType()->getIntegerBitWidth();
			APInt x(w, a), y(w, b);
			switch(B->getOpcode())
			{
			case Instruction::Add: x += y; break;
			case Instruction::Sub: x -= y; break;
			case Instruction::Mul: x *= y; break;
			case Instruction::And: x &= y; break;
			case Instruction::Or: x |= y; break;
			case Instruction::Xor: x ^= y; break;
			case Instruction::Shl: if(b >= w) return; x = x.shl(b); break;
			case Instruction::LShr: if(b >= w) return; x = x.lshr(b); break;
			case Instruction::AShr: if(b >= w) return; x = x.ashr(b); break;
			case Instruction::UDiv: if(!b) return; x = x.udiv(y); break;
			case Instruction::URem: if(!b) return; x = x.urem(y); break;
			case Instruction::SDiv: if(!b || y.isAllOnes()) return; x = x.sdiv(y); break;
			case Instruction::SRem: if(!b || y.isAllOnes()) return; x = x.srem(y); break;
			default: return;
			}
			env[&I] = x.getZExtValue();
			return;
		}
		if(isa<LoadInst>(I) && evalAmount(&I, fields, r)) env[&I] = r;
	}
	int64_t top(const Value *v)
	{
		uint64_t k;
		if(!constantOf(v, k)) return -1;
		return k == dtop ? 0 : k == rtop ? 1 : -1;
	}
	void zero(int k, uint64_t from, uint64_t n, const Instruction &I) { if(n) zeroed[k].push_back({ from, from + n }); last[k] = &I; }
	void emitted(const CallBase *CB, const std::string &name)
	{
		auto arg = [&](unsigned i, uint64_t &r) { return i < CB->arg_size() && value(CB->getArgOperand(i), r); };
		uint64_t o, r, q, z, n;
		if(!arg(1, o)) { regs.clear(); return; }
		bool wide = false;
		for(auto &x : op) if(x.second == o && x.first.find("64") != std::string::npos) wide = true;
		auto is = [&](const char *a, const char *b = "") { auto i = op.find(a), j = op.find(b); return (i != op.end() && i->second == o) || (j != op.end() && j->second == o); };
		auto shift = [&](const Value *v, uint64_t &r) { return value(v, r) || constantOf(v, r); };
		if(name == "EMIT_OP_REG_RPTR" && CB->arg_size() == 6 && arg(2, r) && arg(4, q))
		{
			int64_t t = top(CB->getArgOperand(5));
			bool known = false;
			if(is("o_mov64", "o_mov") && t >= 0 && !regs.count(q)) { regs[r] = { (int)t, moved[t] }; based[t] = known = true; }
			else if(is("o_lea") && regs.count(q) && regs[q].kind < 2 && shift(CB->getArgOperand(5), n)) { regs[r] = { regs[q].kind, regs[q].v + n }; known = true; }
			if(!known) regs.erase(r);
		}
		else if(name == "EMIT_OP_REG_RPTR" && CB->arg_size() == 8 && arg(2, r)) regs.erase(r);
		else if(name == "EMIT_OP_REG_NUM" && arg(2, r))
		{
			bool known = arg(3, n);
			if(is("o_mov64", "o_mov") && known) regs[r] = { 2, n };
			else if(is("o_add64", "o_add") && known && regs.count(r)) regs[r].v += n;
			else if(is("o_sub64", "o_sub") && known && regs.count(r)) regs[r].v -= n;
			else if(!is("o_cmp", "o_cmp64")) regs.erase(r);
		}
		else if(name == "EMIT_OP_REG_REG" && arg(2, r) && arg(3, q))
		{
			if(is("o_xor", "o_xor64") && r == q) regs[r] = { 2, 0 };
			else if(is("o_mov64", "o_mov") && regs.count(q)) regs[r] = regs[q];
			else if(!is("o_cmp", "o_cmp64")) regs.erase(r);
		}
		else if(name == "EMIT_OP_RPTR_NUM" && CB->arg_size() == 6 && arg(2, z) && arg(3, r))
		{
			int64_t t = regs.count(r) ? -1 : top(CB->getArgOperand(4));
			if(t >= 0 && is("o_add64", "o_add")) { if(arg(5, n)) moved[t] += n; else lost = true; }
			else if(is("o_mov64", "o_mov") && regs.count(r) && regs[r].kind < 2 && shift(CB->getArgOperand(4), q) && arg(5, n) && n == 0) zero(regs[r].kind, regs[r].v + q, wide || z == size["sQWORD"] ? 8 : 4, *CB);
			else if(is("o_mov64", "o_mov") && regs.count(r) && regs[r].kind < 2 && (!shift(CB->getArgOperand(4), q) || !arg(5, n))) lost = true;
		}
		else if(name == "EMIT_OP" && (is("o_rep_stosd") || is("o_rep_stosq")))
		{
			auto a = regs.find(reg["rRAX"]), c = regs.find(reg["rECX"]), d = regs.find(reg["rRDI"]);
			if(a != regs.end() && a->second.kind == 2 && a->second.v == 0 && c != regs.end() && c->second.kind == 2 && d != regs.end() && d->second.kind < 2)
				zero(d->second.kind, d->second.v, c->second.v * (is("o_rep_stosq") ? 8 : 4), *CB);
			else lost |= c == regs.end() || d == regs.end();
			regs.erase(reg["rECX"]); regs.erase(reg["rRDI"]);
		}
	}
	// true when the instruction is reached
	bool run(const BasicBlock *B, const Instruction *want)
	{
		bool seen = false;
		const BasicBlock *from = nullptr;
		for(int n = 0; n < 400; n++)
		{
			std::vector<std::pair<const Value*, std::pair<bool, uint64_t>>> phis;
			for(auto &P : B->phis()) { uint64_t r = 0; bool k = from && P.getType()->isIntegerTy() && value(P.getIncomingValueForBlock(from), r); phis.push_back({ &P, { k, r } }); }
			for(auto &p : phis) if(p.second.first) env[p.first] = p.second.second; else env.erase(p.first);
			for(auto &I : *B)
			{
				if(isa<PHINode>(I)) continue;
				if(&I == want) seen = true;
				if(auto *CB = dyn_cast<CallBase>(&I)) { if(Function *C = calleeOf(CB)) if(sname(C).find("EMIT_OP") == 0) emitted(CB, sname(C)); env.erase(&I); continue; }
				step(I);
			}
			auto *T = B->getTerminator();
			uint64_t c;
			from = B;
			if(auto *Br = dyn_cast<BranchInst>(T)) { if(!Br->isConditional()) B = Br->getSuccessor(0); else if(value(Br->getCondition(), c)) B = Br->getSuccessor(c ? 0 : 1); else return seen; }
			else return seen;
		}
		return false;
	}
};
void checkClearing(Function *F, const Instruction *at, const std::string &fn, uint64_t dtop, uint64_t rtop, uint64_t fStack, uint64_t fArgs, uint64_t fRegs)
{
	Cleared proto;
	proto.F = F; proto.dtop = dtop; proto.rtop = rtop;
	for(auto &e : enumOf("x86Command")) proto.op[e.first] = e.second;
	for(auto &e : enumOf("x86Reg")) proto.reg[e.first] = e.second;
	for(auto &e : enumOf("x86Size")) proto.size[e.first] = e.second;
	// the outermost place from which everything up to the reservation depends on the sizes alone
	DominatorTree DT(*F);
	const BasicBlock *start = at->getParent();
	auto tried = [&](const BasicBlock *B, uint64_t st, uint64_t ar, uint64_t rg, Cleared &c) {
		c = proto;
		c.fields[fStack] = st; c.fields[fArgs] = ar; c.fields[fRegs] = rg;
		return c.run(B, at);
	};
	int d = 0;
	for(auto *N = DT.getNode(start); N && d < 16; N = N->getIDom(), d++) { Cleared c; if(tried(N->getBlock(), 400, 40, 60, c) && tried(N->getBlock(), 8, 8, 4, c)) start = N->getBlock(); }
	std::string bad[2]; bool undecided[2] = { false, false };
	const Instruction *where[2] = { nullptr, nullptr };
	auto sample = [&](uint64_t st, uint64_t ar, uint64_t rg) {
		Cleared c;
		if(!tried(start, st, ar, rg, c)) { undecided[0] = undecided[1] = true; return; }
		for(int k = 0; k < 2; k++)
		{
			if(!c.based[k] || c.lost) { undecided[k] = true; continue; }
			if(!bad[k].empty()) continue;
			uint64_t lo = k ? 32 : ar, hi = k ? rg * 8 : st, end = k ? rg * 8 : (st + 15) / 16 * 16;
			std::sort(c.zeroed[k].begin(), c.zeroed[k].end());
			uint64_t upto = lo;
			std::string size = k ? std::to_string(rg) + " registers" : std::to_string(st) + " bytes with " + std::to_string(ar) + " bytes of arguments";
			for(auto &z : c.zeroed[k])
			{
				if(z.first < lo) bad[k] = k ? "special registers of a function with " + size + " are cleared" : "arguments of a function with a frame of " + size + " are cleared";
				else if(z.second > end) bad[k] = "more than the frame of a function with " + size + " is cleared";
				if(z.first <= upto) upto = std::max(upto, z.second);
			}
			if(bad[k].empty() && upto < hi) bad[k] = "only " + std::to_string(upto) + " bytes of a function with " + size + " are cleared: the rest holds values of an earlier call, and is not checked against the end of the stack";
			if(!bad[k].empty()) where[k] = c.last[k];
		}
	};
	for(uint64_t st = 0; st <= 160; st += 4) for(uint64_t ar = 0; ar <= st; ar += 4) sample(st, ar, 4 + (st + ar) % 60);
	for(uint64_t st = 160; st <= 3000; st += 4) sample(st, 0, 4), sample(st, st / 8 * 4, 255);
	for(uint64_t p = 12; p <= 28; p++) for(int k = -4; k <= 4; k += 4) { uint64_t st = (1ull << p) + k; if(st <= 1u << 28) sample(st, 0, 20), sample(st, 64, 13), sample(st, std::min<uint64_t>(st, 65532), 5); }
	for(uint64_t rg = 4; rg < 256; rg++) sample(64, 16, rg);
	for(int k = 0; k < 2; k++)
	{
		R.stat("frame_clears");
		if(!bad[k].empty()) R.add("frame", where[k] ? where[k] : at, fn, std::string(k ? "registers" : "variables") + " of a called function: " + bad[k], std::string("cleared:") + (k ? "registers" : "variables"));
		else if(undecided[k]) R.stat("frame_clears_undecided");
		else R.stat("frame_clears_complete");
	}
}
void checkPrologue()
{
	uint64_t dtop = fieldAt("CodeGenRegVmStateContext", "dataStackTop"), rtop = fieldAt("CodeGenRegVmStateContext", "regFileLastTop");
	uint64_t fStack = fieldAt("ExternFuncInfo", "stackSize"), fArgs = fieldAt("ExternFuncInfo", "argumentSize"), fRegs = fieldAt("ExternFuncInfo", "regVmRegisters");
	std::set<uint64_t> adds, subs;
	auto E = [&](const char *n, std::set<uint64_t> &to) { for(auto &e : enumOf("x86Command")) if(e.first == n) to.insert(e.second); };
	E("o_add64", adds); E("o_add", adds); E("o_sub64", subs); E("o_sub", subs);
	if(!R.broken.empty() || adds.empty() || subs.empty()) { R.brk("instructions of the code generator not found"); return; }
	// functions that generate code
	std::vector<Function*> gens;
	auto emits = [&](Function *F) { for(auto &I : instructions(*F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(sname(C).find("EMIT_OP") == 0) return true; return false; };
	std::set<Function*> em;
	for(Function *F : definedFns()) if(sname(F).find("EMIT_OP") != 0) { std::string f = fileOf(F); if((f.find("Executor_X86") != std::string::npos || f.find("CodeGenRegVm_X86") != std::string::npos) && emits(F)) em.insert(F); }
	std::vector<Amount> all;
	std::vector<Function*> clones;
	for(Function *Orig : em)
	{
		// helpers are looked at in the functions that use them
		bool helper = false;
		for(Function *C : callersOf(Orig)) if(em.count(C)) helper = true;
		if(helper && instrCount(Orig) < 150) continue;
		bool relevant = true;
		if(!relevant) continue;
		Function *F = cloneFn(Orig);
		InlinePolicy Pol;
		Pol.maxDepth = 2;
		Pol.want = [&](Function *C, CallBase*) { std::string s = C ? sname(C) : ""; return C && !C->isDeclaration() && C != Orig && (em.count(C) ? instrCount(C) < 150 : (s.find("FastVector<") == 0 && s.find("operator[]") != std::string::npos) || (instrCount(C) < 40 && fileOf(C) == fileOf(Orig))); };
		normalise(F, &Pol, false);
		clones.push_back(F);
		for(auto &I : instructions(*F))
		{
			auto *CB = dyn_cast<CallBase>(&I);
			Function *C = CB ? calleeOf(CB) : nullptr;
			if(!C || sname(C).find("EMIT_OP") != 0 || CB->arg_size() < 4) continue;
			uint64_t op = 0, off = 0; int which = 0;
			if(!constantOf(CB->getArgOperand(1), op)) continue;
			bool add = adds.count(op), sub = subs.count(op);
			if(!add && !sub) continue;
			for(unsigned i = 3; i + 1 < CB->arg_size(); i++) if(constantOf(CB->getArgOperand(i), off)) { if(off == dtop) which = 1; if(off == rtop) which = 2; }
			if(!which || sname(C).find("REG") == 8) continue;
			all.push_back({ &I, sname(Orig), CB->getArgOperand(CB->arg_size() - 1), add, which == 1 ? "data stack" : "register file" });
		}
	}
	unsigned up[2] = { 0, 0 }, down[2] = { 0, 0 };
	for(auto &a : all)
	{
		int w = a.what == "data stack" ? 0 : 1;
		(a.add ? up : down)[w]++;
		R.stat("frame_amounts");
		bool wrong = false, unknown = false;
		std::map<uint64_t, uint64_t> f;
		auto at = [&](uint64_t st, uint64_t ar, uint64_t rg) {
			f[fStack] = st; f[fArgs] = ar; f[fRegs] = rg;
			uint64_t r;
			if(!evalAmount(a.v, f, r)) { unknown = true; return; }
			if(r != (w == 0 ? (st + 15) / 16 * 16 : rg * 8)) wrong = true;
		};
		for(uint64_t st = 0; st < 200000 && !unknown && !wrong; st += st < 600 ? 1 : 37) at(st, 0, 4), at(st, st / 2, 255), at(st, st, 17);
		at((1 << 24) - 1, 64, 8); at(1 << 24, 65535, 9);
		for(uint64_t rg = 4; rg < 256; rg++) at(1 << 10, 0, rg);
		if(unknown) { R.stat("frame_amounts_undecided"); continue; }
		if(wrong) R.add("frame", a.at, a.fn, std::string("the top of the ") + a.what + " is moved " + (a.add ? "forward" : "back") + " by another amount than the " + (w ? "registers" : "frame") + " of the function", std::string(a.add ? "up:" : "down:") + a.what);
		else { R.stat("frame_amounts_match"); R.sample(locOf(a.at) + " " + a.fn + ": the top of the " + a.what + " moves by the size of the function's frame"); }
	}
	for(auto &a : all) if(a.add && a.what == "data stack") checkClearing(const_cast<Function*>(a.at->getFunction()), a.at, a.fn, dtop, rtop, fStack, fArgs, fRegs);
	for(int w = 0; w < 2; w++) if(!up[w] || !down[w]) R.brk(std::string("code that reserves and releases frames in the ") + (w ? "register file" : "data stack") + " not found");
	for(auto *F : clones) F->eraseFromParent();
}
}
RULE(frames)
{
	verboseFrames = !args.empty() && args[0] == "-v";
	for(Function *F : definedFns()) basicSimplify(F, false);
	buildCallGraph();
	Function *runCode = findFn("ExecutorRegVm::RunCode");
	if(!runCode) { R.brk("ExecutorRegVm::RunCode not found"); return; }
	// functions from which script code is entered
	std::set<Function*> to{ runCode };
	std::vector<Function*> work{ runCode };
	std::set<Function*> roots;
	{
		// functions called from the interpreter loop that enter it again, and the function that starts execution
		auto reach = reachableFrom({ runCode });
		std::function<void(Function*, int)> up = [&](Function *F, int d) {
			for(Function *C : callersOf(F))
			{
				if(C == runCode || d > 4) continue;
				if(sname(C) == "ExecutorRegVm::Run") { roots.insert(C); continue; }
				if(callersOf(C).count(runCode)) { roots.insert(C); continue; }
				if(to.insert(C).second) up(C, d + 1);
			}
		};
		up(runCode, 0);
	}
	Config V;
	V.cls = "ExecutorRegVm"; V.vm = true;
	const DIType *vt = nullptr;
	uint64_t ds = fieldAt("ExecutorRegVm", "dataStack", 0, &vt);
	V.roles[ds + inVector(vt, "data")] = "data";
	V.roles[ds + inVector(vt, "max")] = "max";
	V.roles[ds + inVector(vt, "count")] = "count";
	V.roles[fieldAt("ExecutorRegVm", "regFileLastTop")] = "top";
	V.roles[fieldAt("ExecutorRegVm", "regFileArrayEnd")] = "end";
	V.roles[fieldAt("ExecutorRegVm", "regFileArrayBase")] = "regbase";
	V.roles[fieldAt("ExecutorRegVm", "tempStackArrayBase")] = "temp";
	if(!R.broken.empty()) return;
	if(roots.size() < 2) R.brk("functions that enter script code were not found");
	for(Function *F : roots) { R.sample("entered from " + sname(F)); checkFrame(F, V, to, runCode); }
	// machine code: the same stacks, with a protected page after each
	Config J;
	J.cls = "ExecutorX86"; J.vm = false; J.guard = 8192;
	uint64_t vs = fieldAt("ExecutorX86", "vmState");
	auto in = [&](const char *f) { return fieldAt("CodeGenRegVmStateContext", f, vs); };
	J.roles[in("dataStackBase")] = "data";
	J.roles[in("dataStackTop")] = "dtop";
	J.roles[in("dataStackEnd")] = "dend";
	J.roles[in("regFileArrayBase")] = "regbase";
	J.roles[in("regFileLastTop")] = "top";
	J.roles[in("tempStackArrayBase")] = "temp";
	J.roles[in("regFileArrayEnd")] = "end";
	if(!R.broken.empty()) return;
	if(Function *F = findFn("ExecutorX86::Run")) checkFrame(F, J, {}, nullptr);
	else R.brk("ExecutorX86::Run not found");
	// the stacks are allocated with a page after them that stops whatever runs over their end
	Config G;
	G.cls = "ExecutorX86"; G.vm = false; G.guard = 8192;
	std::map<std::string, std::string> baseOf;
	for(auto x : { std::make_pair("dataStackBase", "dataStackEnd"), std::make_pair("callStackBase", "callStackEnd"), std::make_pair("regFileArrayBase", "regFileArrayEnd") })
	{
		std::string b = x.first, e = x.second;
		G.roles[in(x.first)] = b;
		G.roles[in(x.second)] = e;
		baseOf[e] = b;
	}
	if(!R.broken.empty()) return;
	auto allocations = [&](const Config &G, const std::map<std::string, std::string> &baseOf, Int least) {
		std::set<Function*> own;
		auto touches = [&](Function *F) {
			for(auto &I : instructions(*F))
			{
				auto *S = dyn_cast<StoreInst>(&I);
				if(S && F->arg_size())
				{
					APInt o(64, 0);
					if(!zeroPointer(S->getValueOperand()) && S->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true) == F->getArg(0) && G.roles.count(o.getZExtValue())) return true;
				}
				auto *CB = dyn_cast<CallBase>(&I);
				if(CB && !allocatorCall(CB).empty()) return true;
			}
			return false;
		};
		for(Function *F : definedFns()) if(sname(F).find(G.cls + "::") == 0) own.insert(F);
		std::set<Function*> todo;
		std::function<void(Function*, int)> upTo = [&](Function *F, int d) {
			bool inner = false;
			if(d < 4) for(Function *C : callersOf(F)) if(C != F && own.count(C)) { inner = true; upTo(C, d + 1); }
			if(!inner) todo.insert(F);
		};
		for(Function *F : own) if(touches(F)) upTo(F, 0);
		for(Function *F : todo) checkGuards(F, G, baseOf, least);
	};
	allocations(G, baseOf, 0);
	// the other memory of both executors: registers of the interpreter, arguments and results
	Config G2 = G; G2.guard = 0;
	G2.roles = { { in("tempStackArrayBase"), "tempStackArrayBase" }, { in("tempStackArrayEnd"), "tempStackArrayEnd" } };
	allocations(G2, { { "tempStackArrayEnd", "tempStackArrayBase" } }, 65536);
	Config G3; G3.cls = "ExecutorRegVm"; G3.vm = true;
	for(auto n : { "tempStackArrayBase", "tempStackArrayEnd" }) G3.roles[fieldAt("ExecutorRegVm", n)] = n;
	allocations(G3, { { "tempStackArrayEnd", "tempStackArrayBase" } }, 65536);
	G3.roles.clear();
	for(auto n : { "regFileArrayBase", "regFileArrayEnd" }) G3.roles[fieldAt("ExecutorRegVm", n)] = n;
	allocations(G3, { { "regFileArrayEnd", "regFileArrayBase" } }, 0);
	checkHandler({ { in("callStackEnd"), "the call stack" }, { in("dataStackEnd"), "the data stack" }, { in("regFileArrayEnd"), "the register file" } });
	checkPrologue();
}
