// C24: while an error is pending nothing is executed or allocated, and the code that started the failed function learns of it
#include "rules.h"
#include "native.h"
namespace {
bool inRepo(const Function *F) { return fileOf(F).compare(0, 5, "NULLC") == 0 && fileOf(F).find("Executor_LLVM") == std::string::npos; }
enum Stops { No, Always, Tells, Maybe }; // whether an error may be pending after the call; Tells: a certain result says so
struct Summary { bool runs = false; Stops stops = No; int64_t val = 0; std::string what; };
std::map<const Function*, Summary> memo;
std::set<const Function*> busy;

const std::set<std::string> raise = { "nullcThrowError", "nullcThrowErrorObject", "ExecutorRegVm::Stop", "ExecutorX86::Stop" };
const std::set<std::string> handled = { "nullcClearError", "ExecutorRegVm::Resume", "ExecutorX86::Resume", "ExecutorRegVm::InitExecution", "ExecutorX86::InitExecution" };
// allocation: may collect garbage, which executes finalizers; a missing result means that an error was reported
const std::set<std::string> allocation = { "NULLC::AllocObject", "NULLC::AllocArray", "nullcAllocate", "nullcAllocateTyped", "nullcAllocateArrayTyped", "NULLC::CopyObject", "NULLC::CollectMemory" };

// fields that are zero while an error is pending
bool runningFlag(const Value *p)
{
	static std::map<std::string, std::set<int64_t>> offs;
	if(offs.empty())
		for(auto *n : { "ExecutorRegVm", "ExecutorX86" })
		{
			if(auto *T = recordOf(n)) for(auto &f : fieldsOf(T)) if(f.name == "callContinue" || f.name == "codeRunning") offs[n].insert(f.offset);
			if(offs[n].size() != 2) R.brk(std::string("the running state of ") + n + " is not known");
		}
	APInt o(64, 0);
	const Value *b = p->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true);
	auto *G = dyn_cast<GEPOperator>(p->stripPointerCasts());
	std::string rec;
	if(G) if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) rec = ST->getName().str();
	if(rec.find("ExecutorRegVm") != std::string::npos) return offs["ExecutorRegVm"].count(o.getSExtValue());
	if(rec.find("ExecutorX86") != std::string::npos) return offs["ExecutorX86"].count(o.getSExtValue());
	if(!rec.empty()) return false;
	if(auto *A = dyn_cast<Argument>(b)) if(A->getArgNo() == 0)
	{
		std::string n = sname(A->getParent());
		if(n.find("ExecutorRegVm::") == 0) return offs["ExecutorRegVm"].count(o.getSExtValue());
		if(n.find("ExecutorX86::") == 0) return offs["ExecutorX86"].count(o.getSExtValue());
	}
	return false;
}
struct World
{
	const Value *res = nullptr; int64_t val = 0;             // the result that tells of the error
	std::map<const Value*, int64_t> phis;                     // merged values along the path
	int64_t flag = -1; const Value *self = nullptr;           // member that remembers a failure
	bool atFlag(const Value *p) const { APInt o(64, 0); return p->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true) == self && o.getSExtValue() == flag; }
	bool eval(const Value *v, int64_t &r, int d = 0) const
	{
		if(d > 12) return false;
		if(auto *C = dyn_cast<ConstantInt>(v)) { r = C->getBitWidth() <= 64 ? C->getZExtValue() : 0; return C->getBitWidth() <= 64; }
		if(isa<ConstantPointerNull>(v)) { r = 0; return true; }
		if(v == res && !v->getType()->isStructTy()) { r = val; return true; }
		auto it = phis.find(v);
		if(it != phis.end()) { r = it->second; return true; }
		if(self) if(auto *L = dyn_cast<LoadInst>(v)) if(atFlag(L->getPointerOperand())) { r = 1; return true; }
		if(auto *X = dyn_cast<ExtractValueInst>(v)) if(X->getAggregateOperand() == res && res && X->getNumIndices() == 1 && X->getIndices()[0] == 0 && X->getType()->isPointerTy()) { r = val; return true; }
		if(auto *L = dyn_cast<LoadInst>(v)) if(L->getType()->isIntegerTy(8) && runningFlag(L->getPointerOperand())) { r = 0; return true; }
		int64_t a, b;
		if(auto *C = dyn_cast<CastInst>(v)) { if(!eval(C->getOperand(0), a, d + 1)) return false; if(C->getOpcode() == Instruction::Trunc && C->getType()->getIntegerBitWidth() < 64) a &= ((int64_t)1 << C->getType()->getIntegerBitWidth()) - 1; if(isa<SExtInst>(C) && a) return false; r = a; return true; }
		if(auto *F = dyn_cast<FreezeInst>(v)) return eval(F->getOperand(0), r, d + 1);
		if(auto *I = dyn_cast<ICmpInst>(v))
		{
			if(!eval(I->getOperand(0), a, d + 1) || !eval(I->getOperand(1), b, d + 1)) return false;
			switch(I->getPredicate())
			{
			case CmpInst::ICMP_EQ: r = a == b; return true;
			case CmpInst::ICMP_NE: r = a != b; return true;
			case CmpInst::ICMP_UGT: r = (uint64_t)a > (uint64_t)b; return true;
			case CmpInst::ICMP_ULT: r = (uint64_t)a < (uint64_t)b; return true;
			default: return false;
			}
		}
		if(auto *S = dyn_cast<SelectInst>(v))
		{
			if(!eval(S->getCondition(), a, d + 1)) { int64_t x, y; if(!eval(S->getTrueValue(), x, d + 1) || !eval(S->getFalseValue(), y, d + 1) || x != y) return false; r = x; return true; }
			return eval(a ? S->getTrueValue() : S->getFalseValue(), r, d + 1);
		}
		if(auto *B = dyn_cast<BinaryOperator>(v))
		{
			bool x = eval(B->getOperand(0), a, d + 1), y = eval(B->getOperand(1), b, d + 1);
			if(B->getOpcode() == Instruction::And && ((x && !a) || (y && !b))) { r = 0; return true; }
			if(B->getOpcode() == Instruction::Or && B->getType()->isIntegerTy(1) && ((x && a) || (y && b))) { r = 1; return true; }
			if(!x || !y) return false;
			if(B->getOpcode() == Instruction::And) { r = a & b; return true; }
			if(B->getOpcode() == Instruction::Or) { r = a | b; return true; }
			if(B->getOpcode() == Instruction::Xor) { r = a ^ b; return true; }
		}
		return false;
	}
};
std::map<std::string, int64_t> contracts;
const Summary &summary(Function *F);
// what a call does with respect to pending errors
struct Event { bool runs = false; Stops stops = No; int64_t val = 0; bool clears = false; std::string name; };
Event eventOf(const CallBase *CB)
{
	Event e;
	Function *C = calleeOf(CB);
	if(!C)
	{
		// native function of the host behind a descriptor of the linker
		if(auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()))
		{
			APInt o(64, 0);
			L->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true);
			static int64_t off = -1;
			if(off < 0) { if(auto *T = recordOf("ExternFuncInfo")) for(auto &f : fieldsOf(T)) if(f.name == "funcPtrWrap") off = f.offset; if(off < 0) { R.brk("descriptor of native functions not found"); off = 1 << 30; } }
			auto *G = dyn_cast<GEPOperator>(L->getPointerOperand());
			bool fn = false;
			while(G) { if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if(ST->getName().find("ExternFuncInfo") != StringRef::npos) fn = true; G = dyn_cast<GEPOperator>(G->getPointerOperand()); }
			if(fn && o == (uint64_t)off) { e.runs = true; e.stops = Maybe; e.name = "native function"; }
		}
		return e;
	}
	if(C->isIntrinsic()) return e;
	std::string n = e.name = sname(C);
	if(raise.count(n)) { e.stops = Always; return e; }
	if(handled.count(n)) { e.clears = true; return e; }
	if(n == "_setjmp" || n == "setjmp" || n == "__sigsetjmp" || n == "sigsetjmp") { e.stops = Tells; e.val = 1; return e; }
	if(n == "RunRawExternalFunction") { e.runs = true; e.stops = Maybe; return e; }
	if(allocation.count(n)) { e.runs = true; e.stops = n == "NULLC::CollectMemory" ? No : Tells; return e; }
	if(C->isDeclaration() || !inRepo(C)) return e;
	// questions about the shape of a type that the library asks about types it recorded itself; they do not fail
	if(n == "nullcGetSubType" || n == "nullcGetArraySize") return e;
	// what is checked for the function itself
	auto ct = contracts.find(n);
	if(ct != contracts.end()) { e.runs = true; e.stops = Tells; e.val = ct->second; return e; }
	auto &s = summary(C);
	e.runs = s.runs; e.stops = s.stops; e.val = s.val;
	return e;
}
struct Walk
{
	Function *F;
	std::function<void(const Instruction&, const Event&)> onRun;
	std::function<void(const ReturnInst&, bool, int64_t)> onReturn;
	std::function<bool(const Instruction&, const World&)> cut;
	// follow every way on from the source in the world in which the error is pending
	bool fine = true; // remember decisions
	void go(const Instruction *S, World W)
	{
		if(follow(S, W)) return;
		fine = false;
		if(!follow(S, W)) R.brk("too many ways through " + sname(F));
		fine = true;
	}
	bool follow(const Instruction *S, World W)
	{
		// decisions on the way to the source
		DominatorTree DT(*F);
		if(S) for(auto *N = DT.getNode(S->getParent()); N && N->getIDom(); N = N->getIDom())
			if(auto *Br = dyn_cast<BranchInst>(N->getIDom()->getBlock()->getTerminator()))
				if(Br->isConditional() && reused(Br->getCondition()))
					for(int e = 0; e < 2; e++) if(DT.dominates(BasicBlockEdge(Br->getParent(), Br->getSuccessor(e)), S->getParent())) W.phis[Br->getCondition()] = e == 0;
		std::set<std::pair<const BasicBlock*, std::vector<std::pair<const Value*, int64_t>>>> seen;
		struct Item { const Instruction *at; World w; };
		std::vector<Item> work{ { S ? S->getNextNode() : &F->getEntryBlock().front(), W } };
		unsigned steps = 0;
		std::map<const BasicBlock*, unsigned> visits;
		if(!S) {}
		else if(auto *I = dyn_cast<InvokeInst>(S)) { work.clear(); enter(work, I->getParent(), I->getNormalDest(), W); }
		while(!work.empty())
		{
			auto it = work.back(); work.pop_back();
			if(++steps > 20000) return false;
			bool stop = false;
			const Instruction *I = it.at;
			for(; I; I = I->getNextNode())
			{
				if(cut && cut(*I, it.w)) { stop = true; break; }
				if(auto *CB = dyn_cast<CallBase>(I))
				{
					if(!isa<DbgInfoIntrinsic>(I))
					{
						Event e = eventOf(CB);
						if(e.clears) { stop = true; break; }
						if(e.runs) { if(onRun) onRun(*I, e); }
					}
				}
				if(auto *Rt = dyn_cast<ReturnInst>(I))
				{
					int64_t r = 0; bool k = Rt->getReturnValue() && it.w.eval(value0(Rt->getReturnValue()), r);
					if(onReturn) onReturn(*Rt, k, r);
				}
				if(I->isTerminator()) break;
			}
			if(stop || !I) continue;
			std::vector<const BasicBlock*> next;
			if(auto *Br = dyn_cast<BranchInst>(I))
			{
				int64_t r;
				if(Br->isConditional() && it.w.eval(Br->getCondition(), r)) next.push_back(Br->getSuccessor(r ? 0 : 1));
				else for(auto *B : successors(I->getParent())) next.push_back(B);
			}
			else if(auto *Sw = dyn_cast<SwitchInst>(I))
			{
				int64_t r;
				if(it.w.eval(Sw->getCondition(), r)) next.push_back(Sw->findCaseValue(ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), r))->getCaseSuccessor());
				else for(auto *B : successors(I->getParent())) next.push_back(B);
			}
			else if(auto *Iv = dyn_cast<InvokeInst>(I)) next.push_back(Iv->getNormalDest());
			else for(auto *B : successors(I->getParent())) next.push_back(B);
			auto *Cb = dyn_cast<BranchInst>(I);
			for(auto *B : next)
			{
				World w = it.w;
				if(Cb && Cb->isConditional() && next.size() == 2 && Cb->getSuccessor(0) != Cb->getSuccessor(1))
				{
					// a decision that is looked at again
					int64_t t = B == Cb->getSuccessor(0);
					if(reused(Cb->getCondition())) w.phis[Cb->getCondition()] = t;
					if(auto *C = dyn_cast<ICmpInst>(Cb->getCondition())) if(auto *K = dyn_cast<ConstantInt>(C->getOperand(1))) if((C->getPredicate() == CmpInst::ICMP_EQ) == !!t && C->isEquality() && reused(C->getOperand(0))) w.phis[C->getOperand(0)] = K->getZExtValue();
				}
				// merged values
				std::vector<std::pair<const Value*, bool>> upd; std::vector<int64_t> vals;
				for(auto &P : B->phis()) { int64_t r; bool k = w.eval(P.getIncomingValueForBlock(I->getParent()), r); upd.push_back({ &P, k }); vals.push_back(k ? r : 0); }
				for(size_t i = 0; i < upd.size(); i++) if(upd[i].second) w.phis[upd[i].first] = vals[i]; else w.phis.erase(upd[i].first);
				// a block that is reached in many ways is followed once more for all of them
				if(!fine && ++visits[B] > 24) w.phis.clear();
				std::vector<std::pair<const Value*, int64_t>> key(w.phis.begin(), w.phis.end());
				if(seen.insert({ B, key }).second) work.push_back({ &B->front(), w });
			}
		}
		return true;
	}
	bool reused(const Value *v) const
	{
		if(isa<Constant>(v) || !fine) return false;
		unsigned n = 0;
		for(auto *U : v->users()) { (void)U; if(++n > 1) return true; }
		return false;
	}
	template<class T> void enter(std::vector<T> &work, const BasicBlock *from, const BasicBlock *B, World w)
	{
		for(auto &P : B->phis()) { int64_t r; if(w.eval(P.getIncomingValueForBlock(from), r)) w.phis[&P] = r; }
		work.push_back({ &B->front(), w });
	}
	// first member of a returned pair
	static const Value *value0(const Value *v)
	{
		while(auto *IV = dyn_cast<InsertValueInst>(v)) { if(IV->getIndices()[0] == 0) return IV->getInsertedValueOperand(); v = IV->getAggregateOperand(); }
		return v;
	}
};
World worldOf(const CallBase *CB, const Event &e)
{
	World w;
	if(e.stops == Tells) { w.res = CB; w.val = e.val; }
	return w;
}
// an error message becomes pending
bool setsMessage(const Instruction &I)
{
	auto *S = dyn_cast<StoreInst>(&I);
	if(!S || !S->getValueOperand()->getType()->isPointerTy() || isa<ConstantPointerNull>(S->getValueOperand())) return false;
	static std::map<std::string, int64_t> offs;
	if(offs.empty()) for(auto *n : { "ExecutorRegVm", "ExecutorX86" }) if(auto *T = recordOf(n)) for(auto &f : fieldsOf(T)) if(f.name == "execErrorMessage") offs[n] = f.offset;
	auto *G = dyn_cast<GEPOperator>(S->getPointerOperand()->stripPointerCasts());
	if(!G) return false;
	APInt o(64, 0);
	S->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true);
	if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) for(auto &x : offs) if(ST->getName().find(x.first) != StringRef::npos) return o == (uint64_t)x.second;
	return false;
}
// the executor itself is told to stop
bool stopsRunning(const Instruction &I)
{
	auto *S = dyn_cast<StoreInst>(&I);
	if(!S) return false;
	auto *K = dyn_cast<ConstantInt>(S->getValueOperand());
	return K && K->isZero() && K->getType()->isIntegerTy(8) && runningFlag(S->getPointerOperand());
}
// the position in the stacks of the executor that a function has to leave as it found it
struct Kept { std::string name; const Value *base; int64_t off; bool block; int onError = -1; }; // onError: set from that field when the function fails
struct Restore
{
	Function *F; std::vector<Kept> fields;
	std::map<const BasicBlock*, unsigned> out, in;       // per field: not what it was on entry
	std::map<const LoadInst*, bool> saved;                // read while it was what it was on entry
	std::map<const Value*, std::pair<unsigned, bool>> copies; // local copies of blocks: of which field, good
	std::function<bool(const Value*)> failed;             // results that need not restore
	int fieldAt(const Value *p, int d = 0) const
	{
		if(d < 4) if(auto *P = dyn_cast<PHINode>(p->stripPointerCasts()))
		{
			int r = -2;
			for(auto &x : P->incoming_values()) { int k = fieldAt(x, d + 1); if(r != -2 && r != k) return -1; r = k; }
			return r == -2 ? -1 : r;
		}
		APInt o(64, 0);
		const Value *b = p->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true);
		for(size_t i = 0; i < fields.size(); i++) if(fields[i].base == b && fields[i].off == o.getSExtValue()) return i;
		return -1;
	}
	static const Value *plain(const Value *v) { while(isa<CastInst>(v) || isa<FreezeInst>(v)) v = cast<User>(v)->getOperand(0); return v; }
	bool good(const Value *v, unsigned f, unsigned state, std::set<const Value*> &seen)
	{
		v = plain(v);
		if(!seen.insert(v).second) return true;
		if(auto *L = dyn_cast<LoadInst>(v)) return fieldAt(L->getPointerOperand()) == (int)f && (!saved.count(L) || saved[L]);
		if(auto *P = dyn_cast<PHINode>(v)) { for(auto &x : P->incoming_values()) if(!good(x, f, state, seen)) return false; return true; }
		if(auto *S = dyn_cast<SelectInst>(v)) return good(S->getTrueValue(), f, state, seen) && good(S->getFalseValue(), f, state, seen);
		// start of the stack + (position - start of the stack)
		if(auto *G = dyn_cast<GEPOperator>(v)) if(G->getNumIndices() == 1)
		{
			auto *D = dyn_cast<BinaryOperator>(plain(G->getOperand(1)));
			auto *B = dyn_cast<LoadInst>(plain(G->getPointerOperand()));
			if(!D || !B || !G->getSourceElementType()->isIntegerTy(8)) return false;
			if(D->getOpcode() == Instruction::And) if(auto *K = dyn_cast<ConstantInt>(D->getOperand(1))) if(K->getValue().getActiveBits() == 32 && K->getValue().popcount() == 32) D = dyn_cast<BinaryOperator>(plain(D->getOperand(0)));
			if(!D || D->getOpcode() != Instruction::Sub) return false;
			auto *B2 = dyn_cast<LoadInst>(plain(D->getOperand(1)));
			APInt o(64, 0), q(64, 0);
			return B2 && B->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true) == B2->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), q, true) && o == q && good(D->getOperand(0), f, state, seen);
		}
		return false;
	}
	unsigned step(const Instruction &I, unsigned st)
	{
		if(auto *L = dyn_cast<LoadInst>(&I)) { int f = fieldAt(L->getPointerOperand()); if(f >= 0) saved[L] = !(st >> f & 1); return st; }
		if(auto *S = dyn_cast<StoreInst>(&I))
		{
			int f = fieldAt(S->getPointerOperand());
			if(f >= 0 && fields[f].onError >= 0)
			{
				unsigned from = fields[f].onError;
				auto *v = plain(S->getValueOperand());
				auto *L = dyn_cast<LoadInst>(v);
				return L && fieldAt(L->getPointerOperand()) == (int)from && saved.count(L) && !saved[L] ? st & ~(1u << f) : own.count(v) ? st & ~(1u << f) : st | 1u << f;
			}
			if(f >= 0 && fields[f].name == "lastFinalReturn") { std::set<const Value*> seen; auto *v = plain(S->getValueOperand()); if(!good(v, f, st, seen)) own.insert(v); }
			if(f < 0) return st;
			std::set<const Value*> seen;
			return good(S->getValueOperand(), f, st, seen) ? st & ~(1u << f) : st | 1u << f;
		}
		auto *CB = dyn_cast<CallBase>(&I);
		if(!CB || isa<DbgInfoIntrinsic>(CB) || (CB->getCalledFunction() && CB->getCalledFunction()->isIntrinsic() && !isa<MemIntrinsic>(CB))) return st;
		Function *C = calleeOf(CB);
		std::string n = C ? sname(C) : "";
		if(n == "NULLC::copyMemory" || isa<MemCpyInst>(CB))
		{
			int d = fieldAt(CB->getArgOperand(0)), s = fieldAt(CB->getArgOperand(1));
			const Value *db = CB->getArgOperand(0)->stripPointerCasts(), *sb = CB->getArgOperand(1)->stripPointerCasts();
			if(s >= 0 && isa<AllocaInst>(db)) { auto &c = copies[db]; bool g = !(st >> s & 1); if(c.first && c.first != unsigned(s) + 1) g = false; if(c.first && !c.second) g = false; c = { s + 1, g }; }
			if(d >= 0) { auto c = copies.find(sb); return c != copies.end() && c->second.first == unsigned(d) + 1 && c->second.second ? st & ~(1u << d) : st | 1u << d; }
			return st;
		}
		if(handled.count(n)) return 0;
		auto *from = dyn_cast<LoadInst>(plain(CB->getCalledOperand()));
		// not the memory functions of the host
		bool gate = !C && eventOf(CB).stops == No && !(from && isa<GlobalVariable>(from->getPointerOperand()->stripInBoundsOffsets())), nested = n.find("setjmp") != std::string::npos || n.find("sigsetjmp") != std::string::npos || n == "ExecutorRegVm::RunCode";
		// the code that is started leaves them anywhere when it fails
		bool foreign = eventOf(CB).stops == Maybe;
		if(gate || nested || foreign) for(size_t i = 0; i < fields.size(); i++) if(fields[i].onError >= 0 || (!foreign && fields[i].name != "lastFinalReturn")) st |= 1u << i;
		return st;
	}
	void run()
	{
		for(auto &B : *F) out[&B] = in[&B] = 0;
		for(bool changed = true; changed;)
		{
			changed = false;
			for(auto &B : *F)
			{
				unsigned st = 0;
				for(auto *P : predecessors(&B)) st |= out[P];
				in[&B] = st;
				for(auto &I : B) st = step(I, st);
				if(st != out[&B]) { out[&B] = st; changed = true; }
			}
		}
		for(auto &B : *F) if(auto *Rt = dyn_cast<ReturnInst>(B.getTerminator())) { std::set<const Value*> seen; leave(Rt, Rt->getReturnValue(), &B, out[&B], seen); }
	}
	std::set<std::pair<unsigned, const BasicBlock*>> told;
	std::set<const Value*> own; // depth of the call stack at which the function started
	// a decision that was taken on the way says that the value is zero
	bool zeroHere(const Value *v, const BasicBlock *Q, const BasicBlock *B)
	{
		auto refutes = [&](const Value *c, bool taken)
		{
			if(c == v) return !taken;
			auto *A = dyn_cast<ICmpInst>(c); auto *D = dyn_cast<ICmpInst>(v);
			if(!A || !D || A->getOperand(0) != D->getOperand(0) || A->getOperand(1) != D->getOperand(1)) return false;
			return A->getPredicate() == D->getPredicate() ? !taken : A->getPredicate() == D->getInversePredicate() && taken;
		};
		if(auto *Br = dyn_cast<BranchInst>(Q->getTerminator())) if(Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1) && refutes(Br->getCondition(), Br->getSuccessor(0) == B)) return true;
		DominatorTree DT(*F);
		for(auto *N = DT.getNode(const_cast<BasicBlock*>(Q)); N && N->getIDom(); N = N->getIDom())
			if(auto *Br = dyn_cast<BranchInst>(N->getIDom()->getBlock()->getTerminator())) if(Br->isConditional())
				for(int e = 0; e < 2; e++) if(DT.dominates(BasicBlockEdge(Br->getParent(), Br->getSuccessor(e)), Q) && refutes(Br->getCondition(), e == 0)) return true;
		return false;
	}
	void leave(const ReturnInst *Rt, const Value *v, const BasicBlock *B, unsigned st, std::set<const Value*> &seen)
	{
		bool ok = false; // the result says that nothing failed
		if(v)
		{
			if(failed && failed(v)) return;
			if(auto *K = dyn_cast<ConstantInt>(v)) ok = !K->isZero();
			if(auto *P = dyn_cast<PHINode>(v)) if(P->getParent() == B)
			{
				if(!seen.insert(P).second) return;
				unsigned own = 0;
				// what happens in the last block itself
				for(unsigned i = 0; i < P->getNumIncomingValues(); i++)
				{
					const BasicBlock *Q = P->getIncomingBlock(i);
					unsigned s = out[Q];
					for(auto &I : *B) s = step(I, s);
					(void)own;
					auto seen2 = seen;
					if(failed && zeroHere(P->getIncomingValue(i), Q, B)) continue;
					leave(Rt, P->getIncomingValue(i), Q, s, seen2);
				}
				for(auto &I : *B) step(I, in[B]);
				return;
			}
		}
		for(size_t i = 0; i < fields.size(); i++) if(st >> i & 1) if(!(fields[i].onError >= 0 && ok)) if(told.insert({ i, B }).second)
			R.add("STATE-NOT-RESTORED", B->getTerminator(), sname(F), fields[i].onError >= 0 ? "the function may fail without recording the depth of the call stack at which it started, so that execution resumes at another depth" : "the function may return with " + fields[i].name + " of the executor not as it was on entry, after the code that it started was interrupted", sname(F) + " " + fields[i].name);
	}
};
// execution goes on at the depth of the call stack that the failed function recorded
void resumed(Function *F)
{
	std::string n = sname(F);
	bool x86 = n == "ExecutorX86::Resume";
	if(!x86 && n != "ExecutorRegVm::Resume") return;
	auto off = [&](const char *rec, const char *name) -> int64_t { if(auto *T = recordOf(rec)) for(auto &f : fieldsOf(T)) if(f.name == name) return f.offset; R.brk(std::string("member ") + name + " of " + rec + " not found"); return -1; };
	const char *rec = x86 ? "ExecutorX86" : "ExecutorRegVm";
	int64_t depth = off(rec, "execErrorFinalReturnDepth");
	int64_t top = x86 ? off(rec, "vmState") + off("CodeGenRegVmStateContext", "callStackTop") : off(rec, "callStack") + off("FastVector<RegVmCmd *, false, false>", "count");
	auto at = [&](const Value *p, int64_t o) { APInt q(64, 0); return p->stripAndAccumulateConstantOffsets(M->getDataLayout(), q, true) == F->getArg(0) && q == (uint64_t)o; };
	auto isDepth = [&](const Value *v) { auto *L = dyn_cast<LoadInst>(Restore::plain(v)); return L && at(L->getPointerOperand(), depth); };
	auto sets = [&](const Instruction &I)
	{
		auto *S = dyn_cast<StoreInst>(&I);
		if(!S || !at(S->getPointerOperand(), top)) return false;
		const Value *v = Restore::plain(S->getValueOperand());
		if(!x86) return isDepth(v);
		auto *G = dyn_cast<GEPOperator>(v);
		return G && G->getNumIndices() == 1 && isDepth(G->getOperand(1)) && isa<LoadInst>(G->getPointerOperand());
	};
	R.stat("resume_functions");
	if(pathAvoiding(F, nullptr, sets)) R.add("STATE-NOT-RESTORED", &*inst_begin(F), n, "execution may resume at a depth of the call stack other than the one that the failed function recorded", n);
	else R.sample(n + ": the call stack is cut to the recorded depth before execution resumes");
}
void restored(Function *F)
{
	std::string n = sname(F);
	if(n != "ExecutorRegVm::Run" && n != "ExecutorX86::Run" && n != "ExecutorRegVm::ExecCall") return;
	Restore r; r.F = F;
	bool x86 = n.find("X86") != std::string::npos;
	auto off = [&](const char *rec, const char *name, int64_t &o) { if(auto *T = recordOf(rec)) for(auto &f : fieldsOf(T)) if(f.name == name) { o = f.offset; return true; } R.brk(std::string("member ") + name + " of " + rec + " not found"); return false; };
	auto add = [&](const char *name, std::vector<std::pair<const char*, const char*>> path, bool block) { int64_t o = 0; for(auto &x : path) { int64_t q; if(!off(x.first, x.second, q)) return; o += q; } r.fields.push_back({ name, F->getArg(0), o, block }); };
	if(x86)
	{
		add("lastFinalReturn", { { "ExecutorX86", "lastFinalReturn" } }, false);
		add("regFileLastPtr", { { "ExecutorX86", "vmState" }, { "CodeGenRegVmStateContext", "regFileLastPtr" } }, false);
		add("regFileLastTop", { { "ExecutorX86", "vmState" }, { "CodeGenRegVmStateContext", "regFileLastTop" } }, false);
		add("dataStackTop", { { "ExecutorX86", "vmState" }, { "CodeGenRegVmStateContext", "dataStackTop" } }, false);
		add("errorHandler", { { "ExecutorX86", "vmState" }, { "CodeGenRegVmStateContext", "errorHandler" } }, true);
		for(auto &G : M->globals()) if(G.getName() == "_ZN5NULLC12errorHandlerE") r.fields.push_back({ "the handler of hardware exceptions", &G, 0, true });
		if(r.fields.size() != 6) R.brk("the handler of hardware exceptions was not found");
	}
	else
	{
		if(n != "ExecutorRegVm::ExecCall") add("lastFinalReturn", { { "ExecutorRegVm", "lastFinalReturn" } }, false);
		add("regFileLastTop", { { "ExecutorRegVm", "regFileLastTop" } }, false);
		add("dataStack", { { "ExecutorRegVm", "dataStack" }, { "FastVector<char, true, true>", "count" } }, false);
		if(n == "ExecutorRegVm::ExecCall") r.failed = [](const Value *v) { auto *K = dyn_cast<ConstantInt>(v); return K && K->isZero(); };
	}
	if(n != "ExecutorRegVm::ExecCall") { add("execErrorFinalReturnDepth", { { x86 ? "ExecutorX86" : "ExecutorRegVm", "execErrorFinalReturnDepth" } }, false); r.fields.back().onError = 0; if(r.fields[0].name != "lastFinalReturn") R.brk("depth of the started function is not known"); }
	R.stat("positions_kept", r.fields.size());
	std::set<unsigned> changed;
	for(auto &I : instructions(F)) if(auto *S = dyn_cast<StoreInst>(&I)) { int f = r.fieldAt(S->getPointerOperand()); if(f >= 0) changed.insert(f); }
	r.run();
	if(r.told.empty()) R.sample(n + ": every return leaves the " + std::to_string(r.fields.size()) + " positions as they were on entry");
}
const Summary &summary(Function *F)
{
	auto it = memo.find(F);
	if(it != memo.end()) return it->second;
	if(!busy.insert(F).second) { static Summary none; return none; }
	Summary s;
	bool any = false; int64_t val = 0;
	std::string unclear;
	for(auto &I : instructions(F))
	{
		auto *CB = dyn_cast<CallBase>(&I);
		if(setsMessage(I) && !raise.count(sname(F)))
		{
			Walk w{ F, nullptr, [&](const ReturnInst &, bool known, int64_t r) { if(!known || (any && r != val)) unclear = "message at line " + std::to_string(lineOf(&I)); any = true; val = r; }, nullptr };
			w.go(&I, World());
		}
		if(!CB || isa<DbgInfoIntrinsic>(CB)) continue;
		Event e = eventOf(CB);
		if(e.runs) s.runs = true;
		if(e.stops == No) continue;
		if(s.what.empty()) s.what = e.name + " at line " + std::to_string(lineOf(&I));
		Walk w{ F, nullptr, [&](const ReturnInst &, bool known, int64_t r) { if(getenv("ST_DEBUG") && sname(F) == getenv("ST_DEBUG")) errs() << e.name << " " << lineOf(&I) << " -> " << known << " " << r << "\n"; if(!known || (any && r != val)) unclear = e.name + " at line " + std::to_string(lineOf(&I)); any = true; val = r; }, nullptr };
		w.go(CB, worldOf(CB, e));
	}
	if(any)
	{
		s.stops = unclear.empty() ? Tells : Maybe;
		s.val = val;
		if(!unclear.empty()) s.what = unclear;
		// nothing but errors
		if(!pathAvoiding(F, nullptr, [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); return CB && !isa<DbgInfoIntrinsic>(CB) && eventOf(CB).stops == Always; })) s.stops = Always;
	}
	busy.erase(F);
	return memo[F] = s;
}
}
RULE(stopped)
{
	for(Function *F : definedFns()) basicSimplify(F, false);
	inferNoReturn();
	auto roots = nativeRoots();
	std::set<Function*> native(roots.begin(), roots.end());
	buildCallGraph();
	InlinePolicy P;
	auto primitive = [](const std::string &n) { return raise.count(n) || handled.count(n) || allocation.count(n) || n == "RunRawExternalFunction" || n.find("nullc") == 0 || n.find("SafeSprintf") != std::string::npos || n == "NULLC::copyMemory"; };
	P.want = [&](Function *C, CallBase *) { return inRepo(C) && !primitive(sname(C)) && instrCount(C) < 80 && C->getName() != "longjmp"; };
	P.maxDepth = 4; P.maxInstr = 20000;
	// only functions that have to do with errors or execution
	std::set<Function*> rel; std::vector<Function*> work;
	for(auto &F : *M) if(primitive(sname(&F)) && (raise.count(sname(&F)) || allocation.count(sname(&F)) || sname(&F).find("nullcCall") == 0 || sname(&F).find("nullcRun") == 0 || sname(&F) == "RunRawExternalFunction")) { rel.insert(&F); work.push_back(&F); }
	for(Function *F : definedFns()) if(inRepo(F)) for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(!calleeOf(CB) && eventOf(CB).runs) { if(rel.insert(F).second) work.push_back(F); break; }
	while(!work.empty()) { Function *F = work.back(); work.pop_back(); for(Function *C : callersOf(F)) if(inRepo(C) && rel.insert(C).second) work.push_back(C); }
	std::vector<Function*> todo;
	for(Function *F : definedFns()) if(rel.count(F) && inRepo(F)) todo.push_back(F);
	// functions that only foreign code calls
	std::set<Function*> foreign;
	for(Function *F : todo)
	{
		std::string n = sname(F);
		if(native.count(F) || primitive(n) || n.find("::") == std::string::npos || !F->hasAddressTaken()) { bool ext = false; for(Function *C : callersOf(F)) if(!inRepo(C) && n.find("::") != std::string::npos) ext = true; if(!ext || native.count(F) || primitive(n)) continue; }
		bool direct = false, calls = false;
		for(Function *C : callersOf(F)) if(inRepo(C)) direct = true;
		for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) { std::string c = sname(C); if(c.find("nullcCallFunction") == 0 || c.find("nullcRun") == 0) calls = true; }
		if(!direct && calls) foreign.insert(F);
	}
	for(Function *F : todo) normalise(F, &P);
	int64_t rvrError = -1;
	for(auto &e : enumOf("RegVmReturnType")) if(e.first == "rvrError") rvrError = e.second;
	if(rvrError < 0) R.brk("error result of the interpreter is not known");
	const std::vector<std::pair<std::string, int64_t>> contract = { { "ExecutorRegVm::Run", 0 }, { "ExecutorX86::Run", 0 }, { "ExecutorRegVm::RunCode", rvrError }, { "nullcCallFunction", 0 }, { "nullcRunFunctionInternal", 0 }, { "nullcRunFunction", 0 }, { "nullcRun", 0 } };
	for(auto &c : contract) contracts[c.first] = c.second;
	memo.clear();
	std::map<std::string, std::set<int64_t>> classFlag; std::map<std::string, std::pair<const Instruction*, std::string>> classAt;
	bool verbose = args.size() && args[0] == "-v";
	for(Function *F : todo)
	{
		std::string n = sname(F);
		if(handled.count(n)) continue;
		R.stat("functions");
		if(native.count(F)) R.stat("native_functions");
		for(auto &I : instructions(F))
		{
			auto *CB = dyn_cast<CallBase>(&I);
			if(stopsRunning(I))
			{
				R.stat("stop_sites");
				bool bad = false;
				Walk w{ F, [&](const Instruction &J, const Event &k) { if(!bad) R.add("RUN-WHILE-STOPPED", &J, n, k.name + " is called after the executor was told to stop (line " + std::to_string(lineOf(&I)) + ")", "stop then " + k.name); bad = true; }, nullptr, nullptr };
				w.go(&I, World());
			}
			if(!CB || isa<DbgInfoIntrinsic>(CB)) continue;
			Event e = eventOf(CB);
			if(e.runs) R.stat("run_sites");
			if(e.stops == No) continue;
			R.stat("error_sites");
			bool bad = false;
			Walk w{ F, [&](const Instruction &J, const Event &k) {
				if(bad) return;
				bad = true;
				R.add("RUN-WHILE-STOPPED", &J, n, k.name + " is called while the error that " + e.name + " (line " + std::to_string(lineOf(&I)) + ") may have left is pending", e.name + " then " + k.name);
			}, nullptr, nullptr };
			w.go(CB, worldOf(CB, e));
			if(!bad && !verbose && e.runs) R.sample(locOf(&I) + " " + n + ": nothing runs after an error left by " + e.name);
		}
		if(foreign.count(F))
		{
			// foreign code decides when it is called: it has to remember that it failed
			R.stat("callbacks");
			std::string cls = n.substr(0, n.rfind("::"));
			for(auto &I : instructions(F))
			{
				auto *CB = dyn_cast<CallBase>(&I);
				if(!CB || isa<DbgInfoIntrinsic>(CB)) continue;
				Event e = eventOf(CB);
				if(!e.runs || e.stops == No) continue;
				std::set<int64_t> flags;
				if(F->arg_size()) for(auto &J : instructions(F)) if(auto *S = dyn_cast<StoreInst>(&J)) if(S->getValueOperand()->getType()->isIntegerTy())
				{
					World w;
					APInt o(64, 0);
					if(S->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true) != F->getArg(0)) continue;
					bool kept = true;
					Walk after{ F, nullptr, [&](const ReturnInst &, bool, int64_t) { kept = false; }, [&](const Instruction &K, const World &at) { auto *T = dyn_cast<StoreInst>(&K); APInt q(64, 0); int64_t r; return T && T->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), q, true) == F->getArg(0) && q == o && at.eval(T->getValueOperand(), r) && r; } };
					after.go(CB, worldOf(CB, e));
					World failed; failed.self = F->getArg(0); failed.flag = o.getSExtValue();
					bool again = false;
					Walk before{ F, [&](const Instruction &K, const Event &) { if(&K == &I) again = true; }, nullptr, nullptr };
					before.go(nullptr, failed);
					if(kept && !again) flags.insert(o.getSExtValue());
				}
				if(!classAt.count(cls)) { classAt[cls] = { &I, n }; classFlag[cls] = flags; }
				else { std::set<int64_t> both; for(auto x : flags) if(classFlag[cls].count(x)) both.insert(x); if(both.empty() && !classFlag[cls].empty()) classAt[cls] = { &I, n }; classFlag[cls] = both; }
			}
		}
		restored(F);
		auto &s = summary(F);
		for(auto &c : contract) if(c.first == n && s.stops != No && !(s.stops == Tells && s.val == c.second))
		{
			R.add("ERROR-NOT-TOLD", &*inst_begin(F), n, "after an error left by " + s.what + " the function may return as if it had succeeded", n);
		}
		for(auto &c : contract) if(c.first == n) { R.stat("results_that_tell"); if(s.stops == No) R.brk(n + " never fails"); }
		if(fileOf(F).find("CodeGenRegVm_X86") != std::string::npos && (s.stops != No || s.runs || !s.what.empty()))
		{
			R.stat("generated_code_helpers");
			if(s.stops != No) R.add("ERROR-NOT-TOLD", &*inst_begin(F), n, "after an error left by " + s.what + " the helper may return to generated code", n);
		}
		if(verbose) outs() << n << " runs " << s.runs << " stops " << (const char*[]){ "no", "always", "tells", "MAYBE" }[s.stops] << " " << s.val << " " << s.what << (native.count(F) ? " native" : "") << "\n";
	}
	unsigned resumes = 0;
	for(Function *F : definedFns()) if(sname(F) == "ExecutorRegVm::Resume" || sname(F) == "ExecutorX86::Resume") { normalise(F, &P); resumed(F); resumes++; }
	if(resumes != 2) R.brk("functions that resume execution not found");
	for(auto &c : classAt)
	{
		if(c.second.first && classFlag[c.first].empty()) R.add("RUN-WHILE-STOPPED", c.second.first, c.second.second, "foreign code may call this again after the script function failed, and it would execute script code while the error is pending", "callback " + c.first);
		else R.sample(locOf(c.second.first) + " " + c.first + ": remembers a failed call and does not call again");
	}
	for(auto &c : contract) { bool f = false; for(Function *F : todo) if(sname(F) == c.first) f = true; if(!f) R.brk(c.first + " not found"); }
	if(roots.size() < 250) R.brk("only " + std::to_string(roots.size()) + " native functions found");
}
