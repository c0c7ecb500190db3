// C15: compile-time evaluation ends: loops and calls are charged to a budget, nesting and memory are limited
#include "rules.h"
#include "loops.h"
#include "dom.h"
namespace {
struct Ctx
{
	const char *file, *rec, *structName, *counter, *limit;
	std::map<std::string, int64_t> off;
	// offset of the field of the evaluation context that a pointer names, -1 otherwise
	int64_t field(const Value *p) const
	{
		APInt o(64, 0);
		while(auto *G = dyn_cast<GEPOperator>(p))
		{
			if(!G->accumulateConstantOffset(M->getDataLayout(), o)) return -1;
			auto *ST = dyn_cast<StructType>(G->getSourceElementType());
			if(ST && ST->hasName() && ST->getName() == structName) return o.getSExtValue();
			p = G->getPointerOperand();
		}
		return -1;
	}
	bool is(const Value *p, const char *f) const { auto it = off.find(f); return it != off.end() && field(p) == it->second; }
	bool loadOf(const Value *v, const char *f) const { while(auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); auto *L = dyn_cast<LoadInst>(v); return L && is(L->getPointerOperand(), f); }
	// store counter = counter + positive constant
	const StoreInst *charge(const Instruction &I) const
	{
		auto *S = dyn_cast<StoreInst>(&I);
		if(!S || !is(S->getPointerOperand(), counter)) return nullptr;
		auto *B = dyn_cast<BinaryOperator>(S->getValueOperand());
		auto *K = B && B->getOpcode() == Instruction::Add ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
		return K && K->getSExtValue() > 0 && loadOf(B->getOperand(0), counter) ? S : nullptr;
	}
	bool counterValue(const Value *v) const
	{
		if(loadOf(v, counter)) return true;
		auto *B = dyn_cast<BinaryOperator>(v);
		return B && B->getOpcode() == Instruction::Add && isa<ConstantInt>(B->getOperand(1)) && loadOf(B->getOperand(0), counter);
	}
	// successor index taken when the budget is used up, -1 if this is not the budget test
	int stopEdge(const BasicBlock *BB) const
	{
		auto *Br = dyn_cast<BranchInst>(BB->getTerminator());
		if(!Br || !Br->isConditional()) return -1;
		for(int e = 0; e < 2; e++)
			for(auto &x : implied(Br->getCondition(), e == 0))
			{
				auto p = x.second ? x.first->getPredicate() : x.first->getInversePredicate();
				const Value *a = x.first->getOperand(0), *b = x.first->getOperand(1);
				if(counterValue(b) && loadOf(a, limit)) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
				if(counterValue(a) && loadOf(b, limit) && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE)) return 1 - e;
			}
		return -1;
	}
};
std::string kindOfLoop(Loop *L, FactFlow &FF, const Ctx &sc)
{
	BasicBlock *H = L->getHeader();
	for(auto &P : H->phis())
	{
		std::vector<const Value*> backs, starts;
		for(unsigned i = 0; i < P.getNumIncomingValues(); i++) (L->contains(P.getIncomingBlock(i)) ? backs : starts).push_back(P.getIncomingValue(i));
		// does the value step from P on every way round
		std::function<std::string(const Value*, int)> step = [&](const Value *v, int d) -> std::string {
			if(d > 12) return "";
			if(auto *Q = dyn_cast<PHINode>(v)) if(Q != &P && L->contains(Q->getParent()))
			{
				std::string k;
				for(auto &in : Q->incoming_values()) { if(isa<ConstantPointerNull>(in.get())) continue; auto s = step(in.get(), d + 1); if(s.empty() || (!k.empty() && s != k)) return ""; k = s; }
				return k;
			}
			if(auto *S = dyn_cast<SelectInst>(v)) { auto a = isa<ConstantPointerNull>(S->getTrueValue()) ? "" : step(S->getTrueValue(), d + 1), b = isa<ConstantPointerNull>(S->getFalseValue()) ? "" : step(S->getFalseValue(), d + 1); return a.empty() ? b : b.empty() || a == b ? a : ""; }
			if(isa<LoadInst>(v) || isa<CastInst>(v) || isa<GEPOperator>(v))
			{ // reached from P through at least one load, every iteration
				std::set<const Value*> seen;
				std::function<int(const Value*)> walk = [&](const Value *x) -> int { // 0 no, 1 derived without load, 2 through a load
					if(x == &P) return 1;
					auto *I = dyn_cast<Instruction>(x);
					if(!I || !L->contains(I) || !seen.insert(x).second) return 0;
					if(auto *Ld = dyn_cast<LoadInst>(I)) return walk(Ld->getPointerOperand()) ? 2 : 0;
					if(isa<PHINode>(I) || isa<SelectInst>(I))
					{
						int r = 3; bool any = false;
						for(unsigned i = isa<SelectInst>(I) ? 1 : 0; i < I->getNumOperands(); i++) { auto *o = I->getOperand(i); if(isa<Constant>(o)) continue; any = true; r = std::min(r, walk(o)); }
						return any ? r : 0;
					}
					if(isa<CastInst>(I) || isa<GetElementPtrInst>(I) || isa<BinaryOperator>(I)) { int r = 0; for(auto &o : I->operands()) r = std::max(r, walk(o.get())); return r; }
					return 0;
				};
				if(walk(v) == 2) return "list";
			}
			if(auto *Ld = dyn_cast<LoadInst>(v)) if(Ld->getType()->isPointerTy())
			{
				const Value *p = Ld->getPointerOperand();
				while(true)
				{
					if(auto *G = dyn_cast<GEPOperator>(p)) { p = G->getPointerOperand(); continue; }
					if(auto *C = dyn_cast<CastInst>(p)) { p = C->getOperand(0); continue; }
					if(auto *Q = dyn_cast<PHINode>(p)) if(Q != &P && L->contains(Q->getParent())) { const Value *u = nullptr; bool ok = true; for(auto &in : Q->incoming_values()) { if(isa<ConstantPointerNull>(in.get())) continue; if(u && u != in.get()) ok = false; u = in.get(); } if(ok && u) { p = u; continue; } }
					break;
				}
				return p == &P ? "list" : "";
			}
			if(auto *CB = dyn_cast<CallBase>(v)) { // checked casts and reads return their argument or null
				Function *C = calleeOf(CB);
				std::string n = C ? sname(C) : "";
				if(n.compare(0, 7, "getType") == 0 || n.find("ReadVmMemoryPointer") != std::string::npos) { auto *a = CB->getArgOperand(0); if(n[0] == 'g') return step(a, d + 1); while(auto *G = dyn_cast<GEPOperator>(a)) a = const_cast<Value*>(G->getPointerOperand()); return a == &P ? "list" : ""; }
				return "";
			}
			if(auto *G = dyn_cast<GEPOperator>(v)) if(G->getPointerOperand() == &P && G->getNumOperands() == 2 && isa<ConstantInt>(G->getOperand(1)) && !cast<ConstantInt>(G->getOperand(1))->isZero()) return "scan";
			if(auto *B = dyn_cast<BinaryOperator>(v))
			{
				if(B->getOpcode() == Instruction::Add && B->getOperand(0) == &P && isa<ConstantInt>(B->getOperand(1))) return cast<ConstantInt>(B->getOperand(1))->isZero() ? "" : "count";
				if(B->getOpcode() == Instruction::LShr || B->getOpcode() == Instruction::AShr)
				{
					auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
					std::set<const Value*> seen;
					std::function<bool(const Value*)> from = [&](const Value *x) { if(x == &P) return true; if(!seen.insert(x).second) return true; if(auto *Q = dyn_cast<PHINode>(x)) { for(auto &in : Q->incoming_values()) if(!from(in.get())) return false; return true; } if(auto *S = dyn_cast<SelectInst>(x)) return from(S->getTrueValue()) && from(S->getFalseValue()); auto *A = dyn_cast<BinaryOperator>(x); return A && (A->getOpcode() == Instruction::And || A->getOpcode() == Instruction::Add) && isa<ConstantInt>(A->getOperand(1)) && from(A->getOperand(0)); };
					if(!K || K->isZero() || !from(B->getOperand(0))) return "";
					return B->getOpcode() == Instruction::LShr ? "shift" : "ashift";
				}
			}
			return "";
		};
		std::string k;
		bool ok = !backs.empty();
		for(auto *b : backs) { auto s = step(b, 0); if(s.empty() || (!k.empty() && k != s)) ok = false; k = s; }
		if(!ok) continue;
		// the loop must be able to leave on a test of this value
		SmallVector<BasicBlock*, 4> ex;
		L->getExitingBlocks(ex);
		bool tested = false;
		std::function<bool(const Value*, int)> uses = [&](const Value *v, int d) -> bool { if(v == &P) return true; auto *I = dyn_cast<Instruction>(v); if(!I || d > 6 || !L->contains(I) || (k == "count" && (isa<LoadInst>(I) || isa<CallBase>(I)))) return false; for(auto &o : I->operands()) if(uses(o.get(), d + 1)) return true; return false; };
		const Value *bound = nullptr;
		for(auto *X : ex) if(auto *Br = dyn_cast<BranchInst>(X->getTerminator())) if(Br->isConditional() && uses(Br->getCondition(), 0)) { tested = true; if(auto *C = dyn_cast<ICmpInst>(Br->getCondition())) bound = uses(C->getOperand(0), 0) ? C->getOperand(1) : C->getOperand(0); }
		if(!tested) continue;
		if(k == "ashift")
		{
			bool nonneg = true;
			for(unsigned i = 0; i < P.getNumIncomingValues(); i++)
				if(!L->contains(P.getIncomingBlock(i)))
				{
					auto *PB = P.getIncomingBlock(i);
					if(!FF.reached.count(PB)) continue;
					FactSet s = FF.in[PB]; for(auto &I : *PB) FF.transfer(I, s);
					FactSet t = s; FF.edge(PB, H, t);
					const Value *v = P.getIncomingValue(i);
					bool f = false;
					for(auto &set : { s, t }) for(int id : FF.ids(v)) for(auto &fa : set) if((fa.k == F_SLE || fa.k == F_SLT) && fa.b == id && FF.E.nodes[fa.a].k == Node::Const && FF.E.nodes[fa.a].c >= (fa.k == F_SLT ? -1 : 0)) f = true;
					if(!f) nonneg = false;
				}
			if(!nonneg) return "negative-shift";
			return "shift";
		}
		if(k == "count" && bound)
		{
			const Value *b = bound;
			while(auto *C = dyn_cast<CastInst>(b)) b = C->getOperand(0);
			if(isa<ConstantInt>(b)) return "count const";
			if(auto *Ld = dyn_cast<LoadInst>(b)) if(auto *G = dyn_cast<GEPOperator>(Ld->getPointerOperand()))
			{
				std::string n;
				if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if(ST->hasName())
				{
					Type *T0 = ST;
					std::vector<Value*> idx(G->idx_begin() + 1, G->idx_end());
					n = ST->getName().str();
					for(size_t i = 0; i + 1 < idx.size(); i++) if(auto *S2 = dyn_cast<StructType>(T0)) { T0 = S2->getElementType(cast<ConstantInt>(idx[i])->getZExtValue()); if(auto *S3 = dyn_cast<StructType>(T0)) if(S3->hasName()) n = S3->getName().str(); }
				}
				for(auto *c : { "SmallArray", "FastVector", "ArrayView", "IntrusiveList" }) if(n.find(c) != std::string::npos) return "count container";
				for(auto *c : { "variableMemoryLimit", "frameMemoryLimit", "totalMemoryLimit" }) if(sc.loadOf(b, c)) return "count limit";
				return "count field " + n;
			}
			return "count value";
		}
		return k;
	}
	return "";
}
bool debug = false;
}
RULE(evalbudget)
{
	for(auto &a : args) if(a == "-v") debug = true;
	std::vector<Ctx> scopes = {
		{ "NULLC/ExpressionEval.cpp", "ExpressionEvalContext", "struct.ExpressionEvalContext", "instruction", "instructionsLimit", {} },
		{ "NULLC/InstructionTreeVmEval.cpp", "InstructionVMEvalContext", "struct.InstructionVMEvalContext", "instruction", "instructionsLimit", {} },
	};
	for(Function *F : definedFns()) basicSimplify(F, false);
	inferNoReturn();
	for(auto &sc : scopes)
	{
		auto *rec = recordOf(sc.rec);
		if(!rec) { R.brk(std::string("no record ") + sc.rec); continue; }
		for(auto &f : fieldsOf(rec)) sc.off[f.name] = f.offset;
		for(auto *n : { sc.counter, sc.limit, "stackDepthLimit", "stackFrames" }) if(!sc.off.count(n)) R.brk(std::string(sc.rec) + " has no field " + n);
		int64_t frameCount = -1, frameData = -1;
		for(auto &f : fieldsOf(rec)) if(f.name == "stackFrames") if(auto *T0 = dyn_cast_or_null<DICompositeType>(stripType(f.type))) for(auto &g : fieldsOf(T0)) { if(g.name == "count") frameCount = f.offset + g.offset; if(g.name == "data") frameData = f.offset + g.offset; }
		if(frameCount < 0) R.brk("size of the frame stack not found");
		InlinePolicy P;
		P.want = [&](Function *C, CallBase *) { return fileOf(C).compare(0, 5, "NULLC") == 0 && instrCount(C) < 40; };
		P.maxDepth = 3;
		std::vector<Function*> fns;
		for(Function *F : definedFns()) if(fileOf(F) == sc.file) fns.push_back(F);
		for(Function *F : fns) { normalise(F, &P); runPasses(F, "early-cse<memssa>"); }
		// functions that charge the budget on every path
		std::set<Function*> chargers;
		auto isCharge = [&](const Instruction &I) { if(sc.charge(I)) return true; auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && chargers.count(C) > 0; };
		auto testsBudget = [&](Function *F) { for(auto &B : *F) if(sc.stopEdge(&B) >= 0) return true; return false; };
		for(bool changed = true; changed;)
		{
			changed = false;
			for(Function *F : fns)
			{
				if(chargers.count(F)) continue;
				bool direct = false, calls = false;
				for(auto &I : instructions(F)) { if(sc.charge(I)) direct = true; else if(isCharge(I)) calls = true; }
				if(!(direct && testsBudget(F)) && !calls) continue;
				std::set<const Instruction*> stopTerm;
				// leaving through the exhausted edge counts as charged
				auto hit = [&](const Instruction &I) { if(isCharge(I)) return true; return I.isTerminator() && sc.stopEdge(I.getParent()) >= 0; };
				auto test = [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return (C && chargers.count(C)) || (I.isTerminator() && sc.stopEdge(I.getParent()) >= 0); };
				if(!pathAvoiding(F, nullptr, hit) && !pathAvoiding(F, nullptr, test)) { chargers.insert(F); changed = true; }
			}
		}
		// fields of the context raised whenever the budget is found exhausted
		std::set<int64_t> failFields;
		for(Function *F : fns)
			for(auto &B : *F)
			{
				int e = sc.stopEdge(&B);
				if(e < 0) continue;
				const Instruction *at = &*B.getTerminator()->getSuccessor(e)->begin();
				for(auto &f : sc.off)
				{
					auto raises = [&](const Instruction &I) {
						auto st = [&](const Instruction &J) { auto *S = dyn_cast<StoreInst>(&J); auto *K = S ? dyn_cast<ConstantInt>(S->getValueOperand()) : nullptr; return K && K->isOne() && sc.field(S->getPointerOperand()) == f.second; };
						if(st(I)) return true;
						auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr;
						if(!C || C->isDeclaration()) return false;
						// every way through the callee raises the field or finds it raised
						std::set<const BasicBlock*> seen{ &C->getEntryBlock() }; std::deque<const BasicBlock*> q{ &C->getEntryBlock() };
						while(!q.empty())
						{
							auto *X = q.front(); q.pop_front();
							bool hit = false;
							for(auto &J : *X) hit = hit || st(J);
							if(hit) continue;
							if(isa<ReturnInst>(X->getTerminator())) return false;
							const BasicBlock *skip = nullptr;
							if(auto *Br = dyn_cast<BranchInst>(X->getTerminator())) if(Br->isConditional()) { const Value *v = Br->getCondition(); while(auto *K = dyn_cast<CastInst>(v)) v = K->getOperand(0); auto *Ld = dyn_cast<LoadInst>(v); if(Ld && sc.field(Ld->getPointerOperand()) == f.second) skip = Br->getSuccessor(0); }
							for(auto *S : successors(X)) if(S != skip && seen.insert(S).second) q.push_back(S);
						}
						return true;
					};
					if(raises(*at) || !pathAvoiding(F, at, raises)) failFields.insert(f.second);
				}
			}
		// functions that evaluate parts of the program: they can reach a function that enters a call frame
		std::set<Function*> evaluates;
		auto pushOf = [&](const Instruction &I) -> const Value* { // new frame pushed by this instruction
			auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr;
			if(C && sname(C).find("push_back") != std::string::npos && sc.is(CB->getArgOperand(0), "stackFrames")) return &I;
			auto *S = dyn_cast<StoreInst>(&I);
			auto *B = S && sc.field(S->getPointerOperand()) == frameCount ? dyn_cast<BinaryOperator>(S->getValueOperand()) : nullptr;
			auto *K = B && B->getOpcode() == Instruction::Add ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
			return K && K->getSExtValue() > 0 ? &I : nullptr;
		};
		for(Function *F : fns) for(auto &I : instructions(F)) if(pushOf(I)) evaluates.insert(F);
		for(bool changed = true; changed;)
		{
			changed = false;
			for(Function *F : fns) if(!evaluates.count(F)) for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(evaluates.count(C)) { evaluates.insert(F); changed = true; break; }
		}
		auto loopsOf = [&](Function *F) {
			std::vector<Violation> res;
			DominatorTree DT(*F); LoopInfo LI(DT);
			FactFlow FF(*F); FF.run();
			auto bad = [&](const char *rule, Loop *L, std::string d, const char *key) { auto *I = &*L->getHeader()->getFirstNonPHIOrDbg(); Violation v; v.rule = rule; v.func = sname(F); v.file = fileOf(I); v.line = lineOf(I); v.detail = d; v.key = key; res.push_back(v); };
			for(Loop *L : LI.getLoopsInPreorder())
			{
				R.stat("loops");
				std::string k = kindOfLoop(L, FF, sc);
				std::string where = locOf(&*L->getHeader()->getFirstNonPHIOrDbg());
				if(debug && k.empty()) for(auto *B : L->blocks()) B->print(errs());
								if(debug) errs() << where << " " << sname(F) << ": " << (k.empty() ? "?" : k) << "\n";
				// work that depends on the evaluated program
				bool work = false;
				for(auto *B : L->blocks()) for(auto &I : *B) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(evaluates.count(C)) work = true;
				if(k.compare(0, 11, "count value") == 0 && !work) { R.stat("bounded_loops"); continue; }
				if(k.compare(0, 11, "count limit") == 0) { R.stat("bounded_loops"); continue; }
				bool bounded = k == "list" || k == "scan" || k == "shift" || k == "count const" || k == "count container";
				// walks over the program text need no charge of their own; walks that repeat evaluation by a data value do
				if(bounded) { R.stat("bounded_loops"); continue; }
				R.sample(where + " in " + sname(F) + " charged");
				auto backAvoiding = [&](std::function<bool(const BasicBlock*)> cut) {
					std::set<const BasicBlock*> seen; std::deque<const BasicBlock*> q;
					if(cut(L->getHeader())) return false;
					q.push_back(L->getHeader());
					while(!q.empty()) { auto *B = q.front(); q.pop_front(); for(auto *S : successors(B)) { if(S == L->getHeader()) return true; if(!L->contains(S) || cut(S) || !seen.insert(S).second) continue; q.push_back(S); } }
					return false;
				};
				auto reachesHeader = [&](const BasicBlock *src, const BasicBlock *to) {
					if(!L->contains(to)) return false;
					// constants chosen on the way decide later branches
					typedef std::map<const PHINode*, const ConstantInt*> Env;
					std::set<std::pair<const BasicBlock*, Env>> seen;
					std::deque<std::pair<const BasicBlock*, Env>> q;
					auto enter = [&](const BasicBlock *from, const BasicBlock *B, Env e) {
						Env n = e;
						for(auto &P : B->phis()) { const Value *v = P.getIncomingValueForBlock(from); auto *k = dyn_cast<ConstantInt>(v); if(auto *Q = dyn_cast<PHINode>(v)) { auto it = e.find(Q); k = it == e.end() ? nullptr : it->second; } if(k) n[&P] = k; else n.erase(&P); }
						if(seen.size() < 5000 && seen.insert({ B, n }).second) q.push_back({ B, n });
					};
					enter(src, to, {});
					while(!q.empty())
					{
						auto [B, e] = q.front(); q.pop_front();
						if(B == L->getHeader()) return true;
						auto value = [&](const Value *v) -> const ConstantInt* { if(auto *k = dyn_cast<ConstantInt>(v)) return k; if(auto *P = dyn_cast<PHINode>(v)) { auto it = e.find(P); return it == e.end() ? nullptr : it->second; } return nullptr; };
						const BasicBlock *only = nullptr;
						if(auto *Br = dyn_cast<BranchInst>(B->getTerminator())) if(Br->isConditional())
						{
							if(auto *k = value(Br->getCondition())) only = Br->getSuccessor(k->isZero());
							if(auto *C = dyn_cast<ICmpInst>(Br->getCondition())) { auto *x = value(C->getOperand(0)), *y = value(C->getOperand(1)); if(x && y) only = Br->getSuccessor(!ICmpInst::compare(x->getValue(), y->getValue(), C->getPredicate())); }
						}
						if(auto *SI = dyn_cast<SwitchInst>(B->getTerminator())) if(auto *k = value(SI->getCondition())) only = SI->findCaseValue(k)->getCaseSuccessor();
						for(auto *S : successors(B)) if((!only || S == only) && L->contains(S)) enter(B, S, e);
					}
					return seen.size() >= 5000;
				};
				auto charged = [&](const BasicBlock *B) { for(auto &I : *B) if(isCharge(I)) return true; return false; };
				// the block tests the budget (or the failure it caused) and leaves the loop when it is used up
				auto stops = [&](const BasicBlock *B) {
					auto *Br = dyn_cast<BranchInst>(B->getTerminator());
					if(!Br || !Br->isConditional()) return false;
					int e = sc.stopEdge(B);
					if(e >= 0) return !reachesHeader(B, Br->getSuccessor(e));
					const Value *c = Br->getCondition(); bool neg = false;
					const Value *v = c;
					if(auto *C = dyn_cast<ICmpInst>(c)) if(C->isEquality() && (isa<ConstantPointerNull>(C->getOperand(1)) || (isa<ConstantInt>(C->getOperand(1)) && cast<ConstantInt>(C->getOperand(1))->isZero()))) { v = C->getOperand(0); neg = C->getPredicate() == CmpInst::ICMP_EQ; }
					while(auto *K = dyn_cast<CastInst>(v)) v = K->getOperand(0);
					if(auto *CB = dyn_cast<CallBase>(v)) { Function *C = calleeOf(CB); return C && chargers.count(C) && !reachesHeader(B, Br->getSuccessor(neg ? 0 : 1)); }
					if(auto *Ld = dyn_cast<LoadInst>(v)) return failFields.count(sc.field(Ld->getPointerOperand())) && !reachesHeader(B, Br->getSuccessor(neg ? 1 : 0));
					return false;
				};
				if(k == "negative-shift") { bad("ENDLESS-LOOP", L, "loop shifts a value that may be negative, so it never becomes zero", "shift"); continue; }
				// counted by data, but leaves as soon as a limited resource refuses to grow
				R.stat("charged_loops");
				if(backAvoiding(charged)) bad("UNCHARGED-LOOP", L, "an iteration of this loop is not charged to the instruction budget" + (k.empty() ? "" : " (" + k + ")"), "loop");
				else if(backAvoiding(stops)) bad("BUDGET-IGNORED", L, "the loop continues although the instruction budget is used up", "loop");
			}
			return res;
		};
		unsigned pushes = 0, storages = 0;
		for(Function *F : fns)
		{
			R.stat("functions");
			DominatorTree DT(*F); LoopInfo LI(DT);
			FactFlow FF(*F); FF.run();
			for(auto &I : instructions(F))
				if(auto *S = dyn_cast<StoreInst>(&I))
				{
					bool ctor = sname(F).find(std::string(sc.rec) + "::" + sc.rec) != std::string::npos;
					auto *K = dyn_cast<ConstantInt>(S->getValueOperand());
					bool fresh = isa<AllocaInst>(S->getPointerOperand()->stripInBoundsOffsets());
					if(sc.is(S->getPointerOperand(), sc.counter))
					{
						R.stat("counter_writes");
						if(!sc.charge(I) && !((ctor || fresh) && K)) R.add("BUDGET-RESET", &I, sname(F), "the instruction counter of the evaluation is set to something other than a larger value", "counter");
					}
					if(sc.off.count("totalMemory") && sc.is(S->getPointerOperand(), "totalMemory"))
					{
						const Value *sv = S->getValueOperand(); while(auto *Z = dyn_cast<CastInst>(sv)) sv = Z->getOperand(0);
						auto *B = dyn_cast<BinaryOperator>(sv);
						if(!((ctor || fresh) && K) && !(B && B->getOpcode() == Instruction::Add && (sc.loadOf(B->getOperand(0), "totalMemory") || sc.loadOf(B->getOperand(1), "totalMemory")) && !isa<ConstantInt>(B->getOperand(1)))) R.add("BUDGET-RESET", &I, sname(F), "the total size of variables is set to something other than a larger value", "total");
					}
					for(auto *f : { sc.limit, "stackDepthLimit", "variableMemoryLimit", "totalMemoryLimit", "frameMemoryLimit", "expressionDepthLimit" })
						if(sc.off.count(f) && sc.is(S->getPointerOperand(), f))
						{
							R.stat("limit_writes");
							if(!((ctor || fresh) && K && K->getValue().ule(1u << 24))) R.add("LIMIT-CHANGED", &I, sname(F), std::string("limit ") + f + " is changed during an evaluation or is not finite", f);
						}
				}
			// branch on a comparison with a limit whose edge below the limit dominates the instruction
			auto limited = [&](const Instruction *at, const char *limit, std::function<bool(const Value*)> what) {
				for(auto &B : *F)
				{
					auto *Br = dyn_cast<BranchInst>(B.getTerminator());
					if(!Br || !Br->isConditional()) continue;
					for(int e = 0; e < 2; e++)
						for(auto &x : implied(Br->getCondition(), e == 0))
						{
							auto p = x.second ? x.first->getPredicate() : x.first->getInversePredicate();
							const Value *a = x.first->getOperand(0), *b = x.first->getOperand(1);
							if(sc.loadOf(a, limit)) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
							if(!sc.loadOf(b, limit) || !what(a)) continue;
							if(p != CmpInst::ICMP_ULT && p != CmpInst::ICMP_ULE && p != CmpInst::ICMP_SLT && p != CmpInst::ICMP_SLE) continue;
							if(DT.dominates(BasicBlockEdge(&B, Br->getSuccessor(e)), at->getParent())) return true;
						}
				}
				return false;
			};
			auto stripped = [](const Value *v) { while(auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); return v; };
			auto same = [](const Value *a, const Value *b, int) { return sameValue(a, b, true); };
			for(auto &I : instructions(F))
			{
				if(pushOf(I))
				{
					// the global frame is entered once, before anything is evaluated
					bool root = false;
					for(auto &J : *I.getParent())
						if(auto *S = dyn_cast<StoreInst>(&J)) if(S->getValueOperand()->getType()->isPointerTy())
						{
							auto *G = dyn_cast<GEPOperator>(S->getPointerOperand()); auto *D = G ? dyn_cast<LoadInst>(G->getPointerOperand()) : nullptr;
							if(!D || sc.field(D->getPointerOperand()) != frameData) continue;
							if(sc.loadOf(S->getValueOperand(), "globalFrame")) root = true;
							for(auto *U : S->getValueOperand()->users()) if(auto *Z = dyn_cast<StoreInst>(U)) if(Z->getValueOperand() == S->getValueOperand() && sc.is(Z->getPointerOperand(), "globalFrame")) root = true;
						}
					if(root) continue;
					pushes++; R.stat("frame_pushes");
					if(!limited(&I, "stackDepthLimit", [&](const Value *a) { auto *L = dyn_cast<LoadInst>(stripped(a)); return L && sc.field(L->getPointerOperand()) == frameCount; }))
						R.add("UNLIMITED-DEPTH", &I, sname(F), "a call frame is entered without comparing the number of frames with the depth limit", "push");
					auto toPush = [&](const Instruction &J) { return &J == &I; };
					auto isCh = [&](const Instruction &J) { return isCharge(J); };
					if(pathAvoiding(F, nullptr, isCh, toPush)) R.add("UNCHARGED-CALL", &I, sname(F), "a call frame is entered on a path that is not charged to the instruction budget", "push");
				}
				auto *CB = dyn_cast<CallBase>(&I);
				if(!CB) continue;
				Function *C = calleeOf(CB);
				if(!sc.off.count("frameMemoryLimit"))
				{
					// memory of variables comes from the compiler's allocator
					if(C || CB->arg_size() != 2 || !CB->getType()->isPointerTy() || !CB->getArgOperand(1)->getType()->isIntegerTy(32) || isa<ConstantInt>(CB->getArgOperand(1)) || fileOf(&I) != sc.file) continue;
					const Value *n = CB->getArgOperand(1);
					storages++; R.stat("variable_allocations");
					if(!limited(&I, "variableMemoryLimit", [&](const Value *a) { return same(a, n, 0); })) R.add("UNLIMITED-MEMORY", &I, sname(F), "memory for a variable is taken without comparing its size with the limit for one variable", "variable");
					auto sum = [&](const Value *a) { auto *B = dyn_cast<BinaryOperator>(stripped(a)); return B && B->getOpcode() == Instruction::Add && ((sc.loadOf(B->getOperand(0), "totalMemory") && same(B->getOperand(1), n, 0)) || (sc.loadOf(B->getOperand(1), "totalMemory") && same(B->getOperand(0), n, 0))); };
					if(!limited(&I, "totalMemoryLimit", sum)) R.add("UNLIMITED-MEMORY", &I, sname(F), "memory for a variable is taken without comparing the total size of variables with the limit", "total");
					auto accounts = [&](const Instruction &J) { auto *S = dyn_cast<StoreInst>(&J); return S && sc.is(S->getPointerOperand(), "totalMemory") && sum(S->getValueOperand()); };
					auto toSite = [&](const Instruction &J) { return &J == &I; };
					if(pathAvoiding(F, nullptr, accounts, toSite) && pathAvoiding(F, &I, accounts)) R.add("UNLIMITED-MEMORY", &I, sname(F), "memory taken for a variable is not added to the total", "account");
				}
				else if(C && sname(C).find("SmallArray<char") != std::string::npos && (sname(C).find("resize") != std::string::npos || sname(C).find("::grow") != std::string::npos || sname(C).find("::reserve") != std::string::npos))
				{
					const Value *n = CB->getArgOperand(1);
					if(auto *B = dyn_cast<BinaryOperator>(n)) if(B->getOpcode() == Instruction::Add && isa<ConstantInt>(B->getOperand(1)) && cast<ConstantInt>(B->getOperand(1))->getValue().ult(4096)) n = B->getOperand(0);
					storages++; R.stat("variable_allocations");
					if(isa<ConstantInt>(n)) continue;
					if(!limited(&I, "frameMemoryLimit", [&](const Value *a) { return same(a, n, 0); })) R.add("UNLIMITED-MEMORY", &I, sname(F), "storage of variables grows without comparing the new size with the limit", "frame");
				}
			}
		}
		for(Function *F : fns)
		{
			auto first = loopsOf(F);
			if(!first.empty())
			{ // the same function with the loop tests at the end
				runPasses(F, "early-cse<memssa>,loop-simplify,loop(loop-rotate)"); runPasses(F, "early-cse<memssa>,jump-threading,simplifycfg");
				auto second = loopsOf(F);
				if(second.size() < first.size()) first = second;
			}
			for(auto &p : first) R.addAt(p.rule, p.file, p.line, p.func, p.detail, p.key);
		}
		if(!pushes) R.brk(std::string("no call frame entered in ") + sc.file);
		if(!storages) R.brk(std::string("no variable storage found in ") + sc.file);
		if(debug) { for(auto *F : evaluates) errs() << sname(F) << " "; errs() << "\n"; }
		if(debug) { errs() << sc.file << " chargers:"; for(auto *F : chargers) errs() << " " << sname(F); errs() << "\n"; for(auto f : failFields) errs() << "fail field " << f << "\n"; }
	}
}
