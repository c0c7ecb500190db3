// Evaluation of IR over value terms, path by path, and the interpreter's instruction handlers reduced to specifications.
#pragma once
#include "rules.h"
#include "terms.h"
#include "loops.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
namespace {
Terms T;
struct Cond { int c; bool pos; bool operator<(const Cond &o) const { return std::tie(c, pos) < std::tie(o.c, o.pos); } bool operator==(const Cond &o) const { return c == o.c && pos == o.pos; } };
enum EK { E_STORE, E_FILL, E_COPY, E_CALL };
struct Eff { int kind; int size; std::vector<int> a; std::string s; bool operator<(const Eff &o) const { return std::tie(kind, size, a, s) < std::tie(o.kind, o.size, o.a, o.s); } bool operator==(const Eff &o) const { return !(*this < o) && !(o < *this); } };
enum OK { O_NEXT, O_JUMP, O_ERROR };
struct Outcome { int kind = O_NEXT; int target = -1; std::string msg; };
struct Opnd { char k; int v; }; // r register, x xmm register, s size, n number (term), i multiplier (term), l 64-bit number (term)
struct MOp { std::string name; std::string shape; std::vector<Opnd> o; const Instruction *at; };
struct St
{
	const BasicBlock *bb = nullptr, *prev = nullptr; BasicBlock::const_iterator it;
	std::map<const Value*, int> env;
	std::map<int, std::pair<int, int>> mem; // private memory: address -> (size, value)
	std::vector<Eff> eff; std::vector<int> stores; std::vector<Cond> conds;
	Outcome out; bool done = false;
	// generator
	std::vector<MOp> ops; std::set<int> locks, invalid, found, got; std::map<int, Function*> slots;
	int steps = 0;
	std::string note;
	// evaluation through calls
	struct Frame { const BasicBlock *bb, *prev; BasicBlock::const_iterator it; std::map<const Value*, int> env; const CallBase *call; };
	std::vector<Frame> frames; uint64_t heap = 0x10000000;
	struct Event { std::string name; std::vector<int> a; const Instruction *at; };
	std::vector<Event> events;
};
struct Undecided { std::string why; };
std::map<int, std::string> cmdName;
std::map<std::string, int> regId, xmmId, sizeId;
std::set<int> privateSyms;
std::string effStr(const Eff &e)
{
	std::string r = e.kind == E_STORE ? "store" + std::to_string(e.size) : e.kind == E_FILL ? "fill" + std::to_string(e.size) : e.kind == E_COPY ? "copy" : "call " + e.s;
	r += "(";
	for(size_t i = 0; i < e.a.size(); i++) r += (i ? ", " : "") + T.str(e.a[i]);
	return r + ")";
}
std::string outStr(const Outcome &o) { return o.kind == O_NEXT ? "continue" : o.kind == O_JUMP ? "goto " + T.str(o.target) : "error '" + o.msg + "'"; }
int tw(Type *t) { if(t->isPointerTy()) return 64; unsigned n = t->getPrimitiveSizeInBits(); return n ? (int)n : 64; }

// ---------------------------------------------------------------- evaluation of IR over terms
struct Eval
{
	Function *F; const DataLayout &DL;
	DominatorTree DT; LoopInfo LI;
	std::map<const Value*, int> fixed; // arguments and roots
	std::function<bool(St&, const CallBase*, std::vector<St>&)> onCall; // true when handled (forks appended)
	std::function<bool(St&, const BasicBlock*)> onBlock; // true when the path ends at this block
	std::function<void(St&, const ReturnInst*)> onRet;
	std::function<void(St&, const BasicBlock*)> afterEnter; // a block was entered
	std::function<bool(St&, Function*)> enterCall; // evaluate the call's body
	bool heapMode = false; // constants are addresses of private objects
	size_t maxFrames = 40;
	std::map<const Value*, int> opaque;
	std::vector<St> done;
	unsigned budget = 4000000;
	Eval(Function *F) : F(F), DL(F->getParent()->getDataLayout()), DT(*F), LI(DT) {}
	int fresh(const Value *v, int w) { auto it = opaque.find(v); if(it != opaque.end()) return it->second; return opaque[v] = T.sym("v" + std::to_string(opaque.size()) + "@" + F->getName().str() + "#" + std::to_string(w), w); }
	int of(St &s, const Value *v)
	{
		auto it = s.env.find(v); if(it != s.env.end()) return it->second;
		auto f = fixed.find(v); if(f != fixed.end()) return f->second;
		if(auto *k = dyn_cast<ConstantInt>(v)) return T.K(k->getZExtValue(), k->getBitWidth());
		if(isa<ConstantPointerNull>(v)) return T.K(0, 64);
		if(auto *k = dyn_cast<ConstantFP>(v)) { APInt b = k->getValueAPF().bitcastToAPInt(); return T.K(b.getZExtValue(), b.getBitWidth()); }
		if(auto *fn = dyn_cast<Function>(v)) return T.sym("fn:" + fn->getName().str());
		if(auto *g = dyn_cast<GlobalVariable>(v)) return T.sym("glob:" + g->getName().str());
		if(auto *g = dyn_cast<GEPOperator>(v)) return gep(s, g);
		if(auto *c = dyn_cast<ConstantExpr>(v)) if(c->isCast()) return of(s, c->getOperand(0));
		if(isa<UndefValue>(v)) return T.sym("undef", tw(v->getType()));
		return fresh(v, tw(v->getType()));
	}
	int gep(St &s, const GEPOperator *g)
	{
		int r = of(s, g->getPointerOperand());
		for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
		{
			if(StructType *ST = it.getStructTypeOrNull()) { r = T.add(r, T.K(DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()), 64), 64); continue; }
			uint64_t sz = DL.getTypeAllocSize(it.getIndexedType()).getFixedValue();
			const Value *ix = it.getOperand();
			int t = of(s, ix);
			int w = tw(ix->getType());
			if(w < 64) t = T.sext(t, w, 64);
			r = T.add(r, T.scale(t, sz, 64), 64);
		}
		return r;
	}
	bool baseIs(int addr, int base) { const Term &t = T[addr]; if(addr == base) return true; if(t.op != T_LIN) return false; for(size_t i = 0; i < t.a.size(); i++) if(t.a[i] == base && t.c[i] == 1) return true; return false; }
	int offsetFrom(int addr, int base, bool &ok) { int d = T.sub(addr, base, 64); uint64_t v; ok = T.isK(d, &v); return ok ? (int)v : 0; }
	int priv(int addr) { if(heapMode && T.isK(addr)) return addr; for(int p : privateSyms) if(baseIs(addr, p)) return p; return -1; }
	int loadAt(St &s, int addr, int size)
	{
		bool ok; int off = offsetFrom(addr, T.INSTR, ok);
		if(ok && off >= 0 && off < 8) return T.ext(off * 8, size * 8);
		auto m = s.mem.find(addr);
		if(m != s.mem.end()) { if(m->second.first == size) return m->second.second; if(m->second.first > size) return T.trunc(m->second.second, size * 8); }
		for(auto &p : s.mem) { int o = offsetFrom(addr, p.first, ok); if(ok && o > 0 && o + size <= p.second.first) return T.bits(p.second.second, o * 8, size * 8); }
		{
			// constant tables
			const Term &at = T[addr]; int base = at.op == T_SYM ? addr : at.op == T_LIN && at.a.size() == 1 && at.c[0] == 1 ? at.a[0] : -1;
			if(base >= 0 && T[base].op == T_SYM && T[base].s.compare(0, 5, "glob:") == 0)
				if(auto *G = M->getNamedGlobal(T[base].s.substr(5))) if(G->isConstant() && G->hasInitializer())
					if(auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
					{
						uint64_t o = base == addr ? 0 : at.k, es = D->getElementByteSize();
						if(es == (uint64_t)size && o % es == 0 && o / es < D->getNumElements() && D->getElementType()->isIntegerTy()) return T.K(D->getElementAsInteger(o / es), size * 8);
					}
		}
		if(heapMode && size > 1 && priv(addr) >= 0)
		{
			// a value assembled from parts
			int r = -1, at = 0;
			while(at < size)
			{
				auto it = s.mem.find(T.add(addr, T.K(at, 64), 64));
				if(it == s.mem.end() || at + it->second.first > size) break;
				int part = it->second.second;
				if(at) part = T.shl(part, T.K(at * 8, 64), 64);
				r = r < 0 ? part : T.orT(r, part, 64);
				at += it->second.first;
			}
			if(at == size) return T.trunc(r, size * 8);
		}
		if(priv(addr) >= 0) return T.load(size, addr, {});
		return T.load(size, addr, s.stores);
	}
	void storeAt(St &s, int addr, int size, int val)
	{
		if(priv(addr) >= 0)
		{
			if(heapMode) for(int d = -7; d < size; d++)
			{
				int at = T.add(addr, T.K(d, 64), 64);
				auto it = s.mem.find(at);
				if(it == s.mem.end() || d + it->second.first <= 0 || (!d && it->second.first == size)) continue;
				auto old = it->second; s.mem.erase(it);
				if(d < 0) s.mem[at] = { -d, T.trunc(old.second, -d * 8) };
				if(d + old.first > size) s.mem[T.add(addr, T.K(size, 64), 64)] = { d + old.first - size, T.bits(old.second, (size - d) * 8, (d + old.first - size) * 8) };
			}
			s.mem[addr] = { size, T.trunc(val, size * 8) }; return;
		}
		const Term v = T[val];
		// (high << 32) | low as two halves
		if(size == 8 && (v.op == T_OR || v.op == T_LIN) && v.a.size() == 2 && !v.k)
			for(int i = 0; i < 2; i++)
			{
				int hi = v.a[i], lo = v.a[1 - i], h = -1;
				if(v.op == T_LIN) { if(v.c[i] == 1ull << 32 && v.c[1 - i] == 1) h = hi; }
				else if(T[hi].op == T_LIN && T[hi].a.size() == 1 && T[hi].c[0] == 1ull << 32 && !T[hi].k) h = T[hi].a[0];
				if(h >= 0 && T[lo].w <= 32) { storeAt(s, addr, 4, lo); storeAt(s, T.add(addr, T.K(4, 64), 64), 4, T.trunc(h, 32)); return; }
			}
		int st = T.store(size, addr, val);
		s.stores.push_back(st);
		s.eff.push_back({ E_STORE, size, { T[st].a[0], T[st].a[1] }, "" });
	}
	int cmp(St &s, const CmpInst *C)
	{
		int a = of(s, C->getOperand(0)), b = of(s, C->getOperand(1)), w = tw(C->getOperand(0)->getType());
		switch(C->getPredicate())
		{
		case CmpInst::ICMP_EQ: return T.eq(a, b, w);
		case CmpInst::ICMP_NE: return T.notc(T.eq(a, b, w));
		case CmpInst::ICMP_ULT: return T.ult(a, b, w);
		case CmpInst::ICMP_UGT: return T.ult(b, a, w);
		case CmpInst::ICMP_UGE: return T.notc(T.ult(a, b, w));
		case CmpInst::ICMP_ULE: return T.notc(T.ult(b, a, w));
		case CmpInst::ICMP_SLT: return T.slt(a, b, w);
		case CmpInst::ICMP_SGT: return T.slt(b, a, w);
		case CmpInst::ICMP_SGE: return T.notc(T.slt(a, b, w));
		case CmpInst::ICMP_SLE: return T.notc(T.slt(b, a, w));
		case CmpInst::FCMP_OEQ: return T.bin(T_FEQ, a, b, 1);
		case CmpInst::FCMP_UNE: return T.notc(T.bin(T_FEQ, a, b, 1));
		case CmpInst::FCMP_OLT: return T.bin(T_FLT, a, b, 1);
		case CmpInst::FCMP_OGT: return T.bin(T_FLT, b, a, 1);
		case CmpInst::FCMP_OLE: return T.bin(T_FLE, a, b, 1);
		case CmpInst::FCMP_OGE: return T.bin(T_FLE, b, a, 1);
		case CmpInst::FCMP_UGE: return T.notc(T.bin(T_FLT, a, b, 1));
		case CmpInst::FCMP_ULE: return T.notc(T.bin(T_FLT, b, a, 1));
		case CmpInst::FCMP_UGT: return T.notc(T.bin(T_FLE, a, b, 1));
		case CmpInst::FCMP_ULT: return T.notc(T.bin(T_FLE, b, a, 1));
		default: return T.call("fcmp" + std::to_string(C->getPredicate()), { a, b }, 1);
		}
	}
	int binop(St &s, const BinaryOperator *B)
	{
		int a = of(s, B->getOperand(0)), b = of(s, B->getOperand(1)), w = tw(B->getType());
		switch(B->getOpcode())
		{
		case Instruction::Add: return T.add(a, b, w);
		case Instruction::Sub: return T.sub(a, b, w);
		case Instruction::Mul: return T.mul(a, b, w);
		case Instruction::And: return T.andT(a, b, w);
		case Instruction::Or: return T.orT(a, b, w);
		case Instruction::Xor: return T.xorT(a, b, w);
		case Instruction::Shl: return T.shl(a, b, w);
		case Instruction::LShr: return T.lshr(a, b, w);
		case Instruction::AShr: return T.ashr(a, b, w);
		case Instruction::UDiv: return T.bin(T_UDIV, a, b, w);
		case Instruction::SDiv: return T.bin(T_SDIV, a, b, w);
		case Instruction::URem: return T.bin(T_UREM, a, b, w);
		case Instruction::SRem: return T.bin(T_SREM, a, b, w);
		case Instruction::FAdd: return T.bin(T_FADD, a, b, w);
		case Instruction::FSub: return T.bin(T_FSUB, a, b, w);
		case Instruction::FMul: return T.bin(T_FMUL, a, b, w);
		case Instruction::FDiv: return T.bin(T_FDIV, a, b, w);
		case Instruction::FRem: return T.bin(T_FREM, a, b, w);
		default: return fresh(B, w);
		}
	}
	int castOf(St &s, const CastInst *C)
	{
		int a = of(s, C->getOperand(0)), w = tw(C->getType()), from = tw(C->getOperand(0)->getType());
		switch(C->getOpcode())
		{
		case Instruction::Trunc: return T.trunc(a, w);
		case Instruction::ZExt: return a;
		case Instruction::SExt: return T.sext(a, from, w);
		case Instruction::FPExt: return T.un(T_FPEXT, a, w);
		case Instruction::FPTrunc: return T.un(T_FPTRUNC, a, w);
		case Instruction::SIToFP: return T.un(T_SITOFP, T[a].w < from ? a : a, w);
		case Instruction::UIToFP: return T.un(T_UITOFP, a, w);
		case Instruction::FPToSI: return T.un(T_FPTOSI, a, w);
		case Instruction::FPToUI: return T.un(T_FPTOUI, a, w);
		default: return w < from ? T.trunc(a, w) : a;
		}
	}
	void enter(St &s, const BasicBlock *to)
	{
		std::vector<std::pair<const Value*, int>> vals;
		for(auto &P : to->phis()) vals.push_back({ &P, of(s, P.getIncomingValueForBlock(s.bb)) });
		for(auto &p : vals) s.env[p.first] = p.second;
		s.prev = s.bb; s.bb = to; s.it = to->getFirstNonPHI()->getIterator();
		if(afterEnter) afterEnter(s, to);
		// instructions of a block entered again get fresh values
	}
	// a loop that stores one value over a range
	bool fillLoop(St &s, const BasicBlock *H, std::vector<St> &work)
	{
		Loop *L = LI.getLoopFor(H);
		Counting c;
		if(!L || !countingLoop(LI, &*H->getFirstNonPHI(), c) || c.L != L || !c.single || c.inclusive || c.slack || c.step != 1 || c.start != 0) throw Undecided{ "loop at line " + std::to_string(lineOf(H->getTerminator())) };
		for(auto &P : H->phis()) if(&P != c.iv) throw Undecided{ "loop with several variables" };
		if(L->getExitingBlock() != H) throw Undecided{ "loop not tested at the top" };
		St b = s; // body
		static int n; int iv = T.sym("IV" + std::to_string(n++), 32);
		b.env[c.iv] = iv; b.prev = s.bb; b.bb = H; b.it = H->getFirstNonPHI()->getIterator();
		std::vector<int> keepStores = b.stores; std::vector<Eff> keep = b.eff; b.eff.clear();
		auto *BI = cast<BranchInst>(H->getTerminator());
		const BasicBlock *body = nullptr, *exit = nullptr;
		for(auto *x : successors(H)) (L->contains(x) ? body : exit) = x;
		for(auto &I : *H) { if(&I == BI) break; if(!isa<PHINode>(I)) step(b, I, work); }
		St header = b;
		int bound = of(b, c.bound);
		enter(b, body);
		for(int guard = 0; guard < 8; guard++)
		{
			for(auto &I : *b.bb) { if(I.isTerminator()) break; if(!isa<PHINode>(I)) step(b, I, work); }
			auto *J = dyn_cast<BranchInst>(b.bb->getTerminator());
			if(!J || J->isConditional()) throw Undecided{ "branch in loop body" };
			if(J->getSuccessor(0) == H) break;
			enter(b, J->getSuccessor(0));
			if(guard == 7) throw Undecided{ "long loop" };
		}
		if(b.eff.size() != 1 || b.eff[0].kind != E_STORE) throw Undecided{ "loop is not a simple fill" };
		Eff e = b.eff[0];
		const Term addr = T[e.a[0]];
		std::map<int, uint64_t> m; uint64_t coef = 0;
		if(addr.op != T_LIN) throw Undecided{ "fill address" };
		for(size_t i = 0; i < addr.a.size(); i++) if(addr.a[i] == iv) coef = addr.c[i]; else m[addr.a[i]] = addr.c[i];
		int base = T.lin(64, m, addr.k);
		s = header;
		s.stores = keepStores; s.eff = keep;
		s.eff.push_back({ E_FILL, e.size, { base, e.a[1], bound, T.K(coef, 64) }, "" });
		s.prev = H;
		s.bb = H;
		enter(s, exit);
		return true;
	}
	void step(St &s, const Instruction &I, std::vector<St> &work)
	{
		if(isa<DbgInfoIntrinsic>(I)) return;
		if(heapMode) if(auto *A = dyn_cast<AllocaInst>(&I)) { s.env[A] = T.K(s.heap, 64); s.heap += (DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue() + 63) & ~31ull; return; }
		if(auto *A = dyn_cast<AllocaInst>(&I)) { int t = T.sym("alloca:" + std::to_string((uintptr_t)A)); privateSyms.insert(t); s.env[A] = t; return; }
		if(auto *L = dyn_cast<LoadInst>(&I)) { s.env[L] = loadAt(s, of(s, L->getPointerOperand()), (int)DL.getTypeStoreSize(L->getType()).getFixedValue()); if(tw(L->getType()) % 8) s.env[L] = T.trunc(s.env[L], tw(L->getType())); return; }
		if(auto *S = dyn_cast<StoreInst>(&I)) { storeAt(s, of(s, S->getPointerOperand()), (int)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(), of(s, S->getValueOperand())); return; }
		if(auto *G = dyn_cast<GetElementPtrInst>(&I)) { s.env[G] = gep(s, cast<GEPOperator>(G)); return; }
		if(auto *C = dyn_cast<CmpInst>(&I)) { s.env[C] = cmp(s, C); return; }
		if(auto *B = dyn_cast<BinaryOperator>(&I)) { s.env[B] = binop(s, B); return; }
		if(auto *C = dyn_cast<CastInst>(&I)) { s.env[C] = castOf(s, C); return; }
		if(auto *S = dyn_cast<SelectInst>(&I)) { s.env[S] = T.select(of(s, S->getCondition()), of(s, S->getTrueValue()), of(s, S->getFalseValue()), tw(S->getType())); return; }
		if(auto *U = dyn_cast<UnaryOperator>(&I)) { s.env[U] = T.un(T_FNEG, of(s, U->getOperand(0)), tw(U->getType())); return; }
		if(auto *FI = dyn_cast<FreezeInst>(&I)) { s.env[FI] = of(s, FI->getOperand(0)); return; }
		if(auto *MT = dyn_cast<MemTransferInst>(&I))
		{
			int d = of(s, MT->getRawDest()), x = of(s, MT->getRawSource()), n = of(s, MT->getLength());
			uint64_t v;
			if(T.isK(n, &v) && (v == 1 || v == 2 || v == 4 || v == 8)) { storeAt(s, d, (int)v, loadAt(s, x, (int)v)); return; }
			if(priv(d) >= 0) return;
			s.eff.push_back({ E_COPY, 0, { T.flat(d), T.flat(x), T.flat(n) }, "" });
			return;
		}
		if(auto *CB = dyn_cast<CallBase>(&I))
		{
			if(auto *II = dyn_cast<IntrinsicInst>(CB))
			{
				switch(II->getIntrinsicID())
				{
				case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: return;
				case Intrinsic::pow: s.env[&I] = T.call("pow", { of(s, II->getArgOperand(0)), of(s, II->getArgOperand(1)) }, 64); return;
				default: break;
				}
			}
			if(onCall && onCall(s, CB, work)) return;
			Function *C = calleeOf(CB);
			if(enterCall && C && !C->isDeclaration() && !C->isVarArg() && s.frames.size() < maxFrames && enterCall(s, C))
			{
				std::map<const Value*, int> env;
				for(auto &A : C->args()) env[&A] = of(s, CB->getArgOperand(A.getArgNo()));
				s.frames.push_back({ s.bb, s.prev, s.it, std::move(s.env), CB });
				s.env = std::move(env); s.prev = nullptr; s.bb = &C->getEntryBlock(); s.it = s.bb->begin();
				return;
			}
			std::vector<int> args;
			for(auto &a : CB->args()) args.push_back(of(s, a.get()));
			if(!C) { args.push_back(of(s, CB->getCalledOperand())); }
			std::string nm = C ? C->getName().str() : std::string("indirect");
			int r = T.call(nm, args, tw(CB->getType()->isVoidTy() ? Type::getInt64Ty(CB->getContext()) : CB->getType()));
			if(!CB->getType()->isVoidTy()) s.env[&I] = r;
			bool pure = C && (C->doesNotAccessMemory() || C->getName() == "pow" || C->getName() == "fmod" || C->getName().contains("VmIntPow") || C->getName().contains("VmLongPow") || C->getName().contains("ConvertFromAutoRef"));
			if(!pure) s.eff.push_back({ E_CALL, 0, args, nm });
			return;
		}
		if(!I.getType()->isVoidTy()) s.env[&I] = fresh(&I, tw(I.getType()));
	}
	void run(St init)
	{
		std::vector<St> work{ init };
		std::map<const BasicBlock*, int> seen;
		while(!work.empty())
		{
			St s = work.back(); work.pop_back();
			while(true)
			{
				if(++s.steps > 20000 || !budget--) throw Undecided{ "too many steps" };
				if(s.done) { done.push_back(s); break; }
				const Instruction &I = *s.it;
				if(!I.isTerminator()) { ++s.it; step(s, I, work); continue; }
				std::vector<std::pair<const BasicBlock*, std::vector<Cond>>> outs;
				if(auto *RI = dyn_cast<ReturnInst>(&I)) if(!s.frames.empty())
				{
					int v = RI->getReturnValue() ? of(s, RI->getReturnValue()) : -1;
					auto f = std::move(s.frames.back()); s.frames.pop_back();
					s.env = std::move(f.env); s.bb = f.bb; s.prev = f.prev; s.it = f.it;
					if(v >= 0) s.env[f.call] = v;
					continue;
				}
				if(auto *RI = dyn_cast<ReturnInst>(&I)) { if(onRet) onRet(s, RI); s.done = true; continue; }
				if(isa<UnreachableInst>(I)) { s.out.kind = O_ERROR; s.done = true; continue; }
				if(auto *BI = dyn_cast<BranchInst>(&I))
				{
					if(!BI->isConditional()) outs.push_back({ BI->getSuccessor(0), {} });
					else
					{
						int c = of(s, BI->getCondition());
						for(int e = 0; e < 2; e++) for(auto &alt : alternatives(s.conds, c, e == 0)) outs.push_back({ BI->getSuccessor(e), alt });
					}
				}
				else if(auto *SI = dyn_cast<SwitchInst>(&I))
				{
					int v = of(s, SI->getCondition()), w = tw(SI->getCondition()->getType());
					std::vector<Cond> others; bool taken = false;
					for(auto &c : SI->cases())
					{
						int e = T.eq(v, T.K(c.getCaseValue()->getZExtValue(), w), w);
						uint64_t k;
						if(T.isK(e, &k)) { if(k) { outs.push_back({ c.getCaseSuccessor(), others }); taken = true; break; } continue; }
						auto cs = others; cs.push_back({ e, true });
						outs.push_back({ c.getCaseSuccessor(), cs });
						others.push_back({ e, false });
					}
					if(!taken) outs.push_back({ SI->getDefaultDest(), others });
				}
				else throw Undecided{ std::string("terminator ") + I.getOpcodeName() };
				if(outs.empty()) break;
				for(size_t i = 1; i < outs.size(); i++) { St n = s; go(n, outs[i], work); if(n.bb) work.push_back(n); }
				go(s, outs[0], work);
				if(!s.bb) break;
			}
			if(done.size() > 30000) throw Undecided{ "too many paths" };
		}
	}
	// the ways in which a condition can have a value, as conjunctions of simple conditions not known yet
	static std::vector<std::vector<Cond>> alternatives(const std::vector<Cond> &known, int c, bool pos, int depth = 0)
	{
		uint64_t v;
		if(T[c].op == T_NOT) return alternatives(known, T[c].a[0], !pos, depth);
		if(T.isK(c, &v)) { if((v != 0) == pos) return { {} }; return {}; }
		for(auto &k : known) if(k.c == c) { if(k.pos == pos) return { {} }; return {}; }
		const Term t = T[c];
		if(depth < 8 && t.w == 1 && (t.op == T_SELECT || ((t.op == T_AND || t.op == T_OR) && t.a.size() == 2)))
		{
			std::vector<std::vector<Cond>> r;
			for(int e = 0; e < 2; e++)
				for(auto &a : alternatives(known, t.a[0], e == 0, depth + 1))
				{
					auto k = known; k.insert(k.end(), a.begin(), a.end());
					int rest = t.op == T_SELECT ? t.a[1 + e] : (t.op == T_AND) == (e == 0) ? t.a[1] : T.K(t.op == T_OR, 1);
					for(auto &b : alternatives(k, rest, pos, depth + 1)) { auto n = a; n.insert(n.end(), b.begin(), b.end()); r.push_back(n); }
				}
			return r;
		}
		return { { { c, pos } } };
	}
	void go(St &s, const std::pair<const BasicBlock*, std::vector<Cond>> &o, std::vector<St> &work)
	{
		for(auto &c : o.second) s.conds.push_back(c);
		if(onBlock && onBlock(s, o.first)) { s.done = true; return; }
		if(loopsSummarised && LI.isLoopHeader(const_cast<BasicBlock*>(o.first)) && !LI.getLoopFor(o.first)->contains(s.bb) && loopsSummarised) { fillLoop(s, o.first, work); return; }
		enter(s, o.first);
	}
	bool loopsSummarised = true;
};

std::string constStr(const Value *v)
{
	if(auto *G = dyn_cast<GlobalVariable>(v->stripPointerCasts())) if(G->hasInitializer()) if(auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer())) if(D->isCString()) return D->getAsCString().str();
	return "";
}
// a function none of whose paths returns normally (longjmp)
bool neverReturns(Function *F)
{
	if(F->isDeclaration()) return F->doesNotReturn();
	for(auto &B : *F) if(isa<ReturnInst>(B.getTerminator())) return false;
	return true;
}
std::string stopMessage(Function *F)
{
	for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) for(auto &a : CB->args()) { auto s = constStr(a.get()); if(s.compare(0, 5, "ERROR") == 0 && s.find('%') == std::string::npos) return s; }
	return "";
}

// ---------------------------------------------------------------- interpreter side
struct Spec { std::vector<Cond> conds; std::vector<Eff> eff; Outcome out; };
void interpreter(Function *F, const BasicBlock *handler, const BasicBlock *dispatch, const PHINode *instr, std::vector<Spec> &out)
{
	Eval E(F);
	E.fixed[instr] = T.INSTR;
	for(auto &A : F->args())
	{
		StringRef n = A.getName();
		if(A.getArgNo() == 1) E.fixed[&A] = T.REG;
		if(A.getArgNo() == 2) E.fixed[&A] = T.sym("RVM");
		if(A.getArgNo() == 3) E.fixed[&A] = T.CODE;
	}
	E.onBlock = [&](St &s, const BasicBlock *to) {
		if(to != dispatch) return false;
		// the next instruction
		int v = -1;
		for(auto &P : dispatch->phis()) if(&P == instr) v = E.of(s, P.getIncomingValueForBlock(s.bb));
		int d = v < 0 ? -1 : T.sub(v, T.INSTR, 64);
		uint64_t k;
		if(d >= 0 && T.isK(d, &k) && k == 8) s.out.kind = O_NEXT; else { s.out.kind = O_JUMP; s.out.target = v < 0 ? T.sym("unknown") : T.flat(v); }
		return true;
	};
	E.onRet = [&](St &s, const ReturnInst*) { s.out.kind = O_ERROR; };
	E.onCall = [&](St &s, const CallBase *CB, std::vector<St>&) {
		Function *C = calleeOf(CB);
		if(!C) return false;
		std::string n = sname(C);
		if(n == "ExecutorRegVm::ExecError") { s.out.msg = constStr(CB->getArgOperand(CB->arg_size() - 1)); if(!CB->getType()->isVoidTy()) s.env[CB] = T.K(0, 32); return true; }
		return false;
	};
	St init; init.bb = handler; init.it = handler->getFirstNonPHIOrDbg()->getIterator();
	init.prev = nullptr;
	if(handler->phis().begin() != handler->phis().end()) throw Undecided{ "handler entered from several places" };
	E.run(init);
	for(auto &s : E.done) out.push_back({ s.conds, s.eff, s.out });
}

}
