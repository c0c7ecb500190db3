// Canonical linear keys of values: casts are transparent, loads are named by their address, and a value that a loop changes by a fixed amount
// is written in terms of the number of completed iterations.
#pragma once
#include "rules.h"
#include "llvm/Analysis/LoopInfo.h"
namespace {
struct Key
{
	std::map<std::string, int64_t> c; int64_t k = 0;
	Key() {}
	Key(int64_t k): k(k) {}
	Key(const std::string &a) { c[a] = 1; }
	Key operator+(const Key &o) const { Key r = *this; r.k += o.k; for(auto &x : o.c) if(!(r.c[x.first] += x.second)) r.c.erase(x.first); return r; }
	Key operator*(int64_t m) const { Key r; if(!m) return r; r.k = k * m; for(auto &x : c) r.c[x.first] = x.second * m; return r; }
	Key operator-(const Key &o) const { return *this + o * -1; }
	bool operator==(const Key &o) const { return c == o.c && k == o.k; }
	bool operator!=(const Key &o) const { return !(*this == o); }
	bool operator<(const Key &o) const { return std::tie(c, k) < std::tie(o.c, o.k); }
	bool constant() const { return c.empty(); }
	std::string str() const
	{
		std::string s;
		for(auto &x : c) { if(!s.empty()) s += "+"; if(x.second != 1) s += std::to_string(x.second) + "*"; s += x.first; }
		if(k || s.empty()) s += (s.empty() ? "" : "+") + std::to_string(k);
		return s;
	}
	bool mentions(const std::string &a) const { for(auto &x : c) if(x.first.find(a) != std::string::npos) return true; return false; }
};
[[maybe_unused]] Key keyLoad(const Key &addr, int size) { return Key("ld" + std::to_string(size) + "(" + addr.str() + ")"); }
[[maybe_unused]] Key keyMul(const Key &a, const Key &b)
{
	if(a.constant()) return b * a.k;
	if(b.constant()) return a * b.k;
	// distribute
	Key r(a.k * b.k);
	auto prod = [](const std::string &x, const std::string &y) { return "mul(" + std::min(x, y) + "," + std::max(x, y) + ")"; };
	for(auto &x : a.c) { for(auto &y : b.c) r = r + Key(prod(x.first, y.first)) * (x.second * y.second); r = r + Key(x.first) * (x.second * b.k); }
	for(auto &y : b.c) r = r + Key(y.first) * (y.second * a.k);
	return r;
}
struct Keys
{
	Function *F;
	DominatorTree DT;
	LoopInfo LI;
	std::map<const Loop*, std::string> names;
	std::map<const Value*, Key> memo;
	std::map<const Value*, std::string> leaf;
	std::set<const Value*> open;
	Keys(Function *F): F(F), DT(*F), LI(DT)
	{
		int n = 0;
		for(auto *L : LI.getLoopsInPreorder()) names[L] = "it" + std::to_string(n++) + "'";
		// names that do not depend on the order of questions
		n = 0;
		for(auto &I : instructions(F)) leaf[&I] = "?" + std::to_string(n++) + "'";
	}
	std::string opaque(const Value *v)
	{
		auto it = leaf.find(v);
		if(it == leaf.end()) it = leaf.insert({ v, "?v" + std::to_string(leaf.size()) + "'" }).first;
		return it->second;
	}
	int sizeOf(Type *T) { return (int)M->getDataLayout().getTypeStoreSize(T); }
	Key of(const Value *v)
	{
		auto it = memo.find(v);
		if(it != memo.end()) return it->second;
		if(open.count(v)) return Key(opaque(v));
		open.insert(v);
		Key r = compute(v);
		open.erase(v);
		if(open.empty()) memo[v] = r;
		return r;
	}
	Key gep(const GEPOperator *G, const Key *base = nullptr)
	{
		auto &DL = M->getDataLayout();
		MapVector<Value*, APInt> var; APInt k(64, 0);
		if(!G->collectOffset(DL, 64, var, k)) return Key(opaque(G));
		Key r = (base ? *base : of(G->getPointerOperand())) + Key(k.getSExtValue());
		for(auto &x : var) r = r + of(x.first) * x.second.getSExtValue();
		return r;
	}
	Key compute(const Value *v)
	{
		if(auto *A = dyn_cast<Argument>(v)) return Key("a" + std::to_string(A->getArgNo()));
		if(auto *K = dyn_cast<ConstantInt>(v)) return K->getBitWidth() <= 64 ? Key(K->getSExtValue()) : Key(opaque(v));
		if(isa<ConstantPointerNull>(v)) return Key(0);
		if(auto *G = dyn_cast<GlobalVariable>(v)) return Key("@" + demangle(G->getName().str()));
		if(auto *G = dyn_cast<GEPOperator>(v)) return gep(G);
		if(auto *O = dyn_cast<Operator>(v))
		{
			switch(O->getOpcode())
			{
			case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::Freeze:
				return of(O->getOperand(0));
			case Instruction::Add: return of(O->getOperand(0)) + of(O->getOperand(1));
			case Instruction::Sub: return of(O->getOperand(0)) - of(O->getOperand(1));
			case Instruction::Mul: return keyMul(of(O->getOperand(0)), of(O->getOperand(1)));
			case Instruction::Shl: if(auto *K = dyn_cast<ConstantInt>(O->getOperand(1))) if(K->getZExtValue() < 40) return of(O->getOperand(0)) * (1ll << K->getZExtValue()); break;
			default: break;
			}
			if(isa<BinaryOperator>(O))
			{
				std::string n = Instruction::getOpcodeName(O->getOpcode());
				std::string a = of(O->getOperand(0)).str(), b = of(O->getOperand(1)).str();
				if(Instruction::isCommutative(O->getOpcode()) && b < a) std::swap(a, b);
				return Key(n + "(" + a + "," + b + ")");
			}
		}
		if(auto *L = dyn_cast<LoadInst>(v)) return keyLoad(of(L->getPointerOperand()), sizeOf(L->getType()));
		if(auto *C = dyn_cast<CallBase>(v))
		{
			Function *X = calleeOf(C);
			std::string s = X ? sname(X) : "call";
			for(auto &a : C->args()) s += "," + of(a.get()).str();
			return Key("<" + s + ">");
		}
		if(auto *P = dyn_cast<PHINode>(v))
		{
			Loop *L = LI.getLoopFor(P->getParent());
			if(L && L->getHeader() == P->getParent())
			{
				bool ok = true, first = true, firstStep = true;
				Key init, step;
				Key self(opaque(P));
				for(unsigned i = 0; i < P->getNumIncomingValues() && ok; i++)
				{
					if(!L->contains(P->getIncomingBlock(i)))
					{
						Key k = of(P->getIncomingValue(i));
						if(!first && k != init) ok = false;
						init = k; first = false;
						continue;
					}
					for(auto *x : alts(P->getIncomingValue(i)))
					{
						Key d = of(x) - self;
						if(d.mentions(names[L]) || d.mentions(opaque(P)) || (!firstStep && d != step)) ok = false;
						step = d; firstStep = false;
					}
				}
				if(ok && !first && !firstStep) return init + keyMul(Key(names[L]), step);
				return self;
			}
			Key k; bool first = true, ok = true;
			for(auto &x : P->incoming_values()) { Key q = of(x.get()); if(!first && q != k) ok = false; k = q; first = false; }
			if(ok && !first) return k;
			return Key(opaque(P));
		}
		if(auto *S = dyn_cast<SelectInst>(v))
		{
			Key a = of(S->getTrueValue()), b = of(S->getFalseValue());
			if(a == b) return a;
		}
		return Key(opaque(v));
	}
	// the values a merge can have
	std::vector<const Value*> alts(const Value *v)
	{
		std::vector<const Value*> r; std::set<const Value*> seen;
		std::function<void(const Value*, int)> go = [&](const Value *x, int d)
		{
			if(!seen.insert(x).second) return;
			if(d < 8)
			{
				if(auto *P = dyn_cast<PHINode>(x)) { Loop *L = LI.getLoopFor(P->getParent()); if(!L || L->getHeader() != P->getParent()) { for(auto &y : P->incoming_values()) go(y.get(), d + 1); return; } }
				if(auto *S = dyn_cast<SelectInst>(x)) { go(S->getTrueValue(), d + 1); go(S->getFalseValue(), d + 1); return; }
				if(auto *C = dyn_cast<CastInst>(x)) { go(C->getOperand(0), d + 1); return; }
			}
			r.push_back(x);
		};
		go(v, 0);
		return r;
	}
	std::set<Key> keysOf(const Value *v) { std::set<Key> r; for(auto *x : alts(v)) r.insert(of(x)); return r; }
	// how a loop ends: exit when (d pred 0)
	struct Exit { const Instruction *at; bool known; CmpInst::Predicate p; Key d; };
	std::vector<Exit> exitsOf(Loop *L)
	{
		std::vector<Exit> r;
		SmallVector<std::pair<BasicBlock*, BasicBlock*>, 8> ed;
		L->getExitEdges(ed);
		for(auto &e : ed)
		{
			if(isa<UnreachableInst>(e.second->getTerminator())) continue;
			auto *T = e.first->getTerminator();
			Exit x { T, false, CmpInst::ICMP_EQ, Key() };
			auto *B = dyn_cast<BranchInst>(T);
			if(B && B->isConditional())
			{
				// the loop goes on while all of these hold
				std::vector<std::pair<const Value*, bool>> conj, todo = { { B->getCondition(), B->getSuccessor(0) != e.second } };
				while(!todo.empty() && todo.size() < 16)
				{
					auto [v, stay] = todo.back(); todo.pop_back();
					if(auto *S = dyn_cast<SelectInst>(v))
					{
						auto *t = dyn_cast<ConstantInt>(S->getTrueValue()), *f = dyn_cast<ConstantInt>(S->getFalseValue());
						if(stay && f && f->isZero()) { todo.push_back({ S->getCondition(), true }); todo.push_back({ S->getTrueValue(), true }); continue; }
						if(!stay && t && t->isOne()) { todo.push_back({ S->getCondition(), false }); todo.push_back({ S->getFalseValue(), false }); continue; }
					}
					if(auto *O = dyn_cast<BinaryOperator>(v))
					{
						if(O->getOpcode() == Instruction::Xor) if(auto *K = dyn_cast<ConstantInt>(O->getOperand(1))) if(K->isOne()) { todo.push_back({ O->getOperand(0), !stay }); continue; }
						if(O->getOpcode() == (stay ? Instruction::And : Instruction::Or)) { todo.push_back({ O->getOperand(0), stay }); todo.push_back({ O->getOperand(1), stay }); continue; }
					}
					conj.push_back({ v, stay });
				}
				for(auto &c : conj)
				{
					Exit y { T, false, CmpInst::ICMP_EQ, Key() };
					if(auto *C = dyn_cast<ICmpInst>(c.first))
					{
						y.known = true;
						y.p = c.second ? C->getInversePredicate() : C->getPredicate();
						y.d = of(C->getOperand(0)) - of(C->getOperand(1));
					}
					r.push_back(y);
				}
				continue;
			}
			r.push_back(x);
		}
		return r;
	}
};
}
