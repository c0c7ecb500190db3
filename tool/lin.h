// Linear integer facts about SSA values at a program point, and a decision procedure (Fourier-Motzkin elimination over the rationals) for what follows from them.
#pragma once
#include "dom.h"
namespace {
typedef __int128 Int;
struct Lin
{
	std::map<int, Int> c;
	Int k = 0;
	Lin() {}
	Lin(Int k): k(k) {}
	static Lin atom(int a) { Lin l; l.c[a] = 1; return l; }
	Lin operator+(const Lin &o) const { Lin r = *this; r.k += o.k; for(auto &x : o.c) { auto &y = r.c[x.first]; y += x.second; if(!y) r.c.erase(x.first); } return r; }
	Lin operator*(Int m) const { Lin r; if(!m) return r; r.k = k * m; for(auto &x : c) r.c[x.first] = x.second * m; return r; }
	Lin operator-(const Lin &o) const { return *this + o * -1; }
	bool operator<(const Lin &o) const { return std::tie(c, k) < std::tie(o.c, o.k); }
	bool operator==(const Lin &o) const { return c == o.c && k == o.k; }
};
// no rational solution of "every form >= 0"
[[maybe_unused]] bool infeasible(std::vector<Lin> cs)
{
	auto gcd = [](Int a, Int b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { Int t = a % b; a = b; b = t; } return a; };
	auto tidy = [&](std::set<Lin> &s, Lin l, bool &bad)
	{
		if(l.c.empty()) { if(l.k < 0) bad = true; return; }
		Int g = 0;
		for(auto &x : l.c) g = gcd(g, x.second);
		if(g > 1) { for(auto &x : l.c) x.second /= g; l.k = l.k >= 0 ? l.k / g : -((-l.k + g - 1) / g); } // integers: the constant rounds down
		s.insert(l);
	};
	std::set<Lin> s;
	bool bad = false;
	for(auto &l : cs) tidy(s, l, bad);
	for(int round = 0; round < 64 && !bad; round++)
	{
		// the same left side: keep the tightest
		std::map<std::map<int, Int>, Int> best;
		for(auto &l : s) { auto it = best.find(l.c); if(it == best.end() || it->second > l.k) best[l.c] = l.k; }
		s.clear();
		for(auto &b : best) { Lin l; l.c = b.first; l.k = b.second; s.insert(l); }
		std::map<int, std::pair<long, long>> cnt;
		for(auto &l : s) for(auto &x : l.c) (x.second > 0 ? cnt[x.first].first : cnt[x.first].second)++;
		if(cnt.empty()) return false;
		int pick = -1; long cost = 0;
		for(auto &x : cnt) { long k = x.second.first * x.second.second - x.second.first - x.second.second; if(pick < 0 || k < cost) { pick = x.first; cost = k; } }
		std::vector<Lin> pos, neg; std::set<Lin> rest;
		for(auto &l : s) { auto it = l.c.find(pick); if(it == l.c.end()) rest.insert(l); else (it->second > 0 ? pos : neg).push_back(l); }
		for(auto &p : pos)
			for(auto &n : neg)
			{
				Int a = p.c.at(pick), b = -n.c.at(pick);
				Int lim = (Int)1 << 60;
				if(a > lim || b > lim) continue; // dropping a fact is safe
				bool big = false;
				for(auto *q : { &p, &n }) { for(auto &x : q->c) if(x.second > lim || x.second < -lim) big = true; if(q->k > ((Int)1 << 64) * 4 || q->k < -((Int)1 << 64) * 4) big = big || a > 1024 || b > 1024; }
				if(big) continue;
				tidy(rest, p * b + n * a, bad);
				if(bad) return true;
			}
		if(rest.size() > 3000) return false;
		s = rest;
	}
	return bad;
}
// what is known at a program point
struct Facts
{
	const Instruction *at;
	const DominatorTree &DT;
	std::map<const Value*, const Value*> subst; // merged values followed along one way in
	const std::map<const Value*, const Value*> *same = nullptr; // values known to be equal to another
	std::vector<Cmp> extra;
	std::vector<const Value*> merges; // merged values met on the way
	std::vector<Lin> cons;
	std::map<std::tuple<const Value*, bool>, int> atoms;
	std::map<std::pair<const Value*, bool>, Lin> memo;
	std::map<std::pair<int, int>, int> products;
	std::vector<std::pair<const Value*, int>> info;
	int next = 0, work = 0;
	std::function<bool(Facts&, const Value*, const Value*&, Lin&)> locate; // pointer -> what it points into, offset
	std::map<const BasicBlock*, int> rounds; // loop header -> how many times the loop has been repeated
	Lin roundsOf(const BasicBlock *H)
	{
		auto it = rounds.find(H);
		if(it == rounds.end()) { it = rounds.insert({ H, next++ }).first; bounds[it->second] = { 0, lim(100) }; }
		cons.push_back(Lin::atom(it->second));
		return Lin::atom(it->second);
	}
	// a merged value of a loop that changes by a constant every time around
	bool affine(const PHINode *P, const Value *&init, int64_t &step) const
	{
		init = nullptr;
		bool have = false;
		for(unsigned i = 0; i < P->getNumIncomingValues(); i++)
		{
			const Value *in = P->getIncomingValue(i);
			if(!DT.dominates(P->getParent(), P->getIncomingBlock(i))) { if(init && init != in) return false; init = in; continue; }
			int64_t k;
			if(auto *G = dyn_cast<GEPOperator>(in))
			{
				APInt o(64, 0);
				if(G->getPointerOperand() != P || !G->accumulateConstantOffset(M->getDataLayout(), o)) return false;
				k = o.getSExtValue();
			}
			else if(auto *B = dyn_cast<BinaryOperator>(in))
			{
				auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
				if(B->getOpcode() != Instruction::Add || B->getOperand(0) != P || !K) return false;
				k = K->getSExtValue();
			}
			else return false;
			if(have && k != step) return false;
			step = k; have = true;
		}
		return have && init;
	}
	Facts(const Instruction *at, const DominatorTree &DT): at(at), DT(DT) {}

	const Value *res(const Value *v) const { for(int i = 0; i < 16; i++) { auto it = subst.find(v); if(it == subst.end()) break; v = it->second; } if(same) { auto it = same->find(v); if(it != same->end()) return it->second; } return v; }
	static Int lim(unsigned w) { return (Int)1 << w; }
	int atomOf(const Value *v, bool s)
	{
		auto key = std::make_tuple(v, s);
		auto it = atoms.find(key);
		if(it != atoms.end()) return it->second;
		int a = next++;
		atoms[key] = a;
		unsigned w = v->getType()->getIntegerBitWidth();
		bounds[a] = { s ? -lim(w - 1) : 0, (s ? lim(w - 1) : lim(w)) - 1 };
		cons.push_back(Lin::atom(a) - Lin(s ? -lim(w - 1) : 0));
		cons.push_back(Lin((s ? lim(w - 1) : lim(w)) - 1) - Lin::atom(a));
		// no text is longer than the largest object
		if(auto *CB = dyn_cast<CallBase>(v)) if(w == 64) if(Function *C = calleeOf(CB)) if(C->getName() == "strlen") { cons.push_back(Lin::atom(a)); cons.push_back(Lin((Int)0x7ffffff0) - Lin::atom(a)); }
		return a;
	}
	// form >= 0 follows
	bool holds(const Lin &g)
	{
		if(g.c.empty()) return g.k >= 0;
		if(++work > 4000) return false;
		// only facts connected to the goal
		std::set<int> rel;
		for(auto &x : g.c) rel.insert(x.first);
		std::vector<char> used(cons.size(), 0);
		std::vector<Lin> sel;
		for(bool ch = true; ch;)
		{
			ch = false;
			for(size_t i = 0; i < cons.size(); i++)
			{
				if(used[i]) continue;
				bool t = cons[i].c.empty();
				for(auto &x : cons[i].c) if(rel.count(x.first)) t = true;
				if(!t) continue;
				used[i] = 1; ch = true;
				sel.push_back(cons[i]);
				for(auto &x : cons[i].c) rel.insert(x.first);
			}
		}
		sel.push_back(g * -1 - Lin(1));
		return infeasible(sel);
	}
	bool within(const Lin &l, Int lo, Int hi) { return holds(l - Lin(lo)) && holds(Lin(hi) - l); }
	bool inRange(const Lin &l, unsigned w, bool s) { return s ? within(l, -lim(w - 1), lim(w - 1) - 1) : within(l, 0, lim(w) - 1); }
	int productOf(int a, int b)
	{
		if(a > b) std::swap(a, b);
		auto it = products.find({ a, b });
		if(it != products.end()) return it->second;
		int t = products[{ a, b }] = next++;
		if(bounds.count(a) && bounds.count(b) && bounds[a].first >= 0 && bounds[b].first >= 0)
		{
			cons.push_back(Lin::atom(t) - Lin(bounds[a].first * bounds[b].first));
			if(bounds[a].second < lim(40) && bounds[b].second < lim(40)) cons.push_back(Lin(bounds[a].second * bounds[b].second) - Lin::atom(t));
			bounds[t] = { 0, 0 };
			bounds[t].second = bounds[a].second < lim(40) && bounds[b].second < lim(40) ? bounds[a].second * bounds[b].second : lim(100);
		}
		return t;
	}
	std::map<int, std::pair<Int, Int>> bounds;
	Lin mulAtoms(const Lin &x, const Lin &y)
	{
		Lin r = x * y.k + y * x.k - Lin(x.k * y.k);
		for(auto &p : x.c) for(auto &q : y.c) r = r + Lin::atom(productOf(p.first, q.first)) * (p.second * q.second);
		return r;
	}
	// mathematical value of v read as a signed or unsigned number
	Lin of(const Value *v, bool s)
	{
		v = res(v);
		auto key = std::make_pair(v, s);
		auto it = memo.find(key);
		if(it != memo.end()) return it->second;
		Lin l = calc(v, s);
		return memo[key] = l;
	}
	// exact value of an arithmetic result if it stays in range, else an atom
	bool settle(const Lin &l, unsigned w, bool s, bool flag, Lin &out)
	{
		if(flag || inRange(l, w, s)) { out = l; return true; }
		return false;
	}
	Lin calc(const Value *v, bool s)
	{
		unsigned w = v->getType()->getIntegerBitWidth();
		if(w > 64) return Lin::atom(atomOf(v, s));
		if(auto *C = dyn_cast<ConstantInt>(v)) return s ? Lin((Int)C->getSExtValue()) : Lin((Int)(unsigned __int128)C->getZExtValue());
		auto other = [&]() -> Lin // the value read the other way round, where both readings agree
		{
			Lin a = Lin::atom(atomOf(v, s));
			return a;
		};
		if(auto *Z = dyn_cast<ZExtInst>(v)) return of(Z->getOperand(0), false);
		if(auto *X = dyn_cast<SExtInst>(v))
		{
			Lin x = of(X->getOperand(0), true);
			if(s || holds(x)) return x;
			return other();
		}
		if(auto *T = dyn_cast<TruncInst>(v))
		{
			Lin x = of(T->getOperand(0), false), o;
			if(settle(x, w, s, false, o)) return o;
			Lin y = of(T->getOperand(0), true);
			if(settle(y, w, s, false, o)) return o;
			int a = atomOf(v, s);
			if(!s) cons.push_back(x - Lin::atom(a));
			return Lin::atom(a);
		}
		if(auto *FZ = dyn_cast<FreezeInst>(v)) return of(FZ->getOperand(0), s);
		if(auto *B = dyn_cast<BinaryOperator>(v))
		{
			const Value *p = B->getOperand(0), *q = B->getOperand(1);
			auto *K = dyn_cast<ConstantInt>(res(q));
			bool nsw = false, nuw = false;
			if(auto *O = dyn_cast<OverflowingBinaryOperator>(B)) { nsw = O->hasNoSignedWrap(); nuw = O->hasNoUnsignedWrap(); }
			Lin out;
			switch(B->getOpcode())
			{
			case Instruction::Add: case Instruction::Sub:
			{
				bool sub = B->getOpcode() == Instruction::Sub;
				auto *pp = dyn_cast<PtrToIntInst>(res(p)), *pq = dyn_cast<PtrToIntInst>(res(q));
				if(sub && pp && pq && locate)
				{
					const Value *ra, *rb; Lin oa, ob;
					if(locate(*this, pp->getOperand(0), ra, oa) && locate(*this, pq->getOperand(0), rb, ob) && ra == rb && (s || holds(oa - ob))) return oa - ob;
				}
				// every reading of the operands whose sum lies in the range of the result is the result
				for(int ps = 0; ps < 2; ps++)
					for(int qs = 0; qs < 2; qs++)
					{
						bool a = ps ? !s : s, b = qs ? !s : s;
						Lin l = sub ? of(p, a) - of(q, b) : of(p, a) + of(q, b);
						if(settle(l, w, s, a == s && b == s && (s ? nsw : nuw), out)) return out;
					}
				int t = atomOf(v, s);
				if(!s && !sub) cons.push_back(of(p, false) + of(q, false) - Lin::atom(t));
				return Lin::atom(t);
			}
			case Instruction::Mul: case Instruction::Shl:
			{
				Int m = 0;
				bool isConst = false;
				if(K && B->getOpcode() == Instruction::Shl && K->getZExtValue() < w) { m = (Int)1 << K->getZExtValue(); isConst = true; }
				else if(K && B->getOpcode() == Instruction::Mul) { m = K->getSExtValue(); isConst = true; }
				if(isConst)
				{
					for(bool a : { s, !s })
						if(settle(of(p, a) * m, w, s, a == s && (s ? nsw : nuw), out)) return out;
					int t = atomOf(v, s);
					if(!s && m > 0) cons.push_back(of(p, false) * m - Lin::atom(t));
					return Lin::atom(t);
				}
				if(B->getOpcode() == Instruction::Mul)
				{
					Lin a = of(p, false), b = of(q, false);
					Lin l = mulAtoms(a, b);
					if(!s) { bool fl = nuw; if(settle(l, w, s, fl, out)) return out; }
					if(s && nsw) { Lin x = of(p, true), y = of(q, true); return mulAtoms(x, y); }
					int t = atomOf(v, s);
					if(!s) cons.push_back(l - Lin::atom(t)); // what wraps is smaller
					return Lin::atom(t);
				}
				break;
			}
			case Instruction::LShr: case Instruction::UDiv:
				if(K)
				{
					Int m = B->getOpcode() == Instruction::LShr ? K->getZExtValue() < w ? (Int)1 << K->getZExtValue() : 0 : (Int)(unsigned __int128)K->getZExtValue();
					if(m <= 0) break;
					int t = atomOf(v, false);
					Lin x = of(p, false), y = Lin::atom(t) * m;
					cons.push_back(x - y);
					cons.push_back(y + Lin(m - 1) - x);
					if(!s || m >= 2) return Lin::atom(t);
				}
				break;
			case Instruction::AShr:
				if(K && K->getZExtValue() < w)
				{
					Int m = (Int)1 << K->getZExtValue();
					int t = atomOf(v, true);
					Lin x = of(p, true), y = Lin::atom(t) * m;
					cons.push_back(x - y);
					cons.push_back(y + Lin(m - 1) - x);
					if(s || holds(Lin::atom(t))) return Lin::atom(t);
				}
				break;
			case Instruction::SDiv:
				if(K && K->getSExtValue() > 0)
				{
					Int m = K->getSExtValue();
					Lin x = of(p, true);
					if(!B->isExact() && !holds(x)) break;
					int t = atomOf(v, true);
					Lin y = Lin::atom(t) * m;
					cons.push_back(x - y);
					cons.push_back(y + Lin(B->isExact() ? 0 : m - 1) - x);
					if(s || holds(Lin::atom(t))) return Lin::atom(t);
				}
				break;
			case Instruction::And:
				for(const Value *x : { p, q })
					if(auto *C = dyn_cast<ConstantInt>(res(x)))
						if(!C->isNegative())
						{
							int t = atomOf(v, false);
							cons.push_back(Lin((Int)C->getZExtValue()) - Lin::atom(t));
							cons.push_back(of(x == p ? q : p, false) - Lin::atom(t));
							return Lin::atom(t);
						}
				// rounding down to a power of two
				if(auto *C = dyn_cast<ConstantInt>(res(q)))
					if(C->isNegative() && (-C->getValue()).isPowerOf2() && !s)
					{
						int t = atomOf(v, false);
						Lin x = of(p, false);
						cons.push_back(x - Lin::atom(t));
						cons.push_back(Lin::atom(t) + Lin((Int)((-C->getValue()).getZExtValue() - 1)) - x);
						return Lin::atom(t);
					}
				break;
			case Instruction::URem:
			{
				int t = atomOf(v, false);
				cons.push_back(of(p, false) - Lin::atom(t));
				cons.push_back(of(q, false) - Lin(1) - Lin::atom(t));
				if(!s) return Lin::atom(t);
				break;
			}
			default: break;
			}
		}
		if(auto *II = dyn_cast<IntrinsicInst>(v))
		{
			auto id = II->getIntrinsicID();
			bool mn = id == Intrinsic::umin || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax, sg = id == Intrinsic::smin || id == Intrinsic::smax;
			if(mn || mx)
			{
				int t = atomOf(v, sg);
				for(int i = 0; i < 2; i++) { Lin o = of(II->getArgOperand(i), sg); cons.push_back(mn ? o - Lin::atom(t) : Lin::atom(t) - o); }
				if(sg == s || holds(Lin::atom(t))) if(sg == s || inRange(Lin::atom(t), w, s)) return Lin::atom(t);
			}
		}
		if(isa<PHINode>(v) || isa<SelectInst>(v)) if(std::find(merges.begin(), merges.end(), v) == merges.end()) merges.push_back(v);
		if(auto *P = dyn_cast<PHINode>(v)) loopBound(P, s);
		return other();
	}
	std::map<const Value*, int> nulls;
	std::set<std::pair<const PHINode*, bool>> bounded;
	// what holds whenever the loop is repeated from this block
	std::vector<Cmp> aroundFrom(const BasicBlock *B, const BasicBlock *H)
	{
		auto conds = conditionsAt(B->getTerminator(), DT);
		if(auto *Br = dyn_cast<BranchInst>(B->getTerminator()))
			if(Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
				for(auto &x : implied(Br->getCondition(), Br->getSuccessor(0) == H)) conds.push_back({ x.second ? x.first->getPredicate() : x.first->getInversePredicate(), x.first->getOperand(0), x.first->getOperand(1) });
		return conds;
	}
	// counter that starts at a value and only goes one way, and stops at a limit
	void loopBound(const PHINode *P, bool s)
	{
		if(!bounded.insert({ P, s }).second || P->getNumIncomingValues() < 2) return;
		const Value *init; int64_t step;
		if(!affine(P, init, step) || !step) return;
		bool up = step > 0, one = step == 1 || step == -1;
		auto fixed = [&](const Value *b) { auto *D = dyn_cast<Instruction>(b); return !D || DT.properlyDominates(D->getParent(), P->getParent()); };
		typedef std::tuple<const Value*, bool, bool> Limit; // limit, the counter stays short of it, by inequality only
		std::vector<Limit> limits; bool first = true, flagged = true, below = true;
		for(unsigned i = 0; i < P->getNumIncomingValues(); i++)
		{
			auto *I = P->getIncomingBlock(i);
			if(!DT.dominates(P->getParent(), I)) continue;
			auto *B = dyn_cast<BinaryOperator>(P->getIncomingValue(i));
			if(!B) return;
			if(!(s ? B->hasNoSignedWrap() : B->hasNoUnsignedWrap() && up)) flagged = false;
			std::vector<Limit> here; bool stop = false;
			for(auto c : aroundFrom(I, P->getParent()))
			{
				auto p = c.p; auto *a = c.a, *b = c.b;
				if(b == P || b == B) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
				if((a != P && a != B) || a->getType() != b->getType()) continue;
				bool lt = p == (up ? (s ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT) : (s ? CmpInst::ICMP_SGT : CmpInst::ICMP_UGT));
				if(a == P && lt) stop = true; // it can still move by one
				if(!fixed(b) || !one) continue;
				if(lt) here.push_back({ b, a == B, false });
				if(p == CmpInst::ICMP_NE) here.push_back({ b, a == B, true });
			}
			if(!stop || !one) below = false;
			if(first) limits = here;
			else { std::vector<Limit> both; for(auto &x : limits) if(std::find(here.begin(), here.end(), x) != here.end()) both.push_back(x); limits = both; }
			first = false;
		}
		bool runs = flagged || below;
		std::vector<Lin> found;
		Lin me = Lin::atom(atomOf(P, s));
		for(auto &l : limits)
		{
			Lin n = of(std::get<0>(l), s), m = of(init, s);
			Lin d = up ? n - m : m - n, e = up ? n - me : me - n;
			if(std::get<1>(l)) { d = d - Lin(1); e = e - Lin(1); }
			if(!holds(d)) continue;
			found.push_back(e);
			if(std::get<2>(l) || std::get<1>(l)) runs = true; // it gets no further than the limit
		}
		for(auto &e : found) cons.push_back(e);
		if(!runs) return;
		Lin d = me - of(init, s) - roundsOf(P->getParent()) * step;
		cons.push_back(d); cons.push_back(d * -1);
		cons.push_back(up ? me - of(init, s) : of(init, s) - me);
	}
	// d (left minus right) in the given relation to zero
	void relate(CmpInst::Predicate p, const Lin &d)
	{
		switch(p)
		{
		case CmpInst::ICMP_EQ: cons.push_back(d); cons.push_back(d * -1); break;
		case CmpInst::ICMP_NE: if(holds(d)) cons.push_back(d - Lin(1)); else if(holds(d * -1)) cons.push_back(d * -1 - Lin(1)); break;
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: cons.push_back(d * -1 - Lin(1)); break;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: cons.push_back(d * -1); break;
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: cons.push_back(d - Lin(1)); break;
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: cons.push_back(d); break;
		default: break;
		}
	}
	// a pointer that walks through a loop: what keeps the loop going held when it came around, and has to hold on entry too
	std::set<const PHINode*> walked, siblings;
	void walk(const PHINode *P, const Lin &off, const Value *key, const Lin &initOff, int64_t step)
	{
		if(!walked.insert(P).second) return;
		std::vector<Lin> facts; // of every way around
		bool first = true;
		for(unsigned i = 0; i < P->getNumIncomingValues(); i++)
		{
			auto *B = P->getIncomingBlock(i);
			if(!DT.dominates(P->getParent(), B)) continue;
			const Value *in = P->getIncomingValue(i);
			std::vector<Lin> here;
			for(auto c : aroundFrom(B, P->getParent()))
			{
				if(c.b == in || c.b == P) { std::swap(c.a, c.b); c.p = CmpInst::getSwappedPredicate(c.p); }
				if(c.a != in && c.a != P) continue;
				auto *D = dyn_cast<Instruction>(c.b);
				if(D && !DT.properlyDominates(D->getParent(), P->getParent())) continue;
				const Value *rb; Lin ob;
				if(!locate(*this, c.b, rb, ob) || rb != key) continue;
				Lin d = off - ob, d0 = initOff - ob;
				if(c.a == P)
				{
					// it moved on from a place that was not the limit yet
					bool lo = c.p == CmpInst::ICMP_ULT || c.p == CmpInst::ICMP_NE, hi = c.p == CmpInst::ICMP_UGT || c.p == CmpInst::ICMP_NE;
					if(step == 1 && lo && holds(d0 * -1)) here.push_back(d * -1);
					if(step == -1 && hi && holds(d0)) here.push_back(d);
					continue;
				}
				switch(c.p)
				{
				case CmpInst::ICMP_NE:
					if(step == -1 && holds(d0 - Lin(1))) here.push_back(d - Lin(1));
					if(step == 1 && holds(d0 * -1 - Lin(1))) here.push_back(d * -1 - Lin(1));
					break;
				case CmpInst::ICMP_ULT: if(holds(d0 * -1 - Lin(1))) here.push_back(d * -1 - Lin(1)); break;
				case CmpInst::ICMP_UGT: if(holds(d0 - Lin(1))) here.push_back(d - Lin(1)); break;
				case CmpInst::ICMP_UGE: if(holds(d0)) here.push_back(d); break;
				case CmpInst::ICMP_ULE: if(holds(d0 * -1)) here.push_back(d * -1); break;
				default: break;
				}
			}
			if(first) facts = here;
			else { std::vector<Lin> both; for(auto &l : facts) if(std::find(here.begin(), here.end(), l) != here.end()) both.push_back(l); facts = both; }
			first = false;
		}
		for(auto &l : facts) cons.push_back(l);
		walked.erase(P);
	}
	void assume(const Cmp &c)
	{
		const Value *a = res(c.a), *b = res(c.b);
		if(a->getType()->isPointerTy())
		{
			if(c.p == CmpInst::ICMP_NE && a == b) cons.push_back(Lin(-1));
			if(isa<ConstantPointerNull>(b) && (c.p == CmpInst::ICMP_EQ || c.p == CmpInst::ICMP_NE)) { nulls[a] |= c.p == CmpInst::ICMP_EQ ? 1 : 2; if(nulls[a] == 3) cons.push_back(Lin(-1)); }
			const Value *ra, *rb; Lin oa, ob;
			if(locate && !isa<ConstantPointerNull>(b) && locate(*this, a, ra, oa) && locate(*this, b, rb, ob) && ra == rb) relate(c.p, oa - ob);
			return;
		}
		if(!a->getType()->isIntegerTy() || a->getType()->getIntegerBitWidth() > 64) return;
		auto p = c.p;
		if(p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
		{
			for(bool s : { false, true })
			{
				Lin d = of(a, s) - of(b, s);
				if(p == CmpInst::ICMP_EQ) { cons.push_back(d); cons.push_back(d * -1); }
				else if(holds(d)) cons.push_back(d - Lin(1));
				else if(holds(d * -1)) cons.push_back(d * -1 - Lin(1));
			}
			return;
		}
		// a range written as one comparison: a + K < C
		bool s = CmpInst::isSigned(p);
		Lin x = of(a, s), y = of(b, s);
		switch(p)
		{
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: cons.push_back(y - x - Lin(1)); break;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: cons.push_back(y - x); break;
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: cons.push_back(x - y - Lin(1)); break;
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: cons.push_back(x - y); break;
		default: break;
		}
	}
	// the signed and unsigned readings of a value agree where it is known to be small
	void link()
	{
		std::vector<std::pair<const Value*, std::pair<int, int>>> both;
		for(auto &x : atoms) if(!std::get<1>(x.first)) { auto it = atoms.find(std::make_tuple(std::get<0>(x.first), true)); if(it != atoms.end()) both.push_back({ std::get<0>(x.first), { x.second, it->second } }); }
		for(auto &b : both)
		{
			unsigned w = b.first->getType()->getIntegerBitWidth();
			Lin u = Lin::atom(b.second.first), s = Lin::atom(b.second.second);
			if(holds(s) || holds(Lin(lim(w - 1) - 1) - u)) { cons.push_back(u - s); cons.push_back(s - u); }
			else if(holds(s * -1 - Lin(1)) || holds(u - Lin(lim(w - 1)))) { Lin d = u - s - Lin(lim(w)); cons.push_back(d); cons.push_back(d * -1); }
		}
	}
	// sizes are not negative: a fact may be multiplied by one
	void multiply()
	{
		std::set<int> factors;
		for(auto &p : products) { factors.insert(p.first.first); factors.insert(p.first.second); }
		if(factors.size() > 12) return;
		std::vector<Lin> base = cons;
		for(auto &l : base)
		{
			bool rel = !l.c.empty();
			if(l.c.size() > 3) continue;
			bool isProd = false;
			for(auto &x : l.c) for(auto &p : products) if(p.second == x.first) isProd = true;
			if(isProd || !rel) continue;
			for(int f : factors)
			{
				if(!holds(Lin::atom(f))) continue;
				bool known = false; // does the result speak of products that matter
				for(auto &x : l.c) { int a = std::min(x.first, f), b = std::max(x.first, f); if(products.count({ a, b })) known = true; }
				if(!known) continue;
				bool all = true;
				for(auto &x : l.c) { int a = std::min(x.first, f), b = std::max(x.first, f); if(!products.count({ a, b })) all = false; }
				if(!all) continue;
				cons.push_back(mulAtoms(l, Lin::atom(f)));
			}
		}
	}
	// products with a common factor compare as the other factors do
	void compareProducts()
	{
		auto ps = products;
		if(ps.size() > 8) return;
		auto known = [&](const Lin &d, Lin r, int f) // d >= 0 gives r >= 0, d >= 1 gives r >= f
		{
			if(holds(d - Lin(1))) cons.push_back(r - Lin::atom(f));
			else if(holds(d)) cons.push_back(r);
		};
		for(auto &p : ps)
			for(int k = 0; k < 2; k++)
			{
				int a = k ? p.first.second : p.first.first, f = k ? p.first.first : p.first.second;
				if(!holds(Lin::atom(f))) continue;
				known(Lin::atom(a), Lin::atom(p.second), f);
				for(auto &q : ps)
				{
					if(q.second == p.second) continue;
					int b = q.first.first == f ? q.first.second : q.first.second == f ? q.first.first : -1;
					if(b >= 0) known(Lin::atom(a) - Lin::atom(b), Lin::atom(p.second) - Lin::atom(q.second), f);
				}
			}
	}
	std::string str(const Lin &l)
	{
		std::string r;
		for(auto &x : l.c)
		{
			std::string n = "?" + std::to_string(x.first);
			for(auto &a : atoms) if(a.second == x.first) { n = ""; raw_string_ostream o(n); std::get<0>(a.first)->printAsOperand(o, false); n = (std::get<1>(a.first) ? "S:" : "U:") + n; }
			for(auto &p : products) if(p.second == x.first) { Lin a = Lin::atom(p.first.first), b = Lin::atom(p.first.second); n = "(" + str(a) + "*" + str(b) + ")"; }
			for(auto &h : rounds) if(h.second == x.first) n = "rounds";
			r += " " + std::to_string((long long)x.second) + "*" + n;
		}
		return r + " + " + std::to_string((long long)l.k);
	}
	void print(raw_ostream &o, const std::vector<Lin> &caps, const Lin &off, const Lin &n)
	{
		o << "at " << *at << "\n off " << str(off) << "\n n " << str(n) << "\n";
		for(auto &c : caps) o << " cap " << str(c) << "\n";
		for(auto &c : cons) o << "   " << str(c) << " >= 0\n";
		for(auto *m : merges) o << "   merge " << *m << "\n";
	}
	std::function<void(Facts&)> more; // facts of the caller's own
	void build()
	{
		auto conds = conditionsAt(at, DT);
		std::reverse(conds.begin(), conds.end());
		for(auto &x : extra) conds.push_back(x);
		for(int pass = 0; pass < 3; pass++)
		{
			memo.clear();
			siblings.clear();
			for(auto &c : conds) assume(c);
			if(more) more(*this);
			link();
			if(!products.empty()) multiply();
			std::set<Lin> u(cons.begin(), cons.end());
			cons.assign(u.begin(), u.end());
		}
		memo.clear();
		siblings.clear();
	}
};
// proves goals at a point, following merged values along each way in when needed
struct Prover
{
	const DominatorTree &DT;
	std::function<void(Facts&)> more;
	std::function<bool(Facts&, const Value*, const Value*&, Lin&)> locate;
	int queries = 0;
	const std::map<const Value*, const Value*> *same = nullptr;
	Prover(const DominatorTree &DT): DT(DT) {}
	typedef std::function<bool(Facts&)> Goal;
	// ways in of a merged value: what it is and what is known on that way
	static std::vector<std::pair<const Value*, std::vector<Cmp>>> ways(const Value *v, const DominatorTree &DT)
	{
		std::vector<std::pair<const Value*, std::vector<Cmp>>> r;
		auto cmps = [&](const Value *c, bool t, std::vector<Cmp> &out) { for(auto &x : implied(c, t)) out.push_back({ x.second ? x.first->getPredicate() : x.first->getInversePredicate(), x.first->getOperand(0), x.first->getOperand(1) }); };
		if(auto *S = dyn_cast<SelectInst>(v))
		{
			for(int i = 0; i < 2; i++) { std::vector<Cmp> e; cmps(S->getCondition(), i == 0, e); r.push_back({ i ? S->getFalseValue() : S->getTrueValue(), e }); }
			return r;
		}
		auto *P = dyn_cast<PHINode>(v);
		if(!P) return r;
		for(unsigned i = 0; i < P->getNumIncomingValues(); i++)
		{
			auto *B = P->getIncomingBlock(i);
			if(DT.dominates(P->getParent(), B)) return {}; // a loop
			if(!DT.isReachableFromEntry(B)) continue;
			std::vector<Cmp> e = conditionsAt(B->getTerminator(), DT);
			std::reverse(e.begin(), e.end());
			if(auto *Br = dyn_cast<BranchInst>(B->getTerminator()))
				if(Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) cmps(Br->getCondition(), Br->getSuccessor(0) == P->getParent(), e);
			r.push_back({ P->getIncomingValue(i), e });
		}
		return r;
	}
	bool prove(const Instruction *at, const Goal &g, std::map<const Value*, const Value*> subst = {}, std::vector<Cmp> extra = {}, int depth = 0)
	{
		if(++queries > 400) return false;
		Facts F(at, DT);
		F.subst = subst;
		F.same = same;
		F.extra = extra;
		F.more = more;
		F.locate = locate;
		F.build();
		if(F.holds(Lin(-1))) return true;
		{ std::vector<Lin> all = F.cons; if(infeasible(all)) return true; } // this way is never taken
		if(g(F)) return true;
		if(depth >= 4) return false;
		for(auto *m : F.merges)
		{
			auto w = ways(m, DT);
			if(w.empty()) continue;
			bool all = true;
			for(auto &x : w)
			{
				auto s2 = subst;
				s2[m] = x.first;
				auto e2 = extra;
				// other merged values of the same block take the same way
				if(auto *P = dyn_cast<PHINode>(m))
				{
					unsigned idx = 0, k = 0;
					for(unsigned i = 0; i < P->getNumIncomingValues(); i++) if(DT.isReachableFromEntry(P->getIncomingBlock(i))) { if(k == size_t(&x - &w[0])) idx = i; k++; }
					for(auto &Q : P->getParent()->phis()) s2[&Q] = Q.getIncomingValueForBlock(P->getIncomingBlock(idx));
				}
				e2.insert(e2.end(), x.second.begin(), x.second.end());
				if(!prove(at, g, s2, e2, depth + 1)) { all = false; break; }
			}
			if(all) return true;
		}
		return false;
	}
};
}
