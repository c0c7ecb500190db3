// C16: recursion driven by the program text passes a nesting limit
#include "rules.h"
// call sites of F that are only reached while a counter kept in memory, incremented on the way, is below a limit
struct Guards
{
	Function *F; DominatorTree DT;
	struct G { const BasicBlock *from, *ok; const Instruction *inc; };
	std::vector<G> gs;
	static bool samePlace(const Value *a, const Value *b, int d = 0)
	{
		if(a == b) return true;
		if(d > 6) return false;
		auto *g = dyn_cast<GEPOperator>(a), *h = dyn_cast<GEPOperator>(b);
		if(g && h && g->getSourceElementType() == h->getSourceElementType() && g->getNumOperands() == h->getNumOperands())
		{
			for(unsigned i = 1; i < g->getNumOperands(); i++) if(g->getOperand(i) != h->getOperand(i)) return false;
			return samePlace(g->getPointerOperand(), h->getPointerOperand(), d + 1);
		}
		auto *l = dyn_cast<LoadInst>(a), *m = dyn_cast<LoadInst>(b);
		return l && m && samePlace(l->getPointerOperand(), m->getPointerOperand(), d + 1);
	}
	Guards(Function *F, int64_t maxLimit) : F(F), DT(*F)
	{
		std::vector<std::pair<const StoreInst*, const Value*>> incs;
		for(auto &I : instructions(F))
			if(auto *S = dyn_cast<StoreInst>(&I))
				if(auto *B = dyn_cast<BinaryOperator>(S->getValueOperand()))
					if(B->getOpcode() == Instruction::Add)
						if(auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) if(K->isOne())
							if(auto *L = dyn_cast<LoadInst>(B->getOperand(0))) if(samePlace(L->getPointerOperand(), S->getPointerOperand())) incs.push_back({ S, B });
		for(auto &I : instructions(F))
		{
			auto *C = dyn_cast<ICmpInst>(&I);
			if(!C || C->isEquality()) continue;
			for(int side = 0; side < 2; side++)
			{
				auto *v = C->getOperand(side), *lim = C->getOperand(1 - side);
				const Value *place = nullptr;
				const StoreInst *inc = nullptr;
				if(auto *L = dyn_cast<LoadInst>(v)) place = L->getPointerOperand();
				for(auto &p : incs) if((place && samePlace(place, p.first->getPointerOperand())) || p.second == v) inc = p.first;
				if(!inc) continue;
				if(!isa<ConstantInt>(lim) && !isa<LoadInst>(lim) && !isa<Argument>(lim)) continue;
				if(auto *K = dyn_cast<ConstantInt>(lim)) if(K->getValue().ugt(maxLimit)) continue;
				for(auto *U : C->users())
					if(auto *Br = dyn_cast<BranchInst>(U))
					{
						auto p = side ? C->getSwappedPredicate() : C->getPredicate();
						bool less = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE;
						gs.push_back({ Br->getParent(), Br->getSuccessor(less ? 0 : 1), inc });
					}
			}
		}
	}
	bool guarded(const Instruction *I)
	{
		for(auto &g : gs)
			if(DT.dominates(BasicBlockEdge(g.from, g.ok), I->getParent()) && (DT.dominates(g.inc, I))) return true;
		return false;
	}
};
// every recursive call goes deeper into a structure that already exists
static bool fromParam(const Value *v, const Argument *a, bool loaded, std::set<const Value*> &seen)
{
	if(v == a) return loaded;
	if(isa<ConstantPointerNull>(v)) return true;
	if(!seen.insert(v).second) return true;
	if(auto *L = dyn_cast<LoadInst>(v)) return fromParam(L->getPointerOperand(), a, true, seen);
	if(auto *G = dyn_cast<GEPOperator>(v)) return fromParam(G->getPointerOperand(), a, loaded, seen);
	if(auto *C = dyn_cast<CastInst>(v)) return fromParam(C->getOperand(0), a, loaded, seen);
	if(auto *P = dyn_cast<PHINode>(v)) { for(auto &x : P->incoming_values()) if(!fromParam(x, a, loaded, seen)) return false; return true; }
	if(auto *S = dyn_cast<SelectInst>(v)) return fromParam(S->getTrueValue(), a, loaded, seen) && fromParam(S->getFalseValue(), a, loaded, seen);
	return false;
}
static bool descends(Function *F)
{
	for(auto &A : F->args())
	{
		if(!A.getType()->isPointerTy()) continue;
		bool all = true;
		for(auto &I : instructions(F))
			if(auto *CB = dyn_cast<CallBase>(&I)) if(calleeOf(CB) == F)
			{
				std::set<const Value*> seen;
				all = all && A.getArgNo() < CB->arg_size() && fromParam(CB->getArgOperand(A.getArgNo()), &A, false, seen);
			}
		if(all) return true;
	}
	return false;
}
// a counter increased by a function is back at its old value whenever the function returns
static void balance(Function *F, Guards &G)
{
	for(auto &g : G.gs)
	{
		const Value *place = cast<StoreInst>(g.inc)->getPointerOperand();
		auto delta = [&](const Instruction &I) {
			auto *S = dyn_cast<StoreInst>(&I);
			auto *B = S ? dyn_cast<BinaryOperator>(S->getValueOperand()) : nullptr;
			auto *L = B && B->getOpcode() == Instruction::Add ? dyn_cast<LoadInst>(B->getOperand(0)) : nullptr;
			auto *K = L ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
			return K && Guards::samePlace(L->getPointerOperand(), S->getPointerOperand()) && Guards::samePlace(place, S->getPointerOperand()) ? (int)K->getSExtValue() : 0;
		};
		std::map<const BasicBlock*, std::set<int>> in;
		std::deque<const BasicBlock*> work{ &F->getEntryBlock() };
		in[&F->getEntryBlock()] = { 0 };
		R.stat("counters");
		bool bad = false;
		while(!work.empty() && !bad)
		{
			auto *B = work.front(); work.pop_front();
			auto s = in[B];
			for(auto &I : *B)
			{
				if(int d = delta(I)) { std::set<int> n; for(int x : s) n.insert(std::max(-3, std::min(3, x + d))); s = n; }
				if(isa<ReturnInst>(I))
				{
					R.stat("returns");
					for(int x : s) if(x && !bad) { bad = true; R.add("NESTING-LEAK", g.inc, sname(F), "the nesting counter increased here is " + std::string(x > 0 ? "still increased" : "decreased too often") + " on a return, so the limit is " + (x > 0 ? "reached by text that is not nested" : "never reached"), "leak"); }
				}
			}
			for(auto *S : successors(B))
			{
				if(B == g.from && S != g.ok) continue; // limit reached
				auto &t = in[S]; auto n = t; n.insert(s.begin(), s.end());
				if(n != t) { t = n; work.push_back(S); }
			}
		}
	}
}
static std::pair<Type*, int64_t> fieldKey(const Value *p)
{
	auto *G = dyn_cast<GEPOperator>(p);
	if(!G) return { nullptr, 0 };
	if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if(ST->hasName() && (ST->getName().contains("Array") || ST->getName().contains("Vector"))) return { nullptr, 0 }; // container sizes
	auto *K = dyn_cast<ConstantInt>(G->getOperand(G->getNumOperands() - 1));
	return { G->getSourceElementType(), K ? K->getSExtValue() : -1 };
}
RULE(recursion)
{
	// limits above this many levels do not protect the host stack
	const int64_t maxLimit = 8192;
	struct Scope { const char *file; StrVec hubs, creators; };
	std::vector<Scope> scopes = {
		{ "NULLC/ParseTree.cpp", {} },
		{ "NULLC/ExpressionEval.cpp", {} },
		{ "NULLC/InstructionTreeVmEval.cpp", {} },
		{ "NULLC/ExpressionTree.cpp", { "AnalyzeExpression", "AnalyzeType" }, { "CreateGenericFunctionInstance", "CreateGenericTypeInstance" } },
	};
	for(Function *F : definedFns()) basicSimplify(F, false);
	inferNoReturn();
	for(auto &sc : scopes)
	{
		InlinePolicy P;
		P.want = [&](Function *C, CallBase *) { return fileOf(C).compare(0, 5, "NULLC") == 0 && instrCount(C) < 40; };
		P.maxDepth = 2;
		std::set<Function*> nodes;
		std::map<Function*, std::map<Function*, const Instruction*>> edges, all;
		std::map<Function*, std::vector<const Instruction*>> guardedCalls;
		for(Function *F : definedFns()) if(fileOf(F) == sc.file) nodes.insert(F);
		if(nodes.empty()) { R.brk(std::string("no functions found in ") + sc.file); continue; }
		for(Function *F : nodes) normalise(F, &P);
		std::map<Function*, std::unique_ptr<Guards>> guards;
		for(Function *F : nodes)
		{
			R.stat("functions");
			auto &G = *(guards[F] = std::make_unique<Guards>(F, maxLimit));
			for(auto &I : instructions(F))
				if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(nodes.count(C))
				{
					R.stat("calls");
					all[F].insert({ C, &I });
					if(G.guarded(&I)) { R.stat("guarded_calls"); continue; }
					edges[F].insert({ C, &I });
				}
		}
		// creation of generic instances analyses a stored definition again
		for(auto &h : sc.creators)
		{
			Function *H = findFn(h);
			if(!H) { R.brk("function " + h + " not found"); continue; }
			unsigned sites = 0;
			std::function<void(Function*, int)> scan = [&](Function *F, int depth) {
				for(auto &I : instructions(F))
				{
					auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr;
					if(!C || !nodes.count(C)) continue;
					bool g = guards[F]->guarded(&I);
					std::string n = sname(C);
					if(n.compare(0, 7, "Analyze") == 0 && n.size() > 10 && n.compare(n.size() - 10, 10, "Definition") == 0)
					{
						sites++; R.stat("instantiations");
						if(!g) R.add("UNLIMITED-RECURSION", &I, sname(F), "the definition of a generic is analysed again without a limit on nested instances", "instance " + n);
					}
					else if(!g && depth < 3)
					{
						bool own = true;
						for(auto &e : all) if(e.first != F && e.second.count(C)) own = false;
						if(own && C != F && C != H) scan(C, depth + 1);
					}
					else if(g) { bool own = true; for(auto &e : all) if(e.first != F && e.second.count(C)) own = false; if(own) sites++; }
				}
			};
			scan(H, 0);
			if(!sites) R.brk("no instantiation found in " + h);
		}
		// strongly connected components of a call graph
		std::map<Function*, int> comp;
		auto sccs = [&](std::map<Function*, std::map<Function*, const Instruction*>> &E, std::function<void(std::vector<Function*>&)> out) {
			std::map<Function*, int> idx, low; std::vector<Function*> st; std::set<Function*> on; int n = 0;
			std::function<void(Function*)> dfs = [&](Function *F) {
				idx[F] = low[F] = n++; st.push_back(F); on.insert(F);
				for(auto &e : E[F])
				{
					if(!idx.count(e.first)) { dfs(e.first); low[F] = std::min(low[F], low[e.first]); }
					else if(on.count(e.first)) low[F] = std::min(low[F], idx[e.first]);
				}
				if(low[F] != idx[F]) return;
				std::vector<Function*> c;
				for(;;) { Function *x = st.back(); st.pop_back(); on.erase(x); c.push_back(x); if(x == F) break; }
				if(c.size() > 1 || E[F].count(F)) out(c);
			};
			for(Function *F : nodes) if(!idx.count(F)) dfs(F);
		};
		unsigned recursive = 0;
		std::set<Function*> rec;
		sccs(all, [&](std::vector<Function*> &c) { if(c.size() == 1 && descends(c[0])) return; recursive += c.size(); rec.insert(c.begin(), c.end()); });
		R.stat("recursive_functions", recursive);
		// fields that are decreased somewhere count nesting, the others are budgets
		std::set<std::pair<Type*, int64_t>> nesting;
		for(Function *F : nodes)
			for(auto &I : instructions(F))
				if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *B = dyn_cast<BinaryOperator>(S->getValueOperand()))
					if(B->getOpcode() == Instruction::Add) if(auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) if(K->isMinusOne()) { auto k = fieldKey(S->getPointerOperand()); if(k.first) nesting.insert(k); }
		for(Function *F : nodes)
		{
			std::vector<Guards::G> keep;
			auto stops = [&](const BasicBlock *B) { for(int i = 0; i < 20; i++) { if(isa<UnreachableInst>(B->getTerminator())) return true; if(!(B = B->getSingleSuccessor())) return false; } return false; };
			for(auto &g : guards[F]->gs) {
				auto k = fieldKey(cast<StoreInst>(g.inc)->getPointerOperand());
				auto *Br = cast<BranchInst>(g.from->getTerminator());
				if(nesting.count(k) || (k.first && stops(Br->getSuccessor(Br->getSuccessor(0) == g.ok)))) keep.push_back(g);
			}
			if(keep.empty()) continue;
			R.stat("nesting_guards", keep.size());
			Guards copy(F, maxLimit); copy.gs = keep;
			if(rec.count(F)) balance(F, copy);
		}
		if(std::string(sc.file) == "NULLC/ParseTree.cpp" && recursive < 20) R.brk("only " + std::to_string(recursive) + " recursive parser functions found");
		StrVec hubs = sc.hubs;
		for(auto &h : hubs) if(!findFn(h)) R.brk("function " + h + " not found");
		sccs(edges, [&](std::vector<Function*> &c) {
			if(c.size() == 1 && descends(c[0])) { R.stat("structural_recursion"); return; }
			std::set<Function*> in(c.begin(), c.end());
			Function *start = c.back();
			if(!hubs.empty())
			{
				start = nullptr;
				for(auto *x : c) for(auto &h : hubs) if(sname(x) == h) start = x;
				if(!start) return;
			}
			// shortest cycle through a function
			std::map<Function*, std::pair<Function*, const Instruction*>> from;
			std::deque<Function*> q{ start };
			std::vector<const Instruction*> cyc; Function *last = nullptr;
			while(!q.empty() && !last)
			{
				Function *F = q.front(); q.pop_front();
				for(auto &e : edges[F])
				{
					if(!in.count(e.first)) continue;
					if(e.first == start) { last = F; cyc.push_back(e.second); break; }
					if(from.insert({ e.first, { F, e.second } }).second) q.push_back(e.first);
				}
			}
			StrVec path;
			for(Function *f = last; f && f != start; f = from[f].first) cyc.push_back(from[f].second);
			std::reverse(cyc.begin(), cyc.end());
			std::string chain = sname(start);
			for(auto *i : cyc) { path.push_back(locOf(i)); chain += " -> " + sname(calleeOf(cast<CallBase>(i))); }
			if(cyc.empty()) return;
			R.add("UNLIMITED-RECURSION", cyc[0], sname(start), "recursion " + chain + " passes no nesting limit", "cycle " + sname(start), path);
		});
	}
}
