// C09: a collection covers every pool, value kind and root; C26: blocks handed out fit, are zeroed and accounted
#include "gc.h"
// containers whose elements a function reads in a loop
static std::set<std::string> consumed(Function *F)
{
	std::set<std::string> r;
	DominatorTree DT(*F); LoopInfo LI(DT);
	for(auto *CB : callsIn(F, [](Function *C, CallBase *) { return isElem(C); })) if(LI.getLoopFor(CB->getParent()) && containerKey(CB) != "?") r.insert(containerKey(CB));
	return r;
}
static void checkWholeList(Function *F, const std::string &list, const std::string &what)
{
	DominatorTree DT(*F); LoopInfo LI(DT);
	for(auto *CB : callsIn(F, [&](Function *C, CallBase *X) { return isElem(C) && containerKey(X) == list; }))
	{
		Counting c;
		if(!countingLoop(LI, CB, c)) { R.stat("loops_of_other_form"); continue; }
		R.stat("list_loops");
		bool sizeBound = false;
		if(auto *B = dyn_cast<CallBase>(c.bound)) { Function *X = calleeOf(B); sizeBound = X && methodOf(X) == "size" && containerKey(B) == list; }
		if(isa<LoadInst>(c.bound)) sizeBound = true;
		if(c.start != 0 || c.slack || c.step != 1 || !sizeBound || !c.single || c.inclusive)
			R.add("LIST-COVERAGE", CB, sname(F), "the loop over " + what + " does not visit every element", "list " + what);
	}
}
static void eachIteration(Function *F, const std::string &list, InstrPred hit, const std::string &what)
{
	DominatorTree DT(*F); LoopInfo LI(DT);
	for(auto *CB : callsIn(F, [&](Function *C, CallBase *X) { return isElem(C) && containerKey(X) == list; }))
	{
		Loop *L = LI.getLoopFor(CB->getParent());
		if(!L) continue;
		BasicBlock *H = L->getHeader();
		R.stat("iteration_obligations");
		if(pathAvoiding(F, CB, hit, [&](const Instruction &I) { return &I == &H->front() || isReturn(I); }))
			R.add("FINALIZE-STEP", CB, sname(F), what, what);
	}
}
// decision table of a function over the marker flags
static void flagTable(Function *F, std::function<bool(const CallBase*)> isFin, std::function<bool(const CallBase*)> isFree, bool freedMatters, bool pendingOnly)
{
	for(int m = 0; m < 16; m++)
	{
		if(!freedMatters && (m & 2)) continue;
		Spec S; S.allLong = true; S.longValue = m | (7 << 8);
		S.nonNull = false;
		Function *C = specialise(F, S);
		R.stat("flag_cases");
		bool fin = false, fr = false;
		for(auto &I : instructions(C)) if(auto *CB = dyn_cast<CallBase>(&I)) { if(isFin(CB)) fin = true; if(isFree(CB)) fr = true; }
		bool live = (m & 1) || (m & 2);
		bool needFin = !pendingOnly && !live && (m & 4) && !(m & 8), needFree = !live && (pendingOnly || !needFin);
		std::string st = std::string(m & 1 ? "reachable" : "unreachable") + (m & 2 ? ", already free" : "") + (m & 4 ? ", finalizable" : "") + (m & 8 ? ", finalized" : "");
		if(fin && !needFin) R.addAt("FLAG-TABLE", fileOf(F), lineOf(F), sname(F), "schedules a finalizer for an object that is " + st, "finalizer for " + st);
		if(!fin && needFin) R.addAt("FLAG-TABLE", fileOf(F), lineOf(F), sname(F), "does not schedule the finalizer of an object that is " + st, "no finalizer for " + st);
		if(fr && !needFree) R.addAt("FLAG-TABLE", fileOf(F), lineOf(F), sname(F), "releases an object that is " + st, "release of " + st);
		if(!fr && needFree) R.addAt("FLAG-TABLE", fileOf(F), lineOf(F), sname(F), "never releases an object that is " + st, "no release of " + st);
		C->eraseFromParent();
	}
}
static std::map<std::string, const GlobalVariable*> findPools(Function *alloc, const GlobalVariable **tree)
{
	std::map<std::string, const GlobalVariable*> r;
	for(auto *CB : callsIn(alloc, [](Function *C, CallBase *) { return isPoolFn(C) && methodOf(C) == "Alloc"; })) if(auto *G = globalArg(CB)) r[gname(G)] = G;
	*tree = nullptr;
	for(auto *CB : callsIn(alloc, [](Function *C, CallBase *) { return isTreeFn(C) && methodOf(C) == "insert"; })) *tree = globalArg(CB);
	return r;
}
static InlinePolicy phasePolicy()
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { return inRepo(C) && !isPoolFn(C) && !isTreeFn(C) && classOf(C) != "GC" && classOf(C).compare(0, 10, "FastVector") != 0 && fileOf(C) == "NULLC/StdLib.cpp" && methodOf(C).find("FinalizeObject") == std::string::npos && methodOf(C) != "CollectMemory" && methodOf(C).find("alignedDealloc") == std::string::npos && methodOf(C).find("alignedAlloc") == std::string::npos; };
	P.maxDepth = 4;
	return P;
}
// lists of pending work do not carry entries over to the next collection: emptied before new entries are added or after they are used
static InstrPred emptying(const std::string &list)
{
	return [list](const Instruction &I) {
		auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr;
		if(!C || classOf(C).compare(0, 10, "FastVector") != 0 || containerKey(CB) != list) return false;
		std::string m = methodOf(C);
		if(m == "clear" || m == "reset") return true;
		if(m == "shrink" || m == "resize") { auto *K = CB->arg_size() > 1 ? dyn_cast<ConstantInt>(CB->getArgOperand(1)) : nullptr; return K && K->isZero(); }
		return false;
	};
}
static void emptied(Function *F, InstrPred fill, InstrPred empty, const std::string &what)
{
	R.stat("list_obligations");
	for(auto &I : instructions(F))
		if(fill(I) && pathAvoiding(F, &I, empty) && pathAvoiding(F, nullptr, empty, [&](const Instruction &J) { return &J == &I; }))
			R.add("STALE-LIST", &I, sname(F), what + " are kept after a collection, the next one handles them again", what);
}
// a global variable that stops collections from starting when it has the value
struct Gate { GlobalVariable *G; uint64_t value; };
static std::vector<Gate> gatesOf(Function *collect)
{
	std::vector<Gate> r;
	std::set<GlobalVariable*> seen;
	for(auto &I : instructions(collect)) if(auto *L = dyn_cast<LoadInst>(&I)) if(auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts())) if(L->getType()->isIntegerTy()) seen.insert(G);
	for(auto *G : seen)
		for(uint64_t v : { 0, 1 })
		{
			Function *C = cloneFn(collect);
			for(auto &I : instructions(C)) if(auto *L = dyn_cast<LoadInst>(&I)) if(L->getPointerOperand()->stripPointerCasts() == G && L->getType()->isIntegerTy()) L->replaceAllUsesWith(ConstantInt::get(L->getType(), v));
			runPasses(C, "instsimplify,sccp,simplifycfg,instsimplify,sccp,simplifycfg");
			if(!reaches(C, callTo({ "nullcRunFunction" })) && !reaches(C, callTo({ "GC::MarkUsedBlocks" }))) r.push_back({ G, v });
			C->eraseFromParent();
		}
	return r;
}
// value a store leaves in the gate: 1 closed, 0 anything else
static int gateStore(const Instruction &I, const Gate &g)
{
	auto *S = dyn_cast<StoreInst>(&I);
	if(!S || S->getPointerOperand()->stripPointerCasts() != g.G) return -1;
	auto *K = dyn_cast<ConstantInt>(S->getValueOperand());
	return K && (g.value ? !K->isZero() : K->isZero()) ? 1 : 0;
}
static void gatedFinalizers(Function *F, const std::vector<Gate> &gates)
{
	for(auto &I : instructions(F))
	{
		if(!callTo({ "nullcRunFunction" })(I)) continue;
		R.stat("finalizer_runs");
		bool closed = false, reopened = false;
		for(auto &g : gates)
		{
			auto shut = [&](const Instruction &J) { return gateStore(J, g) == 1; };
			auto open = [&](const Instruction &J) { return gateStore(J, g) == 0; };
			bool ok = !pathAvoiding(F, nullptr, shut, [&](const Instruction &J) { return &J == &I; });
			for(auto &J : instructions(F)) if(ok && open(J) && pathAvoiding(F, &J, shut, [&](const Instruction &K) { return &K == &I; })) ok = false;
			if(!ok) continue;
			closed = true;
			if(!pathAvoiding(F, &I, open)) reopened = true;
		}
		if(!closed) R.add("NESTED-COLLECTION", &I, sname(F), "a collection can start while finalizers run, objects that wait for their finalizers are freed and finalizers run again", "nested");
		else if(!reopened) R.add("NESTED-COLLECTION", &I, sname(F), "collections stay disabled after finalizers have run", "reopen");
	}
}
RULE(gcphases)
{
	foldConstGlobals();
	for(Function *F : definedFns()) basicSimplify(F, false);
	Function *alloc = need("NULLC::AllocObject"), *collect = need("NULLC::CollectMemory"), *finalizeAll = need("NULLC::FinalizeMemory"), *clear = need("NULLC::ClearMemory");
	if(!alloc || !collect || !finalizeAll || !clear) return;
	InlinePolicy P = phasePolicy();
	Function *a2 = cloneFn(alloc);
	normalise(a2, &P);
	const GlobalVariable *tree;
	auto pools = findPools(a2, &tree);
	a2->eraseFromParent();
	if(pools.size() < 2 || !tree) { R.brk("object pools not recognised"); return; }
	R.stat("pools", pools.size());
	for(auto &p : pools) R.sample("pool " + p.first);
	auto ev = [&](const std::string &m, const GlobalVariable *G) -> InstrPred {
		return [=](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isPoolFn(C) && methodOf(C) == m && globalArg(CB) == G; };
	};
	Function *bigMark = nullptr, *bigCollect = nullptr;
	auto treeVisit = [&](Function *cb) -> InstrPred {
		return [=](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isTreeFn(C) && methodOf(C) == "for_each" && globalArg(CB) == tree && CB->arg_size() > 1 && CB->getArgOperand(1)->stripPointerCasts() == cb; };
	};
	auto ordered = [&](Function *F, const std::string &fn, InstrPred a, const std::string &an, InstrPred b, const std::string &bn) {
		R.stat("order_obligations");
		bool anyA = reaches(F, a), anyB = reaches(F, b);
		if(!anyA) { R.addAt("PHASE-MISSING", fileOf(F), lineOf(F), fn, "the step \"" + an + "\" is missing", an); return; }
		if(!anyB) { R.addAt("PHASE-MISSING", fileOf(F), lineOf(F), fn, "the step \"" + bn + "\" is missing", bn); return; }
		if(const Instruction *w = pathAvoiding(F, nullptr, a, b)) R.add("PHASE-ORDER", w, fn, "\"" + bn + "\" can run before \"" + an + "\"", an + " before " + bn);
		for(auto &I : instructions(F)) if(a(I)) if(const Instruction *w = pathAvoiding(F, &I, b)) R.add("PHASE-ORDER", &I, fn, "after \"" + an + "\" the function can return without \"" + bn + "\"", an + " then " + bn);
	};
	// keep originals of the functions with the large object callbacks
	normalise(collect, &P);
	for(auto *CB : callsIn(collect, [&](Function *C, CallBase *X) { return isTreeFn(C) && methodOf(C) == "for_each" && globalArg(X) == tree; }))
		if(auto *cb = dyn_cast<Function>(CB->getArgOperand(1)->stripPointerCasts()))
		{
			// the callback that stores is the marker, the one that queues is the collector
			if(!callsIn(cb, [](Function *C, CallBase *) { return isPush(C); }).empty()) bigCollect = cb; else bigMark = cb;
		}
	if(!bigMark || !bigCollect) R.addAt("PHASE-MISSING", fileOf(collect), lineOf(collect), sname(collect), "large objects are not unmarked or not collected", "large objects");
	auto roots = callTo({ "GC::MarkUsedBlocks" }), pend = callTo({ "GC::MarkPendingRoots" });
	for(auto &p : pools)
	{
		auto mk = ev("Mark", p.second), co = ev("CollectUnmarked", p.second), fi = ev("FinalizePending", p.second), fr = ev("FreePending", p.second);
		std::string n = p.first;
		ordered(collect, sname(collect), mk, n + " unmark", roots, "mark reachable objects");
		ordered(collect, sname(collect), roots, "mark reachable objects", co, n + " collect unreachable");
		ordered(collect, sname(collect), co, n + " collect unreachable", fi, n + " finalize");
		ordered(collect, sname(collect), fi, n + " finalize", pend, "mark objects kept by finalizers");
		ordered(collect, sname(collect), pend, "mark objects kept by finalizers", fr, n + " free");
		for(auto *CB : callsIn(collect, [&](Function *C, CallBase *X) { return isPoolFn(C) && methodOf(C) == "Mark" && globalArg(X) == p.second; }))
			if(auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(1))) { if(!K->isZero()) R.add("PHASE-ORDER", CB, sname(collect), "objects are not unmarked before marking", n + " mark value"); }
	}
	if(bigMark && bigCollect)
	{
		ordered(collect, sname(collect), treeVisit(bigMark), "large object unmark", roots, "mark reachable objects");
		ordered(collect, sname(collect), roots, "mark reachable objects", treeVisit(bigCollect), "large object collect unreachable");
	}
	normalise(finalizeAll, &P);
	for(auto &p : pools)
	{
		ordered(finalizeAll, sname(finalizeAll), ev("Mark", p.second), p.first + " unmark", ev("CollectUnmarked", p.second), p.first + " collect unreachable");
		ordered(finalizeAll, sname(finalizeAll), ev("CollectUnmarked", p.second), p.first + " collect unreachable", ev("FinalizePending", p.second), p.first + " finalize");
	}
	if(bigMark && bigCollect) ordered(finalizeAll, sname(finalizeAll), treeVisit(bigMark), "large object unmark", treeVisit(bigCollect), "large object collect unreachable");
	// the finalizers are run
	for(Function *F : { collect, finalizeAll })
	{
		auto run = callTo({ "nullcRunFunction" });
		for(auto &I : instructions(F))
			if(callTo({ "GC::MarkPendingRoots" })(I) && pathAvoiding(F, &I, run)) R.add("PHASE-MISSING", &I, sname(F), "scheduled finalizers are not run", "run finalizers");
	}
	{
		auto gates = gatesOf(collect);
		for(auto &g : gates) R.sample("collections do not start when " + gname(g.G) + " is " + std::to_string(g.value));
		for(Function *F : { collect, finalizeAll }) gatedFinalizers(F, gates);
	}
	if(Function *fo = findFn("NULLC::FinalizeObject"))
	{
		std::set<std::string> queues;
		for(auto *CB : callsIn(fo, [](Function *C, CallBase *) { return isPush(C); })) if(containerKey(CB)[0] != '?' && containerKey(CB).compare(0, 3, "arg")) queues.insert(containerKey(CB));
		for(auto &q : queues) for(Function *F : { collect, finalizeAll }) emptied(F, callTo({ "nullcRunFunction" }), emptying(q), "objects whose finalizers have run");
	}
	// clearing
	normalise(clear, &P);
	for(auto &p : pools)
	{
		R.stat("order_obligations");
		if(pathAvoiding(clear, nullptr, ev("Reset", p.second))) R.addAt("PHASE-MISSING", fileOf(clear), lineOf(clear), sname(clear), p.first + " is not released", p.first + " reset");
	}
	{
		auto visit = [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isTreeFn(C) && methodOf(C) == "for_each" && globalArg(CB) == tree; };
		auto drop = [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isTreeFn(C) && (methodOf(C) == "clear" || methodOf(C) == "reset") && globalArg(CB) == tree; };
		ordered(clear, sname(clear), visit, "release of large objects", drop, "forgetting large objects");
		GlobalVariable *used = nullptr;
		for(auto &G : M->globals()) if(gname(&G) == "NULLC::usedMemory") used = &G;
		auto zero = [&](const Instruction &I) { auto *S = dyn_cast<StoreInst>(&I); return S && used && S->getPointerOperand() == used; };
		if(used && pathAvoiding(clear, nullptr, zero)) R.addAt("PHASE-MISSING", fileOf(clear), lineOf(clear), sname(clear), "the memory counter is not reset", "usedMemory");
	}
	// address lookup covers all pools
	for(const char *fn : { "NULLC::GetBasePointer", "NULLC::IsBasePointer" })
	{
		Function *F = findFn(fn);
		if(!F) continue;
		normalise(F, &P);
		std::string m = methodOf(F);
		auto obligation = [&](const std::string &what, InstrPred lookup) {
			R.stat("lookup_obligations");
			// a negative answer on a path that never asked this pool
			std::set<const BasicBlock*> skip; std::deque<const BasicBlock*> w; // blocks whose end is reachable without the lookup
			auto blockAsks = [&](const BasicBlock *B) { for(auto &I : *B) if(lookup(I)) return true; return false; };
			const BasicBlock *e = &F->getEntryBlock();
			if(!blockAsks(e)) { skip.insert(e); w.push_back(e); }
			while(!w.empty()) { auto *B = w.front(); w.pop_front(); for(auto *S : successors(B)) if(!skip.count(S) && !blockAsks(S)) { skip.insert(S); w.push_back(S); } }
			for(auto &B : *F)
				if(auto *Ret = dyn_cast<ReturnInst>(B.getTerminator()))
				{
					std::function<void(const Value*, const BasicBlock*, int)> walk = [&](const Value *v, const BasicBlock *from, int d) {
						if(d > 10) return;
						auto *Phi = dyn_cast<PHINode>(v);
						if(Phi) { for(unsigned i = 0; i < Phi->getNumIncomingValues(); i++) walk(Phi->getIncomingValue(i), Phi->getIncomingBlock(i), d + 1); return; }
						auto *K = dyn_cast<Constant>(v);
						if(K && K->isNullValue() && skip.count(from)) R.add("POOL-LOOKUP", from->getTerminator(), sname(F), "can answer \"no object\" without consulting " + what, "lookup " + what);
					};
					walk(Ret->getReturnValue(), &B, 0);
				}
		};
		for(auto &p : pools) obligation(p.first, ev(m, p.second));
		obligation("the large objects", [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isTreeFn(C) && methodOf(C) == "find" && globalArg(CB) == tree; });
	}
	// per pool: the state machine of a block
	std::set<std::string> classes;
	for(auto *F : definedFns()) if(isPoolFn(F)) classes.insert(classOf(F));
	InlinePolicy Q;
	Q.want = [P](Function *C, CallBase *X) { return inRepo(C) && (isPoolFn(C) ? methodOf(C) != "Free" : P.want(C, X)); };
	for(auto &c : classes)
	{
		Function *col = findFn(c + "::CollectUnmarked"), *fin = findFn(c + "::FinalizePending"), *fre = findFn(c + "::FreePending"), *mark = findFn(c + "::Mark");
		if(!col || !fin || !fre || !mark) { R.brk("pool methods of " + c + " not found"); continue; }
		for(Function *F : { col, fin, fre, mark }) normalise(F, &Q);
		auto finList = consumed(fin), freList = consumed(fre);
		if(finList.size() != 1 || freList.size() != 1) { R.brk("pending lists of " + c + " not recognised"); continue; }
		std::string fl = *finList.begin(), rl = *freList.begin();
		for(auto &list : { fl, rl })
		{
			std::string what = list == fl ? "objects to finalize" : "objects to free";
			auto push = [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isPush(C) && containerKey(CB) == list; };
			bool before = true;
			for(auto &I : instructions(col)) if(push(I) && pathAvoiding(col, nullptr, emptying(list), [&](const Instruction &J) { return &J == &I; })) before = false;
			if(before) { R.stat("list_obligations"); continue; }
			// methods that always empty the list
			std::set<const Function*> empties;
			for(auto *X : definedFns()) if(isPoolFn(X) && classOf(X) == c) { Function *X2 = cloneFn(X); normalise(X2, &Q); if(X2->arg_size() && !pathAvoiding(X2, nullptr, emptying(list))) empties.insert(X); X2->eraseFromParent(); }
			for(auto &p : pools)
				for(Function *F : { collect, finalizeAll })
				{
					auto fill = ev("CollectUnmarked", p.second);
					bool mine = false;
					for(auto &I : instructions(F)) if(fill(I) && calleeOf(cast<CallBase>(&I)) == col) mine = true;
					if(mine) emptied(F, fill, [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && empties.count(C) && globalArg(CB) == p.second; }, p.first + " " + what);
				}
		}
		if(fl == rl) R.addAt("FLAG-TABLE", fileOf(fre), lineOf(fre), sname(fre), "objects waiting for a finalizer are freed", "same list");
		auto isFin = [&](const CallBase *CB) { Function *C = calleeOf(CB); return C && isPush(C) && containerKey(CB) == fl; };
		auto isFre = [&](const CallBase *CB) { Function *C = calleeOf(CB); return C && isPush(C) && containerKey(CB) == rl; };
		flagTable(col, isFin, isFre, true, false);
		flagTable(fre, [](const CallBase*) { return false; }, [&](const CallBase *CB) { Function *C = calleeOf(CB); return C && isPoolFn(C) && methodOf(C) == "Free"; }, true, true);
		checkWholeList(fin, fl, "objects to finalize");
		checkWholeList(fre, rl, "objects to free");
		auto mk = callTo({ "GC::CheckVariable", "GC::CheckArrayElements" });
		eachIteration(fin, fl, [](const Instruction &I) { return storesOr(I, 1); }, "an object is finalized without being kept alive for the finalizer");
		eachIteration(fin, fl, mk, "the contents of a finalized object are not kept alive");
		eachIteration(fin, fl, callTo({ "NULLC::FinalizeObject" }), "a finalizer is not scheduled");
		// scans visit every block of every page
		for(Function *F : { col, mark })
		{
			DominatorTree DT(*F); LoopInfo LI(DT);
			bool any = false;
			for(auto &I : instructions(F))
			{
				auto *L = dyn_cast<LoadInst>(&I);
				if(!L || !L->getType()->isIntegerTy(64)) continue;
				Counting k;
				if(!countingLoop(LI, L, k)) continue;
				any = true;
				R.stat("page_scans");
				// bound: all blocks of a full page, the used blocks of the active page
				int64_t full = -1; size_t comma = c.find(','); if(comma != std::string::npos) full = atoll(c.c_str() + comma + 1);
				bool okFull = false, okOther = true;
				std::function<void(const Value*, int)> leaf = [&](const Value *v, int d) {
					if(d > 6) return;
					if(auto *K = dyn_cast<ConstantInt>(v)) { if(K->getSExtValue() == full) okFull = true; else okOther = false; return; }
					if(auto *S = dyn_cast<SelectInst>(v)) { leaf(S->getTrueValue(), d + 1); leaf(S->getFalseValue(), d + 1); return; }
					if(auto *Ph = dyn_cast<PHINode>(v)) { for(auto &x : Ph->incoming_values()) leaf(x.get(), d + 1); return; }
					if(!isa<LoadInst>(v)) okOther = false;
				};
				leaf(k.bound, 0);
				if(k.start != 0 || k.slack || k.step != 1 || k.inclusive || !k.single || !okFull || !okOther)
					R.add("PAGE-SCAN", L, sname(F), "the scan does not visit every block of a page", "scan");
			}
			if(!any) R.stat("loops_of_other_form");
		}
		for(auto &I : instructions(mark))
			if(auto *S = dyn_cast<StoreInst>(&I))
				if(S->getValueOperand()->getType()->isIntegerTy(64))
				{
					// only the reachability flag may change
					Spec sp; sp.allLong = true; sp.longValue = 0xabcd0f; sp.args[1] = 0;
					Function *C = specialise(mark, sp);
					for(auto &J : instructions(C)) if(auto *S2 = dyn_cast<StoreInst>(&J)) if(auto *K = dyn_cast<ConstantInt>(S2->getValueOperand())) if(K->getBitWidth() == 64 && K->getZExtValue() != 0xabcd0e) R.add("FLAG-TABLE", S, sname(mark), "unmarking changes other object flags", "unmark");
					C->eraseFromParent();
					break;
				}
	}
	if(classes.size() != pools.size()) R.stat("unused_pool_classes", (long)classes.size() - (long)pools.size());
	// large objects
	if(bigMark && bigCollect)
	{
		Function *fin = findFn("NULLC::FinalizePending"), *fre = findFn("NULLC::FreePending");
		if(fin && fre)
		{
			for(Function *F : { fin, fre, bigCollect }) normalise(F, &P);
			auto fl = consumed(fin), rl = consumed(fre);
			if(fl.size() == 1 && rl.size() == 1)
			{
				std::string a = *fl.begin(), b = *rl.begin();
				flagTable(bigCollect, [&](const CallBase *CB) { Function *C = calleeOf(CB); return C && isPush(C) && containerKey(CB) == a; }, [&](const CallBase *CB) { Function *C = calleeOf(CB); return C && isPush(C) && containerKey(CB) == b; }, false, false);
				Function *f2 = cloneFn(fre);
				flagTable(f2, [](const CallBase*) { return false; }, [&](const CallBase *CB) { Function *C = calleeOf(CB); return C && methodOf(C) == "alignedDealloc"; }, true, true);
				// a released block also leaves the index and the counter
				for(auto *CB : callsIn(fre, [](Function *C, CallBase *) { return methodOf(C) == "alignedDealloc"; }))
				{
					DominatorTree DT(*fre); LoopInfo LI(DT);
					Loop *L = LI.getLoopFor(CB->getParent());
					auto erase = [&](const Instruction &I) { auto *X = dyn_cast<CallBase>(&I); Function *C = X ? calleeOf(X) : nullptr; return C && isTreeFn(C) && methodOf(C) == "erase" && globalArg(X) == tree; };
					auto end = [&](const Instruction &I) { return (L && &I == &L->getHeader()->front()) || isReturn(I); };
					R.stat("iteration_obligations");
					if(pathAvoiding(fre, CB, erase, end))
					{
						bool before = L && !pathAvoiding(fre, nullptr, [&](const Instruction &I) { return erase(I) && L->contains(I.getParent()); }, [&](const Instruction &I) { return &I == CB; });
						if(!before) R.add("FLAG-TABLE", CB, sname(fre), "a released large object stays in the index", "erase");
					}
				}
				for(Function *F : { collect, finalizeAll })
				{
					emptied(F, treeVisit(bigCollect), emptying(a), "large objects to finalize");
					emptied(F, treeVisit(bigCollect), emptying(b), "large objects to free");
				}
				checkWholeList(fin, a, "large objects to finalize");
				checkWholeList(fre, b, "large objects to free");
				eachIteration(fin, a, [](const Instruction &I) { return storesOr(I, 1); }, "a large object is finalized without being kept alive for the finalizer");
				eachIteration(fin, a, callTo({ "GC::CheckVariable", "GC::CheckArrayElements" }), "the contents of a finalized large object are not kept alive");
				eachIteration(fin, a, callTo({ "NULLC::FinalizeObject" }), "a finalizer of a large object is not scheduled");
			}
			else R.stat("loops_of_other_form");
		}
	}
	if(Function *F = findFn("NULLC::FinalizeObject"))
	{
		if(pathAvoiding(F, nullptr, [](const Instruction &I) { return storesOr(I, 8); })) R.addAt("FINALIZE-STEP", fileOf(F), lineOf(F), sname(F), "an object can be finalized twice", "finalized flag");
		Spec S; S.masks = true; S.maskValue = 0;
		mustCall(F, S, {}, "a finalizer is not queued", [](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return C && isPush(C); });
	}
}
RULE(gcmark)
{
	foldConstGlobals();
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 40 && classOf(C) != "GC" && !isPush(C) && methodOf(C) != "GetBasePointer" && methodOf(C).find("GetStack") == std::string::npos && methodOf(C).find("GetCallStack") == std::string::npos && sname(C) != "nullcGetCurrentExecutor"; };
	for(Function *F : definedFns()) basicSimplify(F, false);
	Function *cv = need("GC::CheckVariable"), *cae = need("GC::CheckArrayElements"), *ca = need("GC::CheckArray"), *cc = need("GC::CheckClass"), *cf = need("GC::CheckFunction"), *cp = need("GC::CheckPointer"), *cb = need("GC::CheckBasePointer"), *mu = need("GC::MarkUsedBlocks");
	if(!cv || !cae || !ca || !cc || !cf || !cp || !cb || !mu) return;
	std::vector<Function*> all = { cv, cae, ca, cc, cf, cp, cb, mu };
	std::set<Function*> named(all.begin(), all.end());
	auto old = P.want;
	P.want = [&](Function *C, CallBase *X) { return old(C, X) || (!named.count(C) && methodOf(C) != "PrintMarker" && methodOf(C) != "MarkPendingRoots" && fileOf(C) == fileOf(cv) && methodOf(C).find("GetStack") == std::string::npos && sname(C) != "nullcGetCurrentExecutor"); };
	for(Function *F : all) normalise(F, &P);
	auto cats = enumOf("SubCategory");
	if(cats.size() < 4) { R.brk("enum SubCategory not found"); return; }
	std::map<std::string, std::string> handler = { { "CAT_ARRAY", "GC::CheckArray" }, { "CAT_POINTER", "GC::CheckPointer" }, { "CAT_FUNCTION", "GC::CheckFunction" }, { "CAT_CLASS", "GC::CheckClass" } };
	int64_t catClass = -1, catPointer = -1;
	for(auto &c : cats)
	{
		if(c.first == "CAT_CLASS") catClass = c.second;
		if(c.first == "CAT_POINTER") catPointer = c.second;
		if(c.first == "CAT_NONE") continue;
		std::set<std::string> h = { "GC::CheckArray", "GC::CheckArrayElements", "GC::CheckPointer", "GC::CheckFunction", "GC::CheckClass", "GC::CheckVariable" };
		if(handler.count(c.first)) h = { handler[c.first] };
		for(int flags : { 0, 4 })
		{
			Spec S; S.field("ExternTypeInfo", "subCat", c.second); S.field("ExternTypeInfo", "pointerCount", 1); S.field("ExternTypeInfo", "typeFlags", flags);
			mustCall(cv, S, h, "a variable of category " + c.first + " is not traced");
		}
		Spec S; S.field("ExternTypeInfo", "subCat", c.second); S.field("ExternTypeInfo", "pointerCount", 1);
		// second argument: element count
		S.args[1] = 1;
		mustCall(cae, S, h, "array elements of category " + c.first + " are not traced");
	}
	// an extendable class is traced according to its run time type
	{
		Spec S; S.field("ExternTypeInfo", "subCat", catClass); S.field("ExternTypeInfo", "pointerCount", 1); S.field("ExternTypeInfo", "typeFlags", 4);
		Spec T; T.field("ExternTypeInfo", "pointerCount", 0);
		S.argFields = T.fields;
		mustCall(cv, S, {}, "the members added by a derived class are not traced", [](const Instruction &I) {
			auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr;
			return C && sname(C) == "GC::CheckClass" && CB->arg_size() > 1 && !isa<Argument>(CB->getArgOperand(1));
		});
	}
	// all elements of an array are visited
	{
		DominatorTree DT(*cae); LoopInfo LI(DT);
		for(auto *CB : callsIn(cae, [](Function *C, CallBase *) { return classOf(C) == "GC"; }))
		{
			Counting c;
			if(!countingLoop(LI, CB, c)) { R.stat("loops_of_other_form"); continue; }
			R.stat("element_loops");
			if(c.start != 0 || c.slack || c.step != 1 || c.inclusive || !c.single || c.bound != cae->getArg(1)) R.add("ELEMENT-LOOP", CB, sname(cae), "not every array element is traced", "elements " + sname(calleeOf(CB)));
			// the element address advances by the element size
			const Value *p = CB->getArgOperand(0);
			bool adv = false;
			if(auto *Ph = dyn_cast<PHINode>(p))
				for(auto &in : Ph->incoming_values())
					if(auto *G = dyn_cast<GEPOperator>(in.get())) if(G->getPointerOperand() == Ph && !G->hasAllConstantIndices()) adv = true;
			if(auto *G = dyn_cast<GEPOperator>(p)) if(!G->hasAllConstantIndices()) adv = true;
			if(!adv) R.add("ELEMENT-LOOP", CB, sname(cae), "the element address does not advance", "advance " + sname(calleeOf(CB)));
		}
	}
	{
		Spec S; S.field("ExternTypeInfo", "arrSize", 0xffffffffu); S.nonNull = true;
		mustCall(ca, S, { "GC::CheckPointer" }, "the data pointer of an unsized array is not traced");
		Spec T; T.field("ExternTypeInfo", "arrSize", 4);
		mustCall(ca, T, { "GC::CheckArrayElements" }, "the elements of a sized array are not traced");
	}
	{
		Spec S; S.nonNull = true; S.field("ExternTypeInfo", "pointerCount", 1);
		mustCall(cc, S, { "GC::CheckPointer", "GC::CheckVariable" }, "a class, auto ref or auto[] value is not traced");
		// members: every pointer member
		DominatorTree DT(*cc); LoopInfo LI(DT);
		for(auto *CB : callsIn(cc, [](Function *C, CallBase *) { return sname(C) == "GC::CheckVariable"; }))
		{
			Counting c;
			if(!countingLoop(LI, CB, c)) { R.stat("loops_of_other_form"); continue; }
			R.stat("element_loops");
			if(c.start != 0 || c.slack || c.step != 1 || c.inclusive || !c.single) R.add("ELEMENT-LOOP", CB, sname(cc), "not every pointer member of a class is traced", "members");
		}
	}
	{
		Spec S; S.nonNull = true; S.field("ExternFuncInfo", "regVmAddress", 5); S.field("ExternFuncInfo", "contextType", 3);
		mustCall(cf, S, { "GC::CheckPointer" }, "the context of a function value is not traced");
	}
	for(int arr : { 0, 16 })
	{
		Spec S; S.field("ExternTypeInfo", "subCat", catClass); S.masks = true; S.maskValue = arr; S.field("ExternTypeInfo", "defaultAlign", 4);
		mustCall(cb, S, { arr ? "GC::CheckArrayElements" : "GC::CheckVariable" }, arr ? "the elements of a heap array are not traced" : "the contents of a heap object are not traced");
	}
	// a reachable unmarked object is marked and queued
	{
		Spec S; S.nonNull = true; S.masks = true; S.maskValue = 0; S.field("ExternTypeInfo", "subCat", catPointer);
		Function *F = specialise(cp, S);
		R.stat("specialised_cases");
		auto base = callTo({ "NULLC::GetBasePointer" });
		bool any = false;
		for(auto &I : instructions(F))
			if(base(I))
			{
				any = true;
				if(pathAvoiding(F, &I, [](const Instruction &J) { return storesOr(J, 1); })) R.addAt("MARK-DISPATCH", fileOf(cp), lineOf(&I), sname(cp), "a reachable object is not marked", "mark");
				if(pathAvoiding(F, &I, [](const Instruction &J) { auto *CB = dyn_cast<CallBase>(&J); Function *C = CB ? calleeOf(CB) : nullptr; return C && (isPush(C) || sname(C) == "GC::CheckBasePointer"); })) R.addAt("MARK-DISPATCH", fileOf(cp), lineOf(&I), sname(cp), "the contents of a reachable object are not traced", "queue");
			}
		if(!any) R.addAt("MARK-DISPATCH", fileOf(cp), lineOf(cp), sname(cp), "pointer targets are not looked up", "lookup");
		F->eraseFromParent();
	}
	// roots, per execution engine
	for(auto &ex : std::vector<std::pair<int, std::string>>{ { 0, "ExecutorRegVm" }, { 1, "ExecutorX86" } })
	{
		bool built = false;
		for(auto *F : definedFns()) if(classOf(F) == ex.second) built = true;
		if(!built) continue;
		Spec S; S.calls["nullcGetCurrentExecutor"] = ex.first; S.field("ExternFuncInfo", "contextType", 3); S.masks = true; S.maskValue = 0; S.field("ExternFuncInfo", "localCount", 1);
		// masks apply to object flags only; keep the alignment arithmetic out of the way
		Function *F = specialise(mu, S);
		R.stat("root_scans");
		std::string fn = sname(mu);
		auto frame = callTo({ ex.second + "::GetCallStackAddress" }), st = callTo({ ex.second + "::GetStackStart" }), en = callTo({ ex.second + "::GetStackEnd" }), var = callTo({ "GC::CheckVariable" }), ptr = callTo({ "GC::CheckPointer" }), look = callTo({ "NULLC::GetBasePointer" });
		auto missing = [&](const std::string &w, const std::string &k) { R.addAt("ROOTS", fileOf(mu), lineOf(mu), fn, w + " (" + ex.second + ")", k + " " + ex.second); };
		if(pathAvoiding(F, nullptr, frame)) missing("the call stack is not walked", "frames");
		if(pathAvoiding(F, nullptr, st) || pathAvoiding(F, nullptr, en)) missing("the registers and temporaries of running calls are not scanned", "registers");
		// globals: a variable check happens before the first frame
		bool globals = false, locals = false;
		DominatorTree DT(*F); LoopInfo LI(DT);
		Loop *frameLoop = nullptr;
		const Instruction *frameCall = nullptr;
		for(auto &I : instructions(F)) if(frame(I)) { frameLoop = LI.getLoopFor(I.getParent()); frameCall = &I; }
		for(auto &I : instructions(F))
			if(var(I))
			{
				if(frameLoop && frameLoop->contains(I.getParent()))
				{
					locals = true;
					if(pathAvoiding(F, &I, ptr, [&](const Instruction &J) { return frame(J) || isReturn(J); })) missing("the closure context of a running function is not traced", "context");
				}
				else if(frameCall && !pathAvoiding(F, nullptr, [&](const Instruction &J) { return &J == frameCall; }, [&](const Instruction &J) { return &J == &I; })) { }
				else { globals = true; }
				Counting c;
				Loop *L = LI.getLoopFor(I.getParent());
				if(L && L != frameLoop && countingLoop(LI, &I, c) && (c.start != 0 || c.slack || c.step != 1 || c.inclusive)) R.add("ROOTS", &I, fn, "not every variable is visited", "variable loop");
			}
		if(!globals) missing("global variables are not traced", "globals");
		if(!locals) missing("local variables of running functions are not traced", "locals");
		bool scan = false;
		for(auto &I : instructions(F)) if(look(I) && LI.getLoopFor(I.getParent())) scan = true;
		if(!scan) missing("the registers and temporaries of running calls are not scanned", "scan");
		if(pathAvoiding(F, nullptr, callTo({ "GC::MarkPendingRoots" }))) missing("objects found through roots are not traced", "pending");
		F->eraseFromParent();
	}
	// the work list is drained completely
	if(Function *mp = need("GC::MarkPendingRoots"))
	{
		normalise(mp, &P);
		DominatorTree DT(*mp); LoopInfo LI(DT);
		auto cs = callsIn(mp, [](Function *C, CallBase *) { return sname(C) == "GC::CheckBasePointer"; });
		if(cs.empty()) R.addAt("ROOTS", fileOf(mp), lineOf(mp), sname(mp), "queued objects are not traced", "queue");
		for(auto *CB : cs)
		{
			Loop *L = LI.getLoopFor(CB->getParent());
			if(!L || !L->getParentLoop()) R.add("ROOTS", CB, sname(mp), "objects queued while tracing are not traced", "drain");
		}
	}
}
// ---- C26
static bool linearOf(Exprs &E, int n, int &base, int64_t &c)
{
	c = 0;
	for(int i = 0; i < 12; i++)
	{
		auto &nd = E.nodes[n];
		if(nd.k == Node::Zext || nd.k == Node::Sext || nd.k == Node::Trunc) n = nd.ops[0];
		else if(nd.k == Node::Off) { c += nd.c; n = nd.ops[0]; }
		else if(nd.k == Node::Bin && nd.c == Instruction::Sub && E.nodes[nd.ops[1]].k == Node::Const) { c -= E.nodes[nd.ops[1]].c; n = nd.ops[0]; }
		else break;
	}
	base = n;
	return true;
}
RULE(heapalloc)
{
	foldConstGlobals();
	for(Function *F : definedFns()) basicSimplify(F, false);
	Function *F = need("NULLC::AllocObject");
	if(!F) return;
	InlinePolicy P = phasePolicy();
	normalise(F, &P);
	std::string fn = sname(F);
	const GlobalVariable *used = nullptr, *limit = nullptr, *tree;
	for(auto &G : M->globals()) { if(gname(&G) == "NULLC::usedMemory") used = &G; if(gname(&G) == "NULLC::globalMemoryLimit") limit = &G; }
	if(!used || !limit) { R.brk("memory counters not found"); return; }
	FactFlow FF(*F);
	FF.run();
	Exprs &E = FF.E;
	// block sources
	struct Src { const CallBase *CB; int64_t elem; };
	std::vector<Src> src;
	for(auto &I : instructions(F))
		if(auto *CB = dyn_cast<CallBase>(&I))
		{
			Function *C = calleeOf(CB);
			if(!C) continue;
			if(isPoolFn(C) && methodOf(C) == "Alloc") { std::string c = classOf(C); src.push_back({ CB, atoll(c.c_str() + c.find('<') + 1) }); }
			else if(methodOf(C) == "alignedAlloc" || methodOf(C) == "alloc") src.push_back({ CB, 0 });
		}
	if(src.size() < 2) { R.brk("no block sources in AllocObject"); return; }
	// the clearing of the block tells the size that is needed
	const CallBase *clear = nullptr;
	for(auto &I : instructions(F)) if(auto *MS = dyn_cast<MemSetInst>(&I)) clear = MS;
	if(!clear) { R.addAt("NOT-ZEROED", fileOf(F), lineOf(F), fn, "new objects are not cleared", "memset"); return; }
	auto *MS = cast<MemSetInst>(clear);
	if(auto *K = dyn_cast<ConstantInt>(MS->getValue())) if(!K->isZero()) R.add("NOT-ZEROED", MS, fn, "new objects are not cleared to zero", "value");
	int needBase; int64_t needC;
	linearOf(E, E.of(MS->getLength()), needBase, needC);
	int sizeArg = E.of(F->getArg(0));
	int64_t ptrSize = 8;
	if(needBase != sizeArg || needC < ptrSize) R.add("NOT-ZEROED", MS, fn, "not the whole object and its marker are cleared", "length");
	int total = -1; // node of the 32 bit block size
	{
		const Value *v = MS->getLength();
		while(auto *C = dyn_cast<CastInst>(v)) { if(isa<TruncInst>(C)) break; v = C->getOperand(0); }
		total = E.of(v);
	}
	// every returned object was cleared
	const Value *data = MS->getRawDest();
	for(auto &B : *F)
		if(auto *Ret = dyn_cast<ReturnInst>(B.getTerminator()))
		{
			std::function<void(const Value*, const BasicBlock*, int)> walk = [&](const Value *v, const BasicBlock *from, int d) {
				if(d > 10) return;
				if(auto *Phi = dyn_cast<PHINode>(v)) { if(Phi != data) { for(unsigned i = 0; i < Phi->getNumIncomingValues(); i++) walk(Phi->getIncomingValue(i), Phi->getIncomingBlock(i), d + 1); return; } }
				if(isa<ConstantPointerNull>(v)) return;
				R.stat("returned_objects");
				int n = E.of(v), dn = E.of(data); int64_t off = 0;
				if(E.nodes[n].k == Node::Off) { off = E.nodes[n].c; n = E.nodes[n].ops[0]; }
				if(n != dn || off != needC) R.add("NOT-ZEROED", from->getTerminator(), fn, "the returned address is not the start of the cleared object", "return");
				const Instruction *t = from->getTerminator();
				if(pathAvoiding(F, nullptr, [&](const Instruction &I) { return &I == MS; }, [&](const Instruction &I) { return &I == t; })) R.add("NOT-ZEROED", t, fn, "an object can be returned without being cleared", "path");
				// marker written after clearing
				if(pathAvoiding(F, MS, [&](const Instruction &I) { auto *S = dyn_cast<StoreInst>(&I); return S && E.of(S->getPointerOperand()) == dn; }, [&](const Instruction &I) { return &I == t; })) R.add("MARKER", t, fn, "an object can be returned without its type marker", "marker");
			};
			walk(Ret->getReturnValue(), &B, 0);
		}
	// the marker carries the type and the finalizer flag
	for(auto &I : instructions(F))
		if(auto *S = dyn_cast<StoreInst>(&I))
			if(E.of(S->getPointerOperand()) == E.of(data) && S->getValueOperand()->getType()->isIntegerTy(64))
			{
				R.stat("marker_stores");
				int v = E.of(S->getValueOperand());
				if(!E.contains(v, E.of(F->getArg(1)))) R.add("MARKER", S, fn, "the marker of a new object does not hold its type", "type");
			}
	FF.visit([&](const Instruction &I, const FactSet &s) {
		for(auto &x : src)
		{
			if(&I != x.CB) continue;
			R.stat("block_sources");
			R.sample(locOf(&I) + " " + sname(calleeOf(x.CB)));
			// within the limit
			bool lim = false;
			int ul = E.loadOf(E.of(used)), ll = E.loadOf(E.of(limit));
			for(auto &f : s)
			{
				if(f.k != F_ULE && f.k != F_ULT) continue;
				if(E.strip(f.b) != ll) continue;
				if(E.contains(f.a, ul) && E.contains(f.a, sizeArg)) lim = true;
			}
			if(!lim) R.add("LIMIT", &I, fn, "a block can be taken without the memory limit being checked", "limit " + std::to_string(x.elem));
			// no overflow of the block size
			bool pos = false, bound = false;
			for(auto &f : s)
			{
				if((f.k == F_SLE || f.k == F_SLT) && f.b == sizeArg && E.nodes[f.a].k == Node::Const && E.nodes[f.a].c + (f.k == F_SLT) >= 0) pos = true;
				if((f.k == F_SLE || f.k == F_SLT) && f.a == sizeArg && E.nodes[f.b].k == Node::Const && E.nodes[f.b].c - (f.k == F_SLT) + 32 <= 0x7fffffff) bound = true;
			}
			if(!pos || !bound) R.add("SIZE-OVERFLOW", &I, fn, "the block size can overflow or be negative", "overflow " + std::to_string(x.elem));
			if(x.elem)
			{
				int c = E.cst(x.elem);
				bool fits = FF.sltNodes(s, total, c, true) || FF.ultNodes(s, total, c, true);
				for(auto &f : s) // any comparison of the same linear value
				{
					if(f.k != F_SLE && f.k != F_SLT && f.k != F_ULE && f.k != F_ULT) continue;
					if(E.nodes[f.b].k != Node::Const) continue;
					int b; int64_t k;
					linearOf(E, f.a, b, k);
					int64_t strict = f.k == F_SLT || f.k == F_ULT;
					if(b == sizeArg && E.nodes[f.b].c - strict - k + needC <= x.elem) fits = true;
				}
				if(!fits) R.add("BLOCK-SIZE", &I, fn, "an object can be larger than the " + std::to_string(x.elem) + " byte block it is placed in", "pool " + std::to_string(x.elem));
			}
			else
			{
				int64_t sum = 0; bool based = false;
				for(auto &a : x.CB->args())
				{
					int b; int64_t k;
					linearOf(E, E.of(a.get()), b, k);
					if(b == sizeArg) { based = true; sum += k; }
					else if(E.nodes[b].k == Node::Const) sum += k + E.nodes[b].c;
				}
				// where in the block the object starts
				int64_t off = 0;
				std::function<void(const Value*, int)> leaf = [&](const Value *v, int d) {
					if(d > 8) return;
					if(auto *Ph = dyn_cast<PHINode>(v)) { for(auto &y : Ph->incoming_values()) leaf(y.get(), d + 1); return; }
					int n = E.of(v); int64_t o = 0;
					if(E.nodes[n].k == Node::Off) { o = E.nodes[n].c; n = E.nodes[n].ops[0]; }
					if(n == E.of(x.CB)) off = std::max(off, o);
				};
				leaf(data, 0);
				if(!based || sum < needC + off) R.add("BLOCK-SIZE", &I, fn, "a large object can be larger than the memory requested for it", "large");
				// registered for the collector
				auto ins = [&](const Instruction &J) { auto *X = dyn_cast<CallBase>(&J); Function *C = X ? calleeOf(X) : nullptr; return C && isTreeFn(C) && methodOf(C) == "insert"; };
				if(pathAvoiding(F, x.CB, ins, [&](const Instruction &J) { return &J == MS; })) R.add("ACCOUNT", &I, fn, "a large object is not registered with the collector", "register");
			}
		}
	});
	// accounting: what is added for a block is what is subtracted when it is released
	{
		DominatorTree DTA(*F);
		for(auto &I : instructions(F))
		{
			auto *S = dyn_cast<StoreInst>(&I);
			if(!S || S->getPointerOperand() != used) continue;
			const Value *v = S->getValueOperand();
			auto *B = dyn_cast<BinaryOperator>(v);
			if(!B || B->getOpcode() != Instruction::Add) continue;
			const Value *amount = isa<LoadInst>(B->getOperand(0)) ? B->getOperand(1) : B->getOperand(0);
			auto *ap = dyn_cast<PHINode>(amount);
			std::function<void(const Value*, const BasicBlock*, int)> walk = [&](const Value *a, const BasicBlock *from, int d) {
				if(d > 8) return;
				if(auto *Ph = dyn_cast<PHINode>(a)) { for(unsigned i = 0; i < Ph->getNumIncomingValues(); i++) walk(Ph->getIncomingValue(i), Ph->getIncomingBlock(i), d + 1); return; }
				auto *K = dyn_cast<ConstantInt>(a);
				for(auto &x : src)
				{
					if(!x.elem)
					{
						// a large block is counted by the size remembered at its start
						if(!from || !DTA.dominates(x.CB->getParent(), from)) continue;
						R.stat("accounted_sources");
						bool kept = false, other = false;
						for(auto &J : instructions(F))
							if(auto *H = dyn_cast<StoreInst>(&J))
								if(E.of(H->getPointerOperand()) == E.of(x.CB)) (E.strip(E.of(H->getValueOperand())) == E.strip(E.of(a)) ? kept : other) = true;
						if(!kept || other) R.add("ACCOUNT", x.CB, fn, "the size remembered for a large block is not the size that is counted", "account large");
						continue;
					}
					// the incoming edge comes from the block that took this pool's block
					if(from != x.CB->getParent()) continue;
					R.stat("accounted_sources");
					if(!K || K->getSExtValue() != x.elem) R.add("ACCOUNT", x.CB, fn, "the memory counter does not grow by the size of the block", "account " + std::to_string(x.elem));
				}
			};
			if(ap) walk(ap, nullptr, 0);
			if(pathAvoiding(F, nullptr, [&](const Instruction &J) { auto *S2 = dyn_cast<StoreInst>(&J); return S2 && S2->getPointerOperand() == used; }, [&](const Instruction &J) { return &J == MS; })) R.add("ACCOUNT", S, fn, "an object can be allocated without being counted", "count");
		}
		bool counted = false;
		for(auto &I : instructions(F)) if(auto *S = dyn_cast<StoreInst>(&I)) if(S->getPointerOperand() == used) counted = true;
		if(!counted) R.addAt("ACCOUNT", fileOf(F), lineOf(F), fn, "allocated memory is not counted", "count");
	}
	// a released large block is subtracted by the size remembered at its start
	for(Function *X : { findFn("NULLC::FreePending"), findFn("NULLC::ClearMemory") })
	{
		if(!X) { R.brk("release function not found"); continue; }
		Function *X2 = cloneFn(X);
		normalise(X2, &P);
		Exprs EX; EX.DL = &M->getDataLayout();
		for(auto *CB : callsIn(X2, [](Function *C, CallBase *) { return methodOf(C) == "alignedDealloc" || methodOf(C) == "dealloc"; }))
		{
			if(!CB->arg_size()) continue;
			int blk = EX.of(CB->getArgOperand(0));
			bool any = false;
			for(auto &I : instructions(X2))
			{
				auto *S = dyn_cast<StoreInst>(&I);
				if(!S || S->getPointerOperand() != used) continue;
				auto *B = dyn_cast<BinaryOperator>(S->getValueOperand());
				if(!B || B->getOpcode() != Instruction::Sub) continue;
				any = true;
				R.stat("release_counters");
				const Value *am = B->getOperand(1);
				auto *L = dyn_cast<LoadInst>(am);
				if(!L || EX.of(L->getPointerOperand()) != blk) R.add("ACCOUNT", S, sname(X), "a released large block is not subtracted by its own size", "release large");
			}
			if(any && pathAvoiding(X2, nullptr, [&](const Instruction &J) { auto *S = dyn_cast<StoreInst>(&J); return S && S->getPointerOperand() == used; }, [&](const Instruction &J) { return &J == CB; })) any = false;
			if(!any && sname(X) == "NULLC::FreePending") R.add("ACCOUNT", CB, sname(X), "a large block is released without being subtracted from the memory counter", "release large");
		}
		X2->eraseFromParent();
	}
	for(Function *X : definedFns())
		if(isPoolFn(X) && methodOf(X) == "FreePending")
		{
			std::string c = classOf(X); int64_t elem = atoll(c.c_str() + c.find('<') + 1);
			bool ok = false;
			for(auto &I : instructions(X))
				if(auto *B = dyn_cast<BinaryOperator>(&I))
				{
					if(B->getOpcode() != Instruction::Sub) continue;
					for(const Value *o : { B->getOperand(1) })
					{
						if(auto *K = dyn_cast<ConstantInt>(o)) if(K->getSExtValue() == elem) ok = true;
						if(auto *Mu = dyn_cast<BinaryOperator>(o))
						{
							auto *K = dyn_cast<ConstantInt>(Mu->getOperand(1));
							if(K && ((Mu->getOpcode() == Instruction::Mul && K->getSExtValue() == elem) || (Mu->getOpcode() == Instruction::Shl && (1ll << K->getZExtValue()) == elem))) ok = true;
						}
					}
				}
			R.stat("release_counters");
			if(!ok) R.addAt("ACCOUNT", fileOf(X), lineOf(X), sname(X), "released blocks are not subtracted from the memory counter by their size", "release");
		}
	// arrays: the byte size is checked before it is computed in 32 bits
	if(Function *A = need("NULLC::AllocArray"))
	{
		normalise(A, nullptr);
		FactFlow FA(*A);
		FA.run();
		Exprs &EA = FA.E;
		FA.visit([&](const Instruction &I, const FactSet &s) {
			auto *CB = dyn_cast<CallBase>(&I);
			Function *C = CB ? calleeOf(CB) : nullptr;
			if(!C || C != F) return;
			R.stat("array_allocations");
			int sz = EA.of(A->getArg(A->arg_size() - 3)), cn = EA.of(A->getArg(A->arg_size() - 2));
			bool lim = false, over = false;
			for(auto &f : s)
			{
				if(f.k != F_ULE && f.k != F_ULT) continue;
				// 64 bit product of both
				auto &nd = EA.nodes[f.a];
				if(nd.k != Node::Bin || nd.c != Instruction::Mul) continue;
				if(!(EA.nodes[nd.ops[0]].k == Node::Zext && EA.nodes[nd.ops[1]].k == Node::Zext)) continue;
				if(!EA.contains(f.a, sz) || !EA.contains(f.a, cn)) continue;
				if(EA.contains(f.b, EA.loadOf(EA.of(limit)))) lim = true;
				if(EA.nodes[f.b].k == Node::Const && (uint64_t)EA.nodes[f.b].c <= 0x7fffffffu - 256) over = true;
			}
			if(!lim) R.add("LIMIT", &I, sname(A), "the array size is not checked against the memory limit in 64 bits", "array limit");
			if(!over) R.add("SIZE-OVERFLOW", &I, sname(A), "the byte size of an array can overflow", "array overflow");
		});
	}
}
