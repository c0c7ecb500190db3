// C26: a pool hands out every block once, inside of its pages, and takes it back
#include "eval.h"
#include "pools.h"
namespace
{
struct Pool
{
	std::map<std::string, Field> fs, vs;
	int64_t elem = 0, count = 0, page = 0, next = 0, size = 0;
	const uint64_t self = 0x1000000, arr = 0x2000000;
	bool init(const std::string &cls)
	{
		auto *PR = recordOf(cls);
		auto *LB = recordOf("LargeBlock<" + cls.substr(cls.find('<') + 1));
		if(!PR || !LB) return false;
		for(auto &f : fieldsOf(PR)) fs[f.name] = f;
		for(auto *T2 : allRecords()) if(T2->getName().starts_with("FastVector<")) { for(auto &f : fieldsOf(T2)) vs[f.name] = f; break; }
		for(auto *n : { "freeBlocks", "lastBlock", "activePages", "lastNum", "sortedPages" }) if(!fs.count(n)) return false;
		for(auto *n : { "data", "count", "max" }) if(!vs.count(n)) return false;
		elem = atoll(cls.c_str() + cls.find('<') + 1);
		size_t comma = cls.find(',');
		page = next = -1;
		for(auto &x : fieldsOf(LB)) { if(x.name == "page") { page = x.offset; count = x.size / elem; } if(x.name == "next") next = x.offset; }
		(void)comma;
		size = (int64_t)(LB->getSizeInBits() / 8);
		return page >= 0 && next >= 0 && count > 4;
	}
};
// what a pool knows of: blocks that can be handed out, pages
struct View { bool ok = false; std::set<uint64_t> freed; uint64_t active = 0; int64_t last = 0; std::vector<uint64_t> pages; };
View look(Eval &E, St &s, const Pool &P, int64_t mask)
{
	View v;
	auto ld = [&](uint64_t a, int size, uint64_t &x) { return T.isK(E.loadAt(s, T.K(a, 64), size), &x); };
	uint64_t x, last;
	if(!ld(P.self + P.fs.at("activePages").offset, 8, v.active) || !ld(P.self + P.fs.at("lastNum").offset, (int)P.fs.at("lastNum").size, last)) return v;
	v.last = (int64_t)last;
	if(!ld(P.self + P.fs.at("freeBlocks").offset, 8, x)) return v;
	const uint64_t end = P.self + P.fs.at("lastBlock").offset;
	for(int i = 0; x && x != end; i++)
	{
		if(i > 16 || !v.freed.insert(x).second) return v;
		if(!ld(x, 8, x)) return v;
		x &= ~(uint64_t)mask;
	}
	x = v.active;
	for(int i = 0; x; i++)
	{
		if(i > 16) return v;
		v.pages.push_back(x);
		if(!ld(x + P.next, 8, x)) return v;
	}
	v.ok = true;
	return v;
}
// marks and masks of the file
std::map<int, std::pair<int, int>> fileConstants(const std::string &file)
{
	std::map<int, std::pair<int, int>> mem;
	for(auto &G : M->globals())
	{
		if(!G.hasLocalLinkage() || !G.hasInitializer()) continue;
		auto *K = dyn_cast<ConstantInt>(G.getInitializer());
		if(!K) continue;
		bool stored = false;
		for(auto *U : G.users()) if(!isa<LoadInst>(U)) stored = true;
		if(!stored) mem[T.sym("glob:" + G.getName().str())] = { (int)K->getBitWidth() / 8, T.K(K->getZExtValue(), K->getBitWidth()) };
	}
	auto first = mem;
	for(auto &F : *M)
	{
		if(F.isDeclaration() || !F.getName().starts_with("__cxx_global_var_init") || fileOf(&F) != file) continue;
		if(instrCount(&F) > 40) continue;
		Eval E(&F);
		E.heapMode = true; E.loopsSummarised = false;
		for(auto &I : instructions(F)) if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = dyn_cast<GlobalVariable>(S->getPointerOperand())) privateSyms.insert(T.sym("glob:" + G->getName().str()));
		St s; s.bb = &F.getEntryBlock(); s.it = s.bb->begin(); s.mem = first;
		try { E.run(s); } catch(Undecided &) { continue; }
		if(E.done.size() == 1) for(auto &p : E.done[0].mem) if(!T.isK(p.first) && T.isK(p.second.second)) mem[p.first] = p.second;
	}
	return mem;
}
}
RULE(poolalloc)
{
	buildCallGraph();
	auto consts = fileConstants("NULLC/StdLib.cpp");
	int64_t freedFlag = -1, visible = -1;
	for(auto &c : consts) { uint64_t v; std::string n = T.str(c.first); if(!T.isK(c.second.second, &v)) continue; if(n.find("OBJECT_FREED") != std::string::npos) freedFlag = (int64_t)v; if(n.find("OBJECT_VISIBLE") != std::string::npos) visible = (int64_t)v; }
	if(freedFlag < 0 || visible < 0) { R.brk("flags of blocks not found"); return; }
	const int64_t mask = freedFlag | visible;
	for(Function *F : definedFns())
	{
		if(!isPoolFn(F) || (methodOf(F) != "Alloc" && methodOf(F) != "Free")) continue;
		Pool P;
		if(!P.init(classOf(F))) { R.brk("layout of " + classOf(F) + " not known"); continue; }
		const bool give = methodOf(F) == "Alloc";
		InlinePolicy Q;
		Q.want = [](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 60 && sname(C).find("::grow") == std::string::npos; };
		normalise(F, &Q);
		std::string bad;
		for(int n = 0; n < 4 && bad.empty(); n++)
			for(int64_t last : { (int64_t)0, (int64_t)1, P.count - 1, P.count })
				for(int k = 0; k < 4; k++)
				{
					if(!bad.empty()) break;
					if(!n && (last != P.count || k)) continue;
					if(!give && (!n || (n == 1 && !last))) continue;
					Eval E(F);
					E.heapMode = true; E.loopsSummarised = false;
					E.fixed[F->getArg(0)] = T.K(P.self, 64);
					St s; s.bb = &F->getEntryBlock(); s.it = s.bb->begin();
					s.mem = consts;
					auto put = [&](uint64_t at, int size, uint64_t v) { s.mem[T.K(at, 64)] = { size, T.K(v, size * 8) }; };
					std::vector<uint64_t> pages;
					for(int i = 0; i < n; i++) pages.push_back(0x10000000ull + i * 0x400000);
					for(int i = 0; i < n; i++)
					{
						put(pages[i] + P.next, 8, i + 1 < n ? pages[i + 1] : 0);
						put(P.arr + i * 8, 8, pages[i]);
					}
					put(P.self + P.fs["activePages"].offset, 8, n ? pages[0] : 0);
					put(P.self + P.fs["lastNum"].offset, (int)P.fs["lastNum"].size, last);
					uint64_t v = P.fs["sortedPages"].offset;
					put(P.self + v + P.vs["data"].offset, 8, P.arr);
					put(P.self + v + P.vs["count"].offset, (int)P.vs["count"].size, n);
					put(P.self + v + P.vs["max"].offset, (int)P.vs["max"].size, n + 4);
					// free blocks: of full pages, then of the used part of the first page
					std::vector<uint64_t> slots;
					for(int i = n - 1; i > 0; i--) { slots.push_back(pages[i] + P.page + P.elem * 3); slots.push_back(pages[i] + P.page); }
					if(n && last > 1) slots.push_back(pages[0] + P.page);
					if((int)slots.size() < k) continue;
					const uint64_t end = P.self + P.fs["lastBlock"].offset;
					put(P.self + P.fs["freeBlocks"].offset, 8, k ? slots[0] : end);
					for(int i = 0; i < k; i++) put(slots[i], 8, (i + 1 < k ? slots[i + 1] : end) | freedFlag);
					uint64_t given = 0;
					if(!give)
					{
						// a block in use
						if(k >= (int)slots.size()) { if(last < 2 || n == 0) continue; given = pages[0] + P.page + P.elem; }
						else given = slots[k];
						E.fixed[F->getArg(1)] = T.K(given, 64);
						put(given, 8, 0);
					}
					const uint64_t fresh = 0x30000000;
					uint64_t made = 0;
					E.onCall = [&](St &s, const CallBase *CB, std::vector<St> &) {
						Function *C = calleeOf(CB);
						if((!C && CB->getType()->isPointerTy()) || (C && sname(C) == "NULLC::alignedAlloc"))
						{
							s.env[CB] = T.K(fresh, 64); s.events.push_back({ "new", {}, CB });
							return true;
						}
						if(auto *MS = dyn_cast<MemSetInst>(CB)) { (void)MS; return true; }
						if(!CB->getType()->isVoidTy()) s.env[CB] = E.fresh(CB, tw(CB->getType()));
						return true;
					};
					View before = look(E, s, P, mask), after;
					uint64_t got = 0, marker = 0; int rets = 0; bool known = true;
					E.onRet = [&](St &t, const ReturnInst *RI) {
						rets++;
						after = look(E, t, P, mask);
						if(give && !(RI->getReturnValue() && T.isK(E.of(t, RI->getReturnValue()), &got))) known = false;
						if(!give && !T.isK(E.loadAt(t, T.K(given, 64), 8), &marker)) known = false;
						for(auto &e : t.events) if(e.name == "new") made++;
					};
					try { E.run(s); } catch(Undecided &u) { if(getenv("DBGS")) errs() << u.why << "\n"; known = false; }
					if(!known || rets != 1 || !before.ok) { if(getenv("DBGS")) errs() << known << rets << before.ok << "\n"; R.stat("cases_of_other_form"); continue; }
					R.stat(give ? "allocation_cases" : "release_cases");
					if(!after.ok) { bad = "the lists of a pool are damaged"; break; }
					// pages
					std::set<uint64_t> was(before.pages.begin(), before.pages.end()), is(after.pages.begin(), after.pages.end());
					uint64_t added = 0;
					for(auto x : is) if(!was.count(x)) { if(added || !made || x < fresh || x >= fresh + 64) bad = "the lists of a pool are damaged"; added = x; }
					for(auto x : was) if(!is.count(x)) bad = "a page of a pool is lost";
					if(made && !added) bad = "a page of a pool is lost";
					if(added && after.active != added) bad = "the page that blocks are taken from is not the newest one";
					// blocks that can be handed out
					auto available = [&](const View &w, uint64_t b) {
						if(w.freed.count(b)) return true;
						if(!w.active) return false;
						int64_t d = (int64_t)(b - w.active) - P.page;
						return d >= 0 && d % P.elem == 0 && d / P.elem < P.count && d / P.elem >= w.last;
					};
					if(bad.empty() && (after.last < 0 || after.last > P.count)) bad = "blocks outside of the page can be handed out";
					if(give && bad.empty())
					{
						if(!available(before, got) && !(added && (int64_t)(got - added) - P.page >= 0 && ((int64_t)(got - added) - P.page) % P.elem == 0 && ((int64_t)(got - added) - P.page) / P.elem < P.count)) bad = "a block is handed out that is in use or lies outside of the pages";
						else if(available(after, got)) bad = "a block that was handed out can be handed out again";
					}
					if(bad.empty())
					{
						std::set<uint64_t> all(before.freed); all.insert(after.freed.begin(), after.freed.end());
						for(auto pg : is) for(int64_t i : { (int64_t)0, (int64_t)1, (int64_t)2, (int64_t)3, P.count - 2, P.count - 1 }) all.insert(pg + P.page + P.elem * i);
						for(auto b : all)
						{
							if(b == got || b == given) continue;
							bool a = available(before, b), z = available(after, b);
							bool inNew = added && b >= added && b < added + (uint64_t)P.size;
							if(!a && z && !inNew) bad = "a block in use can be handed out";
							if((a || inNew) && !z) bad = "a free block is lost";
						}
					}
					if(!give && bad.empty())
					{
						if(!available(after, given)) bad = "a released block is lost";
						else if(!(marker & freedFlag)) bad = "a released block is not marked as free, a collection takes it for an object";
					}
				}
		if(!bad.empty()) R.addAt("POOL", fileOf(F), lineOf(F), sname(F), bad, give ? "alloc" : "free");
	}
}
