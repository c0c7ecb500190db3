// C13: the public API in every state of the library: before nullcInit, after nullcTerminate, without a compiled program
#include "rules.h"
#include <fstream>
#include <sstream>
namespace {
bool inRepo(const Function *F) { return fileOf(F).compare(0, 5, "NULLC") == 0; }
std::string gn(const GlobalVariable *G) { return demangle(G->getName().str()); }
std::string base(const Function *F) { std::string n = sname(F); size_t p = n.rfind("::"); return p == std::string::npos ? n : n.substr(p + 2); }
std::string headerText(const std::string &h)
{
	Function *t = findFn("nullcTerminate");
	auto *SP = t ? t->getSubprogram() : nullptr;
	if(!SP) return "";
	std::string p = SP->getFile()->getFilename().str();
	if(p.empty() || p[0] != '/') p = SP->getFile()->getDirectory().str() + "/" + p;
	p = p.substr(0, p.rfind('/'));
	std::ifstream f(p + "/" + h);
	std::stringstream ss; ss << f.rdbuf();
	return ss.str();
}
// names that the public headers declare
std::set<std::string> publicNames()
{
	std::set<std::string> r;
	for(const char *h : { "nullc.h", "nullc_debug.h" })
	{
		std::string s = headerText(h);
		for(size_t i = 0; (i = s.find("nullc", i)) != std::string::npos; )
		{
			size_t e = i;
			while(e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_')) e++;
			bool start = i == 0 || !(isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_');
			size_t q = e;
			while(q < s.size() && (s[q] == ' ' || s[q] == '\t')) q++;
			if(start && q < s.size() && s[q] == '(') r.insert(s.substr(i, e - i));
			i = e;
		}
	}
	return r;
}
// values of the executor selection, from the header
std::vector<std::pair<std::string, int64_t>> executorCodes()
{
	std::vector<std::pair<std::string, int64_t>> r;
	std::stringstream all(headerText("nullcdef.h") + "\n" + headerText("nullc.h"));
	std::string l;
	while(std::getline(all, l))
	{
		std::stringstream ss(l); std::string d, n; long v;
		if(!(ss >> d >> n >> v) || d != "#define") continue;
		if(n == "NULLC_X86") r.push_back({ "ExecutorX86", v });
		if(n == "NULLC_REG_VM") r.push_back({ "ExecutorRegVm", v });
	}
	return r;
}
GlobalVariable *target(Value *p) { return dyn_cast<GlobalVariable>(p->stripPointerCasts()); }
bool isIndirect(const CallBase *CB) { return !CB->getCalledFunction() && !isa<Function>(CB->getCalledOperand()->stripPointerCasts()); }
// may the value be memory that was just allocated
bool fresh(const Value *v, std::set<const Value*> &seen)
{
	if(!seen.insert(v).second) return false;
	v = v->stripPointerCasts();
	if(auto *CB = dyn_cast<CallBase>(v)) return isIndirect(CB) && CB->getType()->isPointerTy();
	if(auto *P = dyn_cast<PHINode>(v)) { for(auto &x : P->incoming_values()) if(fresh(x.get(), seen)) return true; return false; }
	if(auto *S = dyn_cast<SelectInst>(v)) return fresh(S->getTrueValue(), seen) || fresh(S->getFalseValue(), seen);
	return false;
}
// places executed before any store to the globals of interest
bool beforeStores(Function *F, const Instruction *at, const std::function<bool(const Instruction&)> &st)
{
	for(auto &I : instructions(F)) if(st(I) && &I != at && pathAvoiding(F, &I, [](const Instruction&) { return false; }, [&](const Instruction &J) { return &J == at; })) return false;
	return true;
}
typedef std::map<GlobalVariable*, Constant*> State;
// the function in the given state: loads that still see the state are replaced
void enter(Function *F, const State &S)
{
	F->addFnAttr(Attribute::NullPointerIsValid);
	for(int round = 0; round < 5; round++)
	{
		bool any = false;
		std::vector<LoadInst*> loads;
		for(auto &I : instructions(F)) if(auto *L = dyn_cast<LoadInst>(&I)) if(auto *G = target(L->getPointerOperand())) if(S.count(G) && L->getType() == S.at(G)->getType()) loads.push_back(L);
		for(auto *L : loads)
		{
			GlobalVariable *G = target(L->getPointerOperand());
			if(!beforeStores(F, L, [&](const Instruction &J) { auto *X = dyn_cast<StoreInst>(&J); return X && target(const_cast<Value*>(X->getPointerOperand())) == G; })) continue;
			L->replaceAllUsesWith(S.at(G)); L->eraseFromParent(); any = true;
		}
		runPasses(F, "instsimplify,sccp,simplifycfg,instsimplify,sccp,simplifycfg");
		if(!any) break;
	}
}
bool nullBased(const Value *v, int d = 0)
{
	APInt off(64, 0);
	const Value *b = v->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
	for(int i = 0; i < 8; i++)
	{
		if(isa<ConstantPointerNull>(b)) return true;
		if(auto *CE = dyn_cast<ConstantExpr>(b)) if(CE->getOpcode() == Instruction::IntToPtr) if(auto *K = dyn_cast<ConstantInt>(CE->getOperand(0))) return K->getZExtValue() < 0x100000;
		auto *G = dyn_cast<GEPOperator>(b);
		if(auto *P = dyn_cast<PHINode>(b)) { if(d > 3) return false; for(auto &x : P->incoming_values()) if(!nullBased(x.get(), d + 1)) return false; return true; }
		if(auto *S = dyn_cast<SelectInst>(b)) return d <= 3 && nullBased(S->getTrueValue(), d + 1) && nullBased(S->getFalseValue(), d + 1);
		if(!G) return false;
		b = G->getPointerOperand()->stripPointerCasts();
	}
	return false;
}
bool isMethod(const Function *C)
{
	auto *SP = C ? C->getSubprogram() : nullptr;
	if(!SP || !SP->getType() || !C->arg_size()) return false;
	auto T = SP->getType()->getTypeArray();
	return T.size() > 1 && T[1] && (T[1]->getFlags() & DINode::FlagArtificial);
}
// first argument is an object even when the retained nodes are gone
bool takesThis(Function *C)
{
	if(!C) return false;
	if(isMethod(C)) return true;
	return C->arg_size() && C->getArg(0)->getName() == "this";
}
bool emptyText(const Constant *c) { auto *G = dyn_cast<GlobalVariable>(c->stripPointerCasts()); return G && G->isConstant() && G->hasInitializer() && G->getInitializer()->isNullValue(); }
struct NullUse { const Instruction *at; std::string what; };
void uses(Function *F, std::vector<NullUse> &r)
{
	for(auto &I : instructions(F))
	{
		if(auto *L = dyn_cast<LoadInst>(&I)) { if(nullBased(L->getPointerOperand())) r.push_back({ &I, "reads" }); }
		else if(auto *S = dyn_cast<StoreInst>(&I)) { if(nullBased(S->getPointerOperand())) r.push_back({ &I, "writes" }); }
		else if(auto *MI = dyn_cast<MemIntrinsic>(&I)) { if(nullBased(MI->getDest())) r.push_back({ &I, "writes" }); }
		else if(auto *CB = dyn_cast<CallBase>(&I))
		{
			Function *C = calleeOf(CB);
			if(C) for(unsigned i = 0; i < CB->arg_size() && i < C->arg_size(); i++)
				if((C->getArg(i)->hasAttribute(Attribute::NonNull) || C->getArg(i)->getDereferenceableBytes()) && !(i == 0 && takesThis(C)) && CB->getArgOperand(i)->getType()->isPointerTy() && nullBased(CB->getArgOperand(i))) r.push_back({ &I, "passes to " + sname(C) });
			if(C && takesThis(C) && nullBased(CB->getArgOperand(0))) r.push_back({ &I, "calls " + sname(C) + " of" });
		}
	}
}
}
RULE(apistate)
{
	buildCallGraph();
	std::set<std::string> names = publicNames();
	Function *term = findFn("nullcTerminate"), *init = findFn("nullcInitCustomAlloc");
	if(names.size() < 20 || !term || !init) { R.brk("the public API was not found"); return; }
	for(Function *F : definedFns()) basicSimplify(F, false);
	InlinePolicy P;
	std::string home = fileOf(term);
	P.want = [&](Function *C, CallBase *) { return inRepo(C) && (fileOf(C) == home || instrCount(C) < 40) && sname(C).find("CompilerContext::") == std::string::npos; };
	P.maxDepth = 5;
	std::map<std::string, Function*> api;
	for(auto *F : definedFns()) if(names.count(sname(F)) && inRepo(F)) api[sname(F)] = F;
	R.stat("api_functions", api.size());
	// normalised copies; originals stay for inlining
	std::map<std::string, Function*> norm;
	for(auto &a : api) { Function *C = cloneFn(a.second); normalise(C, &P); norm[a.first] = C; }
	// objects of the library: globals that API functions fill with allocated memory
	std::set<GlobalVariable*> owned;
	for(auto &a : norm) for(auto &I : instructions(a.second)) if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = target(S->getPointerOperand()))
	{
		std::set<const Value*> seen;
		if(G->getValueType()->isPointerTy() && S->getValueOperand()->getType()->isPointerTy() && G->hasInitializer() && G->getInitializer()->isNullValue() && fresh(S->getValueOperand(), seen)) owned.insert(G);
	}
	R.stat("library_objects", owned.size());
	for(auto *G : owned) R.sample("object " + gn(G));
	// the flag that says that the library is ready
	GlobalVariable *ready = nullptr;
	std::map<GlobalVariable*, unsigned> consulted;
	for(auto &I : instructions(norm["nullcInitCustomAlloc"])) if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = target(S->getPointerOperand())) if(auto *K = dyn_cast<ConstantInt>(S->getValueOperand()))
		if(!K->isZero() && G->getValueType()->isIntegerTy() && G->hasInitializer() && G->getInitializer()->isNullValue()) consulted[G] = 0;
	for(auto &a : norm)
	{
		std::set<GlobalVariable*> seen;
		for(auto &I : instructions(a.second)) if(auto *L = dyn_cast<LoadInst>(&I)) if(auto *G = target(L->getPointerOperand())) if(consulted.count(G)) seen.insert(G);
		for(auto *G : seen) consulted[G]++;
	}
	for(auto &c : consulted) if(!ready || c.second > consulted[ready]) ready = c.first;
	if(!ready || owned.size() < 3) { R.brk("the state of the library was not recognised"); return; }
	R.sample("ready flag " + gn(ready));
	GlobalVariable *lastError = nullptr;
	for(auto &G : M->globals()) if(gn(&G) == "NULLC::nullcLastError") lastError = &G;
	auto K = [&](uint64_t v) { return (Constant*)ConstantInt::get(ready->getValueType(), v); };
	State idle; idle[ready] = K(0);
	for(auto *G : owned) idle[G] = ConstantPointerNull::get(cast<PointerType>(G->getValueType()));
	State up; up[ready] = K(1);
	auto storesState = [&](const Instruction &I) { auto *S = dyn_cast<StoreInst>(&I); GlobalVariable *G = S ? target(const_cast<Value*>(S->getPointerOperand())) : nullptr; return G && (G == ready || owned.count(G)); };
	// functions outside of the API that use an object without asking whether it is there
	std::map<Function*, std::vector<NullUse>> inner;
	std::function<const std::vector<NullUse>&(Function*, int)> deep = [&](Function *C, int d) -> const std::vector<NullUse>& {
		if(inner.count(C)) return inner[C];
		inner[C] = {};
		Function *X = cloneFn(C);
		normalise(X, &P);
		enter(X, idle);
		std::vector<NullUse> r; uses(X, r);
		if(d < 3) for(auto &I : instructions(X)) if(auto *CB = dyn_cast<CallBase>(&I)) { Function *D = calleeOf(CB); if(D && !D->isDeclaration() && inRepo(D) && beforeStores(X, &I, storesState)) for(auto &u : deep(D, d + 1)) r.push_back({ nullptr, "calls " + sname(D) + " which " + u.what }); }
		for(auto &u : r) u.at = nullptr;
		X->eraseFromParent();
		if(r.size() > 1) r.resize(1);
		return inner[C] = r;
	};
	// functions that may allocate memory through the allocator of the library, when it is not initialised
	std::map<Function*, bool> alloc;
	auto allocCall = [](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); auto *L = CB && isIndirect(CB) ? dyn_cast<LoadInst>(CB->getCalledOperand()) : nullptr; auto *G = L ? target(const_cast<Value*>(L->getPointerOperand())) : nullptr; return G && gn(G) == "NULLC::alloc"; };
	std::function<bool(Function*, int)> allocates = [&](Function *C, int d) {
		if(alloc.count(C)) return alloc[C];
		alloc[C] = false;
		std::set<Function*> all = reachableFrom({ C });
		all.insert(C);
		bool any = false;
		for(auto *X : all) { for(auto &I : instructions(X)) if(allocCall(I)) { any = true; break; } if(any) break; }
		if(!any || d > 6) return alloc[C] = any;
		Function *X = cloneFn(C);
		normalise(X, &P);
		enter(X, idle);
		any = false;
		for(auto &I : instructions(X))
		{
			if(any) break;
			if(allocCall(I)) { any = true; break; }
			auto *CB = dyn_cast<CallBase>(&I);
			Function *D = CB ? calleeOf(CB) : nullptr;
			if(D && !D->isDeclaration() && inRepo(D) && allocates(D, d + 1)) any = true;
		}
		X->eraseFromParent();
		return alloc[C] = any;
	};
	// 1. not initialised
	for(auto &a : norm)
	{
		R.stat("idle_functions");
		bool asks = false;
		for(auto &I : instructions(a.second)) if(auto *L = dyn_cast<LoadInst>(&I)) if(target(L->getPointerOperand()) == ready) asks = true;
		Function *C = cloneFn(a.second);
		enter(C, idle);
		std::vector<NullUse> r; uses(C, r);
		for(auto &u : r) R.addAt("API-NULL", fileOf(u.at), lineOf(u.at), a.first, "without nullcInit the function " + u.what + " an object of the library that does not exist", u.what);
		for(auto &I : instructions(C)) if(auto *CB = dyn_cast<CallBase>(&I))
		{
			Function *D = calleeOf(CB);
			if(!D || D->isDeclaration() || !inRepo(D) || !beforeStores(C, &I, storesState)) continue;
			if(allocates(D, 0)) R.addAt("API-WORK", fileOf(&I), lineOf(&I), a.first, "without nullcInit the function starts to work: it calls " + sname(D) + " which allocates memory", sname(D));
			for(auto &u : deep(D, 0)) R.addAt("API-NULL", fileOf(&I), lineOf(&I), a.first, "without nullcInit " + sname(D) + " " + u.what + " an object of the library that does not exist", sname(D));
		}
		if(asks && a.first != "nullcInit" && a.first != "nullcInitCustomAlloc" && a.first != "nullcTerminate")
		{
			R.stat("refusals");
			for(auto &B : *C) if(auto *Ret = dyn_cast<ReturnInst>(B.getTerminator())) if(Value *v = Ret->getReturnValue())
			{
				auto *c = dyn_cast<Constant>(v);
				if(!c || !(c->isNullValue() || c->isAllOnesValue() || emptyText(c))) R.addAt("API-RESULT", fileOf(a.second), lineOf(a.second), a.first, "without nullcInit the function does not return failure", "result");
			}
			if(lastError && pathAvoiding(C, nullptr, [&](const Instruction &I) { auto *S = dyn_cast<StoreInst>(&I); return S && target(const_cast<Value*>(S->getPointerOperand())) == lastError; })) R.addAt("API-RESULT", fileOf(a.second), lineOf(a.second), a.first, "without nullcInit the function fails without an error message", "message");
		}
		C->eraseFromParent();
	}
	// 2. objects that can be missing between init and terminate
	std::set<GlobalVariable*> optional;
	for(auto &a : norm) if(a.first != "nullcTerminate") for(auto &I : instructions(a.second)) if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = target(S->getPointerOperand())) if(owned.count(G) && isa<ConstantPointerNull>(S->getValueOperand())) optional.insert(G);
	{
		// created on demand: not filled by nullcInit
		for(auto *G : owned) { bool byInit = false; for(auto &I : instructions(norm["nullcInitCustomAlloc"])) if(auto *S = dyn_cast<StoreInst>(&I)) if(target(S->getPointerOperand()) == G) byInit = true; if(!byInit) optional.insert(G); }
	}
	for(auto *G : optional)
	{
		R.sample("on demand " + gn(G));
		State S = up; S[G] = ConstantPointerNull::get(cast<PointerType>(G->getValueType()));
		for(auto &a : norm)
		{
			if(a.first == "nullcInit" || a.first == "nullcInitCustomAlloc") continue;
			R.stat("on_demand_cases");
			Function *C = cloneFn(a.second);
			enter(C, S);
			std::vector<NullUse> r; uses(C, r);
			for(auto &u : r) R.addAt("API-NULL", fileOf(u.at), lineOf(u.at), a.first, "without a compiled program the function " + u.what + " " + gn(G) + " that does not exist", u.what + gn(G));
			C->eraseFromParent();
		}
	}
	// 3. a second nullcInit changes nothing
	for(const char *n : { "nullcInit", "nullcInitCustomAlloc" })
	{
		if(!norm.count(n)) continue;
		Function *C = cloneFn(norm[n]);
		enter(C, up);
		for(auto &I : instructions(C)) if(storesState(I)) { R.addAt("API-REINIT", fileOf(&I), lineOf(&I), n, "a second nullcInit replaces the objects of the library", "reinit"); break; }
		for(auto &B : *C) if(auto *Ret = dyn_cast<ReturnInst>(B.getTerminator())) { auto *c = dyn_cast_or_null<Constant>(Ret->getReturnValue()); if(!c || !c->isNullValue()) R.addAt("API-REINIT", fileOf(init), lineOf(init), n, "a second nullcInit reports success", "result"); }
		C->eraseFromParent();
	}
	// 4. what is released is forgotten
	std::map<std::string, Function*> running;
	for(auto &a : norm) { Function *C = cloneFn(a.second); if(a.first != "nullcInit" && a.first != "nullcInitCustomAlloc") enter(C, up); running[a.first] = C; }
	auto releases = [&](const Instruction &I, GlobalVariable *G) -> const LoadInst* {
		auto *CB = dyn_cast<CallBase>(&I);
		if(!CB || !isIndirect(CB)) return nullptr;
		for(auto &A : CB->args()) if(auto *L = dyn_cast<LoadInst>(A.get()->stripPointerCasts())) if(target(const_cast<Value*>(L->getPointerOperand())) == G) return L;
		return nullptr;
	};
	for(auto *G : owned)
	{
		auto set = [&](const Instruction &I) { auto *S = dyn_cast<StoreInst>(&I); return S && target(const_cast<Value*>(S->getPointerOperand())) == G; };
		for(auto &a : running) if(a.first != "nullcInit" && a.first != "nullcInitCustomAlloc") for(auto &I : instructions(a.second)) if(releases(I, G))
		{
			R.stat("releases");
			if(pathAvoiding(a.second, &I, set) && pathAvoiding(a.second, releases(I, G), set, [&](const Instruction &J) { return &J == &I; })) { R.addAt("API-DANGLING", fileOf(&I), lineOf(&I), a.first, gn(G) + " is released and stays in use", gn(G)); }
		}
		Function *T = running["nullcTerminate"];
		bool any = false;
		for(auto &I : instructions(T)) if(releases(I, G)) any = true;
		R.stat("terminate_obligations");
		if(!any) R.addAt("API-LEAK", fileOf(term), lineOf(term), "nullcTerminate", gn(G) + " is not released", gn(G));
		T = cloneFn(norm["nullcTerminate"]);
		State there = up; there[G] = ConstantExpr::getIntToPtr(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0x7f0000000000ull), G->getValueType());
		enter(T, there);
		if(pathAvoiding(T, nullptr, [&](const Instruction &I) { return set(I) && isa<ConstantPointerNull>(cast<StoreInst>(I).getValueOperand()); })) R.addAt("API-DANGLING", fileOf(term), lineOf(term), "nullcTerminate", gn(G) + " is not cleared, it is used again after nullcTerminate", gn(G));
	}
	{
		Function *T = running["nullcTerminate"];
		R.stat("terminate_obligations");
		if(pathAvoiding(T, nullptr, [&](const Instruction &I) { auto *S = dyn_cast<StoreInst>(&I); auto *k = S ? dyn_cast<ConstantInt>(S->getValueOperand()) : nullptr; return k && k->isZero() && target(const_cast<Value*>(S->getPointerOperand())) == ready; })) R.addAt("API-DANGLING", fileOf(term), lineOf(term), "nullcTerminate", "the library is still marked as initialised", "ready");
	}
	// 5. the executor in use does the work, whichever it is
	InlinePolicy E = P;
	E.want = [&](Function *C, CallBase *X) { std::string c = sname(C); return P.want(C, X) && c.find("Executor") != 0; };
	GlobalVariable *which = nullptr;
	for(auto &G : M->globals()) if(gn(&G) == "NULLC::currExec") which = &G;
	std::vector<std::pair<std::string, int64_t>> kinds;
	for(auto &k : executorCodes()) if(recordOf(k.first)) kinds.push_back(k);
	if(!which || kinds.size() < 2) { R.brk("the selection of executors was not recognised"); return; }
	for(auto &a : api)
	{
		if(a.first == "nullcInit" || a.first == "nullcInitCustomAlloc" || a.first == "nullcTerminate") continue;
		Function *N = cloneFn(a.second);
		normalise(N, &E);
		// methods called on each executor for each selection
		std::map<std::string, std::map<std::string, std::set<std::string>>> did;
		for(auto &k : kinds)
		{
			Function *C = cloneFn(N);
			State S = up; S[which] = ConstantInt::get(which->getValueType(), k.second);
			enter(C, S);
			for(auto &I : instructions(C)) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *D = calleeOf(CB))
				for(auto &e : kinds) { std::string n = sname(D); if(n.compare(0, e.first.size() + 2, e.first + "::") == 0) did[k.first][e.first].insert(n.substr(e.first.size() + 2)); }
			C->eraseFromParent();
		}
		N->eraseFromParent();
		bool any = false;
		for(auto &k : did) if(!k.second.empty()) any = true;
		if(!any) continue;
		R.stat("executor_operations");
		// work on an executor that happens whichever is selected is common to both
		for(auto &k : kinds) for(auto &other : kinds)
		{
			if(k.first == other.first) continue;
			auto has = [](Function *F) { return F != nullptr; };
			// what k does when it is selected, the other one does when it is selected
			for(auto &m : did[k.first][k.first])
			{
				// messages are asked for when something can fail
				Function *counterpart = findFn(other.first + "::" + m);
				bool failing = m.compare(0, 8, "GetError") != 0;
				for(auto &o : did[other.first][other.first]) if(Function *D = findFn(other.first + "::" + o)) if(D->getReturnType()->isIntegerTy(1)) failing = true;
				if(!did[other.first][other.first].count(m) && counterpart && failing)
					R.addAt("EXECUTOR-PARITY", fileOf(a.second), lineOf(a.second), a.first, "the function calls " + m + " when " + k.first + " is selected, not when " + other.first + " is", m + k.first);
			}
			// what is done to both executors does not depend on the selection
			for(auto &m : did[k.first][other.first])
				if(did[k.first][k.first].count(m) && did[other.first][other.first].count(m) && !did[other.first][k.first].count(m))
					R.addAt("EXECUTOR-PARITY", fileOf(a.second), lineOf(a.second), a.first, "the function calls " + m + " of both executors when " + k.first + " is selected, of one when " + other.first + " is", m + k.first + "both");
			// the other one is not used unless it is used in both selections
			for(auto &m : did[k.first][other.first])
				if(!did[other.first][other.first].count(m))
					R.addAt("EXECUTOR-PARITY", fileOf(a.second), lineOf(a.second), a.first, "the function calls " + m + " of " + other.first + " when " + k.first + " is selected", m + other.first + "wrong");
				else if(!did[k.first][k.first].count(m) && has(findFn(k.first + "::" + m)))
					R.addAt("EXECUTOR-PARITY", fileOf(a.second), lineOf(a.second), a.first, "the function calls " + m + " of " + other.first + " instead of " + k.first, m + other.first + "instead");
		}
	}
	// 6. nothing that was collected in global lists stays after nullcTerminate
	std::set<Function*> ends = reachableFrom({ term });
	ends.insert(term);
	std::map<GlobalVariable*, const Instruction*> filled, heap;
	std::set<GlobalVariable*> dropped;
	std::set<Function*> all = ends;
	{
		std::vector<Function*> roots;
		for(auto &a : api) roots.push_back(a.second);
		for(auto *F : reachableFrom(roots)) all.insert(F);
		for(auto *F : roots) all.insert(F);
	}
	auto globalBase = [](const Value *v) -> GlobalVariable* { APInt o(64, 0); return const_cast<GlobalVariable*>(dyn_cast<GlobalVariable>(v->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true))); };
	for(auto *F : all) if(inRepo(F)) for(auto &I : instructions(F))
	{
		if(auto *CB = dyn_cast<CallBase>(&I))
		{
			Function *C = calleeOf(CB);
			std::string n = C ? sname(C) : "";
			if(C && (n.compare(0, 10, "FastVector") == 0 || n.compare(0, 7, "HashMap") == 0 || n.compare(0, 4, "Tree") == 0) && CB->arg_size())
			{
				GlobalVariable *G = globalBase(CB->getArgOperand(0));
				std::string m = base(C);
				if(!G) continue;
				if(m == "push_back" || m == "insert" || m == "resize" || m == "init") { if(!filled.count(G)) filled[G] = &I; }
				if((m == "reset" || m == "clear" || m == "shrink") && ends.count(F)) dropped.insert(G);
			}
		}
		if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = target(S->getPointerOperand())) if(G->getValueType()->isPointerTy())
		{
			std::set<const Value*> seen;
			if(fresh(S->getValueOperand(), seen) && !owned.count(G)) heap[G] = &I;
			if(isa<ConstantPointerNull>(S->getValueOperand()) && ends.count(F)) dropped.insert(G);
		}
	}
	// copies of pointers to library objects kept elsewhere
	std::map<GlobalVariable*, const Instruction*> copies;
	for(auto &nf : norm)
	{
		std::set<const Value*> objects;
		for(auto &I : instructions(nf.second))
		{
			if(auto *L = dyn_cast<LoadInst>(&I)) if(auto *G = target(L->getPointerOperand())) if(owned.count(G)) objects.insert(L);
			if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = target(S->getPointerOperand())) if(owned.count(G) && !isa<Constant>(S->getValueOperand())) objects.insert(S->getValueOperand());
		}
		for(auto &I : instructions(nf.second)) if(auto *S = dyn_cast<StoreInst>(&I)) if(auto *G = target(S->getPointerOperand()))
			if(G->getValueType()->isPointerTy() && !owned.count(G) && G != lastError && objects.count(S->getValueOperand())) copies[G] = &I;
	}
	for(auto &g : copies)
	{
		R.stat("pointer_copies");
		R.sample("copy of an object " + gn(g.first));
		if(!dropped.count(g.first)) R.addAt("API-DANGLING", fileOf(g.second), lineOf(g.second), "nullcTerminate", gn(g.first) + " still points to an object that nullcTerminate released", "copy " + gn(g.first));
	}
	for(auto *m : { &filled, &heap })
		for(auto &g : *m)
		{
			R.stat("global_lists");
			R.sample("global list " + gn(g.first));
			if(!dropped.count(g.first)) R.addAt("API-LEAK", fileOf(g.second), lineOf(g.second), sname(g.second->getFunction()), gn(g.first) + " keeps its contents after nullcTerminate", "list " + gn(g.first));
		}
}
