// C09: the tracing functions look at exactly the right places: arguments of every tracer, stack walk arithmetic, conditions under which a reachable object may be skipped
#include "gc.h"
#include "keys.h"
#include "idle.h"
static const char *PLAIN = "instsimplify,sccp,simplifycfg,loop-simplify,instsimplify,sccp,simplifycfg";
static uint64_t recSize(const std::string &n) { auto *T = recordOf(n); if(!T) { R.brk("record " + n + " not found"); return 1; } return T->getSizeInBits() / 8; }
static int64_t off(const std::string &rec, const std::string &f)
{
	if(auto *T = recordOf(rec)) for(auto &x : fieldsOf(T)) if(x.name == f) return x.offset;
	R.brk("field " + rec + "." + f + " not found");
	return 0;
}
static int fsize(const std::string &rec, const std::string &f)
{
	if(auto *T = recordOf(rec)) for(auto &x : fieldsOf(T)) if(x.name == f) return (int)x.size;
	return 4;
}
static Key fld(const Key &base, const std::string &rec, const std::string &f) { return keyLoad(base + Key(off(rec, f)), fsize(rec, f)); }
// elements of a table of the linker
static Key table(const std::string &vec, const std::string &elem)
{
	auto *T = recordOf("Linker");
	if(T) for(auto &x : fieldsOf(T)) if(x.name == vec)
		if(auto *C = dyn_cast_or_null<DICompositeType>(stripType(x.type)))
			for(auto &y : fieldsOf(C)) if(y.name == elem) return keyLoad(keyLoad(Key("@NULLC::commonLinker"), 8) + Key((int64_t)(x.offset + y.offset)), (int)y.size);
	R.brk("table Linker::" + vec + " not found");
	return Key();
}
static Key typeAt(const Key &i) { return table("exTypes", "data") + keyMul(i, Key((int64_t)recSize("ExternTypeInfo"))); }
// A clone in which conditions about a traced pointer are decided: it lies outside of the unmanageable range (below or above), belongs to an object, and that object is not marked yet
struct Traced { Key target; bool below = true; };
static Key lo() { return keyLoad(Key("@GC::unmanageableBase"), 8); }
static Key hi() { return keyLoad(Key("@GC::unmanageableTop"), 8); }
static Key baseOf(const Key &t) { return Key("<NULLC::GetBasePointer," + t.str() + ">"); }
static Function *decide(Function *F, const Traced &T, Spec S = Spec())
{
	Function *C = cloneFn(F);
	{
		Keys K(C);
		Key marker = keyLoad(baseOf(T.target) - Key(8), 8);
		std::vector<std::pair<Instruction*, int>> rep;
		for(auto &I : instructions(C))
		{
			if(auto *B = dyn_cast<BinaryOperator>(&I))
			{
				auto *k = dyn_cast<ConstantInt>(B->getOperand(1));
				if(B->getOpcode() == Instruction::And && k && !(k->getZExtValue() & ~3ull) && K.of(B->getOperand(0)) == marker) rep.push_back({ &I, 0 });
			}
			if(isa<TruncInst>(&I) && I.getType()->isIntegerTy(1) && K.of(I.getOperand(0)) == marker) rep.push_back({ &I, 0 });
			auto *X = dyn_cast<ICmpInst>(&I);
			if(!X) continue;
			Key d = K.of(X->getOperand(0)) - K.of(X->getOperand(1));
			int sign = 2;
			for(int m : { 1, -1 })
			{
				Key e = d * m;
				int s = 2;
				Key a = e - T.target;
				if(a.constant() && a.k <= 0 && a.k >= -0x10000) s = 1;
				if(a == lo() * -1) s = T.below ? -1 : 1;
				if(a == hi() * -1) s = T.below ? -1 : 1;
				if(e == baseOf(T.target)) s = 1;
				if(s != 2) sign = s * m;
			}
			if(sign == 2) continue;
			switch(X->getPredicate())
			{
			case CmpInst::ICMP_EQ: rep.push_back({ &I, 0 }); break;
			case CmpInst::ICMP_NE: rep.push_back({ &I, 1 }); break;
			case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGT: case CmpInst::ICMP_SGE: rep.push_back({ &I, sign > 0 }); break;
			default: rep.push_back({ &I, sign < 0 }); break;
			}
		}
		for(auto &r : rep) r.first->replaceAllUsesWith(ConstantInt::get(r.first->getType(), r.second));
	}
	Function *D = specialise(C, S, PLAIN);
	C->eraseFromParent();
	return D;
}
// every call of a tracer in a function passes one of the expected arguments
struct Want { std::vector<Key> args; };
static std::string show(const std::vector<Key> &a) { std::string s; for(auto &x : a) s += (s.empty() ? "" : ", ") + x.str(); return s; }
static void checkArgs(Function *orig, Function *F, const std::string &callee, const std::function<std::vector<Key>(Keys&, CallBase*)> &want, const std::string &what, bool required = true)
{
	Keys K(F);
	bool any = false;
	for(auto *CB : callsIn(F, [&](Function *C, CallBase *) { return sname(C) == callee; }))
	{
		any = true;
		R.stat("tracer_calls");
		auto w = want(K, CB);
		for(size_t i = 0; i < w.size() && i < CB->arg_size(); i++)
			for(auto &k : K.keysOf(CB->getArgOperand(i)))
				if(k != w[i])
				{
					R.addAt("TRACED-PLACE", fileOf(orig), lineOf(CB), sname(orig), what, what + " " + callee + " " + std::to_string(i));
				}
	}
	if(!any && required) R.addAt("TRACED-PLACE", fileOf(orig), lineOf(orig), sname(orig), what, what + " none");
}
// the loop runs for every index from 0 up to the bound
static void checkFull(Function *orig, Keys &K, const Instruction *at, Loop *L, const Key &bound, const std::string &what, const Key &scale = Key(1))
{
	R.stat("loops");
	DominatorTree &DT = K.DT;
	// every iteration
	{
		const Function *callee = calleeOf(cast<CallBase>(at));
		const Instruction *head = &L->getHeader()->front();
		if(pathAvoiding(const_cast<Function*>(at->getFunction()), head, [&](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); return !L->contains(I.getParent()) || (CB && calleeOf(CB) == callee); }, [&](const Instruction &I) { return &I == head; }))
			R.addAt("TRACED-ALL", fileOf(orig), lineOf(at), sname(orig), what, what + " iteration");
	}
	Key it(K.names[L]);
	for(auto &e : K.exitsOf(L))
	{
		if(!e.known) { R.stat("loops_of_other_form"); continue; }
		bool top = DT.dominates(e.at, at) || e.at->getParent() == at->getParent();
		if(e.at->getParent() == at->getParent()) top = false; // the visit precedes the branch of its own block
		Key want = it + (top ? Key(0) : Key(1)) - bound;
		if(!(scale == Key(1))) want = keyMul(want, scale);
		// d = m * want, m > 0 or m < 0
		int m = 0;
		for(int s : { 1, -1 }) for(int f : { 1, 2, 4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 48, 56, 64, 72, 76, 80, 84, 88, 92, 96, 100, 104, 108, 112 }) if(e.d == want * (s * f)) m = s * f;
		for(int s : { 1, -1 }) for(const char *r : { "ExternVarInfo", "ExternLocalInfo", "ExternFuncInfo", "ExternTypeInfo", "ExternMemberInfo" }) if(e.d == want * (int64_t)(s * (int64_t)recSize(r))) m = s;
		bool ok = false;
		if(m) switch(e.p)
		{
		case CmpInst::ICMP_EQ: ok = true; break;
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: ok = m > 0; break;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: ok = m < 0; break;
		default: break;
		}
		if(!ok)
		{
			if(!m && e.d.mentions("mul(" ) && e.d.mentions(K.names[L])) { R.stat("loops_of_other_form"); continue; }
			R.addAt("TRACED-ALL", fileOf(orig), lineOf(e.at), sname(orig), what, what + " loop");
		}
	}
}
static Loop *loopAt(Keys &K, const Instruction *I) { return K.LI.getLoopFor(I->getParent()); }
// marks (sets the flag in the word before the object)
static bool marks(Keys &K, const Instruction &I, const Key &base)
{
	auto *S = dyn_cast<StoreInst>(&I);
	return S && storesOr(I, 1) && K.of(S->getPointerOperand()) == base - Key(8);
}
static bool traces(Keys &K, const Instruction &I, const Key &base)
{
	auto *CB = dyn_cast<CallBase>(&I);
	Function *C = CB ? calleeOf(CB) : nullptr;
	if(!C) return false;
	if(sname(C) == "GC::CheckBasePointer") return K.of(CB->getArgOperand(0)) == base;
	if(!isPush(C) || CB->arg_size() < 2) return false;
	// passed by reference: the stored temporary
	const Value *a = CB->getArgOperand(1);
	if(K.of(a) == base) return true;
	if(auto *A = dyn_cast<AllocaInst>(a->stripPointerCasts()))
	{
		bool ok = false, bad = false;
		for(auto *U : A->users()) if(auto *S = dyn_cast<StoreInst>(U)) if(S->getPointerOperand() == A) (K.of(S->getValueOperand()) == base ? ok : bad) = true;
		return ok && !bad;
	}
	return false;
}
static std::vector<int> paddingCases() { return { 0, 1, 2, 4, 8, 16 }; }
static int64_t padOf(int a) { return a > 4 ? a : 4; }

RULE(gctrace)
{
	foldConstGlobals();
	for(Function *F : definedFns()) basicSimplify(F, false);
	Function *cv = need("GC::CheckVariable"), *cae = need("GC::CheckArrayElements"), *ca = need("GC::CheckArray"), *cc = need("GC::CheckClass"), *cf = need("GC::CheckFunction"), *cp = need("GC::CheckPointer"), *cb = need("GC::CheckBasePointer"), *mu = need("GC::MarkUsedBlocks"), *mp = need("GC::MarkPendingRoots");
	if(!cv || !cae || !ca || !cc || !cf || !cp || !cb || !mu || !mp) return;
	std::vector<Function*> all = { cv, cae, ca, cc, cf, cp, cb, mu, mp };
	std::set<Function*> named(all.begin(), all.end());
	auto isVec = [](Function *C) { return classOf(C).compare(0, 10, "FastVector") == 0 || classOf(C).compare(0, 7, "HashMap") == 0; };
	InlinePolicy P;
	P.want = [&](Function *C, CallBase *) {
		if(!inRepo(C) || named.count(C) || isPush(C) || methodOf(C) == "GetBasePointer" || methodOf(C).find("GetStack") == 0 || methodOf(C) == "GetCallStackAddress" || sname(C) == "nullcGetCurrentExecutor" || methodOf(C) == "PrintMarker") return false;
		if(isVec(C)) return methodOf(C) == "size" || methodOf(C) == "empty" || methodOf(C) == "operator[]" || methodOf(C) == "back" || methodOf(C) == "at";
		return fileOf(C) == fileOf(cv) || instrCount(C) < 20;
	};
	for(Function *F : all) normalise(F, &P);
	auto cats = enumOf("SubCategory");
	auto cat = [&](const char *n) { for(auto &c : cats) if(c.first == n) return c.second; R.brk(std::string("category ") + n + " not found"); return (int64_t)0; };
	int64_t TS = recSize("ExternTypeInfo");
	(void)TS;
	Key a0("a0"), a1("a1"), a2("a2");
	// ---- which place each tracer looks at
	{
		for(auto c : std::vector<std::pair<const char*, const char*>>{ { "CAT_ARRAY", "GC::CheckArray" }, { "CAT_POINTER", "GC::CheckPointer" }, { "CAT_FUNCTION", "GC::CheckFunction" }, { "CAT_CLASS", "GC::CheckClass" } })
			for(int flags : { 0, 4 })
			{
				Spec S; S.field("ExternTypeInfo", "subCat", cat(c.first)); S.field("ExternTypeInfo", "pointerCount", 1); S.field("ExternTypeInfo", "typeFlags", flags);
				Function *F = specialise(cv, S, PLAIN);
				R.stat("specialised_cases");
				bool cls = std::string(c.first) == "CAT_CLASS";
				if(flags && !cls) { F->eraseFromParent(); continue; }
				checkArgs(cv, F, c.second, [&](Keys &, CallBase *) { return std::vector<Key>{ a0, cls && flags ? typeAt(keyLoad(a0, 4)) : a1 }; }, "a traced variable is not the given one");
				F->eraseFromParent();
				if(flags) continue;
				Spec T; T.field("ExternTypeInfo", "subCat", cat(c.first)); T.field("ExternTypeInfo", "pointerCount", 1);
				F = specialise(cae, T, PLAIN);
				R.stat("specialised_cases");
				checkArgs(cae, F, c.second, [&](Keys &K, CallBase *CB) {
					Loop *L = loopAt(K, CB);
					if(!L) return std::vector<Key>{ a0 };
					return std::vector<Key>{ a0 + keyMul(Key(K.names[L]), fld(a2, "ExternTypeInfo", "size")), a2 };
				}, "a traced element is not an element of the array");
				{
					Keys K(F);
					for(auto *CB : callsIn(F, [&](Function *C, CallBase *) { return sname(C) == c.second; }))
						if(Loop *L = loopAt(K, CB)) checkFull(cae, K, CB, L, a1, "not every array element is traced");
						else R.addAt("TRACED-ALL", fileOf(cae), lineOf(CB), sname(cae), "not every array element is traced", "once");
				}
				F->eraseFromParent();
			}
	}
	{
		Spec S; S.field("ExternTypeInfo", "arrSize", 0xffffffffu); S.nonNull = true;
		Function *F = specialise(ca, S, PLAIN);
		checkArgs(ca, F, "GC::CheckPointer", [&](Keys &, CallBase *) { return std::vector<Key>{ a0 + Key(off("NULLCArray", "ptr")) }; }, "the traced place is not the data pointer of the array");
		F->eraseFromParent();
		Spec T; T.field("ExternTypeInfo", "arrSize", 4);
		F = specialise(ca, T, PLAIN);
		checkArgs(ca, F, "GC::CheckArrayElements", [&](Keys &, CallBase *) { return std::vector<Key>{ a0, Key(4), typeAt(fld(a1, "ExternTypeInfo", "subType")) }; }, "the traced range is not the whole array");
		F->eraseFromParent();
		R.stat("specialised_cases", 2);
	}
	{
		Function *F = specialise(cf, Spec(), PLAIN);
		checkArgs(cf, F, "GC::CheckPointer", [&](Keys &, CallBase *) { return std::vector<Key>{ a0 + Key(off("NULLCFuncPtr", "context")) }; }, "the traced place is not the context of the function");
		F->eraseFromParent();
		R.stat("specialised_cases");
	}
	{
		Spec S; S.nonNull = true; S.field("ExternTypeInfo", "pointerCount", 3);
		Function *F = specialise(cc, S, PLAIN);
		std::set<Key> ok = { a0 + Key(off("NULLCRef", "ptr")), a0 + Key(off("NULLCAutoArray", "ptr")) };
		checkArgs(cc, F, "GC::CheckPointer", [&](Keys &K, CallBase *CB) {
			Key k = K.of(CB->getArgOperand(0));
			return std::vector<Key>{ ok.count(k) ? k : *ok.begin() };
		}, "the traced place is not the pointer of the value");
		checkArgs(cc, F, "GC::CheckVariable", [&](Keys &K, CallBase *CB) {
			Loop *L = loopAt(K, CB);
			if(!L) return std::vector<Key>{ Key("?") };
			Key idx = fld(a1, "ExternTypeInfo", "memberOffset") + fld(a1, "ExternTypeInfo", "memberCount") + Key(K.names[L]);
			Key mem = table("exTypeExtra", "data") + idx * (int64_t)recSize("ExternMemberInfo");
			checkFull(cc, K, CB, L, Key(3), "not every pointer member of a class is traced");
			return std::vector<Key>{ a0 + fld(mem, "ExternMemberInfo", "offset"), typeAt(fld(mem, "ExternMemberInfo", "type")) };
		}, "a traced member is not a pointer member of the class");
		F->eraseFromParent();
		R.stat("specialised_cases");
	}
	// heap arrays: the same gap before the elements as the allocator leaves
	for(int al : paddingCases())
	{
		Spec S; S.field("ExternTypeInfo", "defaultAlign", al); S.field("ExternTypeInfo", "subCat", cat("CAT_CLASS"));
		for(int arr : { 0, 1 })
		{
			Spec Q = S;
			Q.masks = true; Q.maskValue = arr ? 16 : 0;
			Function *F = specialise(cb, Q, PLAIN);
			R.stat("specialised_cases");
			Key ty = typeAt(Key("lshr(" + keyLoad(a0 - Key(8), 8).str() + ",8)"));
			if(arr) checkArgs(cb, F, "GC::CheckArrayElements", [&](Keys &, CallBase *) { return std::vector<Key>{ a0 + Key(padOf(al)), keyLoad(a0 + Key(padOf(al) - 4), 4), ty }; }, "the traced elements are not those of the heap array");
			else checkArgs(cb, F, "GC::CheckVariable", [&](Keys &, CallBase *) { return std::vector<Key>{ a0, ty }; }, "the traced value is not the heap object");
			F->eraseFromParent();
		}
	}
	// ---- a pointer outside of the unmanageable range always leads to its object
	Key target = keyLoad(a0, 8);
	for(bool below : { true, false })
		for(const char *c : { "CAT_ARRAY", "CAT_POINTER", "CAT_FUNCTION", "CAT_CLASS" })
		{
			Traced T; T.target = target; T.below = below;
			Spec S; S.field("ExternTypeInfo", "subCat", cat(c)); S.field("ExternTypeInfo", "pointerCount", 1);
			Function *F = decide(cp, T, S);
			R.stat("skip_conditions");
			Keys K(F);
			Key base = baseOf(target);
			std::string w = below ? " (object below the stack)" : " (object above the stack)";
			if(pathAvoiding(F, nullptr, [&](const Instruction &I) { return marks(K, I, base); })) R.addAt("SKIPPED", fileOf(cp), lineOf(cp), sname(cp), "a reachable object is not marked" + w, "mark" + w);
			else if(pathAvoiding(F, nullptr, [&](const Instruction &I) { return traces(K, I, base); })) R.addAt("SKIPPED", fileOf(cp), lineOf(cp), sname(cp), "the contents of a reachable object are not traced" + w, "queue" + w);
			F->eraseFromParent();
		}
	// ---- roots, per execution engine
	int64_t FS = recSize("ExternFuncInfo"), LS = recSize("ExternLocalInfo"), VS = recSize("ExternVarInfo");
	for(auto &ex : std::vector<std::pair<int, std::string>>{ { 0, "ExecutorRegVm" }, { 1, "ExecutorX86" } })
	{
		bool built = false;
		for(auto *F : definedFns()) if(classOf(F) == ex.second) built = true;
		if(!built) continue;
		std::string by = " (" + ex.second + ")", cls = ex.second;
		auto add = [&](const Instruction *I, const std::string &w, const std::string &k) { R.addAt("ROOT-PLACE", fileOf(mu), I ? lineOf(I) : lineOf(mu), sname(mu), w + by, k + by); };
		Spec S; S.calls["nullcGetCurrentExecutor"] = ex.first; S.field("ExternFuncInfo", "contextType", 3);
		Function *F = specialise(mu, S, PLAIN);
		R.stat("root_scans");
		{
			Keys K(F);
			auto one = [&](const std::string &n) -> CallBase* { auto v = callsIn(F, [&](Function *C, CallBase *) { return sname(C) == n; }); return v.empty() ? nullptr : v[0]; };
			CallBase *frame = one(cls + "::GetCallStackAddress"), *st = one(cls + "::GetStackStart"), *en = one(cls + "::GetStackEnd");
			Loop *FL = frame ? loopAt(K, frame) : nullptr;
			if(!frame || !st || !en || !FL) add(nullptr, "the call stack or the registers are not visited", "walk");
			else
			{
				if(frame->arg_size() > 1 && K.of(frame->getArgOperand(1)) != Key(K.names[FL])) add(frame, "the call stack is not walked frame by frame from the first", "frames");
				// functions[X]: the function found for the frame
				Key funcs = table("exFunctions", "data"), types = table("exTypes", "data"), vars = table("exVariables", "data"), locs = table("exLocals", "data");
				Key X; bool haveX = false;
				for(auto *CB : callsIn(F, [&](Function *C, CallBase *) { return classOf(C).compare(0, 7, "HashMap") == 0 && methodOf(C) == "insert"; }))
					if(FL->contains(CB->getParent()) && CB->arg_size() > 2)
					{
						if(K.of(CB->getArgOperand(1)) != K.of(frame)) add(CB, "the function of a frame is remembered for another address", "remember address");
						(void)haveX;
					}
				auto inFrames = [&](const Instruction *I) { return FL->contains(I->getParent()); };
				bool globals = false, locals = false;
				for(auto *CB : callsIn(F, [](Function *C, CallBase *) { return sname(C) == "GC::CheckVariable"; }))
				{
					Loop *L = loopAt(K, CB);
					R.stat("root_calls");
					Key p = K.of(CB->getArgOperand(0)), t = K.of(CB->getArgOperand(1));
					if(!inFrames(CB))
					{
						if(!L) { add(CB, "not every global variable is traced", "globals loop"); continue; }
						globals = true;
						Key v = vars + Key(K.names[L]) * VS;
						if(p != lo() + fld(v, "ExternVarInfo", "offset")) { add(CB, "the traced place is not a global variable", "global place"); }
						if(t != types + fld(v, "ExternVarInfo", "type") * TS) add(CB, "a global variable is traced as another type", "global type");
						checkFull(mu, K, CB, L, table("exVariables", "count"), "not every global variable is traced");
						continue;
					}
					locals = true;
					if(L == FL) { add(CB, "not every local variable is traced", "locals loop"); continue; }
					// find the function record: the local is exLocals[functions[X].offsetToFirstLocal + i]
					std::string lt; for(auto &x : t.c) if(x.first.compare(0, 3, "ld4") == 0) lt = x.first;
					Key rest = p - lo();
					// type comes from local record l: ld4(l + off(type)); the place must use the same record
					bool typed = lt.size() > 5 && t == types + Key(lt) * TS, placed = false;
					Key frameOff;
					Key fr;
					for(auto &x : rest.c)
					{
						// x = ld4(l + off(offset)) for the same l, tested by writing both records out
						for(auto *Lp : { L })
						{
							Key idx(K.names[Lp]);
							// l = locs + LS*(ld4(f + offsetToFirstLocal) + it)
							for(auto &I : instructions(F))
							{
								auto *Ld = dyn_cast<LoadInst>(&I);
								if(!Ld || placed || !Ld->getType()->isIntegerTy(32)) continue;
								Key k = K.of(Ld);
								Key l = locs + (k + idx) * LS;
								if(x.first == fld(l, "ExternLocalInfo", "offset").str())
								{
									placed = true; frameOff = rest - Key(x.first) * 1;
									if(x.second != 1) placed = false;
									if(fld(l, "ExternLocalInfo", "type").str() != lt) typed = false;
									fr = K.of(Ld->getPointerOperand()) - Key(off("ExternFuncInfo", "offsetToFirstLocal"));
									(void)Ld;
									Key bound = fld(fr, "ExternFuncInfo", "localCount");
									checkFull(mu, K, CB, L, bound, "not every local variable is traced" + by);
								}
							}
						}
						if(placed) break;
					}
					if(!placed) { add(CB, "the traced place is not a local variable of the frame", "local place"); continue; }
					if(!typed) add(CB, "a local variable is traced as another type", "local type");
					Key fnIndex = fr - funcs;
					(void)fnIndex; (void)FS;
					// the context pointer is the last argument
					bool ctx = false;
					for(auto *CP : callsIn(F, [](Function *C, CallBase *) { return sname(C) == "GC::CheckPointer"; }))
						if(inFrames(CP))
						{
							ctx = true;
							Key want = lo() + frameOff + fld(fr, "ExternFuncInfo", "argumentSize") - Key(8);
							if(K.of(CP->getArgOperand(0)) != want) { add(CP, "the traced place is not the context of the running function", "context place"); }
						}
					if(!ctx) add(CB, "the context of a running function is not traced", "context");
				}
				if(!globals) add(nullptr, "global variables are not traced", "globals");
				if(!locals) add(nullptr, "local variables of running functions are not traced", "locals");
				// registers
				bool scan = false;
				for(auto *CB : callsIn(F, [](Function *C, CallBase *) { return sname(C) == "NULLC::GetBasePointer"; }))
				{
					Loop *L = loopAt(K, CB);
					if(!L || FL->contains(L)) continue;
					scan = true;
					const Value *arg = CB->getArgOperand(0);
					while(auto *C = dyn_cast<CastInst>(arg)) arg = C->getOperand(0);
					auto *Ld = dyn_cast<LoadInst>(arg);
					if(!Ld) { add(CB, "a register is not looked up by its value", "register value"); continue; }
					Key A = K.of(Ld->getPointerOperand()), it(K.names[L]), START = K.of(st), END = K.of(en);
					Key rel = A - START;
					int64_t step = rel.c.count(K.names[L]) ? rel.c[K.names[L]] : 0;
					if(!(rel == it * step)) { add(Ld, "the scan does not start at the first register", "scan start"); }
					else if(step <= 0 || step > 8 || 8 % step) add(Ld, "the scan steps over registers", "scan step");
					else
						for(auto &e : K.exitsOf(L))
						{
							if(!e.known) { R.stat("loops_of_other_form"); continue; }
							bool top = K.DT.dominates(e.at, Ld);
							// exit only when A + 8 > END (A of the next round for a test at the end)
							Key pos = A + Key(top ? 0 : step) - END;
							int64_t m = 0;
							Key d = e.d;
							CmpInst::Predicate p = e.p;
							if(d.c.count(K.names[L]) && d.c[K.names[L]] < 0) { d = d * -1; p = CmpInst::getSwappedPredicate(p); }
							Key dd = d - pos;
							bool ok = dd.constant();
							if(ok)
							{
								m = dd.k; // exit when pos + m (p) 0; must imply pos + 8 > 0
								if(p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT) ok = m <= 8;
								else if(p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE) ok = m <= 7;
								else if(p == CmpInst::ICMP_EQ) ok = m <= 7 && (m % step) == 0;
								else ok = false;
							}
							else if(e.d.mentions("div(") || e.d.mentions("shr(")) { R.stat("loops_of_other_form"); continue; }
							if(!ok) { add(e.at, "the scan of the registers can end before the last one", "scan end"); }
						}
				}
				if(!scan) add(nullptr, "the registers of running functions are not scanned", "scan");
			}
		}
		// a pointer in a register always leads to its object
		{
			Keys K0(F);
			Key T; bool have = false;
			for(auto *CB : callsIn(F, [](Function *C, CallBase *) { return sname(C) == "NULLC::GetBasePointer"; })) if(loopAt(K0, CB)) { T = K0.of(CB->getArgOperand(0)); have = true; }
			if(have)
				for(bool below : { true, false })
				{
					Traced Q; Q.target = T; Q.below = below;
					Spec N;
					Function *D = decide(F, Q, N);
					R.stat("skip_conditions");
					Keys K(D);
					// loops are numbered anew
					Key T2 = T;
					for(auto *CB : callsIn(D, [](Function *C, CallBase *) { return sname(C) == "NULLC::GetBasePointer"; })) if(loopAt(K, CB)) T2 = K.of(CB->getArgOperand(0));
					Key base = baseOf(T2);
					std::string w = below ? " (object below the stack)" : " (object above the stack)";
					const Instruction *ld = nullptr;
					for(auto &I : instructions(D)) if(isa<LoadInst>(&I) && I.getType()->isPointerTy()) if(loopAt(K, &I) && K.of(&I) == T2) ld = &I;
					for(auto &I : instructions(D)) if(!ld && isa<LoadInst>(&I)) if(loopAt(K, &I) && K.of(&I) == T2) ld = &I;
					Loop *L = ld ? loopAt(K, ld) : nullptr;
					if(!ld) { add(nullptr, "a pointer in a register is not followed" + w, "follow" + w); D->eraseFromParent(); continue; }
					auto bad = [&](const Instruction &I) { return isReturn(I) || &I == &L->getHeader()->front() || !L->contains(I.getParent()); };
					if(pathAvoiding(D, ld, [&](const Instruction &I) { return marks(K, I, base); }, bad)) add(ld, "an object found in a register is not marked" + w, "register mark" + w);
					else if(pathAvoiding(D, ld, [&](const Instruction &I) { return traces(K, I, base); }, bad)) add(ld, "the contents of an object found in a register are not traced" + w, "register queue" + w);
					D->eraseFromParent();
				}
		}
		// the walk ends only after the last frame, and finds the function whose code contains the address
		std::string frameName = cls + "::GetCallStackAddress", startName = cls + "::GetStackStart";
		auto reached = [&](Function *D, const std::string &n) { return !callsIn(D, [&](Function *C, CallBase *) { return sname(C) == n; }).empty(); };
		for(auto &c : std::vector<std::pair<int, bool>>{ { 99, false }, { 100, true }, { 104, true }, { 109, true }, { 110, false }, { 0, false } })
			for(int miss : { 1, 0 })
			{
				Spec Q; Q.calls[frameName] = c.first; Q.field("ExternFuncInfo", "regVmAddress", 100); Q.field("ExternFuncInfo", "regVmCodeSize", 10);
				Q.oracle = [&](const Instruction &I) {
					auto *X = dyn_cast<ICmpInst>(&I);
					if(!X || !X->isEquality()) return -1;
					for(int o : { 0, 1 })
					{
						auto *CB = dyn_cast<CallBase>(X->getOperand(o)); Function *C = CB ? calleeOf(CB) : nullptr;
						if(C && methodOf(C) == "find" && isa<ConstantPointerNull>(X->getOperand(1 - o))) return (X->getPredicate() == CmpInst::ICMP_EQ) == !!miss ? 1 : 0;
					}
					return -1;
				};
				Function *D = specialise(F, Q, PLAIN);
				R.stat("frame_cases");
				bool scan = reached(D, startName);
				bool any = false;
				for(auto *CB : callsIn(D, [](Function *C, CallBase *) { return sname(C) == "GC::CheckVariable"; }))
				{
					const Instruction *first = nullptr;
					for(auto *X : callsIn(D, [&](Function *C, CallBase *) { return sname(C) == frameName; })) if(!first) first = X;
					if(first && !pathAvoiding(D, nullptr, [&](const Instruction &J) { return &J == first; }, [&](const Instruction &J) { return &J == CB; })) any = true;
				}
				if(c.first && scan) add(nullptr, "the walk of the call stack can end before the last frame", "walk end");
				if(!c.first && !scan) add(nullptr, "the registers are not scanned after the walk", "walk no end");
				if(miss && c.first && c.second && !any) add(nullptr, "the function of a frame is not found by its address", "frame function");
				if(miss && c.first && !c.second && any) add(nullptr, "a frame is taken for one of another function", "frame function other");
				D->eraseFromParent();
			}
		// every frame of a function: its locals and its context are looked at whatever the function is
		{
			Spec Q; Q.calls[frameName] = 104; Q.calls["nullcGetCurrentExecutor"] = ex.first;
			Q.field("ExternFuncInfo", "regVmAddress", 100); Q.field("ExternFuncInfo", "regVmCodeSize", 10); Q.field("ExternFuncInfo", "localCount", 1); Q.field("ExternFuncInfo", "contextType", 3);
			if(auto *T = recordOf("Linker")) for(auto &x : fieldsOf(T)) if(x.name == "exFunctions") if(auto *C = dyn_cast_or_null<DICompositeType>(stripType(x.type))) for(auto &y : fieldsOf(C)) if(y.name == "count") Q.fields[{ "FastVector", y.offset }] = 1;
			Q.oracle = [&](const Instruction &I) {
				auto *X = dyn_cast<ICmpInst>(&I);
				if(!X || !X->isEquality()) return -1;
				for(int o : { 0, 1 })
				{
					auto *CB = dyn_cast<CallBase>(X->getOperand(o)); Function *C = CB ? calleeOf(CB) : nullptr;
					if(C && methodOf(C) == "find" && isa<ConstantPointerNull>(X->getOperand(1 - o))) return X->getPredicate() == CmpInst::ICMP_EQ ? 1 : 0;
				}
				return -1;
			};
			Function *D = specialise(mu, Q);
			R.stat("frame_cases");
			auto isFrame = callTo({ frameName });
			auto end = [&](const Instruction &I) { return isFrame(I) || isReturn(I) || callTo({ startName })(I); };
			for(auto *X : callsIn(D, [&](Function *C, CallBase *) { return sname(C) == frameName; }))
			{
				if(pathAvoiding(D, X, callTo({ "GC::CheckVariable" }), end)) add(nullptr, "the local variables of a running function can be skipped", "skip locals");
				if(pathAvoiding(D, X, callTo({ "GC::CheckPointer" }), end)) add(nullptr, "the context of a running function can be skipped", "skip context");
			}
			if(pathAvoiding(D, nullptr, callTo({ "GC::CheckVariable" }), [&](const Instruction &I) { return isFrame(I); })) add(nullptr, "the global variables can be skipped", "skip globals");
			Keys K(D);
			for(auto *CB : callsIn(D, [&](Function *C, CallBase *) { return classOf(C).compare(0, 7, "HashMap") == 0 && methodOf(C) == "insert"; }))
				if(CB->arg_size() > 2) for(auto &k : K.keysOf(CB->getArgOperand(2))) if(k != Key(0)) add(CB, "another function is remembered for the address of a frame", "remember function");
			D->eraseFromParent();
		}
		// where the frames are: each starts at the next multiple of 16 and takes its size rounded up to 16
		for(auto &c : std::vector<std::pair<int, int>>{ { 0, 0 }, { 16, 32 }, { 21, 37 }, { 31, 1 }, { 32, 16 }, { 1040, 4100 } })
		{
			Function *D = cloneFn(F);
			Keys K(D);
			PHINode *O = nullptr;
			Key gv = keyLoad(keyLoad(Key("@NULLC::commonLinker"), 8) + Key(off("Linker", "globalVarSize")), fsize("Linker", "globalVarSize"));
			CallBase *fc = nullptr;
			for(auto *X : callsIn(D, [&](Function *C, CallBase *) { return sname(C) == frameName; })) fc = X;
			Loop *L = fc ? loopAt(K, fc) : nullptr;
			if(L) for(auto &P2 : L->getHeader()->phis())
				for(unsigned i = 0; i < P2.getNumIncomingValues(); i++)
					if(!L->contains(P2.getIncomingBlock(i)) && K.of(P2.getIncomingValue(i)) == gv) O = &P2;
			if(!O) { add(nullptr, "the first frame does not start after the global variables", "first frame"); D->eraseFromParent(); break; }
			// make the next value visible, then fix the current one
			auto *probe = new GlobalVariable(*M, O->getType(), false, GlobalValue::ExternalLinkage, nullptr, "nvlint.probe");
			for(unsigned i = 0; i < O->getNumIncomingValues(); i++)
				if(L->contains(O->getIncomingBlock(i))) new StoreInst(O->getIncomingValue(i), probe, true, O->getIncomingBlock(i)->getTerminator());
			O->replaceAllUsesWith(ConstantInt::get(O->getType(), c.first));
			Spec Q; Q.calls[frameName] = 104; Q.field("ExternFuncInfo", "stackSize", c.second);
			Function *E = specialise(D, Q, PLAIN);
			R.stat("frame_layouts");
			int64_t start = (c.first + 15) & ~15, next = start + ((c.second + 15) & ~15);
			bool seen = false;
			{
				Keys K2(E);
				for(auto &I : instructions(E))
					if(auto *St = dyn_cast<StoreInst>(&I))
						if(St->getPointerOperand() == probe)
							for(auto &k : K2.keysOf(St->getValueOperand()))
							{
								if(k == Key(next)) seen = true;
								else if(k == Key(c.first)) { }
								else { add(nullptr, "the next frame is looked for at the wrong place", "next frame"); }
							}
				for(auto *CB : callsIn(E, [](Function *C, CallBase *) { return sname(C) == "GC::CheckPointer"; }))
				{
					Key k = K2.of(CB->getArgOperand(0)) - lo();
					if(loopAt(K2, CB) && k.k != start - 8) add(CB, "the locals of a frame are looked for at the wrong place", "frame start");
				}
			}
			if(!seen) add(nullptr, "the next frame is looked for at the wrong place", "next frame");
			E->eraseFromParent(); D->eraseFromParent();
			probe->eraseFromParent();
		}
		F->eraseFromParent();
	}
	// ---- the ranges the executors report
	auto path = [&](std::vector<std::pair<std::string, std::string>> p) { Key k; int64_t o = 0; for(auto &x : p) o += off(x.first, x.second); return Key(o); };
	if(Function *F = need("GC::SetUnmanagableRange"))
	{
		normalise(F, nullptr);
		Keys K(F);
		bool b = false, t = false;
		for(auto &I : instructions(F))
			if(auto *St = dyn_cast<StoreInst>(&I))
			{
				Key p = K.of(St->getPointerOperand()), v = K.of(St->getValueOperand());
				if(p == Key("@GC::unmanageableBase")) { b = true; if(v != a0) R.add("STACK-RANGE", St, sname(F), "the range of the stack does not start at its base", "base"); }
				if(p == Key("@GC::unmanageableTop")) { t = true; if(v != a0 + a1) R.add("STACK-RANGE", St, sname(F), "the range of the stack does not end at its end", "top"); }
			}
		R.stat("ranges", 2);
		if(!b || !t) R.addAt("STACK-RANGE", fileOf(F), lineOf(F), sname(F), "the range of the stack is not set", "unset");
	}
	struct Eng { std::string cls; Key start, end, base, size; bool sizeIsDiff; Key callBase, callTop; };
	std::vector<Eng> engines;
	if(findFn("ExecutorRegVm::InitExecution"))
	{
		std::string vec;
		if(auto *T = recordOf("ExecutorRegVm")) for(auto &x : fieldsOf(T)) if(x.name == "dataStack") vec = x.type ? std::string(stripType(x.type)->getName()) : "";
		int64_t d = off("ExecutorRegVm", "dataStack");
		engines.push_back({ "ExecutorRegVm", keyLoad(a0 + Key(off("ExecutorRegVm", "regFileArrayBase")), 8), keyLoad(a0 + Key(off("ExecutorRegVm", "regFileLastTop")), 8), keyLoad(a0 + Key(d + off(vec, "data")), 8), keyLoad(a0 + Key(d + off(vec, "max")), 4), false, Key(), Key() });
	}
	if(findFn("ExecutorX86::InitExecution"))
	{
		std::string st;
		if(auto *T = recordOf("ExecutorX86")) for(auto &x : fieldsOf(T)) if(x.name == "vmState") st = x.type ? std::string(stripType(x.type)->getName()) : "";
		auto at = [&](const char *f) { return keyLoad(a0 + path({ { "ExecutorX86", "vmState" }, { st, f } }), 8); };
		engines.push_back({ "ExecutorX86", at("regFileArrayBase"), at("regFileLastTop"), at("dataStackBase"), at("dataStackEnd") - at("dataStackBase"), true, at("callStackBase"), at("callStackTop") });
	}
	for(auto &e : engines)
	{
		InlinePolicy Q;
		Q.want = [&](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 20 && sname(C) != "GC::SetUnmanagableRange"; };
		for(auto &m : std::vector<std::pair<std::string, Key>>{ { "GetStackStart", e.start }, { "GetStackEnd", e.end } })
		{
			Function *F = need(e.cls + "::" + m.first);
			if(!F) continue;
			normalise(F, &Q);
			Keys K(F);
			R.stat("ranges");
			for(auto &I : instructions(F))
				if(auto *Rt = dyn_cast<ReturnInst>(&I)) if(Rt->getReturnValue()) for(auto &k : K.keysOf(Rt->getReturnValue())) if(k != m.second) R.addAt("STACK-RANGE", fileOf(F), lineOf(F), sname(F), "the reported range of registers is not the range in use", m.first);
		}
		Function *F = need(e.cls + "::InitExecution");
		if(F)
		{
			normalise(F, &Q);
			Keys K(F);
			bool any = false;
			for(auto *CB : callsIn(F, [](Function *C, CallBase *) { return sname(C) == "GC::SetUnmanagableRange"; }))
			{
				any = true;
				R.stat("ranges");
				if(K.of(CB->getArgOperand(0)) != e.base || K.of(CB->getArgOperand(1)) != e.size) { R.addAt("STACK-RANGE", fileOf(F), lineOf(CB), sname(F), "the range given to the collector is not the whole stack", "range"); }
			}
			auto leave = [](const Instruction &I) { auto *Rt = dyn_cast<ReturnInst>(&I); if(!Rt) return false; auto *c = Rt->getReturnValue() ? dyn_cast<ConstantInt>(Rt->getReturnValue()) : nullptr; return !(c && c->isZero()); };
			if(!any || (F->getReturnType()->isVoidTy() && pathAvoiding(F, nullptr, callTo({ "GC::SetUnmanagableRange" }), leave))) R.addAt("STACK-RANGE", fileOf(F), lineOf(F), sname(F), "execution starts without telling the collector where the stack is", "no range");
		}
		if(Function *G = need(e.cls + "::GetCallStackAddress"))
		{
			normalise(G, &Q);
			Keys K(G);
			R.stat("ranges");
			// a comparison of the frame number with the number of frames
			for(auto &I : instructions(G))
				if(auto *X = dyn_cast<ICmpInst>(&I))
				{
					Key d = K.of(X->getOperand(0)) - K.of(X->getOperand(1));
					if(!d.c.count("a1")) continue;
					auto p = X->getPredicate();
					if(d.c["a1"] < 0) { d = d * -1; p = CmpInst::getSwappedPredicate(p); }
					// frame - count >= 0: no such frame; frame - count < 0: there is one
					bool exact = p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_SLT;
					if(d.c.size() == 2 && (d.k != 0 || !exact)) R.addAt("STACK-RANGE", fileOf(G), lineOf(X), sname(G), "the number of frames reported is not the number of calls", "frames");
				}
			// the address comes from the entry of the frame
			for(auto &I : instructions(G))
				if(auto *Ld = dyn_cast<LoadInst>(&I))
				{
					Key k = K.of(Ld->getPointerOperand());
					if(k.c.count("a1") && !e.callBase.constant())
					{
						Key rest = k - e.callBase;
						if(rest.c.size() != 1 || rest.k < 0 || rest.k >= rest.c["a1"]) R.addAt("STACK-RANGE", fileOf(G), lineOf(Ld), sname(G), "the address of a frame is taken from another entry", "entry");
					}
				}
		}
	}
	// ---- heap arrays have the same layout for the allocator, the tracer and the finalizer
	if(Function *F = need("NULLC::AllocArray"))
	{
		InlinePolicy Q;
		Q.want = [&](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 20 && sname(C) != "NULLC::AllocObject" && !isVec(C); };
		normalise(F, &Q);
		for(int al : paddingCases())
		{
			Spec S; S.field("ExternTypeInfo", "defaultAlign", al);
			Function *D = specialise(F, S, PLAIN);
			R.stat("array_layouts");
			Keys K(D);
			unsigned cArg = D->arg_size() - 2;
			for(auto *CB : callsIn(D, [](Function *C, CallBase *) { return sname(C) == "NULLC::AllocObject"; }))
			{
				Key obj = K.of(CB);
				bool count = false;
				for(auto &I : instructions(D))
					if(auto *St = dyn_cast<StoreInst>(&I))
					{
						Key p = K.of(St->getPointerOperand()), v = K.of(St->getValueOperand());
						if(p == obj + Key(padOf(al) - 4) && v == Key("a" + std::to_string(cArg)) && St->getValueOperand()->getType()->isIntegerTy(32)) count = true;
					}
				if(!count) R.addAt("ARRAY-LAYOUT", fileOf(F), lineOf(CB), sname(F), "the number of elements is not stored where the tracer reads it", "count");
				for(auto &I : instructions(D))
					if(auto *In = dyn_cast<InsertValueInst>(&I)) { Key v = K.of(In->getInsertedValueOperand()); if(v.mentions("AllocObject") && v != obj + Key(padOf(al))) R.addAt("ARRAY-LAYOUT", fileOf(F), lineOf(CB), sname(F), "the elements do not start where the tracer looks for them", "elements"); }
				for(auto &I : instructions(D))
					if(auto *St = dyn_cast<StoreInst>(&I)) { Key v = K.of(St->getValueOperand()); if(St->getValueOperand()->getType()->isPointerTy() && v.c.size() == 1 && v.mentions("AllocObject") && v.c.begin()->first == obj.c.begin()->first && v != obj + Key(padOf(al))) R.addAt("ARRAY-LAYOUT", fileOf(F), lineOf(St), sname(F), "the elements do not start where the tracer looks for them", "elements"); }
			}
			D->eraseFromParent();
		}
	}
	std::vector<Function*> fins;
	for(Function *F : definedFns()) if(methodOf(F) == "FinalizePending" && (isPoolFn(F) || classOf(F) == "NULLC")) fins.push_back(F);
	for(Function *F : fins)
	{
		InlinePolicy Q;
		Q.want = [&](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 30 && sname(C) != "NULLC::FinalizeObject" && classOf(C) != "GC" && !isPush(C) && !(isVec(C) && methodOf(C) != "operator[]" && methodOf(C) != "size"); };
		normalise(F, &Q);
		for(int al : paddingCases())
			for(int arr : { 0, 16 })
			{
				Spec S; S.field("ExternTypeInfo", "defaultAlign", al); S.masks = true; S.maskValue = arr;
				Function *D = specialise(F, S, PLAIN);
				R.stat("array_layouts");
				Keys K(D);
				// the word before the object is the one marked
				std::set<Key> words;
				for(auto &I : instructions(D)) if(storesOr(I, 1)) words.insert(K.of(cast<StoreInst>(&I)->getPointerOperand()));
				for(auto *CB : callsIn(D, [](Function *C, CallBase *) { return sname(C) == "GC::CheckArrayElements" || sname(C) == "GC::CheckVariable"; }))
				{
					bool elems = sname(calleeOf(CB)) == "GC::CheckArrayElements";
					bool ok = false;
					for(auto &w : words)
					{
						Key obj = w + Key(8), ty = typeAt(Key("lshr(" + keyLoad(w, 8).str() + ",8)"));
						std::vector<Key> want = elems ? std::vector<Key>{ obj + Key(padOf(al)), keyLoad(obj + Key(padOf(al) - 4), 4) } : std::vector<Key>{ obj };
						bool all = elems == !!arr;
						for(size_t i = 0; i < want.size(); i++) if(K.of(CB->getArgOperand(i)) != want[i]) all = false;
						(void)ty;
						if(all) ok = true;
					}
					if(!ok) { R.addAt("ARRAY-LAYOUT", fileOf(F), lineOf(CB), sname(F), "the contents of a finalized object are not looked for where they are", "finalize"); }
				}
				D->eraseFromParent();
			}
	}
	if(Function *F = need("NULLC::FinalizeObject"))
	{
		InlinePolicy Q;
		Q.want = [&](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 30 && !isPush(C) && !(isVec(C) && methodOf(C) != "operator[]" && methodOf(C) != "size"); };
		normalise(F, &Q);
		for(int al : paddingCases())
			for(int arr : { 0, 16 })
			{
				Spec S; S.field("ExternTypeInfo", "defaultAlign", al); S.masks = true; S.maskValue = arr;
				Function *D = specialise(F, S, PLAIN);
				R.stat("array_layouts");
				Keys K(D);
				for(auto *CB : callsIn(D, [](Function *C, CallBase *) { return isPush(C); }))
				{
					Loop *L = loopAt(K, CB);
					if(!!L != !!arr) { R.addAt("ARRAY-LAYOUT", fileOf(F), lineOf(CB), sname(F), "the finalizer does not run for every element", "finalize count"); continue; }
					if(L)
					{
						Key count = keyLoad(a1 + Key(8 + padOf(al) - 4), 4);
						checkFull(F, K, CB, L, count, "the finalizer does not run for every element");
					}
				}
				D->eraseFromParent();
			}
	}
	// ---- the object behind an address
	for(Function *F : definedFns())
		if(isPoolFn(F) && methodOf(F) == "GetBasePointer")
		{
			InlinePolicy Q;
			Q.want = [](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 40; };
			normalise(F, &Q);
			std::string c = classOf(F);
			int64_t elem = atoll(c.c_str() + c.find('<') + 1);
			size_t comma = c.find(',');
			int64_t count = comma == std::string::npos ? 0 : atoll(c.c_str() + comma + 1);
			auto *LB = recordOf("LargeBlock<" + c.substr(c.find('<') + 1));
			int64_t page = -1;
			if(LB) for(auto &x : fieldsOf(LB)) if(x.name == "page") { page = x.offset; if(!count) count = x.size / elem; }
			if(page < 0) { R.brk("page of " + c + " not found"); continue; }
			{
				DominatorTree DT(*F); LoopInfo LI(DT);
				for(auto *L : LI.getLoopsInPreorder())
				{
					R.stat("lookup_loops");
					if(auto *I = idlePath(L)) R.addAt("LOOKUP", fileOf(F), lineOf(I), sname(F), "the search of a page can go on forever", "idle");
				}
			}
			// the page is found among any number of sorted pages
			auto *PR = recordOf(c);
			int64_t vec = -1;
			if(PR) for(auto &x : fieldsOf(PR)) if(x.name == "sortedPages") vec = x.offset;
			if(vec >= 0 && LB)
			{
				const int64_t size = (int64_t)(LB->getSizeInBits() / 8);
				bool known = true, ok = true;
				for(int n = 0; n <= 6 && known && ok; n++)
					for(int gap : { 16, 4096 })
					{
						std::vector<uint64_t> pages;
						for(int i = 0; i < n; i++) pages.push_back(0x10000000ull + i * (size + gap));
						auto expect = [&](uint64_t a, int64_t want)
						{
							if(!known || !ok) return;
							R.stat("search_cases");
							int64_t got = searchPages(F, vec, pages, a);
							if(got == -1) known = false;
							else if(got != want) ok = false;
						};
						expect(0x8000000, 0);
						expect(0x70000000, 0);
						for(int i = 0; i < n; i++)
						{
							int64_t base = (int64_t)pages[i] + page;
							for(int64_t o : { (int64_t)0, (int64_t)1, count / 2, count - 1 })
							{
								int64_t obj = base + elem * o + 8;
								expect(obj, obj);
								if(elem > 8) { expect(obj + 1, obj); expect(obj + elem - 9, obj); }
							}
							// around the objects there is nothing else to be found
							for(int64_t at : { base - page, base - 1, base, base + 7, base + elem * count, base + elem * count + 7, base + elem * count + 8, base + elem * count + 16 })
								if(known && ok)
								{
									R.stat("search_cases");
									int64_t got = searchPages(F, vec, pages, at);
									if(got == -1) known = false;
									bool object = got == 0;
									for(auto pg : pages) { int64_t o = got - (int64_t)pg - page - 8; if(o >= 0 && o < elem * count && o % elem == 0) object = true; }
									if(!object) ok = false;
								}
							if(gap > 64) expect(pages[i] + size + gap / 2, 0);
						}
					}
				if(!known) R.stat("searches_of_other_form");
				else if(!ok) R.addAt("LOOKUP", fileOf(F), lineOf(F), sname(F), "the search for the page of an address does not find it among sorted pages", "search");
			}
		}
	// ---- new pages are sorted in
	for(Function *F : definedFns())
		if(isPoolFn(F) && methodOf(F) == "Alloc")
		{
			auto *PR = recordOf(classOf(F));
			if(!PR) continue;
			InlinePolicy Q;
			Q.want = [](Function *C, CallBase *) { return inRepo(C) && instrCount(C) < 40 && sname(C).find("::grow") == std::string::npos; };
			normalise(F, &Q);
			for(int n = 0; n < 5; n++)
				for(int at = 0; at <= n; at++)
				{
					std::vector<uint64_t> pages, want;
					for(int i = 0; i < n; i++) pages.push_back(0x10000000ull + i * 0x200000);
					want = pages;
					std::vector<uint64_t> got;
					// the address that the allocator turns into the page is within 64 bytes
					uint64_t fresh = 0x10000000ull - 0x100000 + at * 0x200000ull;
					got = insertPage(F, PR, pages, fresh);
					if(got.empty()) { R.stat("insertions_of_other_form"); continue; }
					R.stat("insertions");
					bool ok = got.size() == pages.size() + 1 && std::is_sorted(got.begin(), got.end());
					for(auto x : pages) if(!std::count(got.begin(), got.end(), x)) ok = false;
					size_t news = 0;
					for(auto x : got) if(x >= fresh && x < fresh + 64) news++;
					if(news != 1) ok = false;
					if(!ok) { R.addAt("LOOKUP", fileOf(F), lineOf(F), sname(F), "a new page is not sorted into the pages that addresses are looked up in", "insert"); n = 99; break; }
				}
		}
	if(Function *A = findFn("NULLC::AllocObject")) if(Function *B = findFn("NULLC::GetBasePointer"))
	{
		for(uint64_t size : { 520, 1000, 100000 })
		{
			bool decided = false;
			std::string e = searchLarge(A, B, size, decided);
			R.stat(decided || !e.empty() ? "large_objects" : "large_objects_of_other_form");
			if(!e.empty()) R.addAt("LOOKUP", fileOf(B), lineOf(B), sname(B), e, "large");
		}
	}
	// ---- the work list is drained
	{
		auto pending = [&](int n) { Spec S; S.nonNull = true; for(auto *T : allRecords()) if(T->getName().starts_with("FastVector<char *")) for(auto &f : fieldsOf(T)) if(f.name == "count") { S.fields[{ "FastVector", f.offset }] = n; } return S; };
		Spec S = pending(1), Z = pending(0);
		Function *F = specialise(mp, S, PLAIN);
		R.stat("specialised_cases", 2);
		if(reaches(F, [](const Instruction &I) { return isReturn(I); })) R.addAt("TRACED-ALL", fileOf(mp), lineOf(mp), sname(mp), "tracing ends while objects are queued", "drain");
		F->eraseFromParent();
		F = specialise(mp, Z, PLAIN);
		if(!reaches(F, [](const Instruction &I) { return isReturn(I); })) R.addAt("TRACED-ALL", fileOf(mp), lineOf(mp), sname(mp), "tracing does not end", "no end");
		F->eraseFromParent();
		Keys K(mp);
		bool any = false;
		for(auto *CB : callsIn(mp, [](Function *C, CallBase *) { return sname(C) == "GC::CheckBasePointer"; }))
		{
			any = true;
			Loop *L = loopAt(K, CB);
			if(!L) continue; // reported by gcmark
			Key k = K.of(CB->getArgOperand(0));
			int64_t dataOff = -1, countOff = -1;
			for(auto *T : allRecords()) if(T->getName().starts_with("FastVector<char *")) for(auto &f : fieldsOf(T)) { if(f.name == "data") dataOff = f.offset; if(f.name == "count") countOff = f.offset; }
			bool ok = false;
			Key cont;
			for(auto &I : instructions(mp))
				if(auto *Ld = dyn_cast<LoadInst>(&I))
				{
					Key c = K.of(Ld);
					if(k == keyLoad(keyLoad(c + Key(dataOff), 8) + Key(K.names[L]) * 8, 8)) { ok = true; cont = c; }
				}
			if(!ok) { R.addAt("TRACED-PLACE", fileOf(mp), lineOf(CB), sname(mp), "the traced objects are not those of the list", "list"); continue; }
			checkFull(mp, K, CB, L, keyLoad(cont + Key(countOff), 4), "not every queued object is traced");
		}
		(void)any;
	}
}
