// C22: the linker translates every reference of the records and of the code that it appends
#include "rules.h"
#include "llvm/Analysis/LoopInfo.h"
namespace
{
typedef std::set<std::string> Labels;
struct Place { std::string table; const Value *index = nullptr; std::string rec; uint64_t off = ~0ull; const Instruction *root = nullptr; };
std::map<uint64_t, std::string> linkerField; // offset in Linker -> name
std::map<std::string, std::map<uint64_t, std::string>> recFields;
std::string recOf(StringRef n) { for(auto p : { "struct.", "class." }) if(n.starts_with(p)) n = n.drop_front(strlen(p)); return n.str(); }
bool isThis(const Value *v) { auto *A = dyn_cast<Argument>(v); return A && A->getArgNo() == 0; }
// the table of the linker that a pointer to it (a FastVector member, or a pointer loaded from its data) belongs to
std::string tableOf(const Value *v)
{
	v = v->stripPointerCasts();
	if(auto *L = dyn_cast<LoadInst>(v)) v = L->getPointerOperand();
	APInt off(64, 0);
	const Value *b = v->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
	if(!isThis(b)) return "";
	auto it = linkerField.upper_bound(off.getZExtValue());
	if(it == linkerField.begin()) return "";
	return (--it)->second;
}
std::string method(const CallBase *CB)
{
	Function *C = calleeOf(CB);
	if(!C) return "";
	std::string n = sname(C);
	if(n.compare(0, 10, "FastVector") != 0) return "";
	size_t p = n.rfind("::");
	return p == std::string::npos ? "" : n.substr(p + 2);
}
Place placeOf(const Value *p, int depth = 0)
{
	Place P;
	uint64_t extra = 0;
	while(true)
	{
		p = p->stripPointerCasts();
		auto *G = dyn_cast<GEPOperator>(p);
		if(!G) break;
		APInt off(64, 0);
		bool cst = G->accumulateConstantOffset(M->getDataLayout(), off);
		auto *ST = dyn_cast<StructType>(G->getSourceElementType());
		if(ST && ST->hasName() && P.rec.empty())
		{
			P.rec = recOf(ST->getName());
			// the indices after the first one select the field
			APInt fo(64, 0);
			SmallVector<Value*, 4> ix(G->idx_begin() + 1, G->idx_end());
			uint64_t o = 0; bool ok = true;
			if(!ix.empty())
			{
				SmallVector<Value*, 4> full; full.push_back(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)); full.append(ix.begin(), ix.end());
				for(auto *x : ix) if(!isa<ConstantInt>(x)) ok = false;
				if(ok) o = M->getDataLayout().getIndexedOffsetInType(ST, full);
			}
			P.off = ok ? o + extra : ~0ull;
		}
		if(!cst)
		{
			if(!P.index) P.index = *G->idx_begin();
			p = G->getPointerOperand();
			continue;
		}
		if(P.rec.empty()) extra += off.getZExtValue();
		p = G->getPointerOperand();
	}
	if(auto *CB = dyn_cast<CallBase>(p))
	{
		std::string m = method(CB);
		if(m == "operator[]" || m == "back") { P.table = tableOf(CB->getArgOperand(0)); P.root = CB; if(m == "operator[]") P.index = CB->getArgOperand(1); if(P.off == ~0ull) P.off = extra; }
	}
	else if(isa<LoadInst>(p)) { P.table = tableOf(p); P.root = dyn_cast<Instruction>(p); if(P.off == ~0ull) P.off = extra; }
	else if(auto *A = dyn_cast<AllocaInst>(p)) // a local copy that is appended later
	{
		for(auto *U : A->users()) if(auto *CB = dyn_cast<CallBase>(U)) if(method(CB) == "push_back" && CB->arg_size() == 2 && CB->getArgOperand(1) == A) { P.table = tableOf(CB->getArgOperand(0)); P.root = CB; }
		if(P.off == ~0ull) P.off = extra;
	}
	else if(auto *Ph = dyn_cast<PHINode>(p); Ph && depth < 2)
	{
		for(auto &in : Ph->incoming_values()) if(in.get() != Ph) { Place Q = placeOf(in.get(), depth + 1); if(!Q.table.empty() && P.table.empty()) { P.table = Q.table; P.root = Q.root; } }
		if(P.off == ~0ull) P.off = extra;
	}
	return P;
}
const std::map<std::string, std::string> elemRec = { { "exTypes", "ExternTypeInfo" }, { "exTypeExtra", "ExternMemberInfo" }, { "exTypeConstants", "ExternConstantInfo" }, { "exVariables", "ExternVarInfo" }, { "exFunctions", "ExternFuncInfo" },
	{ "exLocals", "ExternLocalInfo" }, { "exModules", "ExternModuleInfo" }, { "exRegVmSourceInfo", "ExternSourceInfo" }, { "exRegVmCode", "RegVmCmd" } };
std::string fieldName(Place &P)
{
	if(P.rec.empty() && elemRec.count(P.table)) P.rec = elemRec.at(P.table);
	if(P.rec.empty() || P.off == ~0ull) return "";
	auto &f = recFields[P.rec];
	if(f.empty()) if(auto *T = recordOf(P.rec)) for(auto &x : fieldsOf(T)) { auto &n = f[x.offset]; n = n.empty() ? x.name : std::min(n, x.name) + "/" + std::max(n, x.name); }
	auto it = f.find(P.off);
	return it == f.end() ? "" : P.rec + "." + it->second;
}
// what a value is computed from; sizes: the instructions that read the size of a table or of the globals
void slice(const Value *v, Labels &out, std::vector<std::pair<std::string, const Instruction*>> *sizes, std::set<const Value*> &seen, int depth = 0)
{
	if(depth > 40 || !seen.insert(v).second || isa<Constant>(v)) return;
	auto *I = dyn_cast<Instruction>(v);
	if(!I) return;
	if(auto *L = dyn_cast<LoadInst>(I))
	{
		std::string t = tableOf(L->getPointerOperand());
		APInt off(64, 0);
		const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
		if(isThis(b) && !t.empty())
		{
			auto it = linkerField.upper_bound(off.getZExtValue()); --it;
			if(t == "globalVarSize") { out.insert(t); if(sizes) sizes->push_back({ t, I }); }
			else if(L->getType()->isIntegerTy(32)) { out.insert(t + ".size"); if(sizes) sizes->push_back({ t, I }); } // count or max
			else out.insert(t);
			return;
		}
		Place P = placeOf(L->getPointerOperand());
		std::string f = fieldName(P);
		if(!f.empty()) out.insert(f);
		if(!P.table.empty())
		{
			{ Labels ix; std::set<const Value*> s2; if(P.index) slice(P.index, ix, nullptr, s2, depth + 1); if(f.empty()) out.insert(P.table + "[]"); for(auto &x : ix) out.insert(P.table + "[" + x + "]"); }
		}
		else if(!f.empty()) { }
		else out.insert("?");
		return;
	}
	if(auto *CB = dyn_cast<CallBase>(I))
	{
		std::string m = method(CB);
		if(m == "size" || m == "count") { std::string t = tableOf(CB->getArgOperand(0)); out.insert(t + ".size"); if(sizes) sizes->push_back({ t, I }); }
		else if(Function *C = calleeOf(CB)) { if(C->isIntrinsic()) for(auto &a : CB->args()) slice(a.get(), out, sizes, seen, depth + 1); else out.insert(sname(C) + "()"); }
		return;
	}
	for(auto &o : I->operands()) slice(o.get(), out, sizes, seen, depth + 1);
}
Labels labelsOf(const Value *v, std::vector<std::pair<std::string, const Instruction*>> *sizes = nullptr) { Labels l; std::set<const Value*> s; slice(v, l, sizes, s); return l; }
std::string join(const Labels &l) { std::string r; for(auto &x : l) if(x.find('[') == std::string::npos || x.back() == ']') r += (r.empty() ? "" : ", ") + x; return r.empty() ? "nothing" : r; }
bool grows(const Instruction &I, const std::string &table)
{
	if(auto *S = dyn_cast<StoreInst>(&I)) { if(table == "globalVarSize") { APInt off(64, 0); const Value *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true); return isThis(b) && tableOf(S->getPointerOperand()) == table; } return false; }
	auto *CB = dyn_cast<CallBase>(&I);
	if(!CB || table == "globalVarSize") return false;
	std::string m = method(CB);
	return (m == "resize" || m == "push_back" || m == "grow") && tableOf(CB->getArgOperand(0)) == table;
}
// replace the loads of a byte of a command by a constant
void pin(Function *F, uint64_t off, uint64_t value, unsigned bits)
{
	std::vector<LoadInst*> ls;
	for(auto &I : instructions(F)) if(auto *L = dyn_cast<LoadInst>(&I)) if(L->getType()->isIntegerTy(bits)) { Place P = placeOf(L->getPointerOperand()); if(P.table == "exRegVmCode" && P.off == off) ls.push_back(L); }
	for(auto *L : ls) { L->replaceAllUsesWith(ConstantInt::get(L->getType(), value)); L->eraseFromParent(); }
}
// linear form over named atoms; ok is false when something else takes part
struct Aff { bool ok = true; int64_t c = 0; std::map<std::string, int64_t> a; };
Aff affOf(const Value *v, const std::function<bool(const Instruction*, const std::string&)> &isOld, const std::map<const Value*, Aff> &subst, int depth = 0)
{
	Aff r;
	auto s = subst.find(v);
	if(s != subst.end()) return s->second;
	if(depth > 20) { r.ok = false; return r; }
	if(auto *K = dyn_cast<ConstantInt>(v)) { r.c = K->getSExtValue(); return r; }
	auto *I = dyn_cast<Instruction>(v);
	if(!I) { r.ok = false; return r; }
	if(isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I)) return affOf(I->getOperand(0), isOld, subst, depth + 1);
	if(auto *B = dyn_cast<BinaryOperator>(I))
		if(B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)
		{
			Aff x = affOf(B->getOperand(0), isOld, subst, depth + 1), y = affOf(B->getOperand(1), isOld, subst, depth + 1);
			int64_t k = B->getOpcode() == Instruction::Add ? 1 : -1;
			r.ok = x.ok && y.ok; r.c = int32_t(x.c + k * y.c); r.a = x.a;
			for(auto &e : y.a) { r.a[e.first] += k * e.second; if(!r.a[e.first]) r.a.erase(e.first); }
			return r;
		}
	if(auto *CB = dyn_cast<CallBase>(I)) if(method(CB) == "size") { std::string t = tableOf(CB->getArgOperand(0)); r.a[t + (isOld(CB, t) ? ".old" : ".size")] = 1; return r; }
	if(auto *L = dyn_cast<LoadInst>(I)) { Place P = placeOf(L->getPointerOperand()); std::string f = fieldName(P); if(!f.empty()) { r.a[(P.table.empty() ? "" : P.table + ":") + f] = 1; return r; } }
	r.ok = false;
	return r;
}
std::string affStr(const Aff &a) { std::string r; for(auto &x : a.a) r += (r.empty() ? "" : " + ") + (x.second == 1 ? "" : std::to_string(x.second) + "*") + x.first; if(a.c || r.empty()) r += (r.empty() ? "" : a.c < 0 ? " - " : " + ") + std::to_string(r.empty() ? a.c : std::abs(a.c)); return r; }
// value of an expression over the argument of the command, everything else that is loaded is zero
bool evalArg(const Value *v, uint64_t arg, uint64_t &out, int depth = 0)
{
	if(depth > 30) return false;
	if(auto *K = dyn_cast<ConstantInt>(v)) { out = K->getZExtValue(); return true; }
	if(auto *L = dyn_cast<LoadInst>(v)) { Place P = placeOf(L->getPointerOperand()); out = P.table == "exRegVmCode" && P.off == 4 ? arg : 0; return true; }
	if(auto *CB = dyn_cast<CallBase>(v)) { out = 0; return method(CB) == "size"; }
	auto *I = dyn_cast<Instruction>(v);
	if(!I || !I->getType()->isIntegerTy()) return false;
	uint64_t m = I->getType()->getIntegerBitWidth() >= 64 ? ~0ull : (1ull << I->getType()->getIntegerBitWidth()) - 1, a, b;
	if(isa<ZExtInst>(I) || isa<TruncInst>(I)) { if(!evalArg(I->getOperand(0), arg, a, depth + 1)) return false; out = a & m; return true; }
	if(auto *S = dyn_cast<SelectInst>(I)) { if(!evalArg(S->getCondition(), arg, a, depth + 1)) return false; return evalArg(a ? S->getTrueValue() : S->getFalseValue(), arg, out, depth + 1); }
	if(I->getNumOperands() != 2 || !evalArg(I->getOperand(0), arg, a, depth + 1) || !evalArg(I->getOperand(1), arg, b, depth + 1)) return false;
	if(auto *C = dyn_cast<ICmpInst>(I)) { unsigned w = C->getOperand(0)->getType()->getIntegerBitWidth(); out = ICmpInst::compare(APInt(w, a), APInt(w, b), C->getPredicate()); return true; }
	switch(I->getOpcode())
	{
	case Instruction::Add: out = (a + b) & m; return true;
	case Instruction::Sub: out = (a - b) & m; return true;
	case Instruction::And: out = a & b; return true;
	case Instruction::Or: out = a | b; return true;
	case Instruction::Xor: out = a ^ b; return true;
	case Instruction::Mul: out = (a * b) & m; return true;
	case Instruction::Shl: out = b < 64 ? (a << b) & m : 0; return true;
	case Instruction::LShr: out = b < 64 ? a >> b : 0; return true;
	}
	return false;
}
enum Kind { KNone, KAddress, KJump, KFuncIndex, KTypeIndex, KMicro, KMicroCall, KMicroReturn };
}
RULE(linkmap)
{
	auto *LT = recordOf("Linker");
	Function *F = findFn("Linker::LinkCode");
	if(!LT || !F) { R.brk("Linker::LinkCode not found"); return; }
	for(auto &f : fieldsOf(LT)) linkerField[f.offset] = f.name;
	InlinePolicy P;
	P.want = [&](Function *C, CallBase *) { std::string f = fileOf(C); return (f == "NULLC/Linker.cpp" || f == "NULLC/Linker.h") && sname(C) != "Linker::LinkCode"; };
	normalise(F, &P, true);
	// ---- records
	struct Need { const char *field; std::vector<const char*> all; const char *old; bool optional; };
	const std::vector<Need> needs = {
		{ "ExternTypeInfo.offsetToName", { "exSymbols.size", "ExternTypeInfo.offsetToName" }, "exSymbols", false },
		{ "ExternTypeInfo.baseType", { "typeRemap[ExternTypeInfo.baseType]" }, nullptr, true },
		{ "ExternTypeInfo.memberOffset/subType", { "exTypeExtra.size", "typeRemap[ExternTypeInfo.memberOffset/subType]" }, nullptr, true },
		{ "ExternTypeInfo.constantOffset", { "exTypeConstants.size" }, nullptr, true },
		{ "ExternMemberInfo.type", { "typeRemap[ExternMemberInfo.type]" }, nullptr, false },
		{ "ExternConstantInfo.type", { "typeRemap[ExternConstantInfo.type]" }, nullptr, false },
		{ "ExternVarInfo.type", { "typeRemap[ExternVarInfo.type]" }, nullptr, false },
		{ "ExternVarInfo.offsetToName", { "exSymbols.size", "ExternVarInfo.offsetToName" }, "exSymbols", false },
		{ "ExternVarInfo.offset", { "globalVarSize", "ExternVarInfo.offset" }, "globalVarSize", false },
		{ "ExternLocalInfo.type", { "typeRemap[ExternLocalInfo.type]" }, nullptr, false },
		{ "ExternLocalInfo.offsetToName", { "exSymbols.size", "ExternLocalInfo.offsetToName" }, "exSymbols", false },
		{ "ExternFuncInfo.offsetToName", { "exSymbols.size", "ExternFuncInfo.offsetToName" }, "exSymbols", false },
		{ "ExternFuncInfo.offsetToFirstLocal", { "exLocals.size", "ExternFuncInfo.offsetToFirstLocal" }, "exLocals", false },
		{ "ExternFuncInfo.funcType", { "typeRemap[ExternFuncInfo.funcType]" }, nullptr, false },
		{ "ExternFuncInfo.parentType", { "typeRemap[ExternFuncInfo.parentType]" }, nullptr, true },
		{ "ExternFuncInfo.contextType", { "typeRemap[ExternFuncInfo.contextType]" }, nullptr, true },
		{ "ExternFuncInfo.regVmAddress", { "exRegVmCode.size", "ExternFuncInfo.regVmAddress" }, "exRegVmCode", true },
		{ "ExternSourceInfo.instruction", { "exRegVmCode.size", "ExternSourceInfo.instruction" }, "exRegVmCode", false },
		{ "ExternSourceInfo.sourceOffset", { "exSource.size", "ExternSourceInfo.sourceOffset", "ExternModuleInfo.sourceOffset" }, "exSource", false },
		{ "ExternModuleInfo.nameOffset", { "exSymbols.size", "ExternModuleInfo.nameOffset" }, "exSymbols", true },
		{ "ExternModuleInfo.funcStart", { "exFunctions.size", "ExternModuleInfo.funcCount" }, nullptr, false },
		{ "ExternModuleInfo.variableOffset", { "globalVarSize", "ByteCode.globalVarSize" }, nullptr, false },
		{ "ExternModuleInfo.sourceOffset", { "exSource.size", "ByteCode.sourceSize" }, nullptr, false },
	};
	std::map<std::string, std::vector<const StoreInst*>> stores;
	for(auto &I : instructions(F)) if(auto *S = dyn_cast<StoreInst>(&I))
	{
		Place Q = placeOf(S->getPointerOperand());
		if(Q.table.empty()) continue;
		std::string f = fieldName(Q);
		if(f.empty()) f = Q.table + "[]";
		stores[f].push_back(S);
		if(!args.empty()) { errs() << locOf(S) << " " << f << " := " << join(labelsOf(S->getValueOperand())) << "\n"; }
	}
	// values that are read before the table has grown
	auto oldOk = [&](const StoreInst *S, const std::string &table) -> const Instruction* {
		std::vector<std::pair<std::string, const Instruction*>> sizes;
		for(auto &x : labelsOf(S->getValueOperand(), &sizes)) if(x.compare(0, 9, "ByteCode.") == 0) return S;
		for(auto &p : sizes) if(p.first == table)
			for(auto &I : instructions(F)) if(grows(I, table))
				if(pathAvoiding(F, &I, [](const Instruction &) { return false; }, [&](const Instruction &X) { return &X == p.second; })) return p.second;
		return nullptr;
	};
	// data of another module is found through the module table of this module
	auto foreign = [&](const StoreInst *S, const std::string &what) {
		Labels l = labelsOf(S->getValueOperand());
		if((l.count("ExternModuleInfo.variableOffset") || l.count("ExternModuleInfo.sourceOffset")) && !l.count("exModules[moduleRemap[]]"))
			R.add("LINK-MODULE", S, "Linker::LinkCode", what + " uses the place of a module that is not selected through moduleRemap", what + "#module");
	};
	DominatorTree DT(*F);
	LoopInfo LI(DT);
	auto isOld = [&](const Instruction *at, const std::string &table) {
		for(auto &I : instructions(F)) if(grows(I, table)) if(pathAvoiding(F, &I, [](const Instruction &) { return false; }, [&](const Instruction &X) { return &X == at; })) return false;
		return true;
	};
	// a loop over the new records of a table covers exactly these
	std::set<std::string> ranged;
	auto range = [&](const Instruction *root, const Value *index, const std::string &table, const std::string &first) {
		auto *L = LI.getLoopFor(root->getParent());
		if(!L || !L->getLoopPreheader() && !L->getLoopPredecessor()) return;
		auto *pre = L->getLoopPredecessor();
		std::map<const Value*, Aff> start, none;
		for(auto &Ph : L->getHeader()->phis()) { if(!Ph.getType()->isIntegerTy()) continue; Aff a = affOf(Ph.getIncomingValueForBlock(pre), isOld, none); start[&Ph] = a; }
		Aff a = affOf(index, isOld, start);
		if(!a.ok) return;
		if(!ranged.insert(table + locOf(root)).second) return;
		R.stat("ranges");
		if(a.c != 0 || a.a.size() != 1 || !a.a.count(first)) R.add("LINK-RANGE", root, "Linker::LinkCode", "the new records of " + table + " are visited from " + affStr(a) + " on, not from " + first, table + "#start");
		// the bound, for loops that are left in the header
		auto *Br = dyn_cast<BranchInst>(L->getHeader()->getTerminator());
		auto *C = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
		if(!C || !L->contains(Br->getSuccessor(0))) return;
		Aff l = affOf(C->getOperand(0), isOld, start), b = affOf(C->getOperand(1), isOld, start);
		auto pr = C->getPredicate();
		if(pr == ICmpInst::ICMP_UGT || pr == ICmpInst::ICMP_SGT) { std::swap(l, b); pr = ICmpInst::ICMP_ULT; }
		if(!l.ok || !b.ok || (pr != ICmpInst::ICMP_ULT && pr != ICmpInst::ICMP_NE && pr != ICmpInst::ICMP_SLT)) return;
		// number of rounds = bound - first value
		Aff n = b; n.c -= l.c; for(auto &e : l.a) { n.a[e.first] -= e.second; if(!n.a[e.first]) n.a.erase(e.first); }
		if(n.c != 0) R.add("LINK-RANGE", C, "Linker::LinkCode", "the loop over the new records of " + table + " makes " + affStr(n) + " rounds", table + "#rounds");
	};
	// offsets of lists and new type numbers are read before the list of the record is added
	auto beforeGrowth = [&](const Instruction *at, const std::string &table, const Instruction *user, const std::string &what) {
		auto *L = LI.getLoopFor(at->getParent());
		if(!L) return;
		const Instruction *head = &*L->getHeader()->begin();
		for(auto &I : instructions(F)) if(grows(I, table) && L->contains(I.getParent()))
			if(pathAvoiding(F, &I, [&](const Instruction &X) { return &X == head; }, [&](const Instruction &X) { return &X == at; }))
			{ R.add("LINK-BASE", user, "Linker::LinkCode", what + " is the size of " + table + " after the entries of this record were added", what + "#after"); return; }
	};
	for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(method(CB) == "push_back" && tableOf(CB->getArgOperand(0)) == "typeRemap")
	{
		const Value *v = nullptr;
		const Value *p = CB->getArgOperand(1)->stripPointerCasts();
		if(auto *A = dyn_cast<AllocaInst>(p)) { for(auto *U : A->users()) if(auto *S = dyn_cast<StoreInst>(U)) if(S->getPointerOperand() == A) v = S->getValueOperand(); }
		else continue; // a reference to an entry of the lookup table
		if(!v) continue;
		R.stat("type_map_entries");
		std::vector<std::pair<std::string, const Instruction*>> sizes;
		Labels l = labelsOf(v, &sizes);
		if(l.empty()) R.add("LINK-REMAP", CB, "Linker::LinkCode", "an entry of the type map is a number that does not come from the linked types", "typeRemap#value");
		for(auto &z : sizes) if(z.first == "exTypes") beforeGrowth(z.second, "exTypes", CB, "an entry of the type map");
		Aff a = affOf(v, isOld, {});
		if(a.ok && (a.c != 0 || a.a.size() != 1)) R.add("LINK-REMAP", CB, "Linker::LinkCode", "an entry of the type map is " + affStr(a), "typeRemap#affine");
	}
	for(auto &sv : stores) if(sv.first == "funcRemap[]") for(auto *S : sv.second)
	{
		Place Q = placeOf(S->getPointerOperand());
		auto *L = LI.getLoopFor(S->getParent());
		if(!Q.index || !L || !L->getLoopPredecessor()) continue;
		std::map<const Value*, Aff> sym, none;
		for(auto &Ph : L->getHeader()->phis()) if(Ph.getType()->isIntegerTy()) { Aff x; x.a["#" + std::to_string(sym.size())] = 1; sym[&Ph] = x; }
		Aff v = affOf(S->getValueOperand(), isOld, sym), ix = affOf(Q.index, isOld, sym);
		if(!v.ok || !ix.ok || !v.a.count("exModules:ExternModuleInfo.funcStart")) continue;
		R.stat("function_maps");
		for(auto &e : ix.a) { v.a[e.first] -= e.second; if(!v.a[e.first]) v.a.erase(e.first); }
		if(v.c - ix.c != 0 || v.a.size() != 2 || v.a["exModules:ExternModuleInfo.funcStart"] != 1 || v.a["ExternModuleInfo.funcStart"] != -1) { v.c -= ix.c; R.add("LINK-REMAP", S, "Linker::LinkCode", "functions of an imported module are mapped at distance " + affStr(v) + ", not at the difference of the two function numbers where it starts", "funcRemap#distance"); }
		range(S, Q.index, "funcRemap", "ExternModuleInfo.funcStart");
	}
	std::map<std::string, std::string> tableFor;
	for(auto &p : elemRec) tableFor[p.second] = p.first;
	for(auto &n : needs)
	{
		R.stat("record_fields");
		std::string field = n.field, table = tableFor[field.substr(0, field.find('.'))];
		auto it = stores.find(field);
		if(it == stores.end()) { R.addAt("LINK-FIELD", "NULLC/Linker.cpp", lineOf(F), "Linker::LinkCode", "the reference " + field + " of an appended record is never translated to the linked program", field + "#none"); continue; }
		Labels got;
		for(auto *S : it->second)
		{
			Labels l = labelsOf(S->getValueOperand());
			got.insert(l.begin(), l.end());
			bool any = isa<Constant>(S->getValueOperand()) || (field == "ExternFuncInfo.regVmAddress" && l.empty());
			for(auto *w : n.all) if((l.count(w) && std::string(w) != field) || (std::string(w).compare(0, 10, "typeRemap[") == 0 && l.count("typeRemap[?]"))) any = true;
			if(!any) R.add("LINK-FIELD", S, "Linker::LinkCode", field + " is set from " + join(l) + ", not by way of " + n.all[0], field + "#value");
			foreign(S, field);
			if(field == "ExternTypeInfo.memberOffset/subType" || field == "ExternTypeInfo.constantOffset")
			{
				std::vector<std::pair<std::string, const Instruction*>> sizes;
				labelsOf(S->getValueOperand(), &sizes);
				for(auto &z : sizes) if(z.first == n.all[0] + std::string() || z.first + ".size" == n.all[0]) beforeGrowth(z.second, z.first, S, field);
			}
			if(n.old) if(auto *bad = oldOk(S, n.old)) R.add("LINK-BASE", S, "Linker::LinkCode", field + " is moved by the size of " + n.old + " read after the records of this module were already added (" + locOf(bad) + ")", field + "#base");
		}
		for(auto *w : n.all) if(!got.count(w) && !(std::string(w) == field && got.count("?")) && !(std::string(w).compare(0, 10, "typeRemap[") == 0 && got.count("typeRemap[?]"))) R.add("LINK-FIELD", it->second[0], "Linker::LinkCode", field + " is computed without " + std::string(w) + " (only from " + join(got) + ")", field + "#" + w);
		// every record: from the point that appends or visits a record to the next one
		auto isStore = [&](const Instruction &I) {
			for(auto *S : it->second) if(&I == S) return true;
			if(!n.optional) return false;
			if(auto *T = dyn_cast<BranchInst>(&I)) { if(!T->isConditional()) return false; Labels l = labelsOf(T->getCondition()); return l.count(field) || l.count("ExternTypeInfo.subCat"); }
			if(auto *T = dyn_cast<SwitchInst>(&I)) { Labels l = labelsOf(T->getCondition()); return l.count(field) || l.count("ExternTypeInfo.subCat"); }
			return false;
		};
		if(table != "exModules")
		{
			std::vector<const CallBase*> appends;
			for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(method(CB) == "push_back" && CB->arg_size() == 2 && tableOf(CB->getArgOperand(0)) == table && placeOf(CB->getArgOperand(1)).table != table) appends.push_back(CB);
			bool appended = table == "exTypes" ? field != "ExternTypeInfo.baseType" : table == "exVariables" || table == "exFunctions";
			auto stored = [&](const Instruction &X) { for(auto *S : it->second) if(&X == S) return true; return false; };
			for(auto &B : *F)
			{
				auto *T = B.getTerminator();
				if(T->getNumSuccessors() < 2) continue;
				bool dom = false;
				std::set<const Instruction*> again; // where the next record begins
				if(appended) for(auto *CB : appends) { again.insert(CB); if(auto *L = LI.getLoopFor(CB->getParent())) again.insert(&*L->getHeader()->begin()); }
				else for(auto *S : it->second) if(auto *L = LI.getLoopFor(S->getParent())) if(L->contains(&B)) again.insert(&*L->getHeader()->begin());
				if(again.empty()) continue;
				for(auto *S : it->second) if(DT.dominates(T, S) && S->getParent() != &B) dom = true;
				if(appended) { bool a = false; for(auto *CB : appends) if(DT.dominates(CB, T)) a = true; dom &= a; }
				if(!dom) continue;
				const Value *c = isa<BranchInst>(T) ? cast<BranchInst>(T)->getCondition() : isa<SwitchInst>(T) ? cast<SwitchInst>(T)->getCondition() : nullptr;
				if(!c) continue;
				Labels l = labelsOf(c);
				if(n.optional && (l.count(field) || l.count("ExternTypeInfo.subCat"))) continue;
				if(auto *K = dyn_cast<CmpInst>(c)) if(K->getOperand(0)->getType()->isPointerTy()) continue; // the lookup of an existing record
				bool leads = false, skips = false;
				for(auto *N : successors(&B))
				{
					const Instruction *first = &*N->begin();
					bool here = false; for(auto &X : *N) if(stored(X)) here = true;
					bool lead = here || pathAvoiding(F, first, [&](const Instruction &X) { return again.count(&X) > 0; }, stored);
					if(lead) leads = true;
					else if(again.count(first) || pathAvoiding(F, first, stored, [&](const Instruction &X) { return again.count(&X) > 0; })) skips = true;
				}
				R.stat("guards");
				if(leads && skips) R.add("LINK-RECORD", T, "Linker::LinkCode", "a record of " + table + " can be passed over, depending on " + join(l) + ", and keep a value of " + field + " that is only valid inside its module", field + "#guard");
			}
		}
		bool loopTable = table == "exLocals" || table == "exTypeExtra" || table == "exTypeConstants" || table == "exRegVmSourceInfo" || field == "ExternTypeInfo.baseType";
		if(!loopTable)
		{
			for(auto &I : instructions(F)) if(auto *MT = dyn_cast<MemTransferInst>(&I)) // a whole record is replaced
			{
				if(isa<AllocaInst>(MT->getRawDest()->stripPointerCasts()) || isa<AllocaInst>(MT->getRawSource()->stripPointerCasts())) continue;
				Place D = placeOf(MT->getRawDest());
				if(D.table != table || !D.root || !isa<CallBase>(D.root) || placeOf(MT->getRawSource()).table == table) continue;
				auto *L = LI.getLoopFor(MT->getParent());
				if(!L) continue;
				R.stat("append_sites");
				const Instruction *head = &*L->getHeader()->begin();
				if(pathAvoiding(F, MT, isStore, [&](const Instruction &X) { return &X == head; })) R.add("LINK-RECORD", MT, "Linker::LinkCode", "a record replaced here can keep the value of " + field + " that is only valid inside its module", field + "#replace");
			}
			for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(method(CB) == "push_back" && tableOf(CB->getArgOperand(0)) == table && CB->arg_size() == 2)
			{
				Place Q = placeOf(CB->getArgOperand(1));
				if(isa<AllocaInst>(CB->getArgOperand(1)->stripPointerCasts()))
				{
					R.stat("append_sites");
					auto *L = LI.getLoopFor(CB->getParent());
					bool copies = false; // filled from a record of the table itself
					for(auto *U : CB->getArgOperand(1)->stripPointerCasts()->users()) if(auto *MT = dyn_cast<MemTransferInst>(U)) if(placeOf(MT->getRawSource()).table == table) copies = true;
					if(!copies && L && pathAvoiding(F, &*L->getHeader()->begin(), isStore, [&](const Instruction &X) { return &X == CB; })) R.add("LINK-RECORD", CB, "Linker::LinkCode", "a record appended here can keep the value of " + field + " that is only valid inside its module", field + "#path");
					continue;
				}
				if(Q.table == table) continue; // a copy of a record that is already translated
				R.stat("append_sites");
				// next round of the loop: the same append again
				if(auto *b = pathAvoiding(F, CB, isStore, [&](const Instruction &X) { return &X == CB; })) { (void)b; R.add("LINK-RECORD", CB, "Linker::LinkCode", "a record appended here can keep the value of " + field + " that is only valid inside its module", field + "#path"); }
			}
		}
		else
		{
			bool loop = false;
			for(auto *S : it->second)
			{
				Place Q = placeOf(S->getPointerOperand());
				if(!Q.root) continue;
				Labels ix; if(Q.index) ix = labelsOf(Q.index);
				if(Q.index && isa<CallBase>(Q.root))
				{
					loop = true;
					bool sized = false; for(auto &x : ix) if(x == table + ".size") sized = true; 
					bool other = false; for(auto &x : ix) if(x.size() > 5 && x.compare(x.size() - 5, 5, ".size") == 0 && x != table + ".size") other = true;
					if(other && !sized) R.add("LINK-RANGE", S, "Linker::LinkCode", "the records of " + table + " are visited from " + join(ix) + ", not from the size that the table had before", field + "#range");
					R.stat("visit_loops");
					if(isa<CallBase>(Q.root)) range(Q.root, Q.index, table, table + ".old");
				}
				// the visit itself: from the first access of this iteration around to the store
				const Instruction *root = Q.root;
				if(auto *b = pathAvoiding(F, root, isStore, [&](const Instruction &X) { return &X == root; })) { (void)b; if(it->second.size() == 1) R.add("LINK-RECORD", S, "Linker::LinkCode", "a record of " + table + " can be skipped and keep a value of " + field + " that is only valid inside its module", field + "#path"); }
			}
			(void)loop;
		}
	}
	// the remap tables themselves
	struct Map { const char *table; std::vector<const char*> from; };
	for(auto &m : std::vector<Map>{ { "funcRemap", { "exFunctions.size", "ExternModuleInfo.funcStart" } }, { "moduleRemap", {} } })
	{
		Labels got; bool any = false;
		for(auto &s : stores) if(s.first == std::string(m.table) + "[]") for(auto *S : s.second) { any = true; Labels l = labelsOf(S->getValueOperand()); got.insert(l.begin(), l.end()); }
		R.stat("remap_tables");
		if(!any) { R.addAt("LINK-REMAP", "NULLC/Linker.cpp", lineOf(F), "Linker::LinkCode", std::string(m.table) + " is never filled", std::string(m.table) + "#none"); continue; }
		for(auto *w : m.from) if(!got.count(w)) R.addAt("LINK-REMAP", "NULLC/Linker.cpp", lineOf(F), "Linker::LinkCode", std::string(m.table) + " is filled without " + w, std::string(m.table) + "#" + w);
	}
	for(auto &I : instructions(F)) if(auto *L = dyn_cast<LoadInst>(&I)) if(L->getType()->isIntegerTy(8)) { Place Q = placeOf(L->getPointerOperand()); if(Q.table == "exRegVmCode" && Q.off == 0 && Q.root && Q.index && isa<CallBase>(Q.root)) range(Q.root, Q.index, "exRegVmCode", "exRegVmCode.old"); }
	// ---- instructions: what the interpreter does with the argument
	Function *RC = findFn("ExecutorRegVm::RunCode");
	if(!RC) { R.brk("ExecutorRegVm::RunCode not found"); return; }
	InlinePolicy PR;
	PR.want = [](Function *C, CallBase *) { std::string f = fileOf(C); return f == "NULLC/Executor_RegVm.cpp" && instrCount(C) < 60; };
	PR.maxDepth = 2;
	normalise(RC, &PR, true);
	std::map<int, const BasicBlock*> handlers;
	for(auto &G : M->globals())
		if(G.hasInitializer()) if(auto *A = dyn_cast<ConstantArray>(G.getInitializer()))
			for(unsigned i = 0; i < A->getNumOperands(); i++) if(auto *BA = dyn_cast<BlockAddress>(A->getOperand(i)->stripPointerCasts())) if(BA->getFunction() == RC) handlers[i] = BA->getBasicBlock();
	if(handlers.size() < 90) { R.brk("only " + std::to_string(handlers.size()) + " interpreter handlers found"); return; }
	auto cmdField = [](const Value *v, uint64_t off) { while(auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); auto *L = dyn_cast<LoadInst>(v); if(!L) return false; auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()); if(!G) return false; auto *ST = dyn_cast<StructType>(G->getSourceElementType()); if(!ST || !ST->hasName() || recOf(ST->getName()) != "RegVmCmd") return false; APInt o(64, 0); return G->accumulateConstantOffset(M->getDataLayout(), o) && o == off; };
	auto cmdFieldAny = [&](const Value *v, uint64_t off) { while(auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); if(cmdField(v, off)) return true; if(auto *Ph = dyn_cast<PHINode>(v)) { for(auto &in : Ph->incoming_values()) if(cmdField(in.get(), off)) return true; } return false; };
	auto fromRC = [&](const Value *v) { while(auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); auto *L = dyn_cast<LoadInst>(v); if(!L) return false; const Value *p = L->getPointerOperand(); while(auto *G = dyn_cast<GEPOperator>(p)) { for(auto &x : G->indices()) if(cmdFieldAny(x.get(), 3)) return true; p = G->getPointerOperand(); } return false; };
	std::map<int64_t, std::string> opName; std::map<std::string, int64_t> opId;
	for(auto &p : enumOf("RegVmInstructionCode")) { opName[p.second] = p.first; opId[p.first] = p.second; }
	std::map<std::string, int64_t> regs;
	for(auto &p : enumOf("RegVmRegisters")) regs[p.first] = p.second;
	if(auto *T = recordOf("RegVmCmd")) // the special registers are macros
	{
		std::string path = T->getFilename().str();
		if(!path.empty() && path[0] != '/') path = T->getDirectory().str() + "/" + path;
		if(FILE *f = fopen(path.c_str(), "r"))
		{
			char line[512], name[128]; long val;
			while(fgets(line, sizeof(line), f)) if(sscanf(line, " # define %127s %ld", name, &val) == 2 && !regs.count(name)) regs[name] = val;
			fclose(f);
		}
	}
	std::map<int64_t, Kind> kind;
	const std::map<std::string, Kind> fixed = { { "rviJmp", KJump }, { "rviJmpz", KJump }, { "rviJmpnz", KJump }, { "rviCall", KMicroCall }, { "rviCallPtr", KMicro }, { "rviReturn", KMicroReturn }, { "rviConvertPtr", KTypeIndex }, { "rviTypeid", KTypeIndex }, { "rviFuncAddr", KFuncIndex } };
	std::set<const BasicBlock*> starts; for(auto &h : handlers) starts.insert(h.second);
	for(auto &h : handlers)
	{
		std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> work{ h.second };
		bool addr = false;
		while(!work.empty())
		{
			auto *B = work.back(); work.pop_back();
			if(!seen.insert(B).second || (B != h.second && starts.count(B)) || isa<IndirectBrInst>(B->getTerminator())) continue;
			for(auto &I : *B)
			{
				if(auto *Bo = dyn_cast<BinaryOperator>(&I)) if(Bo->getOpcode() == Instruction::Add) for(int k : { 0, 1 }) if(fromRC(Bo->getOperand(k)) && cmdFieldAny(Bo->getOperand(1 - k), 4)) addr = true;
				if(auto *G = dyn_cast<GetElementPtrInst>(&I)) if(G->getNumIndices() == 1 && fromRC(G->getPointerOperand()) && cmdFieldAny(*G->idx_begin(), 4)) addr = true;
			}
			for(auto *N : successors(B)) work.push_back(N);
		}
		if(addr) kind[h.first] = KAddress;
	}
	long addresses = kind.size();
	for(auto &p : fixed) if(opId.count(p.first)) kind[opId[p.first]] = p.second;
	R.stat("address_opcodes", addresses);
	if(addresses < 40 || !regs.count("rvrrGlobals") || !regs.count("rvrrConstants")) { R.brk("only " + std::to_string(addresses) + " address instructions found, or special registers missing"); return; }
	if(!args.empty()) for(auto &k : kind) if(k.second == KAddress) errs() << opName[k.first] << " "; 
	int64_t loadImm = opId.count("rviLoadImm") ? opId["rviLoadImm"] : -1;
	for(auto &op : opName)
	{
		if(!handlers.count(op.first) && !fixed.count(op.second)) continue;
		Kind k = kind.count(op.first) ? kind[op.first] : KNone;
		R.stat("opcodes");
		for(int mode = 0; mode < 3; mode++)
		{
			if(mode && k != KAddress) break;
			Function *C = cloneFn(F);
			// the commands are visited at the access whose code is looked at
			std::set<const Instruction*> roots;
			for(auto &I : instructions(C)) if(auto *L = dyn_cast<LoadInst>(&I)) if(L->getType()->isIntegerTy(8)) { Place Q = placeOf(L->getPointerOperand()); if(Q.table == "exRegVmCode" && Q.off == 0 && Q.root) roots.insert(Q.root); }
			if(roots.empty()) { R.brk("the loop over the new instructions was not found in LinkCode"); C->eraseFromParent(); return; }
			pin(C, 0, op.first, 8);
			if(k == KAddress) pin(C, 3, mode == 0 ? regs["rvrrGlobals"] : mode == 1 ? regs["rvrrConstants"] : 200, 8);
			runPasses(C, "sccp,simplifycfg<no-sink-common-insts;no-hoist-common-insts>");
			std::vector<const StoreInst*> arg, code, rabc[3], consts;
			for(auto &I : instructions(C)) if(auto *S = dyn_cast<StoreInst>(&I))
			{
				Place Q = placeOf(S->getPointerOperand());
				if(Q.table == "exRegVmConstants") consts.push_back(S);
				if(Q.table != "exRegVmCode") continue;
				if(Q.off == 4) arg.push_back(S);
				if(Q.off == 0) code.push_back(S);
				if(Q.off >= 1 && Q.off <= 3) rabc[Q.off - 1].push_back(S);
			}
			R.stat("opcode_states");
			auto where = [&](const std::vector<const StoreInst*> &v) -> const Instruction* { return v.empty() ? *roots.begin() : v[0]; };
			auto always = [&](const std::vector<const StoreInst*> &v, const std::string &what) {
				bool live = false;
				for(auto *r : roots) { bool in = false; for(auto &I : instructions(C)) if(&I == r) in = true; if(!in) continue; live = true;
					if(v.empty() || pathAvoiding(C, r, [&](const Instruction &X) { for(auto *S : v) if(&X == S) return true; return false; }, [&](const Instruction &X) { return &X == r; }))
					{ R.add("LINK-OPCODE", where(v), "Linker::LinkCode", "instruction " + op.second + (k == KAddress ? mode == 0 ? " on a global variable" : " on a constant" : "") + " of a linked module can keep " + what + " that is only valid inside its module", op.second + "#" + std::to_string(mode) + what); return; } }
				if(!live) R.brk("the loop over the new instructions disappeared for " + op.second);
			};
			auto valueHas = [&](const std::vector<const StoreInst*> &v, std::vector<std::string> any, bool all, const std::string &what) {
				Labels got;
				for(auto *S : v)
				{
					foreign(S, what + " of instruction " + op.second);
					Labels l = labelsOf(S->getValueOperand()); got.insert(l.begin(), l.end());
					bool ok = false; for(auto &a : any) if(l.count(a)) ok = true;
					for(auto &x : l) if(x.compare(0, 9, "ByteCode.") == 0) R.add("LINK-BASE", S, "Linker::LinkCode", what + " of instruction " + op.second + " is moved by " + x + ", a size of this module", op.second + "#size");
					if(!ok) R.add("LINK-OPCODE", S, "Linker::LinkCode", what + " of instruction " + op.second + " is set from " + join(l) + ", not from " + any[0], op.second + "#v" + what);
				}
				if(all && !v.empty()) for(auto &a : any) if(!got.count(a)) R.add("LINK-OPCODE", v[0], "Linker::LinkCode", what + " of instruction " + op.second + " never depends on " + a, op.second + "#m" + what + a);
			};
			switch(k)
			{
			case KNone:
				for(auto *S : arg) R.add("LINK-OPCODE", S, "Linker::LinkCode", "the argument of instruction " + op.second + " is changed although it refers to nothing in the module", op.second + "#none");
				break;
			case KAddress:
				if(mode == 2) { for(auto *S : arg) R.add("LINK-OPCODE", S, "Linker::LinkCode", "the argument of instruction " + op.second + " is changed although its base register is neither the globals nor the constants", op.second + "#reg"); break; }
				always(arg, "an address");
				if(mode == 0) valueHas(arg, { "globalVarSize", "ExternModuleInfo.variableOffset" }, true, "the argument");
				if(mode == 0)
				{
					for(auto *S : arg)
					{
						bool own = labelsOf(S->getValueOperand()).count("globalVarSize"), other = labelsOf(S->getValueOperand()).count("ExternModuleInfo.variableOffset");
						uint64_t r;
						for(uint64_t t : { 0x00abcdefull, 0x05abcdefull }) if((t >> 24 ? other : own) && evalArg(S->getValueOperand(), t, r) && r != (t & 0xffffff) && !(own && other))
						{ R.add("LINK-OPCODE", S, "Linker::LinkCode", "the offset of a global in instruction " + op.second + " is not kept when its module is added", op.second + "#mask"); break; }
					}
					for(auto &B : *C)
					{
						const Value *c = nullptr;
						if(auto *Br = dyn_cast<BranchInst>(B.getTerminator())) if(Br->isConditional()) c = Br->getCondition();
						if(!c || !labelsOf(c).count("RegVmCmd.argument")) continue;
						int sign = -1; uint64_t r;
						for(uint64_t t : { 0ull, 1ull, 0xffffffull, 0x1000000ull, 0x1ffffffull, 0x2000000ull, 0xff000000ull }) if(evalArg(c, t, r)) { int now = (r != 0) == (t >> 24 != 0); if(sign < 0) sign = now; else if(sign != now) { R.add("LINK-OPCODE", B.getTerminator(), "Linker::LinkCode", "the module number of a global in instruction " + op.second + " is not told apart for all values", op.second + "#test"); break; } }
					}
					for(auto &I : instructions(C)) if(auto *CB = dyn_cast<CallBase>(&I)) if(method(CB) == "operator[]" && tableOf(CB->getArgOperand(0)) == "moduleRemap" && labelsOf(CB->getArgOperand(1)).count("RegVmCmd.argument")) { uint64_t r; if(evalArg(CB->getArgOperand(1), 0x05abcdef, r) && r != 4) R.add("LINK-OPCODE", CB, "Linker::LinkCode", "instruction " + op.second + " selects module " + std::to_string(r) + " for module number 5", op.second + "#index"); }
				}
				else
				{
					valueHas(arg, { "exRegVmConstants.size" }, true, "the argument");
					for(auto *S : arg)
					{
						bool scaled = false; std::vector<const Value*> w{ S->getValueOperand() }; std::set<const Value*> sn;
						while(!w.empty()) { auto *v = w.back(); w.pop_back(); if(!sn.insert(v).second) continue; auto *I = dyn_cast<Instruction>(v); if(!I || isa<LoadInst>(I) || isa<CallBase>(I)) continue; if(auto *Bo = dyn_cast<BinaryOperator>(I)) if(auto *K = dyn_cast<ConstantInt>(Bo->getOperand(1))) if((Bo->getOpcode() == Instruction::Shl && K->equalsInt(2)) || (Bo->getOpcode() == Instruction::Mul && K->equalsInt(4))) if(labelsOf(Bo->getOperand(0)).count("exRegVmConstants.size")) scaled = true; for(auto &o : I->operands()) w.push_back(o.get()); }
						if(!scaled) R.add("LINK-OPCODE", S, "Linker::LinkCode", "the address of a constant in instruction " + op.second + " is not moved by four bytes per constant", op.second + "#scale");
					}
				}
				break;
			case KJump: always(arg, "a jump target"); valueHas(arg, { "exRegVmCode.size" }, true, "the argument"); break;
			case KFuncIndex: always(arg, "a function index"); valueHas(arg, { "funcRemap[RegVmCmd.argument]" }, true, "the argument"); break;
			case KTypeIndex: always(arg, "a type index"); valueHas(arg, { "typeRemap[RegVmCmd.argument]" }, true, "the argument"); break;
			case KMicro: always(arg, "a position in the constants"); valueHas(arg, { "exRegVmConstants.size" }, true, "the argument"); break;
			case KMicroReturn:
				always(arg, "a position in the constants"); valueHas(arg, { "exRegVmConstants.size" }, true, "the argument");
				always(consts, "a type index in the constants");
				break;
			case KMicroCall:
				always(arg, "a function index"); valueHas(arg, { "funcRemap[RegVmCmd.argument]" }, true, "the argument");
				for(int i = 0; i < 3; i++)
				{
					always(rabc[i], "a position in the constants"); valueHas(rabc[i], { "exRegVmConstants.size" }, true, "the position");
					for(auto *S : rabc[i]) { const Value *v = S->getValueOperand(); uint64_t sh = 0; while(true) { if(auto *Ca = dyn_cast<CastInst>(v)) { v = Ca->getOperand(0); continue; } auto *Bo = dyn_cast<BinaryOperator>(v); if(!Bo) break; auto *K = dyn_cast<ConstantInt>(Bo->getOperand(1)); if(!K) break; if(Bo->getOpcode() == Instruction::LShr) { sh += K->getZExtValue(); v = Bo->getOperand(0); continue; } if(Bo->getOpcode() == Instruction::And) { v = Bo->getOperand(0); continue; } break; }
						if(sh != uint64_t(16 - 8 * i)) R.add("LINK-OPCODE", S, "Linker::LinkCode", "register field " + std::to_string(i) + " of a call gets the bits from " + std::to_string(sh) + " of the position", op.second + "#bits" + std::to_string(i)); }
				}
				break;
			}
			if(op.second == "rviFuncAddr" || op.second == "rviTypeid")
			{
				always(code, "an instruction code");
				for(auto *S : code) { auto *K = dyn_cast<ConstantInt>(S->getValueOperand()); if(!K || K->getSExtValue() != loadImm) R.add("LINK-OPCODE", S, "Linker::LinkCode", "instruction " + op.second + " is not turned into rviLoadImm", op.second + "#code"); }
			}
			else for(auto *S : code) R.add("LINK-OPCODE", S, "Linker::LinkCode", "instruction " + op.second + " is turned into another one", op.second + "#code");
			if(k != KMicroCall) for(int i = 0; i < 3; i++) for(auto *S : rabc[i]) R.add("LINK-OPCODE", S, "Linker::LinkCode", "a register of instruction " + op.second + " is changed", op.second + "#reg" + std::to_string(i));
			// microcode of calls
			if(k == KMicro || k == KMicroCall)
			{
				std::vector<std::pair<std::string, int64_t>> ops;
				for(auto en : { "RegVmMicrocodeInstruction" }) for(auto &e : enumOf(en)) if(e.first == "rvmiPushMem" || e.first == "rvmiPopMem") ops.push_back(e);
				if(ops.size() != 2) { R.brk("microcode instructions not found"); C->eraseFromParent(); return; }
				auto word = [&](const Value *v) { while(auto *Ca = dyn_cast<CastInst>(v)) v = Ca->getOperand(0); auto *L = dyn_cast<LoadInst>(v); if(!L) return false; Place Q = placeOf(L->getPointerOperand()); return Q.table == "exRegVmConstants"; };
				for(auto &o : ops)
				{
					std::vector<const BasicBlock*> at;
					for(auto &B : *C)
					{
						if(auto *Sw = dyn_cast<SwitchInst>(B.getTerminator())) { if(word(Sw->getCondition())) for(auto &cs : Sw->cases()) if(cs.getCaseValue()->getSExtValue() == o.second) at.push_back(cs.getCaseSuccessor()); }
						else if(auto *Br = dyn_cast<BranchInst>(B.getTerminator())) if(Br->isConditional()) if(auto *Cm = dyn_cast<ICmpInst>(Br->getCondition())) if(auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1))) if(word(Cm->getOperand(0)) && K->getSExtValue() == o.second && Cm->isEquality()) at.push_back(Br->getSuccessor(Cm->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1));
					}
					R.stat("microcode_operands", at.size());
					if(at.empty()) { R.addAt("LINK-MICRO", "NULLC/Linker.cpp", lineOf(F), "Linker::FixupCallMicrocode", "operands of " + o.first + " in the argument list of " + op.second + " are not translated", o.first + op.second + "#none"); continue; }
					for(auto *B : at)
					{
						// the test for the globals register, then the store on its true side
						const BasicBlock *side = nullptr; const BasicBlock *cur = B;
						for(int steps = 0; cur && steps < 6 && !side; steps++)
						{
							auto *Br = dyn_cast<BranchInst>(cur->getTerminator());
							if(auto *Sw = dyn_cast<SwitchInst>(cur->getTerminator())) { if(word(Sw->getCondition())) for(auto &cs : Sw->cases()) if(cs.getCaseValue()->getSExtValue() == regs["rvrrGlobals"]) side = cs.getCaseSuccessor(); break; }
							if(!Br) break;
							if(!Br->isConditional()) { cur = Br->getSuccessor(0); continue; }
							if(auto *Cm = dyn_cast<ICmpInst>(Br->getCondition())) if(auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1))) if(word(Cm->getOperand(0)) && K->getSExtValue() == regs["rvrrGlobals"] && Cm->isEquality()) side = Br->getSuccessor(Cm->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
							break;
						}
						if(!side) { R.add("LINK-MICRO", B->getTerminator(), "Linker::FixupCallMicrocode", "operands of " + o.first + " are not looked at for globals", o.first + "#test"); continue; }
						auto fixes = [&](const Instruction &X) { for(auto *S : consts) if(&X == S) { Labels l = labelsOf(S->getValueOperand()); return l.count("globalVarSize") || l.count("ExternModuleInfo.variableOffset"); } return false; };
						bool self = false; for(auto &X : *side) if(fixes(X)) self = true;
						const Instruction *first = &*side->begin();
						if(!self && pathAvoiding(C, first, fixes, [&](const Instruction &X) { return isReturn(X) || (isa<SwitchInst>(X) && word(cast<SwitchInst>(X).getCondition())) || (isa<CallBase>(X) && roots.count(&X)); }))
							R.add("LINK-MICRO", first, "Linker::FixupCallMicrocode", "the address of a global in a " + o.first + " operand can stay untranslated", o.first + "#path");
					}
				}
				Labels got; for(auto *S : consts) { foreign(S, "an operand in the argument list of " + op.second); Labels l = labelsOf(S->getValueOperand()); got.insert(l.begin(), l.end()); }
				for(auto w : { "globalVarSize", "ExternModuleInfo.variableOffset" }) if(!got.count(w)) R.addAt("LINK-MICRO", "NULLC/Linker.cpp", lineOf(F), "Linker::FixupCallMicrocode", std::string("no operand of an argument list is translated by ") + w, op.second + "#" + w);
			}
			if(mode == 0 && k == KJump) for(auto *S : arg) { std::vector<std::pair<std::string, const Instruction*>> sz; labelsOf(S->getValueOperand(), &sz);
				for(auto &p : sz) if(p.first == "exRegVmCode") for(auto &I : instructions(C)) if(grows(I, "exRegVmCode")) if(pathAvoiding(C, &I, [](const Instruction &) { return false; }, [&](const Instruction &X) { return &X == p.second; })) { R.add("LINK-BASE", S, "Linker::LinkCode", "jumps are moved by the size of the code read after this module was added", op.second + "#base"); break; } }
			if(mode == 1 && k == KAddress) for(auto *S : arg) { std::vector<std::pair<std::string, const Instruction*>> sz; labelsOf(S->getValueOperand(), &sz);
				for(auto &p : sz) if(p.first == "exRegVmConstants") for(auto &I : instructions(C)) if(grows(I, "exRegVmConstants")) if(pathAvoiding(C, &I, [](const Instruction &) { return false; }, [&](const Instruction &X) { return &X == p.second; })) { R.add("LINK-BASE", S, "Linker::LinkCode", "constants are moved by the size of the table read after this module was added", op.second + "#base"); break; } }
			C->eraseFromParent();
		}
	}
}
