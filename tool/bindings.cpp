// C17: native functions are bound to declarations that they match, through wrappers that move every argument and result
#include "rules.h"
#include "core.h"
#include "llvm/Analysis/LoopInfo.h"
#include "protos.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
namespace {
// ------------------------------------------------------------------ value layouts
struct Leaf { unsigned off, size; char kind; }; // i, f, p
typedef std::vector<Leaf> Layout;
struct Shape { Layout leaves; unsigned size = 0, align = 0; bool known = false; };
const DIType *bare(const DIType *T) { return stripType(T); }
bool flatten(const DIType *T, unsigned off, Layout &out, int depth = 0)
{
	T = bare(T);
	if(!T || depth > 6 || out.size() > 256) return false;
	if(auto *B = dyn_cast<DIBasicType>(T)) { out.push_back({ off, unsigned(B->getSizeInBits() / 8), B->getEncoding() == dwarf::DW_ATE_float ? 'f' : 'i' }); return true; }
	if(auto *D = dyn_cast<DIDerivedType>(T))
	{
		if(D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) { out.push_back({ off, 8, 'p' }); return true; }
		return false;
	}
	if(auto *C = dyn_cast<DICompositeType>(T))
	{
		if(C->getTag() == dwarf::DW_TAG_enumeration_type) { out.push_back({ off, unsigned(C->getSizeInBits() / 8), 'i' }); return true; }
		if(C->getTag() == dwarf::DW_TAG_array_type)
		{
			Layout one;
			if(!flatten(C->getBaseType(), 0, one, depth + 1)) return false;
			unsigned n = 1, es = bare(C->getBaseType())->getSizeInBits() / 8;
			if(!es) return false;
			n = C->getSizeInBits() / 8 / es;
			if(n > 64) return false;
			for(unsigned i = 0; i < n; i++) for(auto &l : one) out.push_back({ off + i * es + l.off, l.size, l.kind });
			return true;
		}
		if(C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type) return false;
		if(C->isForwardDecl()) return false;
		for(auto *E : C->getElements())
			if(auto *D = dyn_cast<DIDerivedType>(E))
			{
				if(D->isStaticMember()) continue;
				if(D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
				if(!flatten(D->getBaseType(), off + D->getOffsetInBits() / 8, out, depth + 1)) return false;
			}
		return true;
	}
	return false;
}
unsigned sizeOfDI(const DIType *T) { T = bare(T); return T ? unsigned(T->getSizeInBits() / 8) : 0; }
struct Scope { std::string module, cls; };
std::map<std::string, std::map<std::string, std::string>> typedefs; std::map<std::string, std::set<std::string>> enums;
bool endsWith(const std::string &s, const char *t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
Shape shapeOf(const std::string &type, const std::string &module, int depth = 0)
{
	Shape r;
	auto scalar = [&](unsigned s, unsigned a, char k) { r.leaves = { { 0, s, k } }; r.size = s; r.align = a; r.known = true; return r; };
	std::string t = type;
	if(depth > 8) return r;
	if(t == "void") { r.known = true; return r; }
	if(t == "bool" || t == "char") return scalar(1, 0, 'i');
	if(t == "short") return scalar(2, 2, 'i');
	if(t == "int" || t == "typeid") return scalar(4, 4, 'i');
	if(t == "long") return scalar(8, 8, 'i');
	if(t == "float") return scalar(4, 4, 'f');
	if(t == "double") return scalar(8, 8, 'f');
	if(t == "auto ref") { r.leaves = { { 0, 4, 'i' }, { 4, 8, 'p' } }; r.size = 12; r.align = 4; r.known = true; return r; }
	if(t == "auto[]") { r.leaves = { { 0, 4, 'i' }, { 4, 8, 'p' }, { 12, 4, 'i' } }; r.size = 16; r.align = 4; r.known = true; return r; }
	if(endsWith(t, " ref")) return scalar(8, 4, 'p');
	if(endsWith(t, "[]")) { r.leaves = { { 0, 8, 'p' }, { 8, 4, 'i' } }; r.size = 12; r.align = 4; r.known = true; return r; }
	if(endsWith(t, ")") && t.find(" ref(") != std::string::npos) { r.leaves = { { 0, 8, 'p' }, { 8, 4, 'i' } }; r.size = 12; r.align = 4; r.known = true; return r; }
	if(endsWith(t, "]"))
	{
		size_t k = t.rfind('[');
		unsigned n = atoi(t.c_str() + k + 1);
		Shape e = shapeOf(t.substr(0, k), module, depth + 1);
		if(!e.known || !n || n > 64) return r;
		r = e; r.leaves.clear(); r.size = e.size * n;
		for(unsigned i = 0; i < n; i++) for(auto &l : e.leaves) r.leaves.push_back({ i * e.size + l.off, l.size, l.kind });
		while(r.size % 4) r.size++;
		return r;
	}
	for(auto &m : { module, std::string("$base$") })
	{
		if(typedefs[m].count(t)) return shapeOf(typedefs[m][t], module, depth + 1);
		if(enums[m].count(t)) return scalar(4, 4, 'i');
	}
	// a class of this module or one it imports
	const ScriptClass *C = nullptr; std::string where = module;
	auto it = classes[module].find(t);
	if(it != classes[module].end() && it->second.defined) C = &it->second;
	if(!C) for(auto &m : classes) { auto jt = m.second.find(t); if(jt != m.second.end() && jt->second.defined) { if(C) return r; C = &jt->second; where = m.first; } }
	if(!C) return r;
	unsigned off = 0, al = 0;
	for(auto &f : C->fields)
	{
		Shape s = shapeOf(f.type, where, depth + 1);
		if(!s.known || f.name.find('[') != std::string::npos) return r;
		if(s.align) while(off % s.align) off++;
		for(auto &l : s.leaves) r.leaves.push_back({ off + l.off, l.size, l.kind });
		off += s.size; al = std::max(al, s.align);
	}
	unsigned m = al < 4 ? 4 : al;
	while(off % m) off++;
	r.size = off; r.align = al; r.known = true;
	return r;
}
std::string show(const Layout &l) { std::string s; for(auto &x : l) s += std::string(s.empty() ? "" : " ") + x.kind + std::to_string(x.size * 8) + "@" + std::to_string(x.off); return "{" + s + "}"; }
bool sameLayout(const Layout &a, const Layout &b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(a[i].off != b[i].off || a[i].size != b[i].size || a[i].kind != b[i].kind) return false; return true; }
// fields that both sides know by the same name have to be at the same place
const ScriptClass *classOf(const std::string &t, const std::string &module, std::string &where)
{
	auto it = classes[module].find(t);
	where = module;
	if(it != classes[module].end() && it->second.defined) return &it->second;
	const ScriptClass *C = nullptr;
	for(auto &m : classes) { auto jt = m.second.find(t); if(jt != m.second.end() && jt->second.defined) { if(C) return nullptr; C = &jt->second; where = m.first; } }
	return C;
}
std::string nameClash(const std::string &st, const std::string &module, const DIType *T, const std::set<std::pair<unsigned, unsigned>> *used)
{
	std::string where;
	auto *D = dyn_cast_or_null<DICompositeType>(bare(T));
	auto *C = D ? classOf(st, module, where) : nullptr;
	if(!C) return "";
	std::map<std::string, unsigned> at;
	unsigned off = 0;
	for(auto &f : C->fields)
	{
		Shape s = shapeOf(f.type, where, 1);
		if(!s.known) return "";
		if(s.align) while(off % s.align) off++;
		at[f.name] = off; off += s.size;
	}
	for(auto *E : D->getElements())
	{
		auto *m = dyn_cast<DIDerivedType>(E);
		if(!m || m->getTag() != dwarf::DW_TAG_member || m->isStaticMember()) continue;
		unsigned o = m->getOffsetInBits() / 8, z = sizeOfDI(m->getBaseType());
		bool touched = !used;
		if(used) for(auto &u : *used) if(u.first < o + z && o < u.first + u.second) touched = true;
		auto it = at.find(m->getName().str());
		if(touched && it != at.end() && it->second != o) return "field '" + it->first + "' of '" + st + "' is at byte " + std::to_string(it->second) + " but the function finds it at byte " + std::to_string(o);
	}
	return "";
}
// C++ type against script type; empty when they match
std::string mismatch(const std::string &st, const DIType *T, const std::string &module, const std::set<std::pair<unsigned, unsigned>> *used = nullptr)
{
	Shape s = shapeOf(st, module);
	T = bare(T);
	if(st == "void") return T ? "the declaration has no value here but the function has one" : "";
	if(!T) return "the function has no value here but the declaration has '" + st + "'";
	if(!s.known) { R.stat("script_types_not_resolved"); R.sample("type not resolved: " + module + ": " + st); return ""; }
	Layout c;
	bool ok = flatten(T, 0, c);
	bool scalar = s.leaves.size() == 1 && s.leaves[0].off == 0;
	if(scalar && !isa<DICompositeType>(T) && ok && c.size() == 1)
	{
		auto &a = s.leaves[0], &b = c[0];
		if(a.kind == 'i' && b.kind == 'i')
		{
			if(a.size == 8 || b.size == 8) { if(a.size != b.size) return "'" + st + "' is passed as an integer of " + std::to_string(b.size * 8) + " bits"; return ""; }
			// small integers travel as 32 bit values
			if(b.size < a.size) return "'" + st + "' is cut to " + std::to_string(b.size * 8) + " bits";
			return "";
		}
		if(a.kind != b.kind || a.size != b.size) return "'" + st + "' " + show(s.leaves) + " is taken as '" + typeName(T) + "' " + show(c);
		if(a.kind != 'p') return "";
		// what the pointer points to
		if(!endsWith(st, " ref")) return "";
		std::string inner = st.substr(0, st.size() - 4);
		auto *D = dyn_cast<DIDerivedType>(T);
		const DIType *P = D ? bare(D->getBaseType()) : nullptr;
		if(!P || inner == "void") return "";
		if(auto *B = dyn_cast<DIBasicType>(P)) if(B->getSizeInBits() == 8 && B->getEncoding() != dwarf::DW_ATE_boolean && inner != "char" && inner != "bool") return ""; // bytes
		if(auto *C = dyn_cast<DICompositeType>(P)) if(C->isForwardDecl()) { R.stat("opaque_host_types"); return ""; }
		Shape in = shapeOf(inner, module);
		Layout pc;
		if(!in.known) { R.stat("script_types_not_resolved"); R.sample("type not resolved: " + module + ": " + inner); return ""; }
		if(!flatten(P, 0, pc)) { R.stat("opaque_host_types"); return ""; }
		R.stat("objects_compared");
		if(used)
		{
			// only what the function touches has to be there
			Layout q;
			for(auto &l : pc) for(auto &u : *used) if(u.first < l.off + l.size && l.off < u.first + u.second) { q.push_back(l); break; }
			pc = q;
		}
		if(!used && sizeOfDI(P) > in.size && in.size) return "the object '" + inner + "' of " + std::to_string(in.size) + " bytes is used as '" + typeName(P) + "' of " + std::to_string(sizeOfDI(P)) + " bytes";
		for(auto &l : pc)
		{
			bool f = false;
			for(auto &k : in.leaves) if(k.off == l.off && k.size == l.size && k.kind == l.kind) f = true;
			if(!f) return "the object '" + inner + "' " + show(in.leaves) + " is used as '" + typeName(P) + "' " + show(pc);
		}
		return nameClash(inner, module, P, used);
	}
	if(!ok) { R.stat("opaque_host_types"); R.sample("host type not resolved: " + typeName(T)); return ""; }
	if(!sameLayout(s.leaves, c)) return "'" + st + "' " + show(s.leaves) + " is taken as '" + typeName(T) + "' " + show(c);
	unsigned cs = (sizeOfDI(T) + 3) & ~3u, ss = (s.size + 3) & ~3u;
	if(s.leaves.empty()) return "";
	std::string clash = nameClash(st, module, T, nullptr);
	if(!clash.empty()) return clash;
	if(cs != ss) return "'" + st + "' of " + std::to_string(ss) + " bytes is taken as '" + typeName(T) + "' of " + std::to_string(cs) + " bytes";
	return "";
}
// ------------------------------------------------------------------ memory effects visible to scripts
struct Effects
{
	std::map<const Function*, std::set<int>> memo; std::set<const Function*> active;
	// parameters through which (directly or over pointers stored there) the function may write
	const std::set<int> &of(Function *F)
	{
		auto it = memo.find(F);
		if(it != memo.end()) return it->second;
		static const std::set<int> none;
		if(!active.insert(F).second) return none;
		std::set<int> r;
		std::map<const Value*, std::set<int>> taint;
		std::map<const Value*, std::set<int>> slot; // what was stored into a local
		for(auto &A : F->args()) if(A.getType()->isPointerTy()) taint[&A].insert(A.getArgNo());
		auto base = [&](const Value *p) { return getUnderlyingObject(p, 32); };
		bool ch = true;
		auto add = [&](const Value *v, const std::set<int> &s) { auto &t = taint[v]; size_t n = t.size(); t.insert(s.begin(), s.end()); if(t.size() != n) ch = true; };
		auto isLocal = [&](const Value *b) { if(isa<AllocaInst>(b)) return true; if(auto *A = dyn_cast<Argument>(b)) return A->hasByValAttr() || A->hasStructRetAttr(); return false; };
		while(ch)
		{
			ch = false;
			for(auto &I : instructions(*F))
			{
				if(auto *L = dyn_cast<LoadInst>(&I))
				{
					const Value *b = base(L->getPointerOperand());
					if(auto *A = dyn_cast<Argument>(b)) if(A->hasByValAttr()) add(L, taint[b]);
					if(isLocal(b)) { auto s = slot[b]; add(L, s); }
					else add(L, taint[L->getPointerOperand()]);
					continue;
				}
				if(auto *S = dyn_cast<StoreInst>(&I))
				{
					const Value *b = base(S->getPointerOperand());
					if(isLocal(b)) { auto &t = slot[b]; size_t n = t.size(); auto &v = taint[S->getValueOperand()]; t.insert(v.begin(), v.end()); if(t.size() != n) ch = true; }
					continue;
				}
				if(auto *MT = dyn_cast<MemTransferInst>(&I))
				{
					const Value *d = base(MT->getRawDest()), *s = base(MT->getRawSource());
					if(isLocal(d)) { auto &t = slot[d]; size_t n = t.size(); std::set<int> v = isLocal(s) ? slot[s] : taint[s]; if(isa<Argument>(s)) v = taint[s]; t.insert(v.begin(), v.end()); if(t.size() != n) ch = true; }
					continue;
				}
				if(isa<CallBase>(&I))
				{
					auto *CB = cast<CallBase>(&I);
					Function *C = calleeOf(CB);
					std::string n = C ? C->getName().str() : "";
					// routines returning one of their arguments
					if(n == "strchr" || n == "strrchr" || n == "strstr" || n == "memchr" || n == "strpbrk") add(CB, taint[CB->getArgOperand(0)]);
					continue;
				}
				if(isa<CmpInst>(&I)) continue;
				if(auto *G = dyn_cast<GetElementPtrInst>(&I)) { auto t = taint[G->getPointerOperand()]; add(G, t); continue; }
				for(auto &o : I.operands()) if(taint.count(o.get())) { auto s = taint[o.get()]; if(!s.empty()) add(&I, s); }
			}
		}
		auto writeTo = [&](const Value *p) {
			const Value *b = base(p);
			if(isLocal(b)) return;
			for(int k : taint[p]) r.insert(k);
			for(int k : taint[b]) r.insert(k);
		};
		static const std::set<std::string> pureCalls = { "strlen", "strcmp", "__isoc23_strtol", "__isoc23_strtoll", "strncmp", "memcmp", "bcmp", "strtol", "strtoll", "strtod", "atoi", "atof", "atoll", "atol", "strchr", "strstr", "strrchr", "memchr", "free" };
		for(auto &I : instructions(*F))
		{
			if(auto *S = dyn_cast<StoreInst>(&I)) writeTo(S->getPointerOperand());
			else if(auto *MI = dyn_cast<MemIntrinsic>(&I)) writeTo(MI->getRawDest());
			else if(auto *CB = dyn_cast<CallBase>(&I))
			{
				if(isa<IntrinsicInst>(CB)) continue;
				Function *C = calleeOf(CB);
				if(C && !C->isDeclaration() && fileOf(C).compare(0, 5, "NULLC") == 0 || (C && !C->isDeclaration()))
				{
					auto &w = of(C);
					for(int k : w) if(k >= 0 && (unsigned)k < CB->arg_size()) { const Value *a = CB->getArgOperand(k); const Value *b = base(a); if(isLocal(b)) { for(int q : slot[b]) r.insert(q); } else for(int q : taint[a]) r.insert(q); }
					continue;
				}
				std::string n = C ? C->getName().str() : "";
				if(pureCalls.count(n)) continue;
				if(n == "memcpy" || n == "memmove" || n == "memset" || n == "strcpy" || n == "strncpy" || n == "strcat" || n == "sprintf" || n == "snprintf" || n == "vsnprintf") { writeTo(CB->getArgOperand(0)); continue; }
				for(unsigned i = 0; i < CB->arg_size(); i++)
					if(CB->getArgOperand(i)->getType()->isPointerTy() && !CB->onlyReadsMemory(i) && !CB->onlyReadsMemory() && !CB->doesNotAccessMemory()) writeTo(CB->getArgOperand(i));
			}
		}
		active.erase(F);
		return memo[F] = r;
	}
};
// ------------------------------------------------------------------ call wrappers
struct Interval { int64_t off, size; bool operator<(const Interval &o) const { return off < o.off; } };
std::string diName(const DIType *T) { T = bare(T); return T ? typeName(T) : "void"; }
void checkWrapper(Function *F, bool witness)
{
	auto *SP = F->getSubprogram();
	std::string name = sname(F);
	auto fail = [&](std::string d) { R.addAt("call-wrapper", "NULLC/nullbind.h", SP ? SP->getLine() : 0, dname(F).substr(0, 160), d, "wrapper:" + dname(F)); };
	std::vector<const DIType*> targs;
	if(!SP) { R.brk("no debug information for " + name); return; }
	for(auto *P : SP->getTemplateParams()) if(auto *T = dyn_cast<DITemplateTypeParameter>(P)) targs.push_back(T->getType());
	if(targs.empty() || F->arg_size() != 3) { R.brk("the call wrapper " + name + " has another form"); return; }
	R.stat(witness ? "wrappers_of_all_arities" : "wrappers_in_use");
	Argument *fn = F->getArg(0), *ret = F->getArg(1), *arg = F->getArg(2);
	auto &DL = F->getParent()->getDataLayout();
	CallBase *call = nullptr; unsigned calls = 0;
	for(auto &I : instructions(*F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(CB)) { calls++; if(CB->getCalledOperand()->stripPointerCasts() == fn) call = CB; }
	if(!call || calls != 1) { fail("does not call the wrapped function exactly once"); return; }
	auto at = [&](const Value *p, const Value *b, int64_t &k) { APInt o(64, 0); const Value *u = p->stripAndAccumulateConstantOffsets(DL, o, true); k = o.getSExtValue(); return u == b; };
	// bytes of the argument block a value is made of
	std::function<void(const Value*, std::vector<Interval>&, int)> bytes = [&](const Value *v, std::vector<Interval> &out, int depth) {
		if(depth > 12) return;
		int64_t k;
		if(auto *L = dyn_cast<LoadInst>(v))
		{
			if(at(L->getPointerOperand(), arg, k)) { out.push_back({ k, (int64_t)DL.getTypeStoreSize(L->getType()) }); return; }
			// a local: what was copied into it
			APInt o(64, 0); const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
			if(isa<AllocaInst>(b))
			{
				int64_t lo = o.getSExtValue(), hi = lo + DL.getTypeStoreSize(L->getType());
				for(auto &I : instructions(*F))
				{
					int64_t d, s;
					if(auto *MT = dyn_cast<MemTransferInst>(&I)) { if(at(MT->getRawDest(), b, d) && isa<ConstantInt>(MT->getLength())) { int64_t n = cast<ConstantInt>(MT->getLength())->getSExtValue(); int64_t a = std::max(lo, d), e = std::min(hi, d + n); if(a < e && at(MT->getRawSource(), arg, s)) out.push_back({ s + (a - d), e - a }); } }
					if(auto *S = dyn_cast<StoreInst>(&I)) if(at(S->getPointerOperand(), b, d) && d < hi && d + (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()) > lo) bytes(S->getValueOperand(), out, depth + 1);
				}
			}
			return;
		}
		if(isa<AllocaInst>(v)) // passed in memory
		{
			for(auto &I : instructions(*F))
			{
				int64_t d, s;
				if(auto *MT = dyn_cast<MemTransferInst>(&I)) if(at(MT->getRawDest(), v, d) && isa<ConstantInt>(MT->getLength())) { if(at(MT->getRawSource(), arg, s)) out.push_back({ s, cast<ConstantInt>(MT->getLength())->getSExtValue() }); else if(auto *A = dyn_cast<AllocaInst>(getUnderlyingObject(MT->getRawSource()))) { if(A != v) bytes(A, out, depth + 1); } }
				if(auto *S = dyn_cast<StoreInst>(&I)) if(at(S->getPointerOperand(), v, d)) bytes(S->getValueOperand(), out, depth + 1);
			}
			return;
		}
		int64_t s;
		if(v->getType()->isPointerTy() && at(v, arg, s)) { out.push_back({ s, -1 }); return; }
		if(auto *I = dyn_cast<Instruction>(v)) for(auto &o : I->operands()) bytes(o.get(), out, depth + 1);
	};
	// where the declared parameters are
	int64_t off = 0; unsigned k = 0;
	if(call->hasStructRetAttr() || (call->arg_size() && call->paramHasAttr(0, Attribute::StructRet))) k = 1;
	for(size_t i = 1; i < targs.size(); i++)
	{
		const DIType *T = targs[i];
		unsigned sz = std::max(1u, sizeOfDI(T));
		bool empty = false;
		if(auto *C = dyn_cast_or_null<DICompositeType>(bare(T))) { Layout l; if(C->getTag() != dwarf::DW_TAG_enumeration_type && flatten(T, 0, l) && l.empty()) empty = true; }
		int64_t want = sz;
		std::vector<Interval> got;
		if(!empty)
			while(k < call->arg_size())
			{
				int64_t have = 0;
				size_t before = got.size();
				bytes(call->getArgOperand(k++), got, 0);
				if(got.size() == before) break;
				for(auto &g : got) have += g.size;
				if(have >= want) break;
			}
		std::sort(got.begin(), got.end());
		int64_t p = off; bool bad = got.empty();
		for(auto &g : got) { if(g.off != p && !(g.size < 0)) bad = true; if(g.size < 0) { bad = bad || g.off != off; p = off + want; } else p = g.off + g.size; }
		if(p - off < want || p - off > ((want + 3) & ~3)) bad = true;
		if(!empty)
		{
			R.stat("wrapper_arguments");
			if(bad) { std::string s; for(auto &g : got) s += (s.empty() ? "" : ", ") + std::to_string(g.off) + ".." + std::to_string(g.off + g.size); fail("argument " + std::to_string(i) + " ('" + diName(T) + "') lies at bytes " + std::to_string(off) + ".." + std::to_string(off + want) + " of the argument block but is made of " + (s.empty() ? "nothing" : s)); return; }
		}
		off += (sz + 3) & ~3u;
	}
	if(k != call->arg_size()) { fail("passes more arguments than the function has"); return; }
	// the result
	const DIType *RT = bare(targs[0]);
	int64_t stored = 0; const Instruction *bad = nullptr; bool badVal = false, order = false, varies = false;
	DominatorTree DT(*F);
	std::map<const Value*, bool> isRes;
	std::function<bool(const Value*, int)> fromCall = [&](const Value *v, int d) -> bool {
		if(v == call) return true;
		if(d > 10) return false;
		if(auto *A = dyn_cast<AllocaInst>(v))
		{
			for(unsigned i = 0; i < call->arg_size(); i++) if(call->getArgOperand(i) == A && call->paramHasAttr(i, Attribute::StructRet)) return true;
			for(auto &I : instructions(*F))
			{
				if(auto *S = dyn_cast<StoreInst>(&I)) if(getUnderlyingObject(S->getPointerOperand()) == A && fromCall(S->getValueOperand(), d + 1)) return true;
				if(auto *MT = dyn_cast<MemTransferInst>(&I)) if(getUnderlyingObject(MT->getRawDest()) == A && fromCall(getUnderlyingObject(MT->getRawSource()), d + 1)) return true;
			}
			return false;
		}
		if(auto *L = dyn_cast<LoadInst>(v)) return fromCall(getUnderlyingObject(L->getPointerOperand()), d + 1);
		if(auto *I = dyn_cast<Instruction>(v)) for(auto &o : I->operands()) if(fromCall(o.get(), d + 1)) return true;
		return false;
	};
	std::string signBad;
	for(auto &I : instructions(*F))
	{
		const Value *dst = nullptr, *val = nullptr; int64_t n = 0, o = 0;
		if(auto *S = dyn_cast<StoreInst>(&I)) { dst = S->getPointerOperand(); val = S->getValueOperand(); n = DL.getTypeStoreSize(val->getType()); }
		else if(auto *MT = dyn_cast<MemTransferInst>(&I)) { dst = MT->getRawDest(); val = getUnderlyingObject(MT->getRawSource()); n = isa<ConstantInt>(MT->getLength()) ? cast<ConstantInt>(MT->getLength())->getSExtValue() : -1; }
		else if(auto *L = dyn_cast<LoadInst>(&I)) { if(getUnderlyingObject(L->getPointerOperand()) == arg && !DT.dominates(&I, call)) order = true; continue; }
		else continue;
		const Value *u = getUnderlyingObject(dst);
		if(u == arg) { bad = &I; continue; }
		if(u != ret) continue;
		if(!at(dst, ret, o)) { varies = true; if(!DT.dominates(call, &I) && !DT.dominates(call->getParent(), I.getParent())) order = true; if(!fromCall(val, 0)) badVal = true; continue; }
		if(!DT.dominates(call, &I)) order = true;
		if(!fromCall(val, 0)) badVal = true;
		stored = std::max(stored, o + n);
		if(auto *B = dyn_cast_or_null<DIBasicType>(RT)) if(B->getSizeInBits() < 32 && isa<StoreInst>(&I))
		{
			bool sg = B->getEncoding() == dwarf::DW_ATE_signed || B->getEncoding() == dwarf::DW_ATE_signed_char;
			if(isa<ZExtInst>(val) && sg) signBad = "loses its sign";
			if(isa<SExtInst>(val) && !sg) signBad = "gains a sign";
		}
	}
	R.stat("wrapper_results");
	if(order) fail("reads its arguments after, or writes its result before, the call: both share one buffer");
	if(bad) fail("writes outside the result");
	if(badVal) fail("stores something else than the result of the call");
	if(!signBad.empty()) fail("the result " + signBad + " when it is widened");
	int64_t want = 0;
	if(RT)
	{
		want = sizeOfDI(RT);
		if(auto *B = dyn_cast<DIBasicType>(RT)) { if(B->getEncoding() == dwarf::DW_ATE_float && want == 4) want = 8; else if(want < 4) want = 4; }
		if(isa<DICompositeType>(RT)) { Layout l; if(flatten(RT, 0, l) && l.empty()) want = 0, stored = 0; }
	}
	if(varies) { R.stat("undecided: result written in a loop"); return; }
	if(stored != want) fail("the result of type '" + diName(targs[0]) + "' takes " + std::to_string(want) + " bytes but " + std::to_string(stored) + " are written");
}
bool touchedBy(const Argument *A, int64_t start, std::set<std::pair<unsigned, unsigned>> &out, int depth)
{
	if(depth > 6) return false;
	auto &DL = M->getDataLayout();
	std::vector<std::pair<const Value*, int64_t>> work{ { A, start } };
	while(!work.empty())
	{
		auto [v, off] = work.back(); work.pop_back();
		for(auto *U : v->users())
		{
			if(isa<CmpInst>(U) || isa<DbgInfoIntrinsic>(U)) continue;
			if(auto *L = dyn_cast<LoadInst>(U)) { out.insert({ off, DL.getTypeStoreSize(L->getType()) }); continue; }
			if(auto *S = dyn_cast<StoreInst>(U)) { if(S->getValueOperand() == v) return false; out.insert({ off, DL.getTypeStoreSize(S->getValueOperand()->getType()) }); continue; }
			if(auto *G = dyn_cast<GetElementPtrInst>(U)) { APInt o(64, 0); if(!G->accumulateConstantOffset(DL, o) || o.isNegative()) return false; work.push_back({ G, off + o.getSExtValue() }); continue; }
			if(auto *CB = dyn_cast<CallBase>(U))
			{
				Function *C = calleeOf(CB);
				if(!C || C->isDeclaration() || C->isVarArg()) return false;
				bool ok = true;
				for(unsigned i = 0; i < CB->arg_size(); i++) if(CB->getArgOperand(i) == v) ok = ok && i < C->arg_size() && touchedBy(C->getArg(i), off, out, depth + 1);
				if(!ok) return false;
				continue;
			}
			return false;
		}
	}
	return true;
}
// the bytes that a function accesses through its pointer parameter n; false when not all of them are known
bool touched(Function *F, unsigned n, std::set<std::pair<unsigned, unsigned>> &out)
{
	auto *SP = F->getSubprogram();
	std::string name;
	for(auto *N : SP->getRetainedNodes()) if(auto *V = dyn_cast<DILocalVariable>(N)) if(V->getArg() == n + 1) name = V->getName().str();
	for(auto &I : instructions(*F)) if(auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if(D->getVariable()->getArg() == n + 1 && D->getVariable()->getScope()->getSubprogram() == SP && !D->getDebugLoc().getInlinedAt()) name = D->getVariable()->getName().str();
	Argument *A = nullptr;
	for(auto &X : F->args()) if(X.getName() == name) A = &X;
	if(!A || name.empty() || !A->getType()->isPointerTy() || A->hasByValAttr()) return false;
	return touchedBy(A, 0, out, 0);
}
void simpleDecls(const std::string &module, const std::string &text)
{
	for(size_t i = 0; (i = text.find("typedef ", i)) != std::string::npos; i++)
	{
		size_t e = text.find(';', i);
		if(e == std::string::npos) break;
		std::string d = squeeze(text.substr(i + 8, e - i - 8));
		size_t p = d.find_last_of(" ])>");
		if(p != std::string::npos) typedefs[module][d.substr(p + 1)] = d.substr(0, d[p] == ' ' ? p : p + 1);
	}
	for(size_t i = 0; (i = text.find("enum ", i)) != std::string::npos; i++)
	{
		if(i && (isalnum((unsigned char)text[i - 1]) || text[i - 1] == '_')) continue;
		size_t e = i + 5; while(e < text.size() && (isalnum((unsigned char)text[e]) || text[e] == '_')) e++;
		enums[module].insert(text.substr(i + 5, e - i - 5));
	}
}
}
RULE(bindings)
{
	bool verbose = args.size() > 1 && args[1] == "-v";
	loadModules();
	for(Function *F : definedFns()) basicSimplify(F, false);
	for(auto &t : moduleText) simpleDecls(t.first, t.second);
	// member functions of a type that is declared under another name
	for(auto &m : protos)
	{
		std::vector<std::pair<std::string, std::string>> ren;
		for(auto &f : m.second) { size_t c = f.first.find("::"); if(c != std::string::npos && typedefs[m.first].count(f.first.substr(0, c))) ren.push_back({ f.first, typedefs[m.first][f.first.substr(0, c)] + f.first.substr(c) }); }
		for(auto &r : ren) { auto v = m.second[r.first]; for(auto &x : v) m.second[r.second].push_back(x); m.second.erase(r.first); }
	}
	struct Bound { Function *F; std::string file; unsigned line; bool raw; };
	std::map<std::string, std::map<std::string, std::map<int, Bound>>> bound;
	std::set<std::string> modulesBound;
	std::vector<std::tuple<std::string, std::string, int, std::string, unsigned>> pure;
	// helpers of the modules that only pass their parameters on are looked at in their callers
	auto binder = [&](Function *C) { std::string n = sname(C); return n.find("nullcBindModuleFunctionHelper") != std::string::npos || n == "nullcSetModuleFunctionAttribute"; };
	std::set<Function*> forward;
	for(int round = 0; round < 3; round++)
		for(Function *F : definedFns())
		{
			if(fileOf(F).find("nullbind.h") != std::string::npos || binder(F)) continue;
			bool viaParam = false, calls = false;
			for(auto &I : instructions(*F))
				if(auto *CB = dyn_cast<CallBase>(&I))
					if(Function *C = calleeOf(CB))
					{
						if(binder(C)) for(auto &a : CB->args()) if(isa<Argument>(a.get())) viaParam = true;
						if(forward.count(C)) calls = true;
					}
			if(viaParam && F->arg_size()) forward.insert(F);
			else if(calls) { InlinePolicy P; P.want = [&](Function *C, CallBase *) { return forward.count(C) > 0; }; normalise(F, &P, false); }
		}
	std::set<std::string> openModules; bool openAll = false;
	for(auto &F : *M)
		for(auto &I : instructions(F))
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB))
				{
					if(forward.count(&F)) continue;
					std::string n = sname(C);
					bool helper = n.find("nullcBindModuleFunctionHelper") != std::string::npos && CB->arg_size() == 4;
					if(helper && fileOf(&F).find("nullbind.h") == std::string::npos)
					{
						auto *G = dyn_cast<Function>(CB->getArgOperand(1)->stripPointerCasts());
						auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(3));
						std::string m = strOf(CB->getArgOperand(0)), nm = strOf(CB->getArgOperand(2));
						if(!G || !K || m.empty() || nm.empty()) { R.stat("bindings_not_constant"); if(m.empty()) openAll = true; else openModules.insert(m); continue; }
						int ix = (int)K->getSExtValue();
						R.stat("bindings");
						modulesBound.insert(m);
						auto &slot = bound[m][nm];
						if(slot.count(ix) && slot[ix].F != G) R.addAt("binding", fileOf(&I), lineOf(&I), sname(&F), m + ": '" + nm + "' overload " + std::to_string(ix) + " is bound twice, to " + sname(slot[ix].F) + " and " + sname(G), "twice:" + m + ":" + nm + ":" + std::to_string(ix));
						slot[ix] = { G, fileOf(&I), lineOf(&I), false };
					}
					if(n == "nullcSetModuleFunctionAttribute" && CB->arg_size() == 5)
					{
						auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(2)), *A = dyn_cast<ConstantInt>(CB->getArgOperand(3)), *V = dyn_cast<ConstantInt>(CB->getArgOperand(4));
						std::string m = strOf(CB->getArgOperand(0)), nm = strOf(CB->getArgOperand(1));
						if(K && A && V && A->isZero() && !V->isZero() && !m.empty()) pure.push_back({ m, nm, (int)K->getSExtValue(), fileOf(&I), lineOf(&I) });
					}
				}
	if(bound.size() < 10) R.brk("the bindings of the library modules were not found");
	// declarations against functions
	for(auto &m : bound)
		for(auto &f : m.second)
			for(auto &o : f.second)
			{
				auto &b = o.second;
				std::string id = m.first + ": '" + f.first + "' overload " + std::to_string(o.first);
				auto it = protos.find(m.first);
				if(it == protos.end()) { R.stat("modules_without_source"); continue; }
				auto jt = it->second.find(f.first);
				if(jt == it->second.end() || o.first < 0 || (size_t)o.first >= jt->second.size())
				{
					if(m.first == "$base$") { R.stat("base_functions_without_declaration"); continue; }
					R.addAt("binding", b.file, b.line, sname(b.F), id + " is bound but the module declares no such function", "undeclared:" + id);
					continue;
				}
				auto &P = jt->second[o.first];
				if(P.body) { R.addAt("binding", b.file, b.line, sname(b.F), id + " is bound to a native function but is written in the module itself: " + P.full, "body:" + id); continue; }
				auto *SP = b.F->getSubprogram();
				if(!SP) { R.stat("natives_without_debug_information"); continue; }
				auto types = SP->getType()->getTypeArray();
				std::vector<const DIType*> params;
				for(unsigned i = 1; i < types.size(); i++) params.push_back(types[i]);
				R.stat("declarations_compared");
				if(verbose) errs() << id << " | " << P.full << " | " << dname(b.F) << "\n";
				auto fail = [&](std::string d) { R.addAt("binding", fileOf(b.F), lineOf(b.F), sname(b.F), id + ", declared as '" + P.full + "': " + d, "match:" + id); };
				std::string e = mismatch(P.ret, types.size() ? types[0] : nullptr, m.first);
				if(!e.empty()) fail("result: " + e);
				std::vector<std::string> want = P.params;
				if(P.member) { std::string cls = f.first.substr(0, f.first.rfind("::")); want.push_back(cls + " ref"); }
				if(P.member && params.size() + 1 == want.size()) want.pop_back(); // the object is not used
				if(params.size() < want.size() || params.size() > want.size() + (P.member ? 0 : 1)) { fail("the function takes " + std::to_string(params.size()) + " parameters where the script passes " + std::to_string(want.size())); continue; }
				for(size_t i = 0; i < want.size(); i++)
				{
					R.stat("parameters_compared");
					std::set<std::pair<unsigned, unsigned>> used;
					bool known = touched(b.F, i, used);
					e = mismatch(want[i], params[i], m.first, known ? &used : nullptr);
					if(!e.empty()) fail(P.member && i + 1 == want.size() ? "object: " + e : "parameter " + std::to_string(i + 1) + ": " + e);
				}
				if(params.size() > want.size() && !(bare(params.back()) && isa<DIDerivedType>(bare(params.back())))) fail("the last parameter has no counterpart");
			}
	// every declaration without body has a function
	for(auto &m : protos)
	{
		if(!modulesBound.count(m.first) || openAll || openModules.count(m.first)) continue;
		for(auto &f : m.second)
			for(size_t i = 0; i < f.second.size(); i++)
			{
				auto &P = f.second[i];
				if(P.body) continue;
				bool later = false;
				for(auto &q : f.second) if(q.body && q.params == P.params) later = true;
				if(later) continue;
				R.stat("declarations_without_body");
				if(!bound[m.first][f.first].count((int)i))
				{
					if(verbose) errs() << "unbound " << m.first << " " << f.first << " " << i << " " << P.full << "\n";
					R.addAt("binding", m.first == "$base$" ? "NULLC/Compiler.cpp" : "Modules/" + std::string(m.first), 0, f.first, m.first + ": '" + P.full + "' is declared but no native function is bound to it (overload " + std::to_string(i) + ")", "unbound:" + m.first + ":" + f.first + ":" + std::to_string(i));
				}
			}
	}
	// functions that the optimiser takes to write no memory
	Effects E;
	for(auto &p : pure)
	{
		auto &[m, nm, ix, file, line] = p;
		auto &slot = bound[m][nm];
		if(!slot.count(ix)) { R.stat("attributes_without_function"); continue; }
		Function *F = slot[ix].F;
		R.stat("functions_without_memory_effects");
		auto &w = E.of(F);
		// script code that it runs may write anything; collections (finalizers) aside
		std::set<Function*> seen; std::vector<Function*> work{ F };
		while(!work.empty())
		{
			Function *G = work.back(); work.pop_back();
			if(!seen.insert(G).second) continue;
			std::string gn = sname(G);
			if(gn.compare(0, 13, "nullcCallFunc") == 0 || gn.compare(0, 12, "nullcRunFunc") == 0 || gn == "nullcCallFunctionInternal") { R.addAt("pure", fileOf(F), lineOf(F), sname(F), m + ": '" + nm + "' overload " + std::to_string(ix) + " is registered as not writing memory but runs script code", "purerun:" + m + ":" + nm + ":" + std::to_string(ix)); break; }
			if(gn == "NULLC::AllocObject" || gn == "NULLC::AllocArray" || gn.find("nullcAllocate") == 0 || gn.find("CollectMemory") != std::string::npos || gn.find("nullcThrowError") == 0) continue;
			for(auto &I : instructions(*G)) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(!C->isDeclaration()) work.push_back(C);
		}
		if(!w.empty()) R.addAt("pure", fileOf(F), lineOf(F), sname(F), m + ": '" + nm + "' overload " + std::to_string(ix) + " is registered as not writing memory but writes through its parameter " + std::to_string(*w.begin() + 1), "pure:" + m + ":" + nm + ":" + std::to_string(ix));
	}
	// wrappers
	auto wrappers = [&](Module &W, bool witness) {
		for(auto &F : W) if(!F.isDeclaration() && sname(&F).find("nullcWrapCall") != std::string::npos) {
			// helpers are part of the wrapper, loops over constant ranges are written out
			InlinePolicy P;
			P.want = [](Function *C, CallBase*) { return C && !C->isDeclaration(); };
			normalise(&F, &P, false);
			bool loops = false;
			{ DominatorTree DT(F); LoopInfo LI(DT); loops = !LI.empty(); }
			if(loops) { runPasses(&F, "loop-simplify,lcssa,loop(loop-rotate),loop-simplify,lcssa,loop(indvars,loop-unroll-full),sccp,simplifycfg"); basicSimplify(&F, false); }
			checkWrapper(&F, witness);
		}
	};
	wrappers(*M, false);
	if(!args.empty() && args[0] != "-")
	{
		SMDiagnostic D;
		auto W = parseIRFile(args[0], D, M->getContext());
		if(!W) { R.brk("the wrapper witness could not be read"); return; }
		std::unique_ptr<Module> keep = std::move(W);
		Module *old = M;
		M = keep.get();
		wrappers(*keep, true);
		M = old;
		keep.release();
	}
}
