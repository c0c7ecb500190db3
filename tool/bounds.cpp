// C23: native library functions stay inside the arrays that scripts hand to them and inside the arrays they create
#include "rules.h"
#include "native.h"
#include "lin.h"
#include "llvm/Analysis/ValueTracking.h"
#include "protos.h"
namespace {
unsigned basicSize(const std::string &t)
{
	static const std::map<std::string, unsigned> m = { { "bool", 1 }, { "char", 1 }, { "short", 2 }, { "int", 4 }, { "float", 4 }, { "long", 8 }, { "double", 8 }, { "typeid", 4 }, { "auto_ref", 12 }, { "auto_array", 16 }, { "__function", 4 } };
	auto it = m.find(t);
	return it == m.end() ? 0 : it->second;
}
// sizes of the built-in types, by the index the host's header gives them
unsigned sizeOfTypeId(int64_t id)
{
	static std::map<int64_t, unsigned> m; static bool done = false;
	if(!done)
	{
		done = true;
		std::ifstream f("/repo/NULLC/nullc.h");
		std::stringstream ss; ss << f.rdbuf();
		std::string t = ss.str();
		for(size_t p = t.find("NULLC_TYPE_"); p != std::string::npos; p = t.find("NULLC_TYPE_", p + 1))
		{
			size_t e = p + 11; std::string n;
			while(e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_')) n += (char)tolower(t[e++]);
			while(e < t.size() && (isspace((unsigned char)t[e]) || t[e] == '=')) e++;
			if(e < t.size() && isdigit((unsigned char)t[e])) if(unsigned s = basicSize(n)) m[atoi(t.c_str() + e)] = s;
		}
		if(m.size() < 9) R.brk("indices of the built-in types not found");
	}
	return m.count(id) ? m[id] : 0;
}
struct Param { std::string name, ctype; Argument *data = nullptr, *len = nullptr; bool byVal = false; };
std::vector<Param> cppParams(Function *F)
{
	std::map<unsigned, Param> m;
	auto *SP = F->getSubprogram();
	for(auto &I : instructions(*F))
		if(auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
		{
			auto *V = D->getVariable();
			if(V->isParameter() && V->getScope()->getSubprogram() == SP && !D->getDebugLoc().getInlinedAt()) { m[V->getArg()].name = V->getName().str(); m[V->getArg()].ctype = typeName(V->getType()); }
		}
	if(SP) for(auto *N : SP->getRetainedNodes()) if(auto *V = dyn_cast<DILocalVariable>(N)) if(V->isParameter()) { m[V->getArg()].name = V->getName().str(); m[V->getArg()].ctype = typeName(V->getType()); }
	std::vector<Param> r;
	for(auto &x : m)
	{
		Param p = x.second;
		for(auto &A : F->args())
		{
			std::string n = A.getName().str();
			if(n == p.name) { p.data = &A; p.byVal = A.hasByValAttr(); }
			if(n == p.name + ".coerce0" || n == p.name + ".coerce") p.data = &A;
			if(n == p.name + ".coerce1") p.len = &A;
		}
		r.push_back(p);
	}
	return r;
}
struct Native { Function *F; std::string module, name; int index; std::vector<Param> params; const Proto *proto; };
std::vector<Native> natives()
{
	std::vector<Native> r; std::set<Function*> seen;
	for(auto &F : *M)
		for(auto &I : instructions(F))
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB))
					if(sname(C).find("nullcBindModuleFunctionHelper") != std::string::npos && CB->arg_size() == 4)
						if(auto *G = dyn_cast<Function>(CB->getArgOperand(1)->stripPointerCasts()))
						{
							if(G->isDeclaration() || !seen.insert(G).second) continue;
							Native n{ G, strOf(CB->getArgOperand(0)), strOf(CB->getArgOperand(2)), -1, {}, nullptr };
							if(auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(3))) n.index = (int)K->getSExtValue();
							auto it = protos.find(n.module);
							if(it != protos.end() && n.index >= 0)
							{
								auto jt = it->second.find(n.name);
								if(jt != it->second.end() && (size_t)n.index < jt->second.size()) n.proto = &jt->second[n.index];
							}
							n.params = cppParams(G);
							r.push_back(n);
						}
	return r;
}

// ------------------------------------------------------------------ one function
struct Root
{
	enum K { None, Array, Alloc, Auto, Ref, Null, Local } k = None;
	const Value *key = nullptr;      // data pointer
	const Value *len = nullptr, *size = nullptr;   // element count; element size (allocations)
	int64_t elem = 1;                // known element size
	const Value *type = nullptr;     // auto[]: type index
};
struct Analysis
{
	Function *F; const Native &N;
	DominatorTree DT;
	std::map<const Value*, Root> rootMemo;
	std::map<const Value*, int64_t> elemOf; // data argument -> element size
	std::map<const Value*, int64_t> refOf;  // reference to a basic value -> its size
	Analysis(Function *F, const Native &N): F(F), N(N), DT(*F) {}

	// the type index a size is taken of: load of ExternTypeInfo::size
	static const Value *sizedType(const Value *v, const char *field = "size")
	{
		auto *L = dyn_cast<LoadInst>(v);
		if(!L || !L->getType()->isIntegerTy(strcmp(field, "typeFlags") ? 32 : 8)) return nullptr;
		static std::map<std::string, int64_t> offs;
		if(offs.empty()) { if(auto *T = recordOf("ExternTypeInfo")) for(auto &f : fieldsOf(T)) offs[f.name] = f.offset; if(!offs.count("size") || !offs.count("subCat")) { R.brk("the layout of type descriptions is not known"); offs["size"] = offs["subCat"] = -1; } }
		int64_t off = offs[field];
		auto *G = dyn_cast<GEPOperator>(L->getPointerOperand());
		const Value *idx = nullptr; int64_t c = 0;
		while(G)
		{
			MapVector<Value*, APInt> vars; APInt k(64, 0);
			if(!G->collectOffset(M->getDataLayout(), 64, vars, k)) return nullptr;
			c += k.getSExtValue();
			for(auto &x : vars) { if(idx) return nullptr; idx = x.first; if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) { if(ST->getName().find("ExternTypeInfo") == StringRef::npos) return nullptr; } else return nullptr; }
			auto *P = dyn_cast<GEPOperator>(G->getPointerOperand());
			if(!P) break;
			G = P;
		}
		if(!G || !idx || c != off) return nullptr;
		while(auto *Z = dyn_cast<CastInst>(idx)) idx = Z->getOperand(0);
		return idx;
	}
	const Value *sameBlockLoad(const LoadInst *P, const Value *base, int64_t off, Type *T)
	{
		// load of another field of the same object with nothing written in between
		auto &DL = M->getDataLayout();
		auto at = [&](const Value *p, int64_t &k) { APInt o(64, 0); const Value *b = p->stripAndAccumulateConstantOffsets(DL, o, true); k = o.getSExtValue(); return b; };
		const LoadInst *best = nullptr;
		for(auto &I : instructions(*F))
			if(auto *L = dyn_cast<LoadInst>(&I))
			{
				int64_t k;
				if(L->getType() != T || at(L->getPointerOperand(), k) != base || k != off) continue;
				const Instruction *a = P, *b = L;
				if(DT.dominates(b, a)) std::swap(a, b); else if(!DT.dominates(a, b)) continue;
				if(clean(a, b)) { best = L; break; }
			}
		return best;
	}
	// nothing is written on any path from a to b (a dominates b)
	bool clean(const Instruction *a, const Instruction *b)
	{
		std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> work;
		// a copy of an argument is not reachable from elsewhere
		const Value *own = nullptr;
		if(auto *L = dyn_cast<LoadInst>(a)) if(auto *X = dyn_cast<Argument>(getUnderlyingObject(L->getPointerOperand()))) if(X->hasByValAttr()) own = X;
		auto writes = [&](const Instruction &I) {
			if(own)
			{
				if(auto *S = dyn_cast<StoreInst>(&I)) if(getUnderlyingObject(S->getPointerOperand()) != own) return false;
				if(auto *MI = dyn_cast<MemIntrinsic>(&I)) if(getUnderlyingObject(MI->getRawDest()) != own) return false;
				if(auto *CB = dyn_cast<CallBase>(&I)) { bool given = false; for(auto &x : CB->args()) if(x->getType()->isPointerTy() && getUnderlyingObject(x.get()) == own) given = true; if(!given) return false; }
			}
			if(auto *CB = dyn_cast<CallBase>(&I)) if(CB->onlyAccessesInaccessibleMemory()) return false;
			return I.mayWriteToMemory() && !isa<DbgInfoIntrinsic>(I) && !I.isLifetimeStartOrEnd(); };
		auto scanBack = [&](const BasicBlock *B, const Instruction *from) -> int // 1: found a, 0: clean to the top, -1: written
		{
			bool on = from == nullptr;
			for(auto it = B->rbegin(); it != B->rend(); ++it)
			{
				if(&*it == from) { on = true; continue; }
				if(!on) continue;
				if(&*it == a) return 1;
				if(writes(*it)) return -1;
			}
			return 0;
		};
		int r = scanBack(b->getParent(), b);
		if(r == 1) return true;
		if(r < 0) return false;
		for(auto *P : predecessors(b->getParent())) if(seen.insert(P).second) work.push_back(P);
		while(!work.empty())
		{
			auto *B = work.back(); work.pop_back();
			if(!DT.isReachableFromEntry(B)) continue;
			int x = scanBack(B, nullptr);
			if(x < 0) return false;
			if(x == 0) for(auto *P : predecessors(B)) if(seen.insert(P).second) work.push_back(P);
		}
		return true;
	}
	Root rootOf(const Value *v)
	{
		auto it = rootMemo.find(v);
		if(it != rootMemo.end()) return it->second;
		return rootMemo[v] = root(v);
	}
	Root root(const Value *v)
	{
		Root r;
		if(isa<ConstantPointerNull>(v)) { r.k = Root::Null; r.key = v; return r; }
		for(auto &p : N.params)
		{
			if(p.data == v && p.len && p.ctype.find("NULLCArray") != std::string::npos && p.ctype.find('*') == std::string::npos) { r.k = Root::Array; r.key = v; r.len = p.len; r.elem = elemOf[v]; return r; }
			if(p.data == v && p.byVal && p.ctype.find("NULLCRef") != std::string::npos) { r.k = Root::Ref; r.key = v; r.elem = (int64_t)M->getDataLayout().getTypeStoreSize(p.data->getParamByValType()).getFixedValue(); return r; }
			if(p.data == v && refOf.count(v)) { r.k = Root::Ref; r.key = v; r.elem = refOf[v]; return r; }
		}
		if(auto *L = dyn_cast<LoadInst>(v))
		{
			APInt o(64, 0);
			const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true);
			for(auto &p : N.params)
			{
				if(p.data != b) continue;
				bool au = p.ctype.find("NULLCAutoArray") != std::string::npos, ar = !au && p.ctype.find("NULLCArray") != std::string::npos;
				auto *I32 = Type::getInt32Ty(M->getContext());
				if(p.ctype.find("NULLCRef") != std::string::npos && o == 4)
				{
					r.type = sameBlockLoad(L, b, 0, I32); // without it nothing is known about the object
					r.k = Root::Auto; r.key = v; r.elem = 0; r.len = ConstantInt::get(I32, 1); // one object of that type
					return r;
				}
				if(!au && !ar) continue;
				if(o != (au ? 4 : 0)) continue;
				r.len = sameBlockLoad(L, b, au ? 12 : 8, I32);
				r.k = au ? Root::Auto : Root::Array;
				r.key = v;
				r.elem = au ? 0 : elemOf.count(b) ? elemOf[b] : 1;
				if(au) r.type = sameBlockLoad(L, b, 0, I32);
				return r;
			}
		}
		if(auto *AI = dyn_cast<AllocaInst>(v))
			if(auto sz = AI->getAllocationSize(M->getDataLayout())) { r.k = Root::Local; r.key = v; r.elem = (int64_t)sz->getFixedValue(); return r; }
		const CallBase *CB = dyn_cast<CallBase>(v);
		if(auto *X = dyn_cast<ExtractValueInst>(v)) if(X->getIndices().size() == 1 && X->getIndices()[0] == 0) CB = dyn_cast<CallBase>(X->getAggregateOperand());
		if(CB)
			if(Function *C = calleeOf(CB))
			{
				std::string n = sname(C);
				r.key = v;
				if(n == "NULLC::AllocObject" && CB->arg_size() == 2) { r.k = Root::Alloc; r.len = CB->getArgOperand(0); r.elem = 1; return r; }
				if(n == "nullcAllocate" && CB->arg_size() == 1) { r.k = Root::Alloc; r.len = CB->getArgOperand(0); r.elem = 1; return r; }
				if(n == "NULLC::AllocArray" && CB->arg_size() == 3) { r.k = Root::Alloc; r.len = CB->getArgOperand(1); r.size = CB->getArgOperand(0); return r; }
				if(n == "nullcAllocateArrayTyped" && CB->arg_size() == 2)
				{
					r.k = Root::Alloc; r.len = CB->getArgOperand(1); r.elem = 1;
					if(auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(0)))
						if(unsigned s = sizeOfTypeId(K->getSExtValue())) r.elem = s;
					return r;
				}
				r.key = nullptr;
			}
		return r;
	}
	// all places a pointer may start from
	void roots(const Value *v, std::set<const Value*> &out, std::set<const Value*> &seen)
	{
		if(!seen.insert(v).second) return;
		if(auto *G = dyn_cast<GEPOperator>(v)) return roots(G->getPointerOperand(), out, seen);
		if(auto *P = dyn_cast<PHINode>(v)) { for(auto &x : P->incoming_values()) roots(x.get(), out, seen); return; }
		if(auto *S = dyn_cast<SelectInst>(v)) { roots(S->getTrueValue(), out, seen); roots(S->getFalseValue(), out, seen); return; }
		if(auto *Z = dyn_cast<FreezeInst>(v)) return roots(Z->getOperand(0), out, seen);
		out.insert(v);
	}
	bool tracked(const Value *v)
	{
		std::set<const Value*> o, s;
		roots(v, o, s);
		for(auto *x : o) { auto k = rootOf(x).k; if(k != Root::None && k != Root::Null && k != Root::Local) return true; }
		return false;
	}
	// where a pointer points: root and offset
	bool locate(Facts &Fx, const Value *v, Root &r, Lin &off)
	{
		off = Lin(0);
		for(int i = 0; i < 24; i++)
		{
			v = Fx.res(v);
			if(auto *G = dyn_cast<GEPOperator>(v))
			{
				MapVector<Value*, APInt> vars; APInt k(64, 0);
				if(!G->collectOffset(M->getDataLayout(), 64, vars, k)) return false;
				off = off + Lin((Int)k.getSExtValue());
				for(auto &x : vars) off = off + Fx.of(x.first, true) * (Int)x.second.getSExtValue();
				v = G->getPointerOperand();
				continue;
			}
			if(auto *Z = dyn_cast<FreezeInst>(v)) { v = Z->getOperand(0); continue; }
			if(auto *P = dyn_cast<PHINode>(v))
			{
				const Value *init; int64_t step;
				if(Fx.affine(P, init, step) && !Fx.walked.count(P))
				{
					Lin o0;
					if(!locate(Fx, init, r, o0)) return false;
					Lin mine = o0 + Fx.roundsOf(P->getParent()) * step;
					if(r.k == Root::Local) { Fx.cons.push_back(mine); Fx.cons.push_back(Lin(r.elem) - mine); } // the host's own buffers are taken to be large enough
					Fx.walk(P, mine, r.key, o0, step);
					// what goes around with it
					for(auto &Q : P->getParent()->phis())
						if(&Q != P && Fx.siblings.insert(&Q).second)
						{
							Root r2; Lin o2;
							if(Q.getType()->isPointerTy()) locate(Fx, &Q, r2, o2);
							else if(Q.getType()->isIntegerTy() && Q.getType()->getIntegerBitWidth() <= 64) { Fx.of(&Q, false); Fx.of(&Q, true); }
						}
					off = off + mine;
					return true;
				}
			}
			if(isa<PHINode>(v) || isa<SelectInst>(v)) { if(std::find(Fx.merges.begin(), Fx.merges.end(), v) == Fx.merges.end()) Fx.merges.push_back(v); return false; }
			r = rootOf(v);
			return r.k != Root::None;
		}
		return false;
	}
	static Int objectLimit() { return 0x7fffffff; } // no script object is larger
	bool sameType(Facts &Fx, const Value *a, const Value *b)
	{
		if(!a || !b) return false;
		if(sameValue(a, b, true)) return true;
		return Fx.holds(Fx.of(a, false) - Fx.of(b, false)) && Fx.holds(Fx.of(b, false) - Fx.of(a, false));
	}
	// the element count handed out with an array allocation
	const Value *countOf(const Root &r)
	{
		auto *X = dyn_cast<ExtractValueInst>(r.key);
		if(!X) return nullptr;
		for(auto *U : X->getAggregateOperand()->users()) if(auto *Y = dyn_cast<ExtractValueInst>(U)) if(Y->getIndices()[0] == 1) return Y;
		return nullptr;
	}
	// bytes available behind a root, in every form it can be told; adds what its existence implies
	std::vector<Lin> capacity(Facts &Fx, const Root &r)
	{
		std::vector<Lin> out;
		if(r.k == Root::Ref) { out.push_back(Lin(r.elem)); return out; }
		if((r.k == Root::Array && !r.len) || (r.k == Root::Auto && (!r.len || !r.type))) return out;
		if(r.k == Root::Array) { out.push_back(Fx.of(r.len, false) * r.elem); return out; }
		if(r.k == Root::Alloc)
		{
			if(auto *n = countOf(r))
			{
				Lin l = Fx.of(n, false);
				if(!r.size) out.push_back(l * r.elem);
				else if(auto *K = dyn_cast<ConstantInt>(r.size)) out.push_back(l * (Int)K->getZExtValue());
			}
			if(!r.size)
			{
				Lin n = Fx.of(r.len, false);
				Fx.cons.push_back(Lin(objectLimit()) - n * r.elem);
				Fx.link();
				out.push_back(Fx.of(r.len, false) * r.elem);
				return out;
			}
			if(auto *K = dyn_cast<ConstantInt>(r.size))
			{
				Lin n = Fx.of(r.len, false) * (Int)K->getZExtValue();
				Fx.cons.push_back(Lin(objectLimit()) - n);
				Fx.link();
				out.push_back(n);
				return out;
			}
			Lin n = Fx.mulAtoms(Fx.of(r.len, false), Fx.of(r.size, false));
			Fx.cons.push_back(Lin(objectLimit()) - n);
			Fx.multiply();
			out.push_back(n);
			return out;
		}
		if(r.k == Root::Auto)
		{
			if(auto *one = dyn_cast<ConstantInt>(r.len)) if(one->isOne()) knownSizes(Fx, r.type, out);
			for(auto *s : sizes())
				if(sameType(Fx, sizedType(s), r.type)) { Lin n = Fx.mulAtoms(Fx.of(r.len, false), Fx.of(s, false)); Fx.cons.push_back(Lin(objectLimit()) - n); Fx.multiply(); out.push_back(n); }
			return out;
		}
		return out;
	}
	static uint64_t category(const char *n)
	{
		static std::map<std::string, int64_t> m;
		if(m.empty()) { for(auto &x : enumOf("SubCategory")) m[x.first] = x.second; if(!m.count("CAT_POINTER")) R.brk("the categories of types are not known"); }
		return m.count(n) ? (uint64_t)m[n] : ~0ull;
	}
	static uint64_t extendableFlag()
	{
		for(auto &x : enumOf("TypeFlags")) if(x.first == "TYPE_IS_EXTENDABLE") return (uint64_t)x.second;
		return ~0ull;
	}
	bool isArray(Facts &Fx, const std::vector<Cmp> &conds, const Value *t)
	{
		for(auto &c : conds)
			if(auto *K = dyn_cast<ConstantInt>(c.b))
				if(c.p == CmpInst::ICMP_EQ && K->getBitWidth() <= 64 && K->getZExtValue() == category("CAT_ARRAY"))
					if(auto *u = sizedType(uncast(c.a), "subCat")) if(sameType(Fx, u, t)) return true;
		return false;
	}
	// e is the element type of t
	bool isElement(Facts &Fx, const std::vector<Cmp> &conds, const Value *e, const Value *t)
	{
		if(auto *u = sizedType(e, "subType")) if(sameType(Fx, u, t)) return true;
		for(auto &c : conds)
			if(c.p == CmpInst::ICMP_EQ)
				for(int k = 0; k < 2; k++)
					if(auto *u = sizedType(uncast(k ? c.b : c.a), "subType")) if(sameType(Fx, u, t) && sameType(Fx, e, k ? c.a : c.b)) return true;
		return false;
	}
	// what the category of a type says about its size (constants are exact, but for the 4 of a class that starts with its type index)
	void knownSizes(Facts &Fx, const Value *t, std::vector<Lin> &out)
	{
		auto conds = conditionsAt(Fx.at, DT);
		conds.insert(conds.end(), Fx.extra.begin(), Fx.extra.end());
		for(auto &c : conds)
		{
			auto *K = dyn_cast<ConstantInt>(c.b);
			if(!K || K->getBitWidth() > 64) continue;
			auto *u = c.p == CmpInst::ICMP_EQ || c.p == CmpInst::ICMP_NE ? sizedType(uncast(c.a), "subCat") : nullptr;
			auto *v = !u && (c.p == CmpInst::ICMP_EQ || c.p == CmpInst::ICMP_NE) ? sizedType(uncast(c.a), "arrSize") : nullptr;
			if(c.p == CmpInst::ICMP_EQ)
			{
				if(u && sameType(Fx, u, t))
				{
					if(K->getZExtValue() == category("CAT_POINTER")) out.push_back(Lin(8));
					if(K->getZExtValue() == category("CAT_FUNCTION")) out.push_back(Lin(12));
				}
				if(v && K->isMinusOne() && sameType(Fx, v, t) && isArray(Fx, conds, t)) out.push_back(Lin(12));
				if(!u && !v && K->getBitWidth() == 32) if(unsigned n = sizeOfTypeId(K->getSExtValue())) if(sameType(Fx, c.a, t)) out.push_back(Lin(n));
			}
			if(c.p == CmpInst::ICMP_NE && K->isZero())
				if(auto *A = dyn_cast<BinaryOperator>(uncast(c.a)))
					if(A->getOpcode() == Instruction::And)
						if(auto *bit = dyn_cast<ConstantInt>(A->getOperand(1)))
							if(bit->getZExtValue() == extendableFlag())
								if(auto *w = sizedType(uncast(A->getOperand(0)), "typeFlags")) if(sameType(Fx, w, t)) out.push_back(Lin(4));
			if(c.p == CmpInst::ICMP_NE && v && K->isMinusOne() && sameType(Fx, v, t) && isArray(Fx, conds, t))
				for(auto *y : sizes())
					if(isElement(Fx, conds, sizedType(y), t)) out.push_back(Fx.mulAtoms(Fx.of(c.a, false), Fx.of(y, false)));
		}
	}
	std::vector<const Value*> autoList; bool autoDone = false;
	const std::vector<const Value*> &autoLoads()
	{
		if(!autoDone) { autoDone = true; for(auto &I : instructions(*F)) if(I.getType()->isPointerTy() && isa<LoadInst>(I) && (rootOf(&I).k == Root::Auto || rootOf(&I).k == Root::Array)) autoList.push_back(&I); }
		return autoList;
	}
	std::vector<const Value*> sizeList; bool sizesDone = false;
	const std::vector<const Value*> &sizes()
	{
		if(!sizesDone) { sizesDone = true; for(auto &I : instructions(*F)) if(sizedType(&I)) sizeList.push_back(&I); }
		return sizeList;
	}
	// sizes of the same type are equal; whole arrays are limited in size
	void addFacts(Facts &Fx)
	{
		for(auto *l : autoLoads())
		{
			Root r = rootOf(l);
			if(!r.len) continue;
			if(r.k == Root::Array) Fx.cons.push_back(Lin(objectLimit()) - Fx.of(r.len, false) * r.elem);
			else if(r.type)
				for(auto *s : sizes())
					if(sameType(Fx, sizedType(s), r.type)) Fx.cons.push_back(Lin(objectLimit()) - Fx.mulAtoms(Fx.of(r.len, false), Fx.of(s, false)));
		}
		for(auto &p : N.params)
			if(p.len && elemOf.count(p.data)) Fx.cons.push_back(Lin(objectLimit()) - Fx.of(p.len, false) * elemOf[p.data]);
		auto &s = sizes();
		for(auto *x : s) { std::vector<Lin> known; knownSizes(Fx, sizedType(x), known); for(auto &n : known) { Fx.cons.push_back(Fx.of(x, false) - n); if(n.c.empty() && n.k >= 8) Fx.cons.push_back(n - Fx.of(x, false)); } }
		for(size_t i = 0; i < s.size() && i < 8; i++)
			for(size_t j = i + 1; j < s.size() && j < 8; j++)
				if(sameType(Fx, sizedType(s[i]), sizedType(s[j]))) { Lin d = Fx.of(s[i], false) - Fx.of(s[j], false); Fx.cons.push_back(d); Fx.cons.push_back(d * -1); }
	}
};
const std::set<std::string> textReaders = { "strstr", "strchr", "strrchr", "strcmp", "strlen", "strcpy", "strcat", "strncpy", "strpbrk", "strspn" };
}
RULE(bounds)
{
	bool verbose = !args.empty() && args[0] == "-v";
	loadModules();
	for(Function *F : definedFns()) basicSimplify(F, false);
	auto inRepoFn = [](const Function *C) { return fileOf(C).compare(0, 5, "NULLC") == 0; };
	static const std::set<std::string> keep = { "NULLC::AllocObject", "NULLC::AllocArray", "nullcAllocate", "nullcAllocateTyped", "nullcAllocateArrayTyped", "nullcAllocateObjectTyped" };
	InlinePolicy P;
	P.want = [&](Function *C, CallBase *) { return inRepoFn(C) && !keep.count(sname(C)) && instrCount(C) < 250 && sname(C).find("nullcThrow") == std::string::npos && sname(C).find("SafeSprintf") == std::string::npos; };
	P.maxDepth = 4;
	P.maxInstr = 4000;
	auto list = natives();
	std::set<std::string> unknownCalls;
	// functions that take a char[] as text up to its terminating zero
	auto lenient = [](const Native &N) { return (N.module == "$base$" && (N.name == "short" || N.name == "int" || N.name == "long" || N.name == "float" || N.name == "double")) || N.module == "std.typeinfo" || N.module == "std.dynamic" || N.module == "ext.pugixml"; };
	for(auto &N : list)
	{
		Function *F = N.F;
		R.stat("native_functions");
		if(N.module == "old.vector") { R.stat("own_storage"); continue; } // relies on what the module's own object says about its storage
		bool any = false;
		for(auto &p : N.params) if(p.ctype.find("Array") != std::string::npos || p.ctype.find("NULLCRef") != std::string::npos) any = true;
		Analysis A(F, N);
		// element sizes from the declaration in the module
		size_t np = N.params.size();
		for(size_t i = 0; i < np; i++)
		{
			auto &p = N.params[i];
			if(!p.data) continue;
			std::string t = N.proto && i < N.proto->params.size() ? N.proto->params[i] : "";
			bool arr = p.ctype.find("NULLCArray") != std::string::npos;
			if(arr && t.size() > 4 && t.compare(t.size() - 4, 4, " ref") == 0) t = t.substr(0, t.size() - 4);
			if(arr) { unsigned s = t.size() > 2 && t.compare(t.size() - 2, 2, "[]") == 0 ? basicSize(t.substr(0, t.size() - 2)) : 1; A.elemOf[p.data] = s ? s : 1; any = true; if(s > 1) R.stat("wide_elements"); }
			else if(p.data->getType()->isPointerTy() && !p.byVal && t.size() > 4 && t.compare(t.size() - 4, 4, " ref") == 0) if(unsigned s = basicSize(t.substr(0, t.size() - 4))) { A.refOf[p.data] = s; any = true; }
		}
		if(F->getReturnType()->isStructTy()) any = true;
		if(!any) continue;
		if(N.proto) R.stat("with_prototype");
		normalise(F, &P, true);
		// allocation and error reports change neither array headers nor the type table
		for(auto &I : instructions(*F))
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB)) { std::string n = sname(C); if(keep.count(n) || n.find("nullcThrowError") == 0) CB->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); }
		runPasses(F, "sroa,early-cse<memssa>,gvn,jump-threading,simplifycfg,early-cse<memssa>,gvn");
		A.DT.recalculate(*F);
		R.stat("analysed");
		if(args.size() > 1 && sname(F) == args[1]) F->print(errs());
		if(verbose) R.sample(N.module + " " + N.name + " " + std::to_string(N.index) + " " + (N.proto ? "proto" : "-"));
		Prover Pr(A.DT);
		Pr.more = [&](Facts &Fx) { A.addFacts(Fx); };
		Pr.locate = [&](Facts &Fx, const Value *v, const Value *&key, Lin &off) { Root r; if(!A.locate(Fx, v, r, off) || !r.key) return false; key = r.key; return true; };
		// sizes of the same type
		std::map<const Value*, const Value*> same;
		{ auto &sz = A.sizes(); for(size_t i = 0; i < sz.size(); i++) for(size_t j = 0; j < i; j++) if(!same.count(sz[j]) && sameValue(A.sizedType(sz[i]), A.sizedType(sz[j]), true)) { same[sz[i]] = sz[j]; break; } }
		Pr.same = &same;
		int nth = 0;
		auto check = [&](const Instruction &I, const Value *p, std::function<Lin(Facts&)> bytes, std::string how)
		{
			if(keep.count(sname(F))) return; // the allocator writes its own headers
			if(!A.tracked(p)) return;
			R.stat("accesses");
			Pr.queries = 0;
			std::string why;
			bool ok = Pr.prove(&I, [&](Facts &Fx) {
				Root r; Lin off;
				Lin n = bytes(Fx);
				if(Fx.holds(n * -1)) return true; // nothing is accessed
				if(!A.locate(Fx, p, r, off)) { why = "it is not known which array the pointer belongs to"; return false; }
				if(r.k == Root::Null || r.k == Root::Local) return true;
				auto caps = A.capacity(Fx, r);
				if(!Fx.products.empty()) { Fx.multiply(); Fx.compareProducts(); Fx.link(); }
				if(!Fx.holds(off)) { why = "the position may be before the start"; if(getenv("BOUNDS_DEBUG")) Fx.print(errs(), caps, off, n); return false; }
				for(auto &c : caps) if(Fx.holds(c - off - n)) return true;
				why = "the position plus the length may be past the end";
				if(getenv("BOUNDS_DEBUG")) Fx.print(errs(), caps, off, n);
				return false;
			});
			nth++;
			if(ok) { R.stat("proved"); if(!verbose) R.sample(locOf(&I) + " " + sname(F) + ": " + how + " is inside the array"); return; }
			R.add("ARRAY-BOUNDS", &I, sname(F), how + ": " + why, how);
		};
		for(auto &I : instructions(*F))
		{
			if(!A.DT.isReachableFromEntry(I.getParent())) continue;
			auto &DL = M->getDataLayout();
			if(auto *L = dyn_cast<LoadInst>(&I)) { if(L->getType()->isIntegerTy(8) && lenient(N)) continue; Int n = (Int)DL.getTypeStoreSize(L->getType()).getFixedValue(); check(I, L->getPointerOperand(), [=](Facts&) { return Lin(n); }, "read of an element"); }
			else if(auto *S = dyn_cast<StoreInst>(&I)) { Int n = (Int)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); check(I, S->getPointerOperand(), [=](Facts&) { return Lin(n); }, "write of an element"); }
			else if(auto *MI = dyn_cast<MemIntrinsic>(&I))
			{
				auto len = [=](Facts &Fx) { return Fx.of(MI->getLength(), false); };
				check(I, MI->getRawDest(), len, isa<MemSetInst>(MI) ? "fill" : "copy into the array");
				if(auto *T = dyn_cast<MemTransferInst>(MI)) check(I, T->getRawSource(), len, "copy from the array");
			}
			else if(auto *CB = dyn_cast<CallBase>(&I))
			{
				if(isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) continue;
				Function *C = calleeOf(CB);
				std::string cn = C ? sname(C) : "the host's function";
				if(C && (cn == "free" || C->isIntrinsic())) continue;
				if((cn == "memcmp" || cn == "bcmp" || cn == "strncmp") && CB->arg_size() == 3) { for(int k = 0; k < 2; k++) check(I, CB->getArgOperand(k), [=](Facts &Fx) { return Fx.of(CB->getArgOperand(2), false); }, "comparison"); continue; }
				if((cn == "memcpy" || cn == "memmove") && CB->arg_size() == 3) { for(int k = 0; k < 2; k++) check(I, CB->getArgOperand(k), [=](Facts &Fx) { return Fx.of(CB->getArgOperand(2), false); }, k ? "copy from the array" : "copy into the array"); continue; }
				if((cn == "fread" || cn == "fwrite") && CB->arg_size() == 4) { check(I, CB->getArgOperand(0), [=](Facts &Fx) { return Fx.mulAtoms(Fx.of(CB->getArgOperand(1), false), Fx.of(CB->getArgOperand(2), false)); }, "transfer by " + cn); continue; }
				for(unsigned k = 0; k < CB->arg_size(); k++)
				{
					const Value *p = CB->getArgOperand(k);
					if(!p->getType()->isPointerTy() || !A.tracked(p)) continue;
					std::set<const Value*> ro, se;
					A.roots(p, ro, se);
					bool isRef = true;
					for(auto *x : ro) if(A.rootOf(x).k != Root::Ref) isRef = false;
					if(k + 1 < CB->arg_size() && CB->getArgOperand(k + 1)->getType()->isIntegerTy() && !(C && textReaders.count(cn)) && !isRef)
					{
						auto *n = CB->getArgOperand(k + 1);
						bool lenLike = !C; // a callback takes data and its length
						if(C && C->getSubprogram() && C->getSubprogram()->getType()) { auto arr = C->getSubprogram()->getType()->getTypeArray(); unsigned base = C->getSubprogram()->getType()->getTypeArray().size(); (void)base; if(k + 2 < arr.size() && arr[k + 2]) { std::string t = typeName(arr[k + 2]); if(t == "size_t" || t == "std::size_t") lenLike = true; } }
						if(C && C->isDeclaration() && n->getType()->isIntegerTy(64)) lenLike = true;
						if(lenLike) { check(I, p, [=](Facts &Fx) { return Fx.of(n, false); }, "passed to " + cn); continue; }
					}
					if(C && cn == "strcpy" && k == 0 && CB->arg_size() == 2)
					{
						// the length of the text was measured before
						const Value *len = nullptr;
						for(auto *U : CB->getArgOperand(1)->users()) if(auto *L = dyn_cast<CallBase>(U)) if(Function *G = calleeOf(L)) if(sname(G) == "strlen" && L->arg_size() == 1 && A.DT.dominates(L, &I)) len = L;
						if(len) { check(I, p, [=](Facts &Fx) { Fx.cons.push_back(Lin(Analysis::objectLimit()) - Fx.of(len, false)); Fx.memo.clear(); return Fx.of(len, false) + Lin(1); }, "copy of a text"); continue; }
					}
					if(C && textReaders.count(cn) && !lenient(N))
					{
						// the text has to end inside the array
						R.stat("text_obligations");
						std::string why = "nothing shows that the text ends inside the array";
						bool ok = Pr.prove(&I, [&](Facts &Fx) {
							Root r, q; Lin off, o;
							if(!A.locate(Fx, p, r, off)) return false;
							auto caps = A.capacity(Fx, r);
							auto conds = conditionsAt(Fx.at, A.DT);
							for(auto &x : Fx.extra) conds.push_back(x);
							for(auto &c : conds)
							{
								if(c.p != CmpInst::ICMP_EQ) continue;
								auto *K = dyn_cast<ConstantInt>(c.b);
								if(!K || !K->isZero()) continue;
								auto *L = dyn_cast<LoadInst>(uncast(c.a));
								if(!L || !L->getType()->isIntegerTy(8)) continue;
								if(!A.locate(Fx, L->getPointerOperand(), q, o) || q.key != r.key) continue;
								if(!Fx.holds(o - off)) continue;
								for(auto &cap : caps) if(Fx.holds(cap - o - Lin(1))) return true;
							}
							return false;
						});
						if(ok) { R.stat("text_proved"); if(!verbose) R.sample(locOf(&I) + " " + sname(F) + ": text given to " + cn + " ends inside the array"); }
						else R.add("ARRAY-TEXT", &I, sname(F), "text given to " + cn + ": " + why, cn);
						continue;
					}
					R.stat(isRef ? "references_passed_on" : "text_passed_on");
					unknownCalls.insert(cn + "#" + std::to_string(k));
				}
			}
			else if(auto *Rt = dyn_cast<ReturnInst>(&I))
			{
				// an array that is returned is no longer than its memory
				const Value *v = Rt->getReturnValue();
				auto *ST = v ? dyn_cast<StructType>(v->getType()) : nullptr;
				if(!ST || ST->getNumElements() != 2 || !ST->getElementType(0)->isPointerTy() || !ST->getElementType(1)->isIntegerTy(32)) continue;
				if(N.F->getSubprogram() && N.F->getSubprogram()->getType()) { auto arr = N.F->getSubprogram()->getType()->getTypeArray(); if(arr.size() && arr[0] && typeName(arr[0]).find("NULLCArray") == std::string::npos) continue; }
				const Value *p = nullptr, *n = nullptr;
				while(auto *IV = dyn_cast<InsertValueInst>(v)) { if(IV->getIndices()[0] == 0 && !p) p = IV->getInsertedValueOperand(); if(IV->getIndices()[0] == 1 && !n) n = IV->getInsertedValueOperand(); v = IV->getAggregateOperand(); }
				if(auto *CB = dyn_cast<CallBase>(v)) { Function *C = calleeOf(CB); if(C && keep.count(sname(C))) { R.stat("returned_arrays"); R.stat("returned_proved"); } continue; }
				if(!p || !n) continue;
				R.stat("returned_arrays");
				std::string t = N.proto ? N.proto->ret : "";
				Int es = t.size() > 2 && t.compare(t.size() - 2, 2, "[]") == 0 ? basicSize(t.substr(0, t.size() - 2)) : 1;
				if(!es) es = 1;
				std::string why = "it is not known which memory is returned";
				Pr.queries = 0;
				bool known = A.tracked(p);
				const Value *sizeParam = nullptr;
				if(keep.count(sname(F))) for(auto &q : N.params) if(q.name == "size") sizeParam = q.data;
				bool ok = Pr.prove(&I, [&](Facts &Fx) {
					Root r; Lin off;
					// the element count that came with an allocation
					const Value *q = Fx.res(n), *pp = Fx.res(p);
					auto *X = dyn_cast<ExtractValueInst>(q), *Y = dyn_cast<ExtractValueInst>(pp);
					if(X && Y && X->getAggregateOperand() == Y->getAggregateOperand())
					{
						Root rr = A.rootOf(Y);
						if(rr.k == Root::Alloc && (rr.elem >= (int64_t)es || (rr.size && isa<ConstantInt>(rr.size) && cast<ConstantInt>(rr.size)->getSExtValue() >= (int64_t)es))) return true;
					}
					if(!A.locate(Fx, p, r, off)) return false;
					Lin len = Fx.of(n, false);
					if(r.k == Root::Null)
					{
						why = "a null array with elements";
						if(X) if(auto *CB = dyn_cast<CallBase>(X->getAggregateOperand())) if(Function *C = calleeOf(CB)) if(keep.count(sname(C))) return true; // the count of a failed allocation
						// nothing is made of the result after a failed allocation: the error was reported
						std::vector<Cmp> conds = conditionsAt(&I, A.DT);
						for(auto &c : Fx.extra) conds.push_back(c);
						for(auto &c : conds) if(c.p == CmpInst::ICMP_EQ && isa<ConstantPointerNull>(c.b)) { auto *v = c.a; if(auto *E = dyn_cast<ExtractValueInst>(v)) v = E->getAggregateOperand(); if(auto *CB = dyn_cast<CallBase>(v)) if(Function *C = calleeOf(CB)) if(keep.count(sname(C))) return true; }
						return Fx.holds(len * -1);
					}
					auto caps = A.capacity(Fx, r);
					len = Fx.of(n, false);
					if(!Fx.holds(off)) return false;
					for(auto &c : caps) if(Fx.holds(c - off - (sizeParam ? Fx.mulAtoms(len, Fx.of(sizeParam, false)) : len * es))) return true;
					why = "it may have more elements than memory";
					return false;
				});
				if(ok) R.stat("returned_proved");
				else if(known) R.add("ARRAY-RESULT", &I, sname(F), "array that is returned: " + why, "returned array");
				else R.stat("returned_unknown");
			}
			if(auto *S = dyn_cast<StoreInst>(&I))
			{
				// the element count that is put into an array of the script
				APInt o(64, 0);
				const Value *base = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
				const Param *H = nullptr;
				for(auto &q : N.params) if(q.data == base && !q.byVal && q.ctype.find("Array") != std::string::npos && q.ctype.find('*') != std::string::npos) H = &q;
				if(!H || !S->getValueOperand()->getType()->isIntegerTy(32)) continue;
				bool au = H->ctype.find("NULLCAutoArray") != std::string::npos;
				if(o != (au ? 12 : 8)) continue;
				R.stat("array_headers");
				// what is stored next to it
				auto beside = [&](int64_t off) {
					const StoreInst *best = nullptr;
					for(auto &J : instructions(*F))
						if(auto *T = dyn_cast<StoreInst>(&J))
						{
							APInt k(64, 0);
							if(T->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, k, true) != base || k != off) continue;
							if(!A.DT.dominates(T, S) && !A.DT.dominates(S, T)) continue;
							if(!best || T->getParent() == S->getParent()) best = T;
						}
					return best;
				};
				const StoreInst *P = beside(au ? 4 : 0), *T = au ? beside(0) : nullptr;
				const Instruction *at = S;
				if(P && A.DT.dominates(at, P)) at = P;
				const Value *n = S->getValueOperand();
				bool known = true;
				if(P) { std::set<const Value*> ro, se; A.roots(P->getValueOperand(), ro, se); for(auto *x : ro) { auto k = A.rootOf(x).k; if(k != Root::Alloc && k != Root::Null) known = false; } }
				if(!known) { R.stat("array_headers_unknown"); continue; }
				std::string why = "it may have more elements than memory";
				Pr.queries = 0;
				bool ok = Pr.prove(at, [&](Facts &Fx) {
					Lin len = Fx.of(n, false);
					if(Fx.holds(len * -1)) return true;
					if(!P)
					{
						for(auto &J : instructions(*F))
							if(auto *L = dyn_cast<LoadInst>(&J))
							{
								APInt k(64, 0);
								if(!L->getType()->isIntegerTy(32) || L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, k, true) != base || k != o || !A.DT.dominates(L, S) || !A.clean(L, S)) continue;
								if(Fx.holds(Fx.of(L, false) - len)) return true;
							}
						return false;
					}
					Root r; Lin off;
					// the element count that came with an allocation
					auto *X = dyn_cast<ExtractValueInst>(Fx.res(n)), *Y = dyn_cast<ExtractValueInst>(Fx.res(P->getValueOperand()));
					if(X && Y && X->getAggregateOperand() == Y->getAggregateOperand()) return true;
					if(!A.locate(Fx, P->getValueOperand(), r, off) || !Fx.holds(off)) return false;
					if(r.k == Root::Null) { why = "a null array with elements"; return false; }
					auto caps = A.capacity(Fx, r);
					std::vector<Lin> need;
					if(!au) need.push_back(len * (A.elemOf.count(base) ? A.elemOf[base] : 1));
					else if(T) for(auto *s : A.sizes()) if(A.sameType(Fx, A.sizedType(s), T->getValueOperand())) need.push_back(Fx.mulAtoms(len, Fx.of(s, false)));
					if(!Fx.products.empty()) { Fx.multiply(); Fx.compareProducts(); Fx.link(); }
					for(auto &c : caps) for(auto &m : need) if(Fx.holds(c - off - m)) return true;
					if(getenv("BOUNDS_DEBUG")) Fx.print(errs(), caps, off, need.empty() ? Lin(0) : need[0]);
					return false;
				});
				// a failed allocation leaves an empty array
				if(ok && P)
				{
					std::vector<Cmp> failed{ { CmpInst::ICMP_EQ, P->getValueOperand(), ConstantPointerNull::get(cast<PointerType>(P->getValueOperand()->getType())) } };
					Pr.queries = 0;
					auto *X = dyn_cast<ExtractValueInst>(n), *Y = dyn_cast<ExtractValueInst>(P->getValueOperand());
					if(!(X && Y && X->getAggregateOperand() == Y->getAggregateOperand()) && !Pr.prove(at, [&](Facts &Fx) { return Fx.holds(Fx.of(n, false) * -1); }, {}, failed)) { ok = false; why = "it may have elements after a failed allocation"; }
				}
				if(ok) { R.stat("array_headers_proved"); if(!verbose) R.sample(locOf(&I) + " " + sname(F) + ": the element count fits the memory"); }
				else R.add("ARRAY-RESULT", &I, sname(F), "array that is filled in: " + why, "array header");
			}
		}
	}
	for(auto &u : unknownCalls) R.sample("text passed on: " + u);
	if(list.size() < 250) R.brk("only " + std::to_string(list.size()) + " native functions found");
	if(protos.size() < 10) R.brk("module sources not found");
}
