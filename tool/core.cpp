#include "core.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Support/JSON.h"
#include <deque>

Module *M;
Report R;

// ---------------------------------------------------------------- reporting
void Report::addAt(std::string rule, std::string file, unsigned line, std::string func, std::string detail, std::string key, StrVec path)
{
	std::string id = rule + "|" + func + "|" + key;
	if(!seen.insert(id).second)
		return;
	violations.push_back(Violation{ rule, func, file, detail, key, line, path });
}
void Report::add(std::string rule, const Instruction *at, std::string func, std::string detail, std::string key, StrVec path)
{
	addAt(rule, fileOf(at), lineOf(at), func, detail, key, path);
}
void Report::print(raw_ostream &os)
{
	json::Array vs;
	for(auto &v : violations)
	{
		json::Array p;
		for(auto &s : v.path) p.push_back(json::fixUTF8(s));
		vs.push_back(json::Object{ { "rule", v.rule }, { "function", json::fixUTF8(v.func) }, { "file", v.file }, { "line", (int64_t)v.line }, { "detail", json::fixUTF8(v.detail) }, { "key", json::fixUTF8(v.key) }, { "path", std::move(p) } });
	}
	json::Object st;
	for(auto &s : stats) st[s.first] = (int64_t)s.second;
	json::Array sa, br;
	for(auto &s : samples) sa.push_back(json::fixUTF8(s));
	for(auto &s : broken) br.push_back(json::fixUTF8(s));
	json::Object o{ { "violations", std::move(vs) }, { "stats", std::move(st) }, { "samples", std::move(sa) }, { "broken", std::move(br) } };
	os << formatv("{0:2}", json::Value(std::move(o))) << "\n";
}

// ---------------------------------------------------------------- program
static std::map<const Function*, std::string> dnames, snames;
std::string dname(const Function *F)
{
	auto it = dnames.find(F);
	if(it != dnames.end()) return it->second;
	return dnames[F] = demangle(F->getName().str());
}
std::string sname(const Function *F)
{
	auto it = snames.find(F);
	if(it != snames.end()) return it->second;
	std::string res = F->getName().str();
	// llvm-link renames clashing local symbols with a numeric suffix
	ItaniumPartialDemangler D;
	std::string mangled = res;
	size_t dot = mangled.rfind('.');
	if(dot != std::string::npos && mangled.compare(0, 2, "_Z") == 0)
		mangled = mangled.substr(0, mangled.find('.'));
	if(!D.partialDemangle(mangled.c_str()) && D.isFunction())
	{
		size_t n = 0;
		if(char *p = D.getFunctionName(nullptr, &n)) { res = p; free(p); }
	}
	return snames[F] = res;
}
static std::string relPath(const DIFile *f)
{
	if(!f) return "";
	std::string s = f->getFilename().str();
	if(!s.empty() && s[0] != '/') s = f->getDirectory().str() + "/" + s;
	std::string out; // collapse "x/../"
	StrVec parts; std::string cur;
	for(char c : s + "/") { if(c == '/') { if(cur == ".." && !parts.empty()) parts.pop_back(); else if(!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); } else cur += c; }
	for(auto &p : parts) out += "/" + p;
	if(out.compare(0, 6, "/repo/") == 0) out = out.substr(6);
	return out;
}
static const DILocation *dloc(const Instruction *I)
{
	if(!I) return nullptr;
	if(I->getDebugLoc()) return I->getDebugLoc().get();
	// nearest following/preceding instruction with a location
	for(const Instruction *n = I; n; n = n->getNextNode()) if(n->getDebugLoc()) return n->getDebugLoc().get();
	for(const Instruction *n = I; n; n = n->getPrevNode()) if(n->getDebugLoc()) return n->getDebugLoc().get();
	return nullptr;
}
std::string fileOf(const Instruction *I) { auto *l = dloc(I); return l ? relPath(l->getFile()) : (I ? fileOf(I->getFunction()) : ""); }
unsigned lineOf(const Instruction *I) { auto *l = dloc(I); return l ? l->getLine() : 0; }
std::string locOf(const Instruction *I) { return fileOf(I) + ":" + std::to_string(lineOf(I)); }
std::string fileOf(const Function *F) { return F && F->getSubprogram() ? relPath(F->getSubprogram()->getFile()) : ""; }
unsigned lineOf(const Function *F) { return F && F->getSubprogram() ? F->getSubprogram()->getLine() : 0; }
std::string scopeName(const Instruction *I)
{
	auto *l = dloc(I);
	if(!l) return "";
	if(auto *sp = l->getScope()->getSubprogram())
	{
		if(!sp->getLinkageName().empty())
		{
			ItaniumPartialDemangler D;
			std::string mn = sp->getLinkageName().str();
			if(!D.partialDemangle(mn.c_str()) && D.isFunction())
			{
				size_t n = 0;
				if(char *p = D.getFunctionName(nullptr, &n)) { std::string r = p; free(p); return r; }
			}
		}
		return sp->getName().str();
	}
	return "";
}
std::vector<Function*> definedFns()
{
	std::vector<Function*> r;
	for(auto &F : *M) if(!F.isDeclaration()) r.push_back(&F);
	return r;
}
std::vector<Function*> findFns(const std::string &name)
{
	std::vector<Function*> r;
	for(auto &F : *M) if(!F.isDeclaration() && sname(&F) == name) r.push_back(&F);
	return r;
}
Function *findFn(const std::string &name)
{
	auto r = findFns(name);
	return r.empty() ? nullptr : r[0];
}
static std::vector<DICompositeType*> enumTypes, recTypes;
static void collectTypes()
{
	static bool done = false;
	if(done) return;
	done = true;
	DebugInfoFinder f;
	f.processModule(*M);
	for(auto *t : f.types())
		if(auto *c = dyn_cast<DICompositeType>(t))
		{
			if(c->getTag() == dwarf::DW_TAG_enumeration_type) enumTypes.push_back(c);
			else if((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type) && !(c->getFlags() & DINode::FlagFwdDecl)) recTypes.push_back(c);
		}
}
std::vector<std::pair<std::string, int64_t>> enumOf(const std::string &name)
{
	collectTypes();
	std::vector<std::pair<std::string, int64_t>> r;
	for(auto *c : enumTypes)
	{
		if(c->getName() != name) continue;
		for(auto *e : c->getElements())
			if(auto *en = dyn_cast<DIEnumerator>(e)) r.push_back({ en->getName().str(), en->getValue().getSExtValue() });
		if(!r.empty()) break;
	}
	return r;
}
std::vector<DICompositeType*> allRecords() { collectTypes(); return recTypes; }
DICompositeType *recordOf(const std::string &name)
{
	collectTypes();
	for(auto *c : recTypes) if(c->getName() == name) return c;
	return nullptr;
}
const DIType *stripType(const DIType *T)
{
	while(auto *d = dyn_cast_or_null<DIDerivedType>(T))
	{
		auto t = d->getTag();
		if(t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_restrict_type || t == dwarf::DW_TAG_member) T = d->getBaseType();
		else break;
	}
	return T;
}
std::string typeName(const DIType *T)
{
	T = stripType(T);
	if(!T) return "void";
	if(auto *d = dyn_cast<DIDerivedType>(T))
	{
		if(d->getTag() == dwarf::DW_TAG_pointer_type) return typeName(d->getBaseType()) + "*";
		if(d->getTag() == dwarf::DW_TAG_reference_type) return typeName(d->getBaseType()) + "&";
	}
	return T->getName().str();
}
std::vector<Field> fieldsOf(const DICompositeType *T)
{
	std::vector<Field> r;
	for(auto *e : T->getElements())
		if(auto *d = dyn_cast<DIDerivedType>(e))
		{
			if(d->getTag() == dwarf::DW_TAG_inheritance)
			{
				if(auto *b = dyn_cast_or_null<DICompositeType>(stripType(d->getBaseType())))
					for(auto f : fieldsOf(b)) { f.offset += d->getOffsetInBits() / 8; r.push_back(f); }
			}
			else if(d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
			{
				uint64_t sz = d->getSizeInBits() ? d->getSizeInBits() : (d->getBaseType() ? d->getBaseType()->getSizeInBits() : 0);
				std::string n = d->getName().str();
				auto *ct = dyn_cast_or_null<DICompositeType>(stripType(d->getBaseType()));
				if(n.empty() && ct) // anonymous union/struct
				{
					for(auto f : fieldsOf(ct)) { f.offset += d->getOffsetInBits() / 8; r.push_back(f); }
				}
				else
					r.push_back({ n, d->getOffsetInBits() / 8, sz / 8, d->getBaseType() });
			}
		}
	return r;
}

// ---------------------------------------------------------------- normalisation
static PassBuilder *PB;
static LoopAnalysisManager *LAM;
static FunctionAnalysisManager *FAM;
static CGSCCAnalysisManager *CAM;
static ModuleAnalysisManager *MAM;
static void initPM()
{
	if(PB) return;
	PB = new PassBuilder();
	LAM = new LoopAnalysisManager(); FAM = new FunctionAnalysisManager(); CAM = new CGSCCAnalysisManager(); MAM = new ModuleAnalysisManager();
	PB->registerModuleAnalyses(*MAM);
	PB->registerCGSCCAnalyses(*CAM);
	PB->registerFunctionAnalyses(*FAM);
	PB->registerLoopAnalyses(*LAM);
	PB->crossRegisterProxies(*LAM, *FAM, *CAM, *MAM);
}
void basicSimplify(Function *F, bool thread)
{
	initPM();
	FunctionPassManager P;
	SimplifyCFGOptions O;
	P.addPass(SROAPass(SROAOptions::ModifyCFG));
	P.addPass(EarlyCSEPass(false));
	P.addPass(InstSimplifyPass());
	P.addPass(SimplifyCFGPass(O));
	if(thread)
	{
		P.addPass(JumpThreadingPass());
		P.addPass(SimplifyCFGPass(O));
		P.addPass(EarlyCSEPass(false));
		P.addPass(InstSimplifyPass());
		P.addPass(SROAPass(SROAOptions::ModifyCFG));
	}
	P.addPass(ADCEPass());
	FAM->clear();
	P.run(*F, *FAM);
	// a negated condition is the same as exchanged branches
	for(auto &B : *F)
		if(auto *Br = dyn_cast<BranchInst>(B.getTerminator()))
			for(int k = 0; k < 4 && Br->isConditional(); k++)
			{
				Value *c = Br->getCondition(), *in = nullptr;
				if(auto *X = dyn_cast<BinaryOperator>(c)) { auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); if(X->getOpcode() == Instruction::Xor && K && K->isOne()) in = X->getOperand(0); }
				if(auto *S = dyn_cast<SelectInst>(c)) { auto *t = dyn_cast<ConstantInt>(S->getTrueValue()), *f = dyn_cast<ConstantInt>(S->getFalseValue()); if(t && f && t->isZero() && f->isOne()) in = S->getCondition(); }
				if(!in) break;
				Br->setCondition(in);
				Br->swapSuccessors();
			}
	FAM->clear();
}
void runPasses(Function *F, const std::string &pipeline)
{
	initPM();
	FunctionPassManager P;
	if(auto e = PB->parsePassPipeline(P, pipeline)) { R.brk("bad pipeline " + pipeline); consumeError(std::move(e)); return; }
	FAM->clear();
	P.run(*F, *FAM);
	FAM->clear();
}
void foldConstGlobals()
{
	for(auto &G : M->globals())
	{
		if(!G.hasLocalLinkage() || !G.hasInitializer() || !G.getValueType()->isIntegerTy()) continue;
		bool onlyLoads = true;
		std::vector<LoadInst*> loads;
		for(auto *U : G.users())
			if(auto *L = dyn_cast<LoadInst>(U)) { if(L->getType() == G.getValueType()) loads.push_back(L); else onlyLoads = false; }
			else onlyLoads = false;
		if(!onlyLoads) continue;
		for(auto *L : loads) { L->replaceAllUsesWith(G.getInitializer()); L->eraseFromParent(); }
	}
}
Function *cloneFn(Function *F)
{
	ValueToValueMapTy VM;
	Function *C = CloneFunction(F, VM);
	C->setLinkage(GlobalValue::InternalLinkage);
	return C;
}
bool isReturn(const Instruction &I) { return isa<ReturnInst>(I); }
const Instruction *pathAvoiding(Function *F, const Instruction *from, InstrPred hit, InstrPred bad)
{
	if(!bad) bad = isReturn;
	std::deque<const Instruction*> work;
	std::set<const BasicBlock*> seen;
	const Instruction *first = from ? from->getNextNode() : &F->getEntryBlock().front();
	if(first) work.push_back(first);
	while(!work.empty())
	{
		const Instruction *I = work.front(); work.pop_front();
		bool blocked = false;
		for(; I; I = I->getNextNode())
		{
			if(hit(*I)) { blocked = true; break; }
			if(bad(*I)) return I;
			if(I->isTerminator()) break;
		}
		if(blocked) continue;
		for(auto *S : successors(I->getParent())) if(seen.insert(S).second) work.push_back(&S->front());
	}
	return nullptr;
}
unsigned instrCount(const Function *F)
{
	unsigned n = 0;
	for(auto &B : *F) n += B.size();
	return n;
}
Function *calleeOf(const CallBase *CB)
{
	const Value *v = CB->getCalledOperand()->stripPointerCasts();
	if(auto *A = dyn_cast<GlobalAlias>(v)) v = A->getAliasee()->stripPointerCasts();
	return const_cast<Function*>(dyn_cast<Function>(v));
}
void normalise(Function *F, const InlinePolicy *P, bool thread)
{
	if(P)
	{
		struct Item { WeakTrackingVH cb; int hist; unsigned depth; };
		std::vector<std::pair<Function*, int>> hist;
		std::deque<Item> work;
		for(auto &I : instructions(F)) if(isa<CallInst>(I) || isa<InvokeInst>(I)) work.push_back({ WeakTrackingVH(&I), -1, 0 });
		unsigned total = instrCount(F);
		while(!work.empty())
		{
			Item it = work.front(); work.pop_front();
			auto *CB = dyn_cast_or_null<CallBase>((Value*)it.cb);
			if(!CB) continue;
			Function *C = calleeOf(CB);
			if(!C || C->isDeclaration() || C == F || C->isVarArg()) continue;
			bool rec = false;
			for(int h = it.hist; h >= 0; h = hist[h].second) if(hist[h].first == C) rec = true;
			if(rec || it.depth >= P->maxDepth || !P->want(C, CB)) continue;
			unsigned n = instrCount(C);
			if(total + n > P->maxInstr) { R.stat("inline_budget_hit"); continue; }
			total += n;
			InlineFunctionInfo IFI;
			InlineResult res = InlineFunction(*CB, IFI);
			if(!res.isSuccess()) continue;
			hist.push_back({ C, it.hist });
			int h = (int)hist.size() - 1;
			for(CallBase *n2 : IFI.InlinedCallSites) work.push_back({ WeakTrackingVH(n2), h, it.depth + 1 });
		}
	}
	basicSimplify(F, thread);
}

// ---------------------------------------------------------------- call graph
static std::map<Function*, std::set<Function*>> cgOut, cgIn;
static const std::set<Function*> emptySet;
void buildCallGraph()
{
	cgOut.clear(); cgIn.clear();
	for(auto &F : *M)
		for(auto &I : instructions(F))
			if(auto *CB = dyn_cast<CallBase>(&I))
				if(Function *C = calleeOf(CB)) { cgOut[&F].insert(C); cgIn[C].insert(&F); }
}
const std::set<Function*> &calleesOf(Function *F) { auto i = cgOut.find(F); return i == cgOut.end() ? emptySet : i->second; }
const std::set<Function*> &callersOf(Function *F) { auto i = cgIn.find(F); return i == cgIn.end() ? emptySet : i->second; }
std::set<Function*> reachableFrom(const std::vector<Function*> &roots)
{
	std::set<Function*> seen(roots.begin(), roots.end());
	std::vector<Function*> w(roots);
	while(!w.empty())
	{
		Function *f = w.back(); w.pop_back();
		for(Function *c : calleesOf(f)) if(seen.insert(c).second) w.push_back(c);
	}
	return seen;
}

// ---------------------------------------------------------------- expressions
int Exprs::mk(Node n)
{
	auto key = std::make_tuple((int)n.k, n.c, n.v, n.ops);
	auto it = index.find(key);
	if(it != index.end()) return it->second;
	nodes.push_back(n);
	return index[key] = (int)nodes.size() - 1;
}
int Exprs::cst(int64_t c) { Node n{ Node::Const, c, nullptr, {} }; return mk(n); }
int Exprs::val(const Value *v)
{
	Node n{ isa<GlobalValue>(v) ? Node::Global : Node::Val, 0, v, {} };
	return mk(n);
}
int Exprs::of(const Value *v)
{
	auto it = memo.find(v);
	if(it != memo.end()) return it->second;
	memo[v] = val(v); // cycle guard
	int r;
	if(auto *c = dyn_cast<ConstantInt>(v))
		r = c->getBitWidth() <= 64 ? cst(c->getSExtValue()) : val(v);
	else if(isa<ConstantPointerNull>(v) || isa<ConstantAggregateZero>(v)) r = cst(0);
	else if(auto *L = dyn_cast<LoadInst>(v)) r = loadOf(of(L->getPointerOperand()));
	else if(auto *G = dyn_cast<GEPOperator>(v))
	{
		int base = of(G->getPointerOperand());
		APInt off(DL->getIndexSizeInBits(0), 0);
		if(G->accumulateConstantOffset(*DL, off))
		{
			int64_t o = off.getSExtValue();
			if(nodes[base].k == Node::Off) { o += nodes[base].c; base = nodes[base].ops[0]; }
			if(o == 0) r = base;
			else { Node n{ Node::Off, o, nullptr, { base } }; r = mk(n); }
		}
		else
		{
			// variable part(s) scaled, constant part folded into an Off on top
			MapVector<Value*, APInt> vars; APInt cO(DL->getIndexSizeInBits(0), 0);
			if(G->collectOffset(*DL, 64, vars, cO))
			{
				int64_t extra = 0;
				if(nodes[base].k == Node::Off) { extra = nodes[base].c; base = nodes[base].ops[0]; }
				int cur = base;
				for(auto &kv : vars)
				{
					Node n{ Node::Gep, kv.second.getSExtValue(), nullptr, { cur, of(kv.first) } };
					cur = mk(n);
				}
				int64_t o = cO.getSExtValue() + extra;
				if(o) { Node n{ Node::Off, o, nullptr, { cur } }; cur = mk(n); }
				r = cur;
			}
			else r = val(v);
		}
	}
	else if(auto *O = dyn_cast<Operator>(v))
	{
		switch(O->getOpcode())
		{
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
			r = of(O->getOperand(0)); break;
		case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
		{
			int a = of(O->getOperand(0));
			if(nodes[a].k == Node::Const) { r = a; break; }
			Node n{ O->getOpcode() == Instruction::ZExt ? Node::Zext : O->getOpcode() == Instruction::SExt ? Node::Sext : Node::Trunc, (int64_t)(O->getType()->isIntegerTy() ? O->getType()->getIntegerBitWidth() : 0), nullptr, { a } };
			r = mk(n); break;
		}
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		{
			int a = of(O->getOperand(0)), b = of(O->getOperand(1));
			if(O->getOpcode() == Instruction::Add && nodes[b].k == Node::Const)
			{
				// x + c behaves like an offset
				int64_t o = nodes[b].c; int base = a;
				if(nodes[base].k == Node::Off) { o += nodes[base].c; base = nodes[base].ops[0]; }
				if(!o) { r = base; break; }
				Node n{ Node::Off, o, nullptr, { base } }; r = mk(n); break;
			}
			if(O->getOpcode() == Instruction::Add && O->getType()->isIntegerTy(64))
			{
				// pointer arithmetic on integers: same form as a byte GEP
				Node n{ Node::Gep, 1, nullptr, { a, b } }; r = mk(n); break;
			}
			if((O->getOpcode() == Instruction::Add || O->getOpcode() == Instruction::Mul || O->getOpcode() == Instruction::And || O->getOpcode() == Instruction::Or || O->getOpcode() == Instruction::Xor) && a > b) std::swap(a, b);
			Node n{ Node::Bin, (int64_t)O->getOpcode(), nullptr, { a, b } };
			r = mk(n); break;
		}
		default: r = val(v);
		}
	}
	else r = val(v);
	memo[v] = r;
	return r;
}
bool Exprs::contains(int hay, int needle)
{
	if(hay == needle) return true;
	if(nodes[hay].ops.empty()) return false;
	auto key = std::make_pair(hay, needle);
	auto it = containsMemo.find(key);
	if(it != containsMemo.end()) return it->second;
	bool r = false;
	for(int o : nodes[hay].ops) if(contains(o, needle)) { r = true; break; }
	return containsMemo[key] = r;
}
std::string Exprs::str(int id, int depth)
{
	const Node &n = nodes[id];
	if(depth > 6) return "..";
	switch(n.k)
	{
	case Node::Const: return std::to_string(n.c);
	case Node::Global: return "@" + demangle(n.v->getName().str());
	case Node::Val:
		if(auto *A = dyn_cast<Argument>(n.v)) return A->hasName() ? A->getName().str() : "arg" + std::to_string(A->getArgNo());
		if(auto *CB = dyn_cast<CallBase>(n.v)) { if(Function *c = calleeOf(CB)) return "call " + sname(c); return "call?"; }
		if(isa<PHINode>(n.v)) return "phi" + (n.v->hasName() ? ":" + n.v->getName().str() : "");
		if(n.v->hasName()) return "%" + n.v->getName().str();
		if(auto *I = dyn_cast<Instruction>(n.v)) return std::string(I->getOpcodeName());
		return "v";
	case Node::Load: return "*(" + str(n.ops[0], depth + 1) + ")";
	case Node::Off: return str(n.ops[0], depth + 1) + "+" + std::to_string(n.c);
	case Node::Gep: return str(n.ops[0], depth + 1) + "[" + str(n.ops[1], depth + 1) + "*" + std::to_string(n.c) + "]";
	case Node::Bin: return "(" + str(n.ops[0], depth + 1) + " " + Instruction::getOpcodeName(n.c) + " " + str(n.ops[1], depth + 1) + ")";
	case Node::Zext: case Node::Sext: case Node::Trunc: return str(n.ops[0], depth + 1);
	}
	return "?";
}

// ---------------------------------------------------------------- facts
FactFlow::FactFlow(Function &F): F(F) { E.DL = &M->getDataLayout(); }
std::vector<int> FactFlow::ids(const Value *v)
{
	auto it = idMemo.find(v);
	if(it != idMemo.end()) return it->second;
	std::vector<int> r;
	int k = E.of(v);
	r.push_back(k);
	const Value *s = v;
	while(auto *O = dyn_cast<Operator>(s))
	{
		unsigned op = O->getOpcode();
		if(op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast || op == Instruction::Freeze) s = O->getOperand(0); else break;
	}
	if(isa<Instruction>(s)) { int u = E.val(s); if(u != k) r.push_back(u); }
	return idMemo[v] = r;
}
void FactFlow::killNode(FactSet &s, int node)
{
	for(auto it = s.begin(); it != s.end();)
		if(E.contains(it->a, node) || E.contains(it->b, node)) it = s.erase(it); else ++it;
}
void FactFlow::addCmp(CmpInst::Predicate p, const Value *a, const Value *b, FactSet &s)
{
	for(int x : ids(a)) for(int y : ids(b))
	{
		switch(p)
		{
		case CmpInst::ICMP_EQ: s.insert({ F_EQ, x, y }); s.insert({ F_EQ, y, x }); break;
		case CmpInst::ICMP_NE: s.insert({ F_NE, x, y }); s.insert({ F_NE, y, x }); break;
		case CmpInst::ICMP_ULT: s.insert({ F_ULT, x, y }); break;
		case CmpInst::ICMP_ULE: s.insert({ F_ULE, x, y }); break;
		case CmpInst::ICMP_UGT: s.insert({ F_ULT, y, x }); break;
		case CmpInst::ICMP_UGE: s.insert({ F_ULE, y, x }); break;
		case CmpInst::ICMP_SLT: s.insert({ F_SLT, x, y }); break;
		case CmpInst::ICMP_SLE: s.insert({ F_SLE, x, y }); break;
		case CmpInst::ICMP_SGT: s.insert({ F_SLT, y, x }); break;
		case CmpInst::ICMP_SGE: s.insert({ F_SLE, y, x }); break;
		default: break;
		}
	}
}
void FactFlow::assume(const Value *cond, bool truth, FactSet &s, int depth)
{
	if(depth > 6) return;
	if(auto *C = dyn_cast<ICmpInst>(cond))
	{
		auto p = truth ? C->getPredicate() : C->getInversePredicate();
		addCmp(p, C->getOperand(0), C->getOperand(1), s);
		// comparison of a zext'd i1 against 0
		if(auto *K = dyn_cast<ConstantInt>(C->getOperand(1)))
			if(K->isZero() && (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_EQ))
				if(auto *Z = dyn_cast<ZExtInst>(C->getOperand(0)))
				{
					if(Z->getOperand(0)->getType()->isIntegerTy(1)) assume(Z->getOperand(0), p == CmpInst::ICMP_NE, s, depth + 1);
					else for(int x : ids(Z->getOperand(0))) s.insert({ p == CmpInst::ICMP_NE ? F_NE : F_EQ, x, E.cst(0) });
				}
		return;
	}
	if(auto *T = dyn_cast<TruncInst>(cond))
	{
		if(auto *Z = dyn_cast<ZExtInst>(T->getOperand(0))) if(Z->getOperand(0)->getType()->isIntegerTy(1)) { assume(Z->getOperand(0), truth, s, depth + 1); return; }
	}
	if(auto *B = dyn_cast<BinaryOperator>(cond))
	{
		if((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth))
		{
			assume(B->getOperand(0), truth, s, depth + 1);
			assume(B->getOperand(1), truth, s, depth + 1);
		}
		else if(B->getOpcode() == Instruction::Xor)
			if(auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) if(K->isOne()) assume(B->getOperand(0), !truth, s, depth + 1);
	}
	else if(auto *S = dyn_cast<SelectInst>(cond))
	{
		auto *t = dyn_cast<ConstantInt>(S->getTrueValue());
		auto *f = dyn_cast<ConstantInt>(S->getFalseValue());
		if(f && f->isOne() != truth) { assume(S->getCondition(), true, s, depth + 1); assume(S->getTrueValue(), truth, s, depth + 1); }
		else if(t && t->isOne() != truth) { assume(S->getCondition(), false, s, depth + 1); assume(S->getFalseValue(), truth, s, depth + 1); }
	}
	// the negation of a conjunction: what holds in both ways of failing
	const Value *A = nullptr, *B2 = nullptr; bool conj = false;
	if(auto *B = dyn_cast<BinaryOperator>(cond))
	{
		if(B->getType()->isIntegerTy(1) && B->getOpcode() == Instruction::And && !truth) { A = B->getOperand(0); B2 = B->getOperand(1); conj = true; }
		if(B->getType()->isIntegerTy(1) && B->getOpcode() == Instruction::Or && truth) { A = B->getOperand(0); B2 = B->getOperand(1); }
	}
	else if(auto *S = dyn_cast<SelectInst>(cond))
	{
		auto *t = dyn_cast<ConstantInt>(S->getTrueValue());
		auto *f = dyn_cast<ConstantInt>(S->getFalseValue());
		if(f && f->isZero() && !truth) { A = S->getCondition(); B2 = S->getTrueValue(); conj = true; }
		if(t && t->isOne() && truth) { A = S->getCondition(); B2 = S->getFalseValue(); }
	}
	if(A && depth < 4)
	{
		FactSet s1 = s, s2 = s;
		assume(A, !conj, s1, depth + 1);
		assume(A, conj, s2, depth + 1);
		assume(B2, !conj, s2, depth + 1);
		if(closeHook) { closeHook(s1, *this); closeHook(s2, *this); }
		joinInto(s1, s2);
		s = std::move(s1);
	}
	for(int x : ids(cond)) s.insert({ truth ? F_NE : F_EQ, x, E.cst(0) });
}
void FactFlow::edge(const BasicBlock *from, const BasicBlock *to, FactSet &s)
{
	const Instruction *T = from->getTerminator();
	if(auto *B = dyn_cast<BranchInst>(T))
	{
		if(B->isConditional() && B->getSuccessor(0) != B->getSuccessor(1))
			assume(B->getCondition(), B->getSuccessor(0) == to, s);
	}
	else if(auto *S = dyn_cast<SwitchInst>(T))
	{
		int n = 0; const ConstantInt *val = nullptr;
		for(auto &c : S->cases()) if(c.getCaseSuccessor() == to) { n++; val = c.getCaseValue(); }
		if(n == 1 && S->getDefaultDest() != to) addCmp(CmpInst::ICMP_EQ, S->getCondition(), val, s);
		else if(n == 0 && S->getDefaultDest() == to)
			for(auto &c : S->cases()) for(int x : ids(S->getCondition())) s.insert({ F_NE, x, E.of(c.getCaseValue()) });
	}
	// phis
	std::vector<Fact> add;
	std::vector<int> kills;
	for(auto &P : to->phis())
	{
		const Value *v = P.getIncomingValueForBlock(from);
		int pn = E.val(&P);
		kills.push_back(pn);
		if(v == &P) { for(auto &f : s) if(f.a == pn || f.b == pn) add.push_back(f); continue; }
		for(int id : ids(v))
			for(auto &f : s)
			{
				if(f.a == id && f.b != pn) add.push_back({ f.k, pn, f.b });
				if(f.b == id && f.a != pn) add.push_back({ f.k, f.a, pn });
			}
		if(auto *c = dyn_cast<ConstantInt>(v))
		{
			add.push_back({ F_EQ, pn, E.of(c) });
			if(!c->isZero()) add.push_back({ F_NE, pn, E.cst(0) });
			if(!c->isMinusOne()) add.push_back({ F_NE, pn, E.cst(-1) });
		}
		else if(v->getType()->isPointerTy() ? nonNull(s, v) : ne(s, v, 0)) add.push_back({ F_NE, pn, E.cst(0) });
		if(!isa<Constant>(v)) { add.push_back({ F_EQ, pn, E.of(v) }); add.push_back({ F_EQ, E.of(v), pn }); }
	}
	for(int k : kills) killNode(s, k);
	for(auto &f : add)
	{
		bool bad = false;
		for(int k : kills) if((f.a != k && E.contains(f.a, k)) || (f.b != k && E.contains(f.b, k))) bad = true;
		if(!bad) s.insert(f);
	}
	if(closeHook) closeHook(s, *this);
}
void FactFlow::transfer(const Instruction &I, FactSet &s)
{
	if(isa<PHINode>(I)) return;
	if(!I.getType()->isVoidTy())
	{
		// a value being redefined (loops)
		int u = E.val(&I);
		killNode(s, u);
	}
	if(auto *L = dyn_cast<LoadInst>(&I))
	{
		int k = E.of(L), u = E.val(L);
		std::vector<Fact> add;
		for(auto &f : s) { if(f.a == k) add.push_back({ f.k, u, f.b }); if(f.b == k) add.push_back({ f.k, f.a, u }); }
		for(auto &f : add) s.insert(f);
	}
	else if(auto *S = dyn_cast<StoreInst>(&I))
	{
		int L = E.loadOf(E.of(S->getPointerOperand()));
		std::vector<Fact> add;
		const Value *v = S->getValueOperand();
		for(int id : ids(v))
			for(auto &f : s) { if(f.a == id) add.push_back({ f.k, L, f.b }); if(f.b == id) add.push_back({ f.k, f.a, L }); }
		bool nn = v->getType()->isPointerTy() ? nonNull(s, v) : (v->getType()->isIntegerTy() && ne(s, v, 0));
		killNode(s, L);
		for(auto &f : add) if(!E.contains(f.a == L ? f.b : f.a, L)) s.insert(f);
		int vn = E.of(v);
		if(!E.contains(vn, L)) { s.insert({ F_EQ, L, vn }); s.insert({ F_EQ, vn, L }); }
		if(nn) s.insert({ F_NE, L, E.cst(0) });
	}
	else if(auto *CB = dyn_cast<CallBase>(&I))
	{
		if(isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) { }
		else if(killOnCallEscapes)
		{
			Function *C = calleeOf(CB);
			bool mem = isa<MemIntrinsic>(I);
			for(unsigned i = 0; i < CB->arg_size(); i++)
			{
				const Value *a = CB->getArgOperand(i);
				if(!a->getType()->isPointerTy()) continue;
				if(mem && i != 0) continue;
				if(C && C->doesNotAccessMemory()) continue;
				if(CB->onlyReadsMemory(i) || CB->isByValArgument(i)) continue;
				int p = E.of(a);
				while(E.nodes[p].k == Node::Off || E.nodes[p].k == Node::Gep) p = E.nodes[p].ops[0];
				bool local = E.nodes[p].k == Node::Val && isa<AllocaInst>(E.nodes[p].v);
				if(!mem && !local) continue;
				// kill facts about memory reached directly from that object
				for(auto it = s.begin(); it != s.end();)
				{
					bool hit = false;
					for(int side : { it->a, it->b })
					{
						std::vector<int> st{ side };
						while(!st.empty() && !hit)
						{
							int n = st.back(); st.pop_back();
							if(E.nodes[n].k == Node::Load)
							{
								int q = E.nodes[n].ops[0];
								while(E.nodes[q].k == Node::Off || E.nodes[q].k == Node::Gep) q = E.nodes[q].ops[0];
								if(q == p) hit = true;
							}
							for(int o : E.nodes[n].ops) st.push_back(o);
						}
					}
					if(hit) it = s.erase(it); else ++it;
				}
			}
		}
	}
	if(transferHook) transferHook(I, s, *this);
}
void FactFlow::joinInto(FactSet &s, const FactSet &t)
{
	FactSet r;
	auto implied = [&](const FactSet &by, const Fact &f) {
		if(f.k == F_NE && E.nodes[f.b].k == Node::Const) return neNode(by, f.a, E.nodes[f.b].c);
		return false;
	};
	for(auto &f : s) if(t.count(f) || implied(t, f)) r.insert(f);
	for(auto &f : t) if(!r.count(f) && implied(s, f)) r.insert(f);
	s = std::move(r);
}
void FactFlow::run()
{
	std::vector<const BasicBlock*> rpo;
	{
		std::set<const BasicBlock*> seen; std::vector<std::pair<const BasicBlock*, const_succ_iterator>> st;
		std::vector<const BasicBlock*> post;
		const BasicBlock *e = &F.getEntryBlock();
		seen.insert(e); st.push_back({ e, succ_begin(e) });
		while(!st.empty())
		{
			auto &t = st.back();
			if(t.second == succ_end(t.first)) { post.push_back(t.first); st.pop_back(); continue; }
			const BasicBlock *n = *t.second; ++t.second;
			if(seen.insert(n).second) st.push_back({ n, succ_begin(n) });
		}
		rpo.assign(post.rbegin(), post.rend());
	}
	std::map<const BasicBlock*, FactSet> out;
	std::set<const BasicBlock*> haveOut;
	bool changed = true; int iter = 0;
	while(changed && iter < 60)
	{
		changed = false; iter++;
		for(auto *B : rpo)
		{
			FactSet s; bool first = true;
			std::set<const BasicBlock*> ps;
			for(auto *P : predecessors(B))
			{
				if(!ps.insert(P).second || !haveOut.count(P)) continue;
				FactSet t = out[P];
				edge(P, B, t);
				if(first) { s = std::move(t); first = false; }
				else joinInto(s, t);
			}
			if(first && B != &F.getEntryBlock()) continue;
			bool fresh = reached.insert(B).second;
			if(!fresh && in[B] == s && haveOut.count(B)) continue;
			in[B] = s;
			for(auto &I : *B) transfer(I, s);
			if(!haveOut.count(B) || out[B] != s) { out[B] = std::move(s); haveOut.insert(B); changed = true; }
		}
	}
	if(changed) R.brk("fact dataflow did not converge in " + dname(&F));
}
void FactFlow::visit(std::function<void(const Instruction&, const FactSet&)> fn)
{
	for(auto &B : F)
	{
		if(!reached.count(&B)) continue;
		FactSet s = in[&B];
		for(auto &I : B) { fn(I, s); transfer(I, s); }
	}
}
bool FactFlow::neNode(const FactSet &s, int n, int64_t c, int depth)
{
	if(depth > 6) return false;
	const Node &nd = E.nodes[n];
	if(nd.k == Node::Const) return nd.c != c;
	if(c == 0)
	{
		if(nd.k == Node::Global) return true;
		if(nd.k == Node::Val && isa<AllocaInst>(nd.v)) return true;
		if(nd.k == Node::Val) if(auto *A = dyn_cast<Argument>(nd.v)) if(A->hasByValAttr() || A->hasStructRetAttr() || A->hasAttribute(Attribute::Dereferenceable)) return true;
		if(nd.k == Node::Val) if(auto *CB = dyn_cast<CallBase>(nd.v)) if(CB->hasRetAttr(Attribute::Dereferenceable)) return true;
	}
	int nc = E.cst(c);
	if(s.count({ F_NE, n, nc })) return true;
	for(auto it = s.lower_bound({ F_EQ, n, INT_MIN }); it != s.end() && it->k == F_EQ && it->a == n; ++it)
	{
		if(E.nodes[it->b].k == Node::Const) { if(E.nodes[it->b].c != c) return true; }
		else if(it->b != n && depth < 3 && neNode(s, it->b, c, depth + 2)) return true;
	}
	if(nd.k == Node::Zext || nd.k == Node::Sext) { if(neNode(s, nd.ops[0], c, depth + 1)) return true; }
	if(nd.k == Node::Zext && c < 0) return true;
	if(c == 0)
	{
		for(auto &f : s)
		{
			if(f.b == n && (f.k == F_ULT)) return true; // x <u n
			if(f.b == n && (f.k == F_ULE) && E.nodes[f.a].k == Node::Const && E.nodes[f.a].c != 0) return true;
			if(f.b == n && f.k == F_SLT && E.nodes[f.a].k == Node::Const && E.nodes[f.a].c >= 0) return true;
			if(f.b == n && f.k == F_SLE && E.nodes[f.a].k == Node::Const && E.nodes[f.a].c > 0) return true;
			if(f.a == n && f.k == F_SLT && E.nodes[f.b].k == Node::Const && E.nodes[f.b].c <= 0) return true;
		}
		if(nd.k == Node::Bin && nd.c == Instruction::Or) return neNode(s, nd.ops[0], 0, depth + 1) || neNode(s, nd.ops[1], 0, depth + 1);
		if(nd.k == Node::Val)
			if(auto *S = dyn_cast<SelectInst>(nd.v))
			{
				FactSet st = s, sf = s;
				assume(S->getCondition(), true, st, 3);
				assume(S->getCondition(), false, sf, 3);
				return neNode(st, E.of(S->getTrueValue()), 0, depth + 3) && neNode(sf, E.of(S->getFalseValue()), 0, depth + 3);
			}
	}
	else
	{
		for(auto &f : s)
		{
			if(f.b == n && f.k == F_SLT && E.nodes[f.a].k == Node::Const && E.nodes[f.a].c >= c) return true;
			if(f.b == n && f.k == F_SLE && E.nodes[f.a].k == Node::Const && E.nodes[f.a].c > c) return true;
			if(c == -1 && f.a == n && (f.k == F_ULT)) return true;
			if(c == -1 && f.b == n && f.k == F_ULE && false) return true;
			if(f.a == n && f.k == F_SLT && E.nodes[f.b].k == Node::Const && E.nodes[f.b].c <= c) return true;
		}
	}
	return false;
}
bool FactFlow::ne(const FactSet &s, const Value *v, int64_t c)
{
	if(auto *K = dyn_cast<ConstantInt>(v)) return K->getSExtValue() != c;
	for(int id : ids(v)) if(neNode(s, id, c)) return true;
	return false;
}
bool FactFlow::nonNull(const FactSet &s, const Value *v)
{
	for(int id : ids(v))
	{
		int n = id;
		for(int i = 0; i < 8; i++)
		{
			if(neNode(s, n, 0)) return true;
			if(E.nodes[n].k == Node::Off || E.nodes[n].k == Node::Gep) n = E.nodes[n].ops[0];
			else break;
		}
	}
	return false;
}
static bool cmpSearch(FactFlow &FF, const FactSet &s, int a, int b, bool orEq, bool isSigned, int depth, std::set<int> &seen)
{
	Exprs &E = FF.E;
	if(orEq && a == b) return true;
	const Node &na = E.nodes[a], &nb = E.nodes[b];
	if(na.k == Node::Const && nb.k == Node::Const)
	{
		if(isSigned) return orEq ? na.c <= nb.c : na.c < nb.c;
		return orEq ? (uint64_t)na.c <= (uint64_t)nb.c : (uint64_t)na.c < (uint64_t)nb.c;
	}
	if(!isSigned && na.k == Node::Const && na.c == 0 && orEq) return true;
	if(depth > 4) return false;
	int LT = isSigned ? F_SLT : F_ULT, LE = isSigned ? F_SLE : F_ULE;
	for(auto &f : s)
	{
		if(f.a != a) continue;
		if(f.k == LT) { if(f.b == b) return true; if(!seen.count(f.b)) { seen.insert(f.b); if(cmpSearch(FF, s, f.b, b, true, isSigned, depth + 1, seen)) return true; seen.erase(f.b); } }
		if(f.k == LE || f.k == F_EQ) { if(f.b == b && orEq) return true; if(!seen.count(f.b)) { seen.insert(f.b); if(cmpSearch(FF, s, f.b, b, orEq, isSigned, depth + 1, seen)) return true; seen.erase(f.b); } }
	}
	// x <= x zext
	if(na.k == Node::Zext && nb.k == Node::Zext) return cmpSearch(FF, s, na.ops[0], nb.ops[0], orEq, isSigned, depth + 1, seen);
	if(na.k == Node::Zext && nb.k == Node::Const) return cmpSearch(FF, s, na.ops[0], b, orEq, isSigned, depth + 1, seen);
	if(nb.k == Node::Zext && na.k == Node::Const) return cmpSearch(FF, s, a, nb.ops[0], orEq, isSigned, depth + 1, seen);
	if(nb.k == Node::Const)
		for(auto it = s.lower_bound({ F_EQ, a, INT_MIN }); it != s.end() && it->k == F_EQ && it->a == a; ++it)
			if(E.nodes[it->b].k == Node::Const) return orEq ? (uint64_t)E.nodes[it->b].c <= (uint64_t)nb.c : (uint64_t)E.nodes[it->b].c < (uint64_t)nb.c;
	return false;
}
bool FactFlow::ultNodes(const FactSet &s, int a, int b, bool orEqual) { std::set<int> seen{ a }; return cmpSearch(*this, s, a, b, orEqual, false, 0, seen); }
bool FactFlow::sltNodes(const FactSet &s, int a, int b, bool orEqual) { std::set<int> seen{ a }; return cmpSearch(*this, s, a, b, orEqual, true, 0, seen); }

void inferNoReturn()
{
	bool changed = true;
	auto dead = [](const Instruction &I) { auto *CB = dyn_cast<CallBase>(&I); Function *C = CB ? calleeOf(CB) : nullptr; return (CB && CB->doesNotReturn()) || (C && C->doesNotReturn()); };
	while(changed)
	{
		changed = false;
		for(Function *F : definedFns())
			if(!F->doesNotReturn() && !pathAvoiding(F, nullptr, dead)) { F->setDoesNotReturn(); changed = true; }
	}
	for(Function *F : definedFns())
	{
		std::vector<Instruction*> cut;
		for(auto &B : *F) for(auto &I : B) if(dead(I) && !isa<UnreachableInst>(I.getNextNode())) { cut.push_back(I.getNextNode()); break; }
		for(auto *I : cut) changeToUnreachable(I);
		if(!cut.empty()) removeUnreachableBlocks(*F);
	}
}
