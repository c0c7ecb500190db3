// Shared core of the nvlint analysis tool: module loading, normalisation, fact dataflow, reporting.
#pragma once
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <unistd.h>
#include <map>
#include <deque>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <unordered_map>
#include <algorithm>
#include <cstring>

using namespace llvm;
typedef std::vector<std::string> StrVec;

// ---------------------------------------------------------------- reporting
struct Violation { std::string rule, func, file, detail, key; unsigned line; std::vector<std::string> path; };
struct Report
{
	std::vector<Violation> violations;
	std::map<std::string, long> stats;
	std::vector<std::string> samples;
	std::vector<std::string> broken; // analysis cannot be trusted
	std::set<std::string> seen;
	void add(std::string rule, const Instruction *at, std::string func, std::string detail, std::string key, StrVec path = {});
	void addAt(std::string rule, std::string file, unsigned line, std::string func, std::string detail, std::string key, StrVec path = {});
	void sample(std::string s) { if(samples.size() < 40) samples.push_back(s); }
	void stat(std::string k, long n = 1) { stats[k] += n; }
	void brk(std::string s) { broken.push_back(s); }
	void print(raw_ostream &os);
};

// ---------------------------------------------------------------- program
extern Module *M;
extern Report R;

std::string dname(const Function *F);      // demangled, with parameters
std::string sname(const Function *F);      // demangled, without parameters / return type / template args kept
std::string locOf(const Instruction *I);   // file:line, relative to /repo
std::string fileOf(const Instruction *I);
unsigned lineOf(const Instruction *I);
std::string fileOf(const Function *F);
unsigned lineOf(const Function *F);
Function *findFn(const std::string &name); // by sname, first with a body
std::vector<Function*> findFns(const std::string &name);
std::vector<Function*> definedFns();
// enumerators of a named enum (from debug info)
std::vector<std::pair<std::string, int64_t>> enumOf(const std::string &name);
DICompositeType *recordOf(const std::string &name);
struct Field { std::string name; uint64_t offset, size; const DIType *type; };
std::vector<Field> fieldsOf(const DICompositeType *T);
std::vector<DICompositeType*> allRecords();
const DIType *stripType(const DIType *T);  // strip typedef/cv
std::string typeName(const DIType *T);
// source level inlining chain of an instruction (innermost first)
std::string scopeName(const Instruction *I);

// ---------------------------------------------------------------- normalisation
struct InlinePolicy
{
	std::function<bool(Function *callee, CallBase *site)> want;
	unsigned maxDepth = 8;
	unsigned maxInstr = 60000;
};
// inline according to policy (in place), then simplify
void normalise(Function *F, const InlinePolicy *P = nullptr, bool thread = true);
void basicSimplify(Function *F, bool thread);
unsigned instrCount(const Function *F);
// run a textual pass pipeline ("sccp,simplifycfg", "loop(loop-rotate)") on one function
void runPasses(Function *F, const std::string &pipeline);
// replace loads of internal globals that are never written by their initialiser
void foldConstGlobals();
Function *cloneFn(Function *F);
typedef std::function<bool(const Instruction&)> InstrPred;
// first return instruction (or instruction matching bad) reachable from 'from' (exclusive; null = function entry) without passing an instruction matching hit
const Instruction *pathAvoiding(Function *F, const Instruction *from, InstrPred hit, InstrPred bad = nullptr);
bool isReturn(const Instruction &I);
// functions all of whose paths end in a call that does not return; cuts the code after such calls
void inferNoReturn();
// direct callee, looking through casts/aliases
Function *calleeOf(const CallBase *CB);

// call graph over direct calls (address-taken ignored)
void buildCallGraph();
const std::set<Function*> &calleesOf(Function *F);
const std::set<Function*> &callersOf(Function *F);
std::set<Function*> reachableFrom(const std::vector<Function*> &roots);

// ---------------------------------------------------------------- canonical expressions
struct Node { enum K { Const, Val, Load, Off, Gep, Bin, Zext, Sext, Trunc, Global } k; int64_t c; const Value *v; std::vector<int> ops; };
struct Exprs
{
	std::deque<Node> nodes;
	std::map<std::tuple<int, int64_t, const Value*, std::vector<int>>, int> index;
	std::unordered_map<const Value*, int> memo;
	const DataLayout *DL;
	int mk(Node n);
	int cst(int64_t c);
	int val(const Value *v);
	int of(const Value *v);
	int loadOf(int p) { Node n{ Node::Load, 0, nullptr, { p } }; return mk(n); }
	bool contains(int hay, int needle);
	std::map<std::pair<int, int>, bool> containsMemo;
	std::string str(int id, int depth = 0);
	int strip(int id) { while(nodes[id].k == Node::Zext || nodes[id].k == Node::Sext) id = nodes[id].ops[0]; return id; }
};

// ---------------------------------------------------------------- facts
enum FactK { F_NE, F_EQ, F_ULT, F_ULE, F_SLT, F_SLE, F_DERIVED };
struct Fact { int k, a, b; bool operator<(const Fact &o) const { return std::tie(k, a, b) < std::tie(o.k, o.a, o.b); } bool operator==(const Fact &o) const { return k == o.k && a == o.a && b == o.b; } };
typedef std::set<Fact> FactSet;

struct FactFlow
{
	Function &F;
	Exprs E;
	std::map<const BasicBlock*, FactSet> in;
	std::set<const BasicBlock*> reached;
	// optional hooks
	std::function<void(const Instruction&, FactSet&, FactFlow&)> transferHook; // after the default transfer
	std::function<void(FactSet&, FactFlow&)> closeHook; // on every edge: add derived (disjunctive) facts
	bool killOnCallEscapes = true;

	FactFlow(Function &F);
	void run();
	void edge(const BasicBlock *from, const BasicBlock *to, FactSet &s);
	void transfer(const Instruction &I, FactSet &s);
	void joinInto(FactSet &s, const FactSet &t);
	void visit(std::function<void(const Instruction&, const FactSet&)> fn); // state before the instruction
	// queries
	bool ne(const FactSet &s, const Value *v, int64_t c);
	bool nonNull(const FactSet &s, const Value *v);
	bool neNode(const FactSet &s, int n, int64_t c, int depth = 0);
	bool ultNodes(const FactSet &s, int a, int b, bool orEqual);
	bool sltNodes(const FactSet &s, int a, int b, bool orEqual);
	void assume(const Value *cond, bool truth, FactSet &s, int depth = 0);
	std::vector<int> ids(const Value *v); // ids under which facts on v may be recorded
private:
	void addCmp(CmpInst::Predicate p, const Value *a, const Value *b, FactSet &s);
	void killNode(FactSet &s, int node);
	std::unordered_map<const Value*, std::vector<int>> idMemo;
};
