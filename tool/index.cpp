// C02: every element address the compiler, its evaluators and the lowering produce is checked against the length of the array.
#include "tree.h"
#include "dom.h"
namespace {
struct Req { int len, es, idx; };
bool inBounds(const std::vector<Cond> &cs, int idx, int len)
{
	int want = T.ult(idx, len, 32);
	uint64_t v; if(T.isK(want, &v)) return v;
	for(auto &c : cs) if(c.c == want && c.pos) return true;
	// idx == constant, len == constant
	bool a = false, b = false;
	int zero = T.K(0, 32);
	for(auto &c : cs)
	{
		if(!c.pos && c.c == T.slt(idx, zero, 32)) a = true;
		if(c.pos && c.c == T.slt(idx, len, 32)) b = true;
	}
	return a && b;
}
std::string cs(const std::vector<Cond> &c) { std::string r = condStr(c); return r.empty() ? "" : " (when " + r + ")"; }
uint64_t pointerConstant(Tree &tree, Model &m, int value, uint64_t container)
{
	uint64_t o = tree.constant(m, I, value);
	m.putK(o, "VmConstant", "type.type", enumVal("VmValueType", "VM_TYPE_POINTER")); m.putK(o, "VmConstant", "type.size", 8);
	m.putK(o, "VmConstant", "container", container);
	return o;
}
Function *fnIn(const char *file, const char *name) { Function *r = nullptr; for(auto *f : definedFns()) if(sname(f) == name && fileOf(f) == std::string("NULLC/") + file) r = f; return r; }
const Instruction *headOf(Function *F) { return &*F->getEntryBlock().begin(); }
// where in the function an instruction kind is handled, for reports
std::string place(const St::Event &e) { return e.at ? locOf(e.at) : std::string(); }

// constant propagation and peephole optimisation of index operations
void folding(Tree &tree)
{
	for(const char *fn : { "RunConstantPropagation", "RunPeepholeOptimizations" })
	for(int shape = 0; shape < 3; shape++) // sized array at a variable, sized array at an address, length in an array value
	{
		Function *F = fnIn("InstructionTreeVm.cpp", fn);
		if(!F) { R.brk(std::string("anchor ") + fn + " not found"); return; }
		bool peep = std::string(fn) == "RunPeepholeOptimizations";
		prepare(F);
		int len = T.sym("len", 32), es = T.sym("elem", 32), idx = T.sym("idx", 32), p = T.sym("ptr", 32);
		Pass P(F, { "ReplaceValueUsersWith", "ChangeInstructionTo", "ReplaceValue", "CreateConstantPointer" }, "NULLC/InstructionTreeVm.cpp");
		St init; init.mem = tree.globals; init.bb = &F->getEntryBlock(); init.it = init.bb->begin();
		Model m(init);
		uint64_t cl = tree.constant(m, I, len), ce = tree.constant(m, I, es), ci = tree.constant(m, I, idx), var = shape == 1 ? 0 : m.obj("VariableData");
		uint64_t cp = pointerConstant(tree, m, p, var), inst;
		if(shape < 2) inst = tree.inst(m, L, tree.cmd["INDEX"], { cl, ce, cp, ci });
		else
		{
			uint64_t arr = tree.inst(m, L, tree.cmd["ARRAY"], { cp, cl });
			inst = tree.inst(m, L, tree.cmd["INDEX_UNSIZED"], { ce, arr, ci });
		}
		m.putK(inst, "VmInstruction", "type.type", enumVal("VmValueType", "VM_TYPE_POINTER"));
		for(auto &A : F->args()) P.fixed[&A] = A.getArgNo() == 2 ? T.K(inst, 64) : A.getArgNo() == 3 ? T.K(0, 1) : T.sym("ctxarg" + std::to_string(A.getArgNo()));
		if(!m.missing.empty()) { R.brk("instruction tree layout: " + m.missing[0]); return; }
		std::string what = shape < 2 ? "index operation" : "index operation on an array value";
		try { P.run(init); }
		catch(Undecided &u) { R.stat(std::string("undecided:") + fn + ": " + u.why); R.brk(std::string(fn) + " could not be evaluated on an " + what + ": " + u.why); continue; }
		R.stat("optimisation_cases");
		for(auto &s : P.done)
		{
			std::map<uint64_t, St::Event> ptrs; uint64_t nextRes = 0; (void)nextRes;
			for(size_t i = 0; i < s.events.size(); i++)
			{
				auto &e = s.events[i];
				if(e.name == "CreateConstantPointer") continue;
				R.stat("optimisation_paths");
				std::string d;
				if(e.name == "ChangeInstructionTo" && e.a.size() > 6 && kOf(e.a[1]) == inst)
				{
					int64_t c = (int64_t)kOf(e.a[2]);
					if(c == tree.cmd["INDEX"]) { if(kOf(e.a[3]) != cl || kOf(e.a[4]) != ce || kOf(e.a[5]) != cp || kOf(e.a[6]) != ci) d = "rewritten to an index operation with other operands (length, element size, array, index)"; }
					else d = "rewritten to operation " + tree.cmdN[c] + cs(s.conds) + ", which does not check the index";
				}
				else if(e.name == "ReplaceValueUsersWith" && kOf(e.a[1]) == inst)
				{
					const St::Event *pe = i && s.events[i - 1].name == "CreateConstantPointer" ? &s.events[i - 1] : nullptr;
					if(!pe) { if(kOf(e.a[2]) == cp && inBounds(s.conds, idx, len)) continue; d = "replaced by a value that is not the address of an element" + cs(s.conds); }
					else if(!inBounds(s.conds, idx, len)) d = "replaced by a constant address without a check that the index is below the length" + cs(s.conds);
					else if(pe->a[2] != T.add(p, T.mul(es, idx, 32), 32)) d = "replaced by the address " + T.str(pe->a[2]) + " instead of that of the element";
				}
				if(!d.empty()) R.add("INDEX-FOLD", e.at, fn, "an " + what + " is " + d, std::string(fn) + "#" + std::to_string(shape) + "#" + d.substr(0, 40));
				else R.sample(std::string(fn) + ": " + what + " replaced only" + cs(s.conds));
			}
		}
		(void)peep;
	}
}

// the evaluator of the instruction tree
void treeEvaluator(Tree &tree)
{
	Function *F = fnIn("InstructionTreeVmEval.cpp", "EvaluateInstruction");
	if(!F) { R.brk("anchor EvaluateInstruction not found"); return; }
	prepare(F);
	for(int shape = 0; shape < 2; shape++)
	{
		int len = T.sym("len", 32), es = T.sym("elem", 32), idx = T.sym("idx", 32), p = T.sym("ptr", 32);
		Pass P(F, { "Report", "CreateConstantPointer", "EvaluateOperand" }, "NULLC/InstructionTreeVmEval.cpp");
		auto base = P.onCall;
		P.onCall = [&](St &s, const CallBase *CB, std::vector<St> &w) {
			Function *C = calleeOf(CB);
			if(C && sname(C) == "EvaluateOperand") { s.env[CB] = P.of(s, CB->getArgOperand(1)); return true; }
			if(C && sname(C).find("Report") != std::string::npos) { s.events.push_back({ "Report", {}, CB }); s.env[CB] = T.K(0, 64); return true; }
			return base(s, CB, w);
		};
		P.onRet = [&](St &s, const ReturnInst *RI) { s.events.push_back({ "return", { RI->getReturnValue() ? P.of(s, RI->getReturnValue()) : T.K(0, 64) }, RI }); };
		St init; init.mem = tree.globals; init.bb = &F->getEntryBlock(); init.it = init.bb->begin();
		Model m(init);
		uint64_t cl = tree.constant(m, I, len), ce = tree.constant(m, I, es), ci = tree.constant(m, I, idx), var = m.obj("VariableData");
		uint64_t cp = pointerConstant(tree, m, p, var), inst;
		if(shape == 0) inst = tree.inst(m, L, tree.cmd["INDEX"], { cl, ce, cp, ci });
		else
		{
			uint64_t arr = tree.constant(m, I, len), data = m.alloc(16);
			m.putK(arr, "VmConstant", "type.type", enumVal("VmValueType", "VM_TYPE_ARRAY_REF")); m.putK(arr, "VmConstant", "type.size", 12);
			m.putK(arr, "VmConstant", "sValue", data); m.putK(arr, "VmConstant", "iValue", 0);
			init.mem[T.K(data, 64)] = { 8, p }; init.mem[T.K(data + 8, 64)] = { 4, len };
			inst = tree.inst(m, L, tree.cmd["INDEX_UNSIZED"], { ce, arr, ci });
		}
		m.putK(inst, "VmInstruction", "type.type", enumVal("VmValueType", "VM_TYPE_POINTER"));
		uint64_t ctx = m.obj("InstructionVMEvalContext");
		m.putK(ctx, "InstructionVMEvalContext", "instruction", 0); m.putK(ctx, "InstructionVMEvalContext", "instructionsLimit", 1000); m.putK(ctx, "InstructionVMEvalContext", "printExecution", 0);
		for(auto &A : F->args()) P.fixed[&A] = A.getArgNo() == 0 ? T.K(ctx, 64) : A.getArgNo() == 1 ? T.K(inst, 64) : T.sym("blk" + std::to_string(A.getArgNo()));
		if(!m.missing.empty()) { R.brk("instruction tree layout: " + m.missing[0]); return; }
		try { P.run(init); }
		catch(Undecided &u) { R.stat(std::string("undecided:EvaluateInstruction: ") + u.why); R.brk("EvaluateInstruction could not be evaluated on an index operation: " + u.why); continue; }
		R.stat("evaluator_cases");
		bool any = false;
		for(auto &s : P.done)
		{
			const St::Event *pe = nullptr; bool rep = false; const Instruction *at = headOf(F); int ret = -1;
			for(auto &e : s.events) { if(e.name == "CreateConstantPointer") pe = &e; if(e.name == "Report") rep = true; if(e.name == "return") ret = e.a[0], at = e.at; }
			R.stat("evaluator_paths");
			if(rep || ret < 0 || kOf(ret) == 0) continue;
			any = true;
			std::string d;
			if(!pe) d = "produces something that is not an element address";
			else if(!inBounds(s.conds, idx, len)) d = "computes an element address without a check that the index is below the length" + cs(s.conds);
			else if(pe->a[2] != T.add(p, T.mul(es, idx, 32), 32)) d = "computes the address " + T.str(pe->a[2]) + " instead of that of the element";
			if(!d.empty()) R.add("INDEX-EVAL", pe ? pe->at : at, "EvaluateInstruction", std::string("the evaluation of an index operation") + (shape ? " on an array value " : " ") + d, "eval#" + std::to_string(shape) + "#" + d.substr(0, 30));
			else R.sample("EvaluateInstruction: element address only" + cs(s.conds));
		}
		if(!any) R.add("INDEX-EVAL", headOf(F), "EvaluateInstruction", "the evaluation of an index operation never succeeds", "eval#" + std::to_string(shape) + "#never");
	}
}

// lowering to bytecode
void lowering(Tree &tree)
{
	Function *F = fnIn("InstructionTreeRegVmLower.cpp", "LowerInstructionIntoBlock");
	if(!F) { R.brk("anchor LowerInstructionIntoBlock not found"); return; }
	prepare(F);
	std::map<std::string, int64_t> op; std::map<int64_t, std::string> opN;
	for(auto &p : enumOf("RegVmInstructionCode")) op[p.first] = p.second, opN[p.second] = p.first;
	for(int shape = 0; shape < 3; shape++) // constant index, other index, array value
	{
		int len = T.sym("len", 32), es = T.sym("elem", 32), idx = T.sym("idx", 32);
		Pass P(F, {}, "NULLC/InstructionTreeRegVmLower.cpp");
		auto base = P.onCall;
		auto regOf = [&](St &s, int v) { (void)s; return T.sym("reg:" + T.str(v), 8); };
		P.onCall = [&](St &s, const CallBase *CB, std::vector<St> &w) {
			Function *C = calleeOf(CB);
			if(!C) return base(s, CB, w);
			std::string n = sname(C); size_t q = n.rfind("::"); if(q != std::string::npos) n = n.substr(q + 2);
			auto arg = [&](unsigned i) { return P.of(s, CB->getArgOperand(i)); };
			unsigned last = CB->arg_size() - 1;
			if(n == "GetArgumentRegister") { s.env[CB] = regOf(s, arg(last)); s.events.push_back({ "use", { arg(last) }, CB }); return true; }
			if(n == "GetRegister" && CB->arg_size() == 2) { s.env[CB] = regOf(s, arg(1)); return true; }
			if(n == "GetArgumentRegisters" || n == "GetRegisters")
			{
				Model m(s);
				int v = arg(n == "GetRegisters" ? 2 : last), out = arg(n == "GetRegisters" ? 1 : last - 1);
				uint64_t o = kOf(out), d = m.alloc(8);
				uint64_t off = 0, size = 0, off2 = 0;
				auto *AT = dyn_cast_or_null<DICompositeType>(recordOf("SmallArray<unsigned char, 32U>"));
				if(!AT) for(auto *r : allRecords()) if(typeName(r).compare(0, 24, "SmallArray<unsigned char") == 0 || r->getName().starts_with("SmallArray<unsigned char")) AT = r;
				if(o == ~0ull || !AT || !member(AT, "data", off, size) || !member(AT, "count", off2, size)) throw Undecided{ "register list" };
				s.mem[T.K(o + off, 64)] = { 8, T.K(d, 64) }; s.mem[T.K(o + off2, 64)] = { 4, T.K(2, 32) };
				s.mem[T.K(d, 64)] = { 1, T.sym("reg0:" + T.str(v), 8) }; s.mem[T.K(d + 1, 64)] = { 1, T.sym("reg1:" + T.str(v), 8) };
				return true;
			}
			if(n == "FreeConstantRegisters" || n == "FreeDelayedRegisters") return true;
			if(n == "AllocateRegister") { s.env[CB] = T.sym("target", 8); return true; }
			if(n == "TransferRegisterTo")
			{
				St f = s;
				s.env[CB] = T.K(1, 1); s.events.push_back({ "transfer", { arg(1), arg(2) }, CB });
				f.env[CB] = T.K(0, 1); w.push_back(f);
				return true;
			}
			if(n == "AddInstruction")
			{
				St::Event e{ "add", {}, CB };
				for(unsigned i = 3; i <= last; i++) e.a.push_back(arg(i));
				s.events.push_back(e);
				return true;
			}
			return base(s, CB, w);
		};
		St init; init.mem = tree.globals; init.bb = &F->getEntryBlock(); init.it = init.bb->begin();
		Model m(init);
		uint64_t cl = tree.constant(m, I, len), ce = tree.constant(m, I, es);
		uint64_t other = tree.inst(m, I, tree.cmd["ADD"], {}), ptr = tree.inst(m, L, tree.cmd["ADD"], {});
		uint64_t ci = shape == 0 ? tree.constant(m, I, idx) : other;
		uint64_t inst = shape < 2 ? tree.inst(m, L, tree.cmd["INDEX"], { cl, ce, ptr, ci }) : tree.inst(m, L, tree.cmd["INDEX_UNSIZED"], { ce, ptr, ci });
		m.putK(inst, "VmInstruction", "type.type", enumVal("VmValueType", "VM_TYPE_POINTER")); m.putK(inst, "VmInstruction", "source", 0);
		uint64_t lf = m.obj("RegVmLoweredFunction"), lb = m.obj("RegVmLoweredBlock");
		m.putK(lf, "RegVmLoweredFunction", "killedRegisters.count", 0); m.putK(lb, "RegVmLoweredBlock", "firstInstruction", 0); m.putK(lb, "RegVmLoweredBlock", "lastInstruction", 0);
		for(auto &A : F->args()) P.fixed[&A] = A.getArgNo() == 3 ? T.K(inst, 64) : A.getArgNo() == 2 ? T.K(lb, 64) : A.getArgNo() == 1 ? T.K(lf, 64) : T.sym("low" + std::to_string(A.getArgNo()));
		if(!m.missing.empty()) { R.brk("instruction tree layout: " + m.missing[0]); return; }
		try { P.run(init); }
		catch(Undecided &u) { R.stat(std::string("undecided:LowerInstructionIntoBlock: ") + u.why); R.brk("LowerInstructionIntoBlock could not be evaluated on an index operation: " + u.why); continue; }
		R.stat("lowering_cases");
		auto reg = [&](uint64_t o) { return T.sym("reg:" + T.str(T.K(o, 64)), 8); };
		int target = T.sym("target", 8);
		for(auto &s : P.done)
		{
			R.stat("lowering_paths");
			std::vector<const St::Event*> adds; const St::Event *tr = nullptr;
			for(auto &e : s.events) { if(e.name == "add") adds.push_back(&e); if(e.name == "transfer") tr = &e; }
			const Instruction *at = adds.size() ? adds[0]->at : tr ? tr->at : headOf(F);
			std::string d;
			bool in = inBounds(s.conds, idx, len);
			if(!in && shape == 0) { // a length compared with a constant index known to be zero
				for(auto &c : s.conds) if(c.pos && c.c == T.eq(idx, T.K(0, 32), 32)) for(auto &k : s.conds) if(k.pos && k.c == T.ult(T.K(0, 32), len, 32)) in = true; }
			if(adds.size() + (tr ? 1 : 0) != 1) d = std::to_string(adds.size()) + " instructions are generated" + cs(s.conds);
			else if(tr)
			{
				bool zero = false; for(auto &c : s.conds) if(c.pos && c.c == T.eq(idx, T.K(0, 32), 32)) zero = true;
				if(shape || !in || !zero || tr->a[1] != reg(ptr)) d = "the register of the array is reused as the element address" + cs(s.conds);
			}
			else
			{
				auto &a = adds[0]->a;
				std::string o = opN[(int64_t)kOf(a[0])];
				if(a.size() < 4) d = "instruction " + o + " is generated without operands";
				else if(o == "rviIndex")
				{
					int rp = shape < 2 ? reg(ptr) : T.sym("reg0:" + T.str(T.K(ptr, 64)), 8), rl = shape < 2 ? reg(cl) : T.sym("reg1:" + T.str(T.K(ptr, 64)), 8);
					int want = T.orT(T.shl(rl, T.K(16, 32), 32), T.trunc(es, 16), 32);
					if(a[1] != target) d = "the result goes to register " + T.str(a[1]);
					else if(a[2] != reg(ci)) d = "the index is taken from register " + T.str(a[2]);
					else if(a[3] != rp) d = "the array is taken from register " + T.str(a[3]);
					else if(a.size() < 5 || T.trunc(a[4], 32) != want) d = "length register and element size are encoded as " + (a.size() < 5 ? "nothing" : T.str(a[4])) + " instead of " + T.str(want);
				}
				else if(o == "rviAddImm" || o == "rviAddImml" || o == "rviMov")
				{
					bool zero = false; for(auto &c : s.conds) if(c.pos && c.c == T.eq(idx, T.K(0, 32), 32)) zero = true;
					if(shape || !in) d = "instruction " + o + " is generated without a check that the index is below the length" + cs(s.conds);
					else if(o == "rviMov" ? !zero || a[3] != reg(ptr) : a[2] != reg(ptr)) d = "instruction " + o + " does not start from the array address" + cs(s.conds);
					else if(o != "rviMov" && (a.size() < 5 || T.trunc(a[4], 32) != T.mul(idx, es, 32))) d = "instruction " + o + " adds " + (a.size() < 5 ? "nothing" : T.str(a[4])) + " to the array address";
				}
				else d = "instruction " + o + " is generated" + cs(s.conds);
			}
			if(!d.empty()) R.add("INDEX-LOWER", at, "LowerInstructionIntoBlock", std::string("for an index operation") + (shape == 0 ? " with a constant index" : shape == 2 ? " on an array value" : "") + ": " + d, "lower#" + std::to_string(shape) + "#" + d.substr(0, 40));
			else R.sample("lowering: " + (tr ? std::string("array register reused") : opN[(int64_t)kOf(adds[0]->a[0])]) + cs(s.conds));
		}
	}
}

// building the instruction tree: length and element size come from the type of the array
void building(Tree &tree)
{
	struct Case { const char *fn, *node, *what; bool unsized; } cases[] = {
		{ "CompileVmArrayIndex", "ExprArrayIndex", "indexing an array of fixed size", false },
		{ "CompileVmArrayIndex", "ExprArrayIndex", "indexing an array value", true },
		{ "CompileVmTypeCast", "ExprTypeCast", "the conversion of an array of fixed size to an array value", false },
	};
	for(auto &c : cases)
	{
		Function *F = fnIn("InstructionTreeVm.cpp", c.fn);
		if(!F) { R.brk(std::string("anchor ") + c.fn + " not found"); continue; }
		prepare(F);
		bool cast = std::string(c.fn) == "CompileVmTypeCast";
		Pass P(F, { "CreateInstruction", "CreateConstruct", "GetReferenceType", "CheckType" }, "NULLC/InstructionTreeVm.cpp");
		auto base = P.onCall;
		std::map<int, uint64_t> compiled;
		P.onCall = [&](St &s, const CallBase *CB, std::vector<St> &w) {
			Function *C = calleeOf(CB);
			if(C && sname(C) == "CompileVm") { int a = P.of(s, CB->getArgOperand(2)); if(!compiled.count(a)) compiled[a] = 0x7000000 + 64 * compiled.size(); s.env[CB] = T.K(compiled[a], 64); return true; }
			if(C && sname(C) == "CheckType") { s.env[CB] = P.of(s, CB->getArgOperand(2)); return true; }
			if(C && sname(C).find("GetVmType") != std::string::npos) { s.env[CB] = T.sym("vmtype", 64); return true; }
			return base(s, CB, w);
		};
		P.onRet = [&](St &s, const ReturnInst *RI) { s.events.push_back({ "return", { P.of(s, RI->getReturnValue()) }, RI }); };
		St init; init.mem = tree.globals; init.bb = &F->getEntryBlock(); init.it = init.bb->begin();
		Model m(init);
		int len = T.sym("type.length", 64), es = T.sym("element.size", 64);
		uint64_t elem = m.obj("TypeBase"), arr = m.obj(c.unsized ? "TypeUnsizedArray" : "TypeArray"), ref = m.obj("TypeRef"), value = m.obj("ExprBase"), index = m.obj("ExprBase"), node = m.obj(c.node), rty = m.obj("TypeBase");
		m.put(elem, "TypeBase", "size", es);
		const char *an = c.unsized ? "TypeUnsizedArray" : "TypeArray";
		m.putK(arr, an, "typeID", nodeTag(an)); m.putK(arr, an, "subType", elem); if(!c.unsized) m.put(arr, an, "length", len);
		m.putK(ref, "TypeRef", "typeID", nodeTag("TypeRef")); m.putK(ref, "TypeRef", "subType", arr);
		m.putK(value, "ExprBase", "type", c.unsized ? arr : ref); m.putK(value, "ExprBase", "source", 0);
		m.putK(node, c.node, "value", value); m.putK(node, c.node, "source", 0); m.putK(node, c.node, "type", rty);
		if(cast) m.putK(node, c.node, "category", enumVal("ExprTypeCastCategory", "EXPR_CAST_ARRAY_PTR_TO_UNSIZED")); else m.putK(node, c.node, "index", index);
		for(auto &A : F->args()) P.fixed[&A] = A.getArgNo() == 2 ? T.K(node, 64) : T.sym("build" + std::to_string(A.getArgNo()));
		if(!m.missing.empty()) { R.brk("expression tree layout: " + m.missing[0]); return; }
		try { P.run(init); }
		catch(Undecided &u) { R.stat(std::string("undecided:") + c.fn + ": " + u.why); R.brk(std::string(c.fn) + " could not be evaluated for " + c.what + ": " + u.why); continue; }
		R.stat("build_cases");
		uint64_t v = compiled[T.K(value, 64)], ix = compiled[T.K(index, 64)];
		for(auto &s : P.done)
		{
			const St::Event *made = nullptr; int ret = -1; int n = 0;
			for(auto &e : s.events) { if(e.name == "CreateInstruction" || e.name == "CreateConstruct") made = &e, n++; if(e.name == "return") ret = e.a[0]; }
			if(ret < 0) continue; // stopped with an error
			R.stat("build_paths");
			Model q(s);
			auto isConst = [&](int t, int want) { Ty ty; int x; uint64_t o = kOf(t); return o != ~0ull && tree.constantValue(q, o, ty, x) && ty == I && x == T.trunc(want, 32); };
			std::string d;
			if(n != 1) d = std::to_string(n) + " operations are made" + cs(s.conds);
			else
			{
				auto &a = made->a; size_t b = cast ? 4 : 5;
				if(cast)
				{
					if(made->name != "CreateConstruct" || a.size() < b + 2) d = "not an array value is made";
					else if(kOf(a[b]) != v) d = "the array value does not point to the array";
					else if(!isConst(a[b + 1], len)) d = "the length of the array value is not the length of the array type";
				}
				else if(made->name != "CreateInstruction" || a.size() < b + 3) d = "not an index operation is made";
				else if((int64_t)kOf(T.trunc(a[4], 32)) != tree.cmd[c.unsized ? "INDEX_UNSIZED" : "INDEX"]) d = "the operation is " + tree.cmdN[(int64_t)kOf(T.trunc(a[4], 32))] + ", which does not check the index";
				else
				{
					size_t o = b;
					if(!c.unsized && !isConst(a[o++], len)) d = "the length operand is not the length of the array type";
					else if(!isConst(a[o], es)) d = "the element size operand is not the size of the element type";
					else if(a.size() < o + 3 || kOf(a[o + 1]) != v || kOf(a[o + 2]) != ix) d = "array and index operands are not those of the expression";
				}
			}
			if(!d.empty()) R.add("INDEX-BUILD", made ? made->at : headOf(F), c.fn, std::string("for ") + c.what + ": " + d, std::string(c.fn) + (c.unsized ? "#value" : "") + "#" + d.substr(0, 40));
			else R.sample(std::string(c.fn) + ": " + c.what + " takes length and element size from the type");
		}
		if(P.done.empty()) R.brk(std::string(c.fn) + " has no path for " + c.what);
	}
}
// the expression evaluator: element addresses are formed after comparing the index with the length
uint64_t fieldOff(const char *rec, const char *f) { uint64_t o = 0, z; return member(recordOf(rec), f, o, z) ? o : ~0ull; }
void expressionEvaluator()
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { return fileOf(C).compare(0, 5, "NULLC") == 0 && (instrCount(C) < 25 || sname(C).find("TryTakeLong") != std::string::npos); };
	P.maxDepth = 3;
	for(Function *F : definedFns())
	{
		if(fileOf(F) != "NULLC/ExpressionEval.cpp") continue;
		bool any = false;
		for(auto &I : instructions(F)) if(auto *B = dyn_cast<BinaryOperator>(&I)) if(B->getOpcode() == Instruction::Mul && !isa<Constant>(B->getOperand(1))) any = true;
		if(!any) continue;
		normalise(F, &P, true);
		DominatorTree DT(*F);
		for(auto &I : instructions(F))
		{
			auto *G = dyn_cast<GetElementPtrInst>(&I);
			if(!G || G->getNumIndices() != 1 || !G->getSourceElementType()->isIntegerTy(8)) continue;
			auto *Mu = dyn_cast<BinaryOperator>(uncast(G->getOperand(1)));
			if(!Mu || (Mu->getOpcode() != Instruction::Mul && Mu->getOpcode() != Instruction::Shl)) continue;
			// base: the address a pointer literal holds
			if(!isa<LoadInst>(G->getPointerOperand())) continue;
			R.stat("expression_element_addresses");
			auto conds = conditionsAt(&I, DT);
			bool ok = false;
			for(int k = 0; k < 2 && !ok; k++)
			{
				const Value *x = Mu->getOperand(k);
				if(isa<Constant>(x)) continue;
				bool lower = false, upper = false;
				if(auto *PN = dyn_cast<PHINode>(uncast(x))) { bool all = true; for(auto &v : PN->incoming_values()) { auto *K = dyn_cast<ConstantInt>(v.get()); auto *A = dyn_cast<BinaryOperator>(v.get()); if(!(K && !K->isNegative()) && !(A && A->getOpcode() == Instruction::Add && A->getOperand(0) == PN && isa<ConstantInt>(A->getOperand(1)) && !cast<ConstantInt>(A->getOperand(1))->isNegative())) all = false; } lower = all; }
				for(auto c : conds)
				{
					if(!sameValue(c.a, x, true)) { if(!sameValue(c.b, x, true)) continue; std::swap(c.a, c.b); c.p = CmpInst::getSwappedPredicate(c.p); }
					auto *K = dyn_cast<ConstantInt>(uncast(c.b));
					bool len = isa<LoadInst>(uncast(c.b)) && !sameValue(c.b, x, true);
					// an unsigned view of the index: compared unsigned, or zero extended from 32 bits
					bool uns = CmpInst::isUnsigned(c.p); { const Value *v = c.a; while(auto *C = dyn_cast<CastInst>(v)) { if(isa<ZExtInst>(C)) uns = true; v = C->getOperand(0); } }
					if(len && (c.p == CmpInst::ICMP_ULT || c.p == CmpInst::ICMP_SLT)) { upper = true; if(uns) lower = true; }
					if(K && c.p == CmpInst::ICMP_SGE && K->getSExtValue() >= 0) lower = true;
					if(K && c.p == CmpInst::ICMP_SGT && K->getSExtValue() >= -1) lower = true;
				}
				if(isa<CallBase>(uncast(x))) lower = true; // numbers of types are not negative
				if(upper && lower) ok = true;
			}
			R.sample(locOf(&I) + " in " + scopeName(&I));
			if(!ok) R.add("INDEX-EXPR", &I, scopeName(&I), "the address of an element is formed without comparing the index with zero and the length of the array", scopeName(&I) + "#" + std::to_string(R.stats["expression_element_addresses"]));
		}
	}
	if(R.stats["expression_element_addresses"] < 3) R.brk("only " + std::to_string(R.stats["expression_element_addresses"]) + " element addresses found in the expression evaluator");
}
}
RULE(index)
{
	Tree tree;
	if(!tree.ok()) { R.brk("instruction tree types not found"); return; }
	std::string part = args.size() ? args[0] : "";
	if(part.empty() || part == "fold") folding(tree);
	if(part.empty() || part == "eval") treeEvaluator(tree);
	if(part.empty() || part == "lower") lowering(tree);
	if(part.empty() || part == "build") building(tree);
	if(part.empty() || part == "expr") expressionEvaluator();
}
