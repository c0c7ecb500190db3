// C28: what the compiler computes for operators on constants is what the operator means.
#include "tree.h"
namespace {
// the meaning of an instruction tree operation; -1 when it has none on this type
int meaning(const std::string &op, Ty t, int a, int b)
{
	int w = width(t);
	auto two = [&](int (*f)(int, int, int), int fop) { return t == D ? T.bin(fop, a, b, 64) : f(a, b, w); };
	if(op == "ADD") return t == D ? T.bin(T_FADD, a, b, 64) : T.add(a, b, w);
	if(op == "SUB") return t == D ? T.bin(T_FSUB, a, b, 64) : T.sub(a, b, w);
	if(op == "MUL") return t == D ? T.bin(T_FMUL, a, b, 64) : T.mul(a, b, w);
	if(op == "DIV") return t == D ? T.bin(T_FDIV, a, b, 64) : T.bin(T_SDIV, a, b, w);
	if(op == "MOD") return t == D ? T.call("fmod", { a, b }, 64) : T.bin(T_SREM, a, b, w);
	if(op == "POW") return t == D ? T.call("pow", { a, b }, 64) : T.call(t == I ? "ipow" : "lpow", { a, b }, w);
	if(op == "LESS") return t == D ? T.bin(T_FLT, a, b, 1) : T.slt(a, b, w);
	if(op == "GREATER") return t == D ? T.bin(T_FLT, b, a, 1) : T.slt(b, a, w);
	if(op == "LESS_EQUAL") return t == D ? T.bin(T_FLE, a, b, 1) : T.notc(T.slt(b, a, w));
	if(op == "GREATER_EQUAL") return t == D ? T.bin(T_FLE, b, a, 1) : T.notc(T.slt(a, b, w));
	if(op == "EQUAL") return t == D ? T.bin(T_FEQ, a, b, 1) : T.eq(a, b, w);
	if(op == "NOT_EQUAL") return T.notc(t == D ? T.bin(T_FEQ, a, b, 1) : T.eq(a, b, w));
	if(op == "NEG") return t == D ? T.un(T_FNEG, a, 64) : T.sub(T.K(0, w), a, w);
	if(op == "DOUBLE_TO_INT") return t == D ? T.un(T_FPTOSI, a, 32) : -1;
	if(op == "DOUBLE_TO_LONG") return t == D ? T.un(T_FPTOSI, a, 64) : -1;
	if(op == "DOUBLE_TO_FLOAT") return t == D ? T.un(T_FPTRUNC, a, 32) : -1;
	if(op == "INT_TO_DOUBLE") return t == I ? T.un(T_SITOFP, a, 64) : -1;
	if(op == "LONG_TO_DOUBLE") return t == L ? T.un(T_SITOFP, a, 64) : -1;
	if(op == "INT_TO_LONG") return t == I ? T.sext(a, 32, 64) : -1;
	if(op == "LONG_TO_INT") return t == L ? T.trunc(a, 32) : -1;
	if(op == "LOAD_IMMEDIATE") return a;
	if(t == D) return -1;
	if(op == "SHL") return T.shl(a, b, w);
	if(op == "SHR") return T.ashr(a, b, w);
	if(op == "BIT_AND") return T.andT(a, b, w);
	if(op == "BIT_OR") return T.orT(a, b, w);
	if(op == "BIT_XOR") return T.xorT(a, b, w);
	if(op == "BIT_NOT") return T.xorT(a, T.K(~0ull, w), w);
	if(op == "LOG_NOT") return T.eq(a, T.K(0, w), w);
	return -1;
}
bool unary(const std::string &op) { return op == "NEG" || op == "BIT_NOT" || op == "LOG_NOT" || op.find("_TO_") != std::string::npos || op == "LOAD_IMMEDIATE"; }
// type of the result given the type of the operands
Ty resultOf(const std::string &op, Ty t)
{
	if(op == "LESS" || op == "GREATER" || op == "LESS_EQUAL" || op == "GREATER_EQUAL" || op == "EQUAL" || op == "NOT_EQUAL" || op == "LOG_NOT") return I;
	if(op == "DOUBLE_TO_INT" || op == "LONG_TO_INT" || op == "DOUBLE_TO_FLOAT") return I;
	if(op == "DOUBLE_TO_LONG" || op == "INT_TO_LONG") return L;
	if(op == "INT_TO_DOUBLE" || op == "LONG_TO_DOUBLE") return D;
	return t;
}
const std::vector<std::string> ops = { "ADD", "SUB", "MUL", "DIV", "MOD", "POW", "LESS", "GREATER", "LESS_EQUAL", "GREATER_EQUAL", "EQUAL", "NOT_EQUAL", "SHL", "SHR", "BIT_AND", "BIT_OR", "BIT_XOR", "NEG", "BIT_NOT", "LOG_NOT",
	"DOUBLE_TO_INT", "DOUBLE_TO_LONG", "DOUBLE_TO_FLOAT", "INT_TO_DOUBLE", "LONG_TO_DOUBLE", "INT_TO_LONG", "LONG_TO_INT", "LOAD_IMMEDIATE" };
// facts of IEEE arithmetic used to compare terms
int fsimp(int t)
{
	Term x = T[t];
	for(auto &a : x.a) a = fsimp(a);
	if(x.a != T[t].a) t = T.mk(x);
	uint64_t v;
	const uint64_t one = 0x3ff0000000000000ull, mzero = 0x8000000000000000ull;
	if(x.op == T_FMUL) { for(int i = 0; i < 2; i++) if(T.isK(x.a[i], &v) && v == one) return x.a[1 - i]; }
	if(x.op == T_FDIV && T.isK(x.a[1], &v) && v == one) return x.a[0];
	if((x.op == T_EQ || x.op == T_SLT) && x.a.size() == 2)
	{
		auto narrow = [&](int y) { uint64_t k; return T[y].op == T_SEXT ? T[T[y].a[0]].w == 32 ? T[y].a[0] : -1 : T.isK(y, &k) && (int64_t)k == (int32_t)k ? T.K(k, 32) : -1; };
		int p = narrow(x.a[0]), q = narrow(x.a[1]);
		if(p >= 0 && q >= 0 && (T[x.a[0]].op == T_SEXT || T[x.a[1]].op == T_SEXT)) return x.op == T_EQ ? T.eq(p, q, 32) : T.slt(p, q, 32);
	}
	if(x.op == T_SITOFP && T[x.a[0]].op == T_SEXT) return T.un(T_SITOFP, T[x.a[0]].a[0], x.w);
	if(x.op == T_FADD) { for(int i = 0; i < 2; i++) if(T.isK(x.a[i], &v) && v == mzero) return x.a[1 - i]; }
	if(x.op == T_FSUB) { if(T.isK(x.a[1], &v) && v == 0) return x.a[0]; if(T.isK(x.a[0], &v) && v == mzero) return T.un(T_FNEG, x.a[1], 64); }
	return t;
}
// all substitutions under which the path's equalities hold
std::vector<std::map<int, int>> equalities(const std::vector<Cond> &conds)
{
	std::vector<std::map<int, int>> r(1);
	for(auto &c : conds)
	{
		if(!c.pos) continue;
		const Term t = T[c.c];
		uint64_t v;
		if(t.op == T_EQ) { int k = T.isK(t.a[1]) ? t.a[1] : T.isK(t.a[0]) ? t.a[0] : -1; int x = k == t.a[1] ? t.a[0] : t.a[1]; if(k >= 0) for(auto &m : r) m[x] = k; }
		if(t.op == T_FEQ) for(int i = 0; i < 2; i++) if(T.isK(t.a[i], &v))
		{
			int x = t.a[1 - i];
			std::vector<std::map<int, int>> n;
			for(auto m : r) { m[x] = t.a[i]; n.push_back(m); if((v << 1) == 0) { m[x] = T.K(v ^ 0x8000000000000000ull, 64); n.push_back(m); } }
			r = n; break;
		}
	}
	return r;
}
int rebuilt(int t, std::map<int, int> sub) { for(int i = 0; i < 4; i++) { std::map<int, int> memo; int n = T.rebuild(t, sub, memo); if(n == t) break; t = n; } return t; }

int aval(Ty t, const char *n) { return T.sym(std::string(n) + tyName[t][0], width(t)); }
// the folding of an operation with constant operands
void constantFolding(Tree &tree, const std::string &only)
{
	Function *F = nullptr;
	for(auto *f : findFns("RunConstantPropagation")) F = f;
	if(!F) { R.brk("anchor RunConstantPropagation not found"); return; }
	prepare(F);
	for(auto &op : ops) for(Ty t : { I, L, D })
	{
		if(!only.empty() && only != op) continue;
		int a = aval(t, "a"), b = aval(t, "b");
		int want = meaning(op, t, a, b);
		if(want < 0) continue;
		if(!tree.cmd.count(op)) { R.brk("operation " + op + " not found"); continue; }
		Ty rt = resultOf(op, t);
		Pass P(F, { "ReplaceValueUsersWith", "ChangeInstructionTo", "ReplaceValue" }, "NULLC/InstructionTreeVm.cpp");
		St init; init.mem = tree.globals; init.bb = &F->getEntryBlock(); init.it = init.bb->begin();
		Model m(init);
		std::vector<uint64_t> args{ tree.constant(m, t, a) };
		if(!unary(op)) args.push_back(tree.constant(m, t, b));
		uint64_t inst = tree.inst(m, rt, tree.cmd[op], args);
		for(auto &A : F->args()) P.fixed[&A] = A.getArgNo() == 2 ? T.K(inst, 64) : A.getArgNo() == 3 ? T.K(0, 1) : T.sym("ctxarg" + std::to_string(A.getArgNo()));
		if(!m.missing.empty()) { R.brk("instruction tree layout: " + m.missing[0]); return; }
		try { P.run(init); }
		catch(Undecided &u) { R.stat("undecided:fold " + op + " " + tyName[t] + ": " + u.why); continue; }
		R.stat("folding_cases");
		for(auto &s : P.done) for(auto &e : s.events)
		{
			if(e.name != "ReplaceValueUsersWith") continue;
			R.stat("folding_paths");
			St tmp = s; Model r(tmp);
			Ty gt; int gv;
			uint64_t by = e.a.size() > 2 ? kOf(e.a[2]) : ~0ull;
			std::string d;
			if(kOf(e.a[1]) != inst) continue;
			if(getenv("NVDBG")) { fprintf(stderr, "%s by %s\n", op.c_str(), T.str(e.a[2]).c_str()); for(auto &p : s.mem) if(T.isK(p.first) && kOf(p.first) >= by) fprintf(stderr, "  %s: %d %s\n", T.str(p.first).c_str(), p.second.first, T.str(p.second.second).c_str()); }
			if(by == args[0] && op == "LOAD_IMMEDIATE") continue;
			if(!tree.constantValue(r, by, gt, gv)) d = "something that is not a constant";
			else if(gt != rt) d = std::string("a constant of type ") + tyName[gt];
			else
				for(auto &sub : equalities(s.conds)) { int x = T.trunc(fsimp(rebuilt(gv, sub)), 64), y = fsimp(rebuilt(want, sub)); if(x != y) d = T.str(x); }
			if(!d.empty()) R.add("FOLD", e.at, "RunConstantPropagation", "operation " + op + " on " + tyName[t] + " constants a, b is folded to " + d + ", its value is " + T.str(want) + (s.conds.empty() ? "" : " (when " + condStr(s.conds) + ")"), "fold#" + op + "#" + tyName[t]);
			else if(R.stats["folding_paths"] % 9 == 0) R.sample("folding of " + op + " on " + tyName[t] + " gives " + T.str(gv));
		}
	}
}

// ---------------------------------------------------------------- evaluation of expressions at compile time
struct ExprWorld
{
	int64_t kInt, kReal, kBool, kChar; std::map<std::string, int64_t> bop, uop;
	std::map<std::string, uint64_t> types; uint64_t ectx = 0, ctx = 0;
	ExprWorld()
	{
		kInt = nodeTag("ExprIntegerLiteral"); kReal = nodeTag("ExprRationalLiteral"); kBool = nodeTag("ExprBoolLiteral"); kChar = nodeTag("ExprCharacterLiteral");
		for(auto &p : enumOf("SynBinaryOpType")) bop[p.first.substr(14)] = p.second;
		for(auto &p : enumOf("SynUnaryOpType")) uop[p.first.substr(13)] = p.second;
	}
	bool ok() { return kInt >= 0 && kReal >= 0 && kBool >= 0 && bop.size() > 15 && uop.size() > 3; }
	void build(Model &m)
	{
		ctx = m.obj("ExpressionContext"); ectx = m.obj("ExpressionEvalContext");
		std::map<std::string, std::string> names = { { "typeVoid", "TypeVoid" }, { "typeBool", "TypeBool" }, { "typeChar", "TypeChar" }, { "typeShort", "TypeShort" }, { "typeInt", "TypeInt" }, { "typeLong", "TypeLong" }, { "typeFloat", "TypeFloat" }, { "typeDouble", "TypeDouble" }, { "typeTypeID", "TypeTypeID" }, { "typeAutoRef", "TypeAutoRef" } };
		int n = 0;
		for(auto &p : names)
		{
			types[p.first] = m.obj("TypeBase");
			int64_t tag = nodeTag(p.second);
			m.putK(types[p.first], "TypeBase", "typeID", tag >= 0 ? tag : 0x7f0000 + n++); // tags nothing asks for are distinct from all others
			m.putK(ctx, "ExpressionContext", p.first, types[p.first]);
		}
		m.putK(ectx, "ExpressionEvalContext", "ctx", ctx);
		m.putK(ectx, "ExpressionEvalContext", "instruction", 0);
		m.putK(ectx, "ExpressionEvalContext", "instructionsLimit", 1000);
		m.putK(ectx, "ExpressionEvalContext", "expressionDepth", 0); m.putK(ectx, "ExpressionEvalContext", "expressionDepthLimit", 1000);
		m.putK(ectx, "ExpressionEvalContext", "stackFrames.count", 0);
		m.putK(ectx, "ExpressionEvalContext", "errorBuf", 0);
	}
	uint64_t typeOf(const std::string &t) { return types[t]; }
	uint64_t typeOf(Ty t) { return types[t == I ? "typeInt" : t == L ? "typeLong" : "typeDouble"]; }
	uint64_t literal(Model &m, Ty t, int v)
	{
		std::string rec = t == D ? "ExprRationalLiteral" : "ExprIntegerLiteral";
		uint64_t o = m.obj(rec);
		m.putK(o, rec, "typeID", t == D ? kReal : kInt);
		m.putK(o, rec, "type", typeOf(t)); m.putK(o, rec, "source", 0); m.putK(o, rec, "next", 0);
		m.put(o, rec, "value", t == I ? T.sext(v, 32, 64) : v);
		return o;
	}
	// literal object: its kind and value
	bool value(Model &m, uint64_t o, std::string &kind, uint64_t &type, int &v)
	{
		int64_t id = (int64_t)m.getK(o, "ExprIntegerLiteral", "typeID");
		std::string rec = id == kInt ? "ExprIntegerLiteral" : id == kReal ? "ExprRationalLiteral" : id == kBool ? "ExprBoolLiteral" : id == kChar && kChar >= 0 ? "ExprCharacterLiteral" : "";
		if(rec.empty()) return false;
		kind = rec.substr(4); type = m.getK(o, rec, "type"); v = m.get(o, rec, "value");
		return v >= 0;
	}
};
// a 64-bit value that is the sign extension of its low half
bool canonical32(int t)
{
	const Term &x = T[t]; uint64_t v;
	if(T.isK(t, &v)) return (int64_t)v == (int32_t)v;
	if(x.w < 32 || x.op == T_SEXT) return true;
	if(x.op == T_AND || x.op == T_OR || x.op == T_XOR) { for(int y : x.a) if(!canonical32(y)) return false; return true; }
	if(x.op == T_LIN && x.a.size() == 1 && x.c[0] == ~0ull && x.k == ~0ull) return canonical32(x.a[0]); // ~x
	return x.w == 1;
}
void checkLiteral(ExprWorld &W, St &s, const Instruction *at, const std::string &what, const std::string &fn, uint64_t res, Ty rt, bool isBool, int want, const std::string &key)
{
	Model r(s);
	std::string kind; uint64_t type; int v; std::string d;
	if(!W.value(r, res, kind, type, v)) d = "something that is not a literal";
	else if((kind == "BoolLiteral") != isBool && !(isBool && kind == "IntegerLiteral")) d = "a value of another kind (" + kind + ")";
	else if(kind == "RationalLiteral" ? rt != D : rt == D) d = "a value of another kind (" + kind + ")";
	else if(!isBool && type != W.typeOf(rt)) d = "a value of another type";
	else
		for(auto &sub : equalities(s.conds))
		{
			int x = fsimp(rebuilt(v, sub)), y = fsimp(rebuilt(want, sub));
			if(rt == I && !isBool) { if(T.trunc(x, 32) != y) d = T.str(x); else if(!canonical32(x)) d = T.str(x) + " (not a value of type int)"; }
			else if(isBool) { if(T.trunc(x, 1) != T.trunc(y, 1) && x != y) d = T.str(x); }
			else if(x != y) d = T.str(x);
		}
	if(!d.empty()) R.add("FOLD", at, fn, what + " is evaluated to " + d + ", its value is " + T.str(want) + (s.conds.empty() ? "" : " (when " + condStr(s.conds) + ")"), key);
	else if(R.stats["evaluation_paths"] % 11 == 0) R.sample(what + " gives " + T.str(v));
}
void expressionFolding(ExprWorld &W, const std::string &only)
{
	const std::map<std::string, std::string> bin = { { "ADD", "ADD" }, { "SUB", "SUB" }, { "MUL", "MUL" }, { "DIV", "DIV" }, { "MOD", "MOD" }, { "SHL", "SHL" }, { "SHR", "SHR" }, { "LESS", "LESS" }, { "LESS_EQUAL", "LESS_EQUAL" }, { "GREATER", "GREATER" }, { "GREATER_EQUAL", "GREATER_EQUAL" }, { "EQUAL", "EQUAL" }, { "NOT_EQUAL", "NOT_EQUAL" }, { "BIT_AND", "BIT_AND" }, { "BIT_OR", "BIT_OR" }, { "BIT_XOR", "BIT_XOR" } };
	Function *F = nullptr, *U = nullptr, *K = nullptr;
	for(auto *f : definedFns()) if(fileOf(f) == "NULLC/ExpressionEval.cpp") { std::string n = sname(f); if(n == "CreateBinaryOp") F = f; if(n == "EvaluateUnaryOp") U = f; if(n == "EvaluateCast") K = f; }
	if(!F || !U || !K) { R.brk("anchor of the expression evaluator not found"); return; }
	auto run = [&](Function *C, const std::string &name, St &init, std::map<int, int> fixedArgs, std::vector<St> &out, std::map<size_t, int> &rets) {
		prepare(C);
		Pass P(C, { "Report", "ReportCritical" }, "NULLC/ExpressionEval.cpp");
		init.bb = &C->getEntryBlock(); init.it = init.bb->begin();
		for(auto &A : C->args()) P.fixed[&A] = fixedArgs.count(A.getArgNo()) ? fixedArgs[A.getArgNo()] : T.K(0, 64);
		P.onRet = [&](St &s, const ReturnInst *RI) { St::Event e{ "return", { RI->getReturnValue() ? P.of(s, RI->getReturnValue()) : T.K(0, 64) }, RI }; s.events.push_back(e); };
		try { P.run(init); }
		catch(Undecided &u) { R.stat("undecided:" + name + ": " + u.why); return false; }
		out = P.done;
		R.stat("evaluation_cases");
		return true;
	};
	std::map<size_t, int> rets;
	for(auto &p : bin) for(Ty t : { I, L, D })
	{
		if(!only.empty() && only != p.first) continue;
		int a = aval(t, "a"), b = aval(t, "b"), want = meaning(p.second, t, a, b);
		if(want < 0 || !W.bop.count(p.first)) continue;
		Ty rt = resultOf(p.second, t);
		bool isBool = rt == I && T[want].w == 1;
		St init; Model m(init);
		W.build(m);
		uint64_t l = W.literal(m, t, a), r = W.literal(m, t, b);
		if(!m.missing.empty()) { R.brk("expression layout: " + m.missing[0]); return; }
		std::vector<St> out;
		std::string what = "compile-time " + p.first + " of " + tyName[t] + " a, b";
		if(!run(F, what, init, { { 0, T.K(W.ectx, 64) }, { 2, T.K(l, 64) }, { 3, T.K(r, 64) }, { 4, T.K(W.bop[p.first], 32) } }, out, rets)) continue;
		bool any = false;
		for(auto &s : out)
		{
			bool reported = false; int ret = -1; const Instruction *at = nullptr;
			for(auto &e : s.events) { if(e.name == "return") { ret = e.a[0]; at = e.at; } else reported = true; }
			if(getenv("NVDBG")) { fprintf(stderr, "%s: ret %s conds %s\n", what.c_str(), ret < 0 ? "-" : T.str(ret).c_str(), condStr(s.conds).c_str()); for(auto &e : s.events) fprintf(stderr, "   %s\n", e.name.c_str()); }
			if(reported || ret < 0) { if(p.second == "ADD" && reported) R.add("FOLD", &*F->getEntryBlock().begin(), sname(F), what + " is reported as an error", "eval#" + p.first + "#" + tyName[t]); continue; }
			R.stat("evaluation_paths"); any = true;
			checkLiteral(W, s, at, what, sname(F), kOf(ret), rt, isBool, want, "eval#" + p.first + "#" + tyName[t]);
		}
		if(!any) R.stat("undecided:" + what + ": no result");
	}
	const std::map<std::string, std::string> un = { { "NEGATE", "NEG" }, { "BIT_NOT", "BIT_NOT" }, { "LOGICAL_NOT", "LOG_NOT" }, { "PLUS", "LOAD_IMMEDIATE" } };
	for(auto &p : un) for(Ty t : { I, L, D })
	{
		if(!only.empty() && only != p.first) continue;
		int a = aval(t, "a"), want = meaning(p.second, t, a, a);
		if(want < 0 || !W.uop.count(p.first)) continue;
		bool isBool = p.second == "LOG_NOT"; // the literal of a logical negation is of the type of the expression
		Ty rt = isBool ? I : t;
		St init; Model m(init);
		W.build(m);
		uint64_t x = W.literal(m, t, a), o = m.obj("ExprUnaryOp");
		m.putK(o, "ExprUnaryOp", "type", isBool ? W.typeOf("typeBool") : W.typeOf(rt)); m.putK(o, "ExprUnaryOp", "source", 0); m.putK(o, "ExprUnaryOp", "value", x); m.putK(o, "ExprUnaryOp", "op", W.uop[p.first]);
		if(!m.missing.empty()) { R.brk("expression layout: " + m.missing[0]); return; }
		std::vector<St> out;
		std::string what = "compile-time " + p.first + " of " + tyName[t] + " a";
		if(!run(U, what, init, { { 0, T.K(W.ectx, 64) }, { 1, T.K(o, 64) } }, out, rets)) continue;
		for(auto &s : out)
		{
			bool reported = false; int ret = -1; const Instruction *at = nullptr;
			for(auto &e : s.events) { if(e.name == "return") { ret = e.a[0]; at = e.at; } else reported = true; }
			if(reported || ret < 0 || kOf(ret) == 0) { R.add("FOLD", &*U->getEntryBlock().begin(), sname(U), what + " is not evaluated", "eval#" + p.first + "#" + tyName[t]); continue; }
			R.stat("evaluation_paths");
			checkLiteral(W, s, at, what, sname(U), kOf(ret), rt, isBool, want, "eval#" + p.first + "#" + tyName[t]);
		}
	}
	for(Ty t : { I, L, D }) for(Ty to : { I, L, D })
	{
		if(!only.empty() && only != "CAST") continue;
		int a = aval(t, "a");
		int want = t == to ? a : meaning(std::string(t == I ? "INT" : t == L ? "LONG" : "DOUBLE") + "_TO_" + (to == I ? "INT" : to == L ? "LONG" : "DOUBLE"), t, a, a);
		St init; Model m(init);
		W.build(m);
		uint64_t x = W.literal(m, t, a), o = m.obj("ExprTypeCast");
		m.putK(o, "ExprTypeCast", "type", W.typeOf(to)); m.putK(o, "ExprTypeCast", "source", 0); m.putK(o, "ExprTypeCast", "value", x); m.putK(o, "ExprTypeCast", "category", enumVal("ExprTypeCastCategory", "EXPR_CAST_NUMERICAL"));
		if(!m.missing.empty()) { R.brk("expression layout: " + m.missing[0]); return; }
		std::vector<St> out;
		std::string what = std::string("compile-time conversion of ") + tyName[t] + " a to " + tyName[to];
		if(!run(K, what, init, { { 0, T.K(W.ectx, 64) }, { 1, T.K(o, 64) } }, out, rets)) continue;
		for(auto &s : out)
		{
			bool reported = false; int ret = -1; const Instruction *at = nullptr;
			for(auto &e : s.events) { if(e.name == "return") { ret = e.a[0]; at = e.at; } else reported = true; }
			if(reported || ret < 0 || kOf(ret) == 0) { R.add("FOLD", &*K->getEntryBlock().begin(), sname(K), what + " is not evaluated", "eval#CAST#" + std::string(tyName[t])); continue; }
			R.stat("evaluation_paths");
			checkLiteral(W, s, at, what, sname(K), kOf(ret), to, false, want, std::string("eval#CAST#") + tyName[t] + "#" + tyName[to]);
		}
	}
}
}
RULE(fold)
{
	Tree tree;
	if(getenv("NVDBG")) fprintf(stderr, "globals %zu cmd %zu const %ld inst %ld\n", tree.globals.size(), tree.cmd.size(), (long)tree.kConst, (long)tree.kInst);
	if(!tree.ok()) { R.brk("instruction tree types not found"); return; }
	std::string part = args.size() ? args[0] : "", only = args.size() > 1 ? args[1] : "";
	if(part.empty() || part == "prop") constantFolding(tree, only);
	if(part.empty() || part == "expr")
	{
		ExprWorld W;
		if(!W.ok()) { R.brk("expression node types not found"); return; }
		expressionFolding(W, only);
	}
}
