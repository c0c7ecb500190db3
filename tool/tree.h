// Models of the instruction tree and evaluation of the passes over it.
#pragma once
#include "model.h"
namespace {
enum Ty { I, L, D };
const char *tyName[] = { "int", "long", "double" };
int width(Ty t) { return t == I ? 32 : 64; }
// ---------------------------------------------------------------- the instruction tree
struct Tree
{
	std::map<int, std::pair<int, int>> globals;
	std::map<std::string, int64_t> cmd; std::map<int64_t, std::string> cmdN;
	int64_t kConst, kInst, kFunc, kBlock;
	Tree()
	{
		globalInits("NULLC/InstructionTreeVm.cpp", globals, [](const std::string &n) { return n.compare(0, 8, "VmType::") == 0; });
		for(auto &p : enumOf("VmInstructionType")) { cmd[p.first.substr(8)] = p.second; cmdN[p.second] = p.first.substr(8); }
		kConst = nodeTag("VmConstant"); kInst = nodeTag("VmInstruction");
	}
	bool ok() { return globals.size() >= 6 && cmd.size() > 60 && kConst >= 0 && kInst >= 0; }
	void setType(Model &m, uint64_t o, const std::string &rec, const std::string &f, Ty t)
	{
		m.putK(o, rec, f + ".type", enumVal("VmValueType", t == I ? "VM_TYPE_INT" : t == L ? "VM_TYPE_LONG" : "VM_TYPE_DOUBLE"));
		m.putK(o, rec, f + ".size", t == I ? 4 : 8);
		m.putK(o, rec, f + ".structType", 0);
	}
	uint64_t constant(Model &m, Ty t, int value)
	{
		uint64_t o = m.obj("VmConstant");
		m.putK(o, "VmConstant", "typeID", kConst);
		setType(m, o, "VmConstant", "type", t);
		m.putK(o, "VmConstant", "iValue", 0); m.putK(o, "VmConstant", "lValue", 0); m.putK(o, "VmConstant", "dValue", 0);
		m.put(o, "VmConstant", t == I ? "iValue" : t == L ? "lValue" : "dValue", value);
		for(const char *f : { "sValue", "bValue", "fValue", "container" }) m.putK(o, "VmConstant", f, 0);
		m.putK(o, "VmConstant", "isFloat", 0); m.putK(o, "VmConstant", "isReference", 0);
		return o;
	}
	uint64_t inst(Model &m, Ty t, int64_t c, const std::vector<uint64_t> &args)
	{
		uint64_t o = m.obj("VmInstruction");
		m.putK(o, "VmInstruction", "typeID", kInst);
		setType(m, o, "VmInstruction", "type", t);
		m.putK(o, "VmInstruction", "cmd", c);
		uint64_t d = m.alloc(8 * args.size() + 8);
		m.putK(o, "VmInstruction", "arguments.data", d);
		m.putK(o, "VmInstruction", "arguments.count", args.size());
		for(size_t i = 0; i < args.size(); i++) m.s.mem[T.K(d + 8 * i, 64)] = { 8, T.K(args[i], 64) };
		m.putK(o, "VmInstruction", "users.count", 0); m.putK(o, "VmInstruction", "users.data", 0);
		return o;
	}
	// value of a constant object: kind and term
	bool constantValue(Model &m, uint64_t o, Ty &t, int &v)
	{
		if((int64_t)m.getK(o, "VmConstant", "typeID") != kConst) return false;
		uint64_t k = m.getK(o, "VmConstant", "type.type");
		if((int64_t)k == enumVal("VmValueType", "VM_TYPE_INT")) t = I; else if((int64_t)k == enumVal("VmValueType", "VM_TYPE_LONG")) t = L; else if((int64_t)k == enumVal("VmValueType", "VM_TYPE_DOUBLE")) t = D; else return false;
		v = m.get(o, "VmConstant", t == I ? "iValue" : t == L ? "lValue" : "dValue");
		return v >= 0;
	}
};
std::string condStr(const std::vector<Cond> &c) { std::string r; for(size_t i = 0; i < c.size(); i++) r += (i ? " and " : "") + std::string(c[i].pos ? "" : "!") + T.str(c[i].c); return r; }
struct Pass : Eval
{
	std::set<std::string> sinks;
	Pass(Function *F, const std::set<std::string> &sinks, const std::string &file) : Eval(F), sinks(sinks)
	{
		heapMode = true; loopsSummarised = false;
		enterCall = [=](St&, Function *C) { prepare(C); return C != F; };
		onCall = [=](St &s, const CallBase *CB, std::vector<St>&) {
			Function *C = calleeOf(CB);
			if(!C)
			{
				if(CB->getType()->isPointerTy()) { s.env[CB] = T.K(s.heap, 64); s.heap += 1024; return true; }
				return false;
			}
			std::string n = sname(C);
			for(auto &k : this->sinks) if(n == k || (n.size() > k.size() + 2 && n.compare(n.size() - k.size() - 2, std::string::npos, "::" + k) == 0))
			{
				St::Event e{ k, {}, CB };
				for(auto &a : CB->args()) e.a.push_back(of(s, a.get()));
				s.events.push_back(e);
				if(!CB->getType()->isVoidTy()) s.env[CB] = T.K(s.heap, 64), s.heap += 64;
				return true;
			}
			return false;
		};
	}
};
uint64_t kOf(int t) { uint64_t v; return T.isK(t, &v) ? v : ~0ull; }
}
