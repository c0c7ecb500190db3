// C05: the interpreter handler and the machine code generator of every instruction request the same operation.
// Both are reduced to normal forms over a Herbrand term domain (see terms.h): partitioned by branch outcomes, no solver.
#include "eval.h"
namespace {
// ---------------------------------------------------------------- generator side
std::vector<std::string> paramTypes(const Function *F)
{
	std::string d = dname(F);
	size_t b = d.find('('), e = d.rfind(')');
	std::vector<std::string> r; std::string cur;
	if(b == std::string::npos) return r;
	for(size_t i = b + 1; i < e; i++) { if(d[i] == ',') { r.push_back(cur); cur.clear(); while(d[i + 1] == ' ') i++; } else cur += d[i]; }
	if(!cur.empty()) r.push_back(cur);
	return r;
}
int labelGlobalBit = 1 << 30;
void generator(Function *F, std::vector<St> &out, int fuseSet = -1)
{
	Eval E(F);
	E.loopsSummarised = false;
	privateSyms.insert(T.CTX); privateSyms.insert(T.VMSTATE);
	int freshBase = 1000;
	auto *ctxT = recordOf("CodeGenRegVmContext"); auto *genT = recordOf("CodeGenGenericContext");
	if(!ctxT || !genT) throw Undecided{ "context types not found" };
	St init;
	uint64_t genOff = 0;
	for(auto &f : fieldsOf(ctxT))
	{
		int a = T.add(T.CTX, T.K(f.offset, 64), 64);
		if(f.name == "ctx") genOff = f.offset;
		if(f.name == "exRegVmConstants") init.mem[a] = { 8, T.CONST };
		if(f.name == "vmState") init.mem[a] = { 8, T.VMSTATE };
	}
	bool sawLook = false;
	int OPS = T.sym("X86OP");
	auto *insT = recordOf("x86Instruction");
	if(!insT) throw Undecided{ "machine instruction type not found" };
	int ctxAddr = -1;
	for(auto &p : init.mem) (void)p;
	for(auto &f : fieldsOf(ctxT)) if(f.name == "ctx") ctxAddr = T.add(T.CTX, T.K(f.offset, 64), 64);
	for(auto &f : fieldsOf(genT))
	{
		int a = T.add(ctxAddr, T.K(f.offset, 64), 64);
		if(f.name == "x86LookBehind") { init.mem[a] = { 1, T.K(fuseSet >= 0, 8) }; sawLook = true; }
		if(f.name == "x86Op" && fuseSet >= 0) init.mem[a] = { 8, OPS };
	}
	if(!sawLook) throw Undecided{ "look behind flag not found" };
	if(fuseSet >= 0)
	{
		privateSyms.insert(OPS);
		int64_t cmp = -1, x = -1; for(auto &p : cmdName) { if(p.second == "o_cmp") cmp = p.first; if(p.second == "o_xor") x = p.first; }
		uint64_t size = insT->getSizeInBits() / 8;
		for(auto &f : fieldsOf(insT)) if(f.name == "name")
			for(int i = 0; i < 3; i++) init.mem[T.add(OPS, T.K(f.offset - i * size, 64), 64)] = { 4, T.K(i == 0 ? fuseSet : i == 1 ? cmp : x, 32) };
	}
	int n = 0;
	for(auto &A : F->args()) E.fixed[&A] = n++ == 0 ? T.CTX : T.ext(0, 64);
	std::vector<int> hostileFind, hostileGet;
	for(const char *r : { "rEAX", "rECX", "rEDX", "rEDI", "rESI" }) hostileFind.push_back(regId[r]);
	for(const char *r : { "rEAX", "rEDX", "rEDI", "rESI" }) hostileGet.push_back(regId[r]);
	std::vector<int> hostileXmm = { xmmId["rXMM0"], xmmId["rXMM1"] };
	int sites = 0;
	for(auto &I : instructions(F)) if(auto *CB = dyn_cast<CallBase>(&I)) if(Function *C = calleeOf(CB)) if(sname(C).find("RegAtMemory") != std::string::npos) sites++;
	if(sites > 6) { hostileFind.resize(1); hostileGet.resize(1); hostileXmm.resize(1); }
	auto regKey = [](bool xmm, int id) { return (xmm ? 100000 : 0) + id; };
	// registers the code generated so far has written: they no longer hold what an earlier instruction left there
	auto written = [&](const St &s, bool xmm, int id) {
		static const std::set<std::string> clobbers = { "rEAX", "rEDX", "rECX", "rEDI", "rESI" };
		for(auto &op : s.ops)
		{
			if(op.name == "bind") { if(op.o[0].v == id && (op.o[0].k == 'x') == xmm) return true; continue; }
			if(op.shape.compare(0, 7, "OP_REG_") == 0 && op.name != "o_cmp" && op.name != "o_cmp64" && op.name != "o_test" && op.name != "o_test64") { if(op.o[0].v == id && (op.o[0].k == 'x') == xmm) return true; continue; }
			if(op.name == "o_call" || op.name.compare(0, 5, "o_rep") == 0 || op.name == "o_idiv" || op.name == "o_idiv64" || op.name == "o_cdq" || op.name == "o_cqo")
			{
				if(op.name == "o_call") return true;
				if(!xmm) for(auto &p : regId) if(p.second == id && clobbers.count(p.first)) return true;
			}
		}
		return false;
	};
	auto opnds = [&](St &s, const CallBase *CB, Function *C, MOp &op) {
		auto types = paramTypes(C);
		if(sname(C).compare(0, 23, "CodeGenGenericContext::") == 0) types.insert(types.begin(), "this");
		uint64_t v;
		for(size_t i = 1; i < types.size() && i < CB->arg_size(); i++)
		{
			int t = E.of(s, CB->getArgOperand(i));
			if(types[i] == "x86Command") { if(!T.isK(t, &v)) throw Undecided{ "variable machine command" }; op.name = cmdName.count((int)v) ? cmdName[(int)v] : "?"; continue; }
			char k = types[i] == "x86Reg" ? 'r' : types[i] == "x86XmmReg" ? 'x' : types[i] == "x86Size" ? 's' : types[i] == "int" ? 'i' : types[i] == "unsigned long long" ? 'l' : 'n';
			if(k == 'r' || k == 'x' || k == 's') { if(!T.isK(t, &v)) throw Undecided{ "variable register operand" }; op.o.push_back({ k, (int)v }); }
			else op.o.push_back({ k, t });
		}
	};
	E.onCall = [&](St &s, const CallBase *CB, std::vector<St> &work) {
		Function *C = calleeOf(CB);
		if(!C) throw Undecided{ "indirect call in generator" };
		std::string nm = sname(C);
		auto setRes = [&](St &x, int v) { x.env[CB] = T.K(v, 32); };
		if(nm.compare(0, 5, "EMIT_") == 0)
		{
			if(nm == "EMIT_COMMENT" || nm == "EMIT_REG_READ" || nm == "EMIT_REG_KILL") return true;
			MOp op; op.shape = nm.substr(5); op.at = CB;
			if(nm == "EMIT_LABEL") { op.name = "label"; op.o.push_back({ 'n', E.of(s, CB->getArgOperand(1)) }); }
			else opnds(s, CB, C, op);
			if(op.name == "o_set_tracking") return true;
			s.ops.push_back(op);
			return true;
		}
		bool gm = nm.compare(0, 23, "CodeGenGenericContext::") == 0;
		std::string m = gm ? nm.substr(23) : nm;
		if(gm && (m == "FindRegAtMemory" || m == "FindXmmRegAtMemory"))
		{
			bool xmm = m == "FindXmmRegAtMemory";
			MOp op; op.name = "bind"; op.shape = xmm ? "BINDX" : "BIND"; op.at = CB;
			opnds(s, CB, C, op);
			std::vector<int> cand{ freshBase + (int)s.ops.size() * 4 };
			for(int r : xmm ? hostileXmm : hostileFind) if(!s.locks.count(regKey(xmm, r)) && !s.invalid.count(regKey(xmm, r)) && !written(s, xmm, r)) cand.push_back(r);
			for(int r : cand)
			{
				St x = s;
				setRes(x, r);
				MOp o2 = op; o2.o.insert(o2.o.begin(), { xmm ? 'x' : 'r', r });
				x.ops.push_back(o2);
				x.found.insert(regKey(xmm, r));
				work.push_back(x);
			}
			setRes(s, xmm ? xmmId["rXmmRegCount"] : regId["rRegCount"]);
			return true;
		}
		if(gm && (m == "GetReg" || m == "GetXmmReg"))
		{
			bool xmm = m == "GetXmmReg";
			std::set<int> cand;
			for(int k : s.found) if((k >= 100000) == xmm) cand.insert(xmm ? k - 100000 : k);
			for(int r : xmm ? hostileXmm : hostileGet) cand.insert(r);
			for(int r : cand)
			{
				if(s.locks.count(regKey(xmm, r)) || s.got.count(regKey(xmm, r))) continue;
				if(r == regId["rECX"] && !xmm) continue;
				St x = s; setRes(x, r); x.got.insert(regKey(xmm, r));
				work.push_back(x);
			}
			int r = freshBase + (int)s.ops.size() * 4 + 1;
			while(s.got.count(regKey(xmm, r))) r += 1000;
			setRes(s, r); s.got.insert(regKey(xmm, r));
			return true;
		}
		if(gm && (m == "LockReg" || m == "LockAndInvalidateReg" || m == "LockXmmReg"))
		{
			uint64_t v; if(!T.isK(E.of(s, CB->getArgOperand(1)), &v)) throw Undecided{ "variable lock" };
			int key = regKey(m == "LockXmmReg", (int)v);
			s.locks.insert(key);
			if(m == "LockAndInvalidateReg") s.invalid.insert(key);
			return true;
		}
		if(gm && (m == "IsRegLocked" || m == "IsXmmRegLocked"))
		{
			uint64_t v; if(!T.isK(E.of(s, CB->getArgOperand(1)), &v)) throw Undecided{ "variable lock" };
			s.env[CB] = T.K(s.locks.count(regKey(m == "IsXmmRegLocked", (int)v)), 1);
			return true;
		}
		if(gm && m == "UnlockRegisters") { s.locks.clear(); return true; }
		if(gm && m == "InvalidateDependand") { uint64_t v; if(T.isK(E.of(s, CB->getArgOperand(1)), &v)) s.invalid.insert(regKey(paramTypes(C).back() == "x86XmmReg", (int)v)); return true; }
		if(!CB->getType()->isVoidTy())
		{
			static int un; // an unknown answer (register liveness): both outcomes are explored
			s.env[CB] = T.sym("free" + std::to_string(un++), tw(CB->getType()));
		}
		return true;
	};
	init.bb = &F->getEntryBlock(); init.it = init.bb->begin();
	E.run(init);
	for(auto &s : E.done)
	{
		for(auto &p : s.mem)
		{
			const Term &t = T[p.second.second];
			if(E.baseIs(p.first, T.VMSTATE) && t.op == T_SYM && t.s.compare(0, 3, "fn:") == 0) { bool ok; int off = E.offsetFrom(p.first, T.VMSTATE, ok); if(ok) s.slots[off] = M->getFunction(t.s.substr(3)); }
		}
		out.push_back(s);
	}
}

// ---------------------------------------------------------------- machine operations
struct MSt { std::map<int, int> r, x; size_t pc = 0; int fa = -1, fb = -1, fw = 0; bool ftest = false; std::vector<Eff> eff; std::vector<int> stores; std::vector<Cond> conds; Outcome out; bool done = false; };
struct Machine
{
	const St &G; std::vector<MSt> done; const Instruction *last = nullptr; int flagA = -1, flagB = -1;
	Machine(const St &g) : G(g) {}
	[[noreturn]] void bad(const std::string &w) { throw Undecided{ "machine operation " + w }; }
	int reg(MSt &s, int r) { auto it = s.r.find(r); if(it != s.r.end()) return it->second; return s.r[r] = T.sym("reg" + std::to_string(r) + "?"); }
	int xmm(MSt &s, int r) { auto it = s.x.find(r); if(it != s.x.end()) return it->second; return s.x[r] = T.sym("xmm" + std::to_string(r) + "?"); }
	// memory operand starting at operand i
	int addr(MSt &s, const MOp &op, size_t i, size_t &next)
	{
		bool full = op.o.size() > i + 3 && op.o[i].k == 'r' && op.o[i + 1].k == 'i';
		if(full)
		{
			int a = op.o[i].v == regId["rNONE"] ? T.K(0, 64) : T.mul(reg(s, op.o[i].v), op.o[i + 1].v, 64);
			a = T.add(a, reg(s, op.o[i + 2].v), 64);
			next = i + 4;
			return T.add(a, T.sext(op.o[i + 3].v, 32, 64), 64);
		}
		next = i + 2;
		return T.add(reg(s, op.o[i].v), T.sext(op.o[i + 1].v, 32, 64), 64);
	}
	int bytes(int sz) { for(auto &p : sizeId) if(p.second == sz) { if(p.first == "sBYTE") return 1; if(p.first == "sWORD") return 2; if(p.first == "sDWORD") return 4; if(p.first == "sQWORD") return 8; } bad("size"); }
	int ld(MSt &s, int size, int a) { return T.load(size, a, s.stores); }
	bool inState(int a) { int d = T.sub(a, T.VMSTATE, 64); return T.isK(d); }
	void st(MSt &s, int size, int a, int v)
	{
		if(inState(a)) return;
		int t = T.store(size, a, v);
		s.stores.push_back(t);
		s.eff.push_back({ E_STORE, size, { T[t].a[0], T[t].a[1] }, "" });
	}
	int flagCond(MSt &s, const std::string &cc, bool &neg)
	{
		neg = false;
		if(s.fa < 0) bad("flags");
		int a = s.fa, b = s.fb, w = s.fw;
		if(s.ftest)
		{
			if(a != b) bad("test of two registers");
			if(cc == "e" || cc == "z") return T.eq(a, T.K(0, w), w);
			if(cc == "ne" || cc == "nz") return T.notc(T.eq(a, T.K(0, w), w));
			bad("flag " + cc);
		}
		if(cc == "e" || cc == "z") return T.eq(a, b, w);
		if(cc == "ne" || cc == "nz") return T.notc(T.eq(a, b, w));
		if(cc == "l") return T.slt(a, b, w);
		if(cc == "g") return T.slt(b, a, w);
		if(cc == "le") return T.notc(T.slt(b, a, w));
		if(cc == "ge") return T.notc(T.slt(a, b, w));
		if(cc == "b") return T.ult(a, b, w);
		if(cc == "a") return T.ult(b, a, w);
		if(cc == "be") return T.notc(T.ult(b, a, w));
		if(cc == "ae") return T.notc(T.ult(a, b, w));
		bad("flag " + cc);
	}
	void clobber(MSt &s)
	{
		std::set<std::string> keep = { "rEBX", "rEBP", "rESP", "rR12", "rR13", "rR14", "rR15" };
		std::set<int> k; for(auto &n : keep) k.insert(regId[n]);
		static int n;
		for(auto &p : regId) if(!k.count(p.second)) s.r[p.second] = T.sym("clobber" + std::to_string(n++));
		for(auto &p : s.r) if(p.first >= 1000) p.second = T.sym("clobber" + std::to_string(n++));
		for(auto &p : xmmId) s.x[p.second] = T.sym("clobber" + std::to_string(n++));
		for(auto &p : s.x) if(p.first >= 1000) p.second = T.sym("clobber" + std::to_string(n++));
		s.fa = -1;
	}
	void call(MSt &s, int a, std::vector<MSt> &work)
	{
		int d = T.sub(a, T.VMSTATE, 64); uint64_t off;
		if(!T.isK(d, &off)) bad("call target");
		auto it = G.slots.find((int)off);
		if(it == G.slots.end() || !it->second) bad("call slot");
		Function *C = it->second;
		if(neverReturns(C)) { s.out.kind = O_ERROR; s.out.msg = stopMessage(C); s.done = true; return; }
		// System V argument registers
		const char *gr[] = { "rEDI", "rESI", "rEDX", "rECX", "rR8", "rR9" };
		int gi = 0, xi = 0;
		std::vector<int> args;
		for(auto &A : C->args())
			if(A.getType()->isFloatingPointTy()) args.push_back(xmm(s, xmmId["rXMM0"] + xi++));
			else { int w = tw(A.getType()); args.push_back(T.trunc(reg(s, regId[gr[gi++]]), w)); }
		if(C->isDeclaration() || C->getName().contains("VmIntPow") || C->getName().contains("VmLongPow"))
		{
			int r = T.call(C->getName().str(), args, tw(C->getReturnType()));
			clobber(s);
			if(C->getReturnType()->isFloatingPointTy()) s.x[xmmId["rXMM0"]] = r; else s.r[regId["rEAX"]] = r;
			return;
		}
		Eval E(C);
		for(auto &A : C->args()) E.fixed[&A] = args[A.getArgNo()];
		St init; init.bb = &C->getEntryBlock(); init.it = init.bb->begin(); init.stores = s.stores;
		std::map<const St*, int> dummy;
		std::vector<int> rets;
		std::map<size_t, int> rv;
		E.onRet = [&](St &x, const ReturnInst *RI) { x.note = "ret"; if(RI->getReturnValue()) x.env[nullptr] = E.of(x, RI->getReturnValue()); };
		E.onCall = [&](St &x, const CallBase *CB, std::vector<St>&) {
			Function *D = calleeOf(CB);
			if(D && (D->getName().contains("longjmp"))) { x.out.kind = O_ERROR; x.out.msg = ""; return true; }
			return false;
		};
		E.run(init);
		bool first = true;
		MSt base = s;
		for(auto &x : E.done)
		{
			MSt n = base;
			for(auto &c : x.conds) n.conds.push_back(c);
			if(x.note != "ret") { n.out.kind = O_ERROR; n.done = true; }
			else
			{
				for(auto &e : x.eff) if(e.kind == E_STORE) { if(!inState(e.a[0])) { n.eff.push_back(e); } } else n.eff.push_back(e);
				n.stores = x.stores;
				clobber(n);
				if(x.env.count(nullptr)) { if(C->getReturnType()->isFloatingPointTy()) n.x[xmmId["rXMM0"]] = x.env[nullptr]; else n.r[regId["rEAX"]] = x.env[nullptr]; }
			}
			if(first) { s = n; first = false; } else { n.pc = s.pc; work.push_back(n); }
		}
	}
	void exec(MSt &s, const MOp &op, std::vector<MSt> &work)
	{
		std::string n = op.name.compare(0, 2, "o_") == 0 ? op.name.substr(2) : op.name;
		std::string sh = op.shape;
		size_t nx;
		if(n == "bind")
		{
			int a = addr(s, op, 2, nx), size = bytes(op.o[1].v);
			int v = ld(s, size, a);
			if(op.o[0].k == 'x') s.x[op.o[0].v] = v;
			else s.r[op.o[0].v] = size == 8 ? v : T.mk({ T_JUNK, 64, 0, { v }, {}, "" });
			return;
		}
		if(n == "label") return;
		bool w64 = n.size() > 2 && n.compare(n.size() - 2, 2, "64") == 0;
		std::string b = w64 ? n.substr(0, n.size() - 2) : n;
		int w = w64 ? 64 : 32;
		auto R = [&](int r) { return T.trunc(reg(s, r), w); };
		auto imm = [&](const Opnd &o) { return o.k == 'l' ? o.v : w64 ? T.sext(o.v, 32, 64) : T.trunc(o.v, 32); };
		auto alu = [&](int x, int y) -> int {
			if(b == "add") return T.add(x, y, w);
			if(b == "sub") return T.sub(x, y, w);
			if(b == "imul") return T.mul(x, y, w);
			if(b == "and") return T.andT(x, y, w);
			if(b == "or") return T.orT(x, y, w);
			if(b == "xor") return T.xorT(x, y, w);
			if(b == "sal" || b == "shl") return T.shl(x, y, w);
			if(b == "sar") return T.ashr(x, y, w);
			return -1;
		};
		static const std::set<std::string> flagKeepers = { "mov", "movsx", "movsxd", "lea", "movss", "movsd", "movd", "not", "cdq", "cqo" };
		bool setsFlags = alu(T.K(1, w), T.K(1, w)) >= 0 || b == "neg" || b == "idiv";
		// the width recorded with a memory operand (what the value tracking relies on) is the width the operation accesses
		auto checkWidth = [&](int size) {
			int need = b == "movss" || b == "cvtss2sd" ? 4 : b.size() > 2 && b.compare(b.size() - 2, 2, "sd") == 0 && b != "cvtsi2sd" ? 8 : b == "cvtsd2ss" || b == "cvttsd2si" ? 8 : b == "movsx" || b == "mov" || b == "lea" ? 0 : b == "movsxd" ? 4 : w / 8;
			if(need && need != size) bad("mov size: " + n + " with an operand of " + std::to_string(size) + " bytes");
		};
		if(sh == "OP_REG_RPTR")
		{
			int size = bytes(op.o[1].v), a = addr(s, op, 2, nx);
			int d = op.o[0].v;
			checkWidth(size);
			if(op.o[0].k == 'r')
			{
				if(b == "mov") { if(size * 8 != w) bad("mov size"); s.r[d] = ld(s, size, a); return; }
				if(b == "movsx") { s.r[d] = T.sext(ld(s, size, a), size * 8, 32); return; }
				if(b == "movsxd") { s.r[d] = T.sext(ld(s, size, a), size * 8, 64); return; }
				if(b == "lea") { s.r[d] = a; return; }
				if(b == "cvttsd2si") { s.r[d] = T.un(T_FPTOSI, ld(s, 8, a), w); return; }
				if(b == "cmp") { s.fa = R(d); s.fb = ld(s, w / 8, a); s.fw = w; s.ftest = false; return; }
				int v = alu(R(d), ld(s, w / 8, a));
				if(v >= 0) { s.r[d] = v; s.fa = -1; return; }
			}
			else
			{
				if(b == "movsd") { s.x[d] = ld(s, 8, a); return; }
				if(b == "movss") { s.x[d] = ld(s, 4, a); return; }
				if(b == "cvtss2sd") { s.x[d] = T.un(T_FPEXT, ld(s, 4, a), 64); return; }
				if(b == "cvtsd2ss") { s.x[d] = T.un(T_FPTRUNC, ld(s, 8, a), 32); return; }
				if(b == "cvtsi2sd") { s.x[d] = T.un(T_SITOFP, ld(s, w / 8, a), 64); return; }
				int v = falu(b, xmm(s, d), ld(s, 8, a));
				if(v >= 0) { s.x[d] = v; return; }
			}
			bad(n);
		}
		if(sh == "OP_RPTR_REG")
		{
			int size = bytes(op.o[0].v), a = addr(s, op, 1, nx);
			checkWidth(size);
			if(b == "mov" && (size == 8) != w64) bad("mov size: " + n + " with an operand of " + std::to_string(size) + " bytes");
			const Opnd &src = op.o[nx];
			if(src.k == 'r')
			{
				if(b == "mov") { st(s, w64 ? 8 : std::min(size, 4), a, T.trunc(reg(s, src.v), size * 8)); return; }
				int v = alu(ld(s, w / 8, a), R(src.v));
				if(v >= 0) { st(s, w / 8, a, v); s.fa = -1; return; }
			}
			else
			{
				if(b == "movsd") { st(s, 8, a, xmm(s, src.v)); return; }
				if(b == "movss") { st(s, 4, a, T.trunc(xmm(s, src.v), 32)); return; }
			}
			bad(n);
		}
		if(sh == "OP_RPTR_NUM")
		{
			int size = bytes(op.o[0].v), a = addr(s, op, 1, nx);
			checkWidth(size);
			if(b == "mov" && (size == 8) != w64) bad("mov size: " + n + " with an operand of " + std::to_string(size) + " bytes");
			int v = imm(op.o[nx]);
			if(b == "mov") { st(s, size, a, T.trunc(v, size * 8)); return; }
			int r = alu(ld(s, w / 8, a), v);
			if(r >= 0) { st(s, w / 8, a, r); s.fa = -1; return; }
			bad(n);
		}
		if(sh == "OP_REG_NUM" || sh == "OP_REG_NUM64")
		{
			int d = op.o[0].v, v = imm(op.o[1]);
			if(b == "mov") { s.r[d] = v; return; }
			if(b == "cmp") { s.fa = R(d); s.fb = v; s.fw = w; s.ftest = false; return; }
			int r = alu(R(d), v);
			if(r >= 0) { s.r[d] = r; s.fa = -1; return; }
			bad(n);
		}
		if(sh == "OP_REG_REG")
		{
			int d = op.o[0].v, q = op.o[1].v; char dk = op.o[0].k, qk = op.o[1].k;
			if(dk == 'r' && qk == 'r')
			{
				if(b == "mov") { s.r[d] = R(q); return; }
				if(b == "movsxd") { s.r[d] = T.sext(T.trunc(reg(s, q), 32), 32, 64); return; }
				if(b == "cmp" || b == "test") { s.fa = R(d); s.fb = R(q); s.fw = w; s.ftest = b == "test"; return; }
				int r = d == q && (b == "xor" || b == "sub") ? T.K(0, 64) : alu(R(d), R(q));
				if(r >= 0) { s.r[d] = r; s.fa = -1; return; }
			}
			else if(dk == 'x' && qk == 'x')
			{
				if(b == "movsd") { s.x[d] = xmm(s, q); return; }
				if(b == "cvtsd2ss") { s.x[d] = T.un(T_FPTRUNC, xmm(s, q), 32); return; }
				if(b == "cvtss2sd") { s.x[d] = T.un(T_FPEXT, T.trunc(xmm(s, q), 32), 64); return; }
				if(b == "sqrtsd") { s.x[d] = T.call("sqrt", { xmm(s, q) }, 64); return; }
				int v = falu(b, xmm(s, d), xmm(s, q));
				if(v >= 0) { s.x[d] = v; return; }
			}
			else if(dk == 'r' && qk == 'x')
			{
				if(b == "movd") { s.r[d] = T.trunc(xmm(s, q), w); return; }
				if(b == "cvttsd2si") { s.r[d] = T.un(T_FPTOSI, xmm(s, q), w); return; }
			}
			else
			{
				if(b == "cvtsi2sd") { s.x[d] = T.un(T_SITOFP, R(q), 64); return; }
				if(b == "movd") { s.x[d] = R(q); return; }
			}
			bad(n);
		}
		if(sh == "OP_REG")
		{
			int d = op.o[0].v;
			if(b == "neg") { s.r[d] = T.sub(T.K(0, w), R(d), w); s.fa = -1; return; }
			if(b == "not") { s.r[d] = T.xorT(R(d), T.K(~0ull, w), w); return; }
			if(b == "idiv")
			{
				int ax = regId["rEAX"], dx = regId["rEDX"];
				int num = R(ax);
				if(R(dx) != T.call(w64 ? "cqo" : "cdq", { num }, w)) bad("idiv without sign extension of the dividend");
				int q = R(d);
				s.r[ax] = T.bin(T_SDIV, num, q, w); s.r[dx] = T.bin(T_SREM, num, q, w); s.fa = -1;
				return;
			}
			if(b.compare(0, 3, "set") == 0)
			{
				bool neg; int c = flagCond(s, b.substr(3), neg);
				int old = reg(s, d); uint64_t v;
				if(T.isK(old, &v) && v < 256) s.r[d] = c;
				else s.r[d] = T.call("setbyte", { old, c }, 64);
				return;
			}
			bad(n);
		}
		if(sh == "OP_RPTR")
		{
			int a = addr(s, op, 1, nx);
			if(b == "call") { call(s, a, work); return; }
			bad(n);
		}
		if(sh == "OP")
		{
			if(b == "cdq") { s.r[regId["rEDX"]] = T.call("cdq", { T.trunc(reg(s, regId["rEAX"]), 32) }, 32); return; }
			if(b == "cqo") { s.r[regId["rEDX"]] = T.call("cqo", { reg(s, regId["rEAX"]) }, 64); return; }
			int size = b == "rep_stosb" ? 1 : b == "rep_stosw" ? 2 : b == "rep_stosd" ? 4 : b == "rep_stosq" ? 8 : 0;
			int di = regId["rEDI"], cx = regId["rECX"];
			if(size) { s.eff.push_back({ E_FILL, size, { T.flat(reg(s, di)), T.trunc(reg(s, regId["rEAX"]), size * 8), T.trunc(reg(s, cx), 32), T.K(size, 64) }, "" }); clobberRep(s); return; }
			if(b == "rep_movsd") { s.eff.push_back({ E_COPY, 0, { T.flat(reg(s, di)), T.flat(reg(s, regId["rESI"])), T.flat(T.scale(reg(s, cx), 4, 64)) }, "" }); clobberRep(s); return; }
			bad(n);
		}
		bad(sh + " " + n);
	}
	void clobberRep(MSt &s) { static int n; for(const char *r : { "rEDI", "rECX", "rESI" }) s.r[regId[r]] = T.sym("rep" + std::to_string(n++)); }
	int falu(const std::string &b, int x, int y)
	{
		if(b == "addsd") return T.bin(T_FADD, x, y, 64);
		if(b == "subsd") return T.bin(T_FSUB, x, y, 64);
		if(b == "mulsd") return T.bin(T_FMUL, x, y, 64);
		if(b == "divsd") return T.bin(T_FDIV, x, y, 64);
		if(b == "sqrtsd") return T.call("sqrt", { y }, 64);
		if(b == "cmpeqsd") return T.un(T_FMASK, T.bin(T_FEQ, x, y, 1), 64);
		if(b == "cmpltsd") return T.un(T_FMASK, T.bin(T_FLT, x, y, 1), 64);
		if(b == "cmplesd") return T.un(T_FMASK, T.bin(T_FLE, x, y, 1), 64);
		if(b == "cmpneqsd") return T.un(T_FMASK, T.notc(T.bin(T_FEQ, x, y, 1)), 64);
		return -1;
	}
	void run()
	{
		MSt i;
		i.r[regId["rEBX"]] = T.REG; i.r[regId["rR13"]] = T.VMSTATE; i.r[regId["rR14"]] = T.CONST; i.r[regId["rR15"]] = T.FRAME;
		i.fa = flagA; i.fb = flagB; i.fw = 32;
		std::vector<MSt> work{ i };
		int steps = 0;
		while(!work.empty())
		{
			MSt s = work.back(); work.pop_back();
			while(!s.done && s.pc < G.ops.size())
			{
				if(++steps > 5000) bad("loop");
				const MOp &op = G.ops[s.pc++];
				last = op.at;
				if(op.shape != "OP_LABEL") { exec(s, op, work); continue; }
				int lbl = op.o[0].v; uint64_t v;
				const Term &lt = T[lbl];
				int target = -1;
				if(lt.op == T_OR && T.isK(lt.a[1], &v) && (v & labelGlobalBit)) target = lt.a[0];
				else if(lt.op == T_OR && T.isK(lt.a[0], &v) && (v & labelGlobalBit)) target = lt.a[1];
				size_t dest = 0; bool local = false;
				if(target < 0)
				{
					for(size_t k = 0; k < G.ops.size(); k++) if(G.ops[k].name == "label" && G.ops[k].o[0].v == lbl) { dest = k; local = true; }
					if(!local) bad("label");
				}
				auto jump = [&](MSt &x) { if(local) x.pc = dest + 1; else { x.out.kind = O_JUMP; x.out.target = T.flat(T.add(T.CODE, T.scale(target, 8, 64), 64)); x.done = true; } };
				std::string cc = op.name.substr(3);
				if(op.name == "o_jmp") { jump(s); continue; }
				bool neg; int c = flagCond(s, cc, neg); bool pos = true;
				if(T[c].op == T_NOT) { c = T[c].a[0]; pos = false; }
				if(T.isK(c, &v)) { if((v != 0) == pos) jump(s); continue; }
				MSt t = s; t.conds.push_back({ c, pos }); jump(t); work.push_back(t);
				s.conds.push_back({ c, !pos });
			}
			done.push_back(s);
		}
	}
};

// ---------------------------------------------------------------- comparison
bool isNullGuard(int c) { const Term &t = T[c]; uint64_t v; return t.op == T_ULT && T.isK(t.a[1], &v) && v == 0x10000; }
// does the instruction access memory through this pointer (the generated code then faults where the interpreter reports)
bool accessedThrough(const std::vector<Spec> &specs, int p)
{
	std::function<bool(int, int)> has = [&](int t, int d) { if(t == p) return true; if(d > 12) return false; const Term &x = T[t]; if(x.op == T_LOAD) return false; for(int y : x.a) if(has(y, d + 1)) return true; return false; };
	std::function<bool(int, int)> loads = [&](int t, int d) { const Term &x = T[t]; if(x.op == T_LOAD && !x.a.empty() && has(x.a[0], 0)) return true; if(d > 12) return false; for(int y : x.a) if(loads(y, d + 1)) return true; return false; };
	for(auto &s : specs) for(auto &e : s.eff) for(size_t i = 0; i < e.a.size(); i++) if((i == 0 && e.kind == E_STORE && has(e.a[0], 0)) || (e.kind != E_STORE && has(e.a[i], 0)) || loads(e.a[i], 0)) return true;
	return false;
}
int rebuildAll(int t, std::map<int, int> &sub)
{
	for(int i = 0; i < 4; i++) { std::map<int, int> memo; int r = T.rebuild(t, sub, memo); if(r == t) break; t = r; }
	return t;
}
void substSpec(Spec &s, std::map<int, int> &sub)
{
	for(auto &c : s.conds) { c.c = rebuildAll(c.c, sub); if(T[c.c].op == T_NOT) { c.c = T[c.c].a[0]; c.pos = !c.pos; } }
	for(auto &e : s.eff) { for(size_t i = 0; i < e.a.size(); i++) e.a[i] = rebuildAll(e.a[i], sub); if(e.kind == E_STORE) e.a[0] = T.flat(e.a[0]); }
	if(s.out.target >= 0) s.out.target = T.flat(rebuildAll(s.out.target, sub));
	// a value written back to the place it was read from changes nothing
	std::vector<Eff> keep; std::vector<int> stores; std::map<int, int> gone;
	for(auto e : s.eff)
	{
		if(!gone.empty()) for(auto &x : e.a) x = rebuildAll(x, gone);
		if(e.kind == E_STORE)
		{
			int st = T.store(e.size, e.a[0], e.a[1]);
			if(T[e.a[1]].op == T_LOAD && e.a[1] == T.load(e.size, e.a[0], stores)) { gone[st] = T.NOP; continue; }
			stores.push_back(st);
		}
		keep.push_back(e);
	}
	s.eff = keep;
}
bool usesDiv(const Spec &s)
{
	std::function<bool(int, int)> f = [&](int t, int d) { const Term &x = T[t]; if(x.op == T_SDIV || x.op == T_SREM) return true; if(d > 12) return false; for(int y : x.a) if(f(y, d + 1)) return true; return false; };
	for(auto &e : s.eff) for(int t : e.a) if(f(t, 0)) return true;
	return false;
}
// where the instruction word records the kind of value moved to this register
uint64_t typeField(int addr)
{
	const Term &t = T[addr];
	if(t.op == T_LIN) for(int x : t.a) if(T[x].op == T_EXT) return T[x].k == 56 ? 18 : T[x].k == 40 ? 20 : 16;
	return 16;
}
bool divByZero(const Spec &s)
{
	std::function<bool(int, int)> f = [&](int t, int d) { const Term &x = T[t]; uint64_t v; if((x.op == T_SDIV || x.op == T_SREM) && T.isK(x.a[1], &v) && !v) return true; if(d > 12) return false; for(int y : x.a) if(f(y, d + 1)) return true; return false; };
	for(auto &e : s.eff) for(int t : e.a) if(f(t, 0)) return true;
	return false;
}
bool sameEffects(const std::vector<Eff> &a, const std::vector<Eff> &b)
{
	if(a == b) return true;
	if(a.size() != b.size() || a.size() < 2) return false;
	auto x = a, y = b;
	std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
	if(!(x == y)) return false;
	for(size_t i = 0; i < x.size(); i++) for(size_t j = i + 1; j < x.size(); j++)
	{
		if(x[i].kind != E_STORE || x[j].kind != E_STORE) return false;
		if(T.mayAlias(x[i].a[0], x[i].size, x[j].a[0], x[j].size)) return false;
	}
	return true;
}
std::string describe(const std::vector<Cond> &c, const std::vector<Eff> &e, const Outcome &o)
{
	std::string r;
	if(!c.empty()) { r += "if "; for(size_t i = 0; i < c.size(); i++) r += (i ? " and " : "") + std::string(c[i].pos ? "" : "!") + T.str(c[i].c); r += ": "; }
	for(auto &x : e) r += effStr(x) + "; ";
	return r + outStr(o);
}
}
RULE(agree)
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { std::string f = fileOf(C), n = sname(C); return f == "NULLC/Executor_RegVm.cpp" && n != "ExecutorRegVm::ExecError" && n != "ExecutorRegVm::ExecCall" && n != "ExecutorRegVm::ExecReturn" && n != "ExecutorRegVm::ExecNop" && instrCount(C) < 200; };
	P.maxDepth = 3;
	Function *RC = findFn("ExecutorRegVm::RunCode");
	if(!RC) { R.brk("anchor ExecutorRegVm::RunCode not found"); return; }
	normalise(RC, &P, true);
	InlinePolicy PG;
	PG.want = [](Function *C, CallBase *) { std::string f = fileOf(C); return (f == "NULLC/CodeGenRegVm_X86.cpp" || f == "NULLC/CodeGenRegVm_X86.h") && sname(C).compare(0, 5, "EMIT_") != 0; };
	for(auto &p : enumOf("x86Command")) if(!cmdName.count(p.second)) cmdName[p.second] = p.first;
	for(auto &p : enumOf("x86Reg")) regId[p.first] = p.second;
	for(auto &p : enumOf("x86XmmReg")) xmmId[p.first] = p.second;
	for(auto &p : enumOf("x86Size")) sizeId[p.first] = p.second;
	std::map<int64_t, std::string> opName;
	for(auto &p : enumOf("RegVmInstructionCode")) if(!opName.count(p.second)) opName[p.second] = p.first;
	int64_t rvcInt = -1;
	for(auto &p : enumOf("RegVmCopyType")) if(p.first == "rvcInt") rvcInt = p.second;
	if(cmdName.empty() || regId.empty() || opName.empty() || rvcInt < 0) { R.brk("machine code enumerations not found"); return; }
	// interpreter handlers
	const BasicBlock *dispatch = nullptr; const PHINode *instr = nullptr;
	for(auto &B : *RC) if(isa<IndirectBrInst>(B.getTerminator())) dispatch = &B;
	if(!dispatch) { R.brk("dispatch block of the interpreter not found"); return; }
	for(auto &Ph : dispatch->phis())
		for(auto *U : Ph.users()) if(auto *G = dyn_cast<GetElementPtrInst>(U)) if(auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if(ST->getName().contains("RegVmCmd")) instr = &Ph;
	std::map<int, const BasicBlock*> handlers;
	for(auto &G : M->globals())
		if(G.hasInitializer()) if(auto *A = dyn_cast<ConstantArray>(G.getInitializer()))
			for(unsigned i = 0; i < A->getNumOperands(); i++) if(auto *BA = dyn_cast<BlockAddress>(A->getOperand(i)->stripPointerCasts())) if(BA->getFunction() == RC) handlers[i] = BA->getBasicBlock();
	// generators: constant stores into the callback table
	std::map<int, Function*> gens;
	for(auto &F : *M)
		for(auto &I : instructions(F))
			if(auto *S = dyn_cast<StoreInst>(&I))
				if(auto *C = dyn_cast<Function>(S->getValueOperand()))
				{
					APInt off(64, 0);
					const Value *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
					if(auto *G = dyn_cast<GlobalVariable>(b)) if(sname(C).compare(0, 10, "GenCodeCmd") == 0 || C->arg_size() == 2) if(G->getName().contains("cgFuncs")) gens[off.getZExtValue() / 8] = C;
				}
	if(!instr || handlers.size() < 90 || gens.size() < 90) { R.brk("only " + std::to_string(handlers.size()) + " interpreter handlers and " + std::to_string(gens.size()) + " generators found"); return; }
	bool one = !args.empty(), verbose = args.size() > 1;
	std::set<std::string> skip = { "rviNop", "rviCall", "rviCallPtr", "rviReturn", "rviFuncAddr", "rviTypeid" };
	long undecided = 0, compared = 0;
	for(auto &h : handlers)
	{
		std::string name = opName.count(h.first) ? opName[h.first] : "?";
		if(skip.count(name) || (one && args[0] != name && args[0] != "all")) continue;
		if(!gens.count(h.first)) { if(name != "rviFuncAddr" && name != "rviTypeid") R.add("NO-GENERATOR", &*h.second->begin(), "RunCode", "instruction " + name + " has an interpreter handler but no machine code generator is installed for it", name); continue; }
		Function *GF = gens[h.first];
		// the only instruction with two results: the lowering allocates them apart from the source (C27)
		T.distinctFields = name == "rviBreakupdd";
		std::vector<Spec> specs; std::vector<St> paths;
		try
		{
			interpreter(RC, h.second, dispatch, instr, specs);
			Function *C = cloneFn(GF);
			normalise(C, &PG, true);
			generator(C, paths);
		}
		catch(Undecided &u) { undecided++; R.stat("undecided:" + name + ": " + u.why); continue; }
		if(verbose) { errs() << "== " << name << " " << GF->getName() << "\n"; for(auto &s : specs) errs() << "   interp " << describe(s.conds, s.eff, s.out) << "\n"; }
		if(one && name == "rviIndex") // the meaning itself, not only agreement
		{
			int len = T.load(4, T.add(T.REG, T.scale(T.ext(48, 8), 8, 64), 64), {});
			auto reg = [&](int size, int bit) { return T.load(size, T.add(T.REG, T.scale(T.ext(bit, 8), 8, 64), 64), {}); };
			int in = T.ult(reg(4, 16), len, 32); bool fails = false, works = false;
			for(auto &s : specs)
			{
				R.stat("index_cases");
				bool pos = false, neg = false;
				for(auto &c : s.conds) if(c.c == in) (c.pos ? pos : neg) = true;
				if(s.out.kind == O_ERROR) { if(neg) fails = true; continue; }
				int want[] = { T.add(reg(8, 24), T.mul(reg(4, 16), T.ext(32, 16), 32), 64), T.add(reg(8, 24), T.mul(reg(4, 16), T.ext(32, 16), 64), 64) };
				bool value = s.eff.size() == 1 && s.eff[0].kind == E_STORE && s.eff[0].a[0] == T.add(T.REG, T.scale(T.ext(8, 8), 8, 64), 64) && (T.flat(s.eff[0].a[1]) == T.flat(want[0]) || T.flat(s.eff[0].a[1]) == T.flat(want[1]));
				if(!pos) R.add("INDEX-UNCHECKED", &*h.second->begin(), "RunCode", "the interpreter computes an element address without having compared the index, unsigned, with the length: " + describe(s.conds, s.eff, s.out), "rviIndex#check");
				else if(!value) R.add("INDEX-UNCHECKED", &*h.second->begin(), "RunCode", "the interpreter does not compute the address of the element: " + describe(s.conds, s.eff, s.out), "rviIndex#value");
				else works = true;
				R.sample("interpreter: " + describe(s.conds, s.eff, s.out));
			}
			if(!fails) R.add("INDEX-UNCHECKED", &*h.second->begin(), "RunCode", "the interpreter does not report an index that is not below the length", "rviIndex#report");
			if(!works && fails) R.add("INDEX-UNCHECKED", &*h.second->begin(), "RunCode", "the interpreter never computes the address of an element", "rviIndex#never");
		}
		std::set<int> guards;
		for(auto &s : specs) for(auto &c : s.conds) if(isNullGuard(c.c) && accessedThrough(specs, T[c.c].a[0])) guards.insert(c.c);
		bool flatVals = name == "rviIndex" || name == "rviGetAddr";
		auto flatten = [&](std::vector<Eff> &es) { if(flatVals) for(auto &e : es) if(e.kind == E_STORE && e.size == 8) e.a[1] = T.flat(e.a[1]); };
		compared++;
		bool und = false;
		std::set<std::string> told;
		for(auto &g : paths)
		{
			Machine Mx(g);
			try { Mx.run(); }
			catch(Undecided &u)
			{
				if(u.why.find("idiv") != std::string::npos || u.why.find("mov size") != std::string::npos || u.why.find("call slot") != std::string::npos || u.why.find("flags") != std::string::npos)
				{
					std::string d = "the code generated for " + name + " is wrong: " + u.why;
					if(told.insert(d).second) R.add("ENGINES-DISAGREE", Mx.last, sname(GF), d, name + "#" + u.why);
					continue;
				}
				und = true; R.stat("undecided:" + name + ": " + u.why); break;
			}
			R.stat("generator_paths");
			// equalities chosen by the generator
			std::map<int, int> sub; std::vector<Cond> stat;
			for(auto &c : g.conds)
			{
				const Term &t = T[c.c];
				if(t.op == T_SYM || (t.op == T_EQ && (T[t.a[0]].op == T_SYM && T[t.a[0]].s.compare(0, 4, "free") == 0))) continue;
				if(c.pos && t.op == T_EQ) { uint64_t kv; if(T.isK(t.a[1], &kv)) { sub[t.a[0]] = t.a[1]; for(int nw : { 8, 16, 32 }) if(T[t.a[0]].op == T_LOAD && nw < T[t.a[0]].w) sub[T.trunc(t.a[0], nw)] = T.K(kv, nw); } else sub[std::max(t.a[0], t.a[1])] = std::min(t.a[0], t.a[1]); }
				stat.push_back(c);
			}
			bool inconsistent = false;
			{
				for(auto &c : stat) { if(c.pos && T[c.c].op == T_EQ) continue; int k = rebuildAll(c.c, sub); uint64_t v; if(T.isK(k, &v) && (v != 0) != c.pos) inconsistent = true; }
			}
			if(inconsistent) continue;
			std::set<int> faults = guards;
			for(int k : guards) faults.insert(rebuildAll(k, sub));
			std::vector<Spec> live;
			for(auto s : specs)
			{
				substSpec(s, sub);
				bool drop = false; bool div = usesDiv(s);
				std::vector<Cond> rest;
				for(auto &c : s.conds)
				{
					uint64_t v;
					if(T.isK(c.c, &v)) { if((v != 0) != c.pos) drop = true; continue; }
					if(isNullGuard(c.c) && faults.count(c.c)) { if(c.pos) drop = true; continue; }
					bool known = false;
					for(auto &k : stat) { int kc = rebuildAll(k.c, sub); if(k.c == c.c || kc == c.c) { known = true; if(k.pos != c.pos) drop = true; } }
					if(known) continue;
					rest.push_back(c);
				}
				if(drop) continue;
				s.conds = rest;
				flatten(s.eff);
				(void)div;
				live.push_back(s);
			}
			bool anyDiv = false; for(auto &s : live) if(usesDiv(s)) anyDiv = true;
			if(anyDiv)
			{
				// the processor traps exactly where the interpreter reports: zero divisor, minimum by minus one
				std::vector<Spec> keep;
				for(auto &s : live) { if(!usesDiv(s)) continue; s.conds.clear(); bool dup = false; for(auto &k : keep) if(k.eff == s.eff) dup = true; if(!dup) keep.push_back(s); }
				live = keep;
			}
			std::vector<bool> hit(live.size(), false);
			for(auto &m : Mx.done)
			{
				Spec j; j.conds = m.conds; j.eff = m.eff; j.out = m.out;
				if(divByZero(j)) { j.eff.clear(); j.out = Outcome(); j.out.kind = O_ERROR; } // the processor traps
				substSpec(j, sub); flatten(j.eff);
				{
					std::vector<Cond> rest; bool dead = false;
					for(auto &c : j.conds) { uint64_t v; if(T.isK(c.c, &v)) { if((v != 0) != c.pos) dead = true; continue; } rest.push_back(c); }
					if(dead) continue;
					j.conds = rest;
				}
				std::sort(j.conds.begin(), j.conds.end());
				R.stat("machine_paths");
				bool ok = false;
				for(size_t i = 0; i < live.size() && !ok; i++)
				{
					Spec s = live[i];
					std::sort(s.conds.begin(), s.conds.end());
					if(!(s.conds == j.conds)) continue;
					if(s.out.kind != j.out.kind || s.out.target != j.out.target) continue;
					if(s.out.kind == O_ERROR)
					{
						if(!s.out.msg.empty() && !j.out.msg.empty() && s.out.msg != j.out.msg) continue;
						ok = true; hit[i] = true; continue;
					}
					// a copy of a register known to hold four bytes may move four bytes only
					auto se = s.eff, je = j.eff;
					if(se.size() == je.size())
						for(size_t e = 0; e < se.size(); e++)
							if(se[e].kind == E_STORE && je[e].kind == E_STORE && se[e].size == 8 && je[e].size == 4 && se[e].a[0] == je[e].a[0] && T.trunc(se[e].a[1], 32) == je[e].a[1])
							{
								bool justified = false;
								for(auto &c : stat) { const Term &t = T[c.c]; uint64_t v; if(c.pos && t.op == T_EQ && T.isK(t.a[1], &v) && (int64_t)v == rvcInt && T[t.a[0]].op == T_EXT && T[t.a[0]].k == typeField(je[e].a[0])) justified = true; }
								if(justified) { for(size_t e2 = e + 1; e2 < se.size(); e2++) { std::map<int, int> mm, memo; mm[T.store(8, se[e].a[0], se[e].a[1])] = T.store(4, je[e].a[0], je[e].a[1]); for(auto &t : se[e2].a) t = T.rebuild(t, mm, memo); } se[e] = je[e]; }
							}
					if(!sameEffects(se, je)) continue;
					ok = true; hit[i] = true;
				}
				if(!ok)
				{
					std::string want; for(auto &s : live) want += (want.empty() ? "" : " | ") + describe(s.conds, s.eff, s.out);
					std::string when = stat.empty() ? "" : " (generator choice: ";
					for(size_t i = 0; i < stat.size(); i++) when += (i ? ", " : "") + std::string(stat[i].pos ? "" : "!") + T.str(stat[i].c);
					if(!stat.empty()) when += ")";
					std::string d = "machine code for " + name + when + " does: " + describe(j.conds, j.eff, j.out) + " -- the interpreter does: " + want;
					if(told.size() < 3 && told.insert(d).second) { std::vector<std::string> p; for(auto &o : g.ops) p.push_back(locOf(o.at) + " " + o.name); R.add("ENGINES-DISAGREE", g.ops.empty() ? &*GF->getEntryBlock().begin() : g.ops.back().at, sname(GF), d, name + "#" + d, p); }
				}
			}
			for(size_t i = 0; i < live.size(); i++) if(!hit[i] && told.empty())
			{
				std::string d = "the interpreter's case for " + name + ": " + describe(live[i].conds, live[i].eff, live[i].out) + " has no counterpart in the generated code";
				if(told.insert(d).second) R.add("ENGINES-DISAGREE", g.ops.empty() ? &*GF->getEntryBlock().begin() : g.ops.back().at, sname(GF), d, name + "#missing");
			}
		}
		// a preceding "set byte on condition" merged into the jump
		if(name == "rviJmpz" || name == "rviJmpnz")
			for(auto &sc : cmdName) if(sc.second.compare(0, 5, "o_set") == 0 && sc.second != "o_set_tracking")
			{
				std::vector<St> fused;
				try { Function *C = cloneFn(GF); normalise(C, &PG, true); generator(C, fused, sc.first); }
				catch(Undecided &u) { und = true; R.stat("undecided:" + name + " after " + sc.second + ": " + u.why); break; }
				for(auto &g : fused)
				{
					bool usesTest = false; for(auto &o : g.ops) if(o.name == "o_test" || o.name == "o_cmp") usesTest = true;
					if(usesTest) continue; // not merged: the general form decided above
					Machine Mx(g);
					Mx.flagA = T.sym("CMPA", 32); Mx.flagB = T.sym("CMPB", 32);
					std::map<int, int> sub; std::string d;
					try
					{
						MSt f; f.fa = Mx.flagA; f.fb = Mx.flagB; f.fw = 32; bool neg;
						sub[T.load(4, T.add(T.REG, T.scale(T.ext(24, 8), 8, 64), 64), {})] = Mx.flagCond(f, sc.second.substr(5), neg);
						Mx.run();
						for(auto &m : Mx.done)
						{
							Spec j; j.conds = m.conds; j.eff = m.eff; j.out = m.out; substSpec(j, sub); std::sort(j.conds.begin(), j.conds.end());
							bool ok = false;
							for(auto s : specs) { substSpec(s, sub); std::sort(s.conds.begin(), s.conds.end()); if(s.conds == j.conds && s.eff == j.eff && s.out.kind == j.out.kind && s.out.target == j.out.target) ok = true; }
							R.stat("fused_paths");
							if(!ok) d = "the code generated for " + name + " after a comparison with " + sc.second + " does: " + describe(j.conds, j.eff, j.out) + ", which is not what the interpreter does";
						}
					}
					catch(Undecided &u) { if(u.why.find("flag") != std::string::npos) d = "the code generated for " + name + " after " + sc.second + " is wrong: " + u.why; else und = true; }
					if(!d.empty() && told.insert(d).second) R.add("ENGINES-DISAGREE", g.ops.empty() ? &*GF->getEntryBlock().begin() : g.ops.back().at, sname(GF), d, name + "#fused " + sc.second);
				}
			}
		if(und) undecided++;
		else if(paths.size() && compared % 6 == 0) R.sample(name + ": " + (specs.empty() ? "" : describe(specs.back().conds, specs.back().eff, specs.back().out)) + " == " + std::to_string(paths.size()) + " generator paths of " + sname(GF));
	}
	R.stat("instructions_compared", compared);
	R.stat("instructions_undecided", undecided);
	if(one && args[0] != "all" && (undecided || !compared)) R.brk("instruction could not be decided: " + args[0]);
	if(!one && undecided > 25) R.brk(std::to_string(undecided) + " instructions could not be decided");
}
