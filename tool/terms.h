// Hash-consed value terms with a fixed normal form (Herbrand value numbering domain).
#pragma once
#include "core.h"
enum TOp { T_K, T_SYM, T_EXT, T_LIN, T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR, T_UDIV, T_SDIV, T_UREM, T_SREM, T_MUL, T_SEXT, T_TRUNC,
	T_EQ, T_ULT, T_SLT, T_NOT, T_FEQ, T_FLT, T_FLE, T_FORD, T_FADD, T_FSUB, T_FMUL, T_FDIV, T_FREM, T_FPEXT, T_FPTRUNC, T_SITOFP, T_UITOFP, T_FPTOSI, T_FPTOUI, T_FNEG,
	T_LOAD, T_ST, T_CALL, T_SELECT, T_FMASK, T_JUNK };
struct Term { int op, w; uint64_t k; std::vector<int> a; std::vector<uint64_t> c; std::string s;
	bool operator<(const Term &o) const { return std::tie(op, w, k, a, c, s) < std::tie(o.op, o.w, o.k, o.a, o.c, o.s); } };
struct Terms
{
	std::vector<Term> t;
	std::map<Term, int> index;
	int REG, CODE, FRAME, CONST, VMSTATE, CTX, INSTR, NOP;
	bool distinctFields = false; // rA, rB and rC name different registers
	bool alignedArg = true; // constant offsets are multiples of four
	Terms();
	int mk(Term x);
	const Term &operator[](int i) const { return t[i]; }
	int K(uint64_t v, int w);
	int sym(const std::string &s, int w = 64);
	int ext(int off, int w);
	bool isK(int i, uint64_t *v = nullptr) const;
	int lin(int w, std::map<int, uint64_t> m, uint64_t k);
	void addTo(std::map<int, uint64_t> &m, uint64_t &k, int x, uint64_t coef, int w, bool flat);
	int add(int a, int b, int w) { std::map<int, uint64_t> m; uint64_t k = 0; addTo(m, k, a, 1, w, false); addTo(m, k, b, 1, w, false); return lin(w, m, k); }
	int sub(int a, int b, int w) { std::map<int, uint64_t> m; uint64_t k = 0; addTo(m, k, a, 1, w, false); addTo(m, k, b, ~0ull, w, false); return lin(w, m, k); }
	int scale(int a, uint64_t c, int w) { std::map<int, uint64_t> m; uint64_t k = 0; addTo(m, k, a, c, w, false); return lin(w, m, k); }
	int mul(int a, int b, int w);
	int flat(int a); // as an address: extensions and narrow sums removed
	int bits(int x, int off, int n);
	int trunc(int x, int w);
	int sext(int x, int from, int w);
	int andT(int a, int b, int w);
	int orT(int a, int b, int w);
	int xorT(int a, int b, int w);
	int shl(int a, int b, int w);
	int lshr(int a, int b, int w);
	int ashr(int a, int b, int w);
	int bin(int op, int a, int b, int w);
	int un(int op, int a, int w);
	int notc(int a);
	int eq(int a, int b, int w);
	int ult(int a, int b, int w);
	int slt(int a, int b, int w);
	int select(int c, int a, int b, int w);
	int load(int size, int addr, const std::vector<int> &stores); // size in bytes; stores: T_ST terms issued before
	int store(int size, int addr, int val);
	int call(const std::string &f, std::vector<int> args, int w);
	int rebuild(int x, std::map<int, int> &subst, std::map<int, int> &memo);
	bool mayAlias(int a, int sa, int b, int sb);
	std::string str(int i, int depth = 0);
};
