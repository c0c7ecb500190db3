#include "terms.h"
static uint64_t maskOf(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
Terms::Terms()
{
	REG = sym("REG"); CODE = sym("CODE"); FRAME = sym("FRAME"); CONST = sym("CONST"); VMSTATE = sym("VMSTATE"); CTX = sym("CTX"); INSTR = sym("INSTR"); NOP = sym("NOP");
}
int Terms::mk(Term x)
{
	auto it = index.find(x);
	if(it != index.end()) return it->second;
	int id = t.size();
	index[x] = id; t.push_back(x);
	return id;
}
int Terms::K(uint64_t v, int w) { return mk({ T_K, w, v & maskOf(w), {}, {}, "" }); }
int Terms::sym(const std::string &s, int w) { return mk({ T_SYM, w, 0, {}, {}, s }); }
int Terms::ext(int off, int w) { return mk({ T_EXT, w, (uint64_t)off, {}, {}, "" }); }
bool Terms::isK(int i, uint64_t *v) const { if(t[i].op != T_K) return false; if(v) *v = t[i].k; return true; }
void Terms::addTo(std::map<int, uint64_t> &m, uint64_t &k, int x, uint64_t coef, int w, bool flat)
{
	const Term x0 = t[x];
	if(x0.op == T_K) { k += coef * x0.k; return; }
	if(flat && (x0.op == T_SEXT || x0.op == T_JUNK)) { addTo(m, k, x0.a[0], coef, w, flat); return; }
	if(x0.op == T_LIN && (x0.w == w || flat))
	{
		auto sgn = [&](uint64_t v) { return flat && x0.w == 32 ? (uint64_t)(int64_t)(int32_t)v : v; };
		k += coef * sgn(x0.k);
		for(size_t i = 0; i < x0.a.size(); i++) addTo(m, k, x0.a[i], coef * sgn(x0.c[i]), w, flat);
		return;
	}
	if(alignedArg && x0.op == T_EXT && x0.k == 34 && x0.w == 30 && (coef & 3) == 0) { m[ext(32, 32)] += coef / 4; return; }
	m[x] += coef;
}
int Terms::lin(int w, std::map<int, uint64_t> m, uint64_t k)
{
	Term r{ T_LIN, w, k & maskOf(w), {}, {}, "" };
	for(auto &p : m)
	{
		uint64_t c = p.second & maskOf(w);
		if(!c) continue;
		r.a.push_back(p.first); r.c.push_back(c);
	}
	if(r.a.empty()) return K(k, w);
	if(r.a.size() == 1 && r.c[0] == 1 && !r.k && t[r.a[0]].w <= w) return r.a[0];
	return mk(r);
}
int Terms::flat(int a)
{
	std::map<int, uint64_t> m; uint64_t k = 0;
	addTo(m, k, a, 1, 64, true);
	return lin(64, m, k);
}
int Terms::mul(int a, int b, int w)
{
	uint64_t v;
	if(isK(a, &v)) return scale(b, v, w);
	if(isK(b, &v)) return scale(a, v, w);
	if(a > b) std::swap(a, b);
	return mk({ T_MUL, w, 0, { a, b }, {}, "" });
}
int Terms::trunc(int x, int w)
{
	const Term x0 = t[x];
	if(x0.w <= w) return x;
	switch(x0.op)
	{
	case T_K: return K(x0.k, w);
	case T_EXT: return ext(x0.k, w);
	case T_LOAD: if(w % 8 == 0) { std::vector<int> st(x0.a.begin() + 1, x0.a.end()); std::reverse(st.begin(), st.end()); return load(w / 8, x0.a[0], st); } break;
	case T_LIN: { std::map<int, uint64_t> m; uint64_t k = x0.k; for(size_t i = 0; i < x0.a.size(); i++) addTo(m, k, trunc(x0.a[i], w), x0.c[i], w, false); return lin(w, m, k); }
	case T_AND: return andT(trunc(x0.a[0], w), trunc(x0.a[1], w), w);
	case T_OR: return orT(trunc(x0.a[0], w), trunc(x0.a[1], w), w);
	case T_XOR: return xorT(trunc(x0.a[0], w), trunc(x0.a[1], w), w);
	case T_MUL: return mul(trunc(x0.a[0], w), trunc(x0.a[1], w), w);
	case T_SEXT: return t[x0.a[0]].w >= w ? trunc(x0.a[0], w) : sext(x0.a[0], t[x0.a[0]].w, w);
	case T_JUNK: if(t[x0.a[0]].w >= w) return trunc(x0.a[0], w); break;
	case T_FMASK: { Term r = x0; r.w = w; return mk(r); }
	case T_TRUNC: return trunc(x0.a[0], w);
	case T_SELECT: return select(x0.a[0], trunc(x0.a[1], w), trunc(x0.a[2], w), w);
	case T_LSHR: { uint64_t s; if(isK(x0.a[1], &s)) { int y = x0.a[0]; if(t[y].w >= (int)s + w && t[y].op == T_LOAD && s % 8 == 0) return bits(y, s, w); } break; }
	case T_ASHR: { uint64_t s; if(isK(x0.a[1], &s)) { int y = x0.a[0]; if(t[y].w >= (int)s + w) return bits(y, s, w); } break; }
	}
	return mk({ T_TRUNC, w, 0, { x }, {}, "" });
}
int Terms::bits(int x, int off, int n)
{
	const Term x0 = t[x];
	if(off == 0) return trunc(x, n);
	if(off >= x0.w) return K(0, n);
	if(x0.op == T_K) return K(x0.k >> off, n);
	if(x0.op == T_EXT) return ext(x0.k + off, std::min(n, x0.w - off));
	if(x0.op == T_LOAD && off % 8 == 0 && (x0.w - off) >= n && n % 8 == 0) { std::vector<int> st(x0.a.begin() + 1, x0.a.end()); std::reverse(st.begin(), st.end()); return load(n / 8, add(x0.a[0], K(off / 8, 64), 64), st); }
	return trunc(mk({ T_LSHR, x0.w, 0, { x, K(off, 8) }, {}, "" }), n);
}
int Terms::sext(int x, int from, int w)
{
	const Term x0 = t[x];
	if(from >= w) return trunc(x, w);
	if(x0.w < from) return x;
	if(x0.op == T_K) { uint64_t v = x0.k; if((v >> (from - 1)) & 1) v |= ~maskOf(from); return K(v, w); }
	if(x0.op == T_SEXT) return sext(x0.a[0], t[x0.a[0]].w, w);
	return mk({ T_SEXT, w, 0, { x }, {}, "" });
}
int Terms::andT(int a, int b, int w)
{
	uint64_t v;
	if(isK(a)) std::swap(a, b);
	if(isK(b, &v))
	{
		if(isK(a)) return K(t[a].k & v, w);
		if(v == 0) return K(0, w);
		if((v & maskOf(t[a].w)) == maskOf(t[a].w)) return a;
		if(t[a].op == T_FMASK && v == 1) return t[a].a[0];
		int s = __builtin_ctzll(v), n = 64 - __builtin_clzll(v) - s;
		if((v >> s) == maskOf(n))
		{
			if(s == 0) return trunc(a, n);
			if(t[a].op == T_EXT) return scale(bits(a, s, n), 1ull << s, w);
		}
	}
	if(a == b) return a;
	if(a > b) std::swap(a, b);
	return mk({ T_AND, w, 0, { a, b }, {}, "" });
}
int Terms::orT(int a, int b, int w)
{
	uint64_t v;
	if(isK(a)) std::swap(a, b);
	if(isK(b, &v)) { if(isK(a)) return K(t[a].k | v, w); if(v == 0) return a; }
	if(a == b) return a;
	if(a > b) std::swap(a, b);
	return mk({ T_OR, w, 0, { a, b }, {}, "" });
}
int Terms::xorT(int a, int b, int w)
{
	uint64_t v;
	if(isK(a)) std::swap(a, b);
	if(isK(b, &v))
	{
		if(isK(a)) return K(t[a].k ^ v, w);
		if(v == 0) return a;
		if(w == 1) return notc(a);
		if(v == maskOf(w)) return sub(K(~0ull, w), a, w);
		if((w == 64 || w == 32) && v == 1ull << (w - 1)) return un(T_FNEG, a, w);
	}
	if(a == b) return K(0, w);
	if(a > b) std::swap(a, b);
	return mk({ T_XOR, w, 0, { a, b }, {}, "" });
}
int Terms::shl(int a, int b, int w)
{
	uint64_t v;
	if(isK(b, &v)) return v < (uint64_t)w ? scale(a, 1ull << v, w) : K(0, w);
	return mk({ T_SHL, w, 0, { trunc(a, w), trunc(b, 8) }, {}, "" });
}
int Terms::lshr(int a, int b, int w)
{
	uint64_t v;
	if(isK(b, &v))
	{
		if(v == 0) return a;
		const Term a0 = t[a];
		if(v >= (uint64_t)a0.w) return K(0, w);
		if(a0.op == T_K) return K(a0.k >> v, w);
		if(a0.op == T_EXT) return ext(a0.k + v, a0.w - v);
		if(a0.op == T_LOAD && v % 8 == 0) return bits(a, v, a0.w - v);
	}
	return mk({ T_LSHR, w, 0, { a, trunc(b, 8) }, {}, "" });
}
int Terms::ashr(int a, int b, int w)
{
	uint64_t z; if(isK(b, &z) && z == 0) return a;
	if(t[a].w < w) return lshr(a, b, w);
	return mk({ T_ASHR, w, 0, { a, trunc(b, 8) }, {}, "" });
}
int Terms::bin(int op, int a, int b, int w)
{
	if((op == T_FADD || op == T_FMUL) && a > b) std::swap(a, b);
	if((op == T_FEQ) && a > b) std::swap(a, b);
	return mk({ op, w, 0, { a, b }, {}, "" });
}
int Terms::un(int op, int a, int w) { if(op == T_FNEG && t[a].op == T_FNEG) return t[a].a[0]; return mk({ op, w, 0, { a }, {}, "" }); }
int Terms::notc(int a)
{
	if(t[a].op == T_K) return K(!t[a].k, 1);
	if(t[a].op == T_NOT) return t[a].a[0];
	return mk({ T_NOT, 1, 0, { a }, {}, "" });
}
int Terms::eq(int a, int b, int w)
{
	a = trunc(a, w); b = trunc(b, w);
	if(a == b) return K(1, 1);
	uint64_t va, vb;
	if(isK(a, &va) && isK(b, &vb)) return K(va == vb, 1);
	if(isK(a)) std::swap(a, b);
	if(isK(b, &vb))
	{
		if(t[a].w < 64 && vb > maskOf(t[a].w)) return K(0, 1);
		if(t[a].w == 1) return vb ? a : notc(a);
		const Term a0 = t[a];
		if(a0.op == T_LIN && a0.w <= w && (a0.k || a0.a.size() == 2 || (a0.a.size() == 1 && a0.c[0] == maskOf(a0.w))))
		{
			// x + k == v, x - y == 0
			std::map<int, uint64_t> m; for(size_t i = 0; i < a0.a.size(); i++) m[a0.a[i]] = a0.c[i];
			uint64_t rest = (vb - a0.k) & maskOf(a0.w);
			if(a0.a.size() == 1 && a0.c[0] == 1) return eq(a0.a[0], K(rest, a0.w), a0.w);
			if(a0.a.size() == 1 && a0.c[0] == maskOf(a0.w)) return eq(a0.a[0], K(-rest, a0.w), a0.w);
			if(a0.a.size() == 2 && rest == 0)
			{
				if(a0.c[0] == 1 && a0.c[1] == maskOf(a0.w)) return eq(a0.a[0], a0.a[1], a0.w);
				if(a0.c[1] == 1 && a0.c[0] == maskOf(a0.w)) return eq(a0.a[0], a0.a[1], a0.w);
			}
		}
		if(a0.op == T_XOR && !vb) return eq(a0.a[0], a0.a[1], w);
	}
	else if(a > b) std::swap(a, b);
	if(isK(b)) b = K(t[b].k, w);
	return mk({ T_EQ, 1, 0, { a, b }, {}, "" });
}
int Terms::ult(int a, int b, int w)
{
	uint64_t va, vb;
	if(a == b) return K(0, 1);
	if(isK(a, &va) && isK(b, &vb)) return K((va & maskOf(w)) < (vb & maskOf(w)), 1);
	if(isK(b, &vb) && vb == 0) return K(0, 1);
	if(isK(b, &vb) && vb == 1) return eq(a, K(0, w), w);
	if(isK(b, &vb) && t[a].w < 64 && vb > maskOf(t[a].w)) return K(1, 1);
	return mk({ T_ULT, 1, 0, { a, b }, {}, "" });
}
int Terms::slt(int a, int b, int w)
{
	uint64_t va, vb;
	if(a == b) return K(0, 1);
	auto s = [&](uint64_t v) { v &= maskOf(w); if((v >> (w - 1)) & 1) v |= ~maskOf(w); return (int64_t)v; };
	if(isK(a, &va) && isK(b, &vb)) return K(s(va) < s(vb), 1);
	return mk({ T_SLT, 1, 0, { trunc(a, w), trunc(b, w) }, {}, "" });
}
int Terms::select(int c, int a, int b, int w)
{
	uint64_t v, va, vb;
	if(isK(c, &v)) return v ? a : b;
	if(a == b) return a;
	if(t[c].op == T_NOT) return select(t[c].a[0], b, a, w);
	if(isK(a, &va) && isK(b, &vb) && va == 1 && vb == 0) return c;
	if(isK(a, &va) && isK(b, &vb) && va == 0 && vb == 1) return notc(c);
	return mk({ T_SELECT, w, 0, { c, a, b }, {}, "" });
}
bool Terms::mayAlias(int a, int sa, int b, int sb)
{
	std::map<int, uint64_t> m; uint64_t k = 0;
	addTo(m, k, a, 1, 64, true); addTo(m, k, b, ~0ull, 64, true);
	int d = lin(64, m, k);
	uint64_t v;
	auto has = [&](int x, int base) { const Term &t0 = t[x]; if(x == base) return true; if(t0.op != T_LIN) return false; for(size_t i = 0; i < t0.a.size(); i++) if(t0.a[i] == base && t0.c[i] == 1) return true; return false; };
	if(isK(d, &v)) { int64_t s = (int64_t)v; return s < sb && -s < sa; }
	if(has(a, CONST) != has(b, CONST)) return false;
	if(has(a, REG) && has(b, REG))
	{
		auto field = [&](int x) { const Term &t0 = t[x]; if(t0.op == T_LIN && t0.a.size() == 2 && t0.k < 8) for(int i = 0; i < 2; i++) if(t0.a[i] == REG && t[t0.a[1 - i]].op == T_EXT && t[t0.a[1 - i]].w == 8 && t0.c[1 - i] == 8) return t0.a[1 - i]; return -1; };
		if(distinctFields && field(a) >= 0 && field(b) >= 0 && field(a) != field(b)) return false;
		auto whole = [&](int x) { if(x == REG) return true; const Term &t0 = t[x]; if(t0.op != T_LIN) return false; for(size_t i = 0; i < t0.a.size(); i++) if(t0.a[i] != REG && (t0.c[i] & 7)) return false; return true; };
		auto lowK = [&](int x) { return t[x].op == T_LIN ? (int)(t[x].k & 7) : 0; };
		if(whole(a) && whole(b)) { int ka = lowK(a), kb = lowK(b); return ka < kb + sb && kb < ka + sa; }
	}
	return true;
}
int Terms::load(int size, int addr, const std::vector<int> &stores)
{
	addr = flat(addr);
	// the fixed registers of the register file
	if(size == 8 && t[addr].op == T_LIN && t[addr].a.size() == 1 && t[addr].a[0] == REG && t[addr].c[0] == 1)
	{
		if(t[addr].k == 8) return FRAME;
		if(t[addr].k == 16) return CONST;
		if(t[addr].k == 24) return REG;
	}
	std::vector<int> a{ addr };
	for(int i = (int)stores.size() - 1; i >= 0; i--)
	{
		int st = stores[i];
		int sa = t[st].a[0], ss = (int)t[st].k;
		if(sa == addr && ss == size && a.size() == 1) return t[t[st].a[1]].w <= size * 8 ? t[st].a[1] : trunc(t[st].a[1], size * 8);
		if(mayAlias(sa, ss, addr, size)) a.push_back(st);
	}
	return mk({ T_LOAD, size * 8, 0, a, {}, "" });
}
int Terms::store(int size, int addr, int val) { return mk({ T_ST, 0, (uint64_t)size, { flat(addr), trunc(val, size * 8) }, {}, "" }); }
int Terms::call(const std::string &f, std::vector<int> args, int w) { return mk({ T_CALL, w, 0, args, {}, f }); }
int Terms::rebuild(int x, std::map<int, int> &subst, std::map<int, int> &memo)
{
	auto s = subst.find(x);
	if(s != subst.end()) return s->second;
	auto it = memo.find(x);
	if(it != memo.end()) return it->second;
	const Term x0 = t[x];
	int r = x;
	if(x0.op == T_EXT)
	{
		// a part of a field with a known value
		for(auto &p : subst)
		{
			const Term &f = t[p.first];
			uint64_t v;
			if(f.op == T_EXT && isK(p.second, &v) && f.k <= x0.k && f.k + f.w >= x0.k + x0.w) return memo[x] = K(v >> (x0.k - f.k), x0.w);
		}
		return memo[x] = x;
	}
	if(!x0.a.empty())
	{
		std::vector<int> a;
		for(int y : x0.a) a.push_back(rebuild(y, subst, memo));
		if(a != x0.a)
			switch(x0.op)
			{
			case T_LIN: { std::map<int, uint64_t> m; uint64_t k = x0.k; for(size_t i = 0; i < a.size(); i++) addTo(m, k, a[i], x0.c[i], x0.w, false); r = lin(x0.w, m, k); break; }
			case T_AND: r = andT(a[0], a[1], x0.w); break;
			case T_OR: r = orT(a[0], a[1], x0.w); break;
			case T_XOR: r = xorT(a[0], a[1], x0.w); break;
			case T_MUL: r = mul(a[0], a[1], x0.w); break;
			case T_SHL: r = shl(a[0], a[1], x0.w); break;
			case T_LSHR: r = lshr(a[0], a[1], x0.w); break;
			case T_ASHR: r = ashr(a[0], a[1], x0.w); break;
			case T_SEXT: r = sext(a[0], t[x0.a[0]].w, x0.w); break;
			case T_TRUNC: r = trunc(a[0], x0.w); break;
			case T_EQ: r = eq(a[0], a[1], std::max(t[x0.a[0]].w, t[x0.a[1]].w)); break;
			case T_ULT: r = ult(a[0], a[1], 64); break;
			case T_SLT: r = slt(a[0], a[1], std::max(t[x0.a[0]].w, t[x0.a[1]].w)); break;
			case T_NOT: r = notc(a[0]); break;
			case T_SELECT: r = select(a[0], a[1], a[2], x0.w); break;
			case T_LOAD: { std::vector<int> st; for(size_t i = 1; i < a.size(); i++) if(a[i] != NOP) st.push_back(a[i]); std::reverse(st.begin(), st.end()); r = load(x0.w / 8, a[0], st); break; }
			case T_ST: r = store(x0.k, a[0], a[1]); break;
			case T_FADD: case T_FMUL: case T_FEQ: r = bin(x0.op, a[0], a[1], x0.w); break;
			default: { Term n = x0; n.a = a; r = mk(n); }
			}
	}
	return memo[x] = r;
}
std::string Terms::str(int i, int depth)
{
	if(i < 0) return "?";
	const Term x = t[i];
	if(depth > 9) return "..";
	auto A = [&](size_t n) { return str(x.a[n], depth + 1); };
	static const char *names[] = { "K", "SYM", "EXT", "LIN", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "mul", "sext", "trunc", "eq", "ult", "slt", "not", "feq", "flt", "fle", "ford", "fadd", "fsub", "fmul", "fdiv", "frem", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "fneg", "load", "st", "call", "select", "fmask", "junk" };
	switch(x.op)
	{
	case T_K: return x.k > 4096 && x.k > maskOf(x.w) / 2 ? std::to_string(x.w == 64 ? (int64_t)x.k : (int64_t)x.k - (int64_t)maskOf(x.w) - 1) : std::to_string(x.k);
	case T_SYM: return x.s;
	case T_EXT: if(x.k == 8 && x.w == 8) return "rA"; if(x.k == 16 && x.w == 8) return "rB"; if(x.k == 24 && x.w == 8) return "rC"; if(x.k == 32 && x.w == 32) return "arg"; return "cmd[" + std::to_string(x.k) + "+" + std::to_string(x.w) + "]";
	case T_LIN: { std::string r; for(size_t j = 0; j < x.a.size(); j++) { if(j) r += "+"; if(x.c[j] != 1) r += str(mk({ T_K, x.w, x.c[j], {}, {}, "" })) + "*"; r += A(j); } if(x.k) r += "+" + str(mk({ T_K, x.w, x.k, {}, {}, "" })); return "(" + r + ")" + (x.w == 64 ? "" : ":" + std::to_string(x.w)); }
	case T_LOAD: { std::string r = "m" + std::to_string(x.w / 8) + "[" + A(0) + "]"; if(x.a.size() > 1) r += "'" + std::to_string(x.a.size() - 1); return r; }
	case T_ST: return "m" + std::to_string(x.k) + "[" + A(0) + "] = " + A(1);
	}
	std::string r = x.op == T_CALL ? x.s : std::string(names[x.op]) + std::to_string(x.w);
	r += "(";
	for(size_t j = 0; j < x.a.size(); j++) r += (j ? ", " : "") + A(j);
	return r + ")";
}
