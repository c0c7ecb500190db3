// constant propagation through an address lookup for given sorted pages
#include "eval.h"
#include "idle.h"
// result of F(pool, address) when the pool has pages at the given addresses: -1 not decided
int64_t searchPages(Function *F, uint64_t vec, const std::vector<uint64_t> &pages, uint64_t address)
{
	const uint64_t self = 0x1000000, arr = 0x2000000;
	uint64_t dataOff = ~0ull, countOff = ~0ull; int countSize = 4;
	for(auto *T2 : allRecords())
		if(T2->getName().starts_with("FastVector<"))
		{
			for(auto &f : fieldsOf(T2)) { if(f.name == "data") dataOff = f.offset; if(f.name == "count") { countOff = f.offset; countSize = (int)f.size; } }
			break;
		}
	if(dataOff == ~0ull || countOff == ~0ull || F->arg_size() != 2) return -1;
	Eval E(F);
	E.heapMode = true; E.loopsSummarised = false;
	E.fixed[F->getArg(0)] = T.K(self, 64);
	E.fixed[F->getArg(1)] = T.K(address, 64);
	St s; s.bb = &F->getEntryBlock(); s.it = s.bb->begin();
	s.mem[T.K(self + vec + dataOff, 64)] = { 8, T.K(arr, 64) };
	s.mem[T.K(self + vec + countOff, 64)] = { countSize, T.K(pages.size(), countSize * 8) };
	for(size_t i = 0; i < pages.size(); i++) s.mem[T.K(arr + i * 8, 64)] = { 8, T.K(pages[i], 64) };
	int64_t r = -1; int rets = 0;
	E.onRet = [&](St &t, const ReturnInst *RI) { rets++; uint64_t v; if(T.isK(E.of(t, RI->getReturnValue()), &v)) r = (int64_t)v; else rets = 100; };
	try { E.run(s); } catch(Undecided &) { return -1; }
	return rets == 1 ? r : -1;
}

// the pages after Alloc had to add one at the given address: empty when not decided
std::vector<uint64_t> insertPage(Function *F, const DICompositeType *pool, std::vector<uint64_t> pages, uint64_t fresh)
{
	const uint64_t self = 0x1000000, arr = 0x2000000;
	std::map<std::string, Field> fs, vs;
	for(auto &f : fieldsOf(pool)) fs[f.name] = f;
	for(auto *T2 : allRecords()) if(T2->getName().starts_with("FastVector<")) { for(auto &f : fieldsOf(T2)) vs[f.name] = f; break; }
	for(auto *n : { "freeBlocks", "lastBlock", "activePages", "lastNum", "sortedPages" }) if(!fs.count(n)) return {};
	for(auto *n : { "data", "count", "max" }) if(!vs.count(n)) return {};
	Eval E(F);
	E.heapMode = true; E.loopsSummarised = false;
	E.fixed[F->getArg(0)] = T.K(self, 64);
	St s; s.bb = &F->getEntryBlock(); s.it = s.bb->begin();
	auto put = [&](uint64_t off, int size, uint64_t v) { s.mem[T.K(self + off, 64)] = { size, T.K(v, size * 8) }; };
	put(fs["freeBlocks"].offset, 8, self + fs["lastBlock"].offset);
	put(fs["activePages"].offset, 8, pages.empty() ? 0 : pages[pages.size() / 2]);
	std::string n = pool->getName().str();
	put(fs["lastNum"].offset, (int)fs["lastNum"].size, atoll(n.c_str() + n.find(',') + 1));
	uint64_t v = fs["sortedPages"].offset;
	put(v + vs["data"].offset, 8, arr);
	put(v + vs["count"].offset, (int)vs["count"].size, pages.size());
	put(v + vs["max"].offset, (int)vs["max"].size, pages.size() + 4);
	for(size_t i = 0; i < pages.size(); i++) s.mem[T.K(arr + i * 8, 64)] = { 8, T.K(pages[i], 64) };
	E.onCall = [&](St &s, const CallBase *CB, std::vector<St> &) {
		Function *C = calleeOf(CB);
		if((!C && CB->getType()->isPointerTy()) || (C && sname(C) == "NULLC::alignedAlloc")) { s.env[CB] = T.K(fresh, 64); return true; }
		if(!CB->getType()->isVoidTy()) s.env[CB] = E.fresh(CB, tw(CB->getType()));
		return true;
	};
	std::vector<uint64_t> out; int rets = 0;
	E.onRet = [&](St &t, const ReturnInst *) {
		rets++;
		uint64_t c;
		if(!T.isK(E.loadAt(t, T.K(self + v + vs["count"].offset, 64), (int)vs["count"].size), &c) || c > 64) { rets = 100; return; }
		for(uint64_t i = 0; i < c; i++) { uint64_t x; if(!T.isK(E.loadAt(t, T.K(arr + i * 8, 64), 8), &x)) { rets = 100; return; } out.push_back(x); }
	};
	try { E.run(s); } catch(Undecided &u) { if(getenv("DBGS")) errs() << u.why << "\n"; return {}; }
	if(getenv("DBGS")) errs() << "rets " << rets << "\n";
	if(rets != 1) return {};
	return out;
}
// a large object: allocate it with the given size, then look up addresses inside; "" when all of them lead to the object
std::string searchLarge(Function *alloc, Function *lookup, uint64_t size, bool &decided)
{
	decided = false;
	const uint64_t block = 0x50000000, node = 0x60000000;
	std::function<void(Function*)> inlineInto = [](Function *F) {
		InlinePolicy Q;
		Q.want = [](Function *C, CallBase *) { return fileOf(C).compare(0, 5, "NULLC") == 0 && instrCount(C) < 40 && sname(C).find("Pool") == std::string::npos && sname(C).find("Tree") == std::string::npos; };
		normalise(F, &Q);
	};
	inlineInto(alloc); inlineInto(lookup);
	struct Made { std::map<int, std::pair<int, int>> mem; uint64_t obj, start, end, memory = 0; };
	std::vector<Made> made;
	{
		Eval E(alloc);
		E.heapMode = true; E.loopsSummarised = false;
		if(alloc->arg_size() < 1) return "";
		E.fixed[alloc->getArg(0)] = T.K(size, 32);
		E.onCall = [&](St &s, const CallBase *CB, std::vector<St> &) {
			Function *C = calleeOf(CB);
			std::string n = C ? sname(C) : "";
			if((!C && CB->getType()->isPointerTy()) || n == "NULLC::alignedAlloc") { s.env[CB] = T.K(block, 64); s.events.push_back({ "memory", { E.of(s, CB->getArgOperand(0)) }, CB }); return true; }
			if(n.compare(0, 4, "Tree") == 0 && n.find("::insert") != std::string::npos)
			{
				int a = E.of(s, CB->getArgOperand(1));
				s.events.push_back({ "range", { E.loadAt(s, a, 8), E.loadAt(s, T.add(a, T.K(8, 64), 64), 8) }, CB });
			}
			if(!CB->getType()->isVoidTy()) s.env[CB] = E.fresh(CB, tw(CB->getType()));
			return true;
		};
		E.onRet = [&](St &t, const ReturnInst *RI) {
			Made m;
			if(!RI->getReturnValue() || !T.isK(E.of(t, RI->getReturnValue()), &m.obj) || !m.obj) return;
			for(auto &e : t.events) if(e.name == "memory" && T.isK(e.a[0], &m.memory)) break;
			for(auto &e : t.events) if(e.name == "range" && T.isK(e.a[0], &m.start) && T.isK(e.a[1], &m.end)) { m.mem = t.mem; made.push_back(m); break; }
		};
		St s; s.bb = &alloc->getEntryBlock(); s.it = s.bb->begin();
		try { E.run(s); } catch(Undecided &u) { if(getenv("DBGS")) errs() << u.why << "\n"; return ""; }
	}
	if(getenv("DBGS")) errs() << "made " << made.size() << "\n"; if(made.empty()) return "";
	for(auto &m : made)
	{
		if(m.memory && m.obj + size > block + m.memory) return "a large object does not fit its memory";
		if(m.obj + size > m.end + 1 || m.start > m.obj) return "the range of a large object does not cover it";
		for(uint64_t d : { (uint64_t)0, (uint64_t)1, size / 2, size - 1 })
		{
			Eval E(lookup);
			E.heapMode = true; E.loopsSummarised = false;
			E.fixed[lookup->getArg(0)] = T.K(m.obj + d, 64);
			E.onCall = [&](St &s, const CallBase *CB, std::vector<St> &) {
				Function *C = calleeOf(CB);
				std::string n = C ? sname(C) : "";
				if(n.compare(0, 4, "Tree") == 0 && n.find("::find") != std::string::npos) { s.env[CB] = T.K(node, 64); return true; }
				if(!CB->getType()->isVoidTy()) s.env[CB] = T.K(0, tw(CB->getType()));
				return true;
			};
			int64_t got = -1; int rets = 0;
			E.onRet = [&](St &t, const ReturnInst *RI) { rets++; uint64_t v; if(T.isK(E.of(t, RI->getReturnValue()), &v)) got = (int64_t)v; else rets = 100; };
			St s; s.bb = &lookup->getEntryBlock(); s.it = s.bb->begin();
			s.mem = m.mem;
			s.mem[T.K(node, 64)] = { 8, T.K(m.start, 64) };
			s.mem[T.K(node + 8, 64)] = { 8, T.K(m.end, 64) };
			try { E.run(s); } catch(Undecided &u) { if(getenv("DBGS")) errs() << u.why << "\n"; return ""; }
			if(rets != 1) return "";
			decided = true;
			if(got != (int64_t)m.obj) return "an address inside of a large object does not lead to the object";
		}
	}
	return "";
}
