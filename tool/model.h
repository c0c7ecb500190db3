// Concrete object models for evaluating compiler passes over symbolic operands.
#pragma once
#include "eval.h"
namespace {

// byte offset and size of a dotted member path
bool member(const DICompositeType *rec, const std::string &path, uint64_t &off, uint64_t &size, const DIType **ty = nullptr)
{
	size_t d = path.find('.');
	std::string head = path.substr(0, d);
	if(!rec) return false;
	for(auto &f : fieldsOf(rec))
		if(f.name == head)
		{
			if(d == std::string::npos) { off += f.offset; size = f.size; if(ty) *ty = f.type; return true; }
			off += f.offset;
			return member(dyn_cast_or_null<DICompositeType>(stripType(f.type)), path.substr(d + 1), off, size, ty);
		}
	return false;
}
struct Model
{
	St &s; std::vector<std::string> missing;
	Model(St &s) : s(s) {}
	uint64_t alloc(uint64_t n) { uint64_t r = s.heap; s.heap += (n + 127) & ~63ull; return r; }
	uint64_t obj(const std::string &rec) { auto *r = recordOf(rec); if(!r) { missing.push_back(rec); return alloc(8); } return alloc(r->getSizeInBits() / 8); }
	void put(uint64_t o, const std::string &rec, const std::string &path, int term)
	{
		uint64_t off = 0, size = 0;
		if(!member(recordOf(rec), path, off, size) || !size || size > 8) { missing.push_back(rec + "." + path); return; }
		s.mem[T.K(o + off, 64)] = { (int)size, T.trunc(term, (int)size * 8) };
	}
	void putK(uint64_t o, const std::string &rec, const std::string &path, uint64_t v) { uint64_t off = 0, size = 0; if(!member(recordOf(rec), path, off, size) || !size || size > 8) { missing.push_back(rec + "." + path); return; } s.mem[T.K(o + off, 64)] = { (int)size, T.K(v, (int)size * 8) }; }
	int read(uint64_t at, int size)
	{
		for(int d = 0; d < 8; d++)
		{
			auto it = s.mem.find(T.K(at - d, 64));
			if(it == s.mem.end() || it->second.first < d + size) continue;
			return d || it->second.first > size ? T.bits(it->second.second, d * 8, size * 8) : it->second.second;
		}
		return -1;
	}
	int get(uint64_t o, const std::string &rec, const std::string &path)
	{
		uint64_t off = 0, size = 0;
		if(!member(recordOf(rec), path, off, size) || !size || size > 8) { missing.push_back(rec + "." + path); return -1; }
		return read(o + off, (int)size);
	}
	uint64_t getK(uint64_t o, const std::string &rec, const std::string &path, uint64_t def = ~0ull) { int t = get(o, rec, path); uint64_t v; return t >= 0 && T.isK(t, &v) ? v : def; }
};
int64_t enumVal(const std::string &e, const std::string &n) { for(auto &p : enumOf(e)) if(p.first == n) return p.second; return -1; }
// the tag that identifies objects of a node type
int64_t nodeTag(const std::string &type)
{
	for(auto &F : *M)
	{
		if(F.isDeclaration()) continue;
		std::string n = demangle(F.getName().str());
		if(n.find("isType<" + type + ">(") == std::string::npos && n.find("getType<" + type + ">(") == std::string::npos) continue;
		for(auto &I : instructions(F)) if(auto *C = dyn_cast<ICmpInst>(&I)) if(auto *k = dyn_cast<ConstantInt>(C->getOperand(1))) if(k->getBitWidth() == 32) return k->getSExtValue();
	}
	return -1;
}
void prepare(Function *C)
{
	static std::set<Function*> ready;
	if(ready.insert(C).second) normalise(C, nullptr, false);
}
// contents of constant objects initialised by code
void globalInits(const std::string &file, std::map<int, std::pair<int, int>> &mem, std::function<bool(const std::string&)> want)
{
	for(auto &F : *M)
	{
		if(F.isDeclaration() || !F.getName().starts_with("__cxx_global_var_init") || fileOf(&F) != file) continue;
		prepare(&F);
		Eval E(&F);
		E.heapMode = true; E.loopsSummarised = false;
		E.enterCall = [](St&, Function *C) { prepare(C); return instrCount(C) < 100; };
		for(auto &G : M->globals()) if(want(demangle(G.getName().str()))) privateSyms.insert(T.sym("glob:" + G.getName().str()));
		St init; init.bb = &F.getEntryBlock(); init.it = init.bb->begin();
		try { E.run(init); } catch(Undecided &) { continue; }
		if(E.done.size() == 1) for(auto &p : E.done[0].mem) if(!T.isK(p.first)) mem[p.first] = p.second;
	}
}
}
