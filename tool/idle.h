#pragma once
#include "core.h"
#include "llvm/Analysis/LoopInfo.h"
// the last branch of a way around the loop on which nothing changes, if there is one
const Instruction *idlePath(Loop *L);
int64_t searchPages(Function *F, uint64_t vec, const std::vector<uint64_t> &pages, uint64_t address);
std::string searchLarge(Function *alloc, Function *lookup, uint64_t size, bool &decided);
std::vector<uint64_t> insertPage(Function *F, const DICompositeType *pool, std::vector<uint64_t> pages, uint64_t fresh);
