#pragma once
#include "core.h"
#include "llvm/Analysis/LoopInfo.h"
// what a counting loop iterates over
struct Counting { Loop *L = nullptr; const PHINode *iv = nullptr; const Value *bound = nullptr; int64_t start = -1, step = 0; int64_t slack = 0; bool single = false; bool inclusive = false; };
// counting loop (innermost around 'at') whose induction variable is an integer starting at a constant
bool countingLoop(LoopInfo &LI, const Instruction *at, Counting &c, bool innermostOnly = true);
