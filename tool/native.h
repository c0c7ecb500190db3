#pragma once
#include "core.h"
std::vector<Function*> nativeRoots();
bool scriptPointer(const Value *v);
const Value *scriptRoot(const Value *v, int depth = 0);
