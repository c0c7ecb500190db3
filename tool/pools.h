#pragma once
#include "core.h"
[[maybe_unused]] static bool inRepo(const Function *F) { return fileOf(F).compare(0, 5, "NULLC") == 0; }
[[maybe_unused]] static std::string classOf(const Function *F) { std::string s = sname(F); size_t p = s.rfind("::"); return p == std::string::npos ? "" : s.substr(0, p); }
[[maybe_unused]] static std::string methodOf(const Function *F) { std::string s = sname(F); size_t p = s.rfind("::"); return p == std::string::npos ? s : s.substr(p + 2); }
[[maybe_unused]] static bool isPoolFn(const Function *F) { return classOf(F).compare(0, 16, "ObjectBlockPool<") == 0; }
[[maybe_unused]] static bool isTreeFn(const Function *F) { return classOf(F).compare(0, 5, "Tree<") == 0; }
