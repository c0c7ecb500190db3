#pragma once
#include "core.h"
typedef void (*RuleFn)(const StrVec &args);
std::vector<std::pair<std::string, RuleFn>> &ruleTable();
struct RuleReg { RuleReg(const char *n, RuleFn f) { ruleTable().push_back({ n, f }); } };
#define RULE(n) static void rule_##n(const StrVec &args); static RuleReg reg_##n(#n, rule_##n); static void rule_##n(const StrVec &args)
