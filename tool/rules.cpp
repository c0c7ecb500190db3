#include "rules.h"
std::vector<std::pair<std::string, RuleFn>> &ruleTable() { static std::vector<std::pair<std::string, RuleFn>> t; return t; }
RULE(dump)
{
	for(Function *F : findFns(args[0])) { normalise(F); F->print(outs()); }
}
// debugging: facts before the instructions on a source line
RULE(facts)
{
	InlinePolicy P;
	P.want = [](Function *C, CallBase *) { unsigned n = instrCount(C); return fileOf(C).compare(0, 5, "NULLC") == 0 && (n < 25 || (n < 60 && C->getReturnType()->isIntegerTy())); };
	for(Function *F : definedFns()) basicSimplify(F, false);
	for(Function *F : findFns(args[0]))
	{
		normalise(F, &P);
		FactFlow FF(*F);
		FF.run();
		FF.visit([&](const Instruction &I, const FactSet &s) {
			if(lineOf(&I) != (unsigned)atoi(args[1].c_str())) return;
			errs() << I << "\n";
			for(auto &f : s) errs() << "     " << FF.E.str(f.a) << " " << (const char*[]){ "!=", "==", "u<", "u<=", "s<", "s<=", "?" }[f.k] << " " << FF.E.str(f.b) << "\n";
		});
	}
}
