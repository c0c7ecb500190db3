#include "core.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "rules.h"
int main(int argc, char **argv)
{
	if(argc < 3) { errs() << "usage: nvlint <all.bc> <rule> [args]\n"; return 2; }
	LLVMContext C;
	SMDiagnostic D;
	auto m = parseIRFile(argv[1], D, C);
	if(!m) { D.print("nvlint", errs()); return 2; }
	M = m.get();
	StrVec args(argv + 3, argv + argc);
	std::string want = argv[2];
	bool found = false;
	for(auto &r : ruleTable())
		if(want == r.first) { found = true; r.second(args); }
	if(!found) { errs() << "unknown rule " << want << "\n"; return 2; }
	R.print(outs());
	outs().flush();
	_exit(0);
}
