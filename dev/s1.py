import sys; sys.path.insert(0,'/tmp')
from mkseed import *
T='				return rvm->ExecError(instruction, "ERROR: null pointer access");\n'
seed('c01-null-load','C01',[('NULLC/Executor_RegVm.cpp','''		CASE(rviMull)
			if((uintptr_t)regFilePtr[cmd.rC].ptrValue < 0x00010000)
'''+T,'''		CASE(rviMull)
			if((uintptr_t)regFilePtr[cmd.rB].ptrValue < 0x00010000 && !regFilePtr[cmd.rC].ptrValue)
'''+T)],NC%('','"null pointer access"'),'a long multiplication whose right operand is read through a null pointer','null operand of the fused long multiplication crashes the host instead of reporting an error',
{'demo.nc':'''long mul(long a, long ref p){ return a * *p; }
long big = 1l << 40;
return int(mul(big, nullptr));
'''})
seed('c03-div-fold','C03',[('NULLC/Executor_RegVm.cpp','''			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
				return rvm->ExecError(instruction, "ERROR: integer division by zero");

			// Quotient of the minimum value and -1 is not representable, report it the same way as the hardware trap does
			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
				return rvm->ExecError(instruction, "ERROR: integer division by zero");

			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % ''','''			if(regFilePtr[cmd.rB].longValue != 0 && *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
				return rvm->ExecError(instruction, "ERROR: integer division by zero");

			// Quotient of the minimum value and -1 is not representable, report it the same way as the hardware trap does
			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
				return rvm->ExecError(instruction, "ERROR: integer division by zero");

			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % ''')],NC%('','"division by zero"'),'a long remainder of zero by zero at run time','0 % 0 of longs raises a host signal',
{'demo.nc':'''long mod(long a, long b){ return a % b; }
long z = 0l;
for(int i = 0; i < 3; i++) z = z * 2l;
return int(mod(z, z));
'''})
seed('c10-redirect-null','C10',[('NULLC/StdLib.cpp','''	if(!a)
	{
		nullcThrowError("ERROR: null pointer access");
		return 0;
	}

	return linker->exTypes[*a].size;''','''	if(a && !nullcIsPointer(*a) && linker->exTypes[*a].size == ~0u)
	{
		nullcThrowError("ERROR: null pointer access");
		return 0;
	}

	return linker->exTypes[*a].size;''')],NC%('','"null pointer access"'),'reading the size property through a null type handle','null type handle crashes the host in the size query',
{'demo.nc':'''typeid ref t = nullptr;
return t.size;
'''})
