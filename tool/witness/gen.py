#!/usr/bin/env python3
# writes a C++ file that instantiates the call wrappers of nullbind.h for every arity and kind of value
import sys
K = ['char', 'int', 'double', 'NULLCArray', 'bool', 'long long', 'float', 'NULLCRef', 'short', 'void*', 'unsigned char', 'NULLCFuncPtr', 'unsigned short', 'NULLCAutoArray', 'unsigned', 'Small', 'Wide']
print('#include "NULLC/nullc.h"\n#include "NULLC/nullbind.h"')
print('struct Small { char a, b, c, d, e, f; };\nstruct Wide { double x, y; int z; float w; };')
n = 0
def one(ret, args):
    global n
    a = ', '.join(args)
    print('extern %s w%d(%s);\nnullres b%d(){ return nullcBindModuleFunctionHelper("m", w%d, "f", 0); }' % (ret, n, a, n, n))
    n += 1
for k in K + ['void']:
    one(k, [])
for arity in range(1, 16):
    for s in range(0, len(K), 3):
        one((K + ['void'])[(s + arity * 5) % (len(K) + 1)], [K[(s + i * (1 + s % 4)) % len(K)] for i in range(arity)])
    one('int', ['int'] * arity)
    one('void', ['char'] * arity)
    one('double', ['double'] * arity)
