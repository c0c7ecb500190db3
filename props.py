# One entry per property: what is claimed, where it lives, which analysis rules decide it.
PROPS = {
 'C01': {
  'title': 'The interpreter reports null accesses instead of faulting',
  'statement': 'While a script runs on the bytecode interpreter, every load, store, fused arithmetic operation, call-frame copy and range fill that goes through a script pointer is refused with a reported "null pointer access" error when that pointer lies in the first 64 KB of the address space. No such access ever reaches host memory, whatever the script computes.',
  'over': ['inputs', 'programs'], 'qtext': 'every script and every pointer value it can compute, on every path of every interpreter instruction',
  'why': 'There are about 75 separate memory accesses in the interpreter, one or more per instruction; tests sample a handful of null dereferences and only for the common load and store instructions.',
  'files': ['NULLC/Executor_RegVm.cpp'], 'mech': [('null page check before each access', 'NULLC/Executor_RegVm.cpp:RunCode, ExecCheckedReturn and helpers')],
  'rules': ['vmnull'], 'technique': 'forward must-dataflow over LLVM IR: each memory access through a script register is dominated by a fact pointer >= 0x10000',
  'note': 'Every access of the interpreter whose address derives from a 64-bit script register is an obligation and must be dominated by the comparison on that same register value. Trusts clang, the IR generation and that frame/global base registers are set up by the virtual machine.',
  'explain': 'Rule vmnull compiles the interpreter to LLVM IR, inlines small helpers, and for every load/store/memcpy/memset whose address is built from a 64-bit value loaded from the register file requires the dataflow fact 0x10000 <= pointer on that same value at that point. Registers addressed with compile time constants (frame, globals, constants) are set by the virtual machine and exempt.'},
 'C02': {
  'title': 'Array elements are only addressed inside the array',
  'statement': 'An element of an array is addressed only after its index was compared, without regard to sign, with the length of that array: in the interpreter and in generated machine code, in constant folding and every other rewriting of index operations by the optimiser, in the translation to bytecode when the comparison is left out for a constant index, and in compile-time evaluation. The length and the element size used are those of the array type or of the array value, the address is that of the element, and an index outside the array is reported as an error.',
  'over': ['inputs', 'programs'], 'qtext': 'every array, element size and index value, at every stage that turns an index operation into an address',
  'why': 'The comparison is implemented seven times and dropped twice as an optimisation; a wrong signedness or boundary in one of them shows only for a negative or exactly-at-the-end index that reaches that stage as the right kind of operand.',
  'files': ['NULLC/InstructionTreeVm.cpp', 'NULLC/InstructionTreeVmEval.cpp', 'NULLC/InstructionTreeRegVmLower.cpp', 'NULLC/ExpressionEval.cpp', 'NULLC/Executor_RegVm.cpp', 'NULLC/CodeGenRegVm_X86.cpp'],
  'mech': [('run-time check', 'NULLC/Executor_RegVm.cpp:RunCode rviIndex, NULLC/CodeGenRegVm_X86.cpp:GenCodeCmdIndex'), ('folding and rewriting', 'NULLC/InstructionTreeVm.cpp:RunConstantPropagation, RunPeepholeOptimizations'), ('lowering', 'NULLC/InstructionTreeRegVmLower.cpp:LowerInstructionIntoBlock'), ('evaluation', 'NULLC/ExpressionEval.cpp:EvaluateArrayIndex, NULLC/InstructionTreeVmEval.cpp:EvaluateInstruction')],
  'rules': ['index', 'agree rviIndex'], 'technique': 'abstract interpretation over LLVM IR of every stage that handles an index operation, on one operation with symbolic length, element size, address and index; guards and results compared structurally; dominance of comparisons for the expression evaluator',
  'note': 'Covers the language operation of indexing arrays and array values. Native library functions that walk arrays, and the host memory behind an array value whose length field is wrong, are not part of it; a constant index may skip the run-time comparison only when it is provably below the constant length.',
  'explain': 'Rule index evaluates the construction of index operations, constant folding, peephole rewriting, the tree evaluator and the lowering to bytecode on abstract index operations and requires each resulting element address (or unchecked instruction) to carry the guard index < length (unsigned) on its path and to compute array + index * element size; in the expression evaluator each element address must be dominated by both comparisons. Rule agree, restricted to the index instruction, requires the same of the interpreter and equality of the machine code paths with it.'},
 'C03': {
  'title': 'Integer division never raises a host arithmetic trap',
  'statement': 'Integer division and remainder of script values, at run time in the interpreter and in the machine code helpers and at compile time in constant folding and compile-time function evaluation, are only performed when the divisor is known to be neither zero nor minus one with the minimum dividend. Every other combination is reported as an error, left unfolded, or trapped inside the executor, so no script can make the host raise an arithmetic signal.',
  'over': ['inputs', 'programs'], 'qtext': 'every pair of operands for every division/remainder operator in every evaluator',
  'why': 'The operand pairs that trap (x/0 and min/-1, at two widths, in five evaluators) are specific values; the suite divides by zero in a few places and never divides the minimum by -1.',
  'files': ['NULLC/Executor_RegVm.cpp', 'NULLC/ExpressionEval.cpp', 'NULLC/InstructionTreeVm.cpp', 'NULLC/InstructionTreeVmEval.cpp', 'NULLC/CodeGenRegVm_X86.cpp'],
  'mech': [('divisor checks before the division', 'all evaluators'), ('arithmetic trap handler around generated code', 'NULLC/Executor_X86.cpp:Run')],
  'rules': ['div'], 'technique': 'forward must-dataflow over LLVM IR with disjunctive facts: each host division with a variable divisor is dominated by both exclusions',
  'note': 'All sdiv/srem/udiv/urem instructions with a non-constant divisor in the whole library are obligations; the JIT division helpers are accepted only while they are reachable solely through the generated code context whose launcher installs the arithmetic signal handler.',
  'explain': 'Rule div finds every host division or remainder with a non-constant divisor in the library IR and requires facts divisor != 0 and (divisor != -1 or dividend != minimum) at that point; helper calls are inlined and disjunctions of comparisons are tracked. Divisors of host-side bookkeeping that are proved non-zero by the same facts count too.'},
 'C04': {
  'title': 'Calls stay inside the stacks and every call gets a whole, cleared frame',
  'statement': 'Script calls, however deep and however large the frames of the called functions are, are refused with a reported stack or register overflow before memory outside of the data stack, the register file or the call stack is written. The memory of frames never moves while scripts run. A function that is entered has a frame and registers as large as it needs, with its local variables and registers cleared and its arguments intact; in both executors, from the host, from script code and from native functions.',
  'over': ['inputs', 'programs', 'configurations'], 'qtext': 'every function a program can contain (frame size, argument size, number of registers), every depth of calls, every size of the data stack',
  'why': 'Only calls at the very end of a stack or with unusual frames reach the critical comparisons; a mistake shows as host memory corruption at a depth or with a size no test has.',
  'files': ['NULLC/Executor_RegVm.cpp', 'NULLC/Executor_X86.cpp', 'NULLC/CodeGenRegVm_X86.cpp'], 'mech': [('calls of the interpreter', 'NULLC/Executor_RegVm.cpp: Run, ExecCall'), ('calls of generated code', 'NULLC/Executor_X86.cpp: Run, TranslateToNative; NULLC/CodeGenRegVm_X86.cpp: GenCodeCmdReturn'), ('guard pages and fault handler', 'NULLC/Executor_X86.cpp: Initialize, SetStackSize, HandleError')],
  'rules': ['frames'], 'technique': 'dataflow over LLVM IR: linear facts with exact wrap-around side conditions (Fourier-Motzkin elimination) at every write, stack top change and function entry; path obligations for page protection; partial evaluation of the prologue generator over function sizes',
  'note': 'Relies on the limits of the compiler for frame sizes (2^28 bytes), argument sizes (65535 bytes, not more than the frame) and registers (4 to 256), and on data stacks below 2 GB. Writes of machine code other than prologue and argument passing go through pointers the script owns and are not covered. Arguments of generated calls are trusted to be written upwards.',
  'explain': 'Rule frames takes the functions that enter script code (found from the call graph of the interpreter loop) and proves for every write, fill and copy into the data stack, register file or argument buffer that it stays inside, that the data stack is never grown, that its top stays below the limit, and that the entered function has its whole frame and registers, cleared. For generated code it proves the room and protection of the pages after the three stacks on every path of every function that allocates them, that each is unprotected before it is freed, that the fault handler recognises the whole ranges and is installed, and evaluates what the generated prologue and epilogue reserve, release and clear for each combination of frame, argument and register counts.'},
 'C05': {
  'title': 'Both executors select the same operation for every bytecode instruction',
  'statement': 'For every bytecode instruction except calls and returns, the machine instructions that the x86-64 code generator selects perform the same register and memory reads, the same arithmetic, comparison or conversion, the same writes, and the same jump or reported error as the interpreter performs for that instruction, for all register numbers, constants and operand values. This covers the choice of machine operations and operands for one instruction (with its fused jump) by the instruction generators and the interpreter handlers; encoding of the machine instructions into bytes, and the reuse of cached register values across instructions, are not part of it.',
  'over': ['inputs', 'programs'], 'qtext': 'every bytecode instruction, every operand kind and register number, every state of the code generator, every operand value',
  'why': 'The two implementations of about 90 instructions are written separately, each with special cases for registers, constants and fused compare-and-jump pairs; tests run a few operand combinations of each in both.',
  'files': ['NULLC/Executor_RegVm.cpp', 'NULLC/CodeGenRegVm_X86.cpp', 'NULLC/Executor_X86.cpp'], 'mech': [('interpreter handlers', 'NULLC/Executor_RegVm.cpp:RunCode'), ('instruction generators', 'NULLC/CodeGenRegVm_X86.cpp:GenCodeCmd*'), ('dispatch table', 'NULLC/Executor_X86.cpp:InitNative')],
  'rules': ['agree'], 'technique': 'path-partitioned abstract interpretation of both implementations over LLVM IR into normalised effect terms (value numbering with algebraic normal forms), compared structurally; no solver',
  'note': 'For each opcode the interpreter handler is reduced to guarded effect lists over symbolic registers, each generator path is reduced to the machine operations it requests, whose effect is computed on an abstract machine, and both lists are compared. Trusts the model of the x86 operations and the name of the emission helpers; register value caching is modelled as any choice it may make.',
  'explain': 'Rule agree specialises the interpreter loop on every opcode, evaluates its paths over terms, evaluates every path of the generator installed for the opcode in the dispatch table (including all answers the register cache may give), interprets the requested machine operations abstractly, and requires equal guards, reads, operations with operand widths, writes, jump targets and errors.'},
 'C10': {
  'title': 'Native library functions check script pointers before use',
  'statement': 'A native function of the standard library that receives a pointer, an array or a dynamically typed reference from a script reports an error (or ignores the argument) when the pointer in it is null. It never reads or writes through such a null pointer and never hands it to a host library routine that would.',
  'over': ['inputs', 'programs'], 'qtext': 'every bound native function, every pointer-carrying argument, null or not',
  'why': 'There are about 350 bound functions with several hundred pointer uses; the suite passes null to a few of them.',
  'files': ['NULLC/StdLib.cpp', 'NULLC/includes'], 'mech': [('null checks at the top of native functions', 'NULLC/StdLib.cpp, NULLC/includes/*.cpp')],
  'rules': ['nativenull'], 'technique': 'forward must-dataflow over LLVM IR from the set of bound native functions: non-null facts at each dereference, with callee summaries',
  'note': 'Native functions are found through the module binding calls, so new ones are covered. A non-empty array is assumed to have a data pointer (the invariant of the array type), and pointers read from script memory are outside the rule.',
  'explain': 'Rule nativenull collects every function passed to the module binding API, inlines small helpers, and requires at each dereference of a pointer parameter (or pointer member of a by-value argument), and each hand-over of it to another routine, a non-null fact, a positive element count, or a callee that checks the parameter itself.'},
 'C11': {
  'title': 'Failed script heap allocations are never written through',
  'statement': 'When the memory limit refuses an allocation requested by the virtual machine or by a native library function, the failure is noticed before the result is used. No code writes to, reads from or passes on the missing block.',
  'over': ['inputs', 'fault_sequences', 'configurations'], 'qtext': 'every allocation request site, every point at which the memory limit is reached',
  'why': 'Memory exhaustion can strike at each of about 50 allocation sites; tests reach the limit at one or two.',
  'files': ['NULLC/StdLib.cpp', 'NULLC/nullc.cpp', 'NULLC/Executor_Common.cpp', 'NULLC/Executor_RegVm.cpp', 'NULLC/CodeGenRegVm_X86.cpp', 'NULLC/includes'],
  'mech': [('null result of the allocator is checked by the requester', 'callers of AllocObject/AllocArray/nullcAllocate*')],
  'rules': ['allocnull'], 'technique': 'forward must-dataflow over LLVM IR: results of the allocator family (and of wrappers that return them) are non-null at each use',
  'note': 'Covers all callers of the allocation family in the library, including wrappers inferred to hand an unchecked result back. Blocks reached through memory after being stored are outside the rule.',
  'explain': 'Rule allocnull takes the script heap allocation functions as sources, infers wrappers that return their result, and requires a non-null fact at each dereference or hand-over of the result in every caller.'},
 'C12': {
  'title': 'A native function that reported an error has no further effect',
  'statement': 'Once a bound native function has itself reported an error to the script, it returns without writing to script memory, without reporting a second error over the first one, and without starting any further host action such as file output, clock or console changes. Only releasing resources it holds and filling in its own return value may still happen.',
  'over': ['inputs', 'programs'], 'qtext': 'every error report in every bound native function and every path that continues after it',
  'why': 'There are several hundred error reports in native functions; a missing return after one only matters on the error path, which tests rarely take and never inspect for side effects.',
  'files': ['NULLC/StdLib.cpp', 'NULLC/includes'], 'mech': [('return after nullcThrowError', 'bound native functions in NULLC/StdLib.cpp, NULLC/includes/*.cpp')],
  'rules': ['throwstop'], 'technique': 'typestate over the control flow graph: from each error report no path reaches an effectful instruction (interprocedural effect summaries)',
  'note': 'Helpers of the same module are inlined, so reporting through a helper followed by a status check is understood. Errors reported inside the allocation routines are outside this rule (C11 covers their results).',
  'explain': 'Rule throwstop takes every bound native function, inlines same-module helpers, and from each error-report call walks all control flow paths to the return; any store outside the function own objects, indirect call, second report, or call whose transitive effect summary is not empty is a violation.'},
 'C13': {
  'title': 'The API refuses to work in states in which it cannot, and cleans up',
  'statement': 'Before nullcInit and after nullcTerminate no function of the public API uses an object of the library (executors, linker, compiler context, buffers) or starts work that allocates memory; functions that check the state return failure with a message. Functions that need the compiler context check for it. A second nullcInit changes nothing. nullcTerminate releases every object, clears all pointers to them and empties the global lists; an object that is released elsewhere is replaced or cleared at once. Whichever executor is selected, each function does the same operations on the selected one.',
  'over': ['histories', 'configurations'], 'qtext': 'every public API function in every state of the library (not initialised, terminated, without a program) with every executor',
  'why': 'The tests initialise the library once per configuration and call functions in the usual order; use after termination, before initialisation or with stale state of another program is not in the suite.',
  'files': ['NULLC/nullc.cpp', 'NULLC/nullc.h', 'NULLC/nullc_debug.h'], 'mech': [('state checks', 'NULLC/nullc.cpp:NULLC_CHECK_INITIALIZED'), ('lifecycle', 'NULLC/nullc.cpp:nullcInitCustomAlloc, nullcTerminate, nullcClean'), ('executor selection', 'NULLC/nullc.cpp')],
  'rules': ['apistate'], 'technique': 'partial evaluation of every public API function over LLVM IR for each library state and executor selection, with null dereference, release typestate and call parity obligations',
  'note': 'The objects and the flag that tells the state are discovered from nullcInitCustomAlloc. Objects filled in by the host (file handlers, allocators) and the order of calls within one program (run before link) are outside the rule.',
  'explain': 'Rule apistate reads the public headers for the names of the API, inlines the code of each function, replaces loads that happen before any store by the values of the state (flag clear and all objects null; flag set and compiler context null; flag set) and propagates constants. What remains reachable must not dereference a null object, pass it on as a reference, or call code that can allocate. Released objects must be overwritten on all paths after the release; nullcTerminate must release and clear each object, every copy of a pointer to one, and every global list that the API fills. For each selection of the executor the set of executor methods called must be the same.'},
 'C22': {
  'title': 'Linking moves every reference of a module to its place in the program',
  'statement': 'When a module is linked into a program, every reference inside it is translated. In each appended record, name positions move by the symbols that were there before, types go through the type map, members, constants, locals, code and source positions move by the old size of their table, and global variables by the old size of the global data or by the place of the module that owns them. In each appended instruction, operands on globals and constants, jump targets, function and type indices and argument lists of calls are translated, for all instruction kinds, and nothing else changes.',
  'over': ['inputs', 'programs'], 'qtext': 'every field of every record kind and every instruction kind, for any number and order of imported modules',
  'why': 'A reference that is not translated is correct by luck when a module comes first in the program; the suite has few programs with several modules and cannot combine each instruction or record kind with each module layout.',
  'files': ['NULLC/Linker.cpp', 'NULLC/Bytecode.h', 'NULLC/Executor_RegVm.cpp'], 'mech': [('record and code fixups', 'NULLC/Linker.cpp:Linker::LinkCode'), ('argument list fixups', 'NULLC/Linker.cpp:Linker::FixupCallMicrocode'), ('use of operands', 'NULLC/Executor_RegVm.cpp:RunCode')],
  'rules': ['linkmap'], 'technique': 'dependence slices of every store into the linked tables, path coverage of the record loops, and partial evaluation of the fixup loop for every instruction code against the operand use found in the interpreter',
  'note': 'Only the translation is covered, not the search for modules, the check for redefinitions, or whether the compiler wrote correct module relative values. Which instructions address memory through a base register is read from the interpreter; the roles of jumps, calls, returns and index operands are a table in the rule.',
  'explain': 'Rule linkmap inlines the helpers of LinkCode and computes, for each store into an element of a linker table, which sizes, maps and record fields the value is computed from. Each reference field must be computed from the right map or the size its table had before it grew, and no path from appending a record to the next one may avoid the store unless the branch looks at that field or at the kind of the type. The instruction loop is specialised for each opcode and base register: the argument must be replaced on every path if the interpreter adds it to that register, and must stay untouched otherwise.'},
 'C09': {
  'title': 'A garbage collection covers every memory pool, value kind and root',
  'statement': 'Each collection cycle unmarks, traces, finalizes and frees in that order in all object pools and the large object index, and an object is freed or given its finalizer only when it is unreachable and, respectively, has no pending finalizer or has not been finalized before. No collection starts while finalizers run, and the lists of objects to finalize and to free do not keep entries of an earlier collection. Tracing visits all globals, the locals, closure context and registers of every running call in both executors, and follows every pointer, array, class, function, auto ref and auto[] value, including members added by derived classes. Looking up the object behind an address finds the object that the address lies in, whatever its size and number of pages, or nothing, and always ends.',
  'over': ['programs', 'histories'], 'qtext': 'every pool, every kind of value, every kind of root and every combination of object flags, whenever a collection happens',
  'why': 'A forgotten pool, value kind or root frees live memory only when a collection happens at the wrong moment with an object of that size or kind reachable only that way; the suite triggers few collections.',
  'files': ['NULLC/StdLib.cpp', 'NULLC/Executor_Common.cpp'], 'mech': [('collection phases', 'NULLC/StdLib.cpp:CollectMemory, ObjectBlockPool'), ('tracing', 'NULLC/Executor_Common.cpp:namespace GC')],
  'rules': ['gcphases', 'gcmark', 'gctrace'], 'technique': 'control flow ordering obligations per pool, partial evaluation of the tracing functions over LLVM IR for each value category, object flag combination and frame layout, linear value keys of the places they trace, constant propagation through the address lookup',
  'note': 'Pools are discovered from the allocator, so a new pool needs all phases. Decision tables of the collector over object flags are obtained by constant propagation for all flag values. Whether the type descriptions themselves name all pointers of a type is outside the rule.',
  'explain': 'Rule gcphases discovers the pools used by the allocator and checks ordering obligations (dominance and path coverage) of the phases of a collection for each, loop coverage of page and list scans, address lookup coverage, the complete table of object flags, that every run of finalizers happens with a global variable set that stops collections from starting (found by partial evaluation) and resets it, and that lists of pending work are emptied before they are filled or after they are used. Rule gcmark specialises every tracing function for every value category and requires that the right tracer is called on all remaining paths, and that all kinds of roots are visited for each executor. Rule gctrace compares the places given to each tracer (as linear expressions over the tables of types, variables and functions and the position of the frame) with the layout rules, for every element, member, global, local and register loop including its first, next and last iteration; lists the conditions under which a pointer can be skipped; walks the frames for all combinations of sizes by constant propagation; and evaluates the address lookup, the insertion of pages and the allocation of large objects for all positions around pages and objects.'},
 'C17': {
  'title': 'Native functions get and return exactly what their declarations say',
  'statement': 'Every native function that the library binds belongs to exactly one declaration without a body, and agrees with it in the number, order, size, kind and signedness of parameters and result and in the memory layout of the objects passed by reference. Every declaration without a body has a native function. The call wrappers, for every number and kind of parameters that can be bound, pass each argument from its own place in the argument block and store the whole result. A function registered as not writing memory writes none that the script can see and runs no script code.',
  'over': ['inputs', 'programs', 'configurations'], 'qtext': 'every native function of the base and library modules, every parameter list up to 15 parameters, every combination of argument types',
  'why': 'About 350 functions are bound by name and overload number with no check at all; a mismatch shows only for argument values whose upper bytes, neighbours or sign differ, and a wrong purity mark only when the optimiser keeps a value across the call.',
  'files': ['NULLC/nullbind.h', 'NULLC/Compiler.cpp', 'NULLC/StdLib.cpp', 'NULLC/includes', 'Modules'], 'mech': [('declarations', 'NULLC/Compiler.cpp (base module), Modules/*.nc'), ('bindings', 'NULLC/Compiler.cpp, NULLC/includes/*.cpp: nullcBindModuleFunctionHelper'), ('call wrappers', 'NULLC/nullbind.h: nullcWrapCall0..15')],
  'rules': ['bindings @wrap'], 'technique': 'cross-language signature and layout comparison of parsed script declarations with the bound functions (debug information, touched bytes), effect analysis for purity marks, data flow of every argument and result in the instantiated wrappers over LLVM IR',
  'note': 'Bindings whose name or index is not a constant are not compared (counted in the evidence). Parameters passed as untyped pointers and the layout of types the function never touches are not compared. Purity is about writes through parameters and running script code, not about host state.',
  'explain': 'Rule bindings reads the declarations without a body from the base module text and the module files, evaluates the registration functions to obtain (module, name, overload, function), and compares both sides. Wrappers are taken from the library and from a generated translation unit that instantiates every arity with every kind of type; in each, every argument must be made of exactly its bytes of the argument block, reads come before and writes after the call, and the result is stored completely with the right extension. Functions with the attribute for no memory writes must have an empty effect on parameters.'},
 'C23': {
  'title': 'Native functions stay within the arrays and objects they are given',
  'statement': 'A native function of the standard library reads and writes an array, an auto array or a referenced value that a script gives it only inside the memory of that array or value, whatever offsets, counts and sizes the script passes along. Memory it allocates for a result is written only inside the allocation, text routines of the host are only given text that ends inside its array, and an array that it returns or fills in never has more elements than memory.',
  'over': ['inputs', 'programs'], 'qtext': 'every bound native function with an array or reference argument, every combination of lengths, offsets, counts and element types',
  'why': 'About 270 accesses in 170 native functions compute positions from numbers that a script chooses; the ones that are wrong are wrong for a boundary value, an overflowing sum or an unusual element type that no test passes.',
  'files': ['NULLC/StdLib.cpp', 'NULLC/includes'], 'mech': [('range checks of positions and counts', 'NULLC/StdLib.cpp, NULLC/includes/*.cpp'), ('size computations of results', 'NULLC/StdLib.cpp:AllocArray, StrConcatenate, AutoArray')],
  'rules': ['bounds'], 'technique': 'dataflow over LLVM IR: linear facts with exact wrap-around side conditions (Fourier-Motzkin elimination) at each access, loop bounds from induction recurrences, element types from the script prototypes of the bindings',
  'note': 'An access is an obligation when its address derives from an array, auto array or reference argument or from an allocation of the function. Trusts the type table and the headers of script arrays; excludes the readers of zero-terminated text (number conversions, std.typeinfo, std.dynamic, ext.pugixml) and the own bookkeeping of the old vector module.',
  'explain': 'Rule bounds parses the prototypes of the modules to find element types, inlines helpers into each native function, names the memory an address derives from with its capacity in bytes (length times element size, size of the referenced type, size passed to the allocator) and requires 0 <= offset and offset + size <= capacity as a consequence of the dominating comparisons, the recurrences of loops and the ranges of the types, without assuming that any addition or multiplication does not wrap around. Stores of element counts into array headers and returned arrays are compared with the memory next to them in the same way.'},
 'C24': {
  'title': 'A pending error stops execution, is reported and leaves a clean state',
  'statement': 'While an execution error is pending, no native function, executor or callback runs further script code or allocates script memory, until the error is cleared. Whoever started the failed function (the host, a native function, the interpreter loop or generated code) is told of the failure and never sees it reported as a success. After the error the executor is back in the position it had when the failed function was started: frame, register and call stack positions and the error handlers in effect.',
  'over': ['inputs', 'programs', 'histories'], 'qtext': 'every way an error can arise (script errors, native errors, failed allocation, hardware exceptions), every chain of nested calls between host and script',
  'why': 'Errors inside nested calls from host code are rare in tests; running a collection or a callback with an error pending, or resuming with a stale stack position, only fails for particular histories of caught errors.',
  'files': ['NULLC/Executor_RegVm.cpp', 'NULLC/Executor_X86.cpp', 'NULLC/CodeGenRegVm_X86.cpp', 'NULLC/nullc.cpp', 'NULLC/StdLib.cpp', 'NULLC/includes'],
  'mech': [('error state of the executors', 'Executor_RegVm.cpp, Executor_X86.cpp: Run, Stop, Resume, callContinue'), ('native functions and callbacks', 'StdLib.cpp, includes/*.cpp'), ('generated code', 'CodeGenRegVm_X86.cpp: CallWrap, CheckedReturnWrap, Error*Wrap')],
  'rules': ['stopped'], 'technique': 'typestate over LLVM IR: error sources, function summaries (never fails, always fails, result tells, unknown), branch folding in the world where the error is pending; forward dataflow of saved and restored stack positions',
  'note': 'Results of the functions that start execution are contracts, assumed at calls and checked in the function. Finalizers are assumed not to fail during a collection (the collector itself is not an error source). State restoration is checked for the functions that start execution, not for emitted machine code.',
  'explain': 'Rule stopped follows every way on from each error source with the executor flags folded to their value while an error is pending: reaching an allocation, a collection, a call into script code or a native call is a violation, as is a return from a starting function with a result other than its failure result or a return of a helper to generated code. Callbacks that foreign code calls must remember a failure in their object. The stack positions that a starting function changes must be what they were on entry at every return.'},
 'C26': {
  'title': 'Script heap blocks fit their objects, start zeroed and obey the limit',
  'statement': 'Every object handed out by the script heap lies in a block at least as large as the object and its marker, is completely zeroed and carries its type before anyone sees it. No block is taken before the configured memory limit was checked without arithmetic overflow, and the used memory counter changes by exactly the block size when a block is taken or released. A pool hands a block to one object at a time, only blocks that lie in its pages, and can hand it out again, without losing any page or free block, once it was released.',
  'over': ['inputs', 'configurations'], 'qtext': 'every requested object size, array length and memory limit',
  'why': 'The size classes, overflow corners and accounting are decided by exact boundary values of sizes and limits that tests do not enumerate.',
  'files': ['NULLC/StdLib.cpp'], 'mech': [('size classes, limit and accounting', 'NULLC/StdLib.cpp:AllocObject, AllocArray, FreePending')],
  'rules': ['heapalloc', 'poolalloc'], 'technique': 'forward must-dataflow over LLVM IR: interval facts on the requested size at every block source, path obligations for clearing, marking and accounting; constant propagation of pool states through taking and releasing a block',
  'note': 'Each block source in the allocator is an obligation: size upper bound, limit check, overflow exclusion, registration, accounting. The host allocator is trusted to return the requested number of bytes.',
  'explain': 'Rule heapalloc inlines the allocator helpers, takes every pool or host allocation call as block source and requires dataflow facts for size <= block size, the 64-bit limit comparison, and non-overflow; every returned address must be the start of the cleared and typed block. Rule poolalloc propagates about 500 pool states (up to three pages, used part of the newest page at its limits, free lists of different length and order) through the functions that take and release a block and compares the sets of pages, free and used blocks before and after.'},
 'C28': {
  'title': 'Operators on constants mean the same at compile time as at run time',
  'statement': 'When the compiler replaces an arithmetic, comparison, bitwise or logical operator or a numeric conversion on int, long or double constants by its result, either by folding constants in the instruction tree or by evaluating an expression at compile time (array sizes, enumeration values, static conditions), the result has the value and the type the operator gives at run time. This includes wrap-around of integers, signed zeros, NaN comparisons and truncating conversions; operators without a defined result (division by zero) are never given one. Exponentiation in compile-time evaluated expressions is not part of it.',
  'over': ['inputs', 'programs'], 'qtext': 'every operator and operand type, every pair of constant values',
  'why': 'Each operator is implemented again for constants in two evaluators, per operand type; wrong results appear only for particular values (overflow, NaN, negative zero, high bits), and tests fold a handful of constants.',
  'files': ['NULLC/InstructionTreeVm.cpp', 'NULLC/ExpressionEval.cpp'], 'mech': [('constant folding', 'NULLC/InstructionTreeVm.cpp:RunConstantPropagation'), ('compile-time evaluation', 'NULLC/ExpressionEval.cpp:CreateBinaryOp, EvaluateUnaryOp, EvaluateCast')],
  'rules': ['fold'], 'technique': 'abstract interpretation of the folding code over LLVM IR in a term domain (one abstract operand pair per operator and type), results compared by value numbering with a table of operator meanings; no solver',
  'note': 'The folding functions are evaluated on one abstract literal per operand type, so a result term stands for all operand values; terms are normalised and compared structurally. The table of operator meanings is the oracle and matches the interpreter handlers as seen by the rule for C05.',
  'explain': 'Rule fold builds abstract instruction and literal nodes for every operator and operand type, evaluates the folding routine on them path by path, and compares the term stored in each replacement constant, under the equalities tested on that path, with the meaning of the operator; result type and canonical form are compared as well.'},
 'C15': {
  'title': 'Evaluating code at compile time always ends',
  'statement': 'When the compiler evaluates a constant expression, or the tree evaluators run a module, every loop iteration and every function call is charged to a finite instruction budget, nested calls are limited in number and the memory of variables is limited in size. Reaching a limit stops the evaluation with a failure, and no limit is raised and no budget given back while an evaluation is running.',
  'over': ['inputs', 'programs'], 'qtext': 'every program evaluated at compile time, every loop and call it performs',
  'why': 'An endless loop or exponential recursion at compile time hangs the compiler only when the one uncharged path is taken by all iterations; tests evaluate short terminating programs.',
  'files': ['NULLC/ExpressionEval.cpp', 'NULLC/ExpressionEval.h', 'NULLC/InstructionTreeVmEval.cpp', 'NULLC/InstructionTreeVmEval.h'],
  'mech': [('instruction budget', 'NULLC/ExpressionEval.cpp:AddInstruction, NULLC/InstructionTreeVmEval.cpp:EvaluateInstruction'), ('depth and memory limits', 'EvaluateFunction, AllocateTypeStorage, Storage::Reserve')],
  'rules': ['evalbudget'], 'technique': 'loop classification and path-cut analysis over the control flow graph: every cycle that is not a bounded walk passes a budget charge and a test that leaves the loop; dominance of limit comparisons over frame entry and storage growth; write discipline of the counters',
  'note': 'Loops are bounded if they walk a linked structure (assumed acyclic), count to a constant, a container size or a limit, or shift a non-negative value; all others need the charge. Recursion depth of the evaluator itself is C16.',
  'explain': 'Rule evalbudget finds the functions that charge the instruction counter on every path and stop at the limit, classifies every loop of both evaluators, requires for each loop that is not a bounded walk that no cycle avoids the charge and none avoids a test that leaves the loop when the budget is used up, requires call frames to be entered only below the depth limit and after a charge, variable memory to be taken only below the size limits and added to the total, and every write of a counter or limit to be an increase or an initial constant.'},
 'C16': {
  'title': 'Deeply nested source text is rejected, flat text of any length is not',
  'statement': 'However deeply statements, expressions, types or generic instances are nested in a source text, the parser, the expression and type analysis and the compile-time evaluation of expressions stop with a reported error at a fixed nesting limit and do not recurse further. The limits measure nesting only: every construct gives its level back when it ends, so they do not depend on how long a program is.',
  'over': ['inputs'], 'qtext': 'every source text, every way of nesting constructs in each other',
  'why': 'About 160 functions of the parser, analyser and evaluator are mutually recursive; tests exceed the limit for brackets, blocks and array literals only, and no test is long enough to notice a level that is not given back.',
  'files': ['NULLC/ParseTree.cpp', 'NULLC/ExpressionTree.cpp', 'NULLC/ExpressionEval.cpp', 'NULLC/InstructionTreeVmEval.cpp'],
  'mech': [('nesting counters', 'NULLC/ParseTree.cpp:NestingGuard, ParseBlock, ParseArray, ParseComplexTerminal'), ('expression depth', 'NULLC/ExpressionTree.cpp:AnalyzeExpression, AnalyzeType'), ('instance depth', 'NULLC/ExpressionTree.cpp:CreateGenericFunctionInstance, CreateGenericTypeInstance'), ('evaluation depth', 'NULLC/ExpressionEval.cpp:Evaluate')],
  'rules': ['recursion'], 'technique': 'call graph cycles over LLVM IR after removing calls dominated by a nesting limit test; counter balance by forward dataflow on every path',
  'note': 'Decides that every cycle of the call graph that is driven by source text contains a call dominated by a tested and incremented nesting counter with a constant bound, and that each counter is restored on every normal return. The bound is not related to the actual size of the host stack; recursion of later stages over the length of a program is not covered.',
  'explain': 'Rule recursion builds the direct call graph of the parser, the analyser and the evaluators, deletes call sites that are dominated by a test of an incremented counter against a constant (or configured) limit, and requires the rest to be acyclic (analyser: no cycle through expression or type analysis), except for recursion that only descends an existing structure. For each counter a dataflow over all paths requires net change zero at returns.'},
}
NA = {
 'N01': dict(title='Optimised programs behave like unoptimised ones', statement='The result, output and errors of a script do not depend on whether the optimisation passes of the compiler ran.',
  over=['programs','inputs'], qtext='every script and every combination of optimisation passes', why='Passes interact through dominance, memory aliasing and control flow of the whole program; the tests sample a fixed corpus.',
  files=['NULLC/InstructionTreeVm.cpp'], mech=[('optimisation passes','NULLC/InstructionTreeVm.cpp:RunVmPass')],
  reason='Whole-program semantic equivalence of control flow simplification, load/store propagation, common subexpression and dead code elimination needs an alias and control-flow simulation argument over arbitrary programs; no rule on the shape of the passes is both necessary and sufficient. The per-operator clauses that are local are claimed separately as C28 (constant folding) and C29 (lowering).'),
 'N02': dict(title='Programs accepted by the compiler are type sound', statement='A program that the compiler accepts never applies an operation to a value of another type than the operation was compiled for, except through the documented unsafe facilities.',
  over=['programs'], qtext='every accepted program', why='Soundness quantifies over all programs including generics, coroutines and overloads.',
  files=['NULLC/ExpressionTree.cpp'], mech=[('type checking','NULLC/ExpressionTree.cpp')],
  reason='The type rules are spread over 14000 lines of interleaved analysis and code generation without a declarative form; soundness is a statement about the semantics of all derivations, not about the shape of the checker.'),
 'N03': dict(title='Overload and generic resolution follow the documented ranking', statement='For every call the selected function is the applicable candidate with the best documented rating, and an ambiguous call is rejected.',
  over=['programs'], qtext='every set of overloads and argument types', why='The space of overload sets is unbounded; tests contain a few hundred.',
  files=['NULLC/ExpressionTree.cpp'], mech=[('function ratings','NULLC/ExpressionTree.cpp:SelectBestFunction')],
  reason='The documentation gives no formal ranking to compare with; the numerical ratings are themselves the only specification, so a rule could only freeze the source.'),
 'N04': dict(title='The C++ translation of a script behaves like the script', statement='A program translated to C++ and compiled produces the same result as the program run by the virtual machine.',
  over=['programs'], qtext='every translatable program', why='The translation is exercised on the test corpus only.',
  files=['NULLC/ExpressionTranslate.cpp','NULLC/translation'], mech=[('translation','NULLC/ExpressionTranslate.cpp')],
  reason='The output is text in another language; deciding its meaning statically requires a semantics of the emitted C++ for all programs, and no clause of it is a shape of this code base.'),
 'N05': dict(title='Garbage collection is precise and complete', statement='Objects that are no longer reachable are eventually freed and reachable ones are never freed, whatever is stored in frames, registers and native memory.',
  over=['programs','histories'], qtext='every heap shape and every moment of collection', why='Depends on heap shapes and collection times that tests cannot enumerate.',
  files=['NULLC/StdLib.cpp','NULLC/Executor_Common.cpp'], mech=[('collector','NULLC/StdLib.cpp:CollectMemory')],
  reason='Liveness and safety of the collector over all heaps quantify over run-time graph shapes and stack contents. The structural clauses (phases in order for every pool, every value category traced, every root visited) are claimed as C09.'),
 'N06': dict(title='Machine code encoding and register tracking are correct', statement='The bytes emitted by the assembler decode to the requested instructions, and a register value cached across instructions is always the current value of the script register.',
  over=['programs'], qtext='every emitted instruction sequence', why='Sequences arise from whole programs and the state of the tracker at each point.',
  files=['NULLC/CodeGen_X86.cpp','NULLC/Translator_X86.cpp'], mech=[('assembler','NULLC/Translator_X86.cpp'),('peephole and tracking','NULLC/CodeGen_X86.cpp')],
  reason='Encoding is a numerical mapping without an independent description in the repository, and the correctness of register tracking is an invariant over instruction histories with aliasing of script memory. C05 decides the selection of operations per instruction, with tracking modelled as any choice it may make.'),
 'N07': dict(title='Time and memory of compilation are bounded by the input', statement='Compiling a program takes time and memory polynomial in its size, whatever the program.',
  over=['inputs'], qtext='every source text', why='Tests measure nothing of this.',
  files=['NULLC'], mech=[('parser backtracking and limits','NULLC/ParseTree.cpp')],
  reason='A bound on run time quantifies over run-time quantities (generic instantiation, backtracking, optimiser fixpoints) for which no ranking function is visible in the code shape; only the existence of explicit budgets could be checked.'),
 'N08': dict(title='Coroutines and closures keep captured variables consistent', statement='A variable captured by closures or kept by a coroutine has one current value that all of them and the enclosing scope observe, across any number of calls and resumptions.',
  over=['programs','histories'], qtext='every nesting of functions and every order of calls', why='Histories of calls and resumptions are unbounded.',
  files=['NULLC/ExpressionTree.cpp','NULLC/InstructionTreeVm.cpp'], mech=[('upvalues and context objects','NULLC/ExpressionTree.cpp')],
  reason='It is a statement about the emitted programs under all histories of calls; the implementing code is a set of tree constructions whose combined meaning is not visible as a path or pairing rule.'),
 'N09': dict(title='Numeric text conversion round-trips', statement='Converting a number to text and back with the library functions and literals gives the same number.',
  over=['inputs'], qtext='every number', why='2^64 values; tests convert a few.',
  files=['NULLC/StdLib.cpp','NULLC/Lexer.cpp'], mech=[('conversion routines','NULLC/StdLib.cpp')],
  reason='Round-trip equality of digit loops and floating-point accumulation quantifies over numerical values; static rules see only the loop shape.'),
}
