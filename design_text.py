# narrative per property: oracle, bounds, cost, limits (joined into DESIGN.md by gen.py)
D = {
'C01': '''Obligations: every load, store, memcpy and memset in `ExecutorRegVm::RunCode` and its helpers whose address contains a 64-bit value loaded from the
script register file (about 75). Each must be dominated by `ptr >= 0x10000` on the same value. Oracle: the null page constant of the interpreter. No bound.
Reached what tests cannot: two unchecked sites (range fill, element of a large array behind a null pointer) were found and repaired.
Limit: pointers above the null page that dangle are the collector's business (C09), not this rule's. 8 s.''',
'C02': '''Every stage that turns an index operation into an address is evaluated by the path-partitioned abstract interpreter (the one behind C05 and C28) on one index operation whose length, element size, array address and index are symbols, so one run covers all values. *Construction* (CompileVmArrayIndex, the conversion of sized arrays to array values): the length and size operands must be constants made from the fields of the array type. *Folding and peepholes* (RunConstantPropagation, RunPeepholeOptimizations): each replacement must be an index operation with the same four operands, or a constant address equal to address + size * index on a path that carries `index < length` unsigned (`!(index < 0) and index < length` signed is accepted too). *Tree evaluator*: the same for the address it returns. *Lowering*: each path emits exactly one instruction; `rviIndex` must encode the registers of index, array and length and the element size, and an addition or a register transfer is accepted only under the bound. *Interpreter*: the specification extracted for `rviIndex` (rule agree) must store array + index * size only under the unsigned comparison with the length register and report an error otherwise, and all paths of the x86-64 generator must equal it. *Expression evaluator*: each element address formed from the pointer of a literal must be dominated by an upper comparison with a loaded length and a lower (or unsigned) one on the same index. Cost 4 s.''',
'C03': '''Obligations: every host `sdiv/srem/udiv/urem` with a variable divisor in the library (about 60). Each needs the facts `divisor != 0` and
`divisor != -1 or dividend != MIN`; divisions in the JIT helpers are accepted while they are reachable only through the generated code context, whose launcher
installs the trap handler. Found INT_MIN / -1 in four evaluators (repaired). 15 s.''',
'C04': '''Rule `frames` (`frames.cpp`, prover in `lin.h`). Members of the executor that hold stack positions are turned into variables (changes become marked calls; calls that run script or native code make them unknown again but within their limits), then obligations are proved with linear facts: 33 writes, 4 changes of a stack top, 2 function entries of the interpreter, the host side entry of generated code. Stack limits are found by field name, everything else by data flow; helper functions are inlined. Protection of pages: allocation leaves 8192 bytes, `mprotect` of the page follows each allocation on every path, is undone before memory is freed, fault ranges of the handler cover it. Generated prologue and epilogue: the part of the generator that depends only on the sizes in the function record is evaluated for about 4000 combinations (all frames up to 160 bytes with all argument sizes, 4-byte steps up to 3000, around each power of two up to the limit, all register counts) and the emitted instructions are followed: amount reserved = amount released = aligned frame, clearing covers exactly the part that is not arguments (which also makes the first touch of a frame sequential, so that a guard page cannot be jumped over).
Oracle: the function record (`stackSize`, `argumentSize`, `regVmRegisters`). Found and repaired: register file overrun of a call from native code (a8fcd1d), a 24-byte-element array type of 2^64 bytes (a64c964), a frame of temporaries that wrapped around in 32 bits (afe81a9), results over the size limit (226afc4). 12 s.''',
'C05': '''The interpreter loop is specialised on each opcode and reduced to guarded effect lists; each path of each generator in the dispatch table is reduced to the machine operations it requests,
and these are interpreted on an abstract x86 with symbolic registers. Register cache answers are forked (any answer the cache may give). Both lists must be equal after normalisation.
Oracle: the two implementations against each other and a table of x86 operation meanings. Bounds: loops over register counts are summarised (`loops.*`), not unrolled.
Calls, returns, encoding and cache correctness are out (N06). 40 s.''',
'C22': '''Rule `linkmap`. `Linker::LinkCode` is analysed with its helpers inlined and the container methods left as calls, so that a store is read as *table, record field := set of sources* (sizes of tables, globals size, maps indexed by a field, fields of the module table, fields of the module header). 23 reference fields of 9 record kinds have to be computed from the right sources; sizes must be read before the table grows (no growth reaches the read, and no size of the module being added takes part); data of other modules is found through `moduleRemap`. Path obligations: from each append (or loop head, for tables that are copied as a block and visited afterwards) no path to the next record avoids the store, except by a branch on the field itself or the type category. For instructions the fixup loop is specialised (constant code byte and base register, SCCP) for each of the 97 opcodes; the oracle for memory operands is the interpreter: 63 handlers add the argument to the register selected by rC, and exactly those must be translated when rC is the globals or constants register, by the right amount (four bytes per constant). Jumps, calls (with the packing of the argument list position), returns, type and function indices have a fixed role. Argument list words: a memory operand on globals is translated on every path. Loops over new records and instructions have to start at the old size of the table and make as many rounds as there are new entries (linear forms); the split of a global operand into module number and offset is compared over its expression. The layout of argument lists (words per entry) and the list of jump targets are not covered. Why tests cannot: an untranslated reference is right by luck in the first module. 2 s.''',
'C13': '''Rule `apistate`. The 96 functions named in `nullc.h` and `nullc_debug.h` are inlined (code of `nullc.cpp` and small helpers) and partially evaluated in each state: *not initialised* (the flag that nullcInit sets is clear, all 8 objects that the API allocates are null; the same state holds after nullcTerminate, which is checked to restore it), *no program* (the compiler context is null) and *running*. In the first two no reachable instruction may dereference a null object, call a method of it or pass it where a reference is expected, and in the first nothing that can reach the allocator may be called (callees are evaluated in the same state, so refusing further down counts). Functions that look at the flag must return a null, empty or all-ones value and set the message. Release typestate: the memory of an object is released only if the pointer is overwritten before or after on every path. nullcTerminate also has to empty all global lists and copies of object pointers (`NULLCDynamic::linker`). Executor parity: per selection (values from `nullcdef.h`), the sets of methods called on the selected executor agree, and the other executor is only used when both selections use it. Oracle: the lifecycle itself. 3 s.
Found and repaired: nullcGetVariableData and the stack frame functions crashed before nullcInit; nullcClean forgot the breakpoints of the interpreter only, so that removing a breakpoint of generated code wrote an instruction byte of an earlier program.
Limits: which calls make sense in which order within one program (run before link), and values passed by the host, are not decided. A step whose failure is ignored is not noticed unless it leaves an object missing.''',
'C09': '''`gcphases` discovers the pools from the allocator and requires for each pool that unmark, mark, finalize and free steps happen in order on every path of a collection, that that finalizers only run while a variable that stops collections is set, that lists of pending work carry nothing over to the next collection, that page and list scans cover all pages,
that address lookup asks every pool, and compares the complete decision table over object flags (obtained by partial evaluation) with the rules (freed iff unmarked and no finalizer pending, ...).
`gcmark` specialises every tracing function per value category and executor.
`gctrace` (`gctrace.cpp`, `keys.h`, `idle.cpp`, `search.cpp`) decides that they look in exactly the right places. Every value gets a canonical linear key over the arguments, table fields (`types[v.type].size`, ...) and loop counters, so that `base + i * size` and a moving pointer are the same; the place given to each tracer is compared with the key that the layout rules demand, loops must run from the first to the last element and leave only there, heap arrays are read behind the padding of their element type (all alignments), the frame walk is specialised on sizes and visit flags and must step from frame to frame with the aligned size, and each way around a tracer call must pass one of the allowed conditions (null page, stack range, not managed, already marked). Address lookup is evaluated by constant propagation: up to 6 pages, adjacent and apart, every boundary of objects and pages, all seven pools; sorted insertion of a page at every position; three sizes of large objects from their allocation to the lookup of each part. A search loop with a way around that changes nothing is reported as endless.
Oracle: type, function and frame tables of the linker as the layout of the compiler; object sizes of the allocator. Found and repaired: the lookup hung on the address of a page (f59c4e5), objects of empty classes were looked up as the block after them, which corrupted the page list (9ce5e43), the last bytes of a large object were not found, so that a reference to them dangled after a collection (f67f3c0). Tests cannot reach it: tracing a wrong place shows only when a collection happens while an object is reachable through that place alone, and stale registers hide most of these. 18 s.''',
'C10': '''Entry points are the functions passed to the module binding API (about 350, found by data flow, so new ones are included). Each dereference or hand-over of a pointer that came in a parameter is an obligation.
Callee summaries say which helpers check themselves. Assumption: a non-empty script array has a data pointer. About 60 sites were repaired. 25 s.''',
'C11': '''Sources: allocation functions of the script heap and inferred wrappers; obligation: non-null fact at each dereference or hand-over. 15 s.''',
'C12': '''From each error report of a bound native function (about 500) no path reaches an effect (store outside own objects, second report, call with a non-empty effect summary). 20 s.''',
'C15': '''The two tree evaluators keep an instruction counter and limits in their context record. The rule first infers *chargers*: functions in which every path passes `counter = counter + constant` or the exhausted edge of the comparison with the limit, and every path passes that comparison. Each loop (found by natural-loop analysis after inlining small helpers) is classified by the recurrence of a header value that its exit test uses: linked walk, counter to a constant / container size / limit field, shift of a value with a non-negative fact. Any other loop, and any counted loop whose bound is data of the evaluated program, must be cut by removing the blocks that charge, and also cut by removing the blocks whose exhausted edge cannot come back to the header (branches on phi constants are followed precisely; a failure flag counts when every exhausted path raises it). A second view of the function after loop rotation is consulted before reporting. Frame entry (growth of the frame stack) needs the dominating comparison with the depth limit and a charge on every path; growth of variable storage needs the dominating comparison of the same size. Tests cannot reach this: a missing charge shows only when the program evaluated has no other charged construct in the loop (`while(true);`).''',
'C16': '''Call graph of ParseTree/ExpressionTree/ExpressionEval/InstructionTreeVmEval; call sites dominated by an incremented and tested counter are removed; the remaining graph has to be acyclic except for functions that
descend an existing structure (the recursive argument is reached through a field of the parameter). Counters are balanced by dataflow (net change 0 at every return). Found and repaired seven unbounded cycles
(unary operators, assignments, ternaries, types, unbraced statements, type suffix chains). Limits: does not compare the limit with the host stack; the optimiser recurses over the
length of a program (dominator tree walks) and overflows the stack for about 100k sequential statements: observed, not repaired, outside of the statement. 20 s.''',
'C23': '''Rule `bounds` (`bounds.cpp`, prover in `lin.h`). The native functions come from the binding calls; each is matched with its prototype in the embedded base module or in Modules/*.nc, which gives the element type of array parameters and the size of `T ref` parameters. Every load, store and memory intrinsic whose address leads back to an array argument, `NULLCRef`, `auto[]` or an allocation of the function is an obligation `0 <= offset and offset + size <= capacity`. The prover works on linear forms over exact integers: each IR operation contributes its mathematical value only when its range is shown to fit (otherwise it becomes an unknown in the range of the type), facts come from dominating comparisons, path conditions of merged values (followed backwards, one case per predecessor), loop recurrences (`rounds` counters) and products of positive forms; infeasible combinations are eliminated by Fourier-Motzkin. It is a linear dataflow domain, no path is executed and no solver used. 267 accesses, 5 text arguments, 8 array headers and 25 returned arrays. Axioms: no script object over 2^31-1 bytes, allocation and error reports leave array headers and type tables alone. Limits: text readers that walk to a terminator (number conversions, typeinfo, dynamic, pugixml) and the object bookkeeping of old.vector are excluded; 10 returned and 2 stored headers have memory of unknown origin (copied from another array as it is) and are counted as unknown in the evidence. Found and repaired: one byte past a concatenation, `assign()` to an array copying host stack, null array with elements after a failed append. 4 s.''',
'C17': '''Rule `bindings` (`bindings.cpp`, `protos.h`, `witness/gen.py`). The oracle is the script side: declarations without a body in the base module text (a constant in the IR) and in `Modules/*.nc`, numbered per name as the binding functions number them; classes are laid out with the rules of the compiler (minimum alignment 4 for structure sizes). The other side comes from the registration code: calls of the binding functions with constant module, name and index (helpers inlined, loops over tables counted as undecided) and the debug types of the bound function. Compared: parameter count, kind, width, signedness where it changes the value, flattened layout of structures, for pointers the leaves the function touches (byte ranges derived from its accesses), same-named fields at the same place, object last for member functions, result. Missing, double and unknown bindings are violations. Purity: writes through each parameter by a summary over callees; allocation and collection are allowed. Wrappers: 201 in use plus 153 from a generated witness that instantiates arity 0..15 with mixed types; helpers are inlined, then each argument of the call must be made of exactly its bytes in the block. 351 bindings, 665 parameters, 242 objects, 76 pure functions, 1499 wrapper arguments. 3 s plus 4 s for the witness. Found and repaired: the vector normalize functions of std.math were registered as not writing memory.''',
'C24': '''Rule `stopped` (`stopped.cpp`). A typestate analysis with one state, "an error is pending". Sources: the reporting functions and `Stop` (always), the allocation family and the functions that start execution (their result tells), native calls (unknown until the running flag is read), `setjmp` (a result other than zero), stores that clear the running flags. From each source every way on is followed with branches folded in the world where the error is pending (flags read as zero, telling result known, decisions and merged values remembered along the way; widened per block if there are too many ways). Sinks: allocation, collection, starting execution, native calls. Per function the summary never/always/tells/unknown is derived; `ExecutorRegVm::Run`, `ExecutorX86::Run`, `RunCode`, `nullcCallFunction`, `nullcRun*` have contracts that callers assume and the function itself must meet; helpers that generated code calls must not return after an error. Callback classes handed to foreign code need a member that is set on failure and tested before the next call. Second part: forward dataflow in the functions that start execution: `lastFinalReturn`, register top and frame, data stack position, jump buffers (by copies) and the recorded call depth must be the value loaded on entry at every return. 824 error sites in 329 functions, 93 run sites, 13 kept positions. 3 s. Limits: emitted machine code and the Windows branch are not analysed; a finalizer that fails during a collection is excluded. Found and repaired: seven defects (see known_findings.txt), all crashes or leaks after a caught error.''',
'C26': '''Obligations at every block source in AllocObject/AllocArray: interval fact size <= block, 64-bit limit comparison before, no wrap-around in the size computation, clearing and typing of the returned block, counter change equal to the block size. `poolalloc` (`poolalloc.cpp`) propagates constant pool states (0 to 3 pages, newest page empty, begun, nearly full, full; free lists of 0 to 3 blocks in newest and older pages) through Alloc and Free of all seven pools: result in a page and free before, not free after, no other block changes sides, page chain kept, released block marked free. The state is read by the meaning of the fields, so the order in which blocks are taken is free. 10 s.''',
'C28': '''For each operator x operand type one abstract node with symbolic literals is folded by abstract interpretation of the folding code; the term in the replacement constant must equal the entry of a meaning table on every path
(using equalities tested on the path). The table is the oracle; it is the meaning that the interpreter handlers have by C05. Exponentiation in compile-time evaluation excluded (pow of host library vs. own loop). 60 s.''',
}
FALSE_ALARMS = '''* C10: pointers that are only compared, or checked in a caller of a shared helper, were reported until callee summaries and per-entry inlining were added.
* C12: filling in the function's own return value and releasing resources after a report are harmless; the property statement says so now.
* C05: the statement excluded neither calls nor the register cache at first; both need whole-sequence arguments and were excluded from the statement.
* C16: recursion over list siblings and over finished trees was reported; structural descent is recognised instead of listing exceptions.
* C28: narrowing casts (`char(300)` in an expression) keep the wide value until stored, in both worlds: documented language behaviour of this implementation, statement restricted to int/long/double.'''
LIMITS = '''* The check decides the rule, not full functional correctness: statements are written so that the rule is the statement.
* Trusted: clang's IR for the sources (x86-64 Linux configuration), LLVM's simplification passes, debug information for names and field offsets.
* 32-bit and big-endian branches of the sources are not compiled, so not analysed.
* Observed, outside of the claimed statements and not repaired: an unused computation that would raise a run-time error (division by zero) can be removed by dead code elimination; casts to types narrower than int
  do not narrow until the value is stored; 100k+ sequential statements overflow the host stack inside the optimiser.'''
