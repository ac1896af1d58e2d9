L = 'src/lib/'
ENG = 'path-sensitive dataflow analysis of LLVM IR (disjunctive abstract interpretation), assume-guarantee per function'
ENGN = ('Every path of every function named in the evidence, loops cut to their effect; a report names the function and the path. '
        'Trusts: clang -O0 IR, the models of libc calls, that ASSERT/UNREACHABLE hold. Functions over the path budget and outcomes '
        'whose result is not a constant sign are counted as undecided in the evidence and not reported.')

prop('E01', 'The runtime fails exactly when it reports one error',
     'Every operation of the runtime on objects, on the heap, on the stack and on the frames that receives an error record either '
     'succeeds and leaves the record empty or fails and has filled it exactly once. No failure of an inner operation (an allocation, '
     'a method of an object, a collection) is dropped, turned into a success, or reported a second time on top of the first.',
     ['inputs', 'fault_sequences'], 'every call of every operation, with any inner operation failing',
     'The tests make a few operations fail, none of them by exhausting the memory or by failing inside a collection; the property '
     'quantifies over every combination of an operation and a failing callee.',
     [L + 'utils/error.c', L + 'objects/objects.c', L + 'objects/heap.c', L + 'objects/o_list.c', L + 'objects/o_map.c', L + 'runtime.c', L + 'run.c'],
     [('Error_Report', L + 'utils/error.h'), ('Heap_Malloc', L + 'objects/heap.c'), ('runInstruction', L + 'run.c')], ENG, ENGN)
prop('E02', 'A builtin fails exactly when it reports one error',
     'A builtin function that fails (so that the program stops with an error) has reported exactly one error saying why, and one that '
     'succeeds has reported none. In particular a result object that cannot be created makes the builtin fail instead of being dropped '
     'or replaced.',
     ['inputs', 'fault_sequences'], 'every builtin, every argument list, with any inner operation failing',
     'The tests call a part of the builtins with a few arguments; allocation failures inside builtins are never tried.',
     [L + 'builtins/basic.c', L + 'builtins/files.c', L + 'builtins/string.c', L + 'builtins/buffer.c', L + 'builtins/net.c', L + 'builtins/utils.c'],
     [('returnValues', L + 'builtins/utils.c'), ('parseArgs', L + 'builtins/utils.c')], ENG, ENGN)
prop('E03', 'Compilation fails exactly when it reports one located error',
     'Compiling source text or assembling bytecode text, and drawing the diagram of a parsed source, either succeeds and reports nothing '
     'or fails and reports exactly one error. When it fails the position in the source at which it failed has been stored.',
     ['inputs', 'programs', 'fault_sequences'], 'every source text and every allocation failure during its compilation',
     'The tests compile valid programs and a few invalid ones and look at neither the position nor at failures of allocations.',
     [L + 'compiler/parse.c', L + 'compiler/codegen.c', L + 'compiler/codegenctx.c', L + 'assembler/assemble.c', L + 'diagram.c'],
     [('Error_Report', L + 'utils/error.h'), ('CodegenContext_SetErrorLocation / setjmp', L + 'compiler/codegenctx.c')], ENG, ENGN)
prop('E04', 'No failed result is used: nothing dereferences a null pointer',
     'A result that may be absent (an allocation that failed, a stack that is empty, a file that could not be opened, a key that is not '
     'in a map, a method a type does not have) is found out before it is used. No path reads, writes or calls through a null '
     'pointer or passes one to a library call that cannot take it.',
     ['inputs', 'fault_sequences'], 'every path of every function, with every fallible call failing',
     'The tests hardly make anything fail; a null check that is missing shows only when that very call fails.',
     [L + 'objects/objects.c', L + 'objects/heap.c', L + 'runtime.c', L + 'run.c', L + 'compiler/parse.c', L + 'builtins/utils.c'],
     [('null checks after fallible calls', L + 'run.c'), ('method checks', L + 'objects/objects.c')], ENG,
     ENGN + ' Only pointers that a path has itself compared with null, or received as the failing result of a call, are judged.')
prop('T01', 'Objects are used only as the type they are',
     'Whatever values a program hands to an operation, a method or a builtin, an object is interpreted as a value of a type '
     '(an integer, a string, a list, a map, a buffer, a file, a function, ...) only on paths that know it is of that type. '
     'The value of an object of another type is never read or written as if it were of that one.',
     ['inputs', 'programs'], 'every operation on every combination of types of its operands',
     'Tests call operations with operands of the right types and a few wrong ones; the number of combinations of operations, operand '
     'positions and types is never covered.',
     [L + 'objects/objects.c', L + 'objects/o_string.c', L + 'objects/o_list.c', L + 'objects/o_map.c', L + 'objects/o_buffer.c', L + 'run.c', L + 'builtins/files.c'],
     [('type checks before casts', L + 'objects/objects.c'), ('parseArgs', L + 'builtins/utils.c')], ENG, ENGN)
prop('B02', 'Builtins read only the arguments they have, as what they were checked to be',
     'A builtin reads an argument only if it is certain to have been given that many (by its declared number of parameters or by a check '
     'of the number of arguments), and reads it as the kind of value its argument check has established. '
     'What the argument check stores for each kind of value is the value the caller passed.',
     ['inputs', 'programs'], 'every builtin, every number and every types of arguments',
     'The tests call builtins with the right number and types of arguments.',
     [L + 'builtins/utils.c', L + 'builtins/basic.c', L + 'builtins/files.c', L + 'builtins/net.c', L + 'builtins/string.c', L + 'builtins/buffer.c', L + 'builtins/math.c'],
     [('parseArgs', L + 'builtins/utils.c'), ('argument counts of the builtin tables', L + 'builtins/basic.c'), ('native_func_call', L + 'objects/o_nfunc.c')], ENG, ENGN)
prop('B03', 'A builtin returns as many values as it has stored, of the kinds it says',
     'The number of results a builtin returns is the number of results it has stored, for every outcome, and is within the limit of values a call may return. '
     'Each result is made, in order, from a value of the kind that was announced for it.',
     ['inputs', 'programs'], 'every outcome of every builtin',
     'Tests reach one outcome of most builtins; an outcome that stores fewer values than it returns hands out stale or uninitialized values.',
     [L + 'builtins/utils.c', L + 'builtins/basic.c', L + 'builtins/files.c', L + 'builtins/net.c'],
     [('returnValuesVA', L + 'builtins/utils.c'), ('native_func_call', L + 'objects/o_nfunc.c')], ENG, ENGN)

CG = [L + 'compiler/codegen.c', L + 'compiler/codegenctx.c']
TPL = 'abstract interpretation of the code generator over construct templates, compared with a reference semantics'
TPLN = ('Every construct of the language with abstract parts, up to 7 repeated parts and two nested levels, in and out of a loop; parts are covered by '
        'structural induction, not by enumeration. Executions are compared up to a bounded number of test outcomes per template.')
VMT = 'abstract interpretation of the instruction dispatcher with a symbolic stack, compared with a specification per instruction'
VMN = 'Every path of the code of every instruction, for symbolic operands (POP and CALL: 0-3 values). Results in a form the analysis does not recognise are counted as undecided.'
prop('V01', 'Every instruction is stored, fetched, printed and executed as what it is',
     'Each operation code has exactly one entry in the instruction table, with its own name and the number and types of its operands. The code generator '
     'emits each instruction with those operands, building and fetching an executable preserves the instruction and each of its operands (strings and jump '
     'targets that are resolved later included), and the machine interprets the operands as the types the table gives them and reads none that is not there.',
     ['programs'], 'every instruction, all values of its operands, every place that emits it',
     'Tests compare the text of a few compiled programs; rarely used instructions and operand positions, and operands resolved late, are hardly covered.',
     [L + 'executable.c', L + 'executable.h', L + 'compiler/codegen.c', L + 'run.c'],
     [('instr_table, ExeBuilder_Append, Executable_Fetch', L + 'executable.c'), ('emitInstr_*', L + 'compiler/codegen.c')],
     'consistency analysis of the instruction table against emission sites, storage and dispatcher (abstract interpretation)', TPLN)
prop('V02', 'Compiled code keeps the stack balanced',
     'At each point of compiled code the number of values on the stack of the frame is the same whatever path led there; no instruction takes values that are '
     'not there; an expression leaves exactly one value, a statement none, also when a loop is left by break; a function returns exactly the values on its stack.',
     ['programs'], 'every program that compiles, every path through its code',
     'An imbalance shows only in programs that take the unusual path (a break in a nested construct, a default argument, a multiple assignment) often enough to overflow or underflow the stack.',
     CG, [('emitInstrForNode', L + 'compiler/codegen.c')], 'bytecode verification (stack-depth dataflow) of the templates the code generator emits', TPLN)
prop('V03', 'Expressions are evaluated left to right and mean what they say',
     'The code compiled for an expression evaluates its operands from left to right, each exactly once, and applies to them the operation that was written. '
     'and/or evaluate their right operand only if the left one does not decide, and give a boolean; lists and maps hold their items in order; calls pass all '
     'arguments in order and -> passes the object the method was selected from as first argument; assignments store to each target its own value. '
     'What has no meaning (assigning to a literal, more targets than values, -> outside of a call) is refused.',
     ['programs'], 'every expression, every nesting, every outcome of the tests in it',
     'Tests evaluate particular expressions; the order of evaluation and the combination of nested short-circuits, calls and assignments is not sampled.',
     CG, [('emitInstrForExprNode', L + 'compiler/codegen.c'), ('emitInstrForAssignmentNode', L + 'compiler/codegen.c')], TPL, TPLN)
prop('V04', 'Control flow statements branch, repeat and leave as written',
     'if runs exactly one of its branches, by the value of its condition; while tests before each turn and do-while after each turn; break leaves the innermost '
     'loop it is written in and is refused outside of one; statements run in order; return ends the function with the values written, in order.',
     ['programs'], 'every nesting of statements, every sequence of outcomes of their conditions',
     'Tests run a few loops and branches; combinations of nesting, expression bodies and exits are not sampled.',
     CG, [('emitInstrForIfElseNode', L + 'compiler/codegen.c'), ('emitInstrForWhileLoopNode', L + 'compiler/codegen.c')], TPL, TPLN)
prop('V05', 'Functions bind, default and check their parameters, then run their body',
     'A call binds each parameter to its own argument; a parameter with a default value that received none gets the default, evaluated only then; a parameter with a type is checked '
     '(after defaulting) against it; then the body runs and the function returns, without a value if it does not return one. Code after a function definition does '
     'not run into its body, and the definition binds the name of the function.',
     ['programs'], 'every combination of parameters with and without types and defaults, every argument list',
     'Tests define functions with few of the combinations of parameters.',
     CG, [('emitInstrForFuncExprNode', L + 'compiler/codegen.c'), ('emitInstrForArgumentNode', L + 'compiler/codegen.c')], TPL, TPLN)
prop('V06', 'Arithmetic computes on the operands in order or reports an error',
     'Addition, subtraction, multiplication, division, remainder and negation of integers and floats give the mathematical result of the operation on the left and '
     'the right operand, integer if both are integers (remainder: integers only) and float otherwise. Division by zero, a result that does not fit an integer and operands that are '
     'not numbers are errors, and nothing else is.',
     ['inputs'], 'all pairs of operands of all types',
     'Tests add a few numbers; mixed types, signs, limits and zero divisors of every operator are not sampled.',
     [L + 'run.c'], [('do_math_op', L + 'run.c'), ('runInstruction', L + 'run.c')], VMT, VMN)
prop('V07', 'Comparisons, tests and conditional jumps decide the relation they are named for',
     '<, <=, > and >= hold exactly when the left number is so related to the right one, for every mix of integers and floats, and are errors for other operands. '
     '== and != are the result of comparing the two values and its negation. not negates a boolean, and a conditional jump jumps exactly on its boolean; on other values they are errors.',
     ['inputs'], 'all pairs of operands of all types',
     'Tests compare a few numbers; equal operands, mixed types and negative values of every operator are not sampled.',
     [L + 'run.c'], [('do_relational_op', L + 'run.c'), ('runInstruction', L + 'run.c')], VMT, VMN)
prop('V08', 'The remaining instructions move the values they are specified to move',
     'Pushing literals, functions, collections and variables, storing variables and items, selecting, calling, checking types, popping and jumping take their operands '
     'from the documented stack slots, leave the documented results and do nothing else: a call passes the arguments in order and leaves exactly the number of results asked for, '
     'padded with none; a selection that finds nothing gives none; reading a variable that does not exist is an error.',
     ['inputs', 'programs'], 'every instruction, every contents of the stack, every number of results',
     'Tests exercise the common cases; missing items, missing results and several results are hardly sampled.',
     [L + 'run.c'], [('runInstruction', L + 'run.c')], VMT, VMN)
prop('V09', 'Every instruction knows the place in the source it was compiled from',
     'The location stored with each compiled instruction is a position inside the construct it was compiled from and its length is an extent, never the one in place of the other, '
     'and reading the location of an instruction of an executable gives back what was stored. Errors at run time are located through it.',
     ['programs'], 'every instruction of every program',
     'Tests do not look at the location of run time errors.',
     CG + [L + 'executable.c'], [('CodegenContext_EmitInstr', L + 'compiler/codegenctx.c'), ('Executable_GetInstrOffset', L + 'executable.c')],
     'dimensional analysis (position/extent) of the locations given to every emission, store and read-back followed symbolically', TPLN)

prop('G01', 'A collection reaches, moves and updates every reference',
     'A garbage collection starts from the builtins, from the local variables and the closure of every frame and from every value on the '
     'stack, and follows every reference that a reached object holds: the fields of its kind of object, each element its count says it '
     'has and no more, and its type. Each reached object of the heap is copied once, whole, and everything that referred to it refers to the '
     'copy afterwards; so is each block of memory an object owns, with the size it has. A collection that runs out of memory is a failed one.',
     ['inputs', 'programs', 'histories'], 'every kind of object, at every state its operations leave it in, at every collection',
     'The test programs are small and finish before the heap fills up; a reference that is missed only fails when the memory is reused.',
     [L + 'objects/heap.c', L + 'runtime.c', L + 'objects/o_list.c', L + 'objects/o_map.c', L + 'objects/o_string.c', L + 'objects/o_closure.c', L + 'objects/o_sum.c', L + 'run.c'],
     [('Runtime_CollectGarbage', L + 'runtime.c'), ('Heap_CollectReference, Heap_CollectExtension', L + 'objects/heap.c'), ('walk, walkexts', L + 'objects/objects.h')],
     'following of walk functions, allocations and the collector over LLVM IR on abstract objects, compared with the structures of the objects',
     'Fields come from debug information, so a new reference field that is not walked is reported. Arrays are checked up to 4 elements and chains of frames up to 3. '
     'Sizes of owned blocks are compared at the exits of the functions that allocate them; sizes related only by arithmetic that is not linear are undecided. '
     'References held by C locals during a collection are property G02.')

DT = 'following every path of the operations of the type over LLVM IR on a symbolic object, outcomes compared with the specified ones'
DN = ('Selection, insertion, growth, counting, keys, copies, printing and constructors are followed; other objects are opaque and may fail at any point. '
      'Collections of up to 4 items are followed item by item. Outcomes that cannot be compared are listed as undecided in the evidence.')
prop('D01', 'Lists hold their items in order at the indices 0 to count-1',
     'Selecting from a list gives the item at the index, for exactly the integers from 0 to its length less 1; storing replaces the item at such an index and no '
     'other, appends at its length, and refuses any other key. No operation loses, repeats or reorders items, also when the list grows, or lets it hold more than it has room for. '
     'The keys of a list are its indices, its copy is a new list of copies of all items in order, and it prints as its items in order between brackets.',
     ['inputs', 'histories'], 'every list and capacity, every key, every failure of a part',
     'Tests use a few small lists; keys at the ends, of other types or beyond 32 bits, and growth at each length are not sampled.',
     [L + 'objects/o_list.c'], [('select_, insert, grow', L + 'objects/o_list.c'), ('copy, keysof, print', L + 'objects/o_list.c'),
                                ('Object_NewList2, Object_NewListOfConsecutiveIntegers', L + 'objects/o_list.c')], DT, DN)
prop('D02', 'Maps find under each key the value last stored under it',
     'Lookup, insertion and rehashing of a growing map visit the same sequence of slots for the hash of a key, compare the key with that of each slot in use '
     'and stop at an empty one. Storing under a key that is there replaces its value only; a new key gets a copy of the key, the value, one slot and makes the map '
     'one larger; a failed insertion leaves the map as it was. A map always keeps a slot empty, and growing it keeps all items. Copies, keys and printing give all items in order.',
     ['inputs', 'histories'], 'every contents of a map, all keys and hashes including colliding and negative ones, every failure of a part',
     'Tests use a few keys; collisions, negative hashes and growth with colliding keys need particular hashes.',
     [L + 'objects/o_map.c'], [('select_, insert, grow', L + 'objects/o_map.c'), ('copy, keysof, print', L + 'objects/o_map.c'), ('Object_NewMap', L + 'objects/o_map.c')],
     DT, DN + ' Maps of 2 to 8 slots and up to 12 probes are compared, as terms over the hash.')
prop('D03', 'Buffers are windows of bytes and share them with their slices',
     'Reading and writing a buffer work on the byte at the index of its window, for exactly the integers from 0 to its length less 1 and values from 0 to 255, '
     'and change nothing else. A new buffer has the length asked for and zero bytes; a slice is accepted exactly when it lies inside its buffer, starts relative to the window '
     'it is taken from and shares the bytes; the block of bytes is freed with its last user, once. Count, keys, the bytes given out and printing (two hexadecimal digits each) are those of the window.',
     ['inputs', 'histories'], 'every window, index, value and slice, including slices of slices and 64 bit arguments',
     'Tests use few buffers; slices of slices, negative and huge arguments and bytes over 127 are hardly sampled.',
     [L + 'objects/o_buffer.c'], [('buffer_select, buffer_insert, buffer_free', L + 'objects/o_buffer.c'), ('Object_SliceBuffer, Object_GetBuffer', L + 'objects/o_buffer.c')],
     DT, 'Reading, writing, counting, printing, slicing, allocating and freeing are followed. Digits are computed from the printed terms for all 256 bytes. Printing is followed for up to 4 bytes.')
prop('D04', 'Strings are sequences of characters, compared and copied with all their bytes',
     'Selecting from a string gives the whole character at the index, for exactly the integers from 0 to its number of characters less 1. A new string is a terminated copy of all '
     'bytes given, with their number and that of their characters, and is refused if they are not characters. Strings are equal exactly if they have the same bytes, zero bytes included; '
     'equal strings have equal hashes; count and keys are those of the characters; printing writes all bytes.',
     ['inputs'], 'every string and index, with characters of any number of bytes',
     'Tests use short ASCII strings; indices behind wider characters and zero bytes are hardly sampled.',
     [L + 'objects/o_string.c'], [('select_, op_eql, hash, print', L + 'objects/o_string.c'), ('Object_FromString, Object_GetString', L + 'objects/o_string.c')],
     DT, 'Characters are delimited by the decoder, which D05 checks. Indices up to 4 are followed character by character.')
prop('D05', 'UTF-8 is encoded, decoded and counted without leaving the text',
     'Each Unicode code up to 0x10ffff is encoded as its UTF-8 bytes if there is room for them, and those bytes are decoded to the code again and to their number; codes beyond are refused. '
     'No byte is read or written past the room given. The length of a text in characters is the number of characters decoded plus that of its other bytes, up to exactly its end, '
     'and a text is refused exactly when one of its characters is.',
     ['inputs'], 'all codes, all lengths of text and room',
     'Tests use few characters; the boundaries between lengths and truncated characters at the end of a text are not sampled.',
     [L + 'utils/utf8.c'], [('utf8_sequence_from_utf32_codepoint, utf8_sequence_to_utf32_codepoint', L + 'utils/utf8.c'), ('utf8_strlen', L + 'utils/utf8.c')],
     'following every path over LLVM IR; the bytes and codes it computes are terms, compared with UTF-8 at codes around all boundaries',
     'Terms are evaluated at about 130 codes around the boundaries of lengths and bits. Invalid continuation bytes are accepted by this decoder: not claimed. Texts are followed for up to 3 turns.')
prop('D06', 'Operations on an object are those of its type, with defined results without',
     'Hashing, copying, calling, selecting, inserting, deleting, counting, keys, type tests, comparing, printing and walking an object call the function of the type of that object once, '
     'with the arguments of the operation in order, and give its result. Where the type has none, the hash is 0, the keys are none, a type test is false, a text says so, walking does nothing and the '
     'others are an error. Objects of different types are different without an error. An object that is being printed is marked, so that it is not printed again inside of itself, and is as before afterwards.',
     ['inputs'], 'every operation on an object of any type, whether the type has the operation or not',
     'Tests use a few operations on a few types, and hardly the ones a type lacks; printing cycles is not tested.',
     [L + 'objects/objects.c'], [('Object_Select, Object_Insert, Object_Compare, Object_Print, ...', L + 'objects/objects.c')], DT,
     'The functions of types are opaque here; what they do is the subject of D01-D04 and D07-D09.')
prop('D07', 'Simple values: equality, hash, copy, text and conversions are those of the value',
     'An object made of an integer, a number, a truth value, a stream or a directory gives that value back, and is of its type; a type test accepts exactly the objects of its type. '
     'Integers and numbers are equal exactly if their values are (zeros of either sign are), truth values and types if they are the same, none always. Equal values have the same hash: it depends on '
     'nothing but the value. Copies are the value. Integers are printed in decimal, truth values as true and false, none as none, types as their names.',
     ['inputs'], 'all values of 64 bits',
     'Tests use few small values; values that differ only in high bits, negative zero, and hashes of equal objects at different addresses are not sampled.',
     [L + 'objects/o_int.c', L + 'objects/o_float.c', L + 'objects/o_bool.c', L + 'objects/o_none.c', L + 'objects/objects.c', L + 'utils/hash.c', L + 'objects/o_file.c', L + 'objects/o_dir.c'],
     [('op_eql, hash, copy, print', L + 'objects/o_int.c'), ('op_eql, hash', L + 'objects/o_float.c'), ('hashbytes', L + 'utils/hash.c'), ('Object_IsInt, Object_IsMap, ...', L + 'objects/objects.c')],
     DT, 'What digits a number is printed with is left to the C library and not claimed.')
prop('D08', 'A type test is true exactly if the object and all its parts are of the type',
     'An object is of a type if that is its type, of any always, of an optional type if it is none or of its item, of a sum if it is of the first or else of the second alternative. It is of a list or map used '
     'as a type if it is a list or map itself and has, at each index or key of the type, an item that is of the type there; a missing item is a mismatch and not an error. '
     'An error of an inner test ends the test. The constructors keep the parts in their order, and these types print as their parts.',
     ['inputs'], 'all types and objects, and errors in inner tests',
     'Tests use a few types; later parts of longer types, missing parts and errors inside of a test are not sampled.',
     [L + 'objects/o_sum.c', L + 'objects/o_nullable.c', L + 'objects/o_any.c', L + 'objects/o_list.c', L + 'objects/o_map.c', L + 'objects/objects.c'],
     [('istypeof', L + 'objects/o_sum.c'), ('istypeof', L + 'objects/o_nullable.c'), ('istypeof', L + 'objects/o_list.c'), ('istypeof', L + 'objects/o_map.c')], DT,
     'Lists and maps used as types are followed for up to 4 parts.')
prop('D09', 'Names are looked up from the inside out and assigned in the innermost scope',
     'A variable is looked up by its whole name in the variables of the running function, then in those of the functions around its definition from the inside out, then in the builtins; the first '
     'one found is its value, an error ends the search, and a name found nowhere is told from one found. Assigning stores the value under the name in the variables of the running function and nowhere else. '
     'Builtins added later come on top of the earlier ones. A table of builtins gives, under each of its names, the value of its kind that stands there.',
     ['inputs', 'programs'], 'all nestings of functions and all names',
     'Tests use shallow nestings in which few names are defined twice; errors during a lookup are not tested.',
     [L + 'runtime.c', L + 'objects/o_closure.c', L + 'o_staticmap.c'],
     [('Runtime_GetVariable, Runtime_SetVariable, Runtime_plugBuiltins', L + 'runtime.c'), ('select_, Object_NewClosure', L + 'objects/o_closure.c'), ('select_', L + 'o_staticmap.c')], DT,
     'Static maps are followed for up to 4 members. That they compare names up to a zero byte is not claimed.')
prop('R01', 'Frames and their values are entered, counted and left exactly, or not at all',
     'A value pushed is on top of the stack and counted for the current frame; values popped are the topmost ones, topmost first, and only values of the current frame can be popped or looked at. '
     'A frame takes at most 16 values, and at most 16 frames are entered. A frame entered is the current one, leads back to the one before, starts without values and holds its code; leaving it goes back '
     'to the one before, removes exactly its values and releases it and its code once. An operation that fails reports an error, releases what it took and leaves stack and frames as they were.',
     ['inputs', 'histories'], 'every operation on frames and values, at every depth and number of values, with frames of every kind',
     'Tests rarely reach the limits of frames and values, and never a failure of an allocation there.',
     [L + 'runtime.c', L + 'utils/stack.c'],
     [('Runtime_Push, Runtime_Pop, Runtime_Top', L + 'runtime.c'), ('Runtime_PushFrame, Runtime_PushNativeFrame, Runtime_PushFailedFrame, Runtime_PopFrame', L + 'runtime.c'),
      ('Stack_Push, Stack_Pop, Stack_Top', L + 'utils/stack.c')],
     'path-sensitive abstract interpretation over LLVM IR: every path of each operation compared with its specification',
     'Popping into an array is compared for up to 4 values. Counters are not followed beyond their 32 bits.')
prop('R02', 'Calls pass the values given, none for those missing, and give back all results',
     'Calling a function runs its code from its first instruction in a frame of its own with its closure. It gets as many arguments as it has parameters: the values given in their order, none for '
     'missing ones, and no extra ones. A native function is called once the same way, or with all values if it is variadic. The values a function leaves are the results, at most 8, in their order. The frame is left '
     'exactly once when the call succeeds, and kept for the stack trace when it fails; a failed call gives no results. Memory taken for arguments is freed once, after the call.',
     ['inputs', 'programs'], 'all numbers of parameters and arguments, every failure on the way',
     'Tests call functions with few combinations of parameters and arguments, and failures between are not tested.',
     [L + 'run.c'], [('func_call', L + 'run.c'), ('native_func_call', L + 'run.c'), ('runExecutableAtIndex', L + 'run.c')],
     'path-sensitive abstract interpretation over LLVM IR: every path of a call compared with its specification',
     'Frames and instructions are contracts here, checked as R01 and V06-V08. Up to 3 parameters and 3 arguments are followed. Timing of calls is not claimed.')
prop('R03', 'A program interrupted or refused by its callback runs no further instruction',
     'Before every instruction a program looks whether it was interrupted and asks the callback of the embedder, if there is one, giving it the runtime and its data. If it was interrupted or the '
     'callback refuses, an error is reported, the call fails and no further instruction is run, nor after an instruction or a collection failed or the program ended. Between instructions, a heap that is '
     'more than full is collected.',
     ['schedules', 'programs'], 'an interruption or refusal at any instruction of any program',
     'No test interrupts a program or has a callback.',
     [L + 'run.c'], [('runInstructionsUntilSomethingHappens', L + 'run.c'), ('Runtime_WasInterrupted, Runtime_GetCallback', L + 'runtime.c')],
     'path-sensitive abstract interpretation over LLVM IR of the loop that runs instructions',
     'A single instruction is taken to be uninterrupted: native functions that block are not interrupted.')
prop('R04', 'Running a source compiles and runs exactly it, once, and gives back its results',
     'Running a source, a file or a text compiles it, or assembles it if it is bytecode, as a whole and exactly once, and runs the code once from its first instruction in a frame of its own without '
     'arguments. What it leaves are the results, in their order. If it is not valid nothing is run, the call fails, and the source and the position of the error are kept for the stack trace. The code and '
     'any source made for the call are released exactly once and not before their last use; a source of the caller is not. Builtins given as a source add its first value to the builtins, or nothing if it has none.',
     ['inputs', 'programs'], 'every way to run a source, and every failure on the way',
     'Tests run sources one way, and no test fails in the middle or looks at what is released.',
     [L + 'run.c', L + 'runtime.c'], [('runSource, runFileEx, runStringEx, runBytecodeSource, ...', L + 'run.c'), ('Runtime_plugBuiltinsFromSource, ...FromFile, ...FromString', L + 'runtime.c')],
     'path-sensitive abstract interpretation over LLVM IR: every path of each way to run compared with its specification',
     'Compiling itself is the subject of V01-V05 and frames that of R01. Up to 2 results are followed.')
prop('R05', 'Sources hold the text given; shared things live until their last user',
     'A source made from a file or a text holds all of it, terminated by a zero byte, its size and its name, and tells them back; a file that can not be opened, measured or read completely gives an error '
     'and no source. Files are closed exactly once and memory is released on failure. A source, the code of a program and a stack have one user when made; a copy counts one more, a release '
     'one less, and the last release, and only it, frees the thing and all it owns. Code keeps a source of its own and gives it up when freed.',
     ['inputs', 'histories'], 'all files and texts, every failure while reading, all orders of copies and releases',
     'Tests read small files without errors, and nothing observes when shared things are released.',
     [L + 'utils/source.c', L + 'executable.c', L + 'utils/stack.c'], [('Source_FromFile, Source_FromString, Source_Copy, Source_Free', L + 'utils/source.c'), ('Executable_Copy, Executable_Free, Executable_SetSource', L + 'executable.c'), ('Stack_Copy, Stack_Free', L + 'utils/stack.c')],
     'path-sensitive abstract interpretation over LLVM IR: every path of each function compared with its specification',
     'What the C library reads from a file is taken as given.')
prop('R06', 'A stack trace shows every active frame, innermost first, at its line',
     'The stack trace lists the active frames from the innermost to the outermost, numbered from 0, one line each. A function shows the name of its source and the line of the instruction that was running: '
     'one more than the line ends before its place. A source that was not valid shows the line of its error, a native function that it has no source, a source without a name that it has none. '
     'Frames without a place show no line. Nothing else is printed as a frame, and all of it goes to the stream asked for.',
     ['inputs', 'programs'], 'all chains of frames of every kind, sources with and without names, and places',
     'Tests compare few traces, of shallow calls in small sources.',
     [L + 'runtime.c', L + 'executable.c'], [('Runtime_PrintStackTrace, printFrame, getFrameOffset', L + 'runtime.c'), ('Executable_GetInstrOffset', L + 'executable.c')],
     'path-sensitive abstract interpretation over LLVM IR: what is printed on every path compared with the frames',
     'Chains of up to 3 frames and places of up to 2 bytes are followed. That instructions have the right places is V09.')
prop('R07', 'An error keeps its whole message, is told once and frees what it holds',
     'Reporting an error keeps its type, where it was reported and its whole message with its length; a message too long for the memory of the error itself gets memory of its own that is large enough, and only '
     'if there is none it is cut, which is then said. Nothing is written beyond the memory of a message. Who asked to be told is told once, after the error is complete. Freeing an error frees exactly the memory '
     'of its own message and leaves the error empty. An error is shown with the name of its type, or of the given type if it has none, and its message.',
     ['inputs'], 'all messages of any length, including when there is no memory',
     'Tests hardly report messages longer than 512 bytes, and never without memory.',
     [L + 'utils/error.c'], [('_Error_Report2, Error_Free, Error_Init2, Error_Print', L + 'utils/error.c')],
     'path-sensitive abstract interpretation over LLVM IR: every path of each function compared with its specification',
     'The formatting of the C library is a contract.')
prop('R08', 'Files are found relative to the script or the current folder, in paths that fit',
     'An absolute path is used as it is. The path of a program is taken relative to the current folder, the path of a file to import relative to the folder of the innermost running script, or to the current folder if '
     'that script is not a file: the folder, one slash and the whole path. Paths are terminated and never written beyond their buffers; exactly those that do not fit are refused. The folder of a script is its path up '
     'to and including the last slash. An imported file is run once with its results given back, and its source released once.',
     ['inputs'], 'all lengths of paths, folders and buffers',
     'Tests import few files with short paths.',
     [L + 'utils/path.c', L + 'run.c', L + 'runtime.c'], [('Path_MakeAbsolute', L + 'utils/path.c'), ('makePathRelativeToScript, runFileRelativeToScript', L + 'run.c'), ('Runtime_GetCurrentScriptFolder, Runtime_GetMostRecentExecutable', L + 'runtime.c')],
     'path-sensitive abstract interpretation over LLVM IR with strings of unknown length',
     'The last slash of a path is searched up to 6 bytes from its end. Whether a folder that already ends with a slash is followed by another is not claimed.')

prop('P01', 'A source is split into exactly the tokens written in it',
     'White space and comments (from # to the end of the line) are skipped and separate tokens. Names are the longest run of letters, digits and underscores that does not start with a digit, keywords exactly the names '
     'in the table of keywords. Numbers are the longest run of digits, with a fraction if a dot and a digit follow. Strings reach to the first unescaped quote of their kind, and a source ending inside of one is refused. '
     'A run of operator characters that is in the table is that operator, otherwise its first character is a token of its own; any other character is a token of its own. Each token says where it starts and how long '
     'it is, and is linked to those next to it. The list ends with the token for the end of the source, and no character beyond the end of the source is looked at.',
     ['inputs'], 'all texts over classes of characters',
     'Tests tokenize the sources they have: endings inside of comments, numbers, names and escapes are not among them.',
     [L + 'compiler/parse.c'], [('tokenize, isoper, kwords, optable', L + 'compiler/parse.c')],
     'abstract interpretation over LLVM IR with a set of possible characters per position, compared with a reference lexer',
     'Texts of up to 7 characters are followed.')
prop('P02', 'Literals have exactly the value written and are never overrun',
     'A string has exactly the characters written, with the escapes \\n \\t \\r \\" \\\' and \\\\ replaced; any other escape is refused, as are strings too long for the parser. Numbers are converted from their whole text and '
     'refused when they do not fit; none, true and false are themselves. The text of a name or a string is copied whole and terminated, and its node has the place of its token. Nothing is read outside of the token and nothing '
     'is written beyond the local buffers.',
     ['inputs'], 'all literals of any length',
     'Tests have few literals: long ones, ones that just fill a buffer and rare escapes are not among them.',
     [L + 'compiler/parse.c'], [('parse_string_primary_expression, parse_primary_expresion, makeStringExprNode, makeIdentExprNode, copy_token_text', L + 'compiler/parse.c')],
     'abstract interpretation over LLVM IR with a set of possible characters per position, and bounds of what is copied for tokens of any length',
     'Strings of up to 4 characters between the quotes are followed. That numbers are converted right is up to the C library.')
prop('P03', 'Operators group by precedence and associativity as specified',
     'Binary operators bind, from loosest to tightest: = | or and comparisons, + and -, * / and %, and the comma of a tuple. Operators of a level group to the left, = to the right. Prefix operators bind tighter than all of them. '
     'A comma or = ends an expression where tuples or assignments are not allowed, in its sub-expressions too. Each operator makes the node of its own kind, with its operands in order and in place.',
     ['inputs', 'programs'], 'all sequences of tokens',
     'Tests have few combinations of operators, of which there are more than 256 pairs.',
     [L + 'compiler/parse.c'], [('parse_expression, parse_expression_2, parse_prefix_expression, precedenceof, isrightassoc, isbinop', L + 'compiler/parse.c')],
     'path-sensitive abstract interpretation over LLVM IR, every path compared with a reference grammar',
     'One operator and what follows its operand is followed per step. How long a node is is not claimed.')
prop('P04', 'Each construct of the language is parsed into what is written',
     'Statements, blocks, conditions, loops, definitions and parameters of functions, calls, selections, lists, maps and parenthesised expressions are accepted if and only if their tokens are those of the grammar, and make the node '
     'of their kind with exactly the parts written, each in its role: items, keys, statements in order, arguments and parameters with their number, each parameter with its own name, type and default. A node starts where its '
     'construct does. A whole source is parsed, from its first token to its last.',
     ['inputs', 'programs'], 'all sequences of tokens',
     'Tests parse the programs they have; most refusals, and combinations of optional parts, are not among them.',
     [L + 'compiler/parse.c'], [('parse, parse_statement, parse_ifelse_statement, parse_while_statement, parse_dowhile_statement, parse_compound_statement, parse_function_definition, parse_function_arguments, '
                                 'parse_postfix_expression, parse_primary_expresion, parse_list_primary_expression, parse_map_primary_expression', L + 'compiler/parse.c')],
     'path-sensitive abstract interpretation over LLVM IR, every path compared with a reference grammar',
     'Running out of memory is left out. Where the node of a parameter starts and how long nodes are is not claimed.')
prop('P05', 'The parser never goes past the end of the source and always moves on',
     'The parser never steps beyond the token that ends the source, whatever the source, a block ends only at its own end, and no parser comes back to itself without having consumed a token: every source is accepted or refused after '
     'finitely many steps.',
     ['inputs'], 'all sequences of tokens',
     'A test would have to cut programs at every token.',
     [L + 'compiler/parse.c'], [('next, prev and all parse_ functions', L + 'compiler/parse.c')],
     'path-sensitive abstract interpretation over LLVM IR: typestate of the current token, and cycles in the graph of parsers that start without consuming',
     '')
prop('C04', 'Local buffers of fixed size are never overrun',
     'Text and values that come from a program, a file, the user or the system never reach beyond the fixed-size arrays the functions of the library keep them in: what does not fit is refused, cut or kept elsewhere. '
     'The sizes told to functions that fill such an array are not larger than the array.',
     ['inputs', 'programs'], 'all lengths of names, literals, paths and lines, and all numbers of values',
     'Tests hardly have names, strings, paths or lists long enough to fill a buffer.',
     [L + 'compiler/parse.c', L + 'compiler/codegen.c', L + 'compiler/graphviz.c', L + 'assembler/assemble.c', L + 'executable.c', L + 'run.c', L + 'builtins', L + 'utils'],
     [('every function with a local array', 'src/lib')],
     'abstract interpretation over LLVM IR to a fixed point: intervals and linear facts at every access',
     'Accesses limited by the result of another function (numbers of operands, of items of a tuple, of values returned) are not decided by this check.')
prop('U01', 'Memory the bump allocator gives out is aligned, in its chunk and not shared',
     'A block that is given out is aligned to 8 bytes, lies inside the chunk it is taken from and after everything given out of it before. When it does not fit, exactly one new chunk that is large enough is made by the function given '
     'for that, and leads to the previous one; when that fails nothing changes. Freeing the allocator releases each chunk and the allocator itself once, does not touch what is released, and leaves memory of the caller alone.',
     ['inputs', 'histories'], 'all sizes, all fillings of a chunk and all sequences of requests',
     'Tests never look at where a block lies; an overlap shows as a corrupted tree much later, if at all.',
     [L + 'utils/bpalloc.c'], [('BPAlloc_Init, BPAlloc_Init2, BPAlloc_Init3, BPAlloc_Malloc, BPAlloc_Free', L + 'utils/bpalloc.c')],
     'abstract interpretation over LLVM IR with linear facts over symbolic sizes, ownership of chunks',
     'Alignment is decided for 20 amounts already used that have every remainder; sums of sizes beyond 2 GB are left out.')
prop('U02', 'A growing list holds exactly what was appended, in order',
     'Appending copies exactly the bytes given (zeros when there are none) behind those there were, across buckets as needed, never beyond the end of a bucket, and adds their number to the size of the list; what must stay together is '
     'kept in one bucket and its place is given back. Copying a list gives its bytes in the order of appending, as many as asked for. The code of an executable is built in such lists.',
     ['inputs', 'histories'], 'all sizes and all fillings of the buckets',
     'Tests do not produce programs that end close to the end of a bucket.',
     [L + 'utils/bucketlist.c'], [('BucketList_New, BucketList_Append, BucketList_Append2, BucketList_Copy, make_bucket, append_bucket', L + 'utils/bucketlist.c')],
     'abstract interpretation over LLVM IR with linear facts over symbolic sizes; the copies of each path are added up',
     'Appends that fill up to 3 new buckets and lists of up to 3 buckets are followed. What a failed append leaves is not claimed.')
prop('U03', 'Values that come later reach each subscriber once; labels are found by name',
     'A subscriber of a promise is given the value once: at once when it is known, otherwise when it becomes known, whatever other subscribers there are; its callback is called once, with its pointer, after that. Asking for a label gives the '
     'promise of exactly that name, making it once; giving a label its value resolves that promise; the number of labels without a value is the number of those without. Running out of memory is reported and loses nothing.',
     ['histories', 'programs'], 'all sequences of subscribing and resolving, all names',
     'A test would have to make several jumps to one label, before and after it, with labels whose names start alike.',
     [L + 'utils/promise.c', L + 'utils/labellist.c'], [('Promise_New, Promise_Subscribe, Promise_Subscribe2, Promise_Resolve', L + 'utils/promise.c'), ('LabelList_GetLabel, LabelList_SetLabel, LabelList_GetUnresolvedCount', L + 'utils/labellist.c')],
     'path-sensitive abstract interpretation over LLVM IR on chains of subscribers and labels',
     'Chains of up to 3 subscribers and labels are followed.')
prop('A01', 'The assembler makes exactly the instructions that are written',
     'An assembly source is accepted if and only if it is a sequence of instructions, each with an optional label before it, a name and up to 8 operands, separated as the syntax says. Each instruction is emitted once, in order, with the code of '
     'its name and its operands in order: integers, numbers with a fraction and strings with their exact values, labels as the promise of their name; numbers that do not fit and strings over 1024 characters are refused. A label is the index of '
     'its instruction; a program with labels that are nowhere is refused. A refusal has a place, within the source or none.',
     ['inputs', 'programs'], 'all texts, over sets of characters',
     'Tests assemble well-formed programs; limits, escapes, signs and malformed texts are hardly among them.',
     [L + 'assembler/assemble.c'], [('assemble, parseLabelAndOpcode, parseOperands, parseStringOperand, parseIntegerOperand, parseFloatingOperand', L + 'assembler/assemble.c')],
     'path-sensitive abstract interpretation over LLVM IR with sets of characters, every path compared with a reference assembler',
     'The texts that are followed have up to a few unknown characters each. Two labels of the same name are not claimed; that each instruction has the operands it needs is V08.')
prop('A02', 'Instructions are known by exactly their names',
     'The name of each instruction of the machine is known to the assembler and leads to the code of exactly that instruction; anything else, whatever it starts or ends with and however long it is, is no name. The name of each code, as listings '
     'show it, is the one the assembler takes. Looking up a name reads only its characters.',
     ['inputs', 'programs'], 'all names of instructions and texts close to them',
     'Tests do not use all instructions by name, and hardly any wrong name.',
     [L + 'executable.c'], [('Executable_GetOpcodeBinaryFromName, Executable_GetOpcodeName, instr_table', L + 'executable.c')],
     'path-sensitive abstract interpretation over LLVM IR, on all names and names changed in one place',
     'Names that differ in more than one place from all names are followed for some lengths only.')
prop('G02', 'What a collection may have moved is not used by its old address',
     'A collection happens only where a program is executed. A function that executes code of the program (a call, an import, a run) uses no object, no array of objects and no text inside of an object that it had before by its old address '
     'afterwards: not to read or write through it, to keep it, to hand it on or to return it. The values the call returns are used by the addresses it gave.',
     ['programs', 'schedules'], 'every path over a call during which a collection may happen',
     'A test fails only if a collection happens during that very call, and moves that very object, and its old place is used again.',
     [L + 'run.c', L + 'runtime.c', L + 'builtins/basic.c', L + 'objects/objects.c'],
     [('func_call, native_func_call, runInstruction, runExecutableAtIndex', L + 'run.c'), ('bin_import', L + 'builtins/basic.c'), ('Runtime_plugBuiltinsFromSource', L + 'runtime.c')],
     'interprocedural dataflow over LLVM IR: which functions reach the collector, which values refer into the heap, which of them are used after a call that may collect',
     'Fields of the runtime, its frames and its stack are updated by the collection (G01).')
LIBENG = 'symbolic walk over LLVM IR of each builtin, compared path by path with a reference for its name; calls of the C library answer in every way'
LIBWHY = 'The tests call each function with a few right arguments, never with wrong kinds at every place or with a system that refuses.'
prop('B04', 'Functions on strings and buffers give exactly the text they are asked for',
     'string.ord gives the code of the first character and refuses empty strings; string.chr gives the UTF-8 of a code between 0 and 0x10FFFF and refuses others; string.cat gives the bytes of all '
     'strings in order; string.slice gives the bytes from an offset, as many as asked for or up to the end, and refuses what is not inside of the string; string.trim drops exactly the spaces at both '
     'ends; string.toInt gives the number if all of a non-empty string is decimal digits and it fits 64 bits, and otherwise none with a message. buffer.new refuses negative sizes; buffer.sliceUp and '
     'buffer.fromString make the window and the copy asked for; buffer.toString gives the bytes of the buffer if they are UTF-8, else none with a message. Arguments of other kinds are refused with an '
     'error, and memory taken on the way is freed, never overrun.',
     ['inputs', 'programs'], 'every kind of arguments, every offset and length, texts and sizes up to the bounds in the evidence', LIBWHY,
     [L + 'builtins/string.c', L + 'builtins/buffer.c', L + 'builtins/utils.c', L + 'utils/utf8.c'],
     [('bin_ord, bin_chr, bin_cat, bin_slice, bin_trim, bin_toInt', L + 'builtins/string.c'), ('bin_new, bin_sliceUp, bin_toString, bin_fromString', L + 'builtins/buffer.c'),
      ('parseArgs', L + 'builtins/utils.c')], LIBENG, 'The texts of trim and toInt are sets of all characters up to 4 bytes, and listed ones beyond; cat is decided for listed sizes of up to three strings.')
prop('B05', 'Functions on files read, write and open what they are told, and no more',
     'files.openFile opens the path in the mode its number stands for and refuses other numbers; a file that cannot be opened gives none and a message. files.read and files.write move as many bytes '
     'as asked for but never more than the buffer has, all of it if no number is given, refuse negative numbers, and give the number of bytes moved. files.openDir gives a directory, or nothing if it cannot be opened; '
     'files.nextDirItem gives the name of the next item, nothing at the end, and an error if reading fails. Arguments of other kinds are refused before anything is opened or moved, and '
     'what is opened but not given back is closed.',
     ['inputs', 'programs', 'fault_sequences'], 'every kind of arguments, every count and size, every answer of the system', LIBWHY,
     [L + 'builtins/files.c', L + 'builtins/utils.c', L + 'objects/o_file.c', L + 'objects/o_dir.c', L + 'objects/o_buffer.c'],
     [('bin_openFile, bin_read, bin_write, bin_openDir, bin_nextDirItem', L + 'builtins/files.c'), ('parseArgs', L + 'builtins/utils.c')], LIBENG,
     'Modes are numbers in the range of int.')
prop('B06', 'The basic functions do what their names say',
     'print prints its values in order on the output of the runtime; input gives the line typed, of any length, without its end; type and typename give the type of a value and its name; count gives what the '
     'value counts; istypeof and keysof ask their values in the order given; assert fails unless all of its values are true; error fails with its text as the message, not as a format; import runs the file '
     'named; the functions on directories give the working directory, the path of the script and all of it up to its last slash, or none if there is no script file. The names of types are bound to the types of those names. '
     'Arguments of other kinds are refused, and memory is neither leaked nor overrun.',
     ['inputs', 'programs'], 'every kind and number (up to 3) of values, lines up to the lengths in the evidence', LIBWHY,
     [L + 'builtins/basic.c', L + 'builtins/utils.c', L + 'runtime.c'],
     [('bin_print, bin_input, bin_type, bin_typename, bin_count, bin_assert, bin_error, bin_istypeof, bin_keysof, bin_import, bins_basic_init', L + 'builtins/basic.c')], LIBENG,
     'Paths of scripts are sets of all characters after a first slash.')
prop('B07', 'Mathematical functions are those of C; random numbers stay in range',
     'Each function of math applies the C function of its name to its arguments in order and gives a float; floor and ceil give that as an int; values that are not floats are refused. PI and E are the nearest '
     'doubles. random.seed seeds the generator with its number; random.generate gives a number between its bounds and can reach both.',
     ['inputs', 'programs'], 'every kind of arguments; the ends of what rand() gives, for listed bounds', LIBWHY,
     [L + 'builtins/math.c', L + 'builtins/random.c', L + 'builtins/utils.c'],
     [('WRAP_FUNC, WRAP_FUNC_2, bin_ceil, bin_floor, bins_math', L + 'builtins/math.c'), ('bin_seed, bin_generate', L + 'builtins/random.c')], LIBENG,
     'What the C functions themselves compute, and ranges that do not fit a double, are outside.')
prop('B08', 'Functions on sockets do what they are told and leak no descriptor',
     'net.socket makes the socket asked for, reusable only if that is asked for; net.bind binds the address and port given, in network byte order, to the family AF_INET and no other; net.listen, net.accept and '
     'net.close act on their descriptor; net.recv and net.send move at most the size of the buffer, or the number given if that is smaller, and give the number moved. A call that fails gives a message. '
     'Arguments of other kinds are refused before anything is done, and a descriptor that is not given back is closed.',
     ['inputs', 'programs', 'fault_sequences'], 'every kind of arguments, every count and size, every answer of the system', LIBWHY + ' There are no tests of sockets at all.',
     [L + 'builtins/net.c', L + 'builtins/utils.c'],
     [('bin_socket, bin_bind, bin_listen, bin_accept, bin_recv, bin_send, bin_close', L + 'builtins/net.c')], LIBENG, 'Numbers are in the range of int.')
prop('U04', 'Objects get memory of their own that is aligned, whole and counted',
     'Memory the heap gives out is aligned to 8 bytes, lies inside the heap after everything given out of it before, or in a new block that is large enough and kept in the list of blocks, and is counted as in use; '
     'during a collection none is made beyond the heap. A new object has its type, no marks and at least the memory its type says, is initialised once, and is put in the list of what is to be released exactly if its type '
     'has a destructor. A new heap is empty, and a collection starts with empty memory that is as large, keeping the old. A request that fails changes nothing and keeps no memory.',
     ['inputs', 'histories'], 'all sizes, all fillings of the heap, every kind of type',
     'Tests never look at where an object lies; an overlap shows as a corrupted value much later, if at all.',
     [L + 'objects/heap.c', L + 'objects/objects.h'], [('Heap_New, Heap_Malloc, Heap_RawMalloc, Heap_StartCollection, Heap_GetUsagePercentage, Heap_GetObjectCount', L + 'objects/heap.c')],
     'abstract interpretation over LLVM IR with linear facts over symbolic sizes',
     'Alignment is decided for listed amounts already used that have every remainder; sums of sizes beyond 2 GB are left out. That types are as large as their objects is property T01.')
prop('U05', 'What an object holds is released once, when it is collected or the heap is freed',
     'When a collection ends, every object with a destructor that was not moved is given to its own destructor once, before its memory goes; each that was moved stays in the list, at its new place and with its destructor. The '
     'blocks and the memory of the old heap are then released once and not touched again, memory in use is not; a destructor that fails makes the collection fail, after the others ran. Freeing the heap releases every '
     'object in the list, then all memory. The destructors of files, directories and functions close or release what the object holds, once, and a type whose objects hold such a thing has one.',
     ['histories', 'fault_sequences'], 'every list of up to 3 objects (4 thorough), moved or not, with every outcome of their destructors',
     'Test programs end before they leave files to the collector, and what is never closed is not noticed.',
     [L + 'objects/heap.c', L + 'objects/o_file.c', L + 'objects/o_dir.c', L + 'run.c'],
     [('Heap_StopCollection, callDestructors, freeOverflowAllocations, Heap_Free', L + 'objects/heap.c'), ('file_free', L + 'objects/o_file.c'), ('dir_free', L + 'objects/o_dir.c'), ('func_free', L + 'run.c')],
     'abstract interpretation over LLVM IR; releases of each path matched with what is held', 'Which members hold something is read from their types: FILE*, DIR*, Executable*.')
prop('C02', 'The command does what its options say, and its status says whether it worked',
     'For every order and spelling of its options, noja runs the file, or with -i the code, that follows them once, as bytecode with -a, with the heap and profiling asked for, the builtins in place and signals of interruption '
     'and termination reaching the program; or makes a diagram of it. Words after the input are not options. A diagram and a profile go to the file named with -o, else to the standard output, whole. The status is 0 if that '
     'worked and not 0 if it failed or the command line is no good; then nothing is run, and what is wrong is printed on the error stream, for a program with its stack trace. The runtime, the diagram and the file are released once.',
     ['configurations', 'fault_sequences'], 'the listed command lines: every option in every spelling, combinations (all of them thorough), missing and bad arguments; every outcome of what is called',
     'The tests call the library; none runs the command with options, or looks at its status.',
     ['src/cli/main.c'], [('main, help, usage, signalHandler', 'src/cli/main.c')],
     'abstract interpretation over LLVM IR on enumerated command lines, compared with a reference reading of the help text',
     'Which mode wins when several are given, and a profile that cannot be written, are not claimed.')
prop('C01', 'A diagram shows every part of the program once, below what it belongs to',
     'The diagram of a program is one directed graph in the DOT language. Each node of the syntax tree is drawn once and labelled with what it is: operators by their own sign, constants, names and strings by their value, escaped so that the label reads '
     'as the text. Each part of a node is drawn once below it, in the order of the source for lists, blocks, calls and returned values; keys with their own values, types and defaults with their own argument. No two nodes have the same name. '
     'Texts fit the memory they are written to and are whole; a diagram that cannot be made is an error, with the place the parser gave or none, and source, tree and texts are released once in every case.',
     ['programs', 'inputs', 'fault_sequences'], 'every kind of node with up to 3 parts (4 returned values); listed string texts; all lengths of texts; every failing allocation',
     'No test makes a diagram.',
     [L + 'compiler/graphviz.c', L + 'diagram.c'],
     [('graphviz, nodeToGraphViz, exprToGraphViz, childToGraphViz, funcExprToGraphViz, generateName, flattenTupleTree', L + 'compiler/graphviz.c'),
      ('Buffer_EnsureFreeSpace, Buffer_VAppendF, GraphViz_AppendHead, GraphViz_AppendBody, GraphViz_Complete', L + 'compiler/graphviz.c'), ('diagramFileAST, diagramStringAST, diagramSourceAST', L + 'diagram.c')],
     'abstract interpretation over LLVM IR; the formatted text of each path read back and compared with the tree', 'The order of arguments in a diagram, and what is left out of a return of more than 32 values, are not claimed.')
prop('L01', 'What is taken is given back once on every path',
     'Whatever the compiler, the assembler, the diagram generator, the calls of functions, the timings and the runtime take - memory, files, pools of memory, sources, code, tables, heaps, stacks - is on every path, and also when anything '
     'fails, released exactly once, or handed to the caller as the result, or kept where the owner finds it and releases it later; nothing is released twice or used after it was released, and what belongs to the caller is not released. '
     'Freeing a runtime releases its heap, stack and timings and then itself; freeing timings releases name and source of each entry; a code generation context releases its pool exactly if it made it itself.',
     ['fault_sequences', 'programs', 'histories'], 'every path, with every outcome of every call that can fail',
     'A leak or a release too many in a failure path is not seen by tests, which do not make allocations fail.',
     [L + 'compiler/compile.c', L + 'compiler/codegen.c', L + 'compiler/codegenctx.c', L + 'assembler/assemble.c', L + 'diagram.c', L + 'timing.c', L + 'runtime.c', L + 'run.c', L + 'executable.c', L + 'utils/source.c', L + 'utils/stack.c',
      L + 'utils/error.c'],
     [('compile', L + 'compiler/compile.c'), ('codegen', L + 'compiler/codegen.c'), ('CodegenContext_New, CodegenContext_Free, CodegenContext_MakeExecutableAndFree', L + 'compiler/codegenctx.c'), ('assemble', L + 'assembler/assemble.c'),
      ('diagramSourceAST, diagramFileAST, diagramStringAST', L + 'diagram.c'), ('TimingTable_new, TimingTable_newEntry, TimingTable_free', L + 'timing.c'), ('Runtime_New, Runtime_Free, Runtime_Push*Frame, Runtime_PopFrame', L + 'runtime.c'),
      ('func_call, native_func_call, runSource, runFileEx, runStringEx', L + 'run.c'), ('ExeBuilder_Finalize, Executable_SetSource', L + 'executable.c'), ('Source_FromFile, Source_FromString', L + 'utils/source.c')],
     'ownership analysis: abstract interpretation over LLVM IR with events for taking and giving back', 'A source set a second time in the same code is not claimed; memory of objects is properties U04 and U05.')
prop('F01', 'What is formatted is what its format asks for',
     'Every message, trace, diagram and listing is formatted with a constant format, never with text of the program, of a file or of the system; each conversion in it is one C knows and gets an argument that is there and of its type, texts for texts '
     'and numbers of the size asked for; lists of arguments are started before they are used and used once. No message reads what it was not given.',
     ['inputs', 'programs', 'fault_sequences'], 'every call that formats in the library and the command',
     'Most messages belong to failures that no test provokes, and a text with a percent sign in it is in none.',
     [L + 'utils/error.c', L + 'builtins/utils.c', L + 'builtins/basic.c', L + 'objects/objects.c', L + 'objects/heap.c', L + 'compiler/graphviz.c', L + 'compiler/codegenctx.c', L + 'runtime.c', L + 'executable.c', 'src/cli/main.c'],
     [('_Error_Report, _Error_Report2, Error_Panic_', L + 'utils/error.c'), ('CodegenContext_ReportErrorAndJump_', L + 'compiler/codegenctx.c'), ('GraphViz_AppendHead, GraphViz_AppendBody, Buffer_VAppendF', L + 'compiler/graphviz.c'),
      ('bin_error', L + 'builtins/basic.c')],
     'lint over LLVM IR and the typed syntax tree: formats against arguments; dataflow on argument lists', 'Whether a text ends where it should is left to the properties of what makes it.')
prop('S01', 'A profile counts each call of each function for that function',
     'With profiling on, every function a program makes gets an entry of its own, with its name, its source, no calls and no time, that never changes the others, however many there are. Each call of the function adds exactly one call and '
     'the time it took to that entry when it ends, also if it fails. Without profiling nothing is entered or counted. The profile lists, in the order they were made, exactly the functions that were called at least once: name, name of '
     'the source, number of calls and time in microseconds; written to a file it is whole and closed, and a file that cannot be opened is told.',
     ['histories', 'programs'], 'all tables of up to 12 entries, all rooms; profiles of up to 3 functions with any numbers of calls; every call',
     'No test runs with profiling on.',
     [L + 'timing.c', L + 'runtime.c', L + 'run.c'],
     [('TimingTable_new, TimingTable_newEntry, TimingTable_sumCallTime, TimingTable_getSummary', L + 'timing.c'), ('Runtime_SerializeProfilingResultsToStream, Runtime_SerializeProfilingResultsToFile, Runtime_GetTimingTable', L + 'runtime.c'),
      ('func_call, Object_FromNojaFunction', L + 'run.c')],
     'abstract interpretation over LLVM IR compared with a model of the table', 'The time itself is that of clock; the line of a function is not known to the code, and not claimed.')
prop('H01', 'No loop repeats for ever with nothing changing',
     'In every loop of the library and of the command what decides whether it goes round once more can change from one turn to the next: a counter is stepped, and toward the bound it is compared with; a list is walked on to its next '
     'element; memory that is tested is written, or something is called. No input, program or file makes a loop repeat for ever because its step is missing, fixed or goes the wrong way.',
     ['inputs', 'programs', 'histories'], 'every loop of every function',
     'A loop that does not step hangs only for the sizes and kinds of values that take it round a second or third time; most printing, diagram and failure loops are in no test.',
     [L + 'compiler/parse.c', L + 'compiler/codegen.c', L + 'compiler/graphviz.c', L + 'assembler/assemble.c', L + 'executable.c', L + 'run.c', L + 'runtime.c', L + 'timing.c', L + 'objects/heap.c', L + 'objects/objects.c',
      L + 'objects/o_map.c', L + 'objects/o_list.c', L + 'objects/o_string.c', L + 'objects/o_buffer.c', L + 'builtins/string.c', L + 'builtins/files.c', L + 'builtins/basic.c', L + 'builtins/utils.c', L + 'utils/utf8.c', L + 'utils/stack.c',
      L + 'utils/bucketlist.c', L + 'utils/hash.c', L + 'o_staticmap.c', L + 'utils/bpalloc.c', L + 'utils/labellist.c', L + 'utils/promise.c', L + 'utils/source.c', 'src/cli/main.c'],
     [('every loop', L + 'objects/o_buffer.c'), ('tokenize', L + 'compiler/parse.c'), ('lookup in a map, grow', L + 'objects/o_map.c'), ('the walk over the roots', L + 'runtime.c'), ('print_bytes', L + 'objects/o_buffer.c')],
     'loop progress analysis over LLVM IR: dominators, natural loops, values that change per turn', 'How many turns a loop takes, and that a program of the user ends, is not claimed.')
