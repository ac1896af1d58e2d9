"""The checks: which module decides which property, and what its evidence says."""
ASSUME = ['ASSERT, assert and UNREACHABLE hold: paths that end in one are not executions of interest',
          'clang 18 -O0 IR with mem2reg represents the program; the library models of libc calls are right',
          'loops are cut: values changed by a loop body are unknown after it except for the facts the exit condition gives']
E_EXPL = ('Disjunctive abstract interpretation of the IR of each function that can report an error, one function at a time; '
          'callees that can report are replaced by their contract (which is itself checked, function by function), other '
          'callees are inlined. An outcome is a set of paths from entry to return with the same returned value and error state.')
GEN = ('The code generator is followed on each construct of the language with its parts abstract (an expression or a statement of which nothing else is known), '
       'which gives the template of instructions, parts and jump targets it emits on every path. ')
GENC = ('The template and the meaning of the construct are walked side by side for every combination of outcomes of the tests and parts in them (up to a number of '
        'decisions), and their steps, operands, results and ends compared. Constructs without a meaning must not be compiled.')
GENA = ['structural induction: a part compiled on its own behaves as an expression or as a statement; constructs are followed with up to 7 repeated parts and 2 levels',
        'the parser builds nodes of the shapes described in sa/codegen.py Tree']
VME = ('The function that runs an instruction is followed for each row of the instruction table with symbolic operands and stack contents; operations on objects are '
       'replaced by contracts that record what was done to which stack slot. Each path is compared with the meaning of the instruction.')
DE = ('Each operation (the functions in the type table and the constructors) is followed turn by turn with symbolic arguments on an abstract object; operations on other objects, '
      'allocations, copies and output are replaced by contracts that record what was done. Each path is compared with the meaning of the operation.')
CHECKS = {
    'E01': dict(module='errors', decide='core_', rule='per path: failing return value <=> exactly one error reported',
                explanation=E_EXPL, assumptions=ASSUME),
    'E02': dict(module='errors', decide='builtins_', rule='per path: negative return <=> exactly one error reported',
                explanation=E_EXPL, assumptions=ASSUME),
    'E03': dict(module='errors', decide='compile_', rule='per path: failure <=> exactly one error reported, and a failure has stored the source location',
                explanation=E_EXPL, assumptions=ASSUME),
    'E04': dict(module='nulls', decide='decide_nulls', rule='per path: no read, write or call uses a pointer the path has found or made null',
                explanation=E_EXPL, assumptions=ASSUME),
    'T01': dict(module='types_', decide='decide_types', rule='per path: an object is accessed through the structure of the type it is known to have',
                explanation=E_EXPL, assumptions=ASSUME),
    'B02': dict(module='natives', decide='args_', rule='per path: only arguments that exist are read, in the form in which they were parsed',
                explanation=E_EXPL, assumptions=ASSUME),
    'B03': dict(module='natives', decide='rets_', rule='per path: the number returned is the number of results stored',
                explanation=E_EXPL, assumptions=ASSUME),
    'G01': dict(module='gc_', decide='collect_', rule='every reference field of every object type is walked, every heap block an object owns is walked with its size, every root is collected, '
                'and the moving functions copy, mark, forward and update',
                explanation='For each object type its walk function is followed turn by turn on an abstract object and what it gives to the callback is compared with the members of the '
                'structure (debug information) and the count of the object. Each function that stores a block of the heap in an object is followed to its exits, and the walk over extensions is '
                'then followed on the object it leaves. The collection is followed on abstract chains of frames and stacks. The functions that move are followed on each kind of reference.',
                assumptions=ASSUME + ['arrays are checked up to 4 elements, chains of frames up to 3: walks treat later ones as they treat these']),
    'V01': dict(module='compiling', decide='table_', rule='one row per opcode; every emission, the store and the machine agree with the row',
                explanation='The instruction table is read from its initializer. ExeBuilder_Append and Executable_Fetch are followed for every row with '
                'symbolic operands, and what is fetched is compared with what was appended. The code of each instruction is followed on the operands of its '
                'row. Every instruction the generator emits for the constructs of V03-V05 is compared with its row.', assumptions=ASSUME),
    'V02': dict(module='compiling', decide='stack_', rule='bytecode verification of the code emitted for each construct: one depth per point',
                explanation=GEN + 'Each template is then verified: a single stack depth at each point, no instruction below it, one value left by an '
                'expression, none by a statement, by a break and by a function, RETURN of what is there.', assumptions=ASSUME + GENA),
    'V03': dict(module='compiling', decide='exprs_', rule='the code emitted for an expression performs the steps of its meaning in their order',
                explanation=GEN + GENC, assumptions=ASSUME + GENA),
    'V04': dict(module='compiling', decide='control_', rule='the code emitted for a statement takes the branches its meaning takes',
                explanation=GEN + GENC, assumptions=ASSUME + GENA),
    'V05': dict(module='compiling', decide='funcs_', rule='the code emitted for a function binds, defaults and checks its parameters, runs its body and returns',
                explanation=GEN + GENC, assumptions=ASSUME + GENA),
    'V06': dict(module='vmspec', decide='arith_', rule='per path of an arithmetic instruction: the result pushed is the operation on the operands, in order',
                explanation=VME, assumptions=ASSUME),
    'V07': dict(module='vmspec', decide='tests_', rule='per path of a comparing or testing instruction: its result is the truth of its relation',
                explanation=VME, assumptions=ASSUME),
    'V08': dict(module='vmspec', decide='data_', rule='per path of any other instruction: operands taken, results pushed and effects are the specified ones',
                explanation=VME, assumptions=ASSUME),
    'V09': dict(module='compiling', decide='location_', rule='locations of instructions are positions, extents are differences, and both are read back as stored',
                explanation=GEN + 'The location given to each emission is a sum of positions and lengths of nodes; in a position positions count once, in an '
                'extent not at all.', assumptions=ASSUME + GENA),
    'D01': dict(module='objs', decide='lists_', rule='per path of a list operation: indices in range exactly, the item at the index, counts and capacities kept',
                explanation=DE, assumptions=ASSUME + ['lists of up to 4 items are followed item by item: loops treat later items as they treat these']),
    'D02': dict(module='objs', decide='maps_', rule='per path of a map operation: all operations look at the same sequence of slots, and leave keys, values and slots consistent',
                explanation=DE + ' Maps of 2 to 8 slots with 1 or 2 items are followed; the slots looked at are terms over the hash of a key, compared between lookup, insertion and growth.',
                assumptions=ASSUME + ['the number of slots and items does not change what an operation does other than through the values followed']),
    'D03': dict(module='bufs', decide='bufs_', rule='per path of a buffer operation: exactly the window, the bytes and the users of its block',
                explanation=DE, assumptions=ASSUME + ['sizes of buffers are at most INT_MAX (refused otherwise by Object_NewBuffer, which is checked)']),
    'D04': dict(module='bufs', decide='strs_', rule='per path of a string operation: whole characters at indices, all bytes compared, copied and printed',
                explanation=DE, assumptions=ASSUME + ['characters are delimited as the UTF-8 decoder does, which D05 checks']),
    'D05': dict(module='bufs', decide='utf8_', rule='per path of the UTF-8 functions: bytes are those of the code, no byte past the end, characters counted once',
                explanation='The encoder, the decoder and the counting of characters are followed on every path; what a path computes is a term over the code or the '
                'bytes, which is compared with UTF-8 at codes around every boundary of its lengths and bits. Reads and writes are compared with the room given.',
                assumptions=ASSUME),
    'D06': dict(module='dispatch', decide='dispatch_', rule='per path of an operation on an object: the function of its type gets the arguments and its result is returned, '
                'or the type lacks it and the result is the specified one',
                explanation='Each operation is followed on an object of which nothing is known, with the function of its type replaced by one that records its arguments and succeeds or '
                'fails. Paths are compared with the specification in both cases.', assumptions=ASSUME),
    'D07': dict(module='dispatch', decide='values_', rule='per path of a method of a simple value: equality is that of the values, hashes are functions of the value, copies are the value',
                explanation=DE + ' What is hashed is compared with the bytes of the value; zeros are followed apart.', assumptions=ASSUME),
    'D08': dict(module='dispatch', decide='types_of', rule='per path of a type test: the result is that of the tests of the parts at their places',
                explanation=DE, assumptions=ASSUME + ['types and objects of up to 4 items are followed item by item']),
    'D09': dict(module='dispatch', decide='names_', rule='per path of a lookup: places are searched from the inside out, once each, until the name is found; assignments are local',
                explanation=DE, assumptions=ASSUME + ['static maps of up to 4 members are followed member by member']),
    'R01': dict(module='frames', decide='stack_', rule='per path of an operation on the stack or the frames: exactly the values and the frame asked for, counted, held and released once',
                explanation='The operations on the value stack and on the stack of frames are followed on every path, with a current frame of each kind and none. Values, counts, links and '
                'what is held or released at the end of a path are compared with the specification; paths that fail must leave all of it as it was.',
                assumptions=ASSUME + ['a frame counts at most the values on the stack, and the stack at most its size: every operation followed keeps that']),
    'R02': dict(module='frames', decide='calls_', rule='per path of a call: a frame of its own, the arguments in order and none for missing ones, the results in order, the frame left on success only',
                explanation='Calls of functions and of native functions are followed on every path for 0 to 3 parameters and 0 to 3 values; frames, pushes, single instructions and '
                'native callbacks are replaced by contracts (checked on their own as R01 and V06-V08) that record their arguments and may fail at any point.',
                assumptions=ASSUME + ['more than 3 parameters or values are treated as these: the loops over them are the same']),
    'R03': dict(module='frames', decide='polling_', rule='per path between two instructions: interruption and callback are looked at, and an overfull heap is collected',
                explanation='The loop that runs instructions is followed on every path with instructions, the callback and collections replaced by contracts; the flag of interruption has a new '
                'unknown value after each of them. Between two instructions the path must have established that neither asks to stop.',
                assumptions=ASSUME + ['three instructions in a row stand for any number: the loop has no other state']),
    'R04': dict(module='running', decide='running_', rule='per path of running a source: compiled once, run once from its start, results in order, everything released once',
                explanation='Each way to run a source, file or string is followed on every path, with making the source, compiling, frames and single instructions replaced by contracts '
                'that record their arguments and may fail at any point. Results, releases and failures are compared with the specification.',
                assumptions=ASSUME + ['more than 2 results are treated as these']),
    'R05': dict(module='running', decide='sources_', rule='per path of making, copying and releasing sources, code and stacks: content and size as given, reference counts exact',
                explanation='Making a source is followed with the functions of the C library replaced by contracts that record their arguments and may fail. What is stored, counted, closed and '
                'freed is compared with the specification on each path; copying and releasing on each value of a reference count.',
                assumptions=ASSUME),
    'R06': dict(module='trace', decide='trace_', rule='per chain of frames: one line each, innermost first, with its number, the name of its source and the line of its instruction',
                explanation='Printing a trace is followed on every chain of up to two frames of every kind and one of three, with sources with and without names and places of 0 to 2 bytes '
                'into the source; what is printed is reassembled from the formats and compared with the frames.',
                assumptions=ASSUME + ['longer chains and later places are treated as these: the loops have no other state', 'sources and code are opaque: R05 and V09']),
    'R07': dict(module='trace', decide='reports_', rule='per path of reporting, showing and forgetting an error: the whole message in memory that fits, told once, freed once',
                explanation='The functions of errors are followed on every path with formatting replaced by a contract: it needs as much room as the message has, says how much, and uses up the '
                'values it is given.', assumptions=ASSUME),
    'R08': dict(module='trace', decide='paths_', rule='per path of making a path: folder, slash, relative path and end are where they belong and inside of the buffer',
                explanation='The functions that make paths are followed with strings of unknown length; what is written to the buffers is compared with its room and with the path as specified.',
                assumptions=ASSUME + ['the path of a script is searched up to 6 bytes from its end: the loop has no other state', 'the current folder the system gives fits the buffer it was given']),
    'P01': dict(module='scanning', decide='tokens', rule='per text of characters of known classes: the tokens are those of the reference lexer, whole, in order and linked',
                explanation='The tokenizer is followed over texts given as a set of possible characters per position, branching where the characters matter; the list it '
                'builds is compared with that of a reference lexer on the same sets, and every character it looks at with the end of the text.',
                assumptions=ASSUME + ['texts are up to 7 characters long, longer tokens are made of the same classes of characters: the loops have no other state']),
    'P02': dict(module='scanning', decide='literals', rule='per literal: the characters of a string are those written, numbers and names are taken from their whole text, buffers are never overrun',
                explanation='The functions that turn a literal or a name into a node are followed; the characters of a string are followed one by one as sets of possible characters, '
                'copies into local memory are compared with its size for tokens of any length.',
                assumptions=ASSUME + ['strings of up to 4 characters between the quotes are followed: the loop has no other state', 'numbers are converted by the C library']),
    'P03': dict(module='parsing', decide='operators', rule='per path of parsing an expression: sub-expressions, operator, order and level are those of the reference grammar',
                explanation='The functions that parse expressions are followed over chains of tokens of unknown kinds, each sub-parser replaced by a contract that records its '
                'arguments and stops at any later token or fails. The node of each path is compared with what a reference grammar, reading the facts of that path, builds.',
                assumptions=ASSUME + ['more operators in a row than followed are treated as these: the loop has no other state']),
    'P04': dict(module='parsing', decide='grammar', rule='per path of parsing a construct: tokens asked for, parts, order and place of the node are those of the reference grammar',
                explanation='The functions that parse statements, functions, primary and postfix expressions are followed over chains of tokens of unknown kinds, each sub-parser replaced by '
                'a contract. What each path accepts, refuses and builds is compared with a reference grammar that reads the facts of the path.',
                assumptions=ASSUME + ['lists of parts longer than 2 (3 in the thorough tier) are treated as these: the loops have no other state']),
    'P05': dict(module='parsing', decide='ends', rule='per step of the parser: the token left behind is not the last one; per recursion: a token was consumed',
                explanation='Every step of the parser to the next token must be on a path that established that the current one is not the end of the source. The graph of sub-parsers '
                'started without having consumed a token must have no cycle.',
                assumptions=ASSUME),
    'C04': dict(module='locals_', decide='locals_', rule='per access to a local array: what limits the place and the amount keeps it inside',
                explanation='Every function with an array among its local variables is analysed to a fixed point with intervals and linear facts. Every load, store, copy, read from a file and '
                'call that is given such an array with its size is compared with the size of the array: an access is reported when the limit it is held to is beyond the end '
                '(or, for arrays that are limited today, when nothing limits it any more).',
                assumptions=ASSUME + ['values that are computed by other functions, or that depend on each other through memory, are not limited here: such accesses are listed as not decided']),
    'U01': dict(module='stores', decide='blocks_', rule='per path of a request: the block is aligned, after what was given out, before the end of its chunk',
                explanation='The functions of the allocator are followed with symbolic sizes and every remainder of what is used. On each path the place of the block is compared with '
                'what was used, the size of the chunk or the size that was asked for it. Freeing is followed on chains of chunks.',
                assumptions=ASSUME + ['alignment is followed for 20 amounts used, of every remainder by 8 and 16', 'sizes are below 2^28', 'memory given by malloc is aligned']),
    'U02': dict(module='stores', decide='buckets_', rule='per path of an append or a copy: the pieces follow each other, are inside their buckets and add up',
                explanation='The functions of the list are followed with symbolic sizes, fillings and data. The copies of each path are walked in order and their places, sources, '
                'lengths and sum compared with what was asked for; the chain and the counters at the end are compared with what was copied.',
                assumptions=ASSUME + ['lists of up to 3 buckets and appends over up to 3 new ones are followed: the loops have no other state']),
    'U03': dict(module='stores', decide='promises_', rule='per path: each subscriber is given the value and called once, each label is found or made once',
                explanation='Subscribing, resolving and asking for labels are followed on chains of abstract subscribers and labels; copies and calls by pointer are recorded and compared.',
                assumptions=ASSUME + ['chains of up to 3 are followed']),
    'A01': dict(module='assembling', decide='assembly_', rule='per path over a text: instructions, operands, labels and refusals are those of the reference assembler',
                explanation='The assembler is followed over texts of which the characters are sets, with lists of labels, the builder of the executable and the table of instructions replaced by contracts '
                'that record their arguments. What each path accepts, refuses and emits is compared with what a reference assembler, reading the same sets, makes of the text.',
                assumptions=ASSUME + ['words, numbers and strings longer than followed are treated as these, except near the limits, which are followed']),
    'A02': dict(module='assembling', decide='mnemonics_', rule='per name: it is found if and only if it is that of an instruction, with its code, and given back',
                explanation='The look-up of names is followed on each name of the enumeration of the instructions and on names changed, shortened or extended in one place; the names given for each code are compared with it.',
                assumptions=ASSUME),
    'G02': dict(module='stale', decide='stale_', rule='per call that may collect: no reference computed before is used after',
                explanation='The functions from which the collector can be reached are found in the call graph, with calls by pointer. In each of them the values that refer to objects, into objects or to arrays '
                'of objects are found from the types of parameters, fields and results, and followed to a fixed point: at a call that may collect all those computed before become stale, and a use of a stale one is reported.',
                assumptions=ASSUME + ['references that are hidden in structures other than arguments and arrays of arguments, and are not roots, are not followed']),
    'B04': dict(module='library', decide='strings', rule='per function scripts can call, by its name in the tables: arguments of every kind, and every answer of the system',
                explanation='The function is followed from its table entry on arguments of each right and each wrong kind, with symbolic values or texts given as sets of characters; calls of the C library and of the object library answer in every way they can. A reference for the name walks along each path: it asks what holds there, expects the calls with their arguments in order, and says what is given back. Texts are cut, trimmed, joined and converted exactly as the reference does; the sizes joined include those around the local buffer.',
                assumptions=ASSUME + ['strings and buffers are shorter than 2^31 bytes; texts are decided up to the lengths listed in the evidence; numbers that become C ints are in the range of int']),
    'B05': dict(module='library', decide='files', rule='per function scripts can call, by its name in the tables: arguments of every kind, and every answer of the system',
                explanation='The function is followed from its table entry on arguments of each right and each wrong kind, with symbolic values or texts given as sets of characters; calls of the C library and of the object library answer in every way they can. A reference for the name walks along each path: it asks what holds there, expects the calls with their arguments in order, and says what is given back. What is opened is closed on every path that does not give it back.',
                assumptions=ASSUME + ['strings and buffers are shorter than 2^31 bytes; texts are decided up to the lengths listed in the evidence; numbers that become C ints are in the range of int']),
    'B06': dict(module='library', decide='basics', rule='per function scripts can call, by its name in the tables: arguments of every kind, and every answer of the system',
                explanation='The function is followed from its table entry on arguments of each right and each wrong kind, with symbolic values or texts given as sets of characters; calls of the C library and of the object library answer in every way they can. A reference for the name walks along each path: it asks what holds there, expects the calls with their arguments in order, and says what is given back. Lines typed are scripted with lengths around every size of the buffer.',
                assumptions=ASSUME + ['strings and buffers are shorter than 2^31 bytes; texts are decided up to the lengths listed in the evidence; numbers that become C ints are in the range of int']),
    'B07': dict(module='library', decide='maths_all', rule='per function scripts can call, by its name in the tables: arguments of every kind, and every answer of the system',
                explanation='The function is followed from its table entry on arguments of each right and each wrong kind, with symbolic values or texts given as sets of characters; calls of the C library and of the object library answer in every way they can. A reference for the name walks along each path: it asks what holds there, expects the calls with their arguments in order, and says what is given back. Numbers are drawn with the ends of what rand() gives.',
                assumptions=ASSUME + ['strings and buffers are shorter than 2^31 bytes; texts are decided up to the lengths listed in the evidence; numbers that become C ints are in the range of int']),
    'B08': dict(module='library', decide='net', rule='per function scripts can call, by its name in the tables: arguments of every kind, and every answer of the system',
                explanation='The function is followed from its table entry on arguments of each right and each wrong kind, with symbolic values or texts given as sets of characters; calls of the C library and of the object library answer in every way they can. A reference for the name walks along each path: it asks what holds there, expects the calls with their arguments in order, and says what is given back. Sockets that are opened are closed on every path that does not give them back.',
                assumptions=ASSUME + ['strings and buffers are shorter than 2^31 bytes; texts are decided up to the lengths listed in the evidence; numbers that become C ints are in the range of int']),
    'U04': dict(module='heap', decide='heap_', rule='per path of a request: the memory is aligned, after what was given out, inside the heap or its block, and counted',
                explanation='The functions of the heap are followed with symbolic sizes and every remainder of what is used. On each path the place of the memory is compared with what was used and the size of the heap, '
                'or with the size that was asked for its block; a new object with its type; the list of what is to be released with the size of its array.',
                assumptions=ASSUME + ['alignment is followed for 20 amounts used, of every remainder by 8 and 16', 'sizes are below 2^28', 'memory given by malloc is aligned']),
    'U05': dict(module='heap', decide='release_', rule='per end of a collection or a heap: each object left behind is destroyed once, then each block released once',
                explanation='The end of a collection and of a heap are followed on lists of objects of which any were moved, with every outcome of each destructor. The destructors called, the list that is left '
                'and the memory released are compared with what they have to be. Each destructor of a type is followed, and what it releases compared with the members that hold something.',
                assumptions=ASSUME + ['realloc to a smaller size keeps what fits', 'destructors do not change the heap']),
    'C02': dict(module='cli', decide='command_', rule='per command line and path of main: what is run, on what, with which settings, what is printed where, and the status are those of the help text',
                explanation='main is followed on command lines given as concrete words, with the functions of the library it calls, and fopen, answering in every way they can. A reference that reads the same words by the help text '
                'says what has to be run on which input, with which settings; the calls, streams and status of each path are compared with it.',
                assumptions=ASSUME + ['the arguments of options are the listed ones: their texts are only handed on, or read by atoi']),
    'C01': dict(module='diagrams', decide='diagram_', rule='per kind of node: it is drawn once with its label, each of its parts once below it, under names that are made nowhere else; texts fit their memory and are whole',
                explanation='The walk over the tree is followed from each kind of node, with parts whose drawing is another call of the walk that draws names of its own. What each path formats is put together from '
                'the formats and arguments, read as statements of a graph, and compared with the tree: labels, edges, the numbers in names. The functions that append to a text, and the one that joins the texts, are followed with '
                'symbolic lengths and every outcome of realloc and malloc.',
                assumptions=ASSUME + ['nodes with up to 3 parts, or 4 returned values, are followed', 'names are fewer than 2^31', 'vsnprintf needs the same each time, and writes no more than it is told']),
    'L01': dict(module='owning', decide='owning_',
                rule='per function that takes memory, files, sources, code, pools or tables: on each path each thing taken is given back once, returned, or stored where it is found again; nothing is given back twice or used '
                'afterwards; what a maker stores in what it makes its breaker gives back',
                explanation='Every function outside the parser, the objects and the builtins that calls one of the listed makers or releasers is followed with every outcome of what it calls; a thing taken is matched with the '
                'releases, results and stores of the same path. Which parameters a function keeps is computed from the stores of the whole program. For Runtime_New and TimingTable_new the members that hold something are '
                'taken from their paths, and looked for in the releases of Runtime_Free and TimingTable_free.',
                assumptions=ASSUME + ['a function that fails has kept nothing', 'loops are followed for 3 turns (5 thorough)', 'helpers of a file that take nothing and are long are taken to leave what is owned alone']),
    'F01': dict(module='formats', decide='formats_',
                rule='per call that formats: the format is a constant, or the one a formatting function was given; every conversion is known and has an argument of its class; a list of arguments is started before it is used and used once',
                explanation='The functions that pass a format and a list of arguments on are found from their calls of vsnprintf and vfprintf, transitively. Every call of these and of the printf family is a site: the texts the format may be are '
                'resolved through phis, selects and constant tables, and its conversions compared with the types of the arguments. Texts are typed a second time by the compiler, with the functions declared to format. Lists of '
                'arguments are followed through the control flow of their functions.',
                assumptions=['that a text is terminated is decided elsewhere (D04, P02, C04)', 'integers of the same size are the same']),
    'S01': dict(module='profile_', decide='profile_',
                rule='per operation of the table of timings and per function made or called: entries are made, kept, counted, added to and printed as specified',
                explanation='The operations of the table are followed with 0 to 11 entries, every room for them and every outcome of growing; what is stored is compared with the entry that is due. Printing is followed with up to 3 entries of any '
                'number of calls. Making and calling a function are followed with and without a profile: the entry made, its number kept in the function, and the count after the call, with that number, also if the call fails.',
                assumptions=ASSUME + ['clock tells the time', 'an entry that cannot be made ends the program, as the code decides']),
    'H01': dict(module='progress', decide='progress_',
                rule='per natural loop: at least one of the conditions that end it can change from turn to turn, and no counter that alone ends it moves away from its bound',
                explanation='All natural loops of all functions (library and command) are found with dominators. A condition stays as it is if it is computed only from constants, values made before the loop, header values whose next value is themselves or a '
                'constant, and memory that nothing in the loop writes or may write. A loop all of whose conditions stay, or whose counter steps away from the bound (signed), repeats for ever once it has gone round twice; it is reported unless the '
                'next value ends it. Besides, every way once round a loop is followed: if everything that chose it is unchanged at its end (merges taken as on that way), it is taken for ever.',
                assumptions=ASSUME + ['calls may change any memory; a loop ended only by what it calls is not decided', 'only progress is decided, not how many turns a loop takes']),
}
