# One entry per property: the source of properties.jsonl, MANIFEST.json and
# the per-property part of DESIGN.md (python3 tools/gen.py).
P = []
def prop(id, title, statement, over, quant, why, files, mech, design, bounds, note='', observe=None, level='model_checking', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, design=design, bounds=bounds, note=note, observe=observe or ['bytes a program prints and emits', 'success or failure of the run', 'values returned'], level=level, technique=technique))
C='src/lib/compiler/'; O='src/lib/objects/'; R='src/lib/runtime.c'; B='src/lib/builtins/'; U='src/lib/utils/'

prop('P01', 'Expressions group by the documented precedence',
 'Every expression is evaluated exactly as its fully parenthesized form: the language\'s operator precedences and associativities decide the grouping, whatever the operands and however the operators are combined, spaced or nested. Whenever a sequence of operands, operators and parentheses is a valid expression it is accepted, and otherwise the program is rejected with a syntax error.',
 ['programs'], 'every expression built from the operators, prefix operators, calls, selections, parentheses and operands up to a length bound',
 'The test suite samples some fifty expressions; grouping is a property of every operator sequence, and the operator lexer, the precedence climber and the code generator all have to agree on it.',
 [C+'parse.c', C+'codegen.c', C+'AST.h'], [('precedence climbing', C+'parse.c parse_expression / parse_expression_2'), ('post-order code generation', C+'codegen.c')],
 'Enumerates every operator/operand sequence up to the depth bound, parses each with an independent reference parser, and requires the real compiler to accept exactly the same ones and to emit, for each, the same instructions as for the reference tree\'s fully parenthesized rendering; value-level sections then run expressions in both.',
 'all binary-operator chains of 1-4 operators over the operator alphabet, all prefix/postfix combinations, all token strings of the expression alphabet up to the tier\'s length')
prop('P02', 'Compilation is total and accepts exactly the grammar',
 'For every source text whatsoever, compilation terminates without touching memory outside of the text, and either produces code or reports an error located inside the text. A text is accepted exactly when it derives from the grammar and respects the static rules (break outside loops, assignability, duplicate or misplaced items), and statements group as the grammar says.',
 ['inputs', 'programs'], 'every token sequence up to a length bound, every byte string up to a length bound, and every truncation, deletion and single-token change of a program corpus',
 'Tests hold a few dozen syntax errors; the claim is about all texts, in particular truncated and malformed ones, where out-of-bounds reads and missing error reports hide.',
 [C+'parse.c', C+'codegen.c', C+'compile.c', U+'source.c'], [('tokenizer and recursive descent parser', C+'parse.c'), ('error propagation', U+'error.c'), ('static checks', C+'codegen.c')],
 'Enumerates token sequences, byte strings and single-point mutations; a reference parser decides acceptance; the real compiler runs under ASan/UBSan with the source in an exactly sized allocation; accepted programs are compared with the code of the reference tree\'s canonical rendering.',
 'all token strings of the statement alphabet to length 4-5, all byte strings to length 3, all truncations/deletions/replacements of the corpus; 22 constructs of up to 70 parts', observe=['acceptance or rejection', 'error location', 'generated code'])
prop('P03', 'Lexing: literals denote their values, layout never matters',
 'Every integer, float and string literal denotes exactly the value its spelling says, escapes included, and literals outside of the accepted forms or limits are rejected. Whitespace and comments between tokens never change what a program means, and identifiers are never confused with keywords that are their prefixes.',
 ['inputs', 'programs'], 'every literal spelling up to a length bound and at the limits, every placement of whitespace and comments between the tokens of a corpus, every identifier at edit distance one from a keyword',
 'Tests exercise a handful of literals; digits, escapes, limits and comment placement interact with every token boundary.',
 [C+'parse.c'], [('literal scanners', C+'parse.c'), ('whitespace and comment skipping', C+'parse.c'), ('keyword table', C+'parse.c')],
 'Enumerates literal spellings and token separators; oracle: the reference lexer, compared on acceptance, emitted values and (for layout) on equality of the generated code.',
 'all digit/escape strings up to 4-6 characters plus every length around the limits; all separators at every token boundary of the corpus; comment bodies to 5 (6) of 8 pieces, every byte in a comment; leading zeros')
prop('P04', 'Arithmetic is exact or fails',
 'Integer addition, subtraction, multiplication, division, remainder and negation give the exact mathematical result (truncating division) or, on overflow and on division or remainder by zero, abort the execution with an error; they never wrap and never crash. Mixed and floating operands follow IEEE double arithmetic, and any operand that isn\'t numeric is an error.',
 ['inputs'], 'every pair of operands from a grid of boundary values of every type, under every arithmetic operator, and chains of two operators',
 'Boundary pairs (minimum by -1, products around 2^63, remainder by zero) are precisely those the samples in the test suite leave out.',
 [R, 'src/lib/run.c', O+'o_int.c', O+'o_float.c'], [('checked integer operators', 'src/lib/run.c do_math_op'), ],
 'All pairs over the boundary grid times all operators, run in the implementation (UBSan on signed overflow) and in the reference interpreter (128-bit arithmetic).',
 'grid of about 60 integers and 20 floats plus one value of each other type; all pairs, all operators; two-operator chains over a subgrid')
prop('P05', 'Comparisons and boolean operators',
 'Equality and ordering comparisons give the mathematical answer for every pair of values the language defines them on, and abort with an error for every other pair; != is always the negation of ==, and equal map keys are found again. The operators and, or and not accept only booleans and evaluate operands in order, without skipping any error the language defines.',
 ['inputs', 'programs'], 'every pair over a value grid of every type, every boolean expression tree up to a depth',
 'A comparison matrix over all types and boundary values, and short-circuit behaviour over all trees, are beyond the pairs listed in the tests.',
 ['src/lib/run.c', O+'objects.c', O+'o_string.c', O+'o_int.c', O+'o_float.c'], [('relational operators', 'src/lib/run.c'), ('Object_Compare', O+'objects.c')],
 'All pairs over the value grid times the comparison operators, and all boolean trees to the depth bound with operands that log their evaluation, against the reference interpreter.',
 '45+ values squared times 6 operators; all boolean trees of depth 2 (quick) or 3')
prop('P06', 'Control flow follows the source',
 'For every nesting of if/else, while, do-while, break and blocks, and every sequence of condition outcomes, exactly the statements the source prescribes are executed, in order. Loops leave nothing behind: the values visible after a statement don\'t depend on how often or along which path it was executed.',
 ['programs', 'histories'], 'every statement tree up to a size bound, under every sequence of condition outcomes up to a length bound',
 'Jump targets depend on the whole nesting; the tests walk one path through a few shapes.',
 [C+'codegen.c', 'src/lib/run.c'], [('labels and jumps', C+'codegen.c'), ('jump instructions', 'src/lib/run.c')],
 'Programs are all statement trees within the bound, conditions are answered by an oracle native; the explorer branches on every answer (stateless search over nondeterministic choices) and compares each complete run with the reference interpreter.',
 'trees with up to 3-4 statements over the full statement alphabet, answer sequences up to 5-7')
prop('P07', 'Functions, closures and scoping',
 'A name always resolves to the innermost visible definition (function locals, then the enclosing scopes captured by the closure, then builtins), assignments only affect the scope of the function they are executed in, and closures keep working after their defining function returned. Recursion, functions passed as values and functions stored in collections behave like direct calls.',
 ['programs', 'histories'], 'every program of nested function definitions, reads, writes and calls up to a size bound',
 'Scope interactions (shadowing, capture, late definition) multiply with nesting depth; tests sample a few.',
 ['src/lib/run.c', O+'o_closure.c', 'src/lib/o_func.c', C+'codegen.c'], [('variable lookup chain', 'src/lib/run.c'), ('closures', O+'o_closure.c')],
 'All programs from a grammar of nested functions with reads/writes/calls of a small name set, against the reference interpreter, also with a collection after every instruction.',
 'all nestings to depth 3 with up to 3 actions per level; all orders of definition, escape and call')
prop('P08', 'Arguments, defaults, multiple results and assignment',
 'Calls bind arguments to parameters by position; missing arguments take the parameter\'s default (evaluated only when needed) or none, surplus ones are dropped, and declared parameter types are checked on every call. Return lists of any length up to the limit bind to assignment targets with the first, none-filled or truncated rule of the language, and side effects happen in a fixed order: call arguments are evaluated from the last to the first, the callee afterwards.',
 ['programs', 'inputs'], 'every combination of parameter count, default, type annotation, argument count, argument type, result count and assignment target count up to a bound',
 'The arity matrix is a product of five dimensions, of which the tests touch isolated points.',
 [C+'codegen.c', 'src/lib/run.c', 'src/lib/o_func.c', 'src/lib/o_nfunc.c'], [('call and return', 'src/lib/run.c'), ('tuple assignment', C+'codegen.c'), ('parameter prologue', C+'codegen.c')],
 'All combinations within the bound for noja and native callees, executed in both the implementation and the reference interpreter, with logging operands for the evaluation order.',
 'parameters 0-4, arguments 0-6, results 0-8, targets 1-5, all annotation kinds; up to 14 declared and 14 given arguments')
prop('P09', 'Type assertions and istypeof',
 'A value is accepted by a type expression exactly when it belongs to it: a type matches its own instances, sum and nullable types match the union, collections of patterns match element-wise, any matches everything. istypeof, assert-style parameter annotations and variable annotations all give that same answer for every pair of value and type, and a mismatch aborts with an error; for a call it tells which parameter was given a value of the wrong type.',
 ['inputs', 'programs'], 'every pair of a value and a type expression up to a size bound, through each of the checking constructs',
 'Type expressions compose; the tests check single types only, and list patterns of other lengths than the value were read out of bounds.',
 [O+'o_list.c', O+'o_map.c', O+'o_sum.c', O+'o_nullable.c', O+'o_any.c', O+'objects.c', B+'basic.c', 'src/lib/run.c'], [('Object_IsTypeOf', O+'objects.c'), ('CHECKTYPE instruction', 'src/lib/run.c')],
 'All value/type pairs within the bound, through each construct, against the reference interpreter\'s membership predicate.',
 'about 30 values times all type expressions of depth 2 (3 thorough); patterns and values of every pair of sizes up to 13; every wrong argument of calls with up to 12 parameters')
prop('P10', 'Lists behave like growable arrays',
 'After any sequence of constructions, appends, indexed reads and writes, through any aliases, a list holds exactly the items last written, its length counts them, and only appending at the end grows it. Any index that isn\'t an integer inside of the list is an error for every 64 bit value and leaves the list unchanged.',
 ['histories', 'inputs'], 'every operation sequence up to a length bound over two aliased lists, every index of interest at every length, every growth history up to a few hundred items',
 'Tests append to and index short lists; growth boundaries, aliases and out-of-int-range indices are not reached.',
 [O+'o_list.c', 'src/lib/run.c'], [('grow/insert/select', O+'o_list.c'), ('walkext for the collector', O+'o_list.c')],
 'All operation sequences to the depth bound, run against the reference interpreter, short ones also with a collection after every instruction.',
 'depth 4 (5 thorough) over 12 operations, 3 initial states; lengths to 35 (70) times 21 indices; lists of 22 lengths up to 5000 around powers of two, and of lengths up to tens of thousands')
prop('P11', 'Maps behave like insertion ordered dictionaries',
 'After any sequence of insertions, overwrites and lookups a map holds exactly the last value written for each distinct key, in first-insertion order, whatever the types, values and collisions of the keys and however often it grew; absent keys read as none. Keys are captured by value when inserted, and values that can\'t be keys are reported as errors.',
 ['histories', 'inputs'], 'every operation sequence up to a length bound over colliding keys, every growth history up to hundreds of keys, keys of every type',
 'Probe sequences, growth and key equality interact; losing a key after growth needs specific collisions no test has.',
 [O+'o_map.c', O+'o_float.c', O+'o_int.c', O+'o_string.c', U+'hash.c'], [('open addressing with perturbation', O+'o_map.c'), ('grow and rehash', O+'o_map.c')],
 'All operation sequences to the depth bound over a key alphabet chosen for collisions, plus growth histories with integer/string/float/negative keys, against the reference interpreter, also with collections.',
 'depth 4 (5) over the operation alphabet; up to 200 keys in each growth history, maps of tens of thousands of keys, keys of thousands of bytes or items')
prop('P12', 'Strings are immutable byte sequences that every operation treats alike',
 'A string denotes one sequence of bytes, NULs and multi-byte characters included, and every operation agrees on it: equality and map lookup compare all of its bytes, concatenation and trimming give exactly the bytes concatenated or trimmed (spaces, both ends), count and indexing go by character while slice goes by byte range, ord and chr are inverses, toInt reads exactly the decimal spellings that fit 64 bits. No operation alters its operands, and every argument outside of an operation\'s domain gives its documented none or error, for every 64 bit value; a result longer than a string can be is an error.',
 ['inputs'], 'every string over an alphabet of 1-4 byte characters, spaces and NULs up to a length bound, every pair, every slice range including extreme indices, every argument kind',
 'The tests use short ASCII strings; NULs, multi-byte characters at boundaries and 64-bit arguments are where the byte and character views part.',
 [O+'o_string.c', B+'string.c', U+'utf8.c'], [('string objects and their extension', O+'o_string.c'), ('string builtins', B+'string.c')],
 'All strings and argument tuples within the bound, run in the implementation (ASan, UBSan) and the reference interpreter, also with a collection after every instruction.',
 'strings to 4 characters (5 thorough) over 8 characters, pairs to 2 (3), slices over 26 x 26 bounds, digit strings to 4 (5); strings of tens of thousands of bytes; concatenations whose sizes add up to 2^31, 2^32 and more')
prop('P13', 'UTF-8 is decoded strictly and never past the end',
 'Every Unicode scalar value has exactly one encoding, which decodes back to it; every byte sequence that isn\'t one (truncated, overlong, surrogate, out of range, stray continuation) is rejected, wherever text is decoded: in the library, in string literals, in strings made from buffers. Decoding, counting and stepping forwards or backwards never look at a byte outside of the given text.',
 ['inputs'], 'every code point, every byte string up to 3 bytes and every longer one over the boundary bytes, from every start index',
 'Malformed sequences are a space of all byte strings; the tests contain well-formed text only.',
 [U+'utf8.c', U+'utf8.h', B+'string.c', B+'buffer.c'], [('decoder', U+'utf8.c utf8_sequence_to_utf32_codepoint'), ('iteration', U+'utf8.c utf8_next/utf8_prev/utf8_strlen')],
 'Exhaustive enumeration against an independent strict decoder, with the text in an exactly sized allocation under ASan.',
 'all 2^21 and more code points; all byte strings to length 3 (4 with a lead byte, thorough); boundary-byte strings to length 4 (5); every boundary pair at every position of strings to 64 bytes, boundary bytes in strings to 1000', observe=['decoded characters', 'rejections', 'memory accesses'])
prop('P14', 'Buffers are fixed size bytes shared by their slices',
 'A buffer has the size it was created with, starts zeroed, and each byte holds the last value written to it through the buffer or any overlapping slice, to any nesting; a slice sees exactly its range of what it slices. Writes outside of 0..255, indices or ranges outside of the buffer, and unrepresentable sizes are errors for every 64 bit value and change nothing; the bytes live as long as any slice does.',
 ['histories', 'inputs'], 'every operation sequence up to a length bound over a buffer and nested slices, every range, every index of interest',
 'The tests slice one buffer once; nested offsets, lifetimes and extreme sizes need histories.',
 [O+'o_buffer.c', B+'buffer.c'], [('reference counted payload', O+'o_buffer.c'), ('slicing', O+'o_buffer.c Object_SliceBuffer')],
 'All operation sequences within the bound and all nested ranges, against the reference interpreter, with collections after every instruction and a leak count per run.',
 'depth 4 (5) over the operation alphabet; buffers to 6 (8) bytes with every pair of nested ranges over 20 x 20 bounds; windows over 20 x 20 bounds of buffers of up to 16 MB; 6 sizes from 2^31 to 2^32')
prop('P15', 'Garbage collection never changes what a program does',
 'Whenever collections happen, and however often, a program executes the same instructions, prints the same bytes, fails with the same error and returns the same values as without any collection, sharing and cycles included, and no collection ever makes the interpreter touch memory that was freed.',
 ['schedules', 'programs', 'histories'], 'every collection point (and pair of points) of every program of a family, periodic schedules, and every heap size',
 'A collection happens when the heap is full, so ordinary tests place at most a few of them; a missed root or a stale pointer shows only when one lands on a particular instruction.',
 [O+'heap.c', R, 'src/lib/run.c', O+'o_list.c', O+'o_map.c', O+'o_string.c', O+'o_buffer.c'], [('copying collector', O+'heap.c'), ('root enumeration', R+' Runtime_CollectGarbage'), ('walk and walkext of every type', O+'*.c')],
 'The collector is driven from the per-instruction callback: stateless exploration of all single collection points, all pairs where affordable and all k-periodic schedules of every program, each run compared with the collection-free run and the reference interpreter; ASan turns any stale pointer into a crash; a further mode allocates every object on its own so that accesses outside of objects are caught too.',
 '33 corpus programs, all object-graph programs of 1-2 (3) statements over 17, all triples of 12 kinds of temporaries in 9 consumers, 320 (1024) heap sizes',
 note='Values whose nesting is deep or cyclic aren\'t used as map keys (hashing and copying recurse without a bound).')
prop('P16', 'Garbage is reclaimed, and running out of heap is a clean error',
 'A program whose reachable objects fit in the heap never fails for lack of heap and runs in memory bounded independently of how long it runs; an object which can\'t be reached anymore, cycles included, is reclaimed entirely by the next collection. When the reachable objects don\'t fit, the run stops with a reported error, having printed only a prefix of its output, and everything is still released.',
 ['histories', 'resources', 'programs'], 'every heap size of a ladder for every program of a family, every loop body and pair of bodies, every kind of dropped value',
 'Tests run with a heap far larger than they need; reclamation and exhaustion are only visible with small heaps and long loops.',
 [O+'heap.c', R, 'src/lib/run.c'], [('automatic collection trigger', 'src/lib/run.c'), ('overflow allocations', O+'heap.c Heap_RawMalloc'), ('failed collections', O+'heap.c Heap_StopCollection')],
 'For every program the smallest sufficient heap is found by running it with a collection after every instruction; then every heap size below must give a clean prefix failure or the same run, and every one above the same run. Loops are run at two lengths and must peak alike; dropped values must leave exactly the bytes in use of a program which never made them.',
 '33 corpus programs with 60 (all) sizes below need and a ladder above; 600 (all triples) garbage programs; 24 x 24 loop bodies; 26 x 26 dropped values in 4 positions', observe=['success or failure', 'output', 'bytes allocated', 'bytes in use after a collection'])
prop('P20', 'Every failing allocation or file operation is reported, and undone',
 'When the memory allocator or a file operation fails at any point of a compilation, an assembly or a run - once, or from that point on - the operation either still produces exactly the outcome it would have produced, or fails with a reported error having printed only a prefix of its output. Either way nothing is accessed out of bounds, released twice, leaked or left open, and the process survives.',
 ['inputs', 'faults'], 'every program of a family, every allocation (or file operation) of its run as the failing one, failing once or from there on, in three heap regimes',
 'No test makes an allocation fail; error paths run for the first time when a user is out of memory, and there are as many of them as allocation sites.',
 ['src/lib/run.c', R, O+'heap.c', C+'codegen.c', C+'compile.c', 'src/lib/assembler/assemble.c', B+'basic.c', B+'files.c'], [('error propagation', U+'error.c'), ('object allocation', O+'heap.c'), ('selection of missing elements', 'src/lib/run.c OPCODE_SELECT'), ('file builtins', B+'files.c')],
 'The allocator and the stdio entry points are wrapped (ld --wrap); each program is run once to number its allocations and then once per fault point, under ASan, counting allocated bytes and descriptors before and after.',
 'all corpus programs, the default builtins, all statement sequences of length 1-2 (3), compilations, assemblies and diagrams alone, rejected programs of both languages in a runtime, 48 constructs repeated 120 (200) times after 0-9 fillers of two sizes so that every node of each lies where a chunk of memory ends, eight programs using files and imports; every allocation of the profiled programs and of 9 groups of builtins with results of 16 sizes, and between a socket being made and handed over; the diagram of eight files', note='A short read or write is what files.read and files.write report through the count they return.')
prop('P21', 'Assembly is total, exact and accepts exactly its grammar',
 'For every text whatsoever, assembling it as bytecode terminates without touching memory outside of the text and yields either code or an error located inside the text. A text is accepted exactly when it is a sequence of optionally labelled instructions with known opcodes and operands of the right number and kinds, whose labels are each defined once; the code then has exactly those instructions, every integer, float and string operand has exactly the value it spells and every label stands for the index of its instruction. What the compiler produces, written as assembly, assembles to the same code, and two executables compare equal exactly when their instructions do.',
 ['inputs', 'programs'], 'every token sequence, byte string, literal spelling, operand list and label arrangement up to a bound, and every truncation, deletion and single-byte change of a corpus',
 'The tests assemble some two hundred well-formed programs; malformed texts and uncommon literals are never exercised.',
 ['src/lib/assembler/assemble.c', 'src/lib/executable.c', U+'labellist.c', U+'promise.c'], [('assembler', 'src/lib/assembler/assemble.c'), ('executable builder', 'src/lib/executable.c ExeBuilder_Append'), ('label resolution', U+'labellist.c, '+U+'promise.c')],
 'A reference assembler (harness/asm.hpp), written from the grammar, decides acceptance and the listing of the code; the real one is run on every text under ASan/UBSan.',
 'all sequences of 16 tokens to length 4 (5), all byte strings over 29 bytes to length 4 (5) in three contexts, all operand lists to length 4 for the 42 opcodes, all number spellings to 6 characters, 33 disassembled programs and their mutations', observe=['acceptance or rejection', 'error location', 'assembled code'])
prop('P22', 'The stack machine executes bytecode as specified',
 'Every sequence of bytecode instructions, however ill-formed as a program, executes with the effects of the instruction set - on the operands of its frame, the variables, the control flow, the results - or stops with a reported error: missing or mistyped operands, out-of-range counts, mismatched returns and running past the last instruction are errors, never undefined behaviour. Compiled programs behave like their disassembly.',
 ['programs', 'schedules'], 'every instruction sequence up to a length bound from several stack states, every integer operand of a palette of extremes, every placement of jumps, every combination of parameters, arguments and results',
 'The runtime tests run one hand-written program per instruction; validity checks of the interpreter are only asserted, and only for what the compiler emits.',
 ['src/lib/run.c', R, 'src/lib/executable.c'], [('instruction interpreter', 'src/lib/run.c runInstruction'), ('frames and operand stack', R), ('calls', 'src/lib/run.c runExecutableAtIndex, func_call')],
 'A reference stack machine (harness/asm.hpp VM) executes the same code; outcome, output, results and leaks are compared. Programs that diverge must diverge in both.',
 'all sequences of 53 instruction forms to length 3 (4), and to length 2 (3) from 11 populated stacks; all jump graphs over 4 (5) instructions; 35 extreme values for every integer operand', note='Capacity hints of PUSHLST and PUSHMAP beyond 4096 are only checked for safety.')
prop('P33', 'Mathematical functions and random ranges',
 'Each function of math returns the value of the corresponding real function as the C library computes it, ceil, floor and round give the exact integer or an error when there is none, and any operand that isn\'t a number is an error. random.generate returns an integer inside of the requested range, each of which is possible, for every range and every state of the generator.',
 ['inputs'], 'every function on every operand pair of a grid of numbers and kinds, every pair of bounds under every extreme answer of the underlying generator',
 'Argument registration, rounding limits and range arithmetic fail at extremes no test uses.',
 [B+'math.c', B+'random.c'], [('math table', B+'math.c'), ('scaling of the generator', B+'random.c')],
 'All operand tuples against the reference interpreter; the C generator is replaced by an enumerated stand-in for all bounds and answers.',
 'operand grid of about 40 values squared for 14 functions; 18 x 18 bounds times 12 generator answers')
prop('P17', 'Everything a run acquires is released, however it ends',
 'Once a compilation or a run is over and its runtime was freed, whether it succeeded, was rejected, failed at any instruction in any nesting of calls, or ran out of something, every byte it allocated is freed and every file, directory and descriptor it opened is closed. Files that can\'t be reached anymore are closed by collections, so that the descriptors open at once stay bounded.',
 ['programs', 'histories', 'resources'], 'every token sequence compiled or assembled, every failing expression in every position nested in every other position, every sequence of resource operations',
 'Tests check outcomes, not what is left behind; the paths that leak are the failing ones.',
 ['src/lib/run.c', R, C+'parse.c', C+'codegen.c', 'src/lib/executable.c', 'src/lib/assembler/assemble.c', O+'heap.c', O+'o_file.c', O+'o_dir.c'], [('error paths', 'src/lib/run.c'), ('destructors', O+'heap.c callDestructors'), ('arena allocators of the front end', U+'bpalloc.c')],
 'Allocations are counted by interposing malloc and descriptors by listing /proc/self/fd, before and after each of the enumerated runs, with and without collections.',
 'token sequences to 4 (5), 23 failures x 39 positions x 38 outer positions, resource histories to 3 (4) over 16 operations', observe=['bytes allocated after the run', 'open descriptors'])
prop('P18', 'A run can be stopped at any instruction',
 'Whatever a program is doing, a host that asks for the run to be aborted from the per-instruction callback, or interrupts it, gets control back at once: an abort executes no further instruction, an interruption at most the one in progress; the run fails with a reported error, what was printed is exactly what had been printed by then, a stack trace is available and everything is released.',
 ['schedules', 'programs'], 'every instruction boundary of every program of a family, endless ones included, both ways of stopping, with and without collections before',
 'An abort point is a schedule; the tests never abort a run.',
 ['src/lib/run.c', R], [('callback and interrupt polling', 'src/lib/run.c runInstructionsUntilSomethingHappens'), ('error propagation through nested calls', 'src/lib/run.c')],
 'Stateless exploration: each program is rerun once per instruction boundary and way of stopping and compared with its uninterrupted run.',
 '33 corpus programs, all sequences of 1-3 (4) statements over 18, 12 endless programs for 600 (5000) instructions', observe=['instructions executed after the request', 'output', 'error', 'bytes allocated after the run'])
prop('P19', 'Capacities are enforced by errors, never overrun',
 'Sizes have no effect on meaning: however deep, long, wide or numerous the calls, operands, arguments, results, targets, literals, names, statements, blocks and selections of a program, it either means what its size says or is refused with a reported error, having printed only a prefix of its output, and never touches memory out of bounds. Everything within the capacities (16 nested calls, 16 operands per call, 8 results, literals below 4096 bytes and 64 digits, and no bound on program length, nesting of blocks, names, list and map sizes) is accepted.',
 ['inputs', 'programs', 'resources'], 'every size up to beyond its capacity for each of some fifty program families, every combination of recursion depth, pending operands and evaluation stack size',
 'Capacities are fixed arrays all over the interpreter; tests stay far from each of them.',
 ['src/lib/run.c', R, C+'parse.c', C+'codegen.c', U+'stack.c', U+'bucketlist.c'], [('frame and operand limits', R), ('argument and result arrays', 'src/lib/run.c'), ('literal buffers', C+'parse.c')],
 'Each family is a program generator run at every size and compared with the reference interpreter, which has no capacities.',
 '47 families with sizes to 8-3000; 18 x 18 x 24 depth/operand/stack combinations', note='Nesting deep enough to exhaust the C stack of the recursive parser is out of bounds (see the limits below).')
prop('P23', 'Errors name the failing line of every active frame',
 'When a program fails, the error is of the right kind and its stack trace lists, for every active call from the innermost outwards, the source line that call was executing: the line of the failing statement in the innermost one and of the pending call in the others, whatever constructs, comments, strings and line endings surround them. A rejected program is blamed on the line of the offending text and runs no instruction. An aborted run names the instruction each call had just reached.',
 ['programs', 'schedules'], 'every failing statement within every nesting of constructs up to a depth after every kind of preceding text, and every instruction boundary of a corpus',
 'Tests compare outcomes, not locations; a wrong offset in one instruction, or a frame whose program counter is stale, shows only with particular nestings and layouts.',
 ['src/lib/run.c', R, U+'error.c', U+'source.c', C+'codegen.c', C+'parse.c'], [('stack traces', R+' RuntimeError'), ('program counters of frames', 'src/lib/run.c'), ('offsets of instructions', C+'codegen.c')],
 'Generators produce the program together with the lines expected in its trace; abortions are compared with the instruction each frame of the reference machine is at.',
 '24 failing statements and 26 malformed ones in all nestings of 10 constructs to depth 3 (4) with 6 kinds of filler, 4 more at depth 4 (5); 7 statements broken over lines in up to 2^12 (all) ways; an abortion after each of the first 400 (4000) instructions of 66 programs', observe=['lines of the stack trace', 'kind of error'])
prop('P24', 'Imports and script paths refer to the right file',
 'A relative path given to import denotes the file relative to the directory of the script in which the calling function was written - however that script was itself reached, and whichever module calls the function - or to the working directory when the code doesn\'t come from a file; an absolute path denotes itself. Importing an existing file runs it on its own, with none of the importer\'s variables, gives its results to the importer and reports its own location and directory; anything else (missing files, directories, dangling links, names with zero bytes, names that are too long, endless imports) is a clean error, and the trace of a failure in a module names the file and line of every importer.',
 ['histories', 'inputs'], 'every sequence of imports, returns, failures and calls of imported functions the modules of a tree can ask for up to a number of decisions, every path built of ten segments up to a length, every name length, every working directory',
 'Tests import one file from one directory; resolution depends on the whole history of imports and calls.',
 ['src/lib/run.c', R, U+'path.c', U+'source.c', B+'basic.c'], [('path resolution', 'src/lib/run.c makePathRelativeToScript'), ('current script', R+' Runtime_GetMostRecentExecutable'), ('source loading', U+'source.c')],
 'A tree of modules in a scratch directory is driven by a decision function: each module asks what to do next, and the expected output is computed by a model over the real directory tree (stat, realpath).',
 'five modules, 18 spellings, decision sequences to 3-4 (4-5) with and without collections; 10 segments to length 5 (6) from two directories; names to 2100 characters; 7 working directories, the root and a deleted one included; 21 x 21 module contents; chains to 23 modules; directories of up to thousands of characters', observe=['output', 'success or failure', 'stack trace', 'bytes leaked'])
prop('P27', 'File and directory operations',
 'What a program writes to a file through its handles is what the file holds in that order once the handles are gone (when they are collected, or at the latest when the run is over), what it reads is what the file holds from where the handle is, and the counts returned are the bytes transferred, never more than asked for or than the buffer holds; windows onto buffers are respected. Modes decide whether a file is truncated, created or appended to; what can\'t be opened, for whatever reason, yields none and a description that tells the reasons apart. Listing a directory yields each entry exactly once and then none, independently of other listings; a listing that the system can\'t continue is an error. Handles that become unreachable are closed.',
 ['histories', 'inputs'], 'every sequence of operations over two handles and two files up to a length, every combination of counts, contents and windows, every byte value, sizes around stream buffers, every interleaving of two listings',
 'The tests open no file; positions, buffering, collection of handles and bounds interact.',
 [B+'files.c', O+'o_file.c', O+'o_dir.c', O+'o_buffer.c'], [('file operations', B+'files.c'), ('closing', O+'o_file.c file_free'), ('listing', B+'files.c bin_nextDirItem')],
 'A model of files as byte sequences with positions predicts every count, buffer and final content; runs happen in scratch directories, with and without collections after every instruction.',
 'sequences to 4 (5) over 22 operations; 16 counts x 6 lengths x 15 windows; 376 copies; 16 modes x 11 paths; all subsets of 7 names; interleavings of 9 (12) steps; 3000 dropped handles of 6 kinds; 133 error numbers of 4 kinds of opening and after 0-5 entries of a listing', note='Opening a path while an unfinished writer of it is alive is left out: the language has no way to flush, and promises nothing.')
prop('P28', 'The command line interface',
 'For every vector of arguments, noja does what its usage text says: it runs the file, text or bytecode given with the heap size given, prints what the library prints for it on the standard output and nothing else, reports errors on the standard error, sends a diagram or a profile where asked, and exits with success exactly when it did all of that. Malformed or missing arguments, sizes out of range and outputs that can\'t be created are refused with a message, and outputs that can\'t be written in full - diagrams, profiles, the standard output - are never reported as successes. SIGINT and SIGTERM, whenever they arrive, stop the program at the instruction being executed with an error and never corrupt the interpreter.',
 ['inputs', 'schedules', 'programs'], 'every argument vector over 25 tokens up to a length, every program of the corpus in four forms, every heap size of a list, a signal after every instruction and around the end',
 'No test runs the command line interface at all.',
 ['src/cli/main.c', 'src/lib/run.c', R], [('argument parsing', 'src/cli/main.c main'), ('signals', 'src/cli/main.c signalHandler'), ('profile output', R+' Runtime_SerializeProfilingResultsToFile')],
 'main() is linked into the explorer and run in a forked process per case, on scratch files; the library run on the same input is the oracle. Signals are raised from an interposed function of the interpreter loop, hence at exact instructions.',
 'vectors to length 3 (4) over 25 tokens and 4 (5) over 13; 33 programs x 4 forms; 41 heap sizes to beyond 2^64; 5 programs x 300 (6000) instructions x 2 signals, 5 modes; outputs to hundreds of KB; every room of 0-700 bytes for a file and 60 rooms for 11 standard outputs', observe=['exit status', 'standard output', 'standard error', 'files written'])
prop('P29', 'Profiles count every call and every instruction once',
 'A profile of a run lists exactly the functions that were called in it - identified by name and source, with functions of modules and of the prelude listed under the source they were written in - each with the number of times it was called and the processor time spent between its calls and their ends, that of the calls it made included; recursion, errors, abortions, collections and however many functions there are don\'t disturb the counts, and profiling changes nothing in what the program does.',
 ['programs', 'histories'], 'every sequence of statements that define, redefine, call, nest, fail and drop functions up to a length, with and without a collection after every instruction',
 'No test profiles anything; counts are attached to interned functions whose identity has to survive redefinition and collection.',
 ['src/lib/timing.c', R, 'src/lib/run.c'], [('timing table', 'src/lib/timing.c, '+R+' Runtime_SerializeProfilingResults'), ('timing of calls', 'src/lib/run.c')],
 'The clock is replaced by one that counts executed instructions, so the expected times are exact: the reference machine executes the same code and counts the instructions between every entry and exit.',
 'sequences of 1-4 (5) statements; 33 corpus programs; up to 60 calls and 80 functions; modules and prelude functions', note='Times of functions that are active more than once at a time (recursion) are compared for calls only.')
prop('P30', 'The prelude library',
 'The functions of the prelude do what they say: toString renders integers (all 64 bits), floats (rounded to two decimals), none, strings, lists, maps and nested values the way print does, and defers to a toString entry; makeIterator visits every item of a list, map or string once, in order, independently of other iterators over the same collection, and then says so; abs, min, max, append and integerFromDigit compute what their names say; isCallable and the type sums Func, NFunc, Numeric, Callable and Collection agree with the type of every value; arguments of the wrong type or number are refused with an error; and nothing a program defines changes what they do.',
 ['inputs', 'histories'], 'every integer and float of the grids, every nested value to a depth, every schedule of calls over two iterators, every tuple of arguments of every kind',
 'Tests call a few of these functions with one or two arguments each.',
 [B+'start.noja', B+'basic.c'], [('prelude', B+'start.noja'), ('plugging', 'src/lib/run.c')],
 'Values are generated together with the text or result expected; the text of values comes from an independent printer.',
 'all integers of [-3000, 3000] ([-20000, 20000]) and around powers of 2 and 10; float grid; values to depth 2 with repetition; schedules of 7 (10) calls over 7 x 7 collections; argument tuples to length 2 over all kinds')
prop('P25', 'Names resolve to own scopes first, then to builtins in the order plugged',
 'A name a program mentions denotes the variable of the innermost enclosing function that assigned it, or else what the plugged builtins define - those plugged first taking precedence over those plugged later, whatever kind of thing plugged them - or else is an error at the moment it is evaluated; a source plugged as builtins sees the builtins plugged before it while it runs, its functions keep seeing its own variables first, and a program that assigns a name builtins use hides it in its own scope only, without changing what any builtin does; a source that fails to compile or run isn\'t plugged.',
 ['histories', 'programs'], 'every history of up to three plugged sources of the listed statements and every program after it up to a length, with collections; every standard name hidden in every way',
 'Tests run with one fixed set of builtins.',
 [R, 'src/lib/run.c', O+'o_closure.c'], [('plugging', R+' Runtime_plugBuiltins'), ('plugging from sources', R+' Runtime_plugBuiltinsFromSource'), ('lookup of names', 'src/lib/run.c OPCODE_PUSHVAR')],
 'A model of environments executes the same histories; it has no interpreter, only maps of names.',
 'sources of up to 3 statements over 12, three sources of one, programs of 1-2 (3) statements; up to 40 plugged sources; 29 standard names x 6 ways of hiding them')
prop('P26', 'Values print, count and describe themselves faithfully',
 'print writes the exact text of each of its arguments one after the other and nothing else: integers in full, floats with two decimals, strings as they are, collections with their items in order and recursively, with ... only where a collection contains itself, types by name, sums and nullables by their parts, and a placeholder for what has no text; printing changes nothing, so printing again prints the same. type and typename depend on the kind of a value only, count is the number of items, keysof lists the keys of maps in insertion order and the indices of sequences in a list of its own; what has no items or keys is refused.',
 ['inputs', 'histories'], 'every graph that sequences of assignments among three collections build up to a length, cyclic and shared ones included; every pair of values of all kinds in every position; grids of numbers and strings',
 'Tests print small trees; shared and cyclic graphs come from histories.',
 [O+'objects.c', O+'o_list.c', O+'o_map.c', O+'o_sum.c', O+'o_nullable.c', B+'basic.c'], [('printing', O+'objects.c Object_Print'), ('introspection', B+'basic.c')],
 'Differential exploration against the reference interpreter, part of the runs with a collection after every instruction.',
 'sequences of 1-4 (5) of 19 assignments; 48 values x 14 uses, 48 x 48 x 8 uses of two; sums of 1-3 types with and without ?; 2520 integers, 12000 floats; lists nested to 200; counts to tens of thousands')
prop('P31', 'Input, assertions and errors',
 'input() returns the next line of the input stream without its line feed, however long it is, then what is left if the last line isn\'t terminated, then empty strings, and refuses lines that aren\'t UTF-8; nothing of a line is lost, repeated or shared with another. assert returns quietly if all its arguments are true and otherwise fails the program at the first that isn\'t; error fails it with exactly the message given, whatever its length and characters. What was printed before a failure stays printed, nothing after it runs.',
 ['inputs', 'programs'], 'every stream of up to a number of lines over a set of lengths around every buffer boundary, every line length up to a bound, every pair of bytes, every tuple of assertion arguments, every message over special characters up to a length',
 'No test reads input; lengths around the fixed buffers and format characters in messages are not sampled.',
 [B+'basic.c', U+'error.c'], [('input', B+'basic.c bin_input'), ('assertions', B+'basic.c bin_assert'), ('errors', B+'basic.c bin_error')],
 'Streams and messages are generated together with the lines and messages expected.',
 'streams of up to 3 (5) lines over 11; lengths to 2200 (9000), with multi-byte contents; 65025 pairs of bytes; assertions of up to 4 (6) arguments of 8 kinds; messages of up to 3 (4) pieces of 15, of all lengths to 4000 and of 20 more up to 300000')
prop('P32', 'Network functions',
 'Each function of net asks the operating system for exactly what its arguments say, with no value truncated to another, and returns what it answered: the new descriptor, the number of bytes moved, the address and port of the peer, or none and a message (for bind and listen: none on success and a message on failure); recv and send touch only the window of the buffer they are given and at most the count asked for; a failing call leaves nothing open that the program wasn\'t told about, a vanished peer is an error and not the end of the process, and arguments of the wrong kind are refused before anything is done.',
 ['histories', 'resources', 'inputs'], 'every sequence of 29 operations up to a length from four states, every failing system call with seven error codes, every split of the transfers, every kind of argument in every position; real connections',
 'No test uses the network.',
 [B+'net.c', B+'utils.c'], [('network functions', B+'net.c'), ('argument parsing', B+'utils.c parseArgs')],
 'The system calls are diverted to a simulated operating system; a second instance is driven by the expected calls, and the printed results, the buffers and the final states of both must agree. Programs echoing data over real loopback connections bind the simulation to the kernel.',
 'sequences of 1-3 after 4 prefixes (of 4 on a connection); failures at 9 positions x 7 codes; transfers in pieces of 1-5 bytes; 12 addresses x 13 ports; 19 x 21 sizes of transfers; arguments of 9 kinds to length 4; 120 loopback connections')
prop('P34', 'The diagram shows the syntax tree',
 'For every program the parser accepts, --diagram-ast produces a well-formed graph description which is a tree rooted at the program, with one node per syntax node, labelled with its operator, construct, name or literal value (strings escaped, integers in full), and edges to the parts of each construct in order (arguments and parameters from last to first, conditions before bodies); for every other program it produces an error and no diagram.',
 ['inputs', 'programs'], 'every token sequence up to a length, every expression and statement of the listed grammar up to a nesting depth, every string over special characters, every number of items and depth of nesting up to a bound',
 'No test draws a diagram.',
 [C+'graphviz.c', C+'parse.c'], [('diagram', C+'graphviz.c'), ('parsing', C+'parse.c')],
 'The output is parsed back into a tree and compared with the tree of an independent parser.',
 'token sequences to length 4 (6) over 24; expressions of depth 2, statements of depth 2 (3); strings to 3 (4) pieces over 27; 130 items, 200 levels; files of 4200 lengths and with every kind of error', note='A zero byte ends a label, the description language having no way to write one.')
prop('P36', 'A runtime serves any number of programs, apart from other runtimes',
 'Any sequence of programs that end normally, collections, plugged sources and calls of returned functions in a runtime gives each program the output and the values it would have given alone in a new runtime with the same things plugged: nothing assigned by one is seen by another, no frame, value or memory is left behind, and functions a program returned still work when the host calls them later. Two runtimes in one process, even when native functions of one run programs in the other or in their own, do not see or influence each other: an interruption, an error or a collection in one leaves the other as it was. It makes no difference whether a program is given as a string, a file or a source object. A native function receives the arguments of the call in order, missing ones being none and extra ones dropped where it declares how many it takes, its results reach the caller in order, and its errors abort the program with their message, through any number of native and program frames between. The host\'s tables give the values they contain, under exactly the names they list, the first of two equal names winning. Freeing runtimes releases all of what they took.',
 ['histories', 'inputs'], 'every sequence of session actions up to a length on one and on two runtimes; every native function with every number of arguments, called directly and from native code; every kind of slot in several contexts',
 'Tests run one program in one runtime; what embedding adds comes from histories.',
 ['src/lib/run.c', R, 'src/lib/o_staticmap.c'], [('running', 'src/lib/run.c runStringEx'), ('native functions', 'src/lib/run.c native_func_call'), ('runtimes', R+' Runtime_New'), ('tables', 'src/lib/o_staticmap.c')],
 'A host program drives the runtimes through the public interface, step by step; what each program gives on its own, with and without the plugged source, is written down independently.',
 'sessions of 4 (5) of 20 actions on one runtime, 4 (5) of 40 on two, 24-step sessions in a heap of 16 kB; two calls of 6 returned functions with 0-6 arguments each; native functions of arity -1 to 5 with 0-12 arguments; 51 uses of slots in 4 contexts; every entry point (strings, files, sources, assembly and source) on every program of a family and on files that are and are not there', note='A runtime in which a program failed is only freed: its frames are kept for the stack trace.')
prop('P37', 'The example programs compute what they document, for every input',
 'For every input, every example program shipped with the language (sorting, JSON, HTTP request heads, URL-encoded forms, cookies, responses, paths, stacks, means, matrix and Cartesian products, prime and Fibonacci numbers) gives the value, the error or the rejection its source documents, whatever the size of the heap and whenever collections happen, and leaves no memory behind: the language, its prelude and its modules working together on programs of a realistic size.',
 ['inputs', 'histories'], 'every short text over the tokens of each format, every short list, number and sequence of operations, with and without collections',
 'No test runs the examples on more than the input they contain.',
 ['examples/', 'src/lib/builtins/start.noja', 'src/lib/run.c', R, 'src/lib/compiler/'], [('programs', 'examples/json.noja, examples/http_server/*.noja, examples/algorithms, examples/data_structures'), ('execution', 'src/lib/run.c runInstruction'), ('imports', 'src/lib/builtins/basic.c bin_import')],
 'Each program is imported by a driver that feeds it a batch of inputs; the expected value of each is computed by the same algorithm written independently in C++, and every text on which the program must stop with an error runs alone. A third of the batches collects at a fixed period of instructions.',
 'quick: JSON texts of 5 of 14 tokens and 729 nested ones, request heads of 4 of 14 tokens, headers of 4 of 9, forms of 5 of 6, cookies of 4 of 9, lists of 5 of 5 numbers, 4 of 7 stack operations; thorough: 6, 3375, 5, 6, 7, 6, 6, 6', note='Not covered because the examples themselves are incomplete: percent escapes of URL-encoded forms and 99_bottles.noja (they call functions nobody defines), JSON nested more than 4 deep (the limit of nested calls).')
prop('P38', 'Embedding a file in the sources reproduces every byte of it',
 'The embedder turns any file, of whatever length and contents, into the definition of one array of bytes with the name given, which holds exactly the bytes of the file followed by a zero; it writes to the file named by the third argument or else to output.c, replacing what was there. Missing arguments, an input that can\'t be read and an output that can\'t be written in full end it with a failure status. The prelude that the library embeds is byte for byte the one of the tree.',
 ['inputs', 'faults'], 'every length of a range, every byte at every place of short files and around the ends of chunks, every pair of bytes, every kind of missing argument or failing file',
 'The build embeds one ASCII file; lengths around the chunk size, zeros and bytes above 127 never occur in it.',
 ['misc/embedder.c', B+'start.noja'], [('embedding', 'misc/embedder.c main'), ('the prelude', B+'start.noja')],
 'The tool itself, linked into the check, is run on every file of the families; its output is read as C and compared with the file.',
 'lengths 0-3199 (8999) times four contents; 256 bytes at every place of files of 1-34 bytes; all 65536 pairs; 256 bytes at 5 chunk ends, 2 before to 4 after; files to 300000 (600000) bytes; 12 kinds of arguments and failing files')
