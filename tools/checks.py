"""The registered checks: sources, build options, bounds."""
ASSUME = ["gcc 13 and its address/bounds sanitizers translate /repo's sources faithfully",
          "the reference semantics in lib/ref.hpp (and the model in each check) states the intended behaviour"]
CHECKS = {}


def check(pid, src=None, bounds="", note="", technique="", assume=(), parts=None, **kw):
    CHECKS[pid] = dict(parts=parts or [dict(src=src, **kw)], bounds=bounds, note=note, technique=technique,
                       assume=list(assume))

DIFF = "bounded-exhaustive program enumeration, implementation vs. executable reference model"
check("P01", "p01.cpp", technique=DIFF,
      bounds="all 17 binary operators x 54x54 operand values (with NaN, infinity and -0.0) x up to 100 operand-form pairs; every operator on host-given pairs of the 374 integers within 1 of a power of two, of the integers -40..40 (thorough -400..400), of 67 floats and of floats with integers; every shift of those integers by 0..63; all 2-operator trees (3 groupings, 7 operand kinds); 3-operator trees in 6 groupings; unary prefixes up to length 3; all literals 0..600 (thorough 0..70000) and around every power of two; all 4-leaf boolean expressions; ints and floats within 2 of every power of two in all comparisons and sums",
      note="every expression in the bounded space gives the reference value, verdict and evaluation order")
check("P02", "p02.cpp", technique=DIFF,
      bounds="all statement trees of up to 5 nodes (thorough 6; 6/8 for a smaller alphabet) over out/break/continue/return/if/if-else/while/for/sequence in 5 contexts, each on every condition-outcome string of length 5 (thorough 7); else-if chains and nesting up to 40/30; all small loop bounds; all trees of up to 4 (5) statements x all choices of 6 (10) literal, constant and computed conditions; functions whose body is any single statement",
      note="every bounded statement tree executes the statements the structured semantics selects, for every outcome string")
check("P03", "p03.cpp", technique=DIFF, defs=["-DTINY_THREAD_STACK_SIZE=1024"],
      bounds="0..59 parameters x 0..5 locals (thorough 0..99 x 0..11) x 4 type patterns x 4 call forms; 0..59 foreign arguments; all three-function call graphs over an 11-statement alphabet with 2+2+1 (thorough 4+2+1) statements; all 4-leaf expressions with pending calls; recursion to depth 60; all fall-off shapes; falling off the end below 1..20 (1..55) calls",
      note="every bounded call structure binds, isolates and returns as specified and leaves both stacks empty")
check("P04", "p04.cpp", technique=DIFF,
      bounds="all sequences of up to 5 (thorough 6) scope events over an 8-event alphabet in 10 outer contexts; all placements of one name as global/constant/parameter/local in two functions; all live-range structures of 6 events; all declaration/use clashes; name spellings; two declarations of one name of 23 kinds with up to 300 other declarations before or between them; names of every length to 200 which differ at one place, of 7 kinds; all sequences of up to 4 (5) declarations and uses of one name inside a function in 8 surroundings",
      note="in every bounded arrangement each name denotes the declaration the scoping rules select, or the program is rejected")
check("P06", "p06.cpp", technique=DIFF,
      bounds="49 lvalue shapes x 8 assignment operators x 21 right sides x 3 contexts; all pairs of int assignments over 9 places; all postfix chains of up to 3 (thorough 4) operations over 13 operations on 11 starts; every place of 36 assigned from every place by 4 operators in 4 contexts; 10 getters x 11 setters, bound or in the script, x 15 uses",
      assume=["object and index expressions of compound assignments have no side effects (their number of evaluations is not specified)"],
      note="every bounded assignment and postfix chain makes exactly the specified accessor calls")
check("P05", "p05.cpp", technique=DIFF,
      bounds="33 constructs x 17 source types x 17 destination types x 6 ways of producing the value; 60 right and wrong statements in 24 places, 38 expressions in 47 places; 17 operators x 17 x 17 types x 3 forms; all call shapes of 0..4 parameters x 0..5 arguments; all 4-entry constructors over 11 entries; returns; forward references; break, continue, return, use, struct and func in every place; every type spelling in every type position; 53 declarations and statements in 29 places which are never executed, x 7 surroundings; every token of 60 programs removed, doubled, exchanged, replaced by or preceded by each of 48 tokens",
      note="the compile verdict agrees with the typing rules on every bounded construct and accepted ones yield values of the reference kind")
check("P07", "p07.cpp", technique=DIFF, defs=["-DTINY_THREAD_STACK_SIZE=1024"],
      bounds="all operation histories of length 3 (thorough 4) over 19 operations on three aliased variables; every field count 1..255 x 4 constructor forms; more than 255 fields; all pairs of 10 access paths; named fields of up to 6 (thorough 7) in every order, also with one missing, repeated or unknown, with values whose evaluation shows",
      note="every bounded history reads back exactly what was written through every alias")

NOT_APPLICABLE = {}
check("P08", "p08.cpp", defs=["-DTINY_THREAD_STACK_SIZE=1024"], technique=DIFF + ", all collection schedules",
      bounds="all operation sequences of length 3 (thorough 4, and 5 over two halves) over allocation/link/container operations on globals and locals, with a collection at every instruction; one or two collections at every (pair of) instruction(s) of short programs; a host call with collections at every instruction; all argument lists of three allocating expressions; chains of up to 10^6 objects of 6 kinds built from both ends; wide structs, argument lists, locals, containers and up to 700 globals; containers of up to 1025 (thorough 5000) elements; the library's own collection policy for all live/garbage ratios in the stated grid; 13 kinds of containers emptied or made empty and filled again",
      note="with every placement of collections in the bounded space a program makes the same observations and touches no freed memory")
check("P09", "p09.cpp", technique=DIFF + ", all collection schedules",
      bounds="all allocate/link/unlink/container sequences of length 3 (thorough 4) with a collection probe after each or at every subset of positions; threads destroyed after every number of instructions; long runs of 12 bounded-live programs x 13 sizes; all histories of 3 (4) of 16 operations on two globals alone x all subsets of collections; all histories of 3 (4) of 70 operations with natives of 15 sorts",
      note="after every probe exactly the reachable objects are alive and every other finalizer has run once")
check("P10", "p10.cpp", technique=DIFF,
      bounds="all pairs of 30 corpus programs in one and two compilations x collection periods; every single-token mutation and prefix of the corpus; threads destroyed after every number of instructions; all container histories of the stated length; all sequences of 4 host operations; file compilation; the corpus under 6 placements of blocks by the allocator x 3 granules x collection rates",
      note="all blocks are obtained from, resized by and returned to the context they belong to, in every bounded history")
check("P11", "p11.cpp", technique=DIFF,
      bounds="errors of every phase x every corpus program x 4 placements x later sources; all pairs of failing sources; a failure while a thread is suspended at every instruction; every single-token mutation of the corpus; name reuse; undefined structs of bound functions; repeated failures; on states with three kinds of code and on new ones",
      note="after every bounded failing compilation later verdicts, lookups and runs equal those of a state that never saw it")
check("P12", "p12.cpp", technique="bounded-exhaustive enumeration of texts, each compiled by the real compiler under the address sanitizer",
      bounds="all byte strings up to length 2 (longer over smaller alphabets), all token strings up to length 2 (3 over a core; thorough one more), every prefix and every token deletion/duplication/exchange/replacement of the corpus, nesting to depth 1000, long tokens, many declarations, runs of up to 10^6 comments or blanks, every use of the library's macros",
      note="every bounded text is compiled to success or an error with a message without a memory error")
check("P13", "p13.cpp", technique=DIFF + ", all splits of each program",
      bounds="all sequences of top-level pieces of the stated length, split in all ways; every split, rotation and one-piece removal of longer programs; all ordered pairs of corpus programs; every token cut; code lengths 0..23 around every cut; the same texts injected by a macro",
      note="verdicts, behaviour and globals do not depend on how the bounded programs are split")
check("P14", technique="exhaustive exploration of thread interleavings of the real interpreter up to a switch bound; race detection for operating system threads",
      parts=[dict(src="p14.cpp"), dict(src="p14t.cpp", san=["-O1", "-fsanitize=thread"])],
      bounds="16 thread roles: all schedules of two roles with up to 2 switches, of short roles with up to 4, every interleaving of windows of their last steps, all round robins of 3, 200 threads; step-then-run at every instruction of the corpus; all pairs of roles on 4 operating system threads under the race detector",
      note="every bounded schedule gives each thread the trace, globals and objects it has when run alone, and no access races")
check("P15", "p15.cpp", defs=["-DTINY_THREAD_STACK_SIZE=1024"], technique="exhaustive enumeration of host calls at every instruction of the real interpreter, differential against the uninterrupted run and an executable reference model",
      bounds="12 host calls before every instruction of 40 programs under 3 collection modes; two calls at all pairs of instructions of the short ones; calls at every instruction; all call expressions of depth 2 (thorough 3) from bound functions; 0..255 arguments; nesting to depth 23; all histories of 5 (thorough 7) start/run/step/call operations",
      note="every bounded host call returns the function's value and leaves the interrupted execution as it was")
check("P16", "p16.cpp", defs=["-DTINY_THREAD_STACK_SIZE=1024"], technique="exhaustive enumeration of operation histories on the real containers, against a sequence model", bounds='all histories of 5 (thorough 6) operations over the array operations from several starts; deep histories of 6 (8) over 8 operations; all sequences of 6 (7) ints sorted; every size 0..519 (1999) x 8 ways to build; programs of 2 (3) operations on four kinds of arrays, 3 on two', note='every bounded history of array operations observes what a sequence gives')
check("P17", "p17.cpp", defs=["-DTINY_THREAD_STACK_SIZE=1024"], technique="explicit-state reachability of the real hash table and exhaustive operation histories, against a finite map", bounds='the reachable states of the real table under put/get/remove/clear over every subset of 3-5 colliding keys; all histories of 5 (thorough 6) of 16 operations; every size 0..299 (1199) x 8 insertion/removal orders; programs of up to 3 (4) operations; string keys of 280 (2048) lengths given as literals and computed', note='every reachable table state and bounded history agrees with a finite map')
check("P18", "p18.cpp", technique="exhaustive enumeration of strings, positions and programs on the real library, against byte strings", bounds='all strings up to length 4 (thorough 6) over 4 bytes and all bytes x every way of making the string x all positions; lengths 0..1099 (4999) and around powers of two to 2^23; concatenations of all short strings; all texts of 4 (5) characters as numbers; expressions of depth 3; programs of up to 3 (4) operations', note='every bounded string operation returns what the byte-string operation gives')
check("P19", "p19.cpp", technique="exhaustive enumeration of pairs and triples of values on the real library, against a model of identity", bounds='all pairs over groups of values of every kind and origin, all triples over 70 values, pairs carried through variables, fields, arrays and dictionaries, every accessor on every value, strings of 38 lengths to 10^5 which differ in one byte or in length', note='equality is an equivalence which agrees between script and host, and accessors report the stored kind and value')
check("P20", "p20.cpp", defs=["-DTINY_THREAD_STACK_SIZE=1024"], technique=DIFF, bounds='48000 (thorough 640000) integers in three spellings and around powers of two, hexadecimal digit strings, 22200 floats, all characters, all strings of 4 (6) source bytes between quotes, all operator spellings of 4 (5) characters, all identifiers, every separator in every gap (thorough: pair of gaps) of the corpus; pairs of literals of 60 lengths to 2^18 which differ at one of 40 places; every byte right after a literal of 16 spellings', note='every bounded literal, operator spelling and layout has the meaning of the reference lexer')
check("P21", "p21.cpp", technique="bounded-exhaustive enumeration of erroneous programs on the real compiler, against the line counted in the text", bounds='200 erroneous constructs x up to 37 contexts x 4 histories x 7 file names, after every layout and every pair (thorough triple, more constructs) of 25 layouts, at lines 1..400 (3000) and columns 1..600 (1500); constructs up to 10^6 characters or lines from the start', note='every bounded erroneous program is reported under its file name and the line of the construct')
check("P22", "p22.cpp", technique=DIFF, bounds="all single (and for a part all pairs of, thorough all) line breaks in 39 programs; all statement trees up to 4 nodes (thorough 5, 6 over fewer kinds) x 3 contexts x 3 layouts x all condition outcomes; all sequences of 3 (4) units over 14 kinds x 4 naming schemes; up to 400 (1500) statements and 10^5 lines; up to 9000 (16390) recorded positions; literals and comments holding line ends in pairs; states full of strings and files; injected and failed units", note="before every instruction and in every bound function the reported file and line are those of the statement the reference executes")
check("P23", "p23.cpp", technique="exhaustive enumeration of programs; every executed instruction of the real interpreter is checked against the disassembly", bounds="29 programs, all pairs in one and two compilations; 18 snippets with every instruction behind all pairs of 14 paddings (all alignments); all sequences of 2 (3) snippets; up to 300 (700) strings, globals, functions, fields; every buffer size; failed compilations", note="each executed position is in the listing, does what its description says and is followed by the position listed next; the listing ends")
check("P24", "p24.cpp", technique=DIFF, bounds="11 element types (3 of them arrays or structs of arrays): every operation x argument position x 15 values and x 23 result types; 25 uses x element type x order of requests; all sequences of 3 (4) of 10 requests x all splits into compilations x 3 placements of the uses; names up to 320; all sequences of 3 (4) of 14 operations per element type, of 2 (3) over every pair of element types", note="verdict and behaviour agree with the reference array")
check("P25", "p25.cpp", technique=DIFF, defs=["-DTINY_THREAD_STACK_SIZE=1024"], bounds="all sequences of up to 4 (5) fields over 9 types x 3 uses; every byte, all pairs of bytes, NUL bytes, lengths up to 1200; boundary numbers; 28 unsupported or unusual requests in pairs; all sequences of 3 (4) requests and own serializers over types which refer to each other x all splits x 3 places of the definitions; all graphs of 3 and all acyclic graphs of 5 structs, cycles and complete graphs of up to 14; up to 99 fields, 40 levels, names up to 700; fields of several structs with related names", note="verdict and text agree with an independent serializer; floats are finite and printed with 6 significant digits")
check("P26", "p26.cpp", defs=["-DTINY_THREAD_STACK_SIZE=1024"], technique=DIFF, bounds="all signatures of up to 3 (4) parameters over 9 types x 10 results x up to 6 ways to store and pass the delegate; every wrong argument, arity and signature for up to 2 parameters; up to 129 parameters; names up to 560; all sequences of 3 (4) of 24 operations on several delegates; all sequences of 3 (4) of 8 units x all splits x 4 placements of the calls; collections before every instruction", note="verdict and behaviour agree with the reference, in which a delegate is its target function")
check("P27", "p27.cpp", technique="exhaustive enumeration of allocation sequences of the real arena over a recording context", bounds="all sequences of 4 (5) of 17 allocations and destruction x 4 placements of the pages, of 3 (4) over two arenas; every fill level of a page followed by every size around its end x 8 alignments; every size up to 20000", note="every allocation is aligned, inside the memory of the arena, disjoint from the others and keeps its contents; destruction returns everything")
check("P28", "p28.cpp", technique=DIFF, bounds="29 programs, all pairs in one and two compilations; all sequences of 2 (3) of 28 declarations x 4 related names x splits; all binding signatures of up to 3 parameters over 9 types x forms x results; all sequences of 3 (4) of 18 script and host accesses to globals in functions, in a function and with collections; up to 400 (900) globals; names of every length to 201 which differ at one place; bound constants around every power of two", note="every name of the source and its variants is found exactly as the reference declares it; the host's view of globals is the script's")
check("P29", "p29.cpp", technique=DIFF, defs=["-DTINY_THREAD_STACK_SIZE=2048"], bounds="every size up to a few hundred, and sizes around powers of two and of code lengths beyond, up to 4100 (40000 statements), in 50 dimensions of a program; 6 kinds of prefixes in pairs at 10 edge sizes before 10 programs; up to 1025 bindings of the host; up to 300 compilations; parameters x locals", note="when the compiler accepts a size the behaviour is the reference's; ordinary sizes are accepted")
check("P30", "p30.cpp", technique="exhaustive enumeration of operand tuples of the real functions against wide arithmetic, and of operation sequences in programs against the reference", defs=["-DTINY_THREAD_STACK_SIZE=1024"], bounds="all pairs of 406 boundary values, all triples (quadruples) of 28, all 6-tuples of -4..4, up to 250 operands, 5 dense ranges of 65536 values; all sequences of 3 (4) of 20 operations in programs in functions, locals and with collections; all 7-tuples of 4 large values", note="results representable in 64 bits; operands unchanged")
check("P31", "p31.cpp", technique=DIFF + ", over a model of files, standard input and output", defs=["-DTINY_THREAD_STACK_SIZE=1024"], bounds="all histories of 4 of 24 file operations, of 5 (thorough 7) over three subsets, x initial contents; all contents of two bytes, sizes to 300 and around powers of two to 2^18 (2^22) x 18 chunk sizes; all pairs of 24 positions; pipes; a device which takes nothing; files beyond 2^32; all formats of 3 (4) of 14 directives x values; all pairs of 28 values of every kind; all formats around all pairs of bytes; all typed texts of 5 (6) bytes over 5; percent signs around directives; arrays and structs of up to 120 elements", note="every bounded program prints, stores and reads exactly the bytes of the model")
check("P32", technique="stateless exploration of all thread schedules of the real list under a controlled scheduler, with happens-before race detection and a linearizability check",
      parts=[dict(src="p32.cpp", tiny=False, inc=["examples/server/include"], extra=["$REPO/examples/server/src/list.c"], san=["-O1"], defs=["-Wno-error"],
                  cc=["-fsanitize=thread", "-Dmalloc=ck_malloc", "-Dcalloc=ck_calloc", "-Drealloc=ck_realloc", "-Dfree=ck_free", "-Dmemcpy=ck_memcpy", "-Dmemmove=ck_memmove"])],
      bounds="all schedules at operations on mutexes of 2 threads with up to 3 (thorough 4) pushes and pops each; of 3 threads with up to 2 (3) and 4 threads with 1 (2) up to 3-6 preemptions; 2 and 3 threads with up to 2-3 preemptions before every memory access; lists with 0-2 items; all sequences of 10 operations; item sizes 1-300",
      note="every bounded schedule gives a history of a queue, without races, deadlocks, leaks or use of freed memory")
check("P33", technique="exhaustive enumeration of requests and of the ways they are cut into chunks, each fed to the real parser under the address sanitizer",
      parts=[dict(src="p33.cpp", tiny=False, inc=["examples/server/include"], extra=["$REPO/examples/server/src/requestparser.c", "$REPO/examples/server/src/request.c"])],
      bounds="130 requests x every cut, pair (thorough: triple) of cuts and every chunk size; all cuts of short requests; all texts of 6 (7) bytes over 7 after the first line x cuts; all first lines of 7 (8) bytes over 6; names, values, bodies, methods and targets of up to 700-9000 bytes",
      note="every bounded cutting gives the same request, and no input leads to an access outside the memory of the parser, the request or the chunk")
check("P34", "p34.cpp", technique="bounded-exhaustive enumeration of file contents, kinds and histories; the file's compilation is compared with that of its text, message, every instruction's file and line, and output",
      bounds="every token prefix of 40 programs x 5 endings x (file, symbolic link, pipe); all contents of up to 3 (thorough 5) bytes over 14; all sizes to 260 and around powers of two to 2^16 (2^19) x 6 kinds; all histories of up to 3 (5) of 13 compilations of files, texts, missing files and directories; special bytes at the start and the end; 4000 file names",
      note="every bounded file compiles exactly as its text, closes the file, and a file which cannot be read is an error which leaves the state usable")
check("P35", "p35.cpp", technique="bounded-exhaustive enumeration of sources with use statements against a model of the macro calls, the verdict and the output",
      bounds="all sources of up to 4 (thorough 5) of 20 declarations, statements and uses of recording, failing, unknown, inspecting, binding and compiling macros; all pairs of sources of up to 2 of them (thorough: 2+1+2); all arguments of 4 (5) bytes over 9, pairs of 2 bytes; 0..139 arguments; lengths to 3000; 11 levels of nesting; 17 names in 15 constructs after a use",
      note="every bounded source calls exactly the macros it uses, with exactly its arguments, and sees what they bind")
check("P36", "p36.cpp", technique="bounded-exhaustive enumeration of consistent renamings of programs, implementation vs. executable reference model and vs. the original program",
      bounds="42 programs and all ordered pairs (thorough: all triples) of them, compiled together or in pieces, x 22 schemes of new names (prefixes, cases, reserved words and more, 1 to 120 characters, differing at one position); one name of a program at a time replaced by 130 lengths and 144 spellings",
      note="every bounded renaming leaves the verdict, the behaviour and what the host finds unchanged")
check("P37", "p37.cpp", technique="bounded-exhaustive enumeration of signatures, constants and calls, implementation vs. executable reference model", defs=["-DTINY_THREAD_STACK_SIZE=1024"],
      bounds="all signatures of up to 2 (thorough 3) of 11 parameter types, variadic or not, 13 result types, in 5 layouts, bound before or after a compilation, called with every single wrong argument of 13, one fewer, one and two more, in 6 forms; all sets of up to 4 (5) functions with similar names bound around a compilation; 0..699 functions; 0..59 parameters; 25 numbers of parameters up to 200 with every wrong argument and number of arguments; 307 constants of every kind in 23 uses",
      note="every bounded binding is called exactly as its signature says, and every constant has its value")
check("P38", "p38.cpp", technique="exhaustive enumeration of texts and offsets on the real function, against a count of the characters",
      bounds="all texts of up to 6 (thorough 8) over 6 bytes and of up to 15 (20) characters that end a line or not, every byte in three places, at every offset; lines of 23 lengths to 200000 in pairs and up to 66000 lines at the offsets around their ends",
      note="every offset of every bounded text is the line and column counted from its start")
check("P39", "p39.cpp", technique="exhaustive enumeration of bit patterns on the real functions, against arithmetic on the bits, and of programs of conversions against the reference",
      bounds="every exponent x up to 550 patterns of the mantissa x sign; all floats at, next to and half-way between the integers to 15000 (thorough 200000), and their multiples; integers with two bits anywhere and every pattern around half of the last place, all to 20000 (200000); chains of up to 3 (4) of 10 conversions from 14 values in 8 uses",
      note="every bounded conversion gives the value which the bits determine; integral parts beyond 64 bits excluded")
check("P40", "p40.cpp", technique=DIFF,
      bounds="all histories of up to 4 (thorough 6) operations - run, three host calls, host writes, a collection - on one thread and of up to 3 (4) on two threads of a state, on 16 programs which depend on what earlier runs left x 3 endings, with and without a collection at every allocation",
      note="in every bounded history each run executes the whole program on the globals which were left, and nothing is left on the stacks")
check("P41", "p41.cpp", technique="bounded-exhaustive enumeration of programs, histories and clock values on the real implementation, against what was asked for",
      bounds="all 256 statuses from 16 places in programs, 16 of them under a host with a collection at every cycle and as a host call; all sequences of up to 3 (thorough 4) of 9 operations that print or write before exit x 3 after it x 3 places; all histories of 4 (6) of 9 operations around seeds and draws on two threads x 12 seeds; 20000 (100000) seeds and those around every power of two pairwise; 2320 values of the host's clock",
      note="every bounded program ends with its status and its output, every draw depends on the seed and its number alone, and the time is the host's")
check("P42", "p42.cpp", technique="bounded-exhaustive enumeration of debugger sessions on the real interpreter, against the recorded trace of the undisturbed run",
      bounds="all sessions of up to 10 (thorough 12) commands, of 3 (4) of 12 words, with and without going on at the end, from every break of 24 programs; up to 149 steps from every break; lines of up to 600 characters; all pairs of 24 values on the stack; literals of up to 699 characters",
      note="every bounded session shows the instructions and values of the undisturbed run, and the program does what it does undisturbed; leaving without going on after stepping is excluded")
