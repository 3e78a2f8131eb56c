#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
T, STD, LEX = "tiny/src/tiny.c", "tiny/src/std.c", "tiny/src/lexer.c"
H = "tiny/include/tiny.h"

prop("P01", "Operators compute the values the language defines",
 "Every expression of a program that compiles evaluates, left operand first and each operand exactly once (right operands of && and || only when needed), to the value its operators define: 64-bit integer or double arithmetic with int-to-float promotion, comparisons, equality, bit operations, shifts, negation, boolean logic and the conditional expression, grouped by the language's precedence levels and left associativity. This holds for every operand value and every way of producing the operand (literal, constant, variable, field, call) and for every nesting, as long as the integer result is representable and the operation defined.",
 ["programs", "inputs"], "all expressions up to the stated operator depth over the boundary-value alphabet of every type, in every operand form",
 "The tests evaluate a few dozen fixed expressions; specialised opcodes (small-int, add-one, compare) make each operand value and form its own path.",
 [T, LEX], [("expression code generation", T+":CompileExpr"), ("operator opcodes", T+":ExecuteCycle"), ("precedence climbing", T+":ParseBinOpRHS")],
 ["values passed to a bound foreign function"])
prop("P02", "Control flow executes exactly the statements the program selects",
 "if/else, while, for, break, continue, blocks and return, in any nesting and at top level or in a function, execute exactly the statements, in exactly the order and number of times, that structured semantics prescribe, continue in a for loop runs the step, and break leaves only the innermost loop. A break or continue that is not inside a loop is rejected when compiling.",
 ["programs"], "all statement trees up to the stated depth over the statement alphabet, with every condition outcome",
 "Tests run a handful of loops; jump patching has to be right for every nesting and every program position.",
 [T], [("jump patching", T+":CompileStatement"), ("goto opcodes", T+":ExecuteCycle")], ["order of foreign calls"])
prop("P03", "Calls bind arguments, isolate frames and return the right value",
 "A call evaluates its arguments left to right, gives the callee exactly those values as parameters and fresh locals, resumes the caller with its own variables unchanged, and yields the returned value (null when a function ends without returning); this holds for any number of parameters and locals, for recursion and mutual recursion within the configured stack size and call depth, for foreign functions and for the arrow call form. After the program ends the evaluation stack and call stack are empty.",
 ["programs", "inputs"], "all call graphs/arities/argument forms within the bounds, recursion up to the documented call depth",
 "Tests use one or two argument functions; frame offset arithmetic must hold for every count and every nesting.",
 [T], [("frame push/pop", T+":DoPushIndir"), ("call code generation", T+":CompileCallSymbolWithArgsPrepared")], ["values observed by callee, caller and host; sp/fc after halt"])
prop("P04", "Every name refers to the declaration the scoping rules select",
 "Each use of a name in a program refers to the innermost live declaration (local in an open scope, then parameter, then global or constant), different declarations never share storage while both are live, redeclaring a live local or an existing global is rejected, and a name that is not declared, no longer in scope, or used in its own initializer is rejected.",
 ["programs"], "all arrangements of declarations, uses and nested scopes within the bounds",
 "Tests check one or two shadowing situations.",
 [T], [("symbol lookup", T+":ReferenceVar"), ("scope handling", T+":CloseScope")], ["compile verdict; values written through one name and read through another"])
prop("P05", "The compiler accepts exactly the well-typed programs",
 "A program is accepted if and only if it is syntactically valid and obeys the typing rules: operands, conditions, assignments, initializers, arguments (type and count), struct fields, returns, casts, nullable and any conversions. In an accepted program every value observed has its static type (a value of a non-nullable, non-any type is never a different kind of value because of an implicit conversion).",
 ["programs"], "all combinations of type x type x construct, plus every arity and argument-type combination within the bounds",
 "Tests contain some twenty accepting and rejecting programs.",
 [T], [("type compatibility", T+":CompareTags"), ("type resolution", T+":ResolveTypes")], ["compile verdict; kind of every observed value"])
prop("P06", "Indexing and compound assignment follow the index protocol",
 "x[i] calls the indexed type's get function with the object and index, x[i] = v calls its set function with object, index and value, a compound assignment to a variable, field or element stores old-value op right-hand-side, and chains of fields, elements and calls compose from left to right. Missing accessors or mismatched operand types are rejected when compiling.",
 ["programs", "inputs"], "all assignment operators x lvalue shapes x value types, and all postfix chains up to the stated length",
 "Tests use only array indexing with plain and += assignments.",
 [T], [("index protocol", T+":CompileGetIndex/CompileSetIndex"), ("compound assignment", T+":CompileStatement")], ["arguments seen by bound accessor functions"])
prop("P07", "Structs are references whose fields read back what was written",
 "A constructed struct holds the given values in the named or positional fields, assigning a field changes exactly that field of exactly that object for all its aliases, and passing, storing, returning or comparing structs preserves identity. Constructors that omit, duplicate or misname a field are rejected.",
 ["programs", "histories"], "all operation histories of the stated length over a small heap of structs; all field counts up to 255",
 "Tests touch two or three fields of one object.",
 [T], [("struct opcodes", T+":ExecuteCycle TINY_OP_STRUCT_*"), ("constructor code", T+":CompileExpr TINY_EXP_CONSTRUCTOR")], ["field values via script and via Tiny_GetField"])
prop("P08", "Garbage collection never changes what a program observes",
 "Whenever garbage collections happen - at every instruction, at none, or at any chosen ones - a program produces the same observations and never accesses freed memory; in particular everything reachable from globals, stack, locals, return values, struct fields, arrays, dictionaries, host-saved state of an outer call, or natives' own mark functions survives, cyclic structures included.",
 ["schedules", "programs"], "every placement of one and two collections (and all/none) in every program of the alphabet",
 "Tests run with the default threshold, so only one schedule per program.",
 [T, STD], [("mark and sweep", T+":GarbageCollect"), ("container marking", STD+":ArrayProtectFromGC/DictProtectFromGC"), ("return value saved across host calls", T+":Tiny_CallFunction")], ["foreign-call trace and host API reads under AddressSanitizer"])
prop("P09", "Unreachable objects are freed and each finalizer runs exactly once",
 "Once an object is unreachable the next collection frees it and runs its native finalizer, no finalizer runs for a reachable object, none runs twice, and destroying a thread finalizes and frees everything left. The number of live objects after a collection equals the number of reachable objects, so a program with bounded live data uses bounded memory.",
 ["histories", "schedules"], "all allocation/link/unlink/collect histories of the stated length including cycles and containers",
 "Tests never count finalizers or live objects across collections.",
 [T, STD], [("sweep", T+":Sweep"), ("destroy", T+":Tiny_DestroyThread")], ["finalizer call log; objects counted through the allocator"])
prop("P10", "All memory goes through the supplied allocators and is returned",
 "Every byte the library allocates for a state or a thread is obtained, resized and released through the context supplied for it - state memory never through a thread's context or the reverse - and after deleting threads and state nothing remains allocated, whether compiles succeeded or failed at any point, and whatever the program did. No block is released twice or to a different context.",
 ["histories", "programs", "inputs"], "all create/compile/run/delete histories over the program and failing-program alphabets",
 "Tests have no accounting allocator for failing compiles or container-heavy programs.",
 [T, STD, LEX, "tiny/src/arena.c"], [("context allocation", "tiny/src/util.c:TMalloc"), ("state teardown", T+":Tiny_DeleteState"), ("error path cleanup", T+":CompileString")], ["live blocks per context"])
prop("P11", "A failed compile leaves the state as it was",
 "After a compilation fails, wherever in the source the error is, everything compiled before runs exactly as before, names introduced by the failed source do not exist, and any further compilation behaves as if the failed one had never been attempted.",
 ["histories", "programs"], "all sequences of good and failing sources up to the stated length, with the failure at every token position of the base programs",
 "One test covers a single failing source.",
 [T], [("rollback on error", T+":CompileString"), ("long jump", T+":ReportErrorSL")], ["verdicts and behaviour of later compiles and runs compared with a state that never saw the failure"])
prop("P12", "Compiling any text terminates with success or an error message",
 "For every byte string, compiling terminates without reading or writing outside its memory and without stopping the process, either succeeding or returning an error with a non-empty message; a success leaves a program that can be started.",
 ["inputs"], "all token strings up to the stated length, all byte strings up to the stated length, every prefix and single-token mutation of the base programs",
 "Tests only compile a fixed set of texts.",
 [T, LEX], [("lexer", LEX+":Tiny_GetToken"), ("parser", T+":ParseStatement")], ["result of Tiny_CompileString under AddressSanitizer"])
prop("P13", "Compiling in pieces equals compiling the concatenation",
 "Compiling a program's top-level declarations and statements in several successive compilations gives the same verdict for each complete prefix, the same behaviour when run, and the same globals and functions as compiling them all at once; code compiled from within a macro behaves as if written in the program.",
 ["histories", "programs"], "all ways to split each base program at statement boundaries, and all sequences of small units",
 "One or two tests compile twice.",
 [T], [("resumed program emission", T+":CompileState"), ("nested compile buffers", T+":CompileString")], ["foreign-call trace and host API reads"])
prop("P14", "Threads of one state are isolated from each other",
 "Threads created from one state have independent globals, stacks and heaps: however their execution is interleaved, step by step or on separate operating-system threads, each produces exactly what it produces when run alone, and stepping a thread is equivalent to running it.",
 ["schedules"], "all interleavings at instruction granularity of 2-3 small threads, plus a free-running race-detector pass",
 "Tests never interleave two threads.",
 [T, STD], [("per-thread state", H+":Tiny_StateThread"), ("stepping", T+":Tiny_ExecuteCycle")], ["per-thread trace, globals and live objects in every interleaving"])
prop("P15", "Host calls into script functions are transparent and re-entrant",
 "Calling a script function from the host - on an unstarted, suspended (at any instruction), running (from inside a bound function, to any nesting) or finished thread - returns what the function returns for those arguments and otherwise leaves the interrupted execution's result unchanged apart from the function's own effects on globals and heap.",
 ["schedules", "histories"], "the call inserted at every instruction of every base program, nested calls up to the stated depth, with collections at every point",
 "Tests call functions only on idle threads.",
 [T], [("save and restore", T+":Tiny_CallFunction")], ["returned value; trace of the interrupted program"])
prop("P16", "Arrays behave as growable sequences",
 "Every history of array operations (create with values, length, push, pop, shift, insert, remove, get, set, resize, clear, sort of integers and the index syntax) at valid positions observes what a mathematical sequence with those operations gives, for values of every kind and for any number of elements.",
 ["histories", "inputs"], "all operation histories up to the stated length over the alphabet, and all sizes up to the stated size",
 "Tests perform one fixed history per operation.",
 [STD, "tiny/src/array.c"], [("array storage", "tiny/src/array.c"), ("bindings", STD+":Tiny_BindStandardArray")], ["contents after every operation"])
prop("P17", "Dictionaries behave as maps from keys to values",
 "Every history of dictionary operations (put, get, exists, remove, clear, keys, values, index syntax with string keys) observes what a finite map gives, for boolean, integer, string, struct and native keys, across growth and removals and whatever keys collide; keys lists each present key exactly once and a missing key reads as null.",
 ["histories", "inputs"], "all operation histories up to the stated length over colliding keys, breadth-first reachable states of the table, all sizes up to the stated size",
 "Tests insert a few distinct keys.",
 [STD, "tiny/src/dict.c"], [("open addressing", "tiny/src/dict.c")], ["get/exists/keys/length after every operation"])
prop("P18", "String functions agree with byte-string semantics",
 "Length, concatenation, substring, character access, search and the other string functions return what the same operations on byte strings give, for constant and computed strings of any length including empty ones and for every valid position.",
 ["inputs"], "all strings over a small alphabet up to the stated length x all positions, and all lengths up to the stated length",
 "Tests use a few short strings.",
 [STD, T], [("string library", STD+":Lib_*"), ("string objects", T+":Tiny_NewString*")], ["returned values"])
prop("P19", "Equality is an equivalence and conversions report kinds faithfully",
 "Value equality is reflexive (except for not-a-number), symmetric and transitive, equates strings by content whatever their origin, structs by identity and natives by address and never values of different kinds, agrees between script and host, and every host accessor returns the value stored for a matching kind and the documented neutral value otherwise.",
 ["inputs"], "all pairs and triples over an alphabet of values of every kind",
 "Tests compare a few integers and strings.",
 [T, H], [("equality", T+":Tiny_AreValuesEqual"), ("accessors", H)], ["return values of the accessor and equality functions and of script ==, !="])
prop("P20", "Literals, escapes, comments and layout have their defined meaning",
 "Integer, hexadecimal, float, character, string, boolean and null literals denote their values, escapes denote their characters, every operator spelling is recognised as the longest one, keywords are recognised only as whole words, and comments or white space between tokens never change what a program means.",
 ["inputs"], "all literals within the bounds, all escape characters, all token pairs with every separator",
 "Tests use a few literals of each kind.",
 [LEX], [("lexer", LEX+":Tiny_GetToken")], ["values observed by a foreign function"])
prop("P21", "Compile errors name the file and line of the offending code",
 "When a program is rejected because of one offending construct, the reported message names the given source name and the line on which that construct stands, whatever precedes it (blank lines, comments, multi-line strings, other statements or earlier compilations).",
 ["programs", "inputs"], "every error kind x every line position x every preceding layout within the bounds",
 "Tests look for a message, not at its line.",
 [T, "tiny/src/util.c", "tiny/src/pos.c"], [("error formatting", "tiny/src/util.c:Tiny_FormatErrorV"), ("friendly positions", "tiny/src/pos.c:Tiny_GetFriendlyPos")], ["result.error.msg"])
prop("P22", "The executing file and line match the statement being executed",
 "At the time a bound function runs, or a thread is stopped between instructions, the reported executing file and line are those of the statement of the source unit being executed, for every statement kind, position, nesting of calls and split of the program over several compilations.",
 ["programs", "schedules"], "all statement layouts within the bounds, queried at every foreign call and every instruction",
 "Tests query one position in one program.",
 [T], [("pc to line table", T+":RecordPC / Tiny_GetExecutingFileLine")], ["Tiny_GetExecutingFileLine from foreign functions and between cycles"])
prop("P23", "Disassembly describes every instruction of every program",
 "For every compiled program, disassembling from the start visits exactly the program's instructions in order and ends, describes each without error, never writes outside the given buffer, and visits every instruction position that execution visits.",
 ["programs", "inputs"], "all programs of the alphabet (every opcode), all buffer sizes up to the stated size",
 "The test disassembles one program without checking the text.",
 [T], [("disassembler", T+":Tiny_DisasmOne")], ["sequence of positions and text"])
prop("P24", "Generic arrays are typed, independent views of the array",
 "After requesting an array type for an element type, its functions and index syntax accept and return exactly that element type, behave as the untyped array, and requesting several element types, repeating a request, or requesting them in any order or compilation gives independent usable types.",
 ["programs", "histories"], "all element types x all request orders x operation histories within the bounds",
 "Tests use the macro once per element type.",
 [STD], [("array macro", STD+":ArrayMacroFunction")], ["compile verdicts and observed values"])
prop("P25", "Generated JSON is exactly the JSON form of the struct",
 "The JSON function generated for a struct type returns, for every value of the type, the text that lists its fields in order with their names and their values in JSON form - numbers, booleans, strings, nested structs and arrays - for every field count and order, and unsupported or unknown types are reported as errors.",
 ["inputs", "programs"], "all struct shapes within the bounds x all field values of the alphabet",
 "Tests serialise one struct.",
 [STD], [("json macro", STD+":JsonMacroFunction")], ["returned string compared with an independent serializer"])
prop("P26", "Delegates call the function they were created from",
 "A delegate type created from a function lets script code store and pass the function and calling it runs that function with the given arguments, type-checked against its signature, for every parameter count and type; several delegates never affect each other.",
 ["programs"], "all signatures within the bounds x call arguments x combinations of delegates",
 "Tests create one delegate.",
 [STD], [("delegate macro", STD+":DelegateMacroFunction")], ["arguments and result seen by the target function"])
prop("P27", "Arena allocations are aligned, disjoint and stay valid",
 "Every allocation from an arena is aligned as requested, lies in memory disjoint from every other live allocation, and keeps its contents until the arena is reset or destroyed, for every sequence of sizes and alignments; destroying the arena returns all its memory.",
 ["histories"], "all allocation/reset histories up to the stated length over the size and alignment alphabet",
 "The arena test performs one short history.",
 ["tiny/src/arena.c"], [("bump allocation", "tiny/src/arena.c:Tiny_ArenaAlloc")], ["returned addresses and contents"])
prop("P28", "Host lookups reflect exactly the declared names",
 "Looking up globals, functions, types and constants by name from the host finds exactly those the compiled sources and bindings declare, with their declared types, parameters, fields and values, and reading or writing a global through its index is equivalent to the script reading or assigning it.",
 ["programs", "histories"], "all declaration sets within the bounds, each name looked up through every lookup function",
 "Tests look up one or two names.",
 [T, H], [("lookup", T+":Tiny_GetGlobalIndex/Tiny_GetFunctionIndex/Tiny_Find*Symbol")], ["lookup results; globals through Tiny_GetGlobal/Tiny_SetGlobal"])
prop("P29", "Programs keep their meaning at every size the compiler accepts",
 "The number of globals, functions, strings, fields, locals, parameters, statements or nesting levels, and the length of names, literals and code, do not change the meaning of a program: for every size the compiler accepts the program behaves as written, as long as it stays within the configured stack size and call depth.",
 ["inputs", "programs"], "every size up to the stated bound for every dimension, around every encoding-width boundary",
 "Tests are small; operand-width and growth boundaries are never crossed.",
 [T, LEX, "tiny/src/stretchy_buffer.h"], [("operand encoding", T+":GEN_VALUE / ReadConstIndex"), ("growth", "tiny/src/stretchy_buffer.h")], ["values observed by foreign functions"])
prop("P30", "The 64-bit integer type computes exact 64-bit arithmetic",
 "Making a 64-bit integer from an int, adding or multiplying any number of them and turning one into text yields exactly the 64-bit result, for all operands for which it is representable, and changes none of the operands.",
 ["inputs"], "all argument lists up to the stated length over the boundary alphabet x all operations",
 "Tests add two values.",
 [STD], [("i64 bindings", STD+":Tiny_BindI64")], ["results observed through the bindings"])
prop("P31", "File and formatted I/O move exactly the bytes they are given",
 "Printing formats every argument of every kind as documented, file writes store exactly the given bytes, and reads return exactly the bytes present (up to the requested count), for all contents including empty, binary and longer than any internal buffer, and for all sequences of open, read, write, seek and close.",
 ["inputs", "histories"], "all format/argument combinations and file operation histories within the bounds",
 "Tests print but do not check output.",
 [STD], [("I/O library", STD+":Tiny_BindStandardIO")], ["bytes on stdout and in files of a scratch directory"])
prop("P32", "The server example's shared list is a thread-safe FIFO queue",
 "Under every interleaving of producers and consumers, each value pushed is popped exactly once, values come out in the order they were pushed, popping fails only when the list is empty, and no access races.",
 ["schedules"], "all interleavings of 2-3 threads with a few operations each up to the preemption bound, for the list implementation itself",
 "No test covers the example's list.",
 ["examples/server/src/list.c"], [("mutex and condition variable", "examples/server/src/list.c")], ["call/return history of every schedule"])
prop("P33", "The server example parses a request however it arrives in pieces",
 "A valid HTTP request yields the same method, target, headers and body whichever way its bytes are split into chunks after the first line, and over-long or malformed input never writes outside the request.",
 ["inputs", "fault_sequences"], "all request shapes of the alphabet x every chunk split within the bounds",
 "No test covers the example's parser.",
 ["examples/server/src/requestparser.c"], [("incremental parser", "examples/server/src/requestparser.c")], ["parsed request after each split"])
prop("P34", "Compiling a file equals compiling its text",
 "Compiling a file gives the same verdict, message and behaviour as compiling its text under the file's name, for every content without zero bytes and of every size, and for regular files, links and pipes alike. A file that does not exist or cannot be read is an error naming it, which leaves the state as it was, and no compilation leaves a file open or memory behind.",
 ["inputs", "histories"], "all file contents and compilation histories within the bounds",
 "Tests compile only strings.",
 [T], [("file compilation", T+":Tiny_CompileFile")], ["verdict, message and run of the compiled file and of its text"])
prop("P35", "Use statements run host macros once each with exactly their arguments",
 "When a source that parses contains use statements, each calls the host's macro of that name exactly once, in source order, with exactly the given strings and name, and the macro can look up everything the whole source and earlier ones declare; what it binds, registers or compiles is usable in the whole source. An unknown macro or one reporting failure makes the compilation fail with a message saying so, no later macro is called, and a source that does not parse calls none.",
 ["inputs", "histories"], "all sources and sequences of sources over the item alphabet, and all macro arguments, within the bounds",
 "Tests use the library's own macros on single examples.",
 [T, STD], [("use statements", T+":ParseStatement / Tiny_CompileString"), ("macro binding", T+":Tiny_BindMacro")], ["calls received by the macros", "verdict and message", "output of the program"])

prop("P36", "Renaming what a program defines changes nothing else",
 "Consistently renaming the variables, constants, functions, parameters, structs, fields and array types of a program to other distinct names, of any spelling that is not reserved and any length up to 120 characters, changes neither its acceptance nor its behaviour (beyond names written into JSON). The host finds under each new name exactly what it found under the old one, and nothing under the old one.",
 ["inputs"], "all programs of the corpus, and their pairs, under all renaming schemes and single renamings within the bounds",
 "Tests use a handful of short, dissimilar names.",
 [T, LEX, STD], [("name lookup", T+":ReferenceVar / ReferenceFunction / GetTagFromName / GetFieldTag"), ("derived names", STD+":ArrayMacroFunction / JsonMacroFunction")], ["verdict and run of the renamed program", "indices and symbols the host finds by name"])

prop("P37", "Bound host functions are called exactly as their signatures say",
 "For every well-formed signature a host function is bound with, before or after compilations, script code can call it with exactly the argument counts and types the signature admits and nothing else, it receives exactly those values in order, and its result arrives unchanged with the declared type; binding further functions never changes what existing code calls. A constant the host binds has its exact value and kind everywhere in scripts and cannot be assigned or redeclared.",
 ["inputs", "histories"], "all signatures, sets of bindings, constants and calls within the bounds",
 "Tests bind a few functions with a few signatures.",
 [T], [("signatures", T+":Tiny_BindFunction"), ("calls of bound functions", T+":CompileCall / TINY_OP_CALLF"), ("constants", T+":Tiny_BindConstInt")], ["arguments the host function receives", "result the script sees", "verdict"])
prop("P38", "Source offsets convert to the line and column they stand on",
 "For every text and every offset into it, converting the offset gives the zero-based line and the zero-based column of the byte at that offset: the number of line ends before it and the number of bytes since the last of them. A line end itself belongs to the line it ends, and the text is neither changed nor read beyond its end.",
 ["inputs"], "all texts over the alphabet within the bounds and all their offsets",
 "The test converts three positions of one text.",
 ["tiny/src/pos.c"], [("conversion", "tiny/src/pos.c:Tiny_PosToFriendlyPos")], ["line and column of every offset"])
prop("P39", "Number conversions and rounding are exact for every value",
 "Converting an integer to a float - explicitly, by mixing it with a float or through the host - gives the nearest float, converting a float to an integer drops its fraction towards zero, and floor and ceil give the nearest integral values below and above. This holds for every value whose integral part fits the integer type, in every position of a program, and the operand itself is unchanged.",
 ["inputs", "programs"], "all floats and integers of the bit patterns, and all chains of conversions, within the bounds",
 "Tests convert one or two round numbers.",
 ["tiny/src/tiny.c", "tiny/src/std.c"], [("conversions", "tiny/src/tiny.c:Lib_ToInt, Lib_ToFloat, Tiny_ToNumber"), ("rounding", "tiny/src/std.c:Lib_Floor, Lib_Ceil")], ["results of the functions", "results of scripts"])
prop("P40", "A thread can be run again, on the globals it left behind",
 "Starting a thread which has finished, or on which the host has only called functions, executes the whole program from its first statement, exactly as a first run would, except that every global holds the value it had before - from an earlier run, a host call or a host write - until the program assigns it, and everything those values refer to is intact. Each run leaves the stacks empty, any number of runs and calls may follow each other, and another thread of the same state is not affected.",
 ["histories", "programs"], "all histories of runs, host calls, host writes and collections on one and on two threads within the bounds",
 "Tests start each thread once.",
 ["tiny/src/tiny.c"], [("starting", "tiny/src/tiny.c:Tiny_StartThread, AllocGlobals"), ("host calls", "tiny/src/tiny.c:Tiny_CallFunction")], ["calls made by every run", "globals and stacks after every operation"])
prop("P41", "Exiting, random numbers and the time are what was asked for",
 "Exiting ends the process at once with exactly the given status (0 to 255), wherever in a program it is called: what was printed or written to files before has arrived, and nothing after it happens. Random numbers are never negative, different positive seeds give different sequences, and the numbers drawn after seeding depend only on the seed and how many were drawn, whatever else is done in between; the time is the host's time in seconds.",
 ["programs", "histories"], "all statuses and places, all sequences of operations before an exit and around seeds and draws, all clock values within the bounds",
 "Tests call none of these functions.",
 ["tiny/src/std.c"], [("exit", "tiny/src/std.c:Exit"), ("random numbers", "tiny/src/std.c:SeedRand, Rand"), ("time", "tiny/src/std.c:Lib_Time")], ["exit status and output of the process", "numbers drawn", "the time read"])
prop("P42", "Breaking into the debugger shows what runs and changes nothing",
 "At each break a program shows the instruction which is executed next, every step executes exactly that one and shows the following, looking at the stack shows its top two values, and anything else typed is refused without effect. However a session is conducted, as long as it is ended by going on, the program does exactly what it does undisturbed, and the host can go on using the thread. Excluded: breaks in functions which the host or a library function called, and leaving by the end of the input after a step.",
 ["histories", "programs"], "all sessions of commands at all breaks of the programs within the bounds",
 "Tests never break into the debugger.",
 ["tiny/src/std.c", "tiny/src/tiny.c"], [("debugger", "tiny/src/std.c:DebugBreak"), ("instructions", "tiny/src/tiny.c:Tiny_DisasmOne")], ["what is printed at every prompt", "calls made by the program", "calls made by the host afterwards"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
