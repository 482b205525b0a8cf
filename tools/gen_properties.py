#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the text is reviewable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01","Memory exhaustion never crashes, corrupts or hangs the compiler",
"Whatever allocation requests made through the caller-supplied allocator fail (any one, any several, or all from some point on), every compiler stage (preprocess, lex, parse, analyse, translate, generate code, dump, format errors, clean up) still returns to its caller within a bounded amount of work. No stage reads or writes memory it does not own, uses memory after it was released, or releases it twice.",
["inputs","fault_sequences"],"every source program and every subset of failing allocation requests during its compilation",
"Tests never make an allocation fail; they run the no-fault path only. The fault space is (program) x (subset of thousands of allocations).",
["source/core/*.c","source/preprocessor/*.c","source/lexer/*.c","source/parser/*.c","source/ast/**/*.c","source/ast-translator/**/*.c","source/ir/*.c","source/codegen/**/*.c","source/compiler/compiler.c","headers/kefir/core/mem.h"],
[("allocator interface: every allocation goes through a caller-supplied vtable and returns NULL on failure","headers/kefir/core/mem.h"),("REQUIRE/REQUIRE_OK/REQUIRE_ELSE/REQUIRE_CHAIN error propagation with per-site unwinding","headers/kefir/core/util.h")],
[("live object graph","objects built so far by the failing stage, which its unwinding code must release exactly once","all constructors / insert functions")],
["kefir_compiler_* API","allocator vtable"])

p("C02","Memory exhaustion is never a silent success or a bogus diagnostic",
"If an allocation fails during a compilation, then either the compilation still succeeds with output byte-identical to the output without the failure, or it reports failure with a non-empty error chain. A failure caused only by memory exhaustion on a valid program is never reported as an error in that program (lexer, syntax, analysis, constant-expression or static-assertion error).",
["inputs","fault_sequences"],"every valid source program, every output kind and every subset of failing allocations",
"Swallowed error codes only show when an allocation fails at that exact call; no test injects that.",
["source/parser/*.c","source/parser/rules/*.c","source/preprocessor/*.c","source/ast/**/*.c","source/ast-translator/**/*.c","source/ir/*.c","source/core/*.c","source/core/error.c"],
[("result codes distinguish warnings (not found, no match, iterator end) from hard failures","headers/kefir/core/basic-types.h, source/core/basic-types.c"),("backtracking only on the no-match result","source/parser/parser.c"),("error stack","source/core/error.c")],
[("result code","NO_MATCH/NOT_FOUND drive control flow; anything else must propagate","every call site")],
["return value of the stage that failed","kefir_current_error()","bytes written to the output stream"])

p("C03","Every outcome gives back every resource",
"After any compilation attempt, successful or failed for any reason (memory exhaustion, file or include errors, damaged source, language errors, failing callbacks), once the caller has released the objects it still owns, nothing obtained from the caller-supplied allocator is still live and no file descriptor or file mapping opened by the library remains. Only pointers obtained from that allocator are ever handed back to it.",
["inputs","fault_sequences","histories"],"every program (valid or not), every combination of allocation, file-system and callback failures",
"Existing valgrind runs only cover fault-free paths; cleanup code on failure paths is never executed by tests.",
["source/core/*.c","source/cli/input.c","source/cli/filesystem_source.c","source/preprocessor/*.c","source/parser/**/*.c","source/ast/**/*.c","source/ast-translator/**/*.c","source/ir/*.c","source/codegen/**/*.c","source/compiler/compiler.c","source/main/main.c (comment stating the rule)"],
[("per-site unwinding (REQUIRE_ELSE blocks) and ownership transfer on success","throughout"),("close callbacks of source files","source/cli/filesystem_source.c, source/preprocessor/virtual_source_file.c")],
[("ownership of partially built objects","who must free on failure","every constructor")],
["allocator vtable (live set)","open descriptor and mapping tables"])

p("C04","A failed compilation leaves nothing behind for the next one",
"In a process that performs any sequence of compilations, some failing (memory exhaustion, I/O errors, language errors, failing callbacks) and some succeeding, each compilation gives exactly the result, output bytes and diagnostics it gives when run alone in a fresh process.",
["histories","fault_sequences"],"every finite sequence of compilation jobs and faults within one process",
"Each test compiles one thing in a fresh process; cross-compilation state after failures is never observed.",
["source/core/error.c","source/compiler/compiler.c","source/compiler/profile.c","source/preprocessor/preprocessor.c","source/cli/options.c"],
[("no mutable process-wide state except the per-thread error stack and lazily built constant tables","source/core/error.c, source/compiler/profile.c")],
[("error stack","must not leak diagnostics of one job into the next after it is cleared","source/core/error.c"),("lazily initialised type traits","initialised once","source/compiler/profile.c")],
["output bytes, result code and error chain per job"])

p("C05","Core containers fail atomically and stay usable",
"For every history of operations on a list, vector, hash table, ordered tree, trie, string buffer, symbol table, linked stack, block tree, token buffer, token sequence, macro table or identifier scope, in which any operation may hit an allocation failure, the container's observable contents equal those of a simple reference model: a failed operation reports failure and changes nothing the caller can observe, and the same operation succeeds once memory is available again. Removal callbacks run exactly once per removed element, and never for elements whose insertion failed.",
["histories","fault_sequences"],"every operation sequence and every placement of allocation failures in it",
"Unit tests run a handful of fixed sequences with no failing allocation.",
["source/core/list.c","source/core/vector.c","source/core/hashtree.c","source/core/tree.c","source/core/trie.c","source/core/string_buffer.c","source/core/symbol_table.c","source/core/linked_stack.c","source/core/block_tree.c","source/lexer/token_buffer.c","source/preprocessor/token_sequence.c","source/preprocessor/user_macro.c","source/ast/scope.c"],
[("allocate before linking; undo on failure","source/core/*.c"),("on-remove callbacks","source/core/list.c, hashtree.c, vector.c, tree.c, trie.c")],
[("container contents","logical sequence/map","struct fields")],
["container public API","allocator vtable","removal callbacks"])

p("C06","Exit status 0 means the whole output was written",
"If the compiler exits with status 0, every byte of the requested output (assembly, IR, AST, tokens, preprocessed text, runtime code, help, version) has been accepted by the output file or standard output. If the output cannot be opened, or any write, flush or close of it fails (disk full, I/O error, closed pipe), the exit status is non-zero and a diagnostic is printed.",
["fault_sequences","inputs","configurations"],"every output kind and destination, every failing open/write/close position and errno, every sequence of short writes and interruptions",
"Tests write to healthy files; write errors appear only on full or failing devices, at an arbitrary byte.",
["source/main/main.c","source/codegen/amd64/asmgen.c","source/util/json.c","source/preprocessor/format.c","source/ir/format.c"],
[("output stream opened and closed by the command-line driver","source/main/main.c")],
[("stdio error flag / close result","must reach the exit status","source/main/main.c")],
["exit status","bytes accepted by the simulated output device","stderr"])

p("C07","The compiled text is exactly the input text, or the run fails",
"The program read from standard input is the exact byte sequence the writer produced, however it is split into reads and however often a read is interrupted; the result equals compiling a file with the same bytes (null bytes and bytes that are no character included: no text after them is dropped). If reading, opening, sizing or mapping the input fails, the exit status is non-zero and no output is presented as a successful compilation of a shortened text.",
["schedules","fault_sequences","inputs"],"every chunking of the input, every placement of interruptions and errors, every file-operation failure",
"Tests read small regular files; chunk boundaries, EINTR and EIO never occur.",
["source/cli/input.c","source/main/main.c"],
[("read loop with growing buffer","source/cli/input.c"),("open/fstat/mmap checks","source/cli/input.c")],
[("input buffer length/capacity","must cover exactly the bytes delivered","source/cli/input.c")],
["exit status and output of the command-line driver"])

p("C08","Include search obeys its order even when the file system misbehaves",
"An include directive (or a command-line forced include) resolves to the first existing candidate in the documented order: the including file's own directory for the quoted form, then the include path in command-line order, then the name as given. If probing or opening a candidate that exists fails with an I/O or resource error, compilation fails; a later candidate is never silently used in its place, and a missing candidate never ends the search.",
["fault_sequences","inputs","configurations"],"every layout of files over directories, every include form and every failing file operation",
"Tests use one or two fixed layouts on a healthy file system.",
["source/cli/filesystem_source.c","source/preprocessor/preprocessor.c","source/compiler/compiler.c"],
[("not-found result continues the search, any other failure ends it","source/cli/filesystem_source.c")],
[("search position","candidate being probed","source/cli/filesystem_source.c")],
["preprocessed output (which file's marker appears)","exit status","log of simulated file operations"])

p("C09","One compilation sees one instant",
"Within one compilation every expansion of the date and time macros, in the main file and in all included files, denotes one and the same instant, which lies between the start and the end of the compilation, no matter how the clock advances or jumps meanwhile. When a timestamp override is given, the output does not depend on the clock at all and denotes exactly the override.",
["schedules","fault_sequences","inputs"],"every clock schedule (steps forwards and backwards, midnight and year boundaries) and every placement of the macros",
"Tests use a fixed timestamp override; they cannot schedule a clock change between two expansions.",
["source/preprocessor/preprocessor.c","source/preprocessor/predefined_macro.c","source/main/main.c"],
[("timestamp sampled once per preprocessor context","source/preprocessor/preprocessor.c"),("override installed before preprocessing","source/main/main.c")],
[("environment.timestamp","the instant of this compilation","headers/kefir/preprocessor/preprocessor.h")],
["preprocessed output","simulated clock reads"])

p("C10","Output depends only on the declared inputs",
"For fixed source text, include files, options and timestamp, the exit result, every output kind and the diagnostics are byte-identical in every run: they do not depend on heap addresses or layout, on the previous contents of allocated memory, on whether reallocation moves a block, on stack contents, on the clock, on the process's surroundings (process number, working directory, environment variables other than KEFIR_*, random numbers), or on file-system timing.",
["schedules","inputs","configurations"],"every program and every heap layout, garbage pattern, reallocation policy and clock",
"A test run sees one heap layout; address- or garbage-dependent ordering shows only when the layout varies.",
["source/core/hashtree.c","source/core/tree.c","source/ast/scope.c","source/ast-translator/**/*.c","source/ir/module.c","source/codegen/amd64/system-v/*.c"],
[("ordered iteration over insertion-ordered lists and content-hashed tables","source/core/hashtree.c, source/ast/scope.c"),("symbol interning","source/core/symbol_table.c")],
[("iteration order of scopes and tables","must be a function of content","source/core/hashtree.c")],
["output bytes, diagnostics"])

p("C11","Concurrent compilations in one process do not interfere",
"Independent compilations running in different threads of one process, each with its own contexts, allocator and streams, each give exactly the result, output bytes and diagnostics they give when run alone, under every interleaving.",
["schedules","histories"],"every set of jobs and every interleaving of their basic blocks, allocations and file operations",
"The test suite is single-threaded.",
["source/core/error.c","source/compiler/profile.c","source/preprocessor/predefined_macro.c","source/ast/type/*.c","source/parser/ruleset.c"],
[("thread-local error stack","source/core/error.c"),("constant tables instead of mutable globals","source/ast/type/*.c, source/compiler/profile.c")],
[("process-wide mutable state","should be none apart from thread-local error state","source/core/error.c, source/compiler/profile.c")],
["per-job output, result and error chain"])

p("C12","Diagnostics chain: private to its thread, newest first, root cause kept",
"For every history of raising, overriding and clearing errors spread over any number of threads in any interleaving, the error chain a thread reads back equals a per-thread reference model: newest first, each entry with the code, message, origin and source location it was raised with, warnings replaced by the error that follows, at most the documented depth (entries raised once it is reached are dropped and the overflow is flagged), and empty after clearing. Printing a chain (tabular or JSON) shows every entry and never changes it.",
["histories","schedules"],"every sequence of raise/clear/read operations over every interleaving of threads",
"Tests raise at most a few errors on one thread and rarely read the chain back.",
["source/core/error.c","source/core/source_error.c","source/core/os_error.c","source/core/error_format.c","source/core/source_location.c"],
[("bounded per-thread error array with previous links","source/core/error.c")],
[("error stack and its depth","per thread","source/core/error.c")],
["kefir_current_error()","formatted error reports"])

p("C13","A failing callback stops the work and surfaces its own error",
"If a caller-supplied callback (source locator open or close, compiler/preprocessor/lexer/parser/analyser/translator extension hook other than the hooks that only release (on_free)) fails at any of its invocations, the operation in progress fails, the error code it returned is the one the caller gets, and everything can still be released. Hooks that succeed without acting leave the result unchanged.",
["fault_sequences","inputs","histories"],"every program, every callback kind, every invocation index and every hard error code",
"Tests install few hooks and none that fail part-way.",
["source/compiler/compiler.c","source/preprocessor/preprocessor.c","source/preprocessor/virtual_source_file.c","source/lexer/lexer.c","source/parser/parser.c","source/ast/context.c","source/ast-translator/context.c","headers/kefir/core/extensions.h"],
[("extension hook invocation macro and error propagation","headers/kefir/core/extensions.h"),("source locator interface","headers/kefir/preprocessor/source_file.h")],
[("hook result","must propagate unchanged","call sites")],
["return value and error chain of the compiler API","allocator live set"])

p("C14","Generated code is transparent to asynchronous interruption",
"A program compiled by kefir computes the same results when its execution is interrupted after any machine instruction, any number of times, by handlers that run on the same stack below the ABI red zone, overwrite all memory and registers a signal handler may overwrite, and themselves execute kefir-compiled code (including the interrupted function).",
["schedules","programs"],"every compiled program and every placement of interruptions between its instructions",
"Tests run generated code without interruptions; a value left below the red zone or in static scratch storage goes unnoticed.",
["source/runtime/amd64_sysv.s","source/codegen/amd64/system-v/*.c","source/codegen/amd64/system-v/abi/*.c","source/ast-translator/**/*.c"],
[("operand stack kept at or above the stack pointer; state in callee-saved registers and the frame only","source/runtime/amd64_sysv.s"),("prologue/epilogue","source/codegen/amd64/system-v/function.c, abi/qwords, runtime helpers")],
[("operand stack, alloca scope words, x87/MXCSR control words","per frame","source/runtime/amd64_sysv.s")],
["results returned and memory written by the compiled program"])

p("C15","Generated code is reentrant; thread-local objects are per thread",
"Threads executing kefir-compiled code on disjoint data compute, under every instruction-level interleaving, what each computes alone. Every thread has its own instance of each thread-local object, which starts with its declared initial value, is suitably aligned, and is reached consistently from kefir-compiled and host-compiled code, including for external thread-locals.",
["schedules","programs"],"every set of threads, programs and instruction interleavings",
"The only thread-local test samples OS-scheduled threads on one small program.",
["source/runtime/amd64_sysv.s","source/codegen/amd64/system-v/*.c","source/codegen/amd64/system-v/static_data.c","source/ast-translator/scope/*.c"],
[("frame-local evaluation state","source/runtime/amd64_sysv.s"),("TLS access sequences and TLS sections","source/codegen/amd64/system-v/*.c")],
[("TLS segment contents","initial image per thread","generated .tdata/.tbss")],
["values computed by each thread"])

p("C16","A store touches only its own memory location",
"Compiled code that assigns to an object, array element, structure member or bit-field never writes to any other memory location in the C11 sense (adjacent members, neighbouring array elements, members beyond a run of adjacent bit-fields, padding-free neighbours), so that updates made concurrently by another thread to those other locations are never lost.",
["schedules","programs"],"every assignment form and layout, every interleaving with updates of neighbouring locations",
"Single-threaded tests cannot observe a neighbour being rewritten with its own old value.",
["source/ast-translator/value.c","source/ast-translator/nodes/assignment_operator.c","source/ast-translator/initializer.c","source/runtime/amd64_sysv.s","source/codegen/amd64/system-v/abi/data.c"],
[("access width chosen per object; 24/40/48/56-bit bit-field units written in pieces","source/runtime/amd64_sysv.s, source/ast-translator/value.c")],
[("access width of stores","bytes written","generated code")],
["final memory contents after interleaved execution"])

p("C17","Volatile objects are accessed exactly as the program says",
"Each evaluation of a volatile-qualified scalar of at most eight bytes (not a bit-field) in the source performs exactly one load or store of that object, touching no byte outside the object, in the order of evaluation the language fixes, so a device or another thread observing the object sees exactly that sequence of accesses and only values the program stored.",
["schedules","programs"],"every expression over volatile scalars and every behaviour of the device behind them",
"Tests never observe individual memory accesses.",
["source/ast-translator/value.c","source/ast-translator/lvalue.c","source/ast-translator/nodes/*.c","source/runtime/amd64_sysv.s"],
[("one load/store opcode per evaluation","source/ast-translator/value.c")],
[("device register file","simulated memory-mapped registers","simulator")],
["access log of the simulated device"])

p("C18","Damaged source is diagnosed, never mishandled",
"For any source or included file that was truncated at an arbitrary byte, had bytes flipped, lost or duplicated, or blocks swapped (nesting of brackets up to a few dozen levels, declared objects of moderate size), the compiler terminates within a bounded amount of work with either success or a failure carrying a non-empty error chain; it never crashes, never touches memory it does not own (including bytes beyond the end of the text) and can release everything.",
["inputs","fault_sequences"],"every damage pattern applied to every source and include file, in every output mode",
"Tests contain well-formed programs and a few hand-written errors.",
["source/lexer/*.c","source/lexer/tokens/*.c","source/preprocessor/*.c","source/parser/**/*.c","source/ast/analyzer/**/*.c","source/ast-translator/**/*.c"],
[("bounds-checked source cursor","source/lexer/source_cursor.c"),("diagnostics instead of assertions","throughout")],
[("source cursor","position within the text","source/lexer/source_cursor.c")],
["result code, error chain, allocator live set"])

# ---- pure-function guarantees: outside this technique
def na(id,title,statement,why,files):
    p(id,title,statement,["programs","inputs"],"every program",why,files,[("see files",files[0])])
na("C30","Compiled programs behave as the C17 abstract machine prescribes",
"For every strictly conforming program within the documented language subset, the observable behaviour of the compiled program equals that prescribed by ISO C17.",
"Tests sample a few dozen programs.",["source/ast/**/*.c","source/ast-translator/**/*.c","source/codegen/**/*.c"])
na("C31","Generated code interoperates with host-compiled code (System V AMD64 ABI)",
"Type sizes, alignments, field offsets, bit-field placement, argument passing, return values, varargs and callee-saved registers agree with the platform ABI for every type and signature.",
"Tests sample a few signatures.",["source/codegen/amd64/system-v/abi/*.c"])
na("C32","Constant expressions evaluate as at run time",
"Every constant expression the compiler folds has the value and type the same expression would have when evaluated at run time.",
"Tests sample a few expressions.",["source/ast/constant_expression/*.c"])
na("C33","Preprocessing follows the C17 translation phases",
"Macro replacement, stringising, pasting, conditional inclusion and line control produce the token sequence the standard prescribes for every input.",
"Tests sample fixed inputs.",["source/preprocessor/*.c","source/lexer/*.c"])
na("C34","Constraint violations are diagnosed",
"Every program violating a syntax rule or constraint of the supported language is rejected with a diagnostic, and no valid program is.",
"Tests sample fixed inputs.",["source/parser/**/*.c","source/ast/analyzer/**/*.c"])
na("C35","Machine-readable dumps are well-formed and faithful",
"Token, AST and error dumps are syntactically valid JSON and the IR and preprocessed dumps reflect the compiled program faithfully.",
"Tests compare fixed outputs.",["source/util/json.c","source/ast/format.c","source/lexer/format.c","source/ir/format.c"])
na("C36","The compiler reproduces itself (bootstrap fixpoint)",
"Kefir compiled by kefir compiled by a host compiler generates the same assembly for every input as the host-compiled kefir.",
"Not part of the unit tests; 19 minutes.",["bootstrap.mk","source/**"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
