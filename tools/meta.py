META = {
 'C01': {'rule': 'A run executes one corpus job (library or command line, with or without hooks) with allocation failures injected (one, a burst, several, or all from a point on; some runs add an I/O or callback failure), chosen by seed over every distinct allocation call path seen in the fault-free baselines. Non-trivial: at least one fault fired; distinct: full event-log hash.'},
 'C02': {'rule': 'As C01; the result (code, output, error chain) is compared with the fault-free baseline of the same job in a fresh process. Non-trivial: an allocation failed; distinct: full event-log hash.'},
 'C03': {'rule': 'A run compiles one corpus program with allocation, file-system, callback or damage faults; afterwards live allocations, descriptors and mappings are counted. Non-trivial: a fault fired; distinct: full event-log hash.'},
}
META.update({
 'C04': {'rule': 'A run is a history of 2-5 compilations (every 97th run: 20-80, the same job failing over and over) in one process, all but the last possibly hit by allocation, file-system, callback or damage faults; each unfaulted compilation is compared (result, output, diagnostics) with the same job in a fresh process. Non-trivial: a fault fired; distinct: full event-log hash.'},
 'C05': {'rule': 'A run is a seeded history of operations on one container kind (thirteen kinds in turn), each operation possibly losing its k-th allocation or all from the k-th on; contents are compared with a reference model after every step and after every failed operation, which is then repeated. Non-trivial: every run; distinct: full event-log hash.', 'nofault': 1, 'real': 'list, linked stack, vector, hash tree, tree, trie, string buffer, symbol table, block tree, token buffer, preprocessing token sequence, macro table, identifier scopes', 'stub': 'heap'},
 'C06': {'rule': 'A run executes the command-line compiler once with a fault on the output device (limited capacity, failing open, write or close), the heap or the file system; output bytes, exit status and stderr are compared with the fault-free run. Non-trivial: a fault fired; distinct: full event-log hash.'},
 'C07': {'rule': 'A run feeds a text through stdin, a pipe or a file with seeded read sizes, interruptions and errors; the result is compared with a plain file holding the same bytes. Non-trivial: a fault fired; distinct: full event-log hash.'},
 'C08': {'rule': 'A run preprocesses a seeded directory layout and include graph, with seeded failures of realpath/access/open/fstat/mmap; the included text is compared with a reference resolution model. Non-trivial: every run (layout differs) ; distinct: full event-log hash.', 'nofault': 1},
 'C09': {'rule': 'A run compiles generated programs (one, or several in succession in one process, some with a forced include) using the date and time macros in several files while the simulated clock advances and jumps; all expansions must denote one instant. Non-trivial: every run; distinct: full event-log hash.', 'nofault': 1},
 'C10': {'rule': 'A run repeats a job with another heap layout, garbage contents, realloc behaviour, stack contents (dead stack below the frame overwritten at every basic block), clock and read sizes; result, output and diagnostics must equal those of a fresh process. Non-trivial: every run; distinct: full event-log hash.', 'nofault': 1},
 'C11': {'rule': 'A run executes 2-4 compilations as threads under a seeded scheduler that preempts at basic-block granularity and after library calls that fill memory, and that hunts for races on the static storage the jobs are seen to write; each is compared with the same job alone. Non-trivial: at least one switch; distinct: hash of the switch sequence with the code position of every switch, and of the event log.'},
 'C12': {'rule': 'A run is 1-4 threads, each a seeded history of raising (plain, formatted, located, OS), clearing and printing errors, preempted at basic-block granularity, with output devices that fill up or fail; after every step the chain is compared with a per-thread reference model. Non-trivial: every run; distinct: hash of switch positions and event log.', 'nofault': 1, 'real': 'the error stack, source and OS errors, tabular and JSON formatters', 'stub': 'threads (baton scheduler), output device'},
 'C13': {'rule': 'A run drives one program through one entry point of the front end (whole compilation, preprocessing, lexing, parsing of single rules, extension nodes) with all extension hooks and the locator installed, one callback invocation failing with a seeded code (the first runs: none failing). Non-trivial: every run; distinct: full event-log hash.', 'nofault': 1},
 'C18': {'rule': 'A run compiles one program after 1-3 seeded damages (truncation, bit flip, overwrite, lost/duplicated/swapped/garbage block, inserted byte) to its files. Non-trivial: a damage applied; distinct: full event-log hash.'},
})
META.update({
 'C14': {'rule': 'A run executes one kefir-compiled function one machine instruction at a time; between instructions a seeded schedule overwrites the memory below the red zone and runs interrupt handlers (kefir-compiled functions, the interrupted one included, nested up to three deep) on the same stack. Return value and memory are compared with the same call undisturbed, for the function and for every handler. Non-trivial: at least one injected action; distinct: hash of the instruction trace and actions.', 'stub': 'signal delivery (the scheduler enters the handler and restores the registers itself)'},
 'C15': {'rule': 'A run executes 2-3 threads, each a seeded script of kefir-compiled functions and of accesses to thread-local objects from kefir-compiled and host-compiled code, switched between machine instructions by a seeded schedule; results are compared with running alone and with a per-thread model of the thread-local objects. Non-trivial: at least one switch; distinct: hash of the instruction trace and switches.', 'stub': 'the thread scheduler (real threads, one at a time by baton)'},
 'C16': {'rule': 'A run executes one kefir-compiled store to an object, element, member or bit-field of a generated type, an initialisation of a local object among other locals, or a return of an aggregate through memory, one machine instruction at a time, while a seeded other thread keeps writing the bytes of all other memory locations around it; after every instruction each such byte must hold what the other thread last wrote. Non-trivial: at least one concurrent write; distinct: hash of the instruction trace and writes.', 'stub': 'the other thread (writes injected between instructions)'},
 'C17': {'rule': 'A run executes one kefir-compiled function on a simulated device (inaccessible pages, every access trapped, a fresh seeded value for every read); the sequence of accesses (object, kind, width as far as it crosses the object, value stored) and the result are compared with those of the host compiler\'s unoptimised code for the same source on the same device. Non-trivial: at least one device access; distinct: hash of the instruction trace and accesses.', 'stub': 'the device'},
})
