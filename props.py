"""Source of properties.jsonl and MANIFEST.json (python3 props.py rewrites both)."""
import json, os, sys
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


BASE_NOTE = ("Static decision over the resolved program (clang -O0 IR of the real build's translation units, Linux/x86-64 configuration); "
             "trusts the clang front end, LLVM's mem2reg/inliner and the analysis engine. ")

prop("C07", "Output files are complete or the failure is reported",
     "An object file, executable, archive or extracted file that the tool reports as produced was written completely: if any write, flush or close of it failed, the operation reports failure.",
     ["fault_sequences", "inputs"], "for every output file and every point at which writing it can fail (disk full, I/O error, quota)",
     "The tests never make a write fail; a full disk or a deferred close error at any of the writes is a fault sequence no test samples.",
     ["src/muntar.c", "src/file.c", "src/cjit-ar.c", "lib/tinycc/tccelf.c", "lib/tinycc/tcctools.c"],
     ["write_to_file and muntar_to_path compare the written count and the close result", "the ELF writer and the archiver test ferror and fclose"],
     "typestate on output streams + failure-flow dataflow",
     "Every stream opened for writing must have its error state or all of its write results examined and its close examined, and the outcome must flow into a failure result.")
prop("C08", "A failed operation never ends in exit status 0",
     "When the tool cannot set itself up, read or compile an input, link, extract an archive or start the program, the process ends with a non-zero status.",
     ["fault_sequences", "inputs"], "for every operation that can fail and every way in which it fails, in every mode of the command line",
     "The tests provoke a handful of failures; each fallible call on each path of each mode would have to be made to fail.",
     ["src/main.c", "src/cjit.c", "src/file.c", "src/muntar.c"],
     ["every front-end operation returns false/non-zero on error and main turns that into its exit status"],
     "interprocedural failure-flow (property simulation)",
     "For each fallible call the failure outcome is followed on all feasible paths to the exits, bottom-up to main; best-effort library search is excluded.")
prop("C09", "The program's exit status is the tool's exit status",
     "When a program is run in memory, the process ends with the program's own exit status; a program that was killed is never reported as success; the program runs once, in a child process, with the given arguments, and the tool waits for it.",
     ["programs", "schedules"], "for every program, every exit code or fatal signal, and every order in which child and parent proceed",
     "The tests check a few exit codes; signals, stops and failures of fork or wait are not exercised.",
     ["src/cjit.c", "src/main.c"], ["cjit_exec forks, waits and decodes the wait status", "main passes the result to exit"],
     "typestate + finite-domain dataflow over wait statuses",
     "fork/wait typestate; for every wait status Linux can deliver, on the paths it takes, the returned expression is the exit code after a normal end and non-zero otherwise.")
prop("C10", "Bounded text and data operations stay inside their buffers",
     "An operation that formats, copies or reads at most n bytes into a buffer of known size never gets an n larger than the room that is left, and a position computed from the result of such an operation lies inside the buffer.",
     ["inputs", "programs"], "for every message, path, token or command line, of any length",
     "Only over-long inputs reach the limits; the tests use short ones, and an off-by-some overflow into a neighbouring variable usually goes unnoticed.",
     ["src/cjit.c", "src/file.c", "src/elflinker.c", "src/cjit-ar.c", "lib/tinycc/libtcc.c", "lib/tinycc/tccpp.c", "lib/tinycc/tccgen.c", "lib/tinycc/tccelf.c"],
     ["sizeof-based limits at the calls, clamping of the returned length in _out/_err"],
     "interval analysis with wrapper inference",
     "Decided at the calls whose destination object has a statically known size; sizes that are not bounded by the interval domain are not claimed.")
prop("C11", "Every diagnostic's arguments agree with its format",
     "Every formatted message is produced with arguments that match its conversions in number, kind and width, so reporting an error never reads garbage or crashes.",
     ["inputs", "programs"], "for every message of the compiler, the linker and the front end, on every path that emits one",
     "Most diagnostics are on error paths the tests never take, and the compiler's own check does not see the project's private formatters.",
     ["src/cjit.c", "src/main.c", "src/file.c", "lib/tinycc/libtcc.c", "lib/tinycc/tccpp.c", "lib/tinycc/tccgen.c", "lib/tinycc/tccelf.c"],
     ["printf-like functions _err, _out, tcc_error, tcc_warning, cstr_printf, ..."],
     "format/argument agreement over inferred formatters",
     "Formatters are inferred (functions passing their format and va_list on); argument types come from the IR and debug information.")
prop("C12", "Documented options are recognised and have their own effect",
     "Every option in the help text is accepted, takes a value exactly when the help says so, and has its documented effect and no other option's; a missing optional value is never used.",
     ["inputs", "configurations"], "for every option, value and position on the command line",
     "The tests use about half of the options, each in one place; two options that share a code or a handler that also fires for another one show only in the unused combinations.",
     ["src/main.c", "src/ketopt.h", "src/cjit.c"], ["option string and long option table", "dispatch chain in main"],
     "table agreement + per-option effect dataflow",
     "Table, help text and dispatch are compared; effects are the fields stored and compiler calls made between two parser calls.")
prop("C14", "Files and handles are closed on every path",
     "Every file, descriptor, directory or library handle the tool opens is closed exactly once on every path, successful or not, unless it is handed to the caller.",
     ["inputs", "fault_sequences"], "for every input and every failure after the handle was opened",
     "Leaks and double closes on error paths have no visible effect in a short test run.",
     ["src/file.c", "src/elflinker.c", "src/cjit.c", "src/muntar.c", "lib/tinycc/libtcc.c", "lib/tinycc/tccelf.c", "lib/tinycc/tcctools.c"],
     ["explicit close calls on each exit"], "ownership typestate (property simulation)",
     "Leaks, double closes and uses after close per acquisition site, correlated with the result values of the calls.")
prop("C15", "Heap blocks are freed exactly once on every path",
     "Every heap block the front end and the archiver allocate is freed exactly once, or ends up owned by a structure that outlives the call; nothing is used after it was freed.",
     ["inputs", "fault_sequences"], "for every input and every failure after the allocation",
     "Tests run without leak checking and take few of the error paths.",
     ["src/file.c", "src/elflinker.c", "src/cjit.c", "src/array.c", "src/muntar.c", "src/cjit-ar.c", "src/main.c"],
     ["explicit frees on each exit, ownership transfer by return or store"], "ownership typestate (property simulation)",
     "Leak, double free, use after free and invalid free per allocation site with an inferred ownership-transfer summary per callee.")
prop("C16", "The program gets exactly the arguments after the separator",
     "Everything after the separator on the command line reaches the executed program verbatim and in order, preceded by one entry for its own name; nothing before it does.",
     ["inputs"], "for every command line, including arguments that look like the tool's own options",
     "The tests pass three plain words; arguments that look like ignored flags and several source files are not tried.",
     ["src/main.c"], ["remove_args filters only the part before the separator", "offset and count passed to cjit_exec"],
     "linear-form equality + typestate",
     "Decides that position + count equals the vector's length, that the name slot precedes the boundary, and that the filter never drops after the separator.")
prop("C20", "Nothing is compiled, linked or run before a successful set-up",
     "Code is compiled, added, linked or relocated only after the set-up succeeded; the entry point is looked up only after a successful relocation; the program is started at most once; the set-up reports success only after all of its steps.",
     ["histories", "fault_sequences"], "for every sequence of operations on a compilation state and every failure in between",
     "Tests follow the normal order; a history that skips, repeats or fails the set-up is not exercised.",
     ["src/cjit.c"], ["done_setup and done_exec flags", "setup guard at each operation"],
     "typestate analysis", "Property simulation of each front-end operation with its helpers inlined.")
prop("C21", "Parsing the command line always makes progress",
     "Every option the parser returns has consumed a part of the command line, so that parsing any command line ends.",
     ["inputs"], "for every command line, including unknown, ambiguous and incomplete options",
     "One stuck combination (an ambiguous abbreviation) suffices for an endless loop; tests use well-formed lines.",
     ["src/ketopt.h"], ["index of the current argument and position inside it"],
     "ranking-function dataflow", "Each returning path must increase the argument index or the position.")
prop("C24", "Producing a file never runs the program",
     "When an object file or an executable was requested, the code is not executed, whatever its source (file or standard input).",
     ["inputs", "configurations"], "for every combination of options and inputs",
     "The tests request files in one or two ways; the combination with standard input is not tried.",
     ["src/main.c", "src/cjit.c"], ["mode tests before cjit_exec in main"],
     "typestate analysis", "Property simulation over the mode fields along all paths of main.")
prop("C05", "Decompression reports success only for an intact stream",
     "Decompressing a gzip stream succeeds only if its magic, method, reserved flags, minimum length, header checksum (when present), data checksum and uncompressed length are all right and the decoder itself succeeded; the offset of the compressed data follows from the header's flags exactly.",
     ["inputs"], "for every byte string given as a compressed archive: truncated, bit-flipped, with any combination of optional header fields",
     "The tests decompress a few intact archives; a corrupted stream, or a header with a rarely used optional field, is never tried.",
     ["src/tinfgzip.c"], ["gunzip: header parsing, header CRC, trailer comparison"],
     "must-pass dataflow with bit provenance (property simulation)",
     "Each success exit must lie behind every check; the compared bytes are tracked to their position in the stream.")
prop("C06", "The decompressor's tables are those of the DEFLATE specification",
     "The length and distance bases and extra bits, the order of code length codes, the fixed Huffman trees and the checksum polynomial used for decompression are those of RFC 1951/1952.",
     ["inputs"], "for every length and distance code and every literal of a compressed stream",
     "An archive in a test uses only a part of the codes; a wrong entry corrupts only streams that use that code.",
     ["src/tinflate.c", "src/tinfgzip.c"], ["base and bits tables, fixed tree construction, CRC table"],
     "constant propagation of the table contents",
     "Every table entry is computed from the code (initialisers or initialisation loops evaluated by constant propagation) and compared with the specification.")
prop("C04", "Extraction writes only below the destination",
     "Extracting a tar archive creates files and directories only below the destination directory, whatever names the archive contains: no name with a '..' component reaches the file system, and every name is placed behind the destination and a separator.",
     ["inputs"], "for every archive, with any names and prefixes in any order",
     "A test extracts archives with ordinary names; containment is about every name anybody can put into an archive.",
     ["src/muntar.c"], ["leads_outside checks of prefix and name before they are appended to the destination in muntar_to_path"],
     "typestate on the path buffer + local induction on the name check",
     "Follows the content of the buffer passed to mkdir/fopen along all paths; the check of names is decided by induction over its scanning loop.")
prop("C22", "Extracting a library creates only its members in the current directory",
     "Extracting a library creates files only under member names without any directory part, only from checked archive and member headers, and each with exactly the content stored for that member.",
     ["inputs"], "for every library file, well-formed, truncated or crafted",
     "The tests extract libraries the tool itself made; crafted names, wrong end marks, negative or too large sizes are not tried.",
     ["src/cjit-ar.c"], ["checks before fopen in the extraction loop of tcc_tool_ar"],
     "must-pass dataflow (property simulation)", "Per file creation: magic, end mark, complete content, separator check of the unchanged name.")
prop("C25", "The symbol index of a created library points at its members",
     "In a library the tool creates, every index entry is the position of the member that defines the symbol, the recorded sizes are those of the data that follows, and the defined global and weak symbols (untyped, objects, functions) are entered, local ones not.",
     ["inputs"], "for every number and size of input objects and symbols",
     "Offsets depend on the number and lengths of symbols (padding, growth of the tables); the tests build a few libraries.",
     ["src/cjit-ar.c"], ["fpos, hofs, strpos and funccnt accounting in tcc_tool_ar"],
     "linear accounting of written bytes (inductive dataflow)", "Linear forms over the tool's variables, inductive over the member loop; memory exhaustion excluded.")
prop("C30", "The compiler's shared state is used only while held and always released",
     "Every compiler operation that enters the shared compiler state leaves it again on every path, including errors that jump out of the middle of a compilation: no library call waits for a lock its own thread already holds, releases one it does not hold, or uses the shared state outside of it, and the next call always finds the state free.",
     ["inputs", "histories", "schedules"], "for every source text, error position and sequence of library calls",
     "A lost release or a stale mode shows only when a particular error is followed by a particular later call, or with two threads.",
     ["lib/tinycc/libtcc.c", "lib/tinycc/tccpp.c"], ["tcc_enter_state/tcc_exit_state, the session flag, setjmp/longjmp in tcc_compile and error1"],
     "lock-state dataflow with function summaries", "Product of lock/session state and the pending-#if flag over the whole call graph of libtcc; API exit states are fed back as entry states. Error and backtrace callbacks are assumed not to re-enter.")
prop("C31", "Runtime locks are released on every path and never taken twice",
     "Every semaphore, mutex or spin lock of the memory manager, the backtrace runtime and the bounds checker is released on every path of every function that takes it, is never taken again by a thread that holds it, never released when not held, and no code of the compiled program is called while it is held.",
     ["schedules", "inputs", "histories"], "for every path through the functions and every call chain between them",
     "A missing release or a nested acquire only hangs with threads or a debugging option on a rare path.",
     ["lib/tinycc/tccrun.c", "lib/tinycc/lib/bcheck.c", "lib/tinycc/lib/bt-exe.c", "lib/tinycc/libtcc.c"], ["rt_wait_sem/rt_post_sem, WAIT_SEM/POST_SEM"],
     "lock-state dataflow with function summaries", "Per lock object; a lock guarded by a global switch is analysed with the switch on; process exit while holding a lock is allowed.")
prop("C37", "Each compiler and linker option does exactly what it names",
     "Every option of the compiler's command line (as given through -C, CFLAGS or tcc_set_options) and every -Wl linker option reaches its handler: no table entry is hidden by another and each takes an argument, separate or attached, as documented. The handler sets exactly the documented setting to the documented value, or passes the option's argument to the documented function, on every path, and changes no other setting; -f, -m and -W options set their field with the right polarity, including no- and error= forms.",
     ["inputs"], "for every option and every path through its handler",
     "The test suite uses a handful of the eighty options; a wrong field, polarity, prefix order or missing break shows only when that option is given and its effect inspected.",
     ["lib/tinycc/libtcc.c"], ["tcc_options", "tcc_parse_args", "options_W/options_f/options_m", "set_flag", "tcc_set_linker"],
     "path-wise effect analysis of option handlers against the documented option table", "What the rest of the compiler does with a setting is not part of this property.")
prop("C38", "Relocations, GOT and PLT follow the x86-64 ABI's formulas",
     "When objects are linked, for running in memory or to a file, each x86-64 relocation (absolute, PC-relative, PLT, GOT, GOT-relative and dynamic types; TLS types excepted) stores exactly the value, at the place, with the width, that the ABI prescribes from symbol, addend, place, GOT and PLT, or leaves the corresponding dynamic relocation; each type is classified correctly for building GOT and PLT slots; PLT entries and their initial GOT contents have the prescribed bytes; and a value that does not fit its 32-bit field is reported as an error.",
     ["inputs"], "for every symbol, addend, address and output type",
     "Tests link a few objects compiled by the same compiler; foreign objects use other addends, relocation types and distances.",
     ["lib/tinycc/x86_64-link.c", "lib/tinycc/tccelf.c"], ["relocate", "relocate_section", "create_plt_entry", "relocate_plt", "code_reloc", "gotplt_entry_type"],
     "path-wise extraction of stored values as linear forms, compared with the ABI formulas", "TLS relocations are outside the property.")
prop("C43", "Constant folding and operator typing compute what C defines",
     "Arithmetic operands are converted to the type C's usual arithmetic conversions prescribe, the operator variant chosen (signed, unsigned or floating) is the one for that type, and the result has that type (int for comparisons, the promoted left operand's for shifts). Folding an operator on integer or finite floating constants yields the value the C operator yields for every operator and type the compiler folds, division by zero is never folded in executed code; a shortcut taken when one operand is a constant yields the operator's value for every value of the other operand; an operator emitted in place of another (a shift for a multiplication or division) is equivalent to it; a constant added to an address moves into its offset only if the sum is exact; and converting a constant to another arithmetic type yields the value C prescribes.",
     ["inputs"], "for every operator, pair of operand types and pair of operand values",
     "Tests fold a few dozen constants; the guards of shortcuts and the sign and width of intermediate results matter only for particular values.",
     ["lib/tinycc/tccgen.c"], ["gen_opic", "gen_opif", "gen_op", "gen_cast", "combine_types"],
     "path-wise extraction of folded values as terms, compared with the operators' definitions", "Extracted terms are compared on a grid of boundary values of the operands; bit-fields and enumerations are outside.")
prop("C44", "The machine code emitted for an operation computes that operation",
     "For every operator, operand type and placement (register, stack slot, global, constant) and every register the allocator can hand out, the x86-64 instructions emitted for an arithmetic, shift, comparison, conversion (between integer, float, double and long double), load, store, conditional jump, struct copy or variable-length-array allocation compute exactly the operation's result with the operand types' width and signedness, address the operand they name (through the GOT where the symbol may live elsewhere), leave in the recorded place what the compiler then believes to be there, and overwrite no register that still holds a live value.",
     ["inputs"], "for every combination of operator, operand type, operand placement and register",
     "Most wrong encodings, clobbers or conditions show only for one register, one displacement size, one signedness or an unordered floating value; the tests reach a small part of the combinations.",
     ["lib/tinycc/x86_64-gen.c"], ["gen_opi", "gen_opf", "gen_cvt_*", "load", "store", "gjmp_cond", "gen_struct_copy", "gen_vla_alloc"],
     "abstract interpretation of the code emitters over operand kinds; decoding and comparison of the emitted templates", "Emitted byte templates are decoded with the LLVM disassembler and their meaning is compared with the operation's definition on boundary values; calls, prologues and inline assembly are outside.")
prop("C45", "Calls, parameters and varargs follow the x86-64 System V convention",
     "For every argument list, the code emitted for a call puts each argument in the general register, floating-point register or stack slot that the System V x86-64 convention assigns to its type (scalars, long double, structs, unions, arrays in them, packed and over-aligned structs), with the stack 16-byte aligned at the call, al bounding the floating-point registers when the callee may be variadic, no argument or live value overwritten on the way, and the stack pointer restored afterwards; function entry binds each parameter to the place the convention put it (and keeps the address of a result returned in memory), the entry and exit code reserves all the locals and restores the caller's frame; va_start and va_arg hand out the variable arguments from where they were passed; and the registers or memory a result type is returned in are the convention's.",
     ["inputs"], "for every argument list, parameter list and result type",
     "Compiled code is linked with libraries built by other compilers; a wrong register shows only for particular type sequences - the seventh integer, the ninth double, an odd stack slot before a long double, a struct that no longer fits - which tests sample thinly, and code that calls itself consistently wrong still passes.",
     ["lib/tinycc/x86_64-gen.c", "lib/tinycc/tccgen.c", "lib/tinycc/lib/va_list.c"], ["gfunc_call", "gfunc_prolog", "gfunc_epilog", "classify_x86_64_arg", "gfunc_sret", "__va_arg"],
     "abstract interpretation of the call emitters over type sequences; decoding and comparison of the emitted code with the convention", "Argument lists are enumerated around the points where registers run out. Structs of two eightbytes with different classes are a recorded finding.")
prop("C46", "Symbols resolve by the ELF linker's rules",
     "When objects, libraries and archives are combined, a strong definition wins over a weak one, a definition over a common symbol or an undefined reference, the first of several weak ones stays, two strong definitions are an error, and the strictest visibility counts; a strong undefined reference that nothing defines is an error and a weak one is zero; a defined symbol's final value is its section's address plus its offset, added once, and absolute symbols keep theirs; a common symbol gets space of its size and alignment in bss; looking up a name yields that very symbol's entry, and only a defined symbol's value; an archive member is loaded exactly when it defines a symbol still undefined, until no member does; a function or datum of a shared library referenced by an executable gets a dynamic function symbol or a copy relocation; and the sections, symbols and relocations of a loaded object are appended, aligned and moved together, while a file that is not an x86-64 object is refused.",
     ["inputs", "histories"], "for every sequence of objects, archives and libraries and every binding, visibility and section of the symbols in them",
     "Tests link objects made by the same compiler, with few symbols of default visibility and hardly a weak, common or archived one; the order and combination in which definitions meet decides.",
     ["lib/tinycc/tccelf.c"], ["set_elf_sym", "relocate_syms", "resolve_common_syms", "find_elf_sym", "rebuild_hash", "tcc_load_alacarte", "bind_exe_dynsyms", "tcc_load_object_file"],
     "abstract interpretation of the resolution functions over classes of symbols, compared with the ELF rules", "Which of two common symbols of different size is kept, and duplicate hidden definitions, are not decided.")
prop("C47", "Statements and expressions run in the order C prescribes",
     "For every combination of statements (if, while, do, for, switch with cases, ranges and default, break, continue, goto, labels, return) and operators (precedence and grouping, &&, ||, ?:, comma, assignment and compound assignment, ++ and --, statement expressions), with any conditions, constant or not, the emitted code evaluates the same calls in the same order, the same number of times, with the same resulting values and stored variables, as C prescribes; code that cannot be reached has no effect and a label in it works; a switch reaches the case whose value, converted to the promoted type of the operand, equals the operand, or default, or neither; cleanup functions run once for each variable whose scope is left, innermost first; and the stack space of variable-length arrays is released on each way out of their scope.",
     ["inputs"], "for every statement and expression and every value of its operands",
     "The tests run some dozens of nested statements; a jump patched to a wrong place or a value not saved shows only for particular nestings, constant conditions or operand values.",
     ["lib/tinycc/tccgen.c"], ["block", "lblock", "gvtst", "expr_landor", "expr_cond", "expr_infix", "gcase", "try_call_cleanup_goto", "vla_leave"],
     "abstract interpretation of the parser over schematic programs; comparison of the emitted flow graph with the meaning of the program", "The code generator is represented by its contract, which C44 decides; nestings are enumerated to depth three, evaluations to a depth of six.")
prop("C48", "Declarations build the types, sizes and layouts of C and the System V ABI",
     "Every declaration gives each declared name the type C prescribes: type specifiers in any order, qualifiers, typedefs, pointers, arrays, functions and redundant parentheses in any nesting, parameters adjusted from arrays and functions, prototypes with and without an ellipsis or parameters, several declarators sharing one set of specifiers, and enumerations with their values and underlying type. Every struct and union gets the size, alignment, member offsets and bit positions of the System V ABI as gcc lays them out, for any sequence of ordinary members and of named, unnamed and zero-width bit-fields narrower than their type, and with the packed attribute, with alignment attributes not below the natural alignment, or with #pragma pack, these two not combined with #pragma pack. Each bit-field is accessed by bytes that contain all of it and none outside the structure.",
     ["inputs"], "for every sequence of specifiers, declarators and members",
     "The tests compare a few dozen structs; a layout is wrong only for certain sequences of widths and alignments, and only shows when the data is exchanged with code compiled elsewhere.",
     ["lib/tinycc/tccgen.c"], ["parse_btype", "type_decl", "post_type", "struct_decl", "struct_layout", "type_size", "decl"],
     "abstract interpretation of the declaration parser over schematic declarations; comparison of the type built with the meaning of the declaration", "Declarators are enumerated to three derivations, member sequences to length three at every alignment of the first.")
prop("C41", "No address inside a growable buffer is used after the buffer moved",
     "Sections, symbol tables, relocation tables, token and character strings, dynamic arrays and the other blocks of the compiler, linker and front end that grow by reallocation may move whenever something is added to them. On every path, an address taken inside such a block (a pointer to a symbol, a relocation, a symbol's attributes, a string, an array element) is not read, written or passed on after a call, however indirect, that may have reallocated or freed that same block, unless the address was computed anew; and no block is used or freed again once it has been freed.",
     ["inputs", "histories"], "for every size the blocks have reached when something is added to them",
     "A block moves only when it is full at that very moment and the allocator cannot extend it in place; tests reach a handful of these moments, and stale memory usually still holds the old contents.",
     ["lib/tinycc/tccelf.c", "lib/tinycc/tccpp.c", "lib/tinycc/tccgen.c", "lib/tinycc/tccdbg.c", "src/file.c"],
     ["section_realloc", "section_ptr_add", "put_elf_sym", "get_sym_attr", "cstr_realloc", "tok_str_realloc", "dynarray_add"],
     "interprocedural dataflow of derived addresses against inferred may-move effects on access paths", "Aliasing between different access paths is not assumed; addresses kept in memory between calls are not followed.")
prop("C40", "Parsing modes, code suppression and scope level are restored",
     "While it compiles, tcc keeps global modes: which tokens are converted (parse_flags), whether code is emitted and whether only constants are acceptable (nocode_wanted), the scope level, and the modes in which global expressions and #if expressions are read. Every construct that switches such a mode for its own operands - sizeof, typeof, _Generic, unselected branches of ?: and && and ||, statement expressions, constant expressions, array bounds, static initializers, #if, defined, computed includes, assembler directives - leaves it, on every path that continues the compilation, exactly as it found it; no loop shifts it a little further each time.",
     ["inputs", "histories"], "for every order and nesting of constructs in a source",
     "A mode that is not restored shows up only in what is compiled after the construct that lost it, on one path through it: code silently dropped, tokens read in the wrong form, variables resolved in the wrong scope.",
     ["lib/tinycc/tccgen.c", "lib/tinycc/tccpp.c", "lib/tinycc/tccasm.c"],
     ["expr_landor", "expr_cond", "expr_const1", "parse_include", "expr_preprocess", "asm_parse_directive", "prev_scope", "decl_initializer_alloc"],
     "interprocedural typestate analysis: the value of each mode relative to function entry, with inferred per-function effects", "Modes kept as pointers (current scope, current switch) are decided by C47 instead; functions that start a compilation may set modes absolutely.")
prop("C35", "An error that was reported makes the operation fail",
     "The compiler and linker print many errors and go on, to report more: symbols defined twice, undefined symbols, missing files, relocations that cannot be done, damaged archives and objects, errors in a source. Whatever such an error is and however deep it is reported - in a member of an archive, in a file named by a linker script, while the runtime is added, after the layout was done - the operation of the programming interface during which it was printed (adding a file or library or symbol, choosing the output type, compiling, relocating, running, writing the output) answers with a failure, for every kind of output, and the front end looks at that answer.",
     ["inputs", "fault_sequences"], "for every input file, library, option and order in which errors occur",
     "Each error has its own route from the report to the exit status, through counters and results that every function on the way must pass on; a test would need one input for every report, every kind of output and every caller.",
     ["lib/tinycc/libtcc.c", "lib/tinycc/tccelf.c", "lib/tinycc/tccrun.c", "src/cjit.c"],
     ["_tcc_error_noabort", "tcc_compile", "tcc_add_file_internal", "tcc_load_object_file", "ld_add_file_list", "elf_output_file", "tcc_output_elf", "tcc_relocate_ex", "tcc_set_output_type", "cjit_setup"],
     "interprocedural typestate analysis (error reported / not) with value ranges of results, specialised by kind of output and constant arguments", "Warnings are not errors. Unknown options in CFLAGS are tolerated by design.")
prop("C51", "An instruction the assembler accepts is emitted as that instruction",
     "Whatever x86-64 instruction, known to the assembler and valid, is written in an assembly file or in inline assembly - any mnemonic with or without size suffix, any mix of registers (with and without REX, high byte registers, MMX, SSE, x87, control, debug, segment), immediates of every range, memory operands of every addressing form (base, index and scale, 8 and 32 bit displacements, %rip relative with and without symbol, 32 bit addresses, segment overrides), symbols, and near or far branch targets - it is either refused with an error or emitted as bytes and relocations that mean that instruction with those operands; an operand is never dropped silently.",
     ["inputs"], "for every mnemonic in the table, every operand form a row of the table accepts, every class of register and immediate and every addressing mode",
     "There are 340 rows combined with ten kinds of operand, four sizes and prefixes added on the way; each row meets its own combination of rules in the encoder, and a wrong byte is still an instruction, of another meaning. The tests assemble a few dozen instructions.",
     ["lib/tinycc/i386-asm.c", "lib/tinycc/x86_64-asm.h", "lib/tinycc/i386-tok.h"],
     ["asm_opcode", "parse_operand", "asm_modrm", "asm_rex", "asm_instrs", "gen_disp32", "gen_expr32"],
     "evaluation of the encoder's IR over the instruction table and operand classes (partial evaluation), compared with a reference encoding", "Instructions LLVM's assembler does not know are not compared. The expression parser is assumed; constants in operands are C47's and C44's subject.")
prop("C52", "Atomic operations are indivisible and do what their names say",
     "Whatever the interleaving of threads, every atomic operation a program can write - the __atomic_ builtins on objects of 1, 2, 4 or 8 bytes, whether integers, pointers, floating or small structures where the operation admits them, and the macros of <stdatomic.h> - takes effect as one access of exactly the object's bytes: a load returns a value the object had, a store or exchange writes the operand's own representation, a read-modify-write replaces the value it read by the value its name says with no other write in between and yields the old or new value its name says, compare-and-exchange writes only if the object equals the expected value and otherwise hands back the value found. Results reach the place or expression they belong to, with C's type and sign. Operands are evaluated once and are never captured by names inside the macros; objects an operation cannot handle are refused at compile time.",
     ["schedules", "inputs"], "for every interleaving of other threads' writes with the operation, every builtin and macro, every object size and kind, and every form of the operands",
     "A lost update needs another thread to write between two particular instructions; a pointer operand is lost only when it was in a register; a macro captures only the variable that happens to have its local's name. The tests run a few operations from few threads.",
     ["lib/tinycc/lib/stdatomic.c", "lib/tinycc/tccgen.c", "lib/tinycc/include/stdatomic.h", "lib/tinycc/lib/atomic.S"],
     ["ATOMIC_GEN_OP", "ATOMIC_COMPARE_EXCHANGE", "parse_atomic", "atomic_compare_exchange_strong_explicit", "__atomic_test_and_set"],
     "effect traces of the run-time functions under arbitrary interference, evaluation of the builtin parser over the IR, expansion analysis of the header's macros", "Ordinary assignments to _Atomic objects are not covered (the compiler treats them as volatile). Only x86-64.")
prop("C53", "Source text becomes the tokens, and constants the values, that C defines",
     "Whatever the source text and however it arrives from read(), the preprocessor's tokens are those of C's translation phases 2 and 3: backslash-newline pairs (also with a carriage return) vanish anywhere, even inside an operator, name, number, literal or comment; comments count as a blank; the longest possible operator, name, preprocessing number, string or character literal is taken, with its exact spelling; two names are the same token exactly when they are spelled the same; a # begins a directive only at the start of a line; line numbers count every newline, in comments and joined lines too; an unterminated comment or literal is an error. Each constant has the type and value C gives it: integers of any radix and suffix get the first type that holds them, hexadecimal and binary floating constants the nearest value of their type however many digits they have, decimal ones exactly what strtof, strtod or strtold makes of their digits; escapes, universal character names and UTF-8 in wide literals give the right elements; and a spelling that is not a constant is refused. No buffer is overrun, however long the number or string.",
     ["inputs"], "for every placement of joined lines and of the ends of read() within operators, names, numbers, literals and comments, every radix, suffix and magnitude of a constant, and every escape",
     "The tests hold ordinary programs whose tokens seldom straddle the end of a buffer or a joined line; the type of a constant at the edge of a range, the 17th digit of a hexadecimal floating constant, or a comment whose closing star is the buffer's last byte never occur there.",
     ["lib/tinycc/tccpp.c"],
     ["next_nomacro", "handle_stray_noerror", "parse_comment", "parse_pp_string", "parse_number", "parse_escape_string", "parse_string", "tok_alloc"],
     "evaluation of the lexer's functions over the IR, byte by byte through a model of read(), against an independent definition of the phases and of constants", "Trigraphs, digraphs and the prefixes u8, u, U are not supported by the compiler and not covered. Multi-character constants beyond ASCII and out-of-range escapes are implementation-defined.")
prop("C54", "Directives and macros do to the text exactly what C prescribes",
     "Whatever macros a text defines and uses and however its directives are nested, the tokens the preprocessor hands on are those of C's translation phase 4: object-like and function-like macros, arguments over several lines, empty and variable arguments (also the GNU forms a... and , ## __VA_ARGS__), # and ## with the spelling and spacing C gives them, rescanning with no name replaced inside its own expansion, #undef and redefinition, push_macro and pop_macro; exactly the groups whose conditions hold are kept, and nothing in the others matters but the nesting; #if expressions are computed in intmax_t and uintmax_t with C's precedence, short circuits, defined and macro expansion; #line (also from a macro), line markers, __LINE__, __FILE__ and __COUNTER__ give C's values. Where C requires a diagnostic for a directive, an expression or a macro's arguments, the text is refused. This holds wherever read() splits the text.",
     ["inputs", "histories"], "for every set of macros, every use of them, every nesting of conditions, and every expression",
     "The tests hold a few dozen preprocessor programs; a macro whose call is completed only by the rescan, an operand at the edge of 64 bits in #if, a skipped group with an odd quote, or the second pop of a pushed macro are not among them.",
     ["lib/tinycc/tccpp.c", "lib/tinycc/tccgen.c"],
     ["preprocess", "expr_preprocess", "parse_define", "macro_subst", "macro_subst_tok", "macro_arg_subst", "macro_twosharps", "next_argstream", "preprocess_skip", "pragma_parse", "next"],
     "evaluation of next() over the IR, token by token, from the state tccpp_new and tccgen_init leave, on enumerated and systematically generated texts, against clang's preprocessor's reading of the same texts", "#include, __has_include, _Pragma, __VA_OPT__ and the predefined macros are not covered. Texts whose meaning C leaves undefined (an invalid token formed by ##) or unspecified are not judged.")
PENDING = []


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from checks import REGISTRY
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=p["files"][0]) for n in p["mech"]],
                     observe_at=p["observe"] or [], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        assert p["id"] in REGISTRY, p["id"]
        checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                           technique=p["technique"], level="other", level_note=BASE_NOTE + p["note"]))
    for k in REGISTRY:
        if not any(p["id"] == k for p in P):
            print("no property for check", k)
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
