#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=list(observe), hook_needed=hook)))

p("C01", "Native executables perform each OS call once and report its true result",
  "In an executable produced by pnut-exe (i386 Linux, x86-64 Linux, x86-64 macOS), every call the C program makes to read, write, open, close, lseek or unlink causes exactly one operating-system request of that kind with exactly the arguments given, in program order, and no other request. "
  "The value the program gets back is the one the system answered for that request: the full count, a short count, 0 at end of file, an offset, a descriptor number of any size, or a negative value on failure, and data transferred lands in or comes from exactly the bytes of the caller's buffer.",
  ["programs", "fault_sequences", "histories"],
  "every program, every sequence of these calls, every answer (including errors, short transfers and large descriptor numbers) the system may give at any of them, on each of the three native targets",
  "The tests open one readable file and read it to the end on a quiet machine: no test sees a short write, a failing call, an interrupted call, a large descriptor or offset, and the macOS target is never executed.",
  ["exe.c", "x86.c", "elf.c", "mach-o.c"],
  [("read/write/open/close/lseek/unlink stubs", "exe.c codegen_end"), ("syscall sequences per OS/ABI", "x86.c os_read, os_write, os_open, os_close, os_seek, os_unlink")],
  observe=["the sequence of system calls with arguments and results", "values the program receives"])

p("C02", "Native character I/O delivers every byte once, in order, and -1 at the end",
  "In an executable produced by pnut-exe, getchar and fgetc return the bytes the system delivers on that stream one by one, in order, none lost, repeated or altered (each as a value 0 to 255), and return -1 whenever the system reports end of file or a failed read; putchar delivers exactly the given byte to standard output, in program order with write. "
  "fopen returns NULL exactly when the system refuses to open the file, streams opened at the same time never disturb each other, and fclose closes the stream's descriptor.",
  ["programs", "inputs", "fault_sequences"],
  "every input content (all 256 byte values, any length, empty), every interleaving of streams, every point at which a read, open or write fails, on the three native targets",
  "Tests read short ASCII files that never fail; no test makes a read or open fail after some bytes, reads bytes 0 or 128-255 on every target, or interleaves streams with faults.",
  ["exe.c", "x86.c"],
  [("rt_fgetc, rt_putchar, rt_fopen", "exe.c"), ("getchar/fgetc/fopen/fclose entry points", "exe.c codegen_end")],
  observe=["values returned to the program", "bytes written to descriptors"])

p("C03", "Native heap blocks are disjoint, stable, and exhaustion is reported",
  "In an executable produced by pnut-exe, every successful malloc returns a block of the requested size that overlaps no other block, global, or stack object, lies in memory the program may use, and keeps its contents until the program changes them, whatever addresses the system placed the heap, globals and stack at and whatever free calls happen. "
  "A request that does not fit in the heap ends the program with the message \"Heap overflow\" and a non-zero exit status; a request that fits succeeds; global and static variables start as zero (or their initializer).",
  ["programs", "histories", "configurations"],
  "every history of malloc/free calls with any sizes up to and across the heap limit, every placement of the program's memory by the system, on the three native targets",
  "Tests allocate a few small blocks at the one address range this kernel picks; none approaches the heap limit, and none varies where the memory is placed.",
  ["exe.c", "x86.c", "elf.c", "mach-o.c"],
  [("bump allocator with limit check", "exe.c rt_malloc"), ("heap and globals mapping at start-up", "exe.c codegen_end, x86.c os_allocate_memory")],
  state=[("bump pointer", "next free heap address, kept in the globals table", "exe.c rt_malloc, reg_glo + WORD_SIZE")],
  observe=["addresses returned by malloc", "memory contents", "exit status and message"])

p("C04", "Native programs see their arguments exactly and exit with their status",
  "An executable produced by pnut-exe starts main with argc equal to the number of arguments and argv[0..argc-1] pointing to exactly the argument strings the system passed (any bytes, any number, empty ones included), with argv[argc] NULL, for any environment variables and initial memory placement. "
  "The process ends exactly once, with main's return value (0 for a void main) or the value given to exit (from any depth of calls) as its exit status modulo 256, and no output written before that is lost.",
  ["inputs", "configurations", "programs"],
  "every argument vector, environment and initial process image, every point of return or exit, on the three native targets",
  "The suite runs programs with few plain arguments on the host kernel only; it never varies argument count and content, environment, initial stack alignment or contents.",
  ["exe.c", "x86.c", "elf.c", "mach-o.c"],
  [("setup_proc_args and call of main", "exe.c codegen_end, x86.c setup_proc_args"), ("exit path", "exe.c exit_lbl, x86.c os_exit")],
  observe=["argc/argv as seen by the program", "exit status", "output"])

p("C05", "Shell scripts read exactly the bytes of their input, however it arrives",
  "In a script produced by pnut-sh, under every supported shell (dash, bash, ksh, mksh, yash, zsh), getchar, fgetc and read return exactly the bytes of standard input or of the file, in order, none lost, repeated or changed, then end of file as long as it is asked for. "
  "This holds for any line length, any bytes 1 to 127 (backslashes, blanks, quotes, glob and control characters included), a last line with or without newline, and any way the system splits the data between reads.",
  ["inputs", "schedules", "configurations"],
  "every input of bytes 1-127 (leading/trailing blanks, backslashes, empty lines, lines longer than the internal buffers), every splitting of it into reads, stdin being a file or a pipe, all six shells and the supported runtime options",
  "The tests feed a few fixed short text files in one piece; they do not vary chunking, cover long lines at the buffer-growth boundaries, or all byte values on all shells.",
  ["sh-runtime.c", "sh.c"],
  [("getchar and its line buffer", "sh-runtime.c runtime_getchar"), ("read_byte/refill_buffer/unpack_line", "sh-runtime.c runtime_read_byte"), ("character decoding", "sh-runtime.c runtime_char_to_int")],
  state=[("per-descriptor line buffer, cursor and length", "unread part of the current line", "sh-runtime.c __buffer_fdN, __cursor_fdN, __buflen_fdN")],
  observe=["values returned to the program"])

p("C06", "Shell scripts write exactly the bytes the program outputs, in order",
  "In a script produced by pnut-sh, under every supported shell, the bytes that reach standard output (or the file a descriptor was opened on) through putchar, write, putstr and printf with a literal format of the supported conversions are exactly those C prescribes, in program order. "
  "This holds for every byte value 0 to 255, any string content (percent signs, backslashes, quotes, dollars, leading dashes), and however the system accepts the bytes.",
  ["inputs", "programs", "schedules"],
  "every sequence of output calls with any characters, strings and integers, split in any way by the system, all six shells",
  "Golden tests print a handful of mostly alphanumeric strings; byte values, quoting hazards and conversions are sampled, and output is always accepted in one piece.",
  ["sh-runtime.c", "sh.c"],
  [("putchar/put_pstr/printf/write runtime", "sh-runtime.c"), ("string escaping and printf specialisation", "sh.c print_escaped_char, handle_printf_call, comp_putchar_inline"), ("string literals", "sh-runtime.c runtime_defstr, unpack_escaped_string")],
  observe=["bytes written to stdout and files"])

p("C07", "Shell scripts keep open files independent of each other",
  "In a script produced by pnut-sh, under every supported shell, open returns the lowest free descriptor, each open descriptor has its own read position and unread data, and opening, reading, writing or closing one never changes what another delivers or receives. "
  "A descriptor that is closed and reopened starts fresh on the new file, a file opened for writing starts empty, one opened for appending keeps its old content, and asking for more descriptors than are supported ends the script with an error rather than reusing one.",
  ["histories", "programs"],
  "every history of open/fopen/read/fgetc/write/close/fclose over any files and descriptors, with any splitting of reads, all six shells",
  "Tests open one or a few files in one fixed order; they do not interleave several partially read descriptors with closes and reopens.",
  ["sh-runtime.c"],
  [("descriptor table", "sh-runtime.c runtime_open __state_fdN"), ("close and buffer release", "sh-runtime.c runtime_close, runtime_fclose")],
  state=[("descriptor table", "free/used marker per descriptor 0-9", "sh-runtime.c __state_fdN")],
  observe=["descriptor numbers", "bytes delivered", "final file contents"])

p("C08", "Shell scripts' memory: blocks, arrays and strings never interfere",
  "In a script produced by pnut-sh, under every supported shell, blocks obtained from malloc, global arrays, string literals and argv strings occupy disjoint memory, keep the values stored in them until overwritten, and free affects no block but the one given, for any history of allocations, frees, reads and writes. "
  "Global arrays start with their initializer values followed by zeros.",
  ["histories", "programs", "configurations"],
  "every history of malloc/free/access, every mix of arrays, strings and heap blocks, under each supported runtime configuration and shell",
  "The tests allocate few blocks in fixed orders and mostly never reuse memory after a free; one configuration only is run.",
  ["sh-runtime.c", "sh.c"],
  [("malloc/free", "sh-runtime.c runtime_malloc, runtime_free"), ("defarr/initialize", "sh-runtime.c"), ("defstr", "sh-runtime.c runtime_defstr")],
  state=[("heap cells", "one shell variable _N per cell, block size in _N-1", "sh-runtime.c __ALLOC")],
  observe=["values read back by the program"])

p("C09", "Shell scripts do not depend on the caller's environment",
  "A script produced by pnut-sh behaves the same under a given shell whatever variables (IFS, LC_ALL, PS4, names the program or its runtime use), working-directory contents and open descriptors it inherits, and never executes or expands its input, arguments, file names or strings. "
  "Its arguments reach main exactly: argc counts them and argv holds their exact bytes 1 to 127, including empty arguments, blanks, quotes, globs, leading dashes and newlines; the script's exit status is main's return value or exit's argument modulo 256.",
  ["configurations", "inputs"],
  "every environment, argument vector, working directory and input content over bytes 1-127, all six shells",
  "The suite runs scripts with its own clean environment and plain arguments only.",
  ["sh-runtime.c", "sh.c"],
  [("prologue set -e -u -f, LC_ALL=C", "sh.c prologue"), ("make_argv", "sh-runtime.c runtime_make_argv"), ("initialisation of locals to 0", "sh.c initialize_function_variables"), ("IFS handling", "sh-runtime.c runtime_getchar, refill_buffer"), ("exit", "sh-runtime.c runtime_exit")],
  observe=["output", "exit status", "processes started"])

p("C10", "Shell scripts stop with an error when the system fails them",
  "When, at any point of a script produced by pnut-sh, an operating-system request behind open, fopen or an output call fails (missing file, permission, no descriptors, full disk, I/O error), the script ends promptly with a non-zero exit status under every supported shell. "
  "It never carries on as if the operation had succeeded: everything it wrote to each output before that point is a prefix of what the fault-free run writes there, and nothing is written after it.",
  ["fault_sequences", "programs"],
  "every position of a failing open or write in every program's execution, every error kind, all six shells",
  "No test makes an open or write fail.",
  ["sh-runtime.c", "sh.c"],
  [("set -e in force through the whole script", "sh.c prologue"), ("calls kept out of contexts where set -e is suspended", "sh.c comp_fun_call, with_prefixed_side_effects"), ("exec redirections for open", "sh-runtime.c runtime_open")],
  observe=["exit status", "bytes written before the end"])

p("C11", "The compiler never reports success with incomplete output",
  "If pnut exits with status 0, every byte of the program it generated has been accepted by the operating system on the output it was asked to use (standard output, or the -o file, which holds exactly the generated program and nothing else). "
  "When the output cannot be opened, or any write to it fails or stays incomplete (full disk, I/O error, short write that cannot be completed), pnut exits with a non-zero status.",
  ["fault_sequences", "crash_points"],
  "every failing, short or interrupted output request at every position of the output, for every backend, both for the native compiler build and for pnut compiled by itself",
  "No test makes an output request fail or accept fewer bytes than asked.",
  ["pnut.c", "exe.c", "sh.c", "elf.c", "mach-o.c"],
  [("-o handling", "pnut.c main"), ("byte output", "exe.c write_i8"), ("script output", "pnut.c putstr/putchar uses")],
  observe=["exit status", "bytes the OS accepted"])

p("C12", "The compiler never reports success after losing part of its input",
  "If pnut exits with status 0, its output is the translation of the complete source: the full content of the named file and of every file it includes, however the operating system delivers it (short reads, interrupted reads, any chunk boundaries). "
  "If a source or include file is missing, unreadable, a directory, or a read of it fails at any position, pnut reports an error and exits with a non-zero status.",
  ["fault_sequences", "schedules", "inputs"],
  "every split of every source and include file into reads and every failing open or read at every position and include depth, for all backends, both native and self-compiled pnut",
  "Tests compile complete readable files only; missing files and failing or short reads never occur.",
  ["pnut.c"],
  [("include_file/fopen_source_file", "pnut.c"), ("get_ch end-of-file handling and include stack", "pnut.c")],
  state=[("include stack", "files being read, innermost first", "pnut.c include_stack")],
  observe=["exit status", "output bytes"])

p("C13", "Compiler output depends only on the source, options and target",
  "For the same source text, options and path spelling, every run of pnut produces byte-identical output and the same exit status, whatever the environment variables, working conditions (address-space layout, previous contents of allocated memory, inherited descriptors, pipe or file output, chunking of reads and writes) and whether it compiles valid or invalid programs. "
  "No output byte depends on uninitialised or out-of-bounds memory.",
  ["configurations", "schedules", "inputs"],
  "every execution environment and I/O schedule, every source program, all backends",
  "Each test compiles once, in one environment, and compares behaviour rather than output bytes.",
  ["pnut.c", "exe.c", "sh.c", "x86.c", "env.c"],
  [("static tables and explicit initialisation", "pnut.c init_ident_table, heap"), ("code buffer and labels", "exe.c")],
  observe=["output bytes", "exit status"])

p("C14", "pnut compiled by pnut behaves as pnut compiled by the host compiler",
  "For every source program, valid or not, the compiler produced by compiling pnut with pnut-exe (any native target) or pnut-sh accepts exactly the programs the compiler built by the host C compiler accepts and generates the same bytes for them, under the same input files and delivery of them. "
  "In particular the self-compiled compiler reproduces itself exactly, for every host and target combination.",
  ["programs", "configurations", "fault_sequences"],
  "every source program and I/O schedule, each host (i386 Linux, x86-64 Linux, x86-64 macOS executables, shell scripts) crossed with each target backend",
  "The bootstrap tests compare outputs for pnut's own source on two hosts; other programs, failing compilations and the macOS host are not compared.",
  ["pnut.c", "exe.c", "x86.c", "sh.c", "sh-runtime.c", "elf.c", "mach-o.c"],
  [("PNUT_CC-conditional definitions", "pnut.c"), ("both code generators", "exe.c, sh.c")],
  observe=["output bytes", "exit status"])

p("C15", "Splitting a source over included files does not change the program",
  "Replacing any stretch of whole lines of a program by an #include of a file holding those lines, at any nesting depth, from any directory (paths relative to the including file), repeatedly or under include guards, does not change the code pnut generates. "
  "Files named in inactive conditional branches are never opened, reading resumes exactly after the include line, and every opened file is closed.",
  ["inputs", "schedules", "programs"],
  "every way to cut a source into nested include files and directories, with or without final newlines, and every chunking of their reads, all backends",
  "The tests contain a few hand-written includes of depth one or two.",
  ["pnut.c"],
  [("include stack push/pop", "pnut.c include_file, get_ch"), ("relative path resolution", "pnut.c fopen_source_file"), ("conditional inclusion", "pnut.c handle_preprocessor_directive")],
  observe=["output bytes", "files opened and closed"])

p("C16", "Exhausted capacity or memory is reported, never miscompiled",
  "When a program exceeds what the compiler can hold (heap, strings, code, text, labels, nesting), or the operating system refuses it memory, pnut ends with an error message or signal and a non-zero status; whenever it exits with 0 the output is the complete, correct translation. "
  "It never reads or writes outside its own tables.",
  ["inputs", "fault_sequences", "configurations"],
  "every program size in every dimension up to and across each internal limit, and every failing allocation",
  "Tests are small programs; none comes near an internal limit and allocation never fails.",
  ["pnut.c", "exe.c", "sh.c", "env.c"],
  [("capacity checks", "pnut.c new_ast*, begin_string; exe.c emit_i8, alloc_label; sh.c wrap_*, append_glo_decl; env.c")],
  state=[("fixed-size tables", "AST heap, string pool, code, text pool, declarations", "pnut.c heap/string_pool, exe.c code, sh.c text_pool/glo_decls")],
  observe=["exit status", "memory errors", "behaviour of the output program"])

p("C17", "Native programs behave as C prescribes, in any environment",
  "For every well-defined C program within the subset pnut-exe accepts, the produced executable (i386 Linux, x86-64 Linux, x86-64 macOS) reads, writes and exits exactly as the C abstract machine prescribes for the same inputs and the same answers of the operating system. "
  "This covers expressions and side effects, pointers, arrays, structs and unions, control flow (loops, switch, goto, break, continue), recursion, globals, statics and initializers, and the preprocessor.",
  ["programs", "inputs", "fault_sequences"],
  "every well-defined program in the supported subset, every input, every answer of the operating system, on the three native targets",
  "The tests are some hundred fixed programs with fixed inputs; combinations of features are not explored and the macOS target is never run.",
  ["exe.c", "x86.c", "pnut.c", "env.c", "elf.c", "mach-o.c"],
  [("expression and statement code generation", "exe.c codegen_rvalue, codegen_lvalue, codegen_statement"), ("instruction encoding", "x86.c"), ("stack-frame bookkeeping", "exe.c cgc_fs, grow_stack")],
  observe=["history of reads, writes and exit"])

p("C18", "Shell scripts behave as C prescribes, in any environment",
  "For every well-defined C program within the subset pnut-sh accepts, the produced script, under every supported shell and in every supported compiler configuration, reads, writes and exits exactly as the C abstract machine prescribes for the same inputs and the same answers of the operating system. "
  "This covers expressions and side effects, pointers, arrays and structs by reference, control flow, function calls with recursion (locals, parameters and temporaries survive nested calls), globals and initializers.",
  ["programs", "inputs", "schedules"],
  "every well-defined program in the supported subset, every input and splitting of it, all six shells and the supported options",
  "The tests are some hundred fixed programs; combinations of features, deep recursion through expressions, and options are sampled thinly.",
  ["sh.c", "sh-runtime.c", "pnut.c", "env.c"],
  [("side-effect hoisting", "sh.c handle_side_effects_go"), ("local variable save/restore", "sh.c save_local_vars, restore_local_vars"), ("control-flow translation", "sh.c comp_if, comp_loop, comp_switch, comp_return")],
  observe=["history of reads, writes and exit"])

p("N01", "Macro expansion and conditional inclusion follow C",
  "Object-like and function-like macros, stringizing, pasting, and #if expressions give the token sequence the C standard prescribes.",
  ["programs"], "every macro definition and use in the supported subset",
  "Tests sample a few macros.", ["pnut.c"], [("macro expansion", "pnut.c get_tok_macro, macro_stack"), ("#if evaluation", "pnut.c eval_constant")])
p("N02", "Unsupported or invalid C is rejected with a diagnostic",
  "A construct outside the supported subset is reported as an error with a non-zero status instead of being translated wrongly.",
  ["programs"], "every program outside the supported subset",
  "Tests check a fixed list of rejected constructs.", ["pnut.c", "sh.c", "exe.c"], [("fatal_error/syntax_error", "pnut.c")])
p("N03", "Executable file formats are accepted by every loader",
  "Every executable pnut-exe writes is a valid ELF or Mach-O image that every loader for its platform accepts and maps with the intended permissions.",
  ["programs", "configurations"], "every program and loader version",
  "Tests run on one Linux kernel only.", ["elf.c", "mach-o.c"], [("header writers", "elf.c, mach-o.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
