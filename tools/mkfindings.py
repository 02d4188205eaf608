#!/usr/bin/env python3
"""Writes known_findings.json: the findings that are recorded and the repairs made in /repo."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C06", "C06-trailing-newline", "a string printed with a width or precision, or by a runtime printf, loses its trailing newlines (the string goes through $(...); pinned by examples/compiled/c4.sh)"),
 ("C09", "C09-inherited-string-variable", "a nonzero __str_N in the environment replaces the string literal N (defstr tests the inherited variable; pinned by examples/compiled)"),
 ("C09", "C09-negative-status", "returning a negative status fails in dash and yash (exit -N; pinned by examples/compiled)"),
 ("C10", "C10-condition", "output that fails in a function called by the condition of a while or by a later operand of && and || is ignored (set -e is off there; pinned by examples/compiled)"),
 ("C11", "C11-self-compiled-sh", "pnut-sh compiled by pnut to native code ignores writes to stdout that fail (the runtime's putchar returns no error)"),
 ("C12", "C12-self-compiled-read-error", "pnut compiled by pnut to native code takes a read error in a source file for its end (the runtime's fgetc cannot tell them apart)"),
 ("C14", "C14-big-constant", "constant expressions beyond 32 bits (#if 65536 * 65536, enum { A = 0xffffffff }) are computed in the integers of the shell when a shell runs pnut"),
 ("C17", "C17-assignment-value", "the value of an assignment to a char or short is not converted to its type (pinned by tests/_exe/input-output/read-all-chars.c, which compares c = fgetc(f) to -1)"),
 ("C18", "C18-lvalue-index", "assignment to an array element whose index has a top operator that binds weaker than + (a[x & 1] = 5; pinned by examples/compiled/base64.sh)"),
 ("C18", "C18-value-sequence", "&&, || and ?: in a value context expand subscripts of the right operand before the left operand is evaluated (r = (x = 1) && a[x])"),
 ("C18", "C18-ksh-negative-zero", "under ksh93 -x is -0 when x is 0, which is not = 0 in tests and switches (pinned by examples/compiled/repl.sh)"),
]
X = """C17,C18 a125022 continue in a do-while loop skipped the condition
C17 6c8a336 && and || did not evaluate to 0 or 1 in native programs
C02 5728b02 getchar and fgetc returned garbage when read failed
C03 afe640c malloc of more than the space left returned a block beyond the heap
C01 fa2bcb8 failing system calls returned positive errors on macOS
C17 b97dfd8 the text segment of macOS programs did not cover all of the code
C17 e63841d variables declared in a switch body unbalanced the stack
C17 f2a7ff1 index[array] could not be assigned to
C17 09e50e1 calls through function pointers had no type
C17 36bad22 elements of multidimensional arrays had wrong addresses
C17 49f0b0f struct initializers ignored the offsets of members
C17 360217f pointers to arrays stepped by the wrong size
C17 5b59f8c operands narrower than int were not promoted
C17 947295e casts between signed and unsigned types did not convert
C18 105dbb8 octal literals differed between shells
C18 05c5174 negated negations became decrements in shell arithmetic
C08 c7f6297 global arrays were not initialized without RT_NO_INIT_GLOBALS
C18 fef4700 declarations other than struct definitions declared members
C18 2aed732 chained equality lost its parentheses
C18 a3c7dfe terms of addresses were not parenthesized
C18 182b3dd ~ and ! of integer literals were dropped
C06 0d2d8a5 printf calls after %s repeated the arguments of earlier ones
C06 332b939 printf("%%") without arguments printed both characters
C08 dc82b50 initializers of arrays declared after uninitialized ones were dropped
C18 8fe223f a default case that was not last hid the cases after it
C17 be2cf90 the type of a conditional expression ignored its second case
C05 01e4970 getchar of release shell programs returned characters that are not in the input
C05 33928e3 fgetc and read dropped the line buffer of getchar
C11 ef55f1b output files that could not be opened or written were not reported
C11 7602ead failed writes to stdout were not reported
C12 2fb20e7 errors reading source files were taken for their end
C11 6409b88 the self-compiled macOS compiler opened its output with the flags of Linux
C15 ef9ac57 an #include directive that ends a file lost its file
C15 ec8c60e blanks and comments after #include directives were errors
C13 aaee3de unsupported directives that are not identifiers read out of bounds
C16 fe7c2c3 long programs overflowed the buffer of SH_INCLUDE_C_CODE
C16 c617393 glo_decls overflowed in the shell backend
C16 af80202 SAFE_MODE overflowed the table of labels
C16 9c67845 sizes of arrays, structs and global variables overflowed
C17,C18 f6c4b3d && and || in #if conditions were not 0 or 1
C17,C18 c22b698 pasting a 0 after an integer dropped it
C18 deda117 calls in the right operand of && and || were dropped when a ternary followed them
C17 57985d8 the label of a goto was lost when the next token came from a macro
C18 c5f4aa5 an empty statement after a case label made pnut-sh loop
C06 38ce91d printf's length modifier l was passed to shells that reject it
C18 3d6b15f && and || in the arguments of nested calls were rejected
C17,C18 d639c93 get_op of the null node read the first bucket of the identifier table (a switch without a final break failed with some identifiers)
C17 536f5d6 differences of pointers to elements whose size is not a power of 2 were wrong when negative
C17 39d7574 addresses were compared as signed numbers
C17 1c98660 values of compound assignments, increments and calls were not converted to their type
C17 aede140 unsigned int arithmetic was done in 64 bits on 64-bit targets
C17 cf939bc negative enumeration constants were 0 on 64-bit targets
C17 7155926 sizeof of character constants, string literals and decayed arrays was wrong
C17 c4d3236 literals with the LL suffix had type int on 64-bit targets
C17,C14 5360229 decimal literals around 2147483648 had a wrong high word, and 64-bit literals differed when a shell ran pnut""".splitlines()
fixed = []
for l in X:
    p, c, w = l.split(" ", 2)
    fixed += ["fixed: property=%s %s %s" % (i, c, w) for i in p.split(",")]
json.dump({"findings": [{"property": p, "replay": "findings/%s.json" % f, "what": w} for p, f, w in F], "fixed": fixed},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
