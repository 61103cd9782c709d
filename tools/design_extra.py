"""Hand-written parts of DESIGN.md that tools/design.py merges with the property table."""
EXTRA = {
 "N01": "Each emitter is interpreted once per register tuple with unknown immediates; the byte sequence (bytes are fields of the unknowns) is decoded by a table-driven decoder that knows nothing of x86.c, and must be one instruction with the operation and operands asked for. About 2 s.",
 "N03": "The operand sub-trees are contracts (`leaves the value of a in the result register, may clobber every other register, preserves the stack`). The emitted machine-code graph is executed on all paths over symbolic values and compared with the C operator on typed operands.",
 "N05": "Schemas are trees of statement constructors with opaque leaves that record that they ran and with which stack depth; the two flow graphs (emitted, reference) are walked as a product, so loops need no unrolling bound.",
 "N06": "Calls are decided for lists of parameter types; the callee's view (parameter reads) and the caller's (argument writes) are analysed separately against one layout. Start-up code and the runtime functions are executed path-complete from the entry point with unknown memory, unknown file descriptors and unknown results of the system calls.",
 "N09": "Label addresses and file offsets are kept as linear terms over an unknown code size: one analysis decides all sizes the encoding can hold. The Mach-O and ELF headers are parsed by an independent reader.",
 "S01": "The text is parsed as shell and evaluated over unknown variables; arithmetic inside `$(( ))` is parsed with the shell's own (C) precedence table, so missing parentheses show as a different term. Both sides are compared path by path including the trace of calls and stores.",
 "S02": "Function bodies are schemas of opaque conditions and statements; the shell text is executed with the POSIX semantics of compound commands, break/continue counts and return; paths are explored to a bound of loop passes that distinguishes every control transfer of the nesting.",
 "S03": "Functions of one program are compiled together; the evaluator runs the emitted functions with the shell's dynamic, global variables, and compares with C's lexical ones after every call.",
 "S08": "Whole files are compiled abstractly, runtime included, and the emitted script is evaluated in `lib/shtext.py`, a model of POSIX shell words, expansions, arithmetic, functions and `printf`, with one name space. Documented limits of the project that the property leaves out: members of different structures share names (distinct names are required) and must not be names of runtime variables (the script stops at once on a read-only variable).",
 "S11": "As S08, with a model of the files and of the standard input. Project conventions the property accepts: `puts` prints no newline of its own, `putchar` gives 0, opening a missing file for reading ends the program, `argv[argc]` is not set, a run-time format has no %l.",
 "C01": "`main` is interpreted on argument vectors in memory, tokenizer included; parser, code generator and system calls are recorders. The tokens that reach the parser are compared with those of a file with the same #defines in front. Every function without a normal exit is interpreted to its exit status; every function that calls write() is interpreted with a failing call.",
 "T01": "Tables and counters are discovered (a global that is moved in the function that subscripts with it, or compared with the table's size). For each pair the invariant `0 <= counter <= limit, multiple of the entry size` is chosen among the few that are inductive, and every access `table[counter + k]` must follow from it. A removed check, a wrong constant or an object written past its size is reported at the function that stores.",
 "L03": "Buckets of entries with unknown characters; one-entry buckets up to 80 (257) characters, because the comparison loop is the same code for every length.",
 "L01": "The character source is a sequence of character classes; get_tok is followed on all of them, values of digits are unknowns.",
 "M02": "The reference is an implementation of the standard's hide-set algorithm (`lib/cppref.py`); the schema identifiers are one letter and an unknown digit.",
 "P01": "Trees are enumerated to the depth at which two levels of the expression grammar interact (every operator as each operand of every operator), printed with only the parentheses C needs, and must come back.",
}
CAUGHT = {}
TAIL = """
## 6. False alarms met and removed

- Integer arithmetic in native code is done in machine words; an early version of N03 demanded 32-bit wrap-around on x86-64. Documented behaviour, so the property says "machine words".
- The value of an assignment to a narrow object is the assigned word in native code; the same.
- `continue` inside a switch case in shell code is rejected by design; S02 demands rejection, not support.
- S10 demanded evaluation of operands that C does not order; it now accepts every order.
- M02 compared white space inside stringised operands; only single identifiers/keywords are stringised by pnut.
- Refactorings tried against the checks (helper extracted, loops rewritten, switch turned into if chains, renamed locals, no-op statements, trailing comments) keep them quiet; where a check was anchored on a helper's name it was moved to a lower primitive.

## 7. Cost

The quick tier of each check takes 2 to 110 s on eight cores, the thorough tier up to ten minutes.
"""
