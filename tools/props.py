NOTES = "All checks are static analyses of /repo's C sources (lib/frontend.py parses every build configuration, lib/absint.py is a disjunctive abstract interpreter); nothing of pnut is executed. No hooks in /repo."
COMMON = "Decides the statement for every value of the symbolic operands on the abstract semantics; trusts gcc -E, pycparser and the analyser in /verif/lib. "
PROPS = [
 dict(id="N01", module="native_encoding", title="Native machine instructions are encoded exactly",
  statement="Every machine instruction the native back ends put in an executable (register moves, arithmetic, loads, stores, shifts, divisions, jumps, calls, system calls, on 32- and 64-bit x86) is the byte encoding of the intended instruction with the intended registers, operand width, displacement and immediate, for every immediate and displacement value. A conditional jump tests the condition (signed or unsigned) that the compared operator calls for.",
  over=["inputs", "configurations"], quant="all encoder operands (registers enumerated, immediates and displacements symbolic) in the three x86 configurations",
  why="The example tests only exercise the immediates, displacements and register pairs that occur in the sample programs.",
  files=["x86.c", "exe.c"], mech="instruction emitters append bytes to the code buffer",
  tech="abstract interpretation of the emitters to symbolic byte strings + independent table-driven decoder",
  note=COMMON + "Register operands are enumerated; immediates/displacements are symbolic bit-vectors."),
 dict(id="N02", module="native_objects", title="Native code accesses exactly the designated object",
  statement="In native code a variable, parameter, global, dereference, array element or struct/union member (through . or ->, nested, anonymous, arrays inside) is read and written at exactly the address, width and signedness its C type gives it; names refer to their innermost binding; assignments (including whole structs) and initialisers of locals and globals write exactly the bytes of the object and zero what has no initialiser; casts convert to the range of the target type; sizeof is the C size; literals have their value and string literals their bytes.",
  over=["inputs", "programs", "configurations"], quant="all operand values, stack and global offsets, object types and shapes from a generating set, i386 and x86-64",
  why="Tests sample a few types at a few offsets; a wrong width, sign or offset needs the particular layout and value.",
  files=["exe.c", "x86.c"], mech="codegen_rvalue/codegen_lvalue/codegen_initializer/struct_member_offset and the load/store helpers",
  tech="abstract interpretation of the code generator per constructor with opaque operands; effects of the decoded machine code compared with a reference object model",
  note=COMMON + "Type shapes are a fixed generating set of scalars, arrays, nested/anonymous structs and unions; offsets and values are symbolic; 2-D array pointer arithmetic is outside the back end's subset."),
 dict(id="N03", module="native_ops", title="Native operators compute the C operator",
  statement="In native code every C operator (binary, comparison, compound assignment, ++/--, unary, &&, ||, ?:) evaluates each operand exactly once (conditionally where C says so) and yields the C result for every operand value: signed or unsigned division, remainder, right shift and comparison follow the usual arithmetic conversions of the operand types, pointer arithmetic is scaled by the element size, and logical operators and comparisons yield 0 or 1. Compound assignment and ++/-- update exactly the bytes of the assigned object and read it with its own width and signedness. (Integer arithmetic is done in machine words.)",
  over=["inputs", "programs", "configurations"], quant="all operand values and opaque operand expressions, for every operator and pair of operand types, i386 and x86-64",
  why="Tests sample a handful of operand values and type pairs; a wrong signedness or width only shows for particular values.",
  files=["exe.c", "x86.c"], mech="codegen_rvalue/codegen_binop emit machine code for operator nodes",
  tech="abstract interpretation of the code generator per constructor with opaque operands; product of the emitted machine-code flow graph with a reference graph of the C operator",
  note=COMMON + "Compositional: operands are contracts, so by structural induction all expressions are covered; pointers to arrays are excluded (unsupported by the back end)."),
 dict(id="N05", module="native_control", title="Native control flow follows C",
  statement="In native code if/else, while, for, do-while, switch with case/default and fallthrough, break, continue, goto, labels, return and nested blocks with declarations transfer control exactly as C says, in any nesting: conditions and statements are evaluated in the order and number of times C says, each local has its own slot while its block is live, and the run-time stack has the same depth on every path to a point. break, continue, case and default outside an enclosing loop or switch, duplicate labels and goto to an undefined label are rejected.",
  over=["inputs", "programs", "configurations"], quant="all conditions and opaque statements; a systematic set of nestings of the statement constructors plus pseudo-random trees of them, i386 and x86-64",
  why="A wrong jump target or stack adjustment only shows for particular nestings of break/continue/return/goto with locals in scope, which the examples do not enumerate.",
  files=["exe.c", "x86.c"], mech="codegen_statement, codegen_switch, goto labels and contexts (cgc_*)",
  tech="abstract interpretation of the statement code generator on statement schemas with opaque leaves; product of the emitted control-flow graph with a reference graph",
  note=COMMON + "Nestings are a bounded set of statement schemas (systematic pairs and seeded pseudo-random trees); conditions and leaf statements are opaque, so each schema covers every instance."),
 dict(id="S01", module="sh_exprs", title="Shell code computes the value of every C expression",
  statement="The shell code of a C expression, standing anywhere an expression may stand (return value, initializer, argument, stored value, condition of if/else if/while/do/for, switch operand, expression statement, for update), evaluates exactly what the C expression denotes: operators group as in C (precedence, associativity, parentheses, casts), every side effect (assignments, compound assignments, ++/--, calls) is performed as often as C says and before or after what C orders it against, && || ?: evaluate only the operands C evaluates, literals of every base have their value, and the variables, array elements, members and pointers read or written are the designated ones. The emitted text is well-formed shell. A supported expression is not rejected.",
  over=["inputs", "programs"], quant="all values of the variables, memory and call results; every operator with every operator, literal and lvalue form as each operand, in every context; pseudo-random deeper trees",
  why="The precedence of the emitted text depends on pairs of operators and on the context; the tests use a few combinations, and the generated script runs without complaint when it groups differently.",
  files=["sh.c"], mech="comp_rvalue_go/wrap_if_needed decide parentheses per context; handle_side_effects_go hoists calls; comp_lvalue names memory cells",
  tech="abstract interpretation of the shell code generator on expression schemas with opaque names; the emitted text is parsed as POSIX shell and evaluated symbolically, path by path, against a reference C semantics",
  note="Schemas are finite: all pairs of constructors in representative contexts plus seeded pseudo-random trees; variables, memory and call results are symbolic, so a schema covers all values. Trusts the shell grammar/arithmetic model in /verif/lib/shsem.py, gcc -E and pycparser. Overflow and division by zero are outside the model."),
 dict(id="S02", module="sh_stmts", title="Shell control flow follows C",
  statement="The shell code of a function body made of if/else, while, for, do-while, switch with case/default, break, continue, return, nested blocks with declarations and labelled statements performs exactly the conditions and statements that C performs, in that order and that often, in any nesting, and returns the C value; no statement is dropped or becomes unreachable, the text is well-formed shell at every nesting depth (no empty compound commands), and on return the caller's variables are what they were. Forms that shell code cannot express (fallthrough, a switch whose default is not last, an early break out of a switch case, continue inside a switch case, goto) are rejected, not miscompiled.",
  over=["inputs", "programs"], quant="all conditions and values; every pair of statement constructors and atoms at every position, plus seeded pseudo-random trees of them",
  why="break/continue/return inside nested loops and switches are emitted by context-dependent rules; the tests use few nestings and a dropped statement leaves a script that runs without complaint.",
  files=["sh.c"], mech="comp_statement/comp_switch/comp_loop with the statement context, indentation and loop-end side-effect stacks",
  tech="abstract interpretation of the shell statement generator on statement schemas with opaque conditions; parsed shell evaluated symbolically, path by path, against a reference C semantics",
  note="Schemas are bounded nestings; conditions and values are symbolic. Trusts the shell grammar/arithmetic model in /verif/lib/shsem.py, gcc -E and pycparser."),
 dict(id="S10", module='sh_printf', title='Shell printf, putchar and exit print what C prints',
  statement="The shell code of printf (constant format with as many operands as conversions), of putstr of a literal, putchar and exit produces exactly the C output, character for character and in C's order, for every literal text (quotes, dollars, backslashes, backquotes, percent signs, leading dashes, control characters included), every sequence of conversions with flags, width, precision, * and length modifiers, and every kind of operand expression; each operand is evaluated once and is the operand of its own conversion. Formats that shell code cannot express are rejected, never printed differently.",
  over=['inputs', 'programs'],
  quant='all operand values; all printable and control characters and pairs of special ones; every conversion form; sequences of conversions; every kind of operand expression',
  why='Quoting in the generated text depends on the character and on its neighbours, and the format is split at %c and %s; the tests print few characters and few conversions.',
  files=['sh.c'],
  mech='handle_printf_call, printf_call, comp_putchar_inline, escape_text, comp_fun_call_code',
  tech="abstract interpretation of the shell code generator on call schemas with symbolic operands; the emitted text is parsed as POSIX shell and its output, as symbolic items, is compared with C's",
  note='Strings printed with a width or precision are assumed not to end in a newline (the generated command substitution drops it); puts of a literal is outside the statement (its missing newline is pinned by examples/compiled/welcome.sh). Trusts the shell and printf(1) model in /verif.'),
 dict(id="L01", module='lex_tokens', title="The source is split into C's tokens with C's values",
  statement="The lexer splits every source text into C's tokens: the longest operator is taken, identifiers and keywords end where C says, white space, comments and line continuations between tokens separate and are otherwise ignored; integer literals of every base have the value their digits denote and the kind their suffix denotes, character constants and strings have exactly the characters written with their escapes replaced; unterminated literals and comments and foreign characters are rejected.",
  over=['inputs', 'configurations'],
  quant='all pairs of operators, all identifiers and digit strings of bounded length as symbolic characters, all escapes, all separators between all token classes',
  why='A wrong token boundary or digit value needs a particular neighbour, digit or literal width; the examples contain a few of each.',
  files=['pnut.c'],
  mech='get_tok, get_ident, accum_digit, get_string_char, accum_string_until, u64_* helpers',
  tech='abstract interpretation of get_tok over character schemas (character codes symbolic within classes); tokens on every path compared with an independent maximal-munch reference',
  note='Identifiers with symbolic characters are interned by spelling (contract of the intern table). Line continuations inside tokens are off by default (SUPPORT_LINE_CONTINUATION_not) and outside the statement.'),
 dict(id="P01", module='parse_exprs', title="Expressions are grouped by C's precedence and associativity",
  statement="Every C expression of the subset is parsed to exactly the tree the C grammar gives it: all binary, assignment, unary, postfix, conditional, comma, cast, sizeof, call, index and member operators have C's relative precedence and associativity, operands stay in source order, literals and identifiers are the operands written, and the whole expression is consumed.",
  over=['programs', 'configurations'],
  quant='every operator, every pair of operators at every operand position, three-level chains of one representative per grammar level; identifiers and literal values symbolic',
  why='A wrong precedence level only shows for particular pairs of operators without parentheses.',
  files=['pnut.c'],
  mech='parse_expression and the parse_*_expression chain',
  tech='abstract interpretation of the real parser over token schemas (get_tok replaced by its contract, identifier and literal values symbolic); the tree left in the abstract heap is compared with the tree an independent C grammar gives',
  note='Depth is bounded to three nested operators; each level of the recursive-descent chain only sees the level below it. The lexer contract is property L01.'),
 dict(id="P02", module='parse_stmts', title='Statements are parsed as the C grammar says',
  statement='Every C statement is parsed to exactly the tree the C grammar gives it: an else belongs to the nearest if without one, bodies of loops, labels and cases are the statements written, optional for clauses and return operands are kept apart, blocks keep their items in order, labels are the identifiers written, and a statement ends where C says; malformed statements (missing parentheses, semicolons, braces, operands) are rejected.',
  over=['programs', 'configurations'],
  quant='every statement constructor in every position of every other, missing-token variants of each',
  why='Grouping errors show only for particular nestings (dangling else, label before a declaration, nested loops).',
  files=['pnut.c'],
  mech='parse_statement, parse_compound_statement',
  tech='abstract interpretation of the real parser over token schemas (get_tok replaced by its contract, identifier and literal values symbolic); the tree left in the abstract heap is compared with the tree an independent C grammar gives',
  note='Nesting is bounded to a few levels; expressions and identifiers are opaque. The lexer contract is property L01.'),
 dict(id="P03", module='parse_decls', title='Declarations are parsed as the C grammar says',
  statement='Every C declaration of the subset denotes exactly the type C gives it: declarators (pointers, arrays, functions, parentheses, abstract ones) bind as in C, every declarator of a list has the base type and its own modifiers, specifiers combine to the C type in any order C allows, typedef names, struct, union and enum members, enumerator values, initializers, storage class and parameter lists (with or without names, void, variadic) are the ones written.',
  over=['programs', 'configurations'],
  quant='all declarator shapes up to a bounded depth with all base types and specifier orders; member, enumerator and parameter lists',
  why='Declarator binding errors show only for particular combinations of *, [], () that examples rarely use.',
  files=['pnut.c'],
  mech='parse_declaration, parse_declarator, parse_declaration_specifiers, parse_param_list, parse_struct_or_union, parse_enum',
  tech='abstract interpretation of the real parser over token schemas (get_tok replaced by its contract, identifier and literal values symbolic); the tree left in the abstract heap is compared with the tree an independent C grammar gives',
  note='Declarator depth is bounded. The lexer contract is property L01.'),
 dict(id="M02", module='cpp_macros', title='Macros expand as C says',
  statement='Every use of a macro is replaced by exactly the token sequence the C standard gives: object-like and function-like macros, rescanning, nested and recursive definitions (a macro is not expanded inside its own expansion), argument substitution with macro-expanded arguments, empty arguments, # of an argument that is one identifier or keyword, and ## of identifiers, keywords and decimal integers (operands unexpanded); definitions apply from the #define to the #undef or redefinition; a call with the wrong number of arguments, and ## of other tokens, are rejected and never expanded to something else.',
  over=['inputs', 'programs', 'configurations'],
  quant='all bodies of up to three tokens over parameters, macros and plain tokens with all argument shapes; chains and cycles of up to five macros; all pairs of pasted token kinds; identifiers symbolic',
  why='Expansion goes through a token-replay stack whose errors show only for particular combinations of nesting, arguments and pasting.',
  files=['pnut.c'],
  mech='get_tok, expand_macro, handle_define, get_macro_args_toks, attempt_macro_expansion, stringify, paste_tokens',
  tech="abstract interpretation of the real preprocessor over program schemas (identifier characters symbolic); the tokens on every path are compared with an independent implementation of the standard's expansion algorithm",
  note='# of anything but one identifier or keyword is unsupported (the tests pin NOT_SUPPORTED). Six rescanning corner cases are known findings.'),
 dict(id="M01", module='cpp_cond', title='Conditional directives keep exactly the groups C keeps',
  statement='For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif, exactly the groups C selects are compiled: conditions have their C value (defined, macros, undefined names as 0, all operators with C precedence, short circuits), at most one group of a chain is kept, and a skipped group has no effect whatever directives, definitions or conditions it contains. Stray #elif, #else, #endif, a missing #endif, malformed conditions, division by zero and #error are rejected, never skipped silently.',
  over=['inputs', 'programs', 'configurations'],
  quant='every well- or ill-nested sequence of up to 5 (thorough 6) conditional directives; every kind of line in a skipped group; every operator and pair of operators in conditions',
  why="The condition stack's errors show only for particular sequences (an #elif after a taken group inside a skipped one); the tests contain a handful.",
  files=['pnut.c'],
  mech='handle_preprocessor_directive, push_if_macro_mask, pop_if_macro_mask, evaluate_if_condition, eval_constant, skip_directive',
  tech='abstract interpretation of the real preprocessor over program schemas; the tokens on every path are compared with an independent C preprocessor',
  note='#else after #else is accepted and the null directive rejected: outside the statement. Skipped groups consist of C tokens.'),
 dict(id="M03", module='cpp_include', title='#include is replaced by the text of the named file',
  statement='An #include compiles exactly the tokens of the named file in place of the directive, for every content and every first and last character of the file, every position of the directive (first, last, unterminated last line, before other directives) and every spacing and comment around it; included files may include others, each quoted name being relative to the directory of the file that contains the directive, bracketed names to the search path; definitions made by a file stay in force after it; a skipped #include has no effect, and a file that cannot be opened is rejected.',
  over=['inputs', 'programs', 'configurations'],
  quant='file contents by kind with every ending, directive forms, nesting up to 10 files with different directories',
  why="The input switches in the middle of a token's look-ahead; errors show only for particular characters at the seams (a blank after the file name, a missing final newline).",
  files=['pnut.c'],
  mech='handle_include, include_file, get_ch, fopen_source_file, file_parent_directory',
  tech='abstract interpretation of the real preprocessor over program schemas; the tokens on every path are compared with an independent C preprocessor; fopen and fgetc are replaced by their contract over a set of named files',
  note='Bracketed names are ignored without -I, as documented.'),
 dict(id="P04", module='const_exprs', title="Constant expressions have C's value",
  statement="Array sizes and enumerator values written as constant expressions with any of C's operators over integer literals have exactly the value C gives them (precedence, associativity, short circuits, conditional operator, truth values 0 and 1), an enumerator without a value is one more than the one before it, and expressions that are not constant expressions of the subset (names, calls, assignments, casts, sizeof, an evaluated division by zero, malformed ones) are rejected, never given a value.",
  over=['programs', 'configurations'],
  quant='every operator and pair of operators over boundary values, all short-circuit and conditional shapes, every kind of non-constant operand',
  why='A wrong fold changes the size of an array or an enumerator silently and only for particular operators and values.',
  files=['pnut.c'],
  mech='eval_constant, parse_enum, parse_declarator',
  tech='abstract interpretation of the real parser and constant folder over token schemas; sizes and enumerator values left in the tree compared with an independent evaluator',
  note='Results outside the 32-bit range are undefined in C and not compared. Enumerators and sizeof are not supported in constant expressions.'),
 dict(id="L03", module='intern', title='Equal spellings are one symbol, different spellings are different symbols',
  statement="Two identifiers or strings denote the same table entry exactly when they have the same characters (any bytes, NUL and prefixes included), whatever was entered before and whatever they share a hash bucket with; an entry's spelling and attributes never change because of later entries, and hashing stays inside the table.",
  over=['inputs', 'histories', 'configurations'],
  quant='buckets of up to three entries (thorough: longer strings) with all bytes unknown against strings of all bytes unknown; every hash value and boundary character; histories over prefix, NUL and colliding strings',
  why='Hash collisions and prefix comparisons need particular pairs of spellings; a wrong merge silently makes two variables one.',
  files=['pnut.c'],
  mech='begin_string, accum_string, accum_string_char, end_ident, alloc_obj',
  tech="abstract interpretation of the table code over symbolic bytes; on every path the outcome must follow from the path's byte equalities",
  note='String lengths are bounded; the comparison loop treats every position alike.'),
 dict(id="S03", module='sh_calls', title='Functions keep their own variables in shell code',
  statement='In generated shell programs, calls bind parameters to the values of the arguments, deliver the returned value to the place the call stands in, and leave every parameter, local and temporary of all active callers with the value it had before the call, although shell variables are global: for any functions, however their variables are named, for nested, recursive and mutually recursive calls, and for returns from inside loops, switches and nested blocks.',
  over=['programs', 'call histories', 'configurations'],
  quant='every shape of callee in every position of a caller with own, swapped and computed arguments, three functions deep, mutual recursion, and pseudo-random programs of up to four functions sharing variable names; unknown values everywhere',
  why='A variable that is not saved or is restored in the wrong order only matters when a callee (or a recursive activation) happens to use the same name or the same number of temporaries, so the sampled programs of the test-suite do not settle it.',
  files=['sh.c', 'sh-runtime.c'],
  mech='comp_glo_fun_decl, save_local_vars, restore_local_vars, comp_fun_call_code, handle_side_effects_go, let/endlet',
  tech='abstract interpretation of the real code generator on opaque syntax trees; the emitted text of all functions, with the emitted let/endlet, is evaluated over unknown values path by path and compared with the C meaning of the program',
  note='Recursion and loops are followed for a bounded number of decisions per path. Functions with more than one unsequenced read and write of a global in an expression are outside (unspecified in C).'),
 dict(id="N06", module='native_calls', title='Native calls, start-up and built-ins follow one calling convention',
  statement="In executables made by the native back ends every call evaluates each argument once and puts it where the callee reads it, at its full width, whatever the number, types and sizes (structures by value included); functions return to their caller with the stack and the global-table register as they were; the start-up code maps zeroed globals and heap, runs every initialiser in source order, passes argc and argv, and exits with main's result (0 if it has none); the built-in library functions perform the system call they stand for with their own arguments and report failure as documented; and programs that use undefined functions, define one twice, or have no main are rejected.",
  over=['programs', 'argument values', 'targets'],
  quant='every argument-list shape of up to six arguments over all scalar types and structures of 1 to 2 words + 3 bytes, direct and through pointers; every ending of a function; the complete start-up code and built-in functions of the three targets, over unknown values',
  why='A wrong slot, a missing register or an unbalanced stack shows only for particular mixes of argument sizes and callers; descriptors above 255, exhausted heaps, failing system calls and voids in main are not in the test-suite.',
  files=['exe.c', 'x86.c'],
  mech='codegen_call, codegen_params, add_params, codegen_glo_fun_decl, codegen_begin/codegen_end, os_* and rt_* of the targets, setup_proc_args, check_functions_defined',
  tech='abstract interpretation of the code generator on opaque trees, decoding of every emitted byte and path-complete abstract execution of the machine code compared with a reference calling convention',
  note='System-call numbers and register conventions are taken as given. The size of malloc requests is compared as the machine does (no claim for blocks larger than the address space). fopen opens for reading whatever its mode, as the code documents.'),
 dict(id="N09", module='native_image', title='Labels, gotos and file headers of native executables are exact',
  statement="In executables made by the native back ends every jump and call to a label, before or after the label's definition and in any number, has as displacement exactly the distance to the label; a goto leaves the stack as deep as it is at its label whatever the frames at both ends; with the safety checks compiled in, a label that is used and never defined is reported; and the file has the headers its format requires: the kernel maps every byte of headers and code at the address the code assumes, readable and executable, and starts at the entry point, for every size of the code.",
  over=['programs', 'code sizes', 'targets'],
  quant="every order of references and definitions of up to three labels with unknown amounts of code between them, every pair of goto and label frames, both container formats for every code size up to the code buffer's",
  why='Jump chains through unresolved labels and headers whose sizes depend on the program are only sampled by a few hundred small programs; a size field that is a page or a header short only matters at particular sizes.',
  files=['exe.c', 'elf.c', 'mach-o.c'],
  mech='use_label, def_label, def_goto_label, jump_to_goto_label, generate_exe/write_elf headers and mach-o headers',
  tech='abstract interpretation of label bookkeeping on symbolic code positions and of the header writers on a symbolic code size, compared with an independent reader of the formats',
  note="The kernel's treatment of the headers is the documented one. Mach-O is checked for the fields the loader reads."),
 dict(id="S08", module='sh_data', title='Data of a shell program has the values C gives it',
  statement='In the shell program made for a C file, every string literal holds exactly the bytes of the C literal followed by a zero, wherever it is used (initialiser of a pointer, of an array or of an element, argument, returned value, operand) and whatever its length and characters; character constants, integer literals and constant expressions that initialise globals and array elements have their C values; elements and globals without an initialiser of their own start at zero where C says so; array, string and structure objects are apart from each other; enumerators, member offsets and sizes are consistent with each other; argc and argv are the arguments of the program; and the names of variables, functions and enumerators do not matter. A file the back end cannot translate is rejected.',
  over=['literals', 'initialisers', 'declarations', 'names'],
  quant='every byte, every ordered pair of bytes special to shells, lengths and escapes around the chunk sizes of the runtime, in every place a literal is accepted; every kind of initialiser, enumeration and structure; names taken from the shell, the compiler and the runtime',
  why="A string is escaped by the compiler, unescaped by the shell's quoting and unpacked by a runtime that works on 16 and 256 character chunks: tests sample a few strings out of every combination of special characters and positions.",
  files=['sh.c', 'sh-runtime.c'],
  mech='comp_glo_var_decl, comp_initializer_list, comp_defstr, escape_text, print_text, comp_struct, comp_enum_cases; runtime defstr, unpack_escaped_string, char_to_int, defarr, initialize, malloc, make_argv',
  tech='abstract interpretation of the parser and shell code generator on schemas of whole files, and evaluation of the emitted text, runtime included, in a model of the shell; compared with the values C prescribes',
  note='Sizes count shell cells. Structure members must have different names (documented) and not those of runtime variables. Strings without a zero byte limit, arguments of bytes 1 to 127.'),
 dict(id="S11", module='sh_runtime', title='Input, output and exit of shell programs behave as in C',
  statement='In shell programs, getchar, fgetc and read return every byte of the text in order and then the end of file, for texts with any lines (empty, long, without final newline, with blanks, backslashes or other special characters) and for several files and the standard input in turn; read returns as many bytes as asked unless the text ends, and leaves the rest of the buffer alone; open, fopen, close and fclose hand out the lowest free descriptor, and writing truncates or appends as asked; putchar, write and printf print exactly the given bytes; printf with a format known only at run time prints what C prints; exit and the result of main become the exit status and stop the program there; and whatever combination of features a program uses, everything the emitted text calls is defined by the time it is called.',
  over=['texts', 'files', 'formats', 'combinations of features'],
  quant='texts around every chunk and buffer size and with every byte, every descriptor, every pair of features, every conversion of a run-time format with its flags, width and precision forms',
  why='The runtime reads lines, cuts them in chunks of 16 and 256 characters and unpacks them in growing buffers; errors show only for particular lengths, characters or interleavings, and missing runtime pieces only for particular combinations of features.',
  files=['sh-runtime.c', 'sh.c'],
  mech='runtime_getchar, runtime_read_byte (unpack_line, refill_buffer, read_byte), runtime_read, runtime_write, runtime_open, runtime_close, runtime_printf, DEPENDS_ON, produce_runtime, epilogue',
  tech='abstract interpretation of the code generator and runtime printer on schemas of whole files, and evaluation of the emitted text in a model of the shell and of its files; compared with the values C prescribes',
  note="Texts without zero bytes; files opened for reading exist; the flags of open are the runtime's 0, 1 and 2; putchar's own value is not C's (always 0, as the runtime documents); %l modifiers are only for formats known at compile time."),
 dict(id="C01", module='cmdline', title='The command line means what it says and a failed compilation fails',
  statement="The compiler's command line has the usual meaning: -DNAME, -DNAME=VALUE (a number, a quoted string or nothing) and -UNAME, joined or as two arguments, before or after the file, act like the same definitions in front of the file, the last one about a name counting; -I gives the directory of bracketed headers; -o (native compilers) names the output, which is created and truncated, and without it the output goes to standard output; every file named is compiled exactly once and whole; the macros naming the compiler and its target are defined. An unknown option, an option without its argument, a missing or unreadable file, no file at all, an output that cannot be opened or written, and any error found in the source end the compilation with a message and an exit status other than 0; the compilation succeeds only when all the output was produced.",
  over=['command lines', 'failures'],
  quant='every option in every spelling, position and order, every error exit of the compiler, every failing system call of the output path',
  why='Tests use a few fixed command lines on valid programs; failures of the output and misuse of options are not exercised, and a wrong exit status looks like success to a build.',
  files=['pnut.c', 'exe.c'],
  mech='main, handle_macro_D, init_ident, init_builtin_*_macro, include_file, fopen_source_file, fatal_error, syntax_error, write_i8',
  tech='abstract interpretation of main and of the tokenizer on argument vectors, with the parser, code generator and system calls replaced by recorders; interpretation of every function that ends the compilation or writes output with a failing call',
  note='Search directories end with a slash (as the option is documented by use); the order in which several files are compiled is not prescribed; numbers up to 2147483647.'),
 dict(id="T01", module='bounds', title='A full table stops the compilation instead of corrupting it',
  statement='The compiler keeps its data in tables of fixed size (identifiers and syntax trees, strings, text of the shell program, lines of a function, machine code, labels, nested conditionals and macro expansions). Whatever the size of the program compiled, no table is written or read past its end through its growth: when a table is full the compilation ends with an error, and a newly made object never reaches beyond the words allocated for it.',
  over=['program sizes', 'allocations'],
  quant='every value of every growth counter, every allocation and every store at the growing end of a table',
  why='Tests compile small programs that fill no table; an overflow corrupts neighbouring data silently and the output with it.',
  files=['pnut.c', 'sh.c', 'exe.c', 'env.c'],
  mech='alloc_obj, new_ast*, accum_string*, end_ident, wrap_*, string_concat*, escape_text, append_glo_decl*, emit_i8, add_label, push_if_macro_mask, begin_macro_expansion, cgc_add_*',
  tech='interval analysis with inferred counter invariants (0 <= counter <= limit, multiple of the entry size) over every function that moves a counter or uses a table at it',
  note='Indices read back from the data (not the counter itself) are taken to be ones handed out earlier; sizes passed to the allocator are not negative. Recursion depth of the compiler is not bounded here.'),
]
NA = [
 dict(id="Z01", title="Whole-program semantic preservation", statement="Every accepted C program, translated to shell or to a native executable, behaves as the C program does.",
  over=["programs", "inputs"], quant="all programs in the subset and all their inputs", why="Quantifies over all programs and inputs.",
  files=["pnut.c", "sh.c", "exe.c"], mech="the whole compiler",
  reason="End-to-end behaviour of an arbitrary translated program is a runtime quantity; only its per-construct clauses (the other properties) have a structural form that a static rule decides."),
 dict(id="Z02", title="Bootstrap fixed point", statement="Compiling the compiler with its own output reproduces the same output byte for byte.",
  over=["programs"], quant="the self-compilation chain", why="Needs executing generated artefacts.",
  files=["bootstrap-pnut-exe.sh", "bootstrap-pnut-sh.sh"], mech="self compilation",
  reason="A fixed point of running a program on itself is a statement about one execution; there is no static argument in reach, and running it would be a test."),
]
