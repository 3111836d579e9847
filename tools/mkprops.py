#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in code so that the texts can be reviewed and edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["v0100/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    assert all(ord(c) < 128 for c in statement)
    P.append(d)

p("C01", "32-bit x86 integer expressions evaluate to the values C defines",
  "For every side-effect-free integer expression built from the arithmetic, bitwise, shift, relational, logical, comma, conditional and cast operators over constants and objects of the char, short, int and unsigned types (plain variables, parameters, array elements, pointer targets, structure members, function results), the 32-bit x86 program produces the value C defines (two's complement, wrapping) for every operand value. The result does not depend on which kinds of operands are combined, on the nesting of the expression, or on whether it is used as a value, a condition, an index or an argument.",
  ["programs", "inputs"], "all expression shapes up to the bound, all operand kinds/types, all boundary operand values",
  "the tests contain a few hundred hand-picked expressions with one set of values each; the code generator picks an instruction sequence per (operator, left operand kind, right operand kind, type), a product no test suite samples",
  ["smlrc.c", "cgx86.c"], [("expression tree -> operand classification -> instruction selection", "cgx86.c GenFuse/GenExpr0/GenExpr1"), ("type promotion and conversion", "smlrc.c exprval")],
  ["result of compiled functions run natively"])
p("C02", "DOS memory models (tiny, small, huge, unreal) evaluate integer expressions",
  "For every side-effect-free integer expression of the same kinds, programs compiled for the 16-bit DOS models (tiny, small) produce the value C defines for a 16-bit int, and programs compiled for the huge and unreal DOS models produce the value C defines for a 32-bit int, including accesses to objects anywhere in the far address space through pointers.",
  ["programs", "inputs", "configurations"], "all expression shapes up to the bound x memory models x boundary operand values",
  "the test programs exercise each DOS model with one value set; the 16-bit and segmented code generators have paths of their own per operand kind",
  ["cgx86.c", "smlrc.c", "smlrl.c"], [("16-bit and far-pointer code generation", "cgx86.c GenPrintOperand/GenRead*/GenWrite*"), ("address normalisation", "cgx86.c huge/unreal model")],
  ["output of programs run in DOSBox"])
p("C03", "MIPS integer expressions evaluate to the values C defines",
  "For every side-effect-free integer expression of the same kinds, and for the simple assignments, calls and conditions that carry them, the code produced by the MIPS build of the compiler computes the value C defines for a 32-bit int for every operand value.",
  ["programs", "inputs"], "all expression shapes up to the bound x boundary operand values",
  "the MIPS tests run a fixed set of programs; immediates, register pressure and delay slots are data dependent",
  ["cgmips.c", "smlrc.c"], [("register-stack expression evaluation", "cgmips.c GenExpr1"), ("immediate forms", "cgmips.c GenPrintInstr2Operands")],
  ["result of compiled functions run in qemu-mipsel"])
p("C04", "Constant expressions have the same value as C defines wherever one is required",
  "An integer constant expression evaluated by the compiler (static initializer, enumerator, array bound, case label, sizeof operand) has the value and the signedness that C defines, identical to the value the same expression has when its operands are variables; division by a constant zero is rejected.",
  ["programs"], "all constant expressions up to the bound over boundary constants, in each constant context",
  "tests hold a handful of constant expressions; folding is separate code from the run-time evaluation",
  ["smlrc.c"], [("constant folding", "smlrc.c exprval/simplifyConstExpr"), ("initializers", "smlrc.c InitVar"), ("case labels, array bounds, enumerators", "smlrc.c ParseStatement/ParseDecl")])
p("C05", "Assignments update exactly the object named, once, and yield its new value",
  "Simple assignment, every compound assignment and prefix/postfix increment and decrement store the correctly converted value in exactly the bytes of the designated object (adjacent bytes keep their value), evaluate the designating expression once, and yield the value C defines, for every kind of modifiable integer or pointer object and every operand value, in the 32-bit, 16-bit and huge models.",
  ["programs", "inputs", "configurations"], "operator x object kind x object type x right operand kind x boundary values x value used/unused",
  "tests use a few compound assignments; narrow stores, saved operands and value-used forms are separate code paths",
  ["smlrc.c", "cgx86.c"], [("store and update code", "cgx86.c GenIncDec*/GenPostIncDec*/GenWrite*")])
p("C06", "Control flow executes exactly the statements C prescribes, in order",
  "For every nesting of if/else, while, do, for, switch, break, continue, goto, return and blocks, and for every sequence of condition outcomes, the compiled program performs exactly the sequence of side effects that C prescribes, including short-circuit evaluation in conditions built from &&, ||, !, ?: and comma.",
  ["programs", "inputs"], "all statement trees up to the bound x all condition outcome sequences up to the bound",
  "tests take a few paths through hand-written nests; loop/label/switch bookkeeping errors need particular nestings",
  ["smlrc.c", "cgx86.c"], [("statement parser with break/continue targets", "smlrc.c ParseStatement"), ("conditional jump simplification", "smlrc.c/cgx86.c short-circuit jumps")])
p("C07", "switch transfers control to the matching case for every value",
  "For every set of case labels (any order, sparse or dense, negative, duplicates across nested switches), any position of default, and every value of a controlling expression of any integer type, exactly the matching case (else default, else none) is entered and falls through as written; duplicate labels in one switch are rejected.",
  ["programs", "inputs"], "all small label sets and permutations over boundary values, default positions, controlling types, x probe values",
  "tests have a few switches",
  ["smlrc.c", "cgx86.c"], [("case table and dispatch", "smlrc.c ParseStatement switch, GenJumpIfEqual")])
p("C08", "sizeof, alignment and member offsets follow the documented layout",
  "For every structure, union, array and pointer type built from the supported types, under every #pragma pack setting, sizeof and member offsets equal those of the target's natural-alignment layout (limited by the packing in force), members do not overlap (except in unions), and array elements are contiguous; pack(push/pop) nests.",
  ["programs", "configurations"], "all member sequences up to the bound x packing x nesting x target int size",
  "tests check a few structures",
  ["smlrc.c"], [("layout", "smlrc.c ParseDecl struct members, AdjustForPack/GetDeclSize/GetDeclAlignment"), ("pack stack", "smlrc.c #pragma pack handling")])
p("C09", "Initializers produce the exact object image C prescribes",
  "For every scalar, array, structure, union and string initializer form the compiler accepts (full, partial, nested, brace-elided where supported, size taken from the initializer), static and automatic objects hold exactly the bytes C prescribes, with all unmentioned members zero, address constants resolved, and neighbouring objects untouched; excess initializers are rejected.",
  ["programs"], "aggregate types x initializer shapes up to the bound x storage classes",
  "tests check a few initializers",
  ["smlrc.c", "cgx86.c"], [("initializer parser", "smlrc.c InitVar/InitArray/InitStruct/InitScalar"), ("data emission", "cgx86.c GenIntData/GenZeroData/GenAddrData")])
p("C10", "Calls pass every argument and result intact under the C calling convention",
  "For every function signature made of integer, pointer, float and structure parameters and results, including variadic, nested, recursive and indirect calls, the callee receives each argument's converted value, the caller receives the result and its own locals are preserved; scalar calls interoperate with code built by another i386 System V compiler in both directions.",
  ["programs", "inputs"], "signatures up to the bound x call forms x argument values",
  "tests call a few dozen signatures; each structure size and nesting changes the stack arithmetic",
  ["smlrc.c", "cgx86.c", "include/stdarg.h"], [("argument pushing, structure copy, hidden result pointer", "smlrc.c exprval call handling; cgx86.c GenExpr1 tokCall")])
p("C11", "float arithmetic, comparison and conversion are IEEE single precision",
  "For every operator on float operands (+ - * / unary minus, comparisons, !, &&, ||, ?:, casts to and from every integer type, mixed integer/float arithmetic, assignment, calls) and every operand value including signed zeros, subnormals, infinities and integers at the range limits, the result is the IEEE-754 single-precision value C prescribes, and constant folding agrees with run time.",
  ["programs", "inputs"], "operators x operand kinds x a grid of bit patterns",
  "tests use a few values",
  ["fp.c", "smlrc.c", "cgx86.c"], [("soft float for constants", "fp.c fsub/fmul/fdiv/fcmp/..."), ("run-time float code", "cgx86.c x87 sequences")])
p("C12", "Literals and tokens are read as C defines",
  "Every integer literal (base, suffix, magnitude), character constant, string and wide string literal (every escape, every byte value, adjacent concatenation) and floating literal denotes the value and type C defines, comments and line splices are transparent, and tokens are formed by maximal munch; out-of-range and malformed literals are rejected.",
  ["programs"], "all literals of each class up to the bound",
  "tests contain a few dozen literals",
  ["smlrc.c", "fp.c"], [("tokeniser", "smlrc.c GetTokenInner/GetNumber/GetString/GetCharValue"), ("decimal to binary", "smlrc.c/fp.c strtod-like code")])
p("C13", "Names refer to the declaration that C's scope and linkage rules select",
  "For every nesting of file, function, parameter and block scopes declaring the same names as objects, functions, enumerators, typedefs, tags or labels, with auto, static or extern storage, every use refers to the entity C's rules select, static objects keep their value between calls, automatic objects in different live scopes never share storage, and names cross translation units exactly when they have external linkage. (Tentative definitions, and a name used in the dimension of its own declarator, are refused by design.)",
  ["programs", "histories"], "all scope nestings/declaration kinds up to the bound",
  "tests shadow a handful of names",
  ["smlrc.c", "smlrl.c"], [("scope marks on the identifier and syntax stacks", "smlrc.c ParseLevel/FindSymbol/UndoNonLabelIdents")])
p("C14", "Ill-formed programs are rejected with an error; no input crashes the compiler",
  "For every input text, the compiler terminates without a memory error, and exits with status zero exactly when it accepts the program; a program that violates the grammar or a type rule (operand type, lvalue, declaration, too few or too many arguments, undeclared name, redefinition) is rejected with an error message and a nonzero status, and a valid program is accepted as long as it fits the compiler's tables. Where the compiler is deliberately lax nothing is claimed: types are not compared in assignments, arguments, initializers and redeclarations, functions can be declared implicitly, C11 and later rules, and qualifiers are ignored.",
  ["programs"], "all token sequences up to the bound in expression, statement and declaration position; every table limit at and beyond its edge",
  "tests compile valid programs almost exclusively",
  ["smlrc.c"], [("error exit", "smlrc.c error()"), ("operand checks", "smlrc.c exprval"), ("declarations", "smlrc.c ParseBase/ParseDerived/ParseDecl"), ("bounded tables", "smlrc.c PushSyntax/AddIdent/ins2/PrepMacro checks")])
p("C16", "Macro expansion by the preprocessor follows the C standard",
  "For every set of object-like and function-like macro definitions and every text using them, the stand-alone preprocessor produces the token sequence the C standard defines: argument pre-expansion, # and ##, variadic parameters, rescanning, suppression of recursive expansion, #undef and redefinition rules. Not covered: cases the standard leaves undefined or unspecified, #undef of defined and __VA_ARGS__ as a parameter name.",
  ["programs"], "all definition/use combinations over a small token alphabet up to the bound",
  "tests run the preprocessor over ordinary headers",
  ["ucpp/macro.c", "ucpp/lexer.c", "ucpp/cpp.c"], [("substitution", "ucpp/macro.c substitute_macro"), ("definition", "ucpp/macro.c handle_define")])
p("C17", "Conditional compilation and inclusion select exactly the prescribed text",
  "For every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif and every controlling integer expression, the stand-alone preprocessor emits exactly the groups the C standard selects, evaluates #if expressions with the standard's integer arithmetic, resolves #include and reports #line positions consistently, deletes backslash-newlines, replaces trigraphs and comments as the translation phases say, and diagnoses unbalanced directives and invalid expressions with a nonzero exit (inside skipped text a second #else or a late #elif may only be warned about).",
  ["programs"], "all directive sequences up to the bound; all #if expressions up to the bound over boundary constants",
  "tests contain ordinary include guards",
  ["ucpp/cpp.c", "ucpp/eval.c", "ucpp/arith.c"], [("condition stack", "ucpp/cpp.c handle_cpp"), ("expression evaluation", "ucpp/eval.c eval_expr")])
p("C18", "The compiler's built-in preprocessor handles its documented directives",
  "Without an external preprocessor, the compiler's own object-like macros, #ifdef/#ifndef/#else/#endif nesting, #undef, #include, #line markers, -D/-I options, __FILE__ and __LINE__ select and substitute exactly the text documented, up to the documented limits, and report errors against the right file and line.",
  ["programs", "configurations"], "all directive sequences up to the bound, macros over a small alphabet",
  "self-compilation exercises only a few directive patterns",
  ["smlrc.c"], [("built-in preprocessor", "smlrc.c GetTokenInner directive handling, PrepStack, MacroTable")])
p("C20", "Every relocation in every output format resolves to its run-time value",
  "For every set of object files with sections, local and global symbols and relocations of each supported kind, the linked image, once loaded as its format prescribes, holds at every relocated place the run-time value for that place (symbol value plus addend, PC-relative where prescribed, segment/offset form where prescribed), and all other section bytes appear unaltered exactly once.",
  ["programs", "configurations"], "all relocation kinds x symbol kinds x section placements x addends x output formats",
  "tests link compiler output only, so unusual section orders, alignments, sizes and addends never occur",
  ["smlrl.c"], [("section layout and relocation", "smlrl.c RwElf/Relocate/Rel..")])
p("C21", "Archive members are linked exactly when they resolve a needed symbol",
  "For every dependency graph among object files and archive members, and every order of the inputs, the linked program contains exactly the objects (explicitly named or archive members alike; the linker treats them the same) that are needed, directly or through others, from the entry point, each once; where several inputs define a needed symbol the first one in the order of the inputs is taken; the link succeeds exactly when every referenced symbol is defined and no global symbol is defined twice among the linked objects.",
  ["configurations"], "all dependency graphs and input orders up to the bound",
  "tests link one library",
  ["smlrl.c"], [("archive search loop", "smlrl.c FindSymbolByName/FindArchSymbol loading loop")])
p("C22", "Linked images satisfy the loader's contract of their format",
  "For every output format, the image's headers are consistent with the file: segments/sections are in bounds, non-overlapping and page aligned where required, cover every linked section, zero-fill uninitialised data, give entry point, origin, stack and heap options their effect, and the linker's start/stop symbols delimit the sections they name.",
  ["programs", "configurations"], "section size/alignment patterns x formats x options",
  "tests run a few ordinary images; sizes at page and block boundaries are not sampled",
  ["smlrl.c"], [("image writers", "smlrl.c RwMz/RwPe/RwElf/RwMach/RwFlat/...")])
p("C23", "The linker refuses unusable inputs and leaves no output",
  "For every object file or archive that is truncated or has a corrupted field in its headers, symbols, relocations or string tables, for every undefined or duplicate symbol, and for every read, write or allocation that fails, the linker ends without a memory error, and either gives the image that the input's fields describe or stops with a message and a nonzero exit, leaving no output file. (16-bit relocations wrap around by design.)",
  ["inputs", "fault_sequences"], "every truncation length and every header field mutated over a value menu",
  "tests never give the linker a bad input",
  ["smlrl.c"], [("input validation", "smlrl.c loading functions and error()")])
p("C24", "The driver reports failure and cleans up whenever a tool fails",
  "Whatever step of whatever build command fails (preprocessor, compiler, assembler, linker, or a file operation of the driver), the driver exits with a nonzero status, runs no later step that depends on it, leaves no stale final output, and removes the intermediate files it would have removed; when all succeed it exits zero with the requested output. (Outputs already completed for earlier inputs of a command, and what a failing assembler itself leaves under -c, may stay.)",
  ["fault_sequences", "configurations"], "every command form x failure of each step (1 and 2 failures)",
  "tests only take the success path",
  ["smlrcc.c"], [("step execution", "smlrcc.c System/Compile/Link/Archive"), ("cleanup", "smlrcc.c DeleteTemporaryFiles")])
p("C25", "The driver runs the right tools with the right options for every command line",
  "For every supported combination of target, stage option (-S, -c, link, archive), input kinds, output name and pass-through options, also through response files and with names that need quoting, the driver invokes exactly the documented tools with the documented options and produces the documented output file names; archives it creates contain exactly the given objects. (Not judged: two output formats in one command, -o naming one file for several -c inputs, a library directory without the DPMI stub.)",
  ["configurations"], "option combinations up to the bound",
  "tests use one command form",
  ["smlrcc.c"], [("option parsing and command building", "smlrcc.c main/fatargs/Add*")])
p("C26", "n2f+fasm assembles the compiler's output to the same program as nasm",
  "For every assembly program the compiler can emit or documentation allows n2f to accept, converting it with n2f and assembling with fasm yields an object file with the same section contents, symbols and relocations (up to encoding choices that do not alter behaviour) as nasm produces from the original; what cannot be converted, read or written is refused with a nonzero status and no output. (32-bit programs: fasm has no 16-bit ELF.)",
  ["programs"], "all instruction/operand/directive forms emitted, over boundary immediates",
  "one bootstrap test uses n2f",
  ["n2f.c"], [("line translation", "n2f.c main")])
p("C30", "stdio streams behave as a byte sequence with position, EOF and error state",
  "For every sequence of stdio operations (fopen in each mode, getc/ungetc/fgets/fread, putc/fputs/fwrite, fseek/ftell/rewind/fgetpos/fsetpos, fflush, setvbuf in each buffering mode and buffer size, feof/ferror/clearerr, freopen, fclose), return values, file positions, end-of-file and error indicators and final file contents equal those of the standard's model of a stream.",
  ["histories", "inputs"], "all legal operation sequences up to the bound over small argument domains and buffer sizes",
  "tests run a few scripted sequences with the default buffer",
  ["srclib/fillbuf.c", "srclib/flushbuf.c", "srclib/fseek.c", "srclib/fread.c", "srclib/fwrite.c", "srclib/ungetc.c", "srclib/setvbuf.c", "srclib/fopen.c", "srclib/freopen.c"], [("buffer state machine", "srclib/fillbuf.c, flushbuf.c, fseek.c")])
p("C31", "stdio survives short or failing system calls without losing or inventing data",
  "For every operation sequence and every pattern of short or failing read, write, seek, open and close results from the system, each stdio call reports success only if its effect took place, sets the error indicator when a system call failed, loses or duplicates no byte that it reported as transferred, and stays usable afterwards.",
  ["fault_sequences", "histories"], "operation sequences up to the bound x all positions of up to 2 faults",
  "no test injects an I/O fault",
  ["srclib/fillbuf.c", "srclib/flushbuf.c", "srclib/fwrite.c", "srclib/fread.c", "srclib/fclose.c", "srclib/doprint.c"], [("error paths", "srclib/flushbuf.c, fillbuf.c")])
p("C32", "The heap never hands out overlapping, misaligned or corrupted blocks",
  "For every sequence of malloc, calloc, realloc and free, live blocks are aligned, disjoint, inside the heap and keep their contents (realloc preserves the common prefix, calloc zeroes and rejects overflow), requests fail only by returning a null pointer, and freed memory becomes reusable so that a repeating pattern of allocations does not grow the heap without bound.",
  ["histories"], "all operation sequences up to the bound over size classes, including exhaustion",
  "tests allocate in a few fixed patterns",
  ["srclib/malloc.c", "srclib/realloc.c", "srclib/free.c", "srclib/calloc.c", "srclib/mm.h"], [("block list, split, coalesce", "srclib/malloc.c, free.c, realloc.c")])
p("C33", "printf-family output equals the standard's for every supported conversion",
  "For every combination of flags, width, precision, length modifier and conversion the library documents, and every argument value, the printf family produces exactly the characters, the return count and (snprintf) the truncation the C standard prescribes.",
  ["inputs"], "full product of flags x width x precision x conversion x boundary values",
  "tests print a few dozen formats",
  ["srclib/doprint.c", "srclib/snprintf.c", "srclib/vsnprint.c"], [("formatter", "srclib/doprint.c")])
p("C34", "scanf-family conversion equals the standard's for every directive and input",
  "For every directive (assignment suppression, width, length modifier, conversion, scan sets, %n, literals, white space) and every input text, the scanf family stores the values, returns the count and leaves the input position that the C standard prescribes (hexadecimal floats, nan(...), ranges in scan sets and items cut off by the end of input excepted).",
  ["inputs"], "directive sets x all input strings over a small alphabet up to the bound",
  "the scanf test has 199 cases",
  ["srclib/doscan.c"], [("scanner", "srclib/doscan.c")])
p("C35", "String-to-number conversion is exact, bounded and reports range errors",
  "For every string, strtol, strtoul, atoi and atol return the value, end pointer and errno the C standard prescribes for every base; strtod, strtof and atof accept exactly the standard's syntax, consume the right characters and return a value within the documented single-precision accuracy.",
  ["inputs"], "all strings over a small alphabet up to the bound, all bases, limits",
  "tests convert a few numbers",
  ["srclib/strtol.c", "srclib/strtoul.c", "srclib/strtod.c", "srclib/strtof.c", "srclib/atoi.c"], [("digit accumulation and range check", "srclib/strtol.c, strtoul.c, strtod.c")])
p("C36", "String, memory and character-class functions meet their specification",
  "For every argument contents, length, alignment and overlap, each string.h and ctype.h function returns the value and leaves the memory that the C standard prescribes, and writes no byte outside the destination.",
  ["inputs"], "all strings over a small alphabet up to the bound, all lengths/alignments/overlaps; all character codes",
  "tests check a few strings per function",
  ["srclib/memcpy.c", "srclib/memmove.c", "srclib/strstr.c", "srclib/strtok.c", "srclib/strncpy.c", "srclib/ctype.c"], [("per-function loops", "srclib/mem*.c, str*.c, is*.c")])
p("C37", "qsort sorts and bsearch finds, for every array",
  "For every array contents, element count and element size, and every consistent comparison function, qsort leaves a sorted permutation of the array without touching other memory and terminates, and bsearch returns a matching element if and only if one exists.",
  ["inputs"], "all arrays of up to n elements over k keys, all element sizes; adversarial larger patterns enumerated by length",
  "tests sort a few arrays",
  ["srclib/qsort.c", "srclib/bsearch.c"], [("partitioning and swap", "srclib/qsort.c"), ("bisection", "srclib/bsearch.c")])
p("C38", "Calendar conversion is correct for every representable date",
  "For every time value, gmtime, localtime, mktime, asctime, ctime, strftime and difftime give the Gregorian calendar's answer; mktime inverts them, and returns -1 for what it cannot represent (this library does not normalise: fields out of range are refused; the range of time_t is 1970 to 2105).",
  ["inputs"], "every day of the 32-bit range, boundary seconds, field combinations out of range, every strftime conversion",
  "tests convert a few dates",
  ["srclib/bldtime.c", "srclib/brktime.c", "srclib/mktime.c", "srclib/gmtime.c", "srclib/strftime.c", "srclib/asctime.c", "srclib/ctime.c"], [("break-down and build", "srclib/brktime.c, bldtime.c")])
p("C39", "Exact math functions are exact for every float",
  "For every float argument, fabs, floor, ceil, trunc, round, frexp, ldexp, modf, fmod and sqrt return the exactly rounded result and the classification C prescribes for zeros, infinities and NaNs, and the elementary functions stay within about one unit of single-precision accuracy over their domain (exponential and hyperbolic functions and pow: within a few units times the size of the exponent; sin, cos, tan: for arguments below 2^55).",
  ["inputs"], "all exponents x mantissa boundary patterns, up to all 2^32 bit patterns in the thorough tier",
  "tests check a few values",
  ["srclib/floor.c", "srclib/ceil.c", "srclib/trunc.c", "srclib/round.c", "srclib/frexp.c", "srclib/ldexp.c", "srclib/modf.c", "srclib/fmod.c", "srclib/sqrt.c"], [("x87 and bit manipulation", "srclib/*.c math files")])
p("C40", "Program start, exit and non-local jumps follow the C execution model",
  "For every combination of arguments, atexit registrations (also from handlers), exit paths (return, exit, _exit, abort, raise), open streams and setjmp/longjmp nesting, main receives its arguments, handlers run in reverse order once, open streams are flushed exactly once on normal termination, the process status is the one requested, and setjmp returns the longjmp value with preserved state.",
  ["histories"], "all exit scenarios up to the bound; all argument vectors over a menu",
  "tests check one normal run",
  ["srclib/exit.c", "srclib/atexit.c", "srclib/abort.c", "srclib/c0.c", "srclib/longjmp.c", "srclib/raise.c", "srclib/signal.c"], [("exit chain", "srclib/exit.c/atexit.c"), ("start-up", "srclib/c0.c")])
p("C41", "32-bit arithmetic helpers for 16-bit programs are exact",
  "The library routines that give 16-bit programs 32-bit integer and float conversions and file positions compute exactly the two's-complement result for every operand value.",
  ["inputs"], "boundary grid of operand pairs",
  "tests touch them only through file seeking",
  ["srclib/lngadd.c", "srclib/lngsub.c", "srclib/lngul.c", "srclib/lngsl.c"], [("multi-word arithmetic", "srclib/lng*.c")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
