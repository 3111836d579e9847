E = "exploration"
M = "model_checking"
X = "fault_enumeration"
BE = "bounded-exhaustive enumeration of expression programs, executed, against a reference evaluator"
CHECKS = {
 "C01": (BE, E, "every expression program in the families (all operators x operand kinds x types, depth 1 fully, depth 2/3 over a reduced operand menu, all contexts) gives the reference value on the whole boundary grid; trusts the Python evaluator, nasm, the CPU; nothing is claimed for deeper expressions or operand values off the grid"),
 "C02": (BE + " (DOSBox)", E, "as C01 for the tiny/small/huge/unreal models with smaller families; trusts DOSBox and the Python evaluator"),
 "C03": (BE + " (qemu-mipsel)", E, "as C01 for the MIPS back end; trusts qemu, the mipsel assembler/linker/glibc and the Python evaluator"),
 "C04": ("bounded-exhaustive enumeration of constant expressions, folded by the compiler into data, against a reference evaluator", E, "all operator/operand-literal combinations at depth 1-2 in every context that requires a constant, in every model; trusts the Python evaluator and nasm"),
 "C05": ("bounded-exhaustive enumeration of assignment/increment programs, executed, memory image compared with a reference evaluator", E, "every (operator, object kind, type, operand type) combination on the boundary grid with guard bytes and evaluation counting; trusts the Python evaluator, CPU, DOSBox"),
 "C06": ("explicit-state exploration: statement trees enumerated to a bound, each driven through every condition-outcome sequence on the compiled code, against an interpreter model", M, "all statement trees to the stated size and all oracle tapes to the stated length; larger trees are not covered"),
 "C07": ("bounded-exhaustive enumeration of switch statements, executed on every label and neighbour, against a reference dispatcher", E, "label permutations over boundary values, 4-127 labels in several spacings and orders, nested; other label sets are not covered"),
 "C08": ("bounded-exhaustive enumeration of aggregate types, laid out by the compiler, against a reference layout algorithm", E, "all member sequences to the stated length over the scalar menu, nested aggregates, packings and pack stacks; sizes and offsets also checked at run time"),
 "C09": ("bounded-exhaustive enumeration of initializer trees, executed, object image compared with a reference initializer", E, "about 30 aggregate shapes with every braced/elided/partial/string initializer; larger shapes are not covered"),
 "C10": ("bounded-exhaustive enumeration of signatures and call shapes, executed, against reference values and a second compiler", E, "all parameter-type sequences to the stated length, variadic, indirect, nested and recursive; interoperation with gcc -m32 objects for word-sized scalars"),
 "C11": ("bounded-exhaustive enumeration of float expression programs, executed on a grid of boundary values, against numpy float32", E, "all operator/placement combinations on 37x37 boundary floats and 31 integers; out-of-range conversions excluded; NaN payloads not compared"),
 "C12": ("bounded-exhaustive enumeration of literals, punctuator strings and layouts, against a reference lexer and exact rationals", E, "every byte and escape spelling; every punctuator string to length 3 (quick) or 4 (thorough); every binary exponent of float"),
 "C16": ("bounded-exhaustive enumeration of macro definitions and uses, expanded by the preprocessor, against a model of the standard's algorithm cross-checked with gcc", E, "all one- and two-macro definition bodies over a small token alphabet with all uses to the stated length; undefined cases (judged by the model) and cases where gcc and the model differ (unspecified) are not judged"),
 "C17": ("bounded-exhaustive enumeration of directive sequences, #if expressions, inclusions and character sequences, against a model", E, "all directive sequences and expressions to the stated bounds; the translation phases over all strings of a 12-character alphabet"),
 "C20": ("explicit-state model of the linker, every object set of the families linked and the loaded image compared place by place", E, "2379 object sets (relocation kinds x symbol kinds x sections x addends, block and page boundaries) x every output format; trusts the Python loader model of each format"),
 "C21": ("explicit-state model of symbol selection, every dependency graph and input order linked and compared", M, "all reference graphs over 3-4 objects, all partitions into explicit objects and archives, all orders, GNU and BSD archive styles; larger graphs are not covered"),
 "C22": ("explicit-state model of image layout, every section size/alignment pattern and option value linked and the image checked against the loader's contract", E, "about 70 thousand links over sizes around page, paragraph and 64 KB boundaries; refusals are confirmed by the model's limits; trusts the Python loader model"),
 "C23": ("exhaustive fault and mutation enumeration: every truncation, every field over a value menu, every failing call", X, "all truncation lengths, every structural field of two objects and an archive over a 40-value menu, selected pairs; every single failing read/write/open/seek/close/malloc and persistent write failures in each format; the linker runs under the address sanitizer"),
 "C34": ("bounded-exhaustive enumeration of directive sequences and input strings, executed, against glibc", E, "every directive over every input string to the stated length of its alphabet; see the statement for what is not judged"),
 "C37": ("bounded-exhaustive enumeration of arrays and comparison outcomes, executed, against the definition and glibc", E, "all arrays to the stated length over the keys, all element sizes to 40 bytes with guard bytes, adversarial long patterns by length"),
 "C38": ("exhaustive enumeration of dates, executed, against glibc", E, "every day of the range, boundary seconds, every strftime conversion on every day of 7-year cycles, years 1000-9999 around New Year; TZ=UTC only"),
 "C39": ("exhaustive enumeration of floats by exponent and mantissa pattern (all of them in the thorough tier), executed, against exact or double-precision values", E, "6 million floats per function in the quick tier, all 2^32 in the thorough tier; error bounds for the inexact functions are relative; DOS runs leave out the exponential family, NaN and infinity because of DOSBox's FPU"),
 "C30": ("explicit-state model of a stream, every legal operation sequence to a depth replayed on the library", M, "all legal sequences to depth 4-5 (thorough 5-6) per open mode and buffering mode/size, on an in-memory file system for the bulk, real files for the shallower ones, DOSBox for the 16-bit and huge libraries"),
 "C31": ("exhaustive fault injection: every system request of every operation sequence fails or is cut short in turn, pairs one level less deep", X, "fault kinds: failing, short by one, short to one byte; requests: read, write, lseek, open, close, malloc; rewind and freopen cannot report and are exempt"),
 "C32": ("explicit-state exploration: every sequence of heap operations to a depth against a shadow model of the heap's contents, on the library's own allocator over a scripted sbrk", M, "all sequences to the stated depth over the stated sizes, sbrk failures included; DPMI, Windows and MacOS heaps are not run"),
 "C33": ("bounded-exhaustive enumeration of conversion specifications over boundary values, executed, against glibc", E, "every flag set x width x precision x length x conversion of the menus over 23-33 integers or 53 floats; snprintf at every size; %#g taken from its definition since glibc gets its zeroes wrong"),
 "C35": ("bounded-exhaustive enumeration of strings over an alphabet, converted, against glibc", E, "all strings to the stated length for every base class, boundary numerals for every base, floats around every rounding boundary; no hex floats, no nan(...), no more than 112 digits"),
 "C36": ("bounded-exhaustive enumeration of string/memory arguments with guard bytes, executed, against glibc", E, "all strings to the stated length over the alphabet, all offsets/counts/alignments in a small arena, all character values"),
 "C13": ("explicit-state model of scopes and linkage: every event sequence (open/close block, declare, use, jump, recurse) to a depth, interpreted by the model and executed from compiled code", E, "44 thousand programs over 28 events x 13 file-scope kinds x parameter kinds, every wrong use inserted must be rejected, 1.8 thousand sets of files; deeper nestings are not covered"),
 "C24": ("exhaustive fault enumeration: every failing tool step and every failing file operation of the driver over a set of command lines, in the driver itself with simulated tools, against a model of it", M, "599 command lines x every single failure (pairs in part); the tools are stand-ins that record calls and create files, a sample is repeated with real tools and sh"),
 "C25": ("explicit-state model of the driver: every option/input combination of the families run by the driver itself with simulated tools, command lines and outputs compared with the model", M, "40 thousand command lines over formats, stages, options, response files, quoting, search paths and archives; longer combinations are not covered; host is Linux only"),
 "C26": ("bounded-exhaustive enumeration of directive/instruction sequences, assembled both ways, objects compared", M, "every legal sequence to length 3 (4 thorough) over 23 line kinds and section orders to 5 fragments in 7 layouts, plus all of the library and the tools as the compiler emits them; trusts nasm"),
 "C14": ("bounded-exhaustive enumeration of token sequences, fed to the compiler (address sanitizer, in-process), verdict compared with a grammar and type-rule model", E, "2 million programs (expressions, typed operands, statements, declarators, specifiers, definitions, initializers, any tokens, any bytes) and 60 table limits in three modes; 7.6 thousand programs are left open by the model because the compiler is documented or known to be lax there; longer sequences are not covered"),
}
NOT_APPLICABLE = {}
