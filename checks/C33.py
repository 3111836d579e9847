"""C33: formatted output, every conversion specification over boundary values, against glibc."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libdiff

G = ["%" + c for c in "diouxX"] + ["%c", "%s", "snprintf sizes", "%n, %%, several arguments", "files"]
GROUPS = G + ["%" + c for c in "eEfFgG"] + ["floats of every exponent", "mixed arguments"]


def body(chk):
    full = chk.thorough
    w, p, fw, fp = (8, 9, 4, 9) if full else (6, 6, 3, 6)
    libdiff.check(chk, "prt.c", GROUPS, [
        ("linux", ["-linux"], ["-DNW=8", "-DNP=9", "-DFW=4", "-DFP=9", "-DLI=int"]),
        ("dosh", ["-dosh"], ["-DNW=4", "-DNP=4", "-DFW=2", "-DFP=4", "-DLI=int"]),
        ("doss", ["-doss"], ["-DI16", f"-DNW={w}", f"-DNP={p}", "-DFW=1", "-DFP=1", "-DLI=int"]),
    ] + ([("dosu", ["-dosu"], ["-DNW=3", "-DNP=3", "-DFW=2", "-DFP=3", "-DLI=int"])] if full else []),
        "every flag set x width x precision x length modifier x conversion over 23-33 integers or 53 floats; snprintf at every buffer size with guard bytes; %n; literal text; argument stepping over all triples; floats of every exponent x 4 mantissas; text and return value compared")


if __name__ == "__main__":
    vlib.main("C33", "exploration", body)
