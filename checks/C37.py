"""C37: qsort and bsearch on every small array and structured long ones; predicates over the result."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libdiff

GROUPS = ["every array over n keys", "0-1 and 0-1-2 arrays", "element sizes, alignments, comparison results", "long arrays", "over 64KB", "sorting within a comparison", "bsearch", "bsearch in long arrays"]


def body(chk):
    full = chk.thorough
    libdiff.check(chk, "sort.c", GROUPS, [
        ("linux", ["-linux"], ["-DN1=%d" % (8 if full else 7)]),
        ("dosh", ["-dosh"], ["-DDOS", "-DN1=%d" % (5 if full else 4)]),
        ("dosu", ["-dosu"], ["-DDOS", "-DN1=%d" % (5 if full else 4)]),
        ("doss", ["-doss"], ["-DI16", "-DDOS", "-DN1=4"]),
    ], "every array of n <= N1 elements over n keys in element sizes 1, 4; all 0-1 and 0-1-2 arrays of more elements; sizes 1..40 x alignments x patterns x comparison result magnitudes; long and over-64KB arrays; sorted, a permutation, elements intact, nothing outside touched, comparisons get elements (bsearch: the key first), O(n log n) comparisons; bsearch for every key in every size")


if __name__ == "__main__":
    vlib.main("C37", "exploration", body)
