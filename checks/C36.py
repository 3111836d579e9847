"""C36: string.h and ctype.h on every small input, against glibc on the same enumeration."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libdiff

GROUPS = ["character classes, -1..255", "searching one string", "two strings: comparing and searching", "copying", "appending", "memmove overlaps", "memcpy/memmove sizes", "memset", "long strings", "strtok", "strtok restarted", "blocks over 64KB"]


def body(chk):
    full = chk.thorough
    libdiff.check(chk, "str.c", GROUPS, [
        ("linux", ["-linux"], ["-DLEN=%d" % (6 if full else 5), "-DBIG"]),
        ("dosh", ["-dosh"], ["-DLEN=%d" % (4 if full else 3), "-DBIG"]),
        ("dosu", ["-dosu"], ["-DLEN=%d" % (4 if full else 3), "-DBIG"]),
        ("doss", ["-doss"], ["-DLEN=3"]),
        ("dost", ["-dost"], ["-DLEN=3"]),
    ], "every string of length 0..LEN over {a,b,0xE1} and every pair of them, every character code, all overlaps of short moves, all sizes to 71, strtok over all strings to length 5")


if __name__ == "__main__":
    vlib.main("C36", "exploration", body)
