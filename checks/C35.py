"""C35: strtol, strtoul, strtof, strtod, atoi, atol, atof on every short string and on all boundary strings, against glibc."""
import sys, os
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libdiff
import numpy as np

GROUPS = ["atoi, atol", "strtol, strtoul: short strings", "strtol, strtoul: limits in every base", "strtof: short strings", "strtof: inf, nan", "strtof: magnitudes", "strtof: midpoints between floats"]


def dec(fr):
    """exact decimal expansion of a dyadic fraction"""
    k = fr.denominator.bit_length() - 1
    n = fr.numerator * 5 ** k
    s = str(n).rjust(k + 1, "0")
    return (s[:-k] + "." + s[-k:]) if k else s


def midpoints(full, dos):
    out = []
    step = 1 if full else 2
    if dos:
        step = 24 if not full else 6
    for e in range(-149, 105, step):
        lo = [1, 2, 3] if e == -149 else []
        for m in lo + [0x800000, 0x800001, 0xffffff, 0xaaaaaa]:
            mid = (Fraction(m) + Fraction(1, 2)) * Fraction(2) ** e
            s = dec(mid)
            if len(s.replace(".", "").strip("0")) > 110:
                continue
            out.append(s)
            if "." in s:
                out += [s + "1", s[:-1] + "49", s.rstrip("5") + "4" if s.endswith("5") else s]
            else:
                n = int(s)
                out += [str(n + 1), str(n - 1), s + ".0000", str(n - 1) + ".99"]
            d = s.replace(".", "").lstrip("0")
            if len(d) > 12 and "." in s:
                sh = len(s.split(".")[1])
                out.append(d[:5] + "." + d[5:] + "e%d" % (len(d) - 5 - sh))
    return [s for s in out if len(s) < 250]


def body(chk):
    full = chk.thorough
    libdiff.check(chk, "cvt.c", GROUPS, [
        ("linux", ["-linux"], ["-DLEN=%d" % (5 if full else 4), "-DFLEN=%d" % (6 if full else 5)]),
        ("dosh", ["-dosh"], ["-DLEN=%d" % (3 if full else 2), "-DFLEN=%d" % (4 if full else 3)]),
        ("dosu", ["-dosu"], ["-DLEN=2", "-DFLEN=3"]),
        ("doss", ["-doss"], ["-DI16"]),
    ], "every string to length LEN over ' +-019xXazfg' in 6 bases, the limits +-2 in every base with prefixes and suffixes, every string to length FLEN over '+-.01e9E ', exact midpoints between adjacent floats (every other exponent) and their neighbours; value, end pointer, errno",
        prep=lambda name, d: open(d + "/IN.TXT", "w").write("".join(s + "\n" for s in midpoints(full, name != "linux"))))


if __name__ == "__main__":
    vlib.main("C35", "exploration", body)
