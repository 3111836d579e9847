"""C38: calendar functions on every day of the range, every strftime conversion, against glibc in UTC."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libdiff

GROUPS = ["strftime: every conversion on every day", "strftime: weeks around New Year", "strftime: times of day", "strftime: every maximum size", "asctime", "gmtime, localtime, ctime, mktime on every day", "gmtime: every second of two days", "mktime", "out of range", "difftime", "time, clock"]


def body(chk):
    full = chk.thorough
    libdiff.check(chk, "tim.c", GROUPS, [
        ("linux", ["-linux"], ["-DDSTEP=1"]),
        ("dosh", ["-dosh"], ["-DDSTEP=%d" % (7 if full else 61), "-DYLO=1890", "-DYHI=2110"]),
        ("dosu", ["-dosu"], ["-DDSTEP=%d" % (7 if full else 61), "-DYLO=1890", "-DYHI=2110"]),
        ("doss", ["-doss"], ["-DI16", "-DYLO=1890", "-DYHI=2110"]),
    ], "every day 1970..2105 at nine times of day through gmtime, localtime, ctime and back through mktime; every second of two days; every strftime conversion (with E and O) on every day of 36 years, the weeks around New Year of the years 1000..9999, every size limit; mktime on every day with unset wday/yday, out-of-range fields refused; difftime over a grid")


if __name__ == "__main__":
    vlib.main("C38", "exploration", body)
