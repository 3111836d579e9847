"""C17: #if arithmetic, all nestings of conditional directives, #include search and line positions in the stand-alone preprocessor, against models."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppmodel

PP = ["smlrpp", "-U", "__STDC_VERSION__", "-zI"]
M64 = 1 << 64


class Skip(Exception):
    pass


class Err(Exception):
    pass


def w(v, u):
    v %= M64
    return (v, True) if u else (v - M64 if v >> 63 else v, False)


# an expression: (text, precedence, function of nothing -> (value, unsigned)); evaluation is lazy for && || ?:
def const(text, v, u):
    return text, 99, lambda: (v, u)


CONSTS = []
for t, v in [("0", 0), ("1", 1), ("2", 2), ("7", 7), ("63", 63), ("0x7fffffff", 2**31 - 1), ("2147483648", 2**31), ("0xffffffff", 2**32 - 1), ("0x100000000", 2**32), ("9223372036854775807", 2**63 - 1), ("0777777777777777777777", 2**63 - 1)]:
    CONSTS.append(const(t, v, False))
for t, v in [("0u", 0), ("1U", 1), ("3ul", 3), ("63LU", 63), ("0x80000000u", 2**31), ("0xffffffffffffffff", 2**64 - 1), ("18446744073709551615u", 2**64 - 1), ("0x8000000000000000", 2**63), ("01777777777777777777777", 2**64 - 1), ("9223372036854775808U", 2**63), ("5uLL", 5), ("5LLU", 5), ("5ull", 5)]:
    CONSTS.append(const(t, v, True))
CONSTS += [const("6l", 6, False), const("6LL", 6, False), const("'a'", 97, False), const("'\\n'", 10, False), const("'\\0'", 0, False), const("'\\x41'", 65, False), const("'\\101'", 65, False), const("'\\\\'", 92, False), const("'\\''", 39, False), const("L'a'", 97, False),
           const("UNKNOWN", 0, False), const("int", 0, False), const("sizeof", 0, False), const("defined ONE", 1, False), const("defined(NOT)", 0, False), const("defined ( ONE )", 1, False), const("ONE", 1, False), const("EXPR", 3, False), const("SQ(3)", 9, False), const("FN", 0, False), const("defined FN", 1, False), const("!defined NOT", 1, False), const("__STDC__", 1, False), const("(defined EMPTY)", 1, False)]
CONSTS = [c if c[0] not in ("EXPR",) else c for c in CONSTS]
DEFS = "#define ONE 1\n#define EXPR 1+2\n#define SQ(x) ((x)*(x))\n#define FN(x) x\n#define EMPTY\n"
CONSTS = [(t, 12 if t == "EXPR" else p if not t.startswith("!") else 14, f) for t, p, f in CONSTS]


def un(op, a):
    t, p, f = a
    s = f"{op}{t}" if p >= 14 and t[0] != op else f"{op} ({t})"

    def g():
        v, u = f()
        if op == "-":
            if not u and v == -2**63:
                raise Skip
            return w(-v, u)
        if op == "+":
            return v, u
        if op == "~":
            return w(~v, u)
        return int(v == 0), False
    return s, 14, g


PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10, "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}


def bi(op, a, b, paren=False):
    p = PREC[op]
    # without parentheses the text has to mean this tree, so they are added only where needed
    l = a[0] if a[1] >= p and not paren else f"({a[0]})"
    r = b[0] if b[1] > p and not paren else f"({b[0]})"
    fa, fb = a[2], b[2]

    def g():
        x, ux = fa()
        if op == "&&":
            return (int(fb()[0] != 0) if x else 0), False
        if op == "||":
            return (1 if x else int(fb()[0] != 0)), False
        y, uy = fb()
        if op in ("<<", ">>"):
            if not 0 <= y < 64 or x < 0:
                raise Skip
            r = x << y if op == "<<" else x >> y
            if not ux and r >= 2**63:
                raise Skip
            return w(r, ux)
        u = ux or uy
        x, y = w(x, u)[0], w(y, u)[0]
        if op in ("/", "%"):
            if y == 0:
                raise Err
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            r = q if op == "/" else x - q * y
            if not u and not -2**63 <= q < 2**63:
                raise Skip
            return w(r, u)
        if op in ("+", "-", "*"):
            r = {"+": x + y, "-": x - y, "*": x * y}[op]
            if not u and not -2**63 <= r < 2**63:
                raise Skip
            return w(r, u)
        if op in "&^|":
            return w({"&": x & y, "^": x ^ y, "|": x | y}[op], u)
        return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]), False
    return f"{l} {op} {r}", p, g


def cond(c, a, b):
    def g():
        x = c[2]()[0]
        # the types of both decide the type of the result
        r = (a if x else b)[2]()
        try:
            o = (b if x else a)[2]()
            u = r[1] or o[1]
        except Err:
            u = r[1]      # only signed constants are divided by zero here
        return w(r[0], u)
    lo = lambda e, n: e[0] if e[1] > n else f"({e[0]})"
    return f"{lo(c, 3)} ? {a[0]} : {lo(b, 2)}", 3, g


def litval(v, u):
    return f"{v}u" if u else str(v) if v >= 0 else f"-{-v - 1}-1"


def expressions(full):
    cs = CONSTS
    few = [c for c in cs if c[0] in ("0", "1", "2", "0u", "1U", "9223372036854775807", "0xffffffffffffffff", "0x8000000000000000", "0x100000000", "63", "ONE", "7")]
    neg = [un("-", c) for c in few] + [un("~", c) for c in few]
    for c in cs:
        yield c
        for o in "+-~!":
            yield un(o, c)
            for o2 in "+-~!":
                yield un(o2, un(o, c))
    v = cs + neg + [("-9223372036854775807-1", 12, lambda: (-2**63, False))]
    for o in PREC:
        for a in v:
            for b in v:
                yield bi(o, a, b)
    mid = few if full else few[::2] + [un("-", few[1])]
    for o1 in PREC:
        for o2 in PREC:
            for a in mid:
                for b in mid:
                    for c in mid:
                        yield bi(o2, bi(o1, a, b), c)
                        yield bi(o2, a, bi(o1, b, c))
    for c in few:
        for a in v[::3]:
            for b in v[::3]:
                yield cond(c, a, b)
    z = [few[0], few[1], few[3], neg[0]]
    for a, b, c, d, e in itertools.product(z, z, z, z, z):
        yield cond(a, b, cond(c, d, e))
        yield cond(a, cond(b, c, d), e)
    bad = [bi("/", few[1], few[0]), bi("%", few[1], few[0])]
    for c in few:
        for o in ("&&", "||"):
            for x in bad:
                yield bi(o, c, x)
                yield bi(o, c, bi("+", x, few[1]))
                yield bi(o, bi(o, c, x), few[1])
                yield bi("&&" if o == "||" else "||", bi(o, c, x), few[1])
                yield bi(o, bi(o, c, few[0]), bi(o, few[1], x))
                yield bi(o, c, cond(few[0], x, few[1]))


def evalbatch(job):
    exprs, root, d, k = job
    bad, skip, errs = [], 0, []
    src, items = [DEFS], []
    for t, f in exprs:
        try:
            v, u = f()
        except Skip:
            skip += 1
            continue
        except Err:
            errs.append(t)
            continue
        n = len(items)
        items.append((t, v, u))
        cmp = f"({t}) == {litval(v, u)}" if v >= 0 or u else f"({t}) == ({litval(v, u)})"
        src.append(f"#if {cmp}\n#if ({t})*0u-1>0\nY{n}\n#endif\n#if {'' if u else '!'}(0*({t})-1 > 0)\nS{n}\n#endif\n#endif\n#if {t}\nB{n}\n#endif\n")
    p = f"{d}/e{k}.c"
    open(p, "w").write("".join(src))
    r = vlib.run([root + "/bin/smlrpp", *PP[1:], "-l", p], timeout=200)
    got = set(r.out.decode("latin-1").split())
    if r.rc:
        bad.append((exprs[0][0], f"valid expressions refused: {r!r}"))
    for n, (t, v, u) in enumerate(items):
        if f"Y{n}" not in got or f"S{n}" not in got or (f"B{n}" in got) != (v != 0):
            bad.append((t, f"expected {v}{'u' if u else ''}: equal {f'Y{n}' in got}, signedness right {f'S{n}' in got}, taken {f'B{n}' in got}; {r.err[:300]!r}"))
    os.remove(p)
    return bad, len(items), skip, errs


GARBAGE = ["", "1 +", "+", "* 1", "1 2", "(1", "1)", "()", "1.0", "1e5", ".5", '"a"', "1 = 1", "x = 1", "1 ?", "1 ? 2", "1 : 2", "1 ? : 2", "++1" if 0 else "1 ++", "1 ->", "1 . 1", "a b", "defined", "defined(", "defined(A", "defined 1", "defined()", "1 && ", "|| 1", "1 && (", "!", "~", "08", "0x", "1lul", "1uu", "1lll", "0b1", "1z", "1 # 2", "1 ## 2", "1 ; 2", "{1}", "[1]", "''", "18446744073709551616", "1 @ 2", "1, ", "SQ(", "SQ", "1 += 1", "EMPTY", "1 <<= 1", "1 / 0", "1 % 0", "0 || 1/0", "1 && 1%0", "(0,1/0)", "0 ? 1 : 1/0"]
GARBAGE.remove("SQ")


def conditionals(L, seq):
    """the text selected by a directive sequence, or None if it is unbalanced or has an error in an evaluated expression"""
    st, out = [], []      # st: [taken now, any taken, else seen, outer active]
    for i, x in enumerate(seq):
        act = all(s[0] for s in st)
        if x.startswith("#if"):
            c = {"#if 1": 1, "#if 0": 0, "#ifdef A": 1, "#ifndef A": 0, "#ifdef NA": 0, "#ifndef NA": 1}.get(x)
            if x == "#if (" and act:
                return None
            st.append([bool(c) and act, bool(c) or not act, False])
        elif x.startswith("#elif"):
            if not st:
                return None
            if st[-1][2]:
                return None if act else "?"
            s = st[-1]
            if s[1]:
                s[0] = False
            elif x == "#elif (":
                return None
            else:
                s[0] = s[1] = x == "#elif 1"
        elif x == "#else":
            if not st:
                return None
            if st[-1][2]:
                return None if act else "?"      # in text that is skipped anyway a second #else is only warned about
            s = st[-1]
            s[0], s[1], s[2] = not s[1], True, True
        elif x == "#endif":
            if not st:
                return None
            st.pop()
        elif x == "#error x":
            if act:
                return None
        elif act:
            out.append(f"T{i}")
    return None if st else out


def directive_sequences(full):
    al = ["#if 1", "#if 0", "#elif 1", "#elif 0", "#else", "#endif", "T"]
    n = 7 if full else 6
    for k in range(1, n + 1):
        for s in itertools.product(al, repeat=k):
            if k < n or s[-1] == "#endif" and s[0][:3] == "#if":
                yield s
    al = ["#ifdef A", "#ifndef A", "#ifdef NA", "#ifndef NA", "#if (", "#elif (", "#elif 1", "#else", "#endif", "#error x", "T"]
    for k in range(1, 6 if full else 5):
        for s in itertools.product(al, repeat=k):
            yield s


def seqtext(s):
    return "".join(f"T{i}\n" if x == "T" else x + "\n" for i, x in enumerate(s))


def deep():
    """long runs and deep nesting"""
    for n in (1, 2, 31, 62, 63):
        yield ["#if 1"] * n + ["T"] + ["#endif"] * n + ["T"]
        yield ["#if 0"] * n + ["T"] + ["#else", "T", "#endif"] * n + ["T"]
        yield ["#if 1", "#else"] * n + ["T"] + ["#endif"] * n + ["T"]
        yield ["#if 0"] + ["#elif 0"] * n + ["#elif 1", "T"] + ["#elif 1", "T"] * n + ["#else", "T", "#endif", "T"]


# ---- inclusion
def includes():
    """(files, options, main text, expected tokens or None for failure)"""
    dirs = ["", "s/", "i1/", "i2/"]
    for mask in range(16):
        base = {dirs[k] + "h.h": f"from{k}\n" for k in range(4) if mask >> k & 1}
        for opt in ([], ["-Ii1"], ["-Ii1", "-Ii2"], ["-Ii2", "-Ii1"], ["-I", "i1", "-Ji2"], ["-Ji1"]):
            path = [(o[2:] + "/", "J" in o[:2]) for o in opt if o[2:]] if opt[:1] != ["-I"] else [("i1/", False), ("i2/", True)]
            path = [q for q, j in path if not j] + [q for q, j in path if j]
            for form in ('"h.h"', "<h.h>", "MQ", "MA", 'MC', '"../i2/h.h"' if "s/" else "", '"i2/h.h"'):
                for where in ("m.c", "s/x.h"):
                    cur = os.path.dirname(where)
                    cur = cur + "/" if cur else ""
                    name = "h.h" if form in ('"h.h"', "<h.h>", "MQ", "MA", "MC") else form.strip('"')
                    quoted = form in ('"h.h"', "MQ") or form[0] == '"'
                    cand = ([cur] if quoted else []) + path
                    exp = None
                    for c in cand:
                        f = os.path.normpath(c + name)
                        if f in base and (".." not in name or c):
                            exp = base[f].strip()
                            break
                        if f in base:
                            exp = base[f].strip()
                            break
                    line = f"#define MQ \"h.h\"\n#define MA <h.h>\n#define NM h\n#define MC <NM.h>\n#include {form}\nafter\n"
                    fs = dict(base)
                    if where == "m.c":
                        main = line
                    else:
                        fs[where] = line
                        main = '#include "s/x.h"\n'
                    yield fs, opt, main, None if exp is None else [exp, "after"]
    g = "#ifndef G\n#define G\nbody\n#endif\n"
    yield {"g.h": g}, [], '#include "g.h"\n#include "g.h"\n#undef G\n#include "g.h"\n', ["body", "body"]
    yield {"g.h": g + "tail\n"}, [], '#include "g.h"\n#include "g.h"\n', ["body", "tail", "tail"]
    yield {"g.h": "head\n" + g}, [], '#include "g.h"\n#include "g.h"\n', ["head", "body", "head"]
    yield {"g.h": "#ifndef G\n#define G\nbody\n#else\nagain\n#endif\n"}, [], '#include "g.h"\n#include "g.h"\n', ["body", "again"]
    yield {"g.h": "#ifndef G\nbody\n#endif\n"}, [], '#include "g.h"\n#include "g.h"\n#define G\n#include "g.h"\n', ["body", "body"]
    yield {"g.h": "#if !defined(G)\n#define G\nbody\n#endif\n"}, [], '#include "g.h"\n#include "g.h"\n', ["body"]
    yield {"g.h": "#ifndef G\n#define G\nbody\n#endif\n#ifndef H\n#define H\nmore\n#endif\n"}, [], '#include "g.h"\n#include "g.h"\n', ["body", "more"]
    for n in (1, 5, 40, 100):
        yield {f"r{k}.h": f"a{k}\n#include \"r{k + 1}.h\"\nb{k}\n" for k in range(n)} | {f"r{n}.h": "end"}, [], '#include "r0.h"\nlast\n', [f"a{k}" for k in range(n)] + ["end"] + [f"b{k}" for k in range(n - 1, -1, -1)] + ["last"]
    yield {"g.h": "x\n#if 1\n"}, [], '#include "g.h"\ny\n#endif\n', None
    yield {"g.h": "x\n#endif\n"}, [], '#if 1\n#include "g.h"\ny\n', None
    yield {"g.h": "#define Z 5\n#undef Y\n"}, [], '#define Y 1\n#include "g.h"\nZ Y\n', ["5", "Y"]
    yield {"g.h": "no newline at end"}, [], '#include "g.h"\nnext\n', ["no", "newline", "at", "end", "next"]
    yield {"g.h": ""}, [], '#include "g.h"\nnext\n', ["next"]
    for s in ("#include", "#include h.h", '#include "h.h', "#include <h.h", '#include ""', "#include <>", "#include 1", '#include "g.h" "x"' if 0 else "#include NOPE", '#include "nope.h"', "#include <g.h>"):
        yield {"g.h": "x\n"}, [], s + "\n", None
    yield {"g.h": "x\n"}, [], '#if 0\n#include "nope.h"\n#include\n#endif\ny\n', ["y"]


# ---- line positions
LK = {
    "t": ("T{n}\n", 1), "b": ("\n", 1), "bbb": ("\n" * 12, 12), "d": ("#define Q{n} 1\n", 1), "c": ("T{n} \\\n T{n}b\n", 2), "k": ("T{n} /* x\n y */ \n", 2), "kk": ("/* \n\n\n */ T{n}\n", 4), "m": ("M(\n1\n,\n2)\n", 4),
    "dd": ("#define R{n} 1 \\\n + 2\n", 2), "s": ("#if 0\nskipped\n\n#endif\n", 4), "i": ('#include "inc.h"\n', 1), "x": ("L{n} __LINE__ __FILE__\n", 1), "e": ("#pragma once more\n", 1), "cc": ("// comment \\\n more\n", 2),
    "l": ("#line 50\n", 1), "lf": ('#line 70 "other.c"\n', 1), "lm": ("#line MAC\n", 1), "n": ("#\n", 1),
}


def line_case(keys):
    src, exp = "#define M(a,b) a b\n#define MAC 90 \"mac.c\"\n", {}
    ln, fn = 3, "m.c"
    for n, k in enumerate(keys):
        t, h = LK[k]
        t = t.replace("{n}", str(n))
        src += t
        if k in ("t", "c", "k", "x"):
            exp[("L" if k == "x" else "T") + str(n)] = (fn, ln)
        if k == "kk":
            exp[f"T{n}"] = (fn, ln + 3)
        if k == "x":
            exp[f"#{n}"] = [str(ln), f'"{fn}"']
        ln += h
        if k == "l":
            ln = 50
        elif k == "lf":
            ln, fn = 70, "other.c"
        elif k == "lm":
            ln, fn = 90, "mac.c"
    src += "END\n"
    exp["END"] = (fn, ln)
    return src, exp


def positions(out):
    """token -> (file, line) as a reader of the output would see them"""
    r, fn, ln, toks = {}, None, 1, []
    for line in out.decode("latin-1").split("\n"):
        m = re.match(r'#\s*(?:line)?\s*(\d+)\s+"([^"]*)"', line) or re.match(r"#\s*(?:line)?\s*(\d+)\s*$", line)
        if m:
            ln = int(m.group(1))
            if m.lastindex == 2:
                fn = m.group(2)
            continue
        for t in re.findall(r'"[^"]*"|\w+', line):
            r.setdefault(t, (fn, ln))
            toks.append(t)
        ln += 1
    return r, toks


def linebatch(job):
    cases, root, d, k, opt = job
    os.makedirs(f"{d}/l{k}")
    open(f"{d}/l{k}/inc.h", "w").write("I1\n\nI3 /*\n*/ I4\n#define IQ\n")
    bad = []
    for keys in cases:
        src, exp = line_case(keys)
        open(f"{d}/l{k}/m.c", "w").write(src)
        r = vlib.run([root + "/bin/smlrpp", *PP[1:], *opt, "m.c"], cwd=f"{d}/l{k}", timeout=30)
        pos, toks = positions(r.out)
        if r.rc:
            bad.append((src, f"refused: {r!r}"))
        for t, e in exp.items():
            if t[0] == "#":
                i = toks.index("L" + t[1:]) if "L" + t[1:] in toks else -9
                if toks[i + 1:i + 3] != e:
                    bad.append((src, f"__LINE__ __FILE__ give {toks[i + 1:i + 3]}, expected {e}"))
            elif pos.get(t) != e:
                bad.append((src, f"{t} is reported at {pos.get(t)}, is at {e}; output {r.out!r}"))
        if "i" in keys and (pos.get("I1") != ("inc.h", 1) or pos.get("I3") != ("inc.h", 3)):
            bad.append((src, f"the included file's I1 is reported at {pos.get('I1')}, I3 at {pos.get('I3')}"))
    return bad, len(cases)


# ---- translation phases
PTOK = re.compile(r"\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|\w+|" + "|".join(map(re.escape, ppmodel.PUNCT)) + r"|[^\s]")


def phase_model(s):
    tri = {"=": "#", "/": "\\", "'": "^", "(": "[", ")": "]", "!": "|", "<": "{", ">": "}", "-": "~"}
    s = re.sub(r"\?\?([=/'()!<>-])", lambda m: tri[m.group(1)], s)
    s = s.replace("\\\n", "")
    out, i = [], 0
    while i < len(s):
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                return None
            out.append(" ")
            i = j + 2
        elif s.startswith("//", i):
            while i < len(s) and s[i] != "\n":
                i += 1
        elif s[i] in "\"'":
            q, j = s[i], i + 1
            while j < len(s) and s[j] != q:
                if s[j] == "\n":
                    return None
                j += 2 if s[j] == "\\" else 1
                if j > len(s) or s[j - 1:j] == "\n":
                    return None
            if j >= len(s) or q == "'" and j == i + 1:
                return None
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    t = "".join(out)
    if "\\" in re.sub(r"\"(\\.|[^\"\\])*\"|'(\\.|[^'\\])*'", "", t):
        return None
    return t


def phasebatch(job):
    cases, root, d, k = job
    items = []
    for c in cases:
        m = phase_model(c + "\n")
        if m is not None:
            # comments are gone, so the lexer of the model is not asked to find any
            items.append((c, [x.group() for x in PTOK.finditer(m)]))
    p = f"{d}/ph{k}.c"
    open(p, "w").write("".join(f"{c}\nMARK_{j}\n" for j, (c, _) in enumerate(items)))
    r = vlib.run([root + "/bin/smlrpp", *PP[1:], "-l", p], timeout=100)
    q = vlib.run(["gcc", "-E", "-P", "-w", "-std=c99", "-undef", "-nostdinc", p], timeout=100)
    def split(o):
        res, cur = {}, []
        for x in PTOK.finditer(o.decode("latin-1")):
            if x.group().startswith("MARK_"):
                res[int(x.group()[5:])] = cur
                cur = []
            else:
                cur.append(x.group())
        return res
    a, b = split(r.out), split(q.out)
    bad, un = [], 0
    for j, (c, e) in enumerate(items):
        if b.get(j) != e:
            un += 1
        elif a.get(j) != e:
            bad.append((c, f"tokens {a.get(j)}, the standard's {e}"))
    if r.rc and not bad:
        bad.append((items[0][0], f"valid text refused: {r!r}"))
    return bad, len(items), un


def body(chk):
    full = chk.thorough
    tc = vlib.Toolchain(tools=("smlrpp",))
    d = vlib.scratch("pp")
    tot, per = 0, {}
    def report(fam, bad):
        for src, what in bad[:6]:
            chk.violation(f"{fam}:{src!r}", f"{fam}: {src!r}: {what}", src)
    # expressions
    chunk = lambda l, n: [l[i:i + n] for i in range(0, len(l), n)]
    # the evaluation functions cannot be passed between processes, so each process enumerates its part
    jobs = [(k, 16, full, tc.root, d) for k in range(16)]
    errs, skip = [], 0
    for bad, n, s, e in vlib.ppmap(evalpart, jobs):
        report("if", bad)
        per["expressions"] = per.get("expressions", 0) + n
        skip += s
        errs += e
    bads = [f"{DEFS}#if {g}\nx\n#endif\n" for g in GARBAGE] + [f"{DEFS}#if 0\n#elif {g}\nx\n#endif\n" for g in GARBAGE] + [f"{DEFS}#if {e}\n#endif\n" for e in sorted(set(errs))[:600]]
    bads += [f"#{x}\n" for x in ("ifdef", "ifndef", "if", "else", "endif", "elif 1", "ifdef 1", "ifndef +", "nosuch", "error x", "line", "line x", "line -1", "line 1 x", "line 99999999999", "if 1", "ifdef X", "if 0\n#else", "if 0\n#else\n#else\n#endif", "if 0\n#else\n#elif 1\n#endif")]
    ok = [f"{DEFS}#if 1\n#elif {g}\nx\n#endif\n" for g in GARBAGE if "'" not in g] + [f"{DEFS}#if 0\n#if {g}\nx\n#elif {g}\n#endif\n#endif\n" for g in GARBAGE if "'" not in g] + ["#if 0\n#nosuch\n#error x\n#line x\n#define\n#undef\n#endif\n"]
    for k, s in enumerate(bads + ok):
        open(f"{d}/g{k}.c", "w").write(s)
    for k, (s, r) in enumerate(zip(bads + ok, tc.mrun([[*PP, f"{d}/g{k}.c"] for k in range(len(bads + ok))]))):
        want = k >= len(bads)
        if r.rc < 0 or (r.rc == 0) != want or want and re.search(r"^x", r.out.decode("latin-1"), re.M):
            report("diagnosis", [(s, f"exit {r.rc}, expected {'acceptance' if want else 'refusal'}: {r.out[-200:]!r}")])
    per["diagnoses"] = len(bads + ok)
    # directive sequences
    good, wrong = [], []
    for s in itertools.chain(directive_sequences(full), deep()):
        e = conditionals(None, s)
        if e is None:
            wrong.append(s)
        elif e != "?":
            good.append((s, e))
    for i in range(0, len(good), 4000):
        g = good[i:i + 4000]
        open(d + "/s.c", "w").write("#define A\n" + "".join(seqtext(s) + f"MARK_{j}\n" for j, (s, _) in enumerate(g)))
        r = tc.run([tc.bin + "/smlrpp", *PP[1:], "-l", d + "/s.c"])
        cur, j = [], 0
        for t in r.out.decode().split():
            if t.startswith("MARK_"):
                if cur != g[int(t[5:])][1]:
                    report("nesting", [(seqtext(g[int(t[5:])][0]), f"gives {cur}, expected {g[int(t[5:])][1]}")])
                cur = []
                j += 1
            else:
                cur.append(t)
        if j != len(g) or r.rc:
            for s, e in g:       # find the sequence that does it
                open(d + "/s.c", "w").write("#define A\n" + seqtext(s))
                r = tc.run([tc.bin + "/smlrpp", *PP[1:], "-l", d + "/s.c"])
                if r.rc or r.out.decode().split() != e:
                    report("nesting", [(seqtext(s), f"gives {r!r}, expected {e}")])
                    break
    wrong = [s for s in wrong if len(s) <= (5 if full else 4) or s[0] != "T"]
    if not full:
        wrong = [s for s in wrong if len(s) <= 4]
    for i in range(0, len(wrong), 20000):
        g = wrong[i:i + 20000]
        for j, s in enumerate(g):
            open(f"{d}/w{j}.c", "w").write("#define A\n" + seqtext(s))
        for s, r in zip(g, tc.mrun([[*PP, f"{d}/w{j}.c"] for j in range(len(g))])):
            if r.rc <= 0:
                report("unbalanced", [(seqtext(s), f"exit {r.rc}: {r.out[-200:]!r}")])
    per["directive sequences"], per["unbalanced sequences"] = len(good), len(wrong)
    # inclusion
    inc = list(includes())
    jobs = []
    for k, (fs, opt, main, exp) in enumerate(inc):
        b = f"{d}/inc{k}"
        for p in ("s", "i1", "i2"):
            os.makedirs(f"{b}/{p}")
        for p, t in fs.items():
            open(f"{b}/{p}", "w").write(t)
        open(b + "/m.c", "w").write(main)
        jobs.append(([*PP, "-l", *opt, "m.c"], b, ""))
    for (fs, opt, main, exp), r in zip(inc, tc.mrun(jobs)):
        got = r.out.decode("latin-1").split()
        if (r.rc != 0 if exp is not None else r.rc <= 0) or exp is not None and got != exp:
            report("include", [(f"{fs} {opt} {main}", f"exit {r.rc} {got[:12]}, expected {exp and exp[:12]}")])
    per["inclusions"] = len(inc)
    # positions
    keys = list(LK)
    n = 3 if not full else 4
    lines = [s for k in range(1, n + 1) for s in itertools.product(keys, repeat=k)]
    lines += [s + (x,) for s in itertools.product(("m", "kk", "i", "lf", "s", "bbb", "c"), repeat=3) for x in ("x", "i")]
    for bad, n in vlib.ppmap(linebatch, [(c, tc.root, d, k, []) for k, c in enumerate(chunk(lines, 400))]):
        report("position", bad)
        per["line patterns"] = per.get("line patterns", 0) + n
    # phases
    al = ["a", "\\", "\n", "/", "*", '"', "'", "?", " "]
    ph = ["".join(s) for k in range(1, 7 if full else 6) for s in itertools.product(al, repeat=k)]
    ph += ["".join(s) for s in itertools.product(["??/", "\\\n", "a", '"', "??'", "/*", "*/", "//", "\n", "???", "=", "??!", "<"], repeat=4)]
    ph = [c for c in ph if "#" not in (phase_model(c + "\n") or "")]
    un = 0
    for bad, n, u in vlib.ppmap(phasebatch, [(c, tc.root, d, k) for k, c in enumerate(chunk(ph, 3000))]):
        report("phases", bad)
        per["character sequences"] = per.get("character sequences", 0) + n
        un += u
    tot = sum(per.values())
    chk.log(per, "expressions without a defined value", skip, "phase cases where gcc and the model differ", un)
    chk.samples += [good[100][0].__repr__(), repr(lines[777])]
    chk.finish(states=tot, transitions=tot, evaluations=tot, traces_validated_against_impl=tot, per_family=per, exhaustive=True,
               rule="all operator pairs over boundary constants; all directive sequences up to the bound, balanced or not; all header placements x search paths x include forms; all line-kind triples; all character sequences of five")


def evalpart(job):
    part, parts, full, root, d = job
    res = [[], 0, 0, []]
    cur = []
    def flush():
        if cur:
            b, n, s, e = evalbatch((cur, root, d, f"{part}"))
            res[0] += b
            res[1] += n
            res[2] += s
            res[3] += e
            cur.clear()
    for i, (t, p, f) in enumerate(expressions(full)):
        if i % parts == part:
            cur.append((t, f))
            if len(cur) == 4000:
                flush()
    flush()
    return res[0], res[1], res[2], res[3][:200]


if __name__ == "__main__":
    vlib.main("C17", "exploration", body)
