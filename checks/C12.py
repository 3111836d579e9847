"""C12: literals and tokens."""
import sys, os, itertools, re, shutil
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R
from snip import Snip, check, reject


def flt(x):
    """Fraction >= 0 -> float32 bits, round half even"""
    if x == 0:
        return 0
    e = 0
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length()
    if F(2) ** e > x:
        e -= 1
    e = max(e, -126)
    q = x / F(2) ** (e - 23)
    m = q.numerator // q.denominator
    r = q - m
    if r > F(1, 2) or (r == F(1, 2) and m & 1):
        m += 1
    if m >= 1 << 24:
        m >>= 1
        e += 1
    if e > 127:
        return 0x7f800000
    return m if m < 1 << 23 else ((e + 127) << 23) | (m & 0x7fffff)


def parse(s):
    s = s.rstrip("fFlL").lower()
    m, _, e = s.partition("e")
    i, _, f = m.partition(".")
    return F(int((i or "0") + f)) * F(10) ** (int(e or 0) - len(f))


def dec(x):
    """Exact decimal digits and exponent of a dyadic fraction."""
    k = x.denominator.bit_length() - 1
    n = x.numerator * 5 ** k
    return n, -k


def floats(full):
    out = []
    for i, dot, f, e, s in itertools.product(("", "0", "1", "12", "007", "08", "16777217", "340282346638528859811704183484516925440", "99999999999999999999"), ("", "."), ("", "0", "5", "50", "001", "0000000000000000000000000000000000000000000001", "4999999999999999999999999999999999999"),
                                             ("", "e0", "E+5", "e-5", "e+00", "e-45", "e38", "E-0", "e007"), ("", "f", "F", "l", "L")):
        if not dot and f or not (i or f) or (not dot and not e) or (s in "FlL" and s and (len(i) + len(f) > 4)):
            continue
        out.append(i + dot + f + e + s)
    MANT = [0x800000, 0x800001, 0xffffff, 0xfffffe, 0xaaaaaa, 0x800002, 0xc00000] if full else [0x800000, 0x800001, 0xffffff]
    for e in range(-149, 105):
        ms = list(MANT)
        for m in ms:
            for h in (0, 1):
                x = (F(2 * m + h)) * F(2) ** (e - 1)
                n, k = dec(x)
                ds = str(n)
                while ds[-1] == "0":
                    ds, k = ds[:-1], k + 1
                def put(ds, k):
                    if len(ds) <= 112:
                        out.append(f"{ds[0]}.{ds[1:]}e{k + len(ds) - 1}")
                        if full or e % 8 == 0:
                            out.append(f"{ds}e{k}f")
                            if -60 < k <= 0 and len(ds) < 60:
                                p = ds.rjust(-k + 1, "0")
                                out.append(p[:k] + "." + p[k:] if k else p + ".")
                put(ds, k)
                t = ds + "0" * (111 - len(ds)) if len(ds) < 111 else None   # just above and just below
                if t and h:
                    put(str(int(t) + 1), k - (len(t) - len(ds)))
                    put(str(int(t) - 1), k - (len(t) - len(ds)))
                elif len(ds) > 112:
                    put(ds[:112], k + len(ds) - 112)
                    put(str(int(ds[:112]) + 1), k + len(ds) - 112)
    for m in list(range(1, 40)) + [0x7fffff, 0x7ffffe, 0x400000, 0x3fffff, 0x555555]:  # subnormals
        for h in (0, 1):
            n, k = dec(F(2 * m + h) * F(2) ** -150)
            ds = str(n)
            if len(ds) <= 112:
                out.append(f"{ds}e{k}")
                out.append(f".{ds}e{k + len(ds)}")
                if h and len(ds) < 112:
                    out += [f"{ds}1e{k - 1}", f"{int(ds) * 10 - 1}e{k - 1}"]
    n, k = dec(F(2) ** -150)
    out += [f"{n}e{k}", f"{n}1e{k - 1}", f"{n * 10 - 1}e{k - 1}", "0e0", "0.0", ".0", "0e99999", "0.000e-99999", "1e-99999", "1e99999", "1e38", "1e39", "3.4028235e38", "3.40282356779733661637539395458142568447e38", "3.40282356779733661637539395458142568448e38", "3.4028236e38", "1e-45", "1e-46", "7e-46", "8e-46", "1.17549435e-38", "1.17549428e-38", "0x1p0"[:0] or "1.0"]
    for k in range(-50, 45):
        for d in ("1", "9", "7205759403792793", "123456789", "1." + "0" * 50 + "1"):
            out.append(f"{d}e{k}")
    return out


def f_floats(full):
    L = floats(full)
    for k in range(0, len(L), 40):
        p = L[k:k + 40]
        e = [flt(parse(s)) for s in p]
        yield Snip("static float t[]={" + ",".join(p) + f"}};int i;for(i=0;i<{len(p)};i++)o(*(int*)(t+i));", e, key="float data:" + p[0])
        if full or k % 120 == 0:
            yield Snip("float t;" + "".join(f"t={s};o(*(int*)&t);" for s in p[:20]), e[:20], key="float code:" + p[0])
    yield Snip("o(sizeof 1.0);o(sizeof 1e3f);o(sizeof 1.L);o(1.5>1);o(3/2.0==1.5);o(sizeof(1.0+1));", [4, 4, 4, 1, 1, 4])


def ints(w):
    """(text, value, unsigned) for every base, suffix and boundary magnitude"""
    M = 1 << w
    V = sorted({0, 1, 7, 8, 9, 10, 15, 16, 63, 64, 77, 99, 127, 128, 255, 256, 1000, 32767, 32768, 65535} | {M - 1, M - 2, M // 2, M // 2 - 1, M // 2 + 1} | {1 << k for k in range(w)} | {(1 << k) - 1 for k in range(w)} | ({12345678, 0xdeadbeef, 0x9ABCDEF0, 0x01234567, 2147483646, 4294967294} if w == 32 else {12345, 0xbeef}))
    V = [v for v in V if v < M]
    suf = ["", "u", "U"] + (["l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU"] if w == 32 else [])
    for v in V:
        for t in {"%d" % v, "0%o" % v, "00%o" % v, "000000000000000000000000%o" % v, "0x%x" % v, "0X%X" % v, "0x%X" % v, "0x000000000000%x" % v, "0X0%x" % v}:
            if v == 0 and t == "00":
                pass
            for s in suf:
                u = "u" in s.lower()
                d = t[0] != "0"
                if v >= M // 2 and d and not u:
                    continue
                yield t + s, v, u or v >= M // 2


def f_ints(w):
    it = ints(w)
    while True:
        p = list(itertools.islice(it, 30))
        if not p:
            return
        yield Snip("".join(f"o({t});o(({t})*0-1>0);o(sizeof({t}));" for t, _, _ in p), [x for _, v, u in p for x in (v, int(u), w // 8)], key="int:" + p[0][0])
        yield Snip("static unsigned d[]={" + ",".join(t for t, _, _ in p) + "};int i;for(i=0;i<%d;i++)o(d[i]);" % len(p), [v for _, v, _ in p], key="int data:" + p[0][0])


def chars(w, raw=True):
    """(spelling inside quotes, byte)"""
    for b in range(256):
        if b not in (0, 10, 13, 92) and raw and (b >= 32 or b in (9, 11, 12)):
            yield chr(b), b
        yield "\\x%x" % b, b
        yield "\\x%02X" % b, b
        yield "\\x00%x" % b, b
        yield "\\%o" % b, b
        yield "\\%03o" % b, b
    for c, v in zip("abfnrtv'\"?\\", (7, 8, 12, 10, 13, 9, 11, 39, 34, 63, 92)):
        yield "\\" + c, v


def sg(b, signed=True):
    return b - 256 if b >= 128 and signed else b


def f_chars(w, signed=True):
    L = [(s, b) for s, b in chars(w) if s != "'"]
    for k in range(0, len(L), 40):
        p = L[k:k + 40]
        yield Snip("".join(f"o('{s}');" for s, _ in p), [sg(b, signed) for _, b in p], key="char:" + repr(p[0]))
        yield Snip("static int d[]={" + ",".join(f"'{s}'" for s, _ in p) + "};int i;for(i=0;i<%d;i++)o(d[i]);" % len(p), [sg(b, signed) for _, b in p], key="char data:" + repr(p[0]))
    m = lambda b: sum(x << (8 * (len(b) - 1 - i)) for i, x in enumerate(b))
    for t in (["ab", "abc", "abcd", "\\0a", "a\\0", "\\377\\376", "\\x80zb", "'\\''"[1:-1] + "x"] if w == 32 else ["ab", "\\0a", "\\377\\376"]):
        v = t.encode().decode("unicode_escape").encode("latin-1")
        yield Snip(f"o('{t}');o(sizeof '{t}');", [m(v), w // 8])
    yield Snip("o(sizeof 'a');o('a'*0-1>0);o('\\0');o('\\000');o('\\x0');o('\"');o('\\'');", [w // 8, 0, 0, 0, 0, 34, 39])


def f_strings(w, full, signed=True):
    L = [(s, b) for s, b in chars(w) if s != '"']
    n = 24
    for k in range(0, len(L), n):
        p = L[k:k + n]
        # an escape is followed by what does not extend it
        def sep(s, nxt):
            return s
        txt, exp = "", []
        for s, b in p:
            txt += s + "g"
            exp += [b, 103]
        yield Snip(f'char*p="{txt}";int i;o(sizeof "{txt}");for(i=0;i<{len(exp) + 1};i++)o((unsigned char)p[i]);', [len(exp) + 1] + exp + [0], key="string:" + repr(p[0]))
        yield Snip(f'static char a[]="{txt}";int i;o(sizeof a);for(i=0;i<{len(exp) + 1};i++)o(a[i]);', [len(exp) + 1] + [sg(x, signed) for x in exp] + [0], key="string data:" + repr(p[0]))
    # each byte followed by each class of character
    for s, b in [("\\x1", 1), ("\\x12", 0x12), ("\\1", 1), ("\\12", 10), ("\\123", 83), ("\\0", 0), ("\\00", 0), ("\\000", 0), ("\\n", 10), ("\\\\", 92), ("\\\"", 34), ("\\'", 39), ("\\?", 63), ("%", 37), ("\\x0F", 15), ("\\377", 255), ("a", 97)]:
        for f in "0 7 8 9 a f g n x z ' ? % ; / *".split():
            t = s + f
            hexd = s[:2] == "\\x" and f in "0789af"
            octd = s[1:2].isdigit() and len(s) < 4 and f in "07"
            for txt, e in ((None if hexd or octd else t, [b, ord(f)]), (s + '""' + f, [b, ord(f)]), (s + '" "' + f, [b, ord(f)]), (s + '"\n"' + f, [b, ord(f)]), (s + '"/*"*/"' + f, [b, ord(f)])):
                if txt:
                    yield Snip(f'char*p="{txt}";char a[]="{txt}";int i;o(sizeof "{txt}");o(sizeof a);for(i=0;i<3;i++){{o(p[i]&255);o(a[i]&255);}}', [3, 3] + [x for v in e + [0] for x in (v, v)])
            if octd:
                v = int(s[1:] + f, 8)
                if v < 256:
                    yield Snip(f'char*p="{t}";o(sizeof "{t}");o(p[0]&255);o(p[1]);', [2, v, 0])
    for parts in itertools.product(('""', '"a"', '"bc"', '"\\0"', '"\\x41"'), repeat=3):
        v = "".join(p[1:-1] for p in parts).replace("\\x41", "A").replace("\\0", "\0")
        e = [ord(c) for c in v] + [0]
        for sp in ("", " ", "\n", "/**/"):
            if sp == "" and False:
                continue
            t = sp.join(parts)
            yield Snip(f"char*p={t};static char a[]={t};int i;o(sizeof({t}));o(sizeof a);for(i=0;i<{len(e)};i++){{o(p[i]);o(a[i]);}}o({t}[{len(e) - 1}]);", [len(e)] * 2 + [x for c in e for x in (c, c)] + [0])
    for n in (100, 120, 127, 128, 200, 240, 254, 255, 256, 257, 300, 509, 511, 512, 513, 1000):
        t = "".join(chr(97 + (i * 7) % 26) for i in range(n))
        chunks = [t[i:i + 100] for i in range(0, n, 100)]
        yield Snip('char*p=' + " ".join(f'"{c}"' for c in chunks) + f';int i,h=0;o(sizeof("{t}"));for(i=0;p[i];i++)h=h*7+p[i]&4095;o(i);o(h);', [n + 1, n, hsh(t)], key=f"long string {n}")
        yield Snip(f'static char p[]="{t}";int i,h=0;o(sizeof p);for(i=0;p[i];i++)h=h*7+p[i]&4095;o(i);o(h);', [n + 1, n, hsh(t)], key=f"long string data {n}")
    yield Snip('o("a"!=0);o(*"xyz");o("xyz"[1]);o(*("xyz"+2));o(1["ab"]);o(sizeof "abc");o(sizeof("abc"+1));', [1, 120, 121, 122, 98, 4, w // 8])


def hsh(t):
    h = 0
    for c in t:
        h = h * 7 + ord(c) & 4095
    return h


def f_wide(size, signed, w):
    ty = {(2, 0): "unsigned short", (2, 1): "short", (4, 0): "unsigned", (4, 1): "int"}[size, signed]
    wr = lambda v: v - (1 << 8 * size) if signed and v >> (8 * size - 1) else v
    L = [(chr(b), b) for b in range(32, 127) if chr(b) not in "'\"\\"] + [("\\" + c, v) for c, v in zip("abfnrtv'\"?\\", (7, 8, 12, 10, 13, 9, 11, 39, 34, 63, 92))]
    L += [("\\%o" % b, b) for b in range(0, 256, 5)] + [("\\x%x" % v, v) for k in range(0, 8 * size) for v in (1 << k, (1 << k) + (1 << k) - 1)] + [("\\x%X" % v, v) for v in (0xff, 0xfedc, 0x8000, 0x7fff)] + [("\\x00000%x" % v, v) for v in (1, 0xffff)]
    for k in range(0, len(L), 25):
        p = L[k:k + 25]
        yield Snip("".join(f"o(L'{s}');" for s, _ in p), [wr(v) for _, v in p], key="wchar:" + repr(p[0]))
        txt = "".join(s + "g" for s, v in p)
        e = [x for s, v in p for x in (v, 103)] + [0]
        yield Snip(f'{ty}*p=L"{txt}";static {ty} a[]=L"{txt}";int i;o(sizeof L"{txt}"/{size});o(sizeof a/{size});for(i=0;i<{len(e)};i++){{o(p[i]);o(a[i]);}}', [len(e)] * 2 + [wr(v) for x in e for v in (x, x)], key="wstring:" + repr(p[0]))
    yield Snip(f'{ty}*p=L"ab" L"cd";{ty} b[4]=L"xyz";static {ty} c[2]=L"xy";o(p[0]);o(p[3]);o(p[4]);o(b[2]);o(b[3]);o(c[1]);o(sizeof(L"ab" L"c"));o(L"pq"[1]);o(sizeof L\'a\');o(L\'a\'*0-1>0);',
               [97, 100, 0, 122, 0, 121, 4 * size, 113, size, int(size * 8 >= w and not signed)])


BAD = [("int a=%s;" % t, False, t) for t in ("08", "09", "018", "0x", "0xg", "0X", "1uu", "1lul", "1ll", "1llu", "123abc", "4294967296", "4294967296u", "0x100000000", "040000000000", "99999999999", "2147483648", "2147483648l", "3000000000", "0xfffffffff", "0777777777777", "1e", "1e+", "1.5e-", "1.5ff", "1.5fl", "1.5u", "1..5", "1.2.3", "''", "'", "'a", "'abcde'", "'\\400'", "'\\777'", "'\\x'", "'\\x100'", "'\\xg'", "L''", "L'ab'", "L'\\x10000'", '"', '"abc', "'\n'", "1_", "0b1", "@", "`", "$", "1 2", "\"a\" 1", "\\", "#")]
BAD += [("char*p=%s;" % t, False, "p=" + t) for t in ('"abc\n"', '"\\x"', '"\\xg"', '"\\x123"', '"\\400"', '"a', '"a\\"')] + [("/* abc", False, "comment"), ("/* abc *", False, "comment2"), ("int a;/*/", False, "comment3"), ('int*p=L"a" "b";', False, "mixed"), ('char*p="a" L"b";', False, "mixed2")]
BAD += [("int a=%s;" % t, True, t) for t in ("1", "0", "00", "0777", "2147483647", "0xffffffff", "037777777777", "4294967295u", "0x80000000", "1lu", "1Ul", "'a'", "'abcd'", "'\\377'", "'\\xff'", "'\\0377'"[:0] or "'\\037'", "1//\n", "1/**/", "1/*/*/", "1/* * / // */", "1/*\n\n*/", "1 /* \" ' */", "L'\\xffff'")]
BAD16 = [("int a=%s;" % t, False, t) for t in ("65536", "65536u", "0x10000", "0200000", "32768", "40000", "1l", "1L", "1ul", "'abc'", "0xfffff")] + [("int a=%s;" % t, True, t) for t in ("65535u", "0xffff", "0177777", "32767", "'ab'", "0x8000")]

OPS = "++ -- += -= -> != == <= << <<= >= >> >>= && &= || |= ^= ... *= %= /=".split() + list("+-!=<>&|^.*%/,;:?~()[]{}")
OPS.sort(key=lambda s: -len(s))


def lex(s):
    out = []
    while s:
        if s[0] in " ":
            s = s[1:]
            continue
        for o in OPS:
            if s.startswith(o):
                out.append(o)
                s = s[len(o):]
                break
        else:
            k = 1
            while k < len(s) and s[k].isalnum():
                k += 1
            out.append(s[:k])
            s = s[k:]
    return out


def munch(chk, tc, n, extra):
    """Every punctuator string to length n (and adjacent operands), as written and spaced by a reference lexer, in an expression."""
    A = "+-!=<>&|^.*%/?~"
    words = [f"a{''.join(p)}b" for k in range(1, n + 1) for p in itertools.product(A, repeat=k)]
    words += [f"{x}{''.join(p)}{y}" for k in (1, 2) for p in itertools.product("+-<>&|=*.!", repeat=k) for x, y in (("a", "1"), ("1 ", "a"), ("s", "m"), ("p", "m"), ("a++", "++b"), ("(a)", "(b)"), ("t[0]", "(1)"), ("'a'", "'b'"))]
    words += extra
    import re
    words = [w for w in words if "/*" not in w and "//" not in w and not re.search(r"\.[0-9]|[0-9]\.", w)]
    d = vlib.scratch("munch")
    pairs, srcs = [], {}
    for w in words:
        L = []
        for tok in re.findall(r"'.'|[A-Za-z0-9_]+|[^A-Za-z0-9_']+", w):
            L += [tok] if tok[0].isalnum() or tok[0] in "'_" else lex(tok)
        pairs.append((w, " ".join(L)))
        for x in pairs[-1]:
            srcs.setdefault(x, len(srcs))
    jobs = []
    for e, k in srcs.items():
        with open(f"{d}/m{k}.c", "w") as f:
            f.write("struct S{int m;}s,*p;int t[3];int f(int a,int b){int*q;q=&a;return " + e + ";}\n")
        jobs.append((["smlrc", "-seg32", "-nopp", f"m{k}.c", f"m{k}.asm"], d, ""))
    R_ = tc.mrun(jobs)
    asm = lambda e: open(f"{d}/m{srcs[e]}.asm").read() if R_[srcs[e]].rc == 0 else None
    acc = [0]
    for w, sp in pairs:
        x, y, rx, ry = asm(w), asm(sp), R_[srcs[w]], R_[srcs[sp]]
        acc[0] += x is not None
        if x != y or rx.rc < 0 or ry.rc < 0:
            chk.violation("munch:" + w, f"'{w}' and '{sp}' do not compile to the same code: {rx!r} {ry!r}", w)
    rp = tc.mrun([(["smlrpp", f"m{srcs[w]}.c", "-o", f"p{k}.c"], d, "") for k, (w, _) in enumerate(pairs)])
    rq = tc.mrun([(["smlrc", "-seg32", "-nopp", f"p{k}.c", f"p{k}.asm"], d, "") for k in range(len(pairs))])
    for k, (w, sp) in enumerate(pairs):
        x = asm(sp)
        y = open(f"{d}/p{k}.asm").read() if rp[k].rc == 0 and rq[k].rc == 0 else None
        if re.search(r"\?\?[=/'()!<>-]", w):   # a trigraph
            continue
        if x != y or rp[k].rc < 0 or rq[k].rc < 0:
            chk.violation("ppmunch:" + w, f"'{w}' through the preprocessor and '{sp}' do not compile to the same code: {rp[k]!r} {rq[k]!r}", w)
    shutil.rmtree(d)
    chk.log(f"maximal munch: {len(words)} strings, {acc[0]} accepted")
    return len(words)


PROG = ["int", " ", "f", "(", "int", " ", "a", ",", "char", "*", "p", ")", "{", "struct", " ", "S", "{", "int", " ", "m", ";", "}", "s", ",", "*", "q", ";", "static", " ", "int", " ", "t", "[", "]", "=", "{", "1", ",", "0x2F", ",", "033", ",", "'c'", ",", "'\\n'", "}", ";", "q", "=", "&", "s", ";", "q", "->", "m", "=", "a", "<<=", "3", ";", "a", "+=", "s", ".", "m", "++", ";",
        "if", "(", "a", ">=", "12", "&&", "a", "!=", "t", "[", "1", "]", "||", "!", "p", ")", "return", " ", "t", "[", "2", "]", "^", "-", "1", ";", "else", " ", "a", "=", "a", "--", "-", "*", "\"st\\x41r\"", "+", "\"zx\"", "\"cat\"", "[", "2", "]", ";", "return", " ", "sizeof", "(", "a", ")", "+", "1.5e1f", "*", "a", ";", "}"]


def layout_(chk, tc):
    """Comments, white space and line splices between and inside tokens leave the program as it is."""
    d = vlib.scratch("lay")
    base = "".join(PROG) + "\n"
    seps = ["/**/", "/***/", "/* */", "/*\n*/", "/*'*/", "/*\"*/", "/*//*/", "/*/*/", " //x\n", "//\"\n", "//'\n", "\t", "\f", "\v", "\n", "\r\n", "\n\n\n", "/*\r\n*/", "/*\\*/", "/*a*b/c**/", " "]
    jobs = []
    for i in range(1, len(PROG)):
        for s in seps:
            jobs.append((f"sep {s!r} before token {i}", "".join(PROG[:i]) + s + "".join(PROG[i:]) + "\n", False))
            if i % 3 == 0:
                jobs.append((f"pp sep {s!r} before token {i}", "".join(PROG[:i]) + s + "".join(PROG[i:]) + "\n", True))
    for s in seps:
        jobs.append((f"sep {s!r} everywhere", s.join(PROG) + s + "\n", False))
        jobs.append((f"pp sep {s!r} everywhere", s.join(PROG) + s + "\n", True))
    for i in range(1, len(base) - 1):
        jobs.append((f"splice at {i}", base[:i] + "\\\n" + base[i:], True))
        if i % 5 == 0:
            jobs.append((f"double splice at {i}", base[:i] + "\\\n\\\n" + base[i:i + 2] + "\\\n" + base[i + 2:], True))
    jobs.append(("splice everywhere", "\\\n".join(base[:-1]) + "\n", True))
    jobs.append(("no final newline", base[:-1], False))
    jobs.append(("final comment", base[:-1] + "/**/", False))
    jobs.append(("empty tail", base + "\n\n \t\n", False))
    jobs.insert(0, ("plain", base, False))
    jobs.insert(1, ("plain through the preprocessor", base, True))
    for k, (_, src, pp) in enumerate(jobs):
        with open(f"{d}/l{k}.c", "w", newline="") as f:
            f.write(src)
    PP = [k for k, j in enumerate(jobs) if j[2]]
    rp = dict(zip(PP, tc.mrun([(["smlrpp", f"l{k}.c", "-o", f"l{k}.i"], d, "") for k in PP])))
    rc = tc.mrun([(["smlrc", "-seg32", *(["-nopp", f"l{k}.i"] if j[2] else [f"l{k}.c"]), f"l{k}.asm"], d, "") for k, j in enumerate(jobs)])
    want = None
    for k, j in enumerate(jobs):
        t = None
        if rc[k].rc == 0 and (k not in rp or rp[k].rc == 0):
            t = re.sub(r"(?m)\n+", "\n", re.sub(r"(?m)^;.*$", "", open(f"{d}/l{k}.asm").read()))
        if k == 0:
            want = t
        if t is None or t != want:
            chk.violation("layout:" + j[0], f"{j[0]} changes the program: {rp.get(k)!r} {rc[k]!r}", j[1])
    shutil.rmtree(d)
    chk.log(f"layout: {len(jobs)} variants")
    return len(jobs)


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds"))
    st = R.Stats()
    m32, m16 = C.Model(32), C.Model(16)
    L = R.LinuxBackend(tc)
    LP = R.LinuxBackend(tc, name="linux+pp", nopp=False)
    D = R.DosBackend(tc, ("-doss",), "doss", False)
    check(chk, L, m32, f_floats(chk.thorough), 20, st, "floats", "", 400)
    check(chk, L, m32, f_ints(32), 30, st, "integers", "", 400)
    check(chk, D, m16, f_ints(16), 25, st, "integers", "", 400)
    if chk.thorough:
        check(chk, LP, m32, f_ints(32), 30, st, "integers", "", 400)
        check(chk, LP, m32, f_floats(False), 20, st, "floats", "", 400)
        check(chk, R.MipsBackend(tc), m32, f_ints(32), 30, st, "integers", "", 400)
    for sgn in (True, False):
        be = R.LinuxBackend(tc, ("-linux",) + (() if sgn else ("-unsigned-char",)), "linux" if sgn else "linux-uchar")
        check(chk, be, m32, f_chars(32, sgn), 30, st, "chars", "", 400)
        check(chk, be, m32, f_strings(32, False, sgn), 30, st, "strings", "", 400)
    check(chk, LP, m32, f_strings(32, False), 30, st, "strings", "", 400)
    check(chk, LP, m32, f_chars(32), 30, st, "chars", "", 400)
    check(chk, R.MipsBackend(tc), m32, itertools.chain(f_strings(32, False), f_chars(32)), 60, st, "strings", "", 400)
    check(chk, D, m16, f_chars(16), 30, st, "chars", "", 400)
    check(chk, D, m16, f_strings(16, False), 25, st, "strings", "", 400)
    for size, signed in itertools.product((2, 4), (0, 1)):
        be = R.LinuxBackend(tc, ("-linux", "-long-wchar" if size == 4 else "-short-wchar", "-signed-wchar" if signed else "-unsigned-wchar"), f"linux-w{size}{signed}")
        check(chk, be, m32, f_wide(size, signed, 32), 30, st, "wide", "", 400)
    check(chk, D, m16, f_wide(2, 0, 16), 30, st, "wide", "", 400)
    n = reject(chk, tc, [("int x;\n" + s, w, k) for s, w, k in BAD], ("smlrc", "-seg32", "-nopp"))
    n += reject(chk, tc, BAD16, ("smlrc", "-seg16", "-nopp"), cwdname="rej16")
    n += munch(chk, tc, 4 if chk.thorough else 3, [])
    n += layout_(chk, tc)
    st.families["rejections, punctuator strings and layouts"] = n
    chk.finish(evaluations=st.evals + n, distinct_nontrivial=st.funcs + n,
               rule="integer literals: 9 spellings x 13 suffixes x boundary magnitudes; character and string literals: every byte in every spelling, escapes before every class of character, 3-way concatenations; wide literals under the 4 wchar_t options; float literals against exact rationals (every binary exponent x boundary mantissas, midpoints and their neighbours); every punctuator string to the stated length against a reference lexer; comments, blanks and splices at every position",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C12", "exploration", body)
