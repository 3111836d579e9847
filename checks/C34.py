"""C34: the scanf family. Every directive and pair of directives x every input text to a length, against a model of the standard's text."""
import sys, os, struct, shutil, functools, itertools
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

WS = b" \t\n\v\f\r"
SL = 16


# ---- the model: parse(format) -> directives; item(directive, text) -> (status, consumed, value)
@functools.lru_cache(None)
def parse(fmt):
    out, i = [], 0
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c in [bytes([w]) for w in WS]:
            while i < len(fmt) and fmt[i] in WS:
                i += 1
            out.append((" ",))
        elif c != b"%":
            out.append(("lit", fmt[i]))
            i += 1
        else:
            i += 1
            sup = fmt[i:i + 1] == b"*"
            i += sup
            w = 0
            while fmt[i:i + 1].isdigit():
                w = w * 10 + int(fmt[i:i + 1])
                i += 1
            l = ""
            if fmt[i:i + 2] == b"hh":
                l, i = "hh", i + 2
            elif fmt[i:i + 1] in b"h l L j z t".split():
                l, i = chr(fmt[i]), i + 1
            k = chr(fmt[i])
            i += 1
            s = None
            if k == "[":
                j = i + (fmt[i:i + 1] == b"^")
                e = fmt.index(b"]", j + 1)
                s = (fmt[j:e], j > i)
                i = e + 1
            k = {"X": "x", "p": "x", "F": "e", "f": "e", "g": "e", "G": "e", "E": "e"}.get(k, k)
            out.append((k, sup, w or None, l, s))
    return tuple(out)


def float_bits(neg, dec, exp):
    """correctly rounded (to nearest even) single-precision value of dec * 10^exp"""
    if dec == 0:
        return neg << 31
    n = len(str(dec)) + exp
    if n > 60:
        return neg << 31 | 0x7f800000
    if n < -60:
        return neg << 31
    f = Fraction(dec) * Fraction(10) ** exp
    e = f.numerator.bit_length() - f.denominator.bit_length()
    if Fraction(2) ** e > f:
        e -= 1
    e = max(e, -126)
    q = f / Fraction(2) ** (e - 23)
    m = q.numerator // q.denominator
    r = q - m
    if r > Fraction(1, 2) or r == Fraction(1, 2) and m & 1:
        m += 1
    if m == 1 << 24:
        m, e = 1 << 23, e + 1
    if e > 127:
        return neg << 31 | 0x7f800000
    return neg << 31 | ((e + 127) << 23 | (m & 0x7fffff) if m >> 23 else m)


def num_ok(s, base):
    """-> (is a prefix of an integer, is an integer)"""
    t = s[1:] if s[:1] in (b"+", b"-") else s
    t = t.lower()
    if base in (0, 16) and t[:2] == b"0x":
        d = t[2:]
        ok = all(c in b"0123456789abcdef" for c in d)
        return ok, ok and len(d) > 0
    if base == 0:
        base = 8 if t[:1] == b"0" else 10
    dig = b"0123456789abcdef"[:base]
    ok = all(c in dig for c in t)
    return ok, ok and len(t) > 0


def num_val(s, base):
    neg = s[:1] == b"-"
    t = s[1:] if s[:1] in (b"+", b"-") else s
    t = t.lower()
    if base in (0, 16) and t[:2] == b"0x":
        return neg, int(t[2:], 16)
    if base == 0:
        base = 8 if t[:1] == b"0" else 10
    return neg, int(t, base)


def flt_ok(s):
    t = (s[1:] if s[:1] in (b"+", b"-") else s).lower()
    for w, full in ((b"infinity", (3, 8)), (b"nan", (3,))):
        if t and w.startswith(t):
            return True, len(t) in full
    i = 0
    while t[i:i + 1].isdigit():
        i += 1
    d = i
    if t[i:i + 1] == b".":
        i += 1
        while t[i:i + 1].isdigit():
            i += 1
            d += 1
    if i == len(t):
        return True, d > 0
    if t[i:i + 1] != b"e" or not d:
        return False, False
    x = t[i + 1:]
    y = x[1:] if x[:1] in (b"+", b"-") else x
    ok = y.isdigit() or not y
    return ok, ok and len(y) > 0


def flt_val(s):
    neg = s[:1] == b"-"
    t = (s[1:] if s[:1] in (b"+", b"-") else s).lower()
    if t[:1] == b"i":
        return neg << 31 | 0x7f800000
    if t[:1] == b"n":
        return None
    m, _, e = t.partition(b"e")
    i, _, f = m.partition(b".")
    return float_bits(neg, int(i + f), int(e or b"0") - len(f))


@functools.lru_cache(200000)
def item(d, s, isz):
    """directive on the remaining text -> (verdict 'ok'/'match'/'input', consumed, stored bytes or None)"""
    k = d[0]
    if k == " ":
        return "ok", len(s) - len(s.lstrip(WS)), None
    if k == "lit":
        return ("ok", 1, None) if s[:1] == bytes([d[1]]) else ("match" if s else "input", 0, None)
    ws = 0
    if k not in "c[n":
        ws = len(s) - len(s.lstrip(WS))
        s = s[ws:]
    if k == "%":
        return ("ok", ws + 1, None) if s[:1] == b"%" else ("match" if s else "input", ws, None)
    if not s:
        return "input", ws, None
    w = d[2]
    if k == "c":
        w = w or 1
        return ("ok", w, s[:w]) if len(s) >= w else ("input", len(s), s)
    lim = s if w is None else s[:w]
    if k in "s[":
        n = 0
        while n < len(lim) and ((lim[n] not in WS) if k == "s" else (lim[n] in d[4][0]) != d[4][1]):
            n += 1
        if not n:
            return "match", 0, None
        return "ok", ws + n, lim[:n] + b"\0"
    ok = flt_ok if k == "e" else (lambda t: num_ok(t, {"d": 10, "u": 10, "i": 0, "o": 8, "x": 16}[k]))
    n = 0
    while n < len(lim) and ok(lim[:n + 1])[0]:
        n += 1
    if not ok(lim[:n])[1]:
        # the item is cut off: by the end of the input (an input failure for this library), or by the width or another character
        return ("input" if n == len(s) and (w is None or n < w) else "match"), ws + n, None
    if k == "e":
        v = flt_val(lim[:n])
        return "ok", ws + n, b"nan" if v is None else struct.pack("<I", v)
    neg, v = num_val(lim[:n], {"d": 10, "u": 10, "i": 0, "o": 8, "x": 16}[k])
    z = {"hh": 1, "h": 2}.get(d[3], isz)
    return "ok", ws + n, ((-v if neg else v) % (1 << 8 * z)).to_bytes(z, "little")


def expect(fmt, s, isz):
    """-> (return value, consumed, [stored])"""
    pos, cnt, st = 0, 0, []
    for d in parse(fmt):
        if d[0] == "n":
            z = {"hh": 1, "h": 2}.get(d[3], isz)
            st.append((pos % (1 << 8 * z)).to_bytes(z, "little"))
            continue
        v, n, b = item(d, s[pos:], isz)
        pos += n
        if v == "ok":
            if b is not None and not d[1]:
                st.append(b)
                cnt += 1
            continue
        if d[0] == "c" and not d[1] and b is not None:
            st.append(b)   # what a short %c leaves in the array is not told by the standard
        # an item that the end of the input cuts off: a matching failure in the standard, an input failure for this library
        cut = v == "input" and n > 0 and d[0] not in "c[s%" and s[pos - n:].strip(WS)
        return ((-1, 0) if cut and not cnt else (-1,) if v == "input" and not cnt else (cnt,)), pos, st
    return (cnt,), pos, st


def inputs(al, L, extra):
    if al:
        for n in range(L + 1):
            for t in itertools.product(al, repeat=n):
                yield bytes(t[::-1]) if False else bytes(t)
    yield from extra


def order(al, L):
    """the harness counts with the first place fastest"""
    for n in range(L + 1):
        for t in itertools.product(al, repeat=n):
            yield bytes(reversed(t))


AI = b" 01789xXaf-+g"
INT_X = [b"2147483647", b"-2147483648", b"4294967295", b"-4294967295", b"0x7fffffff", b"0XFFFFFFFFz", b"037777777777", b"017777777777 1", b"000000000000000000001", b"\t\n\v\f\r 12 3", b"65535", b"-65536", b"32768", b"255,1", b"-129", b"0x", b"-0x", b"+0x1G", b"0x0x1", b"1234567890123", b"- 1", b"1e5", b"08", b"019", b"0b1", b"0xabcdef01", b"0xABCDEF"]
FLT_X = [b"3.4028235e38", b"3.4028236e38", b"1e39", b"-1e39", b"1.17549435e-38", b"1e-45", b"7e-46", b"1e-400", b"-1e-400", b"1e400", b"0e999", b"1e99999999999", b"1e-99999999999", b"16777217", b"16777219", b"16777216.9999999", b"0.1", b"123.456e-3x", b"123456789012345678901234567890", b"0.000000000000000000000000000001", b"00000000000000000000000000000000000000000001.5", b".5.5", b"5..5", b"1e+5e", b"1E-2", b"1.e2", b"\n 1.5", b"0x10",
         b"1" + b"0" * 130, b"1" + b"0" * 130 + b"e-130", b"0." + b"0" * 130 + b"1e131", b"9" * 112 + b"e-100"]
WORDS = [b"infinity", b"INFINITY", b"inf", b"nan", b"NaN", b"iNfInItY", b"infinityy", b"nano", b"infx"]
for _w in (b"infinity", b"nan"):
    for _n in range(1, len(_w) + 1):
        FLT_X += [p + _w[:_n] + q for p in (b"", b"-", b"+", b" ") for q in (b"", b"z", b" ", b"1", b"e1")]
FLT_X += WORDS


def records(isz, fp, full, dos):
    """(format, alphabet, length, extra inputs, through files too)"""
    L = 3 if dos else 5 if full else 4
    R = []
    for k in b"diouxXp":
        for sup in (b"", b"*"):
            for w in (b"", b"1", b"2", b"3", b"10"):
                for l in (b"", b"hh", b"h") + ((b"l", b"L") if isz == 4 and not dos else ()) + ((b"j", b"z", b"t") if full else (b"z",)):
                    if (sup or dos) and (l in (b"z", b"j", b"t", b"L") or w == b"10"):
                        continue
                    big = w in (b"", b"2") and l in (b"", b"hh") and not sup and k in b"dixo"
                    al = AI if not dos else b" 08xa-g"
                    LL = (L if big else L - 1) - (dos and (w != b"" or l != b""))
                    R.append((b"%" + sup + w + l + bytes([k]) + b"%n", al, LL, INT_X, not dos and (big or full)))
    if fp:
        for k in (b"f", b"e", b"g", b"E", b"F", b"G", b"le", b"Lf", b"lg"):
            for sup in (b"", b"*"):
                for w in (b"", b"1", b"2", b"3", b"4", b"5", b"8", b"9"):
                    if k not in (b"f", b"e") and w in (b"1", b"3", b"5", b"9") or dos and w in (b"2", b"4", b"8"):
                        continue
                    big = k in (b"e",) and w in (b"", b"3") and not sup
                    R.append((b"%" + sup + w + k + b"%n", b" 015.eE-+x" if not dos else b"05.e-x", (5 if full else 4) if big and not dos else 3 if not dos or big else 2, FLT_X if not sup else FLT_X[:40], big and not dos))
    AS = b" ab]^-\n%\xe9"
    sets = (b"[a]", b"[^a]", b"[]]", b"[^]]", b"[]a]", b"[^]a]", b"[ab]", b"[a^]", b"[^^]", b"[-]", b"[a-]", b"[ ]", b"[^ ]", b"[%]", b"[^\n]", b"[\xe9a]", b"[^\xe9]")
    for k in (b"s", b"c") + sets:
        for sup in (b"", b"*"):
            for w in (b"", b"1", b"2", b"3", b"5"):
                R.append((b"%" + sup + w + k + b"%n", AS if not dos else b" ab]^\xe9", 3 if dos or k not in (b"s", b"c", b"[^]a]") else L, [b"abcdefghijklm", b"aaaaaaaaaa b", b"\n\n\nab", b"\xff\xfea", b"]]]a"], not dos and not w))
    AL = b" a%1b\n-"
    lits = [b" ", b"a", b"%%", b"% ", b"a b", b"a %%", b"%%%%", b" a", b"a%%b", b"1", b"\n", b"  \n"]
    dirs = [b"%d", b"%2d", b"%*d", b"%c", b"%2c", b"%*c", b"%s", b"%1s", b"%*s", b"%[a1]", b"%*[^1]", b"%n", b"%%", b" ", b"a", b"1", b"%hhn", b"%hn", b"%i", b"%x"] + ([b"%e"] if fp else [])
    for x in lits:
        if x == b"% ":
            continue
        R.append((x + b"%n", AL, 4 if not dos else 3, [b"%", b" %", b"\t%a", b"a%b", b"%%"], not dos))
    for x in dirs:
        for y in dirs:
            for sep in ((b"", b" ", b",") if not dos else (b" ",)):
                al = b" a1%-" + (b"," if sep == b"," else b"")
                R.append((x + sep + y + (b"%n" if b"n" not in x + y else b""), al, 4 if not dos else 3, [b"12 34", b"12,34", b"1a1a1a", b"- 1", b"a1 a1", b"%1%1", b"12", b"  1  2", b"0x1 0x2"], not dos and sep == b" "))
    if not dos:
        for x, y, z in itertools.product(dirs[::2], dirs[::3], dirs[1::3]):
            R.append((x + b" " + y + z, b" a1-", 4, [b"12 34 56", b"1 2 3", b"a b c", b"1-2-3"], False))
    R.append((b"%d%n%c%n", b"1 a", 5 if not dos else 3, [b"1234567890" * 20 + b"a"], True))
    R.append((b"%*s%n", b"a ", 3, [b"x" * 250, b"x" * 127, b"x" * 128, b" " * 200 + b"y"], True))
    R.append((b"%*s%hhn%hn%n", b"", 0, [b"x" * 250, b"x" * 127, b"x" * 128, b"x" * 129, b"x" * 255, b"x" * 256], True))
    return R


def encode(R):
    o = struct.pack("<H", len(R))
    for f, al, L, ex, fl in R:
        o += struct.pack("<H", len(f)) + f + struct.pack("<H", len(al)) + al + struct.pack("<HHH", L, len(ex), int(fl))
        for e in ex:
            o += struct.pack("<H", len(e)) + e
    return o


def verify(job):
    """(records, output path, int size) -> (cases, [differences])"""
    R, path, isz = job
    data = open(path, "rb").read()
    z = 6 + 4 * SL
    p, n, bad = 0, 0, []
    for f, al, L, ex, fl in R:
        nal = sum(len(al) ** k for k in range(L + 1)) if al else 0
        for j, s in enumerate(itertools.chain(order(al, L) if al else (), ex)):
            blk = data[p:p + z]
            p += z
            n += 1
            if len(blk) < z:
                bad.append((f, s, "the program stopped here"))
                return n, bad
            ret, rem, diff = struct.unpack_from("<hhh", blk)
            w, pos, st = expect(f, s, isz)
            e = b""
            for x in st:
                if x == b"nan":
                    t = blk[6 + len(e):6 + len(e) + 4]
                    v = struct.unpack("<I", t)[0] & 0x7fffffff
                    x = t if v > 0x7f800000 else b"NAN!"
                e += x.ljust(SL, b"\xa5")
            e = e.ljust(4 * SL, b"\xa5")
            if any(len(x) > SL for x in st):
                continue
            files = fl or j >= nal
            if ret not in w or blk[6:] != e or diff or files and rem != len(s) - pos:
                if len(bad) < 40:
                    g = [blk[6 + i * SL:6 + (i + 1) * SL].rstrip(b"\xa5") for i in range(4)]
                    bad.append((f, s, f"expected {w} {st}" + (f" leaving {len(s) - pos}" if files else "") + f", got {ret} {[x for x in g if x]}" + (f" leaving {rem}" if files else "") + (f" variants differ {diff}" if diff else "")))
    if p != len(data):
        bad.append((b"", b"", f"{len(data)} bytes of results, {p} wanted"))
    return n, bad


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=("lcl", "lcdh", "lcdu", "lcds"))
    tot, per = 0, {}
    for name, flags, isz, fp, dos in (("linux", ["-linux"], 4, True, False), ("dosh", ["-dosh"], 4, True, True), ("dosu", ["-dosu"], 4, True, True), ("doss", ["-doss"], 2, False, True)):
        R = records(isz, fp, chk.thorough, dos)
        parts = [R[i::8] for i in range(8)] if not dos else [R[i::4] for i in range(4)]
        def go(i):
            d = vlib.scratch(f"{name}{i}")
            shutil.copy(vlib.VERIF + "/harness/scan.c", d)
            exe = d + ("/t" if not dos else "/T.EXE")
            tc.compile([*flags, d + "/scan.c", "-o", exe], cwd=d)
            open(d + "/IN.DAT", "wb").write(encode(parts[i]))
            r = vlib.dosbox(tc, d, ["T"], timeout=400) if dos else vlib.run([exe], cwd=d, timeout=400)
            if not os.path.exists(d + "/OUT.DAT"):
                raise vlib.BuildError("no output: " + repr(r))
            return parts[i], d + "/OUT.DAT", isz
        n = 0
        for (k, bad), (_, path, _) in zip(vlib.ppmap(verify, jobs := vlib.pmap(go, range(len(parts)))), jobs):
            n += k
            for f, s, t in bad[:6]:
                chk.violation(f"{name}:{f!r}:{s!r}", f"{name}: scanf({f!r}) on {s!r}: {t}", f"{f!r} {s!r}")
            os.remove(path)
        per[name] = n
        tot += n
        chk.log(f"{name}: {len(R)} formats, {n} cases")
        chk.samples.append(f"{name}: {R[len(R) // 2][0]!r} over {R[len(R) // 2][1]!r} to length {R[len(R) // 2][2]}")
    chk.finish(states=tot, transitions=tot, evaluations=tot, traces_validated_against_impl=tot, per_configuration=per, exhaustive=True,
               rule="every conversion x suppression x widths x length modifiers, scan sets, literals, and all pairs (with and without separators) and many triples of directives, each on every input text over an alphabet to a length plus boundary texts; return value, stored bytes (and nothing else), %n, and the text left in the stream; the six functions agree")


if __name__ == "__main__":
    vlib.main("C34", "exploration", body)
