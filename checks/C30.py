"""C30: stdio streams against a model of a stream, over all operation sequences to a depth."""
import sys, os, itertools, struct, shutil, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

BIG = bytes(65 + i % 23 for i in range(2100))
P31 = np.array([pow(31, k, 32768) for k in range(6000)], np.int64)
p2 = lambda v: struct.pack("<H", v & 0xffff)
pn = lambda b: bytes([len(b)]) + b
_hc = {}


def hsh(b):
    h = _hc.get(b)
    if h is None:
        n = len(b)
        h = int((np.frombuffer(b, np.uint8).astype(np.int64) * P31[:n][::-1]).sum() + 7 * int(P31[n])) & 0x7fff
        if len(_hc) > 20000:
            _hc.clear()
        _hc[b] = h
    return h


READ, WRITE = set("ghjGHkRQB"), set("pbqnsaWVPdC")
DATA = {"p": b"x", "q": b"\xc8", "n": b"\n", "s": b"yz\nw", "W": b"QRS", "V": b"J\nKL", "P": b"42\n", "C": BIG[:1300], "a": b"k\nl\n", "b": b"x", "d": b"42\n"}
RET = {"p": 120, "q": 200, "n": 10, "s": 1, "W": 3, "V": 2, "P": 3, "C": 1300, "a": 1, "b": 120, "d": 3}
SEEKS = {"0": (0, 0), "2": (0, 2), "9": (0, 9), "8": (0, 1024), "_": (1, -1), "=": (1, 0), "+": (1, 1), "3": (1, 3), "5": (1, 500), "6": (1, 1200), "7": (1, -600), "$": (2, 0), "-": (2, -2), "!": (0, -1), "%": (1, -100)}

# state: (content, pos, eof, push, last, lastc, saved, mode, buf, synced); last: 'n' neither, 'r' read, 'w' write, 'e' read that met the end


def step(s, op, dos):
    """-> (state, return value, data) or None where C leaves the behaviour open or the library documents a limit"""
    c, pos, eof, push, last, lastc, saved, mode, buf, syn = s
    if op in READ:
        if mode in "wao" or last == "w":
            return None
        n, nl, one = {"g": (1, 0, 1), "h": (1, 0, 1), "j": (1, 0, 1), "k": (99, 1, 0), "G": (2, 1, 0), "H": (29, 1, 0), "R": (2, 0, 0), "Q": (4, 0, 0), "B": (1500, 0, 0)}[op]
        out = b""
        hit = False
        if not nl and push is None and not eof:
            out = c[pos:pos + n]
            hit = len(out) < n
            pos += len(out)
        else:
            while len(out) < n:
                if push is not None:
                    out += bytes([push])
                    push = None
                elif eof or pos >= len(c):
                    hit = True
                    break
                else:
                    out += c[pos:pos + 1]
                    pos += 1
                if nl and out[-1:] == b"\n":
                    break
        eof = eof or hit
        last = "e" if hit else "r"
        if op in "ghj":
            r, d = (out[0], b"") if out else (-1, b"")
            lastc = r if out else lastc
        elif op in "GHk":
            r = 1 if out else 0
            if op == "k" and out[-1:] == b"\n":
                out = out[:-1]
                if not out:
                    out = b"\0"
            z = out.find(b"\0")
            t = out if z < 0 else out[:z]
            d = t + b"\0" if out else b""
            if len(d) > 1:
                lastc = d[-2]
            if op == "k":
                lastc = -1
                if out == b"\0":
                    z = -1
            if out and z >= 0:
                return None   # embedded zeroes: the harness cannot tell
        elif op == "R":
            r, d = len(out), out
            lastc = out[-1] if out else lastc
        elif op == "Q":
            r, d = len(out) // 2, out[:len(out) // 2 * 2]
            lastc = -1
            if len(out) % 2:
                pass
        else:
            r = len(out)
            d = p2(hsh(out))
            lastc = -1
        if last == "r":
            last = "R"    # a character was just read: ungetc must work
        return (c, pos, eof, push, last, lastc, saved, mode, buf, syn), r, d
    if op in "uU":
        if last != "R" or push is not None or (op == "u" and lastc < 0) or mode in "wao":
            return None
        v = lastc if op == "u" else 90
        return (c, pos, False, v, "r", lastc, saved, mode, buf, syn), v, b""
    if op == "e":
        return s, -1, b""
    if op in WRITE:
        if mode in "ri" or last in "rR" or push is not None:
            return None
        d = DATA[op]
        if mode == "a":
            pos = len(c)
        if pos > len(c):
            c = c + bytes(pos - len(c))
        c = c[:pos] + d + c[pos + len(d):]
        pos += len(d)
        if dos == "text":
            return None
        syn = buf == 1 or (buf in (3, 7) and d[-1:] == b"\n")
        return (c, pos, eof, push, "w", lastc, saved, mode, buf, syn), RET[op], b""
    cur = pos - (push is not None)
    if op in SEEKS or op in "M":
        if mode == "a":
            return None
        if op == "M":
            if saved is None:
                return None
            t = saved
        else:
            w, o = SEEKS[op]
            t = (0, cur, len(c))[w] + o
        if t < 0:
            if dos or op not in "!%" or eof or push is not None:
                return None
            return (c, pos, eof, push, "r" if last == "R" else last, lastc, saved, mode, buf, True), 1, b""
        if op in "!%":
            return None
        return (c, t, False, None, "n" if mode == "u" else "n", lastc, saved, mode, buf, True), 0, b""
    if op == "m":
        if mode == "a":
            return None
        return (c, pos, eof, push, last, lastc, cur, mode, buf, syn), 0, b""
    if op == "f":
        if last in "rRe":
            return None
        return (c, pos, eof, push, "n", lastc, saved, mode, buf, True), 0, b""
    if op == "F":
        return (c, pos, eof, push, "n" if last == "w" else last, lastc, saved, mode, buf, True), 0, b""
    if op == "w":
        if mode == "a":
            return None
        return (c, 0, False, None, "n", lastc, saved, mode, buf, True), 0, b""
    if op == "t":
        return None if mode == "a" else (s, cur, b"")
    if op == "c":
        return (c, pos, False, push, last, lastc, saved, mode, buf, syn), 0, b""
    if op == "r":
        return (c, 0, False, None, "n", -1, saved, "u", 0, True), 1, b""
    raise KeyError(op)


def tellof(s):
    c, pos, eof, push, last, lastc, saved, mode, buf, syn = s
    if mode == "a":
        return len(c)
    return pos - (push is not None)


def init_state(cfg):
    mode, buf, size, init = cfg
    big = init == "BIG"
    c = b"" if mode[0] in "wo" else BIG if big else init
    m = "u" if "+" in mode else mode[0]
    return (c, 0, False, None, "n", -1, None, m, buf, True)


def header(cfg):
    mode, buf, size, init = cfg
    i = bytes(199) if init == "BIG" else init
    return mode.encode().ljust(4, b"\0") + bytes([buf, size, len(i)]) + i


def tail(s, r, d, big, dos=False):
    vis = s[9]
    c = s[0]
    out = p2(r) + p2(tellof(s)) + bytes([1 if s[2] else 0]) + pn(d)
    img = (p2(len(c)) + p2(hsh(c))) if big else pn(c)
    if vis:
        out += img
    return out + p2(0) + img


def enum(cfg, ops, depth, first=None, dos=False):
    """Yields (sequence, expected record, state key) for every legal sequence of 1..depth operations."""
    big = cfg[3] == "BIG"
    cache = {}
    def go(s, seq):
        for op in (ops if seq or first is None else first):
            k = (s, op)
            v = cache.get(k)
            if v is None:
                v = step(s, op, dos)
                if v is not None:
                    c = v[0][0]
                    if len(c) > (5600 if big else 55):
                        v = None
                if v is not None:
                    v = (v[0], tail(v[0], v[1], v[2], big), v[0][9])
                cache[k] = v or 0
            if not v:
                continue
            s2 = seq + op
            yield s2, v[1], v[2]
            if len(s2) < depth:
                yield from go(v[0], s2)
    yield from go(init_state(cfg), "")
    enum.last = (len({k[0] for k in cache}), sum(1 for v in cache.values() if v))


def encode(seqs):
    return b"".join(bytes([len(s) | (0x80 if v else 0)]) + s.encode() for s, _, v in seqs) + b"\0"


def job(a):
    cfg, ops, depth, first, exe = a
    L = list(enum(cfg, ops, depth, first))
    st = enum.last
    d = vlib.scratch("j" + "".join(str(abs(hash(a))))[:12])
    inp = header(cfg) + encode(L)
    r = vlib.run([exe], cwd=d, stdin=inp, timeout=300)
    want = b"".join(e for _, e, _ in L)
    bad = None
    if r.rc or r.out != want:
        bad = locate(r, L, d, cfg, exe)
    shutil.rmtree(d, ignore_errors=True)
    return cfg, len(L), st, bad, (L[len(L) // 2][0], L[len(L) // 2][1]) if L else None


def locate(r, L, d, cfg, exe):
    p, out = 0, []
    for s, e, v in L:
        g = r.out[p:p + len(e)]
        if g != e:
            r1 = vlib.run([exe], cwd=d, stdin=header(cfg) + encode([(s, e, v)]), timeout=20)
            out.append((s, e.hex(), r1.out.hex(), r1.rc))
            if r1.out == e and r1.rc == 0:
                out[-1] = (s + " (after others)", e.hex(), g.hex(), r.rc)
            # shortest first: look for it among the following ones
            break
        p += len(e)
    # smallest failing sequence of this configuration
    if out:
        for n in range(1, 4):
            for s, e, v in L:
                if len(s) == n:
                    r1 = vlib.run([exe], cwd=d, stdin=header(cfg) + encode([(s, e, v)]), timeout=20)
                    if r1.out != e:
                        return [(s, e.hex(), r1.out.hex(), r1.rc)]
            if sum(1 for s, _, _ in L if len(s) == n + 1) > 1500:
                break
    return out or [("?", "", repr(r), r.rc)]


INIT = b"ab\ncd\n\ne"
RW = "gGRQuUpnsW02_+3=$-!mMfwcr"
RD = "ghGHRQuUe029_+3=$-!%mMFwcr"
WR = "pqnsWVP02_=+$-!mMfFwc"
AP = "pqnsWVPfFcer"
BIGR = "gRBu567=_8$2w"
BIGU = "gBuU567=_8pCfF"


def configs(full):
    bufs = [(0, 0), (1, 0), (2, 1), (2, 2), (2, 3), (3, 3), (5, 4), (7, 5), (4, 8)]
    for mode, ops in (("r", RD), ("rb", RD[:8] + "_3=mMw"), ("w", WR), ("a", AP), ("r+", RW), ("w+", RW), ("r+b", "gGuUpsW0_+=$fwF"), ("rb+", "gRup0_=f"), ("wb", "psW02=f"), ("ab", "pnWfr"), ("w+b", "gpW0_=f"), ("wb+", "gpW0_=f")):
        main = mode in ("r", "w", "a", "r+", "w+")
        for b in bufs:
            for init in ([INIT, b""] if mode in ("r", "r+", "a") and b in bufs[:4] else [INIT]):
                dp = (4 if mode in ("r", "w", "a") and init else 3) + (1 if full else 0)
                if mode in ("r+", "w+") and init:
                    dp = 4 + full
                if not main:
                    dp = 4 + full
                if mode == "a":
                    dp = 4 + full
                yield (mode, *b, init), ops, dp
    for mode, ops in (("r", BIGR), ("r+", BIGU), ("w+", BIGU)):
        for b in ((0, 0), (2, 16), (1, 0)):
            yield (mode, *b, "BIG"), ops, (5 if b[0] != 1 else 4) + full


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=("lcl", "lcds", "lcdh"))
    d = vlib.scratch("h")
    shutil.copy(vlib.VERIF + "/harness/stdio.c", d)
    tc.compile(["-linux", d + "/stdio.c", "-o", d + "/st"], cwd=d)
    tc.compile(["-linux", "-DMEM", d + "/stdio.c", "-o", d + "/sm"], cwd=d)
    jobs = []
    for cfg, ops, dp in configs(chk.thorough):
        if dp >= 4 and len(ops) > 9:
            jobs += [(cfg, ops, dp, f, d + "/sm") for f in ops]
        else:
            jobs.append((cfg, ops, dp, None, d + "/sm"))
        jobs.append((cfg, ops, 2 if not chk.thorough else 3, None, d + "/st"))
    res = vlib.ppmap(job, jobs)
    n = states = trans = 0
    per, seen = {}, {}
    for cfg, k, st, bad, sample in res:
        n += k
        seen[cfg] = max(seen.get(cfg, (0, 0)), st)
        c = f"{cfg[0]} buf{cfg[1]}/{cfg[2]} {'big' if cfg[3] == 'BIG' else len(cfg[3])}"
        per[c] = per.get(c, 0) + k
        if sample and len(chk.samples) < 5:
            chk.samples.append(f"{c}: {sample[0]} -> {sample[1].hex()}")
        for b in bad or []:
            chk.violation(f"{cfg[0]}:{cfg[1]}:{b[0]}", f"mode {cfg[0]}, buffering {cfg[1]} size {cfg[2]}, file {cfg[3]!r}: operations '{b[0]}': expected {b[1]}, got {b[2]} (exit {b[3]}); fields: result, position, eof|err<<1, data, [visible file], fclose, file", "see harness/stdio.c for the operation letters")
    states, trans = sum(a for a, _ in seen.values()), sum(b for _, b in seen.values())
    chk.log(f"{n} sequences, {states} model states, {trans} transitions")
    n += dos_part(chk, tc)
    chk.finish(states=states, transitions=trans, traces_validated_against_impl=n, configurations=len(per), per_configuration=dict(list(per.items())[:60]), depth="3-4 operations (quick), one more in thorough",
               rule="every legal operation sequence to the depth, per open mode, buffering mode and size, initial content; each replayed on the library: result, data, position, indicators, visible and final file content compared", exhaustive=True)


def dos_part(chk, tc):
    """The same model on the DOS libraries (16-bit seek/tell helpers, huge), binary streams."""
    tot = 0
    full = chk.thorough
    def one(a):
        flags, name, cfgs = a
        d = vlib.scratch("dos" + name)
        shutil.copy(vlib.VERIF + "/harness/stdio.c", d)
        tc.compile([*flags, d + "/stdio.c", "-o", d + "/T.EXE"], cwd=d)
        inp, want, Ls = b"", b"", []
        for cfg, ops, dp in cfgs:
            L = list(enum(cfg, ops, dp, dos=True))
            Ls.append((cfg, L))
            inp += header(cfg) + encode(L)
            want += b"".join(e for _, e, _ in L)
        open(d + "/IN.DAT", "wb").write(inp)
        r = vlib.dosbox(tc, d, ["T.EXE"], timeout=600 if full else 200)
        try:
            got = open(d + "/OUT.DAT", "rb").read()
        except OSError:
            got = b""
        if got != want:
            p = 0
            for cfg, L in Ls:
                for s, e, v in L:
                    if got[p:p + len(e)] != e:
                        chk.violation(f"{name}:{cfg[0]}:{cfg[1]}:{s}", f"{name}: mode {cfg[0]}, buffering {cfg[1]} size {cfg[2]}, file {cfg[3]!r}: operations '{s}': expected {e.hex()}, got {got[p:p + len(e)].hex()}", "see harness/stdio.c")
                        return sum(len(l) for _, l in Ls)
                    p += len(e)
            chk.violation(f"{name}:trailing", "extra output", "")
        return sum(len(l) for _, l in Ls)
    R_, U_, W_ = "gGRu029_+3=$-mMw", "gGup02_=$fw", "pnW02=$f"
    A = lambda: [(("rb", 0, 0, INIT), R_, 3), (("rb", 2, 2, INIT), R_, 3)]
    B = lambda: [(("r+b", 0, 0, INIT), U_, 3), (("r+b", 2, 3, INIT), U_, 3), (("wb", 2, 3, INIT), W_, 3), (("ab", 0, 0, INIT), "pnWfr", 4)]
    Cc = lambda: [(("rb", 0, 0, "BIG"), "gRB567_8", 3), (("r+b", 0, 0, "BIG"), "gB567_8pC", 3)]
    jobs = [(f, n + str(i), c()) for f, n in ((("-doss",), "doss"), (("-dosh",), "dosh")) for i, c in enumerate((A, B, Cc))]
    for k in vlib.pmap(one, jobs):
        tot += k
    chk.log(f"DOS: {tot} sequences")
    return tot


if __name__ == "__main__":
    vlib.main("C30", "model_checking", body)
