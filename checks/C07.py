"""C07: switch dispatch."""
import sys, os, itertools, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, families as F, exprrun as R


def menu(m):
    b = m.ibits
    r = [0, 1, -1, 127, 128, -128, 255, 256, 32767, -32768, 65]
    if b == 32:
        r += [32768, 65535, 65536, 0x7fffffff, -0x80000000]
    return r


class Fn:
    def __init__(self, body, v, key):
        self.body, self.v, self.ok, self.trap, self.key = body, v, True, False, key


def switch_values(items, vals, nested=None):
    """items: list of (labels list, event, brk). Returns the hash for each value: h=h*7+event."""
    out = []
    for v in vals:
        start = None
        for i, (labs, ev, brk) in enumerate(items):
            if v in [l for l in labs if l != "d"]:
                start = i
                break
        if start is None:
            for i, (labs, ev, brk) in enumerate(items):
                if "d" in labs:
                    start = i
        h = 1
        if start is not None:
            for labs, ev, brk in items[start:]:
                h = h * 7 + ev
                if brk:
                    break
        out.append(h)
    return np.array(out)


def render(m, items, ctl):
    lt = lambda v: C.lit(m, v, "i").x
    s = "int h=1;switch(%s){" % ctl
    for labs, ev, brk in items:
        s += "".join("default:" if l == "d" else f"case {lt(l)}:" for l in labs)
        s += f"h=h*7+{ev};" + ("break;" if brk else "")
    return s + "}return h;"


CTL = {"i": "x", "u": "(unsigned)x", "c": "gxc", "b": "gxb", "s": "gxs", "w": "gxw", "call": "fxi()", "expr": "x+0", "lc": "lxc"}


def fam_small(m, x, types, full):
    M = menu(m)
    vals = {}
    for t in types:
        vals[t] = [int(v) for v in m.wrap(m.wrap(x, t if t in "icubsw" else "c" if t == "lc" else "i"), "i")]
    evs = [1, 2, 3, 4]
    for t in types:
        pro = "signed char lxc=x;" if t == "lc" else ""
        for n in (0, 1, 2, 3):
            sets = itertools.permutations(M, n) if (full or n < 3) else itertools.permutations([M[i] for i in (0, 2, 5, 7, 9)], n)
            for labs in sets:
                for dpos in range(-1, n + 1):
                    if dpos < 0 and n == 0:
                        continue
                    seq = [[l] for l in labs]
                    if dpos >= 0:
                        seq.insert(dpos, ["d"])
                    for mask in ((0, (1 << len(seq)) - 1) if (n < 2 or not full) else (0, (1 << len(seq)) - 1, 5, 2)):
                        items = [(l, evs[i], bool(mask >> i & 1)) for i, l in enumerate(seq)]
                        b = pro + render(m, items, CTL[t])
                        yield Fn(b, m.wrap(switch_values(items, vals[t]), "i"), b)
                    if len(seq) >= 2:   # labels sharing a statement
                        items = [(seq[0] + seq[1], 1, False)] + [(l, 2 + i, True) for i, l in enumerate(seq[2:])]
                        b = pro + render(m, items, CTL[t])
                        yield Fn(b, m.wrap(switch_values(items, vals[t]), "i"), b)


def fam_nested(m, x, y):
    """A switch in a case of a switch (same label values), in a loop, with break/continue out of the right one."""
    A = [0, 1, -1, 300]
    xs, ys = [int(v) for v in x], [int(v) for v in y]
    lt = lambda v: C.lit(m, v, "i").x
    for a in itertools.permutations(A, 2):
        for b in itertools.permutations(A, 2):
            for di in (0, 1):
                for do in (0, 1):
                    for brk in (0, 1):
                        inner = [([b[0]], 3, bool(brk)), ([b[1]], 4, True)] + ([(["d"], 5, True)] if di else [])
                        iv = dict(zip(range(len(xs)), [None] * len(xs)))
                        body = f"int h=1;switch(x){{case {lt(a[0])}:h=h*7+1;switch(y){{" + "".join("".join("default:" if l == "d" else f"case {lt(l)}:" for l in labs) + f"h=h*7+{ev};" + ("break;" if bk else "") for labs, ev, bk in inner) + "}"
                        body += f"h=h*7+6;break;case {lt(a[1])}:h=h*5+2;" + ("default:h=h*3+1;" if do else "") + "}return h;"
                        v = []
                        for xv, yv in zip(xs, ys):
                            h = 1
                            if xv == a[0]:
                                h = h * 7 + 1
                                ih = switch_values(inner, [yv])[0]
                                # replay the inner events on h
                                evs = []
                                st = next((i for i, (ls, e, k) in enumerate(inner) if yv in ls), None)
                                if st is None:
                                    st = next((i for i, (ls, e, k) in enumerate(inner) if "d" in ls), None)
                                if st is not None:
                                    for ls, e, k in inner[st:]:
                                        h = h * 7 + e
                                        if k:
                                            break
                                h = h * 7 + 6
                            elif xv == a[1]:
                                h = h * 5 + 2
                                if do:
                                    h = h * 3 + 1
                            elif do:
                                h = h * 3 + 1
                            v.append(h)
                        yield Fn(body, m.wrap(np.array(v), "i"), body)
    # Duff's device and cases inside nested statements
    for k in range(1, 8):
        body = f"int h=0,n=(y&15)+{k};switch(x&3){{case 0:do{{h=h*3+1;case 3:h=h*3+2;case 2:h=h*5+3;if(0){{case 1:h=h*7+4;}}}}while(--n>0);default:h+=1;}}return h;"
        v = []
        for xv, yv in zip(xs, ys):
            h, n, pc = 0, (yv & 15) + k, {0: 0, 3: 1, 2: 2, 1: 3}[xv & 3]
            while True:
                if pc <= 0:
                    h = h * 3 + 1
                if pc <= 1:
                    h = h * 3 + 2
                if pc <= 2:
                    h = h * 5 + 3
                if pc == 3:
                    h = h * 7 + 4
                pc = 0
                n -= 1
                if n <= 0:
                    break
            v.append(h + 1)
        yield Fn(body, np.array([int(m.wrap(np.int64(q & 0xffffffff), "i")) for q in v]), body)
    for brk in ("break", "continue"):
        for a in itertools.permutations([0, 1, 2], 2):
            body = f"int h=1,i;for(i=0;i<4;i++){{switch(i){{case {a[0]}:h=h*7+1;{brk};case {a[1]}:h=h*7+2;}}h=h*7+3;}}return h;"
            h = 1
            for i in range(4):
                skip = False
                if i == a[0]:
                    h = h * 7 + 1
                    skip = brk == "continue"
                elif i == a[1]:
                    h = h * 7 + 2
                if not skip:
                    h = h * 7 + 3
            yield Fn(body, np.full(len(xs), int(m.wrap(np.int64(h), "i"))), body)


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds", "lcdh"))
    st = R.Stats()
    th = chk.thorough
    def suite(be, m, lvl):
        M = menu(m)
        lim = 1 << (m.ibits - 1)
        probe = sorted(set(v + d for v in M for d in (-1, 0, 1) if -lim <= v + d < lim) | {2, 3, 66, -200, 1000})
        g = C.mkgrid(probe, [0])
        def go(label, grid, fs, size):
            R.check_batches(chk, be, R.batches(m, grid, fs, size), st, label)
        types = ["i", "u", "c", "b", "s", "w", "call", "expr", "lc"] if lvl > 1 else ["i", "c", "w"] if lvl else ["i"]
        # the controlling expression of unsigned type converts the labels; wrapped values compare alike in int
        go("small", g, fam_small(m, g[0], types, th and lvl > 1), 60)
        R.check_batches(chk, be, (b for grid, part in group_big(m, lvl) for b in R.batches(m, grid, part, 24 if m.ibits == 32 else 8)), st, "big")
        gn = C.mkgrid([0, 1, -1, 300, 2, 299], [0, 1, -1, 300, 5])
        go("nested", gn, fam_nested(m, gn[0], gn[1]), 60)
    def group_big(m, lvl):
        lim = 1 << (m.ibits - 1)
        for n in (4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 126, 127) if lvl > 1 else (4, 9, 33, 100, 127):
            for stride, base in ((1, 0), (1, -3), (2, -10), (3, 100), (257, -lim + 1), (-1, 50), (1, lim - n - 1), (37, 0)):
                labs = [base + i * stride for i in range(n)]
                if any(l >= lim or l < -lim for l in labs):
                    continue
                probe = sorted(set(l + d for l in labs for d in (-1, 0, 1) if -lim <= l + d < lim))
                grid = C.mkgrid(probe, [0])
                fs = []
                for order in ("asc", "desc", "zip", "shuf"):
                    o = {"asc": labs, "desc": labs[::-1], "zip": [v for p in zip(labs[::2], labs[1::2][::-1]) for v in p] + (labs[-1:] if n & 1 else []),
                         "shuf": [labs[(i * 29 + 7) % n] for i in range(n)]}[order]
                    if len(set(o)) != n:
                        continue
                    for d in (None, 0, n // 2, n):
                        if lvl < 2 and d not in (None, n // 2):
                            continue
                        items = [([l], i % 50 + 1, True) for i, l in enumerate(o)]
                        if d is not None:
                            items.insert(d, (["d"], 60, True))
                        fs.append(Fn(render(m, items, "x"), m.wrap(switch_values(items, probe), "i"), f"big n={n} stride={stride} base={base} {order} default={d}"))
                yield grid, fs
    suite(R.LinuxBackend(tc), C.Model(32), 2)
    suite(R.MipsBackend(tc), C.Model(32), 1)
    suite(R.DosBackend(tc, ("-doss",), "doss", False), C.Model(16), 2 if th else 0)
    suite(R.DosBackend(tc, ("-dosh",), "dosh", False), C.Model(32), 1 if th else 0)
    # duplicates are rejected wherever they stand; nested switches may repeat labels
    bad = []
    vals = ["0", "1", "-1", "255", "65536", "'a'", "1+1"]
    for i, v in enumerate(vals):
        for w in [v, f"({v})", f"{v}+0"]:
            for mid in ("", "case 77:;", "default:;", "case 77:switch(x){case 5:;}", "{case 78:;}"):
                bad.append(f"int f(int x){{switch(x){{case {v}:;{mid}case {w}:;}}return 0;}}")
        bad.append(f"int f(int x){{switch(x){{case {v}:;case 500:{{if(x){{case {v}:;}}}}}}return 0;}}")
    bad += ["int f(int x){switch(x){default:;default:;}return 0;}", "int f(int x){switch(x){default:;case 1:;{default:;}}return 0;}",
            "int f(int x){case 1:;return 0;}", "int f(int x){default:;return 0;}", "int f(int x){if(x){case 1:;}return 0;}",
            "int f(int x){switch(x){case x:;}return 0;}", "int f(int x){while(x){case 3:;}return 0;}"]
    for n in (3, 10, 60, 120):
        for i in range(0, n, max(1, n // 7)):
            bad.append("int f(int x){switch(x){" + "".join(f"case {k}:;" for k in range(n)) + f"case {i}:;" + "}return 0;}")
    good = ["int f(int x){switch(x){case 1:switch(x){case 1:;}case 2:;}return 0;}", "int f(int x){switch(x){case 1:switch(x){default:;}default:;}return 0;}",
            "int f(int x){switch(x){case 0:switch(x){case 1:;case 2:;}case 1:;switch(x){case 2:;case 0:;}case 2:;}return 0;}",
            "int f(int x){switch(x);return 0;}", "int f(int x){switch(x){}return 0;}", "int f(int x){switch(x)case 1:return 1;return 0;}",
            "int f(int x){switch(x)default:return 1;return 0;}"]
    def rej(a):
        s, want = a
        d = vlib.scratch(f"r{abs(hash(s)):x}")
        open(d + "/t.c", "w").write(s + "\n")
        r = tc.run(["smlrc", "-seg32", "-nopp", "t.c", "t.asm"], cwd=d)
        if (r.rc == 0) != want or r.rc < 0:
            chk.violation("label:" + s.replace(" ", ""), ("rejected: " if want else "accepted: ") + s + f" {r!r}", s)
    vlib.pmap(rej, [(s, False) for s in bad] + [(s, True) for s in good])
    st.families["label-rules"] = len(bad) + len(good)
    chk.finish(evaluations=st.evals + len(bad) + len(good), distinct_nontrivial=st.funcs + len(bad) + len(good),
               rule="label sets (all permutations of up to 2-3 boundary labels, default in each position, break masks, controlling types; 4-127 labels in 8 spacings and 4 orders; nested and interleaved switches), each executed on every label, its neighbours and other probes; plus label-rule programs",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C07", "exploration", body)
