#!/usr/bin/env python3
"""C21: which inputs get linked. Every dependency graph over a few objects and symbols, every place of the first object, every way of
putting the objects into archives; the selection model (linkmodel.select) says what the image must hold or that the link must fail."""
import sys, os, itertools, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, linkmodel
from linkmodel import *

ROOT = SMLRL = FAMS = None
NONE, DEF, REF, LOC = range(4)
FMTS = ("elf", "flat32", "small", "huge", "pe", "aout", "unreal", "mach", "tiny", "flat16")


def obj(i, states, names, entry=None, extra=(), turn=0, fmt="elf"):
    """Object i: for each symbol undefined reference, definition or local definition. extra: sections to add."""
    o = Ob()
    o.i = i
    t = o.sec(".text", bytes([0x90 + i]) * (4 + i), A | X, PROGBITS, 4)
    w = o.sec(".data", bytes([0x30 + i]) * (3 + i), A | W, PROGBITS, 4)
    for n in extra:
        o.sec(n, b"extra%d" % i, A | W if n != ".rodata" else A)
    for k in range(len(o.secs)):
        o.sym(f"S{i}_{k}", k + 1, 0)
    if entry:
        o.sym(entry, t, 1)
    todo = []
    r = list(enumerate(zip(states, names)))
    if turn:
        r = r[turn % len(r):] + r[:turn % len(r)] if turn & 1 else r[::-1]
    for k, (st, n) in r:
        if st == NONE:
            continue
        home = (t, w)[(k + i) % 2]
        si = o.sym(n, 0 if st == REF else home, 0 if st == REF else 1 + k, 0 if st == LOC else 1)
        if st != DEF or turn % 3 == 0:
            todo.append(si)
    for si in todo:
        s = o.secs[0]
        at = len(s.data)
        s.data += b"\0" * 4
        s.size = len(s.data)
        if fmt in ("pe", "aout"):
            o.rel(t, at, R32, si)
        else:
            o.rel(t, at, (R32, RPC32)[si & 1], si)
    return o


def arc(members, style, tail=0):
    """members: [(name, bytes)]; styles: gnu (index, long name table), gnu0 (no index), bsd (#1/ names), bsdx (with __.SYMDEF), short (no slash)."""
    def hdr(n, size):
        return ("%-16s%-12s%-6s%-6s%-8s%-10d`\n" % (n, "1700000000", "0", "0", "100644", size)).encode()
    out = b"!<arch>\n"
    if style == "gnu":
        idx = struct.pack(">II", 1, 8) + b"ghost\0"
        out += hdr("/", len(idx)) + idx + (b"\n" if len(idx) & 1 else b"")
    tab, names = b"", []
    for n, d in members:
        if style.startswith("bsd"):
            names.append(f"#1/{len(n)}" if len(n) > 6 else n)
        elif style == "short":
            names.append(n[:16])
        elif len(n) > 15:
            names.append(f"/{len(tab)}")
            tab += n.encode() + b"/\n"
        else:
            names.append(n + "/")
    if style == "bsdx":
        idx = struct.pack("<II", 0, 4) + b"abc\0"
        out += hdr("__.SYMDEF", len(idx)) + idx
    if tab:
        out += hdr("//", len(tab)) + tab + (b"\n" if len(tab) & 1 else b"")
    for (n, d), h in zip(members, names):
        b = (n.encode() if h.startswith("#1/") else b"") + d
        out += hdr(h, len(b)) + b + (b"\n" if len(b) & 1 else b"")
    return out[:len(out) - (1 if tail and out[-1:] == b"\n" else 0)]


STYLES = ("gnu", "gnu0", "bsd", "bsdx", "short")
NAMES = ("m.o", "a_rather_long_name.o", "x", "name15chars__.o", "spaced name.o")


def groups(n):
    """Every way to split n inputs in order into single objects and archives: tuples of (kind, count)."""
    out = []

    def rec(k, cur):
        if k == n:
            out.append(tuple(cur))
            return
        rec(k + 1, cur + [("E", 1)])
        for c in range(1, n - k + 1):
            rec(k + c, cur + [("A", c)])
    rec(0, [])
    return out


def case(label, specs, names, cont, style, fmt, entry="__start", first=0, extras=None, turn=0, asked=None):
    return (label, specs, names, cont, style, fmt, entry, first, extras, turn, asked)


def families(thorough):
    n = itertools.count()
    gr = {k: groups(k) for k in range(1, 8)}

    def rot(k):
        i = next(n)
        g = gr[k]
        return dict(cont=g[i * 17 % len(g)], style=STYLES[i * 7 % 5], fmt=FMTS[i * 3 % len(FMTS)] if i % 2 else "elf", turn=i % 5)

    def graphs(fam, names, nobj, states, ostates, all_conts=False):
        k = len(names)
        for sp in itertools.product(itertools.product(states, repeat=k), repeat=nobj):
            for os_ in itertools.product(ostates, repeat=k):
                for pos in range(nobj + 1):
                    seq = list(sp)
                    seq.insert(pos, os_)
                    yield case(fam, tuple(seq), names, first=pos, **rot(nobj + 1))
    fams = []
    fams.append(("three objects, two symbols", lambda: graphs("3x2", ("aa", "b"), 3, (NONE, DEF, REF), (NONE, REF) if not thorough else (NONE, DEF, REF))))
    fams.append(("two objects, two symbols, local names", lambda: graphs("2x2l", ("aa", "b"), 2, (NONE, DEF, REF, LOC), (NONE, DEF, REF, LOC))))
    fams.append(("two objects, three symbols", lambda: graphs("2x3", ("aa", "b", "ab"), 2, (NONE, DEF, REF), (NONE, REF) if not thorough else (NONE, DEF, REF, LOC))))
    if thorough:
        fams.append(("three objects, three symbols", lambda: (c for c in graphs("3x3", ("aa", "b", "ab"), 3, (NONE, DEF, REF), (NONE, REF)) if c[1] == min(tuple(tuple(o[p] for p in q) for o in c[1]) for q in itertools.permutations(range(3))))))
        fams.append(("three objects, two symbols, local names", lambda: graphs("3x2l", ("aa", "b"), 3, (NONE, DEF, REF, LOC), (NONE, DEF, REF))))

    def chains():
        for ln in range(1, 6):
            nm = tuple("abcdefgh"[:ln])
            for p in itertools.permutations(range(ln + 1)):
                if ln == 5 and not thorough and sum(x * i for i, x in enumerate(p)) % 4:
                    continue
                for end in ("stop", "cycle", "missing", "twice", "skip"):
                    sp = []
                    for i in range(ln + 1):
                        st = [NONE] * ln
                        if i < ln:
                            st[i] = REF
                        if i:
                            st[i - 1] = DEF
                        sp.append(st)
                    if end == "cycle":
                        sp[ln][0] = REF if ln > 1 else sp[ln][0]
                    if end == "missing":
                        sp[ln][ln - 1] = NONE if ln > 1 else LOC
                    if end == "twice":
                        sp[ln][0] = DEF
                    if end == "skip" and ln > 1:
                        sp[0][ln - 1] = REF
                    order = tuple(tuple(sp[j]) for j in p)
                    yield case("chain " + end, order, nm, first=p.index(0), **rot(min(ln + 1, 7)))
    fams.append(("chains in every order", chains))

    def longchains():
        for ln in (12, 30, 64):
            nm = tuple(f"s{i}" for i in range(ln))
            for order in (range(ln + 1), range(ln, -1, -1), [j * 5 % (ln + 1) for j in range(ln + 1)] if (ln + 1) % 5 else range(ln + 1)):
                order = list(order)
                for cont in ((("E", 1),) * (ln + 1), (("A", ln + 1),), tuple(("A", 1) for _ in range(ln + 1))):
                    sp = [tuple(REF if k == j else DEF if k == j - 1 else NONE for k in range(ln)) for j in order]
                    for f in ("elf", "flat32"):
                        yield case(f"long chain {ln}", tuple(sp), nm, cont=cont, style="gnu", fmt=f, first=order.index(0))
    fams.append(("long chains", longchains))

    def containers():
        D, R, N = DEF, REF, NONE
        for sp, nm in ((((R, N, N), (D, R, N), (N, D, R), (N, N, D)), ("a", "b", "c")), (((R, R, N), (D, N, N), (D, D, N), (N, D, D)), ("a", "b", "c")), (((R, N, N), (N, R, D), (D, R, R), (N, D, N)), ("a", "b", "c"))):
            for p in itertools.permutations(range(4)):
                for g in gr[4]:
                    for st in STYLES:
                        yield case("containers", tuple(sp[j] for j in p), nm, cont=g, style=st, fmt="elf", first=p.index(0), turn=len(g))
    fams.append(("every arrangement in archives", containers))

    def specials():
        names = ("__start__data", "__stop__extra", "__start_allcode__", "__stop_alldata__", "__start__", "__stop_", "__start_foo")
        for k, nm in enumerate(names):
            for s0, s1, s2 in itertools.product((NONE, REF, DEF), (NONE, REF, DEF, LOC), (NONE, REF, DEF)):
                for need in itertools.product((NONE, REF), repeat=2):
                    for ex in ((), (".extra",)):
                        for pos in range(3):
                            seq = [(s1, DEF, NONE), (s2, NONE, DEF)]
                            seq.insert(pos, (s0,) + need)
                            exs = [()] * 3
                            exs[(pos + 1) % 3] = ex
                            yield case("special " + nm, tuple(seq), (nm, "u", "v"), first=pos, extras=tuple(exs), **rot(3))
    fams.append(("section symbols", specials))

    def entries():
        for s1, s2 in itertools.product(itertools.product((NONE, DEF, REF, LOC), repeat=2), repeat=2):
            for pos in range(3):
                for ask in ("a", "b", "__start", "nowhere"):
                    for s0 in ((NONE, NONE), (REF, NONE), (NONE, REF)):
                        seq = [s1, s2]
                        seq.insert(pos, s0)
                        yield case("entry", tuple(seq), ("a", "b"), first=pos, asked=ask, **rot(3))
    fams.append(("other entry points", entries))
    return fams


def work(cs):
    d = f"{ROOT}/w{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    jobs, meta = [], []
    for k, (label, specs, names, cont, style, fmt, entry, first, extras, turn, asked) in enumerate(cs):
        e = f"{d}/{k}"
        os.makedirs(e, exist_ok=True)
        for f in os.listdir(e):
            os.unlink(e + "/" + f)
        objs = [obj(i, st, names, entry if i == first else None, extras[i] if extras else (), turn + i if turn else 0, fmt) for i, st in enumerate(specs)]
        args, i = [], 0
        for g, (kind, cnt) in enumerate(cont):
            if kind == "E":
                f = f"o{i}.o"
                data = objs[i].build()
            else:
                f = f"l{g}.a"
                data = arc([(NAMES[(j + turn) % 5], objs[j].build()) for j in range(i, i + cnt)], style, turn & 1)
            i += cnt
            args.append(f)
            with open(f"{e}/{f}", "wb") as h:
                h.write(data)
        jobs.append(([SMLRL, "-" + fmt, *(["-entry", asked] if asked else []), "-o", "out", "-map", "map", *args], e, ""))
        meta.append(objs)
    rs = vlib.mrun(jobs, npar=1, timeout=20)
    bad, linked = [], 0
    for k, (c, objs, r) in enumerate(zip(cs, meta, rs)):
        label, specs, names, cont, style, fmt, entry, first, extras, turn, asked = c
        e = f"{d}/{k}"
        needed = select(objs, asked or entry)
        opt = {"entry": asked} if asked else {}
        what = None
        have = os.path.exists(e + "/out")
        if needed is not None:
            secs = {s.name for i in needed for s in objs[i].secs}
            defd = {x for o in objs for x in o.defines()}
            for i in needed:
                for w in objs[i].wants():
                    if w not in defd:
                        if w.endswith(("allcode__", "alldata__")):
                            continue
                        q = w[len("__start_"):] if w.startswith("__start_") else w[len("__stop_"):]
                        if q.replace("_", ".", 1) not in secs:
                            needed = None
                            break
                if needed is None:
                    break
        if r.rc == 0:
            linked += 1
            if needed is None:
                what = "linked, although a symbol is undefined or defined twice"
            elif not have:
                what = "status 0 without output"
            else:
                p = judge(objs, needed, fmt, opt, open(e + "/out", "rb").read(), open(e + "/map").read(), asked or entry)
                what = p[0] if p else None
        elif r.rc != 1:
            what = f"the linker ended with {r.rc}: {r.out[-200:]!r}"
        elif have:
            what = "failed, but left its output file"
        elif needed is not None:
            what = f"refused: {r.out.decode('latin-1', 'replace').strip()[-200:]}"
        if what:
            bad.append((c, what, replay_text(objs, fmt, opt) + f"\ncontainers {cont} style {style}\n"))
    return len(cs), linked, bad


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def body(c):
    global SMLRL, ROOT
    tc = vlib.Toolchain(tools=("smlrl",))
    SMLRL = tc.bin + "/smlrl"
    ROOT = vlib.scratch("c21")
    vlib.mrun([["true"]])
    per, links, images = {}, 0, 0
    for name, gen in families(c.thorough):
        k = 0
        for n, linked, bad in vlib.ppmap(work, chunks(gen(), 48)):
            k += n
            images += linked
            for cs, what, rep in bad:
                key = f"{cs[0]}:{cs[5]}:{what.split(' at ')[0][:60]}".replace(" ", "_")
                c.violation(key, f"{cs[0]}: {cs[1]} {cs[2]} in {cs[3]} ({cs[4]}) -{cs[5]} entry {cs[10] or cs[6]}: {what}", rep)
        per[name] = k
        links += k
        c.log(name, k)
    c.samples += list(per)[:5]
    c.finish(states=links, transitions=links, evaluations=links, traces_validated_against_impl=links, images=images, per_family=per, exhaustive=True,
             rule="every assignment of none/definition/reference(/local) to (object, symbol), every place of the entry object, archive arrangements and styles rotated over all and enumerated fully for three graphs")


if __name__ == "__main__":
    vlib.main("C21", "model_checking", body)
