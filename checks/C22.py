#!/usr/bin/env python3
"""C22: the images of every output format obey their loader's contract, for section sizes, alignments and options over a grid of
boundary values; limits are accepted at and refused beyond their edge."""
import sys, os, itertools, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, linkmodel
from linkmodel import *
import importlib.util
sp = importlib.util.spec_from_file_location("C20", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C20.py"))
c20 = importlib.util.module_from_spec(sp)
sp.loader.exec_module(c20)
G, fill, MENU = c20.G, c20.fill, c20.MENU
SMLRL = ROOT = FS = None

F16 = ("tiny", "small", "flat16")


def up(x, a):
    return (x + a - 1) // a * a if a > 1 else x


def layout(objs, needed, fmt, opt):
    """The tightest layout the documentation allows. -> None when a documented limit is exceeded, else (end of code, end of data)."""
    secs = [s for i in needed for s in objs[i].secs if s.flags & A]
    kinds = {}
    for s in secs:
        k = (s.flags & (W | X), s.type)
        if kinds.setdefault(s.name, k) != k:
            return None
        if s.flags & X and (s.flags & W or s.type == NOBITS):
            return None
        if fmt == "pe" and s.type == NOBITS and not s.flags & W:
            return None
        if s.align & (s.align - 1):
            return None
        if fmt == "huge" and s.align > 16 and s.name not in (".relot", ".relod") or fmt in ("pe", "elf", "mach", "aout") and s.align > 4096:
            return None
    if not any(s.flags & X for s in secs):
        return None
    order = sorted(secs, key=lambda s: order_key(s.name, s.flags, s.type))
    hdr = 0
    org = {"tiny": 0x100, "flat16": opt.get("origin", 0), "flat32": opt.get("origin", 0), "small": 64, "huge": 64, "unreal": 64,
           "pe": (opt.get("origin", 0x400000) & ~4095) + 4096, "elf": (opt.get("origin", 0x8048000) & ~4095) + 4096,
           "mach": (opt.get("origin", 0x1000) & ~4095) + 28 + (56 if opt.get("origin", 0x1000) & ~4095 else 0) + (56 + 68) * (1 + any(not s.flags & X for s in secs)) + 56 + 24 + 80,
           "aout": 0}[fmt]
    lim = 0x10000 if fmt in F16 else 1 << 32
    for jump in (0, 1):
        p = org + ({"tiny": 3, "flat16": 3, "flat32": 5}.get(fmt, 0) if jump else 0)
        if p > lim - (1 if fmt == "flat16" else 0):
            return None
        code = p
        where = {}
        isdata = False
        prev = None
        for n, s in enumerate(order):
            if not s.flags & X and not isdata:
                isdata = True
                if fmt == "small":
                    p = 4
                elif fmt in ("pe", "elf", "mach", "aout"):
                    p = up(p, 4096)
            if prev is not None and fmt in ("pe", "elf", "mach", "aout") and not prev.flags & X:
                if (s.type == NOBITS and prev.type != NOBITS and not opt.get("nobss")) or \
                   fmt == "pe" and (s.flags & W and not prev.flags & W and prev.type != NOBITS or prev.name.startswith(".dll_") and prev.flags & W and not s.name.startswith(".dll_")):
                    p = up(p, 4096)
            al = s.align
            if fmt in F16 and s.flags & X:
                al = min(al, 4)
            if fmt == "huge" and s.name in (".relot", ".relod"):
                al = 4
            p = up(p, al)
            where[id(s)] = p
            p += s.size
            if p > lim:
                return None
            if s.flags & X:
                code = p
            prev = s
        if p > (1 << 32):
            return None
        if fmt not in ("tiny", "flat16", "flat32"):
            break
        ent = None
        for i in needed:
            for n, sec, v, b, t in objs[i].syms:
                if n == opt.get("entry", "__start") and b == 1 and sec:
                    ent = where[id(objs[i].secs[sec - 1])] + v
        if ent == org:
            break
    if fmt in ("tiny", "small"):
        st = opt.get("stack", 8192)
        if not 4096 <= st <= 0xfffc:
            return None
        if p > 0xfffc - st:
            return None
    if fmt in ("huge", "unreal"):
        st = opt.get("stack", 32768)
        if not 8192 <= st <= 0xfffc or p > 524288:
            return None
    if fmt in ("pe", "elf", "mach") and (opt.get("origin", 0x1000) & ~4095 & M32) >= 0xfffff000:
        return None
    return code, p


def simple(sizes, aligns=(4, 4, 4, 4), names=(".text", ".rodata", ".data", ".bss"), ent=0, rel=True):
    o = G(0)
    ks = {}
    for n, sz, al in zip(names, sizes, aligns):
        if sz is not None:
            ks[n] = o.add(n, sz, al)
    t = ks.get(".text") or ks.get(".tz")
    if t:
        o.sym("__start", t, ent)
    d = ks.get(".data")
    if rel and d and o.secs[d - 1].size >= 4:
        o.place(d, 0, R32, o.sym("", d, 0, 0, 3), 1)
    return [o]


def stub(n):
    part, pages = n % 512, (n + 511) // 512
    b = bytearray(fill(("stub", n), n))
    b[:6] = b"MZ" + struct.pack("<HH", part, pages)
    return bytes(b)


def fams(thorough):
    out = []
    # sizes
    ct = (1, 16, 4064, 4096, 4097)
    ot = (None, 0, 1, 12, 508, 4095, 4096, 4097) if not thorough else (None, 0, 1, 3, 4, 12, 15, 16, 17, 508, 511, 512, 4092, 4095, 4096, 4097, 8192)
    if thorough:
        ct += (2, 3, 448, 1024 - 64, 4032, 3636, 4095, 8192)
    for s in itertools.product(ct, ot, ot, ot):
        out.append((f"sizes {s}", lambda s=s: simple(s), [(f, {}) for f in FORMATS]))
    # alignments x small sizes, both with and without -nobss
    for al in itertools.product((1, 2, 4, 16), repeat=4):
        for s in ((1, 2, 3, 5), (7, None, 1, 1), (3, 1, None, 2)):
            out.append((f"align {al} {s}", lambda al=al, s=s: simple(s, al), [(f, o) for f in FORMATS for o in ({}, {"nobss": 1})]))
    for al in (0, 3, 8, 32, 64, 100, 4096, 8192, 0x10000, 0x80000000):
        for k in range(4):
            a = [4] * 4
            a[k] = al
            if al == 0x80000000 or al > 4096:
                fm = ("pe", "elf", "mach", "huge", "tiny", "small")
                if al < 0x80000000:
                    fm += ("flat32", "unreal") + ("aout",)
            else:
                fm = FORMATS
            out.append((f"align big {a}", lambda a=tuple(a): simple((5, 6, 7, 8), a), [(f, {}) for f in fm]))
    # sizes x -nobss / -norel / dll sections
    dn = (".text", ".rodata", ".dll_a", ".data", ".bss")
    for s in itertools.product((9, 4096), (None, 5, 4096), (None, 4, 4096), (None, 4, 4097), (None, 1, 4096, 5000)):
        out.append((f"dll {s}", lambda s=s: simple(s, (4,) * 5, dn), [("pe", {}), ("pe", {"norel": 1}), ("pe", {"nobss": 1}), ("elf", {"nobss": 1}), ("mach", {"nobss": 1}), ("aout", {"nobss": 1}), ("aout", {}), ("small", {"nobss": 1}), ("huge", {"nobss": 1}), ("unreal", {"nobss": 1}), ("tiny", {"nobss": 1}), ("flat32", {"nobss": 1})]))
    # entry point and origin
    orgs = {"flat16": (0, 1, 3, 0x100, 0x7c00, 0x7c01, 0xff00, 0xfff0, 0xfffd, 0xffff, 0x10000), "flat32": (0, 1, 5, 0x7c00, 0x10000, 0x100000, 0x7fffffff, 0x80000000, 0xc0100000),
            "pe": (0, 0x1000, 0x1fff, 0x10000, 0x400000, 0x7fff0000, 0x80000000, 0xfffff000), "elf": (0, 0x1000, 0x1fff, 0x10000, 0x8048123, 0xbfff0000, 0xfffff000), "mach": (0, 1, 0x1000, 0x1fff, 0x10000, 0x8048000, 0xfffff000)}
    for f, l in orgs.items():
        for org in l:
            for ent in (0, 1, 2, 5):
                for s, al in (((6, 3, 4, 5), (1, 1, 1, 1)), ((8, None, None, None), (16, 4, 4, 4)), ((17, 1, 8, 40), (4, 4, 4, 16))):
                    out.append((f"origin {org:#x} entry +{ent} {s}", lambda s=s, al=al, e=ent: simple(s, al, ent=e), [(f, {"origin": org})]))
    for ent in range(0, 24):
        for al in (1, 4, 16):
            out.append((f"entry +{ent} align {al}", lambda e=ent, a=al: simple((24, 4, 4, 4), (a, 4, 4, 4), ent=e), [(f, {}) for f in FORMATS] + [(f, {"entry": "S0_0"}) for f in FORMATS]))
    # limits: segment, stack, total
    for f, st in itertools.product(("tiny", "small"), (None, 4095, 4096, 4097, 0x8000, 0xf000, 0xfff8, 0xfffc, 0xfffd, 0x10000)):
        o = {} if st is None else {"stack": st}
        room = 0xfffc - (8192 if st is None else st)
        for kind in range(4):
            for dlt in (-17, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 16):
                base = {"tiny": (0x100, 0), "small": (4, 0)}[f][0]
                sz = max(0, room - base - 64 + dlt)
                if kind == 0:
                    s, al = (60 if f == "tiny" else 10, None, sz + (4 if f == "tiny" else 64), None), (1, 1, 1, 1)
                elif kind == 1:
                    s, al = (60, None, 4, max(0, sz) + (0 if f == "tiny" else 60)), (1, 1, 1, 1)
                elif kind == 2:
                    s, al = (max(1, sz + 64 + (0 if f == "tiny" else 4)), None, None, None), (1, 1, 1, 1)
                else:
                    s, al = (30, 34, max(0, sz), None), (1, 4, 1, 1)
                out.append((f"limit {f} stack={st} {s}", lambda s=s, al=al: simple(s, al), [(f, o)]))
    for dlt in range(-70, 6):
        out.append((f"code segment {dlt}", lambda d=dlt: simple((0x10000 + d, 4, None, None), (1, 1, 1, 1)), [("small", {}), ("flat16", {})]))
        out.append((f"flat16 data {dlt}", lambda d=dlt: simple((0x8000, None, 0x8000 + d, 3), (1, 1, 1, 1)), [("flat16", {}), ("flat16", {"entry": "S0_1"})]))
        out.append((f"flat16 bss {dlt}", lambda d=dlt: simple((0x8000, None, 30, 0x8000 + d), (1, 1, 1, 1)), [("flat16", {}), ("flat16", {"nobss": 1})]))
    for f in ("huge", "unreal"):
        for st in (None, 8191, 8192, 8193, 0x8000, 0xfffc, 0xfffd, 0x20000):
            o = {} if st is None else {"stack": st}
            for s in ((30, 5, 6, 7), (4096, None, 16, None), (17, None, None, 1), (511, 1, 2, 3), (448, None, None, None), (449, None, None, 4096)):
                out.append((f"stack {f} {st} {s}", lambda s=s: simple(s), [(f, o)]))
        for dlt in (-17, -16, -15, -1, 0, 1, 15, 16):
            T = 524288 - 64
            for s in ((16, None, T - 16 + dlt, None), (16, None, 64, T - 80 + dlt), (T + dlt, None, None, None), (16, T - 32 + dlt, None, 16)):
                out.append((f"total {f} {s}", lambda s=s: simple(s, (1, 1, 1, 1), rel=False), [(f, {}), (f, {"nobss": 1})]))
        for part in range(0, 514, 1 if thorough else 3):
            out.append((f"part {f} {part}", lambda p=part: simple((400 + p, None, None, 5), (1, 1, 1, 1)), [(f, {}), ("small", {})]))
    # a.out stubs and heaps
    for n in (32, 64, 511, 512, 513, 1023, 1024, 1025, 1536, 2048, 2049, 3000):
        out.append((f"stub {n}", lambda: simple((30, 5, 6, 7)), [("aout", {"stub": stub(n)}) if n >= 64 else ("aout", {})]))
    for st in (None, 0, 1, 4095, 4096, 4097, 0x100000):
        for mn in (None, 0, 1, 4096, 0x80001, 0x2000000):
            for mx in (None, 0, 1, 0x80000, 0x80001, 0x1000000, 0x3000000):
                o = {"stub": stub(700)}
                if st is not None:
                    o["stack"] = st
                if mn is not None:
                    o["minheap"] = mn
                if mx is not None:
                    o["maxheap"] = mx
                out.append((f"heap {st} {mn} {mx}", lambda: simple((30, 5, 6, 7)), [("aout", o)]))
    for ss in (1, 2, 3, 9, 10, 16):
        out.append((f"subsystem {ss}", lambda: simple((30, 5, 6, 7)), [("pe", {"subsys": ss})] + ([("pe", {"gui": 1, "subsys": 2})] if ss == 2 else [])))

    # sections over several objects: every assignment of two pieces of each kind to objects, flags inconsistencies, no code
    def multi(parts, sz):
        objs = [G(i) for i in range(1 + max(p[0] for p in parts))]
        for n, (i, name, fl, ty, al) in enumerate(parts):
            o = objs[i]
            s = sz[n % len(sz)]
            k = o.sec(name, b"" if ty == NOBITS else fill((n, s), s), fl, ty, al, s)
            o.sym(f"S{i}_{k - 1}", k, 0)
        objs[0].sym("__start", 1, 0)
        for i in range(1, len(objs)):
            objs[0].sym(f"S{i}_0", 0, 0)
        for nm in ("__start_allcode__", "__stop_allcode__"):
            objs[0].sym(nm, 0, 0)
        return objs
    kinds = [(".text", A | X, 1), (".text", A, 1), (".text", A | X | W, 1), (".data", A | W, 1), (".data", A, 1), (".data", A | W, 8), (".code", A | X, 1), (".bss", A | W, 8), (".bss", A, 8), (".x", A | X, 8),
             (".rodata", A, 1), (".init", A | W, 1), (".note", 0, 1)]
    for a, b, k in itertools.product(kinds, kinds, kinds):
        if a[1] & A == 0:
            continue
        parts = [(0, *a, 4), (0, *b, 2), (1, *k, 4)]
        out.append((f"kinds {a} {b} {k}", lambda p=parts: multi(p, (5, 6, 7)), [(f, {}) for f in (FORMATS if thorough else ("elf", "pe", "small", "flat32", "unreal", "aout"))]))
    for names in itertools.product((".text", ".tz", ".ab", ".rodata", ".robin", ".data", "zdata", ".bss", ".bss2", ".dll_q", "a_b", "a.b"), repeat=3):
        fl = {".text": A | X, ".tz": A | X, ".ab": A | X, ".rodata": A, ".robin": A, ".data": A | W, "zdata": A | W, ".bss": A | W, ".bss2": A | W, ".dll_q": A | W, "a_b": A | W, "a.b": A}
        parts = [(0, ".text", A | X, 1, 4)] + [(i, n, fl[n], 8 if n.startswith(".bss") else 1, (4, 1, 16)[i]) for i, n in enumerate(names)]
        out.append((f"names {names}", lambda p=parts: multi(p, (5, 6, 1, 4096)), [(f, {}) for f in (FORMATS if thorough else ("elf", "pe", "small", "mach", "huge"))]))
    for relot in (1, 4, 16, 32):
        for s in (1, 4, 5, 8):
            parts = [(0, ".text", A | X, 1, 4), (0, ".relot", A, 1, relot), (0, ".relod", A, 1, relot), (1, ".text", A | X, 1, 1), (1, ".relot", A, 1, relot), (1, ".data", A | W, 1, 1)]
            out.append((f"relot {relot} {s}", lambda p=parts, s=s: multi(p, (s, 3, 8, 4)), [("huge", {}), ("elf", {}), ("tiny", {})]))
    # function sizes in the huge and unreal models
    for v in (0, 1, 0xffef, 0xfff0, 0xfff1, 0x10000, 0xffffffff):
        for pos in range(3):
            def fx(v=v, pos=pos):
                o = simple((30, 5, 6, 7))
                vals = [16, 32, 64]
                vals[pos] = v
                o[0].sec(".fxnsz", struct.pack("<3I", *vals), 0, PROGBITS, 4)
                return o
            out.append((f"fxnsz {v:#x} {pos}", fx, [("huge", {"_fx": v}), ("unreal", {"_fx": v}), ("elf", {})]))
    return out


def workn(n):
    label, mk, variants = FS[n]
    d = f"{ROOT}/w{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    objs = mk()
    exp_fx = [v[1].pop("_fx", None) for v in variants]
    res = run_set(vlib, SMLRL, d, objs, variants)
    bad, imgs, refused = [], 0, 0
    for ((fmt, opt), rc, msg, probs), fx in zip(res, exp_fx):
        entry = opt.get("entry", "__start")
        need_ = select(objs, entry)
        lay = layout(objs, need_, fmt, opt) if need_ is not None else None
        if fx is not None and fx >= 0xfff0:
            lay = None
        if not probs:
            if rc == 0 and lay is None:
                probs = ["linked, although a documented limit or rule is broken"]
            elif rc == 1 and lay is not None:
                probs = ["refused: " + msg[-200:]]
        if rc == 0:
            imgs += 1
        else:
            refused += 1
        for p in probs:
            bad.append((fmt, opt, p, replay_text(objs, fmt, {k: v for k, v in opt.items()}) if len(bad) < 3 else ""))
    return label, len(res), imgs, refused, bad


def body(c):
    global SMLRL, ROOT, FS
    tc = vlib.Toolchain(tools=("smlrl",))
    SMLRL = tc.bin + "/smlrl"
    ROOT = vlib.scratch("c22")
    vlib.mrun([["true"]])
    FS = fams(c.thorough)
    links = images = ref = 0
    seen = set()
    fcount = {}
    for label, k, good, r, bad in vlib.ppmap(workn, range(len(FS)), chunk=8):
        links += k
        images += good
        ref += r
        fcount[label.split()[0]] = fcount.get(label.split()[0], 0) + k
        for fmt, opt, p, rep in bad:
            key = f"{fmt}:{label.split()[0]}:{p.split(' at ')[0][:50]}".replace(" ", "_")
            if key in seen:
                continue
            seen.add(key)
            c.violation(key, f"{label} -{fmt} { {k: v for k, v in opt.items() if k != 'stub'} }: {p}", rep)
    c.assumptions.append("loader models written from the formats' definitions; zero-size PE sections are not judged")
    c.finish(evaluations=links, distinct_nontrivial=images, states=links, transitions=images, traces_validated_against_impl=links,
             images=images, refusals_confirmed=ref, links_by_family=fcount,
             rule="all combinations of the size menu per section kind x format; alignments; origins x entry offsets; stack/heap/segment/total limits around their edges; section kind and name triples over two to three objects",
             samples=[f[0] for f in FS[::max(1, len(FS) // 5)]])


if __name__ == "__main__":
    vlib.main("C22", "exploration", body)
