#!/usr/bin/env python3
"""C20: relocations. Every link of a bounded space of object sets in every output format; each image is loaded by an independent
model of the format's loader and every byte of every section is compared."""
import sys, os, itertools, struct, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from linkmodel import *

TYPES = (R32, RPC32, R16, RPC16)
MENU = {".text": (A | X, PROGBITS), ".tz": (A | X, PROGBITS), ".rodata": (A, PROGBITS), ".data": (A | W, PROGBITS),
        "zdata": (A | W, PROGBITS), ".bss": (A | W, NOBITS), ".ab": (A | X, PROGBITS), ".dll_x": (A | W, PROGBITS), ".dll_a": (A | W, PROGBITS)}
SMLRL = None
ROOT = None


def fill(seed, n):
    out = b""
    k = 0
    while len(out) < n:
        out += hashlib.md5(f"{seed}.{k}".encode()).digest()
        k += 1
    return bytearray(out[:n])


def put(buf, off, typ, addend):
    if typ in (R32, RPC32):
        struct.pack_into("<I", buf, off, addend & M32)
    else:
        struct.pack_into("<H", buf, off, addend & 0xffff)


def width(t):
    return 4 if t in (R32, RPC32) else 2


class G(Ob):
    """An object whose sections get symbols Si_j at their start."""

    def __init__(self, i):
        super().__init__()
        self.i = i
        self.want = []     # (sec, off, type, symbol key, addend)

    def add(self, name, size, align=4):
        fl, ty = MENU[name]
        k = self.sec(name, b"" if ty == NOBITS else fill((self.i, len(self.secs), size), size), fl, ty, align, size)
        self.sym(f"S{self.i}_{k - 1}", k, 0)
        return k

    def place(self, sec, off, typ, sym, addend):
        s = self.secs[sec - 1]
        b = bytearray(s.data)
        put(b, off, typ, addend)
        s.data = bytes(b)
        self.rel(sec, off, typ, sym)


def fams(thorough):
    """-> [(label, objs factory, variants)]. """
    out = []
    addends = (0, 1, -1, 4, -4, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x12345678)

    def matrix(pe, secsel, rot):
        # two objects, every section kind; relocations of every type x symbol kind x addend from each progbits section
        objs = [G(0), G(1)]
        for o in objs:
            for n in secsel:
                o.add(n, 64 if MENU[n][1] == NOBITS else 16)
        ks = []
        for o, p in ((objs[0], objs[1]), (objs[1], objs[0])):
            ids = [0]                                       # the absolute "symbol 0"
            for k in range(1, len(o.secs) + 1):
                ids.append(o.sym("", k, 0, 0, 3))           # section symbols
                ids.append(o.sym(f"L{k}", k, 7, 0, 0))      # local symbols
                ids.append(o.sym(f"G{o.i}_{k}", k, 5, 1, 1))   # own global
            for k in range(1, len(p.secs) + 1):
                ids.append(o.sym(f"G{p.i}_{k}", 0, 0, 1, 0))   # imported
            for nm in ("__start__text", "__stop__text", "__start__bss", "__stop__bss", "__start_allcode__", "__stop_allcode__",
                       "__start_alldata__", "__stop_alldata__", "__start__data", "__stop_zdata"):
                base = nm.replace("__start_", "").replace("__stop_", "")
                if base in ("_text", "allcode__") or base == "alldata__" and any(not MENU[x][0] & X for x in secsel) or \
                   base.replace("_", ".", 1) in secsel or base in secsel:
                    ids.append(o.sym(nm, 0, 0, 1, 0))
            ks.append(ids)
        objs[0].sym("__start", 1, 3, 1, 2)
        for o, ids in zip(objs, ks):
            for k, s in enumerate(o.secs):
                if s.type == NOBITS:
                    continue
                off = 16
                for n, (t, si, ad) in enumerate(itertools.product(TYPES, ids, addends)):
                    if pe and (si == 0 or t == R16):
                        continue
                    if (n + rot) % 3 == 0 or k % 2 == 0:
                        s.data += bytes(fill(("g", n), 1 + (n + rot) % 3))
                        off = len(s.data)
                        s.data += b"\0" * 4
                        s.size = len(s.data)
                        o.place(k + 1, off, t, si, ad)
                s.data += b"tail"
                s.size = len(s.data)
        return objs

    sets = [(".text", ".rodata", ".data", ".bss"), (".text",), (".text", ".bss"), (".text", ".data"), (".tz", ".text", ".rodata"),
            (".bss", "zdata", ".data", ".rodata", ".text", ".ab"), (".text", ".dll_x", ".bss", ".data")]
    for ss in sets:
        for rot in range(3):
            lim = [f for f in FORMATS if f != "pe"]
            small = len(ss) <= 2
            # 16-bit segments cannot hold the big matrices: 32-bit formats only there
            out.append((f"matrix {ss} {rot}", lambda ss=ss, rot=rot: matrix(False, ss, rot), [(f, {}) for f in lim]))
            out.append((f"matrixpe {ss} {rot}", lambda ss=ss, rot=rot: matrix(True, ss, rot), [("pe", {}), ("pe", {"norel": 1}), ("pe", {"origin": 0x10000000})]))

    def edge(size, offs, typ, nm, other, align, pre):
        o, p = G(0), G(1)
        o.add(".text", 8 + pre)
        k = o.add(nm, size, align)
        j = p.add(other, 24)
        p.sym("tgt", j, 9)
        p.sym("own", j, 2, 0)
        si = o.sym("tgt", 0, 0)
        o.sym("__start", 1, 0)
        for q, off in enumerate(offs):
            o.place(k, off, typ, si, 3 + q)
        return [o, p]
    sizes = [4, 5, 6, 7, 8, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 2044, 2047, 2048, 2049, 2051, 2052, 3071, 3072, 3073, 3075]
    if thorough:
        sizes = sorted(set(range(4, 40)) | set(range(1010, 1040)) | set(range(2040, 2062)) | set(range(3064, 3084)) | set(range(4090, 4104)))
    ef = ("elf", "small", "pe", "aout", "flat32", "huge") if not thorough else FORMATS
    for size in sizes:
        for typ in TYPES:
            w = width(typ)
            pos = {0, size - w} | {b + x for b in (1024, 2048, 3072, 4096) for x in range(-5, 4)}
            pos = sorted(x for x in pos if 0 <= x <= size - w)
            # non-overlapping selections: each alone is covered by taking every w-th with every phase
            for ph in range(w):
                sel, last = [], -99
                for x in pos:
                    if x >= last + w and (x % w == ph or x in (0, size - w)):
                        sel.append(x)
                        last = x
                for nm in (".text", ".data", ".rodata"):
                    fm = [f for f in ef if not (f == "pe" and typ == R16)]
                    out.append((f"edge size={size} type={typ} phase={ph} {nm}", lambda a=size, b=sel, c=typ, e=nm: edge(a, b, c, e, ".data", 4, 0), [(f, {}) for f in fm]))

    def pairs(layout, al, sz):
        # layout: per object a tuple of section names; every section refers to every other section by each symbol kind
        objs = [G(i) for i in range(len(layout))]
        for o, l in zip(objs, layout):
            for k, n in enumerate(l):
                o.add(n, sz[(o.i + k) % len(sz)], al[(o.i * 2 + k) % len(al)])
        tgt = [(o.i, k) for o in objs for k in range(1, len(o.secs) + 1)]
        for o in objs:
            o.sym(f"__start" if o.i == 0 else f"ent{o.i}", next(k for k, s in enumerate(o.secs, 1)), 1)
            imp = {}
            for (i, k) in tgt:
                imp[i, k] = [o.sym("", k, 0, 0, 3), o.sym(f"l{k}", k, 2, 0)] if i == o.i else [o.sym(f"S{i}_{k - 1}", 0, 0)]
            for k, s in enumerate(o.secs, 1):
                if s.type == NOBITS:
                    continue
                n = 0
                for tk, sis in imp.items():
                    for si in sis:
                        for t in (R32, RPC32):
                            s.data += bytes([0x90 + n % 7] * (n % 3)) + b"\0" * 4
                            s.size = len(s.data)
                            o.place(k, s.size - 4, t, si, (0, 8, -4)[n % 3])
                            n += 1
        return objs
    names = (".text", ".rodata", ".data", ".bss", ".tz")
    lay1 = [c for r in range(1, 5) for c in itertools.permutations(names, r) if ".text" in c or ".tz" in c]
    lays = [(c,) for c in lay1]
    sub = [c for r in range(1, 3 if not thorough else 4) for c in itertools.permutations(names, r)]
    lays += [(a, b) for a in ((".text", ".data"), (".data", ".text"), (".text", ".bss"), (".rodata", ".tz"), (".text", ".rodata", ".data", ".bss")) for b in sub]
    lays += [((".text",), a, b) for a in sub[:12] for b in sub[:12]]
    # repeated names within one object
    lays += [((".text", ".text"),), ((".text", ".data", ".data"),), ((".data", ".text", ".data", ".text"),), ((".bss", ".text", ".bss"), (".bss",))]
    fl = FORMATS
    for n, l in enumerate(lays):
        for al, sz in (((4,), (8,)), ((1, 16, 2), (5, 1, 0, 3)), ((16,), (1, 7))):
            if not thorough and al == (16,) and n % 3:
                continue
            if l[0][0] in (".bss",) and False:
                continue
            out.append((f"pairs {l} align={al} size={sz}", lambda l=l, al=al, sz=sz: pairs(l, al, sz), [(f, {}) for f in fl]))

    def pages(places, npre, typ):
        o = G(0)
        o.add(".text", 64 + npre)
        k = o.add(".data", max(places) + 9)
        si = o.sym("", k, 0, 0, 3)
        o.sym("__start", 1, 0)
        for n, p in enumerate(places):
            o.place(k, p, typ, si, n)
        for n in range(npre % 4):
            o.place(1, 4 + 8 * n, R32, si, n)
        return [o]
    cand = (0, 4, 0x400, 0xff8, 0xffc, 0xffd, 0xffe, 0xfff, 0x1000, 0x1004, 0x1ffc, 0x2000, 0x2ffe, 0x3000)
    for r in (1, 2, 3) + ((4,) if thorough else ()):
        for c in itertools.combinations(cand, r):
            if any(y - x < 4 for x, y in zip(c, c[1:])):
                continue
            npre = sum(c) % 4
            out.append((f"pages {[hex(x) for x in c]}", lambda c=c, n=npre: pages(c, n, R32), [("pe", {}), ("aout", {}), ("unreal", {})]))
    return out


def work(job):
    n, label, objs, variants = job
    d = f"{ROOT}/w{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    o = objs()
    nrel = sum(len(s.rels) for x in o for s in x.secs)
    res = run_set(vlib, SMLRL, d, o, variants)
    bad = []
    for (fmt, opt), rc, msg, probs in res:
        ok16 = fmt in ("tiny", "small", "flat16", "huge", "unreal")
        if rc == 1 and not probs:
            tot = sum(s.size + s.align for x in o for s in x.secs)
            nocode = not any(s.flags & X for x in o for s in x.secs)
            if fmt in ("tiny", "small", "flat16") and tot > 50000 or nocode:
                continue
            probs = ["refused: " + msg]
        for p in probs:
            bad.append((fmt, opt, p, replay_text(o, fmt, opt)))
    return n, label, nrel, len(res), sum(1 for r in res if r[1] == 0), bad


def body(c):
    global SMLRL, ROOT
    tc = vlib.Toolchain(tools=("smlrl",))
    SMLRL = tc.bin + "/smlrl"
    ROOT = vlib.scratch("c20")
    vlib.mrun([["true"]])
    fs = fams(c.thorough)
    global FS
    FS = fs
    c.log("object sets:", len(fs))
    links = images = rels = 0
    seen = set()
    for n, label, nrel, k, good, bad in vlib.ppmap(workn, range(len(fs)), chunk=8):
        links += k
        images += good
        rels += nrel * good
        for fmt, opt, p, rep in bad:
            key = f"{fmt}:{label.split()[0]}:{p.split(' at ')[0][:60]}".replace(" ", "_")
            if key in seen:
                continue
            seen.add(key)
            c.violation(key, f"{label} -{fmt} {opt}: {p}", rep)
    c.assumptions.append("the loader models (MZ, PE, ELF, Mach-O, a.out, flat) written from the formats' definitions")
    c.finish(evaluations=links, distinct_nontrivial=images, states=len(fs), transitions=rels, traces_validated_against_impl=images,
             object_sets=len(fs), images_loaded_and_compared=images, relocated_places_compared=rels,
             rule="every object set x format of the families: type x symbol kind x addend matrices, relocations around every buffer and page boundary, section permutations over one to three objects",
             samples=[f[0] for f in fs[::max(1, len(fs) // 5)]])


def workn(n):
    label, objs, variants = FS[n]
    return work((n, label, objs, variants))


if __name__ == "__main__":
    vlib.main("C20", "exploration", body)
