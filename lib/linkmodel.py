"""What the linker has to produce: loaders for every output format (following each format's own definition) and the judgement of a
loaded image against the objects it was linked from. Addresses of the input sections are taken from the map file and then have to be
confirmed by the image: contents, relocated places, alignment, order, disjointness, zero fill, headers, start/stop symbols."""
import struct
import elfio

W, A, X = 1, 2, 4
PROGBITS, NOBITS = 1, 8
R32, RPC32, R16, RPC16 = 1, 2, 20, 21
FORMATS = ("tiny", "small", "huge", "unreal", "flat16", "flat32", "pe", "elf", "aout", "mach")
M32 = 0xffffffff


class Sec:
    __slots__ = ("name", "data", "flags", "type", "align", "size", "obj", "addr", "fofs", "rels", "space")

    def __init__(self, name, data=b"", flags=A | W, type=PROGBITS, align=4, size=None):
        self.name, self.data, self.flags, self.type, self.align = name, bytes(data), flags, type, align
        self.size = len(self.data) if size is None else size
        self.rels = []
        self.addr = self.fofs = None


class Ob:
    """secs: [Sec]; syms: [(name, section number 1.. or 0 or 0xfff1, value, bind, type)]; rels are on the sections: (offset, type, symbol number)."""

    def __init__(self):
        self.secs = []
        self.syms = [("", 0, 0, 0, 0)]

    def sec(self, *a, **k):
        s = Sec(*a, **k)
        s.obj = self
        self.secs.append(s)
        return len(self.secs)

    def sym(self, name, sec, value, bind=1, typ=0):
        self.syms.append((name, sec, value, bind, typ))
        return len(self.syms) - 1

    def rel(self, sec, off, typ, sym):
        self.secs[sec - 1].rels.append((off, typ, sym))

    def build(self):
        b = elfio.Builder()
        for s in self.secs:
            b.sec(s.name, s.data, s.flags, s.type, s.align, s.size)
        for n, sec, v, bind, typ in self.syms[1:]:
            b.sym(n, sec, v, bind, typ)
        for i, s in enumerate(self.secs):
            for r in s.rels:
                b.rel(i + 1, *r)
        out = b.build()
        self.layout = b.layout
        return out

    def defines(self):
        return {n for n, s, v, b, t in self.syms if n and b == 1 and s}

    def wants(self):
        return [n for n, s, v, b, t in self.syms if n and b == 1 and not s]


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def special(name):
    return name in ("__start_allcode__", "__stop_allcode__", "__start_alldata__", "__stop_alldata__") or \
        name.startswith("__start_") and len(name) > 8 or name.startswith("__stop_") and len(name) > 7


def select(objs, entry):
    """The objects transitively needed from the entry point, the first definition in input order counting. None: the link must fail."""
    first = {}
    for i, o in enumerate(objs):
        for d in o.defines():
            first.setdefault(d, i)
    if entry not in first:
        return None
    got, todo = set(), [first[entry]]
    while todo:
        i = todo.pop()
        if i in got:
            continue
        got.add(i)
        for n in objs[i].wants():
            if n in first:
                todo.append(first[n])
            elif not special(n):
                return None
    seen = set()
    for i in got:
        for d in objs[i].defines():
            if d in seen:
                return None
            seen.add(d)
    return sorted(got)


class Image:
    """spaces: {name: [(address, bytes, memory size)]}; entry: (space, address); facts about the rest."""

    def __init__(self):
        self.segs = {"m": []}
        self.entry = None
        self.relocs = None
        self.info = {}
        self.fbase = {}     # space -> [(address, file offset, size)]

    def add(self, addr, data, memsize=None, fofs=None, space="m"):
        self.segs.setdefault(space, []).append((addr, data, len(data) if memsize is None else memsize))
        self.fbase.setdefault(space, []).append((addr, fofs, len(data)))

    def read(self, addr, n, space="m"):
        """Bytes of the loaded memory, None where nothing is loaded."""
        if n == 0:
            return b""
        for a, d, m in self.segs.get(space, ()):
            if a <= addr and addr + n <= a + m:
                o = addr - a
                if o + n <= len(d):
                    return d[o:o + n]
                return d[o:o + n] + b"\0" * (n - max(0, len(d) - o))
        return None

    def fileofs(self, addr, space="m"):
        for a, f, n in self.fbase.get(space, ()):
            if a <= addr <= a + n:
                return addr - a + f
        return None


def u16(d, o):
    return struct.unpack_from("<H", d, o)[0]


def u32(d, o):
    return struct.unpack_from("<I", d, o)[0]


def load(fmt, d, opt, codesize=None):
    """Loads the file as the format prescribes."""
    im = Image()
    if fmt in ("tiny", "flat16", "flat32"):
        org = 0x100 if fmt == "tiny" else opt.get("origin", 0)
        im.add(org, d, fofs=0)
        im.org = org
        im.entry = ("m", org)
    elif fmt in ("small", "huge", "unreal"):
        need(len(d) >= 32 and d[:2] == b"MZ", "no MZ header")
        part, pages, nrel, hdr, mina, maxa, ss, sp, chk, ip, cs, relofs, ovl = struct.unpack_from("<13H", d, 2)
        size = pages * 512 - (512 - part if part else 0)
        need(part < 512, f"MZ last page {part} bytes")
        need(size == len(d), f"MZ header says {size} bytes, the file has {len(d)}")
        need(nrel == 0 and hdr >= 2 and hdr * 16 <= len(d), "MZ relocations or header size")
        H = im.H = hdr * 16
        body = d[hdr * 16:]
        im.mz = dict(paras=(len(body) + 15) // 16, mina=mina, maxa=maxa, ss=ss, sp=sp, cs=cs, ip=ip)
        im.alloc = (im.mz["paras"] + mina) * 16
        need(maxa >= mina, "MZ MaxAlloc below MinAlloc")
        if fmt == "small":
            need(cs == 0x10000 - hdr, "small model: CS")
            im.entry = ("m", ip)
            base = ss * 16     # of the data segment within the body
            need(base <= len(body), f"data segment at {base:#x} beyond the file")
            im.add(H, body[:base], fofs=H)
            im.add(0, body[base:], memsize=0x10000, fofs=H + base, space="d")
            need(ss * 16 + 0x10000 <= im.alloc, f"SS segment needs {ss * 16 + 0x10000:#x} bytes, the loader is told {im.alloc:#x}")
        else:
            im.entry = ("m", ((cs << 4) + ip + H) & 0xfffff)
            im.add(H, body, fofs=H, memsize=im.alloc)
            need(ss * 16 + sp <= im.alloc, f"stack top {ss * 16 + sp:#x} beyond the allocation {im.alloc:#x}")
    elif fmt == "elf":
        need(d[:7] == b"\x7fELF\x01\x01\x01", "ELF ident")
        ty, mach, ver, entry, phoff, shoff, fl, eh, phsz, phn, shsz, shn, shx = struct.unpack_from("<HHIIIIIHHHHHH", d, 16)
        need((ty, mach, ver, eh, phsz) == (2, 3, 1, 52, 32), "ELF header fields")
        need(phoff + phn * 32 <= len(d), "program headers outside the file")
        im.entry = ("m", entry)
        prev = 0
        end = 0
        for i in range(phn):
            t, off, va, pa, fs, ms, flags, al = struct.unpack_from("<8I", d, phoff + 32 * i)
            need(t == 1, "p_type")
            need(off + fs <= len(d), f"segment {i} outside the file")
            need(fs <= ms, "p_filesz > p_memsz")
            need(off % 4096 == va % 4096 and al == 4096, "segment not congruent modulo the page size")
            need(va >= prev, "segments overlap or are out of order")
            need(flags == (5, 6)[i], f"segment {i} flags {flags}")
            prev = (va + ms + 4095) & ~4095
            end = max(end, off + fs)
            im.add(va, d[off:off + fs], ms, off)
        need(len(d) == end, f"file is {len(d)} bytes, headers describe {end}")
        need(im.segs["m"][0][0] == (opt.get("origin", 0x08048000) & ~4095) + 4096, "code not at the origin")
    elif fmt == "pe":
        need(d[:2] == b"MZ", "no stub")
        pe = u32(d, 60)
        need(d[pe:pe + 4] == b"PE\0\0", "no PE signature")
        mach, nsec, ts, syms, nsyms, osz, chars = struct.unpack_from("<HHIIIHH", d, pe + 4)
        need(mach == 0x14c and osz == 224 and chars & 0x102 == 0x102, "PE file header")
        o = pe + 24
        need(u16(d, o) == 0x10b, "PE magic")
        (code, idata, udata, entry, bcode, bdata, base, salign, falign) = struct.unpack_from("<9I", d, o + 4)
        isz, hsz = struct.unpack_from("<II", d, o + 56)
        subsys = u16(d, o + 68)
        ndir = u32(d, o + 92)
        need(ndir == 16 and salign == 4096 and falign == 512, "PE alignments")
        dirs = [struct.unpack_from("<II", d, o + 96 + 8 * i) for i in range(16)]
        need(base == opt.get("origin", 0x400000) & ~4095, f"image base {base:#x}")
        st = o + osz
        need(st + 40 * nsec <= hsz <= len(d), "section table outside the headers")
        va = 4096
        raw = hsz
        im.info["sections"] = {}
        for i in range(nsec):
            nm = d[st + 40 * i:st + 40 * i + 8].rstrip(b"\0").decode("latin-1")
            vs, rva, rs, rp, _, _, _, _, ch = struct.unpack_from("<IIIIIIHHI", d, st + 40 * i + 8)
            need(rva == va, f"section {nm} at RVA {rva:#x}, expected {va:#x}")
            need(rs % 512 == 0 and rp % 512 == 0 or rs == 0, f"section {nm} file alignment")
            if rs:
                need(rp == raw, f"section {nm} raw data at {rp:#x}, expected {raw:#x}")
                need(rp + rs <= len(d), f"section {nm} outside the file")
            need((ch >> 29 & 7) == {".text": 3, ".rdata": 2, ".idata": 6, ".data": 6, ".reloc": 2}.get(nm, -1), f"section {nm} characteristics {ch:#x}")
            im.add(base + rva, d[rp:rp + min(rs, vs)], vs, rp)
            im.info["sections"][nm] = (base + rva, vs)
            va = (va + vs + 4095) & ~4095
            raw += rs
        need(raw == len(d), f"file is {len(d)} bytes, headers describe {raw}")
        need(isz == va, f"SizeOfImage {isz:#x}, sections end at {va:#x}")
        need(subsys == opt.get("subsys", 3), f"subsystem {subsys}")
        im.entry = ("m", base + entry)
        im.base, im.dirs = base, dirs
        if opt.get("norel"):
            need(chars & 1 and dirs[5] == (0, 0) and ".reloc" not in im.info["sections"], "relocations despite -norel")
        else:
            need(not chars & 1 and ".reloc" in im.info["sections"], "no relocations")
            rva, sz = dirs[5]
            need((base + rva) == im.info["sections"][".reloc"][0] and sz <= im.info["sections"][".reloc"][1], "relocation directory")
            blob = im.read(base + rva, sz)
            rel, p, last = [], 0, -1
            while p < sz:
                need(p + 8 <= sz, "relocation block header cut off")
                page, bs = struct.unpack_from("<II", blob, p)
                need(page % 4096 == 0 and bs >= 8 and bs % 4 == 0 and p + bs <= sz, f"relocation block {page:#x} {bs}")
                need(page > last or sz == 12, "relocation pages out of order")
                last = page
                for q in range(p + 8, p + bs, 2):
                    e = u16(blob, q)
                    if e >> 12 == 3:
                        rel.append(base + page + (e & 4095))
                    else:
                        need(e == 0 and q == p + bs - 2 or sz == 12, "relocation type")
                p += bs
            im.relocs = rel
    elif fmt == "mach":
        magic, cpu, sub, ftype, ncmds, szc, fl = struct.unpack_from("<7I", d, 0)
        need((magic, cpu, sub, ftype) == (0xfeedface, 7, 3, 2), "Mach-O header")
        p = 28
        prev, prevf, end = 0, 0, 0
        names = []
        for i in range(ncmds):
            cmd, sz = struct.unpack_from("<II", d, p)
            need(p + sz <= 28 + szc, "load command outside sizeofcmds")
            if cmd == 1:
                nm = d[p + 8:p + 24].rstrip(b"\0").decode("latin-1")
                va, vs, fo, fs, mp, ip_, ns, sfl = struct.unpack_from("<8I", d, p + 24)
                names.append(nm)
                need(sz == 56 + 68 * ns, "segment command size")
                need(va == prev, f"segment {nm} at {va:#x}, expected {prev:#x}")
                need(fo + fs <= len(d), f"segment {nm} outside the file")
                need(fs <= vs or nm == "__PAGEZERO", "filesize > vmsize")
                need(va % 4096 == 0 and vs % 4096 == 0 and fo % 4096 == 0, f"segment {nm} not page aligned")
                prev = va + vs
                if nm != "__PAGEZERO":
                    if fs:
                        need(fo == prevf, f"segment {nm} file offset {fo:#x}, expected {prevf:#x}")
                    prevf = fo + fs if fs else prevf
                    im.add(va, d[fo:fo + fs], vs, fo)
                    need(ip_ == {"__TEXT": 5, "__DATA": 3, "__LINKEDIT": 1}.get(nm), f"segment {nm} protection")
                    need(mp & ip_ == ip_, "maxprot")
                else:
                    need(fs == 0 and ip_ == 0 and va == 0, "__PAGEZERO")
                for k in range(ns):
                    sn, sg, sa, ss, so = struct.unpack_from("<16s16sIII", d, p + 56 + 68 * k)
                    need(sg.rstrip(b"\0").decode() == nm and va <= sa and sa + ss <= va + vs, f"section {sn} outside its segment")
                    need(so + ss <= fo + fs and so - fo == sa - va, f"section {sn} file range")
                    im.info[sn.rstrip(b"\0").decode()] = (sa, ss)
                end = max(end, fo + fs)
            elif cmd == 5:
                need(struct.unpack_from("<II", d, p + 8) == (1, 16), "thread state")
                im.entry = ("m", struct.unpack_from("<I", d, p + 16 + 40)[0])
            elif cmd == 2:
                so, ns, to, ts = struct.unpack_from("<4I", d, p + 8)
                need(so + 12 * ns <= to and to + ts <= len(d), "symbol table outside the file")
                im.info["symtab"] = {}
                for k in range(ns):
                    sx, t, se, de, v = struct.unpack_from("<IBBHI", d, so + 12 * k)
                    need(sx < ts, "string index")
                    im.info["symtab"][d[to + sx:d.index(b"\0", to + sx)].decode("latin-1")] = v
            else:
                raise Bad(f"load command {cmd}")
            p += sz
        need(p == 28 + szc, "sizeofcmds")
        org = opt.get("origin", 0x1000) & ~4095
        need(names[:1] == (["__PAGEZERO"] if org else ["__TEXT"]), "segments " + " ".join(names))
        need(im.segs["m"][0][0] == org, "image not at the origin")
        need(len(d) == end, f"file is {len(d)} bytes, headers describe {end}")
        im.org = org + p
    elif fmt == "aout":
        o = 0
        if opt.get("stub"):
            st = opt["stub"]
            need(d[:len(st)] == st, "stub not copied")
            o = len(st)
            info = struct.unpack_from("<16I", d, o)
            up = lambda v: (v + 4095) & ~4095 & M32
            stack = up(opt.get("stack") or 65536)
            mn = up(opt.get("minheap") or 0x80000)
            mx = max(mn, up(opt.get("maxheap", 0x1000000)))
            need(info == (0x21245044, stack, mn, mx) + (0,) * 12, f"stub information {info[:4]} expected {stack} {mn} {mx}")
            o += 64
        magic, text, data, bss, syms, entry, trs, drs = struct.unpack_from("<8I", d, o)
        need(magic == 0x640107, "a.out magic")
        p = o + 32
        need(syms == 0 and p + text + data + trs + drs == len(d), f"a.out sizes {text:#x} {data:#x} {trs} {drs}, file {len(d) - o}")
        im.add(0, d[p:p + text], fofs=p)
        im.add(text, d[p + text:p + text + data], data + bss, fofs=p + text)
        im.entry = ("m", entry)
        rel = []
        for q in range(p + text + data, len(d), 8):
            a, inf = struct.unpack_from("<II", d, q)
            isd = q >= p + text + data + trs
            rel.append((a + (text if isd else 0), (inf >> 24) & 1, (inf >> 25) & 3, inf & 0xffffff))
        im.relocs = rel
    return im


def parse_map(text):
    """-> {section: (start, stop)}, {symbol: (file offset, address)}"""
    secs, syms = {}, {}
    cur = None
    for line in text.split("\n")[2:]:
        f = line.split()
        if len(f) == 3 and f[1] == "section":
            cur = f[2][:-1]
            start = int(f[0], 16)
        elif len(f) == 3:
            syms[f[2]] = (int(f[0], 16), int(f[1], 16))
        elif len(f) == 1 and cur is not None:
            secs[cur] = (start, int(f[0], 16))
    return secs, syms


def order_key(name, flags, typ):
    code, w, nb = bool(flags & X), bool(flags & W), typ == NOBITS
    return (nb, not code, w, not (code and name == ".text"), not (w and name.startswith(".dll_")), name)


def judge(objs, needed, fmt, opt, data, maptext, entry):
    """Problems of an image linked from objs (already selected). Every section with contents has a global symbol named
    <anything>; section addresses come from symbols at its start: 'S<obj>_<sec>'."""
    try:
        im = load(fmt, data, opt)
    except Bad as e:
        return [f"loader: {e}"]
    except (struct.error, ValueError, IndexError) as e:
        return [f"loader: header structure: {e}"]
    out = []
    msecs, msyms = parse_map(maptext)
    groups = {}
    for i in needed:
        for j, s in enumerate(objs[i].secs):
            if not s.flags & A:
                continue
            n = f"S{i}_{j}"
            if n not in msyms:
                return [f"map: no symbol {n}"]
            s.fofs, s.addr = msyms[n]
            s.space = "d" if fmt == "small" and not s.flags & X else "m"
            groups.setdefault(s.name, []).append(s)
    try:
        _judge(objs, needed, fmt, opt, data, im, groups, msecs, msyms, entry, out)
    except Bad as e:
        out.append(str(e))
    return out


def _judge(objs, needed, fmt, opt, data, im, groups, msecs, msyms, entry, out):
    relod = None
    # groups: hulls, order, contiguity, alignment
    hull = {}
    names = sorted(groups, key=lambda n: order_key(n, groups[n][0].flags, groups[n][0].type))
    if fmt == "unreal" and ".relod" in msecs:
        lo, hi = msecs[".relod"]
        relod = (lo, hi)
    prev = {}
    for n in names:
        g = groups[n]
        hull[n] = (min(s.addr for s in g), max(s.addr + s.size for s in g))
        if msecs.get(n) != hull[n]:
            out.append(f"map: section {n} {msecs.get(n)}, its pieces span {hull[n]}")
        sp = g[0].space
        p = prev.get(sp, -1)
        for s in g:
            if s.addr < p:
                out.append(f"section {n} at {s.addr:#x} overlaps or precedes what comes before it (end {p:#x})")
            p = max(p, s.addr + s.size)
            al = s.align
            if fmt in ("tiny", "small", "flat16", "huge"):
                al = min(al, 4)
            if al > 1 and s.addr % al:
                out.append(f"section {n} at {s.addr:#x} is not aligned to {al}")
        prev[sp] = p
    codes = [n for n in names if groups[n][0].flags & X]
    datas = [n for n in names if not groups[n][0].flags & X]
    dh = dict(hull)
    if relod:
        datas.append(".relod")
        dh[".relod"] = relod
    sy = {}
    for n in list(dh):
        k = n.replace(".", "_")
        sy.setdefault("__start_" + k, dh[n][0])
        sy.setdefault("__stop_" + k, dh[n][1])
    for nm, l in (("allcode", codes), ("alldata", datas)):
        if l:
            sy["__start_%s__" % nm] = min(dh[n][0] for n in l)
            sy["__stop_%s__" % nm] = max(dh[n][1] for n in l)
    if fmt in ("tiny", "small"):
        st = opt.get("stack", 8192)
        sy["__start_stack__"] = 0xfffc - st
        last = max((dh[n][1] for n in (datas or codes)), default=0)
        if last > 0xfffc - st:
            out.append(f"data end {last:#x} collides with the stack")
    glob = {}
    for i in needed:
        for n, sec, v, b, t in objs[i].syms:
            if n and b == 1 and sec:
                if sec == 0xfff1:
                    glob[n] = v
                elif objs[i].secs[sec - 1].addr is not None:
                    glob[n] = (objs[i].secs[sec - 1].addr + v) & M32
                    s = objs[i].secs[sec - 1]
                    if s.flags & A and msyms.get(n) != ((s.fofs + v) & M32, glob[n]):
                        out.append(f"map: symbol {n} {msyms.get(n)} expected {(s.fofs + v, glob[n])}")
    extra = set(msyms) - set(glob) - set(sy)
    if extra:
        out.append(f"map: unexpected symbols {sorted(extra)[:4]}")
    # entry
    ea = glob.get(entry)
    if fmt in ("tiny", "flat16", "flat32"):
        if ea != im.org:
            n = 5 if fmt == "flat32" else 3
            j = im.read(im.org, n)
            tgt = None
            if j and j[0] == 0xe9:
                tgt = (im.org + n + int.from_bytes(j[1:], "little")) & (M32 if n == 5 else 0xffff)
            if tgt != ea:
                out.append(f"the jump at the beginning goes to {tgt}, the entry point is {ea:#x}")
            lo = im.org + n
        else:
            lo = im.org
        if names and min(s.addr for g in groups.values() for s in g) < lo:
            out.append("a section overlaps the entry jump")
    elif im.entry[1] != ea:
        out.append(f"entry point {im.entry[1]:#x}, the symbol is at {ea:#x}")
    if fmt == "mach":
        if im.info.get("symtab", {}).get("start") != ea:
            out.append("Mach-O symbol 'start'")
        ta, ts = im.info["__text"]
        if ta != im.org or any(not (ta <= hull[n][0] and hull[n][1] <= ta + ts) for n in codes):
            out.append("code outside __text")
    if fmt in ("huge", "unreal"):
        end = max(h[1] for h in dh.values())
        if im.mz["ss"] * 16 + im.H < end:
            out.append(f"the stack segment {im.mz['ss']:#x} overlaps data up to {end:#x}")
        if im.mz["sp"] != opt.get("stack", 32768):
            out.append(f"SP {im.mz['sp']}")
    if fmt == "small":
        if im.mz["sp"] != 0xfffc:
            out.append("small model SP")
        if datas and min(hull[n][0] for n in datas) < 4:
            out.append("data at the null address")
    # contents
    fix = []       # places that move with the image (absolute 32/16-bit), for the formats that list them
    rels = []
    for i in needed:
        o = objs[i]
        for s in o.secs:
            if not s.flags & A:
                continue
            sp = s.space
            if s.type == NOBITS:
                stored = opt.get("nobss")
                if fmt in ("elf", "pe", "mach", "aout") or stored or fmt in ("huge", "unreal"):
                    m = im.read(s.addr, s.size, sp)
                    if m is None:
                        out.append(f"{s.name} at {s.addr:#x}+{s.size:#x} is outside the loaded image")
                    elif m.strip(b"\0"):
                        out.append(f"{s.name} is not zero")
                if stored and s.size:
                    fo = im.fileofs(s.addr, sp)
                    if fo is None or fo + s.size > len(data):
                        out.append(f"{s.name} not in the file despite -nobss")
                elif s.size and fmt in ("tiny", "flat16", "flat32", "small", "huge", "unreal"):
                    fo = im.fileofs(s.addr, sp)
                    if fo is not None and fo + s.size <= len(data) and not any(False for _ in ()):
                        # allowed only if it overlaps nothing stored; nothing after it may be stored
                        out.append(f"{s.name} is stored in the file")
                continue
            exp = bytearray(s.data)
            for off, typ, si in sorted(s.rels):
                n, sec, v, b, t = o.syms[si]
                if si == 0:
                    S = 0
                elif t == 3:
                    S = o.secs[sec - 1].addr
                elif b == 1:
                    S = glob[n] if n in glob else sy.get(n)
                    if S is None:
                        raise Bad(f"symbol {n} linked but undefined")
                else:
                    S = v if sec == 0xfff1 else o.secs[sec - 1].addr + v
                P = s.addr + off
                if typ in (R32, RPC32):
                    x = u32(exp, off) + S - (P if typ == RPC32 else 0)
                    struct.pack_into("<I", exp, off, x & M32)
                else:
                    x = u16(exp, off) + S - (P if typ == RPC16 else 0)
                    struct.pack_into("<H", exp, off, x & 0xffff)
                rels.append((P, typ, si == 0, s.name))
            m = im.read(s.addr, s.size, sp)
            if m is None:
                out.append(f"{s.name} at {s.addr:#x}+{s.size:#x} is outside the loaded image")
            elif m != exp:
                k = next(x for x in range(s.size) if m[x] != exp[x])
                r = [x for x in s.rels if x[0] <= k < x[0] + 4]
                what = f"relocation type {r[0][1]} at {r[0][0]:#x} symbol {o.syms[r[0][2]]}" if r else "a byte that is not relocated"
                out.append(f"{s.name} of object {i} at {s.addr:#x}: offset {k:#x} is {m[k:k + 4].hex()}, expected {bytes(exp[k:k + 4]).hex()} ({what})")
            if s.size:
                fo = im.fileofs(s.addr, sp)
                if fo != s.fofs:
                    out.append(f"map: {s.name} file offset {s.fofs:#x}, it is at {fo}")
    if fmt == "pe" and not opt.get("norel"):
        want = sorted(p for p, t, a, nm in rels if t == R32 and not a and not nm.startswith((".dll_import", ".dll_iat")))
        if im.relocs != want and sorted(im.relocs) != want:
            d = [hex(x) for x in sorted(set(im.relocs) ^ set(want))][:4]
            out.append(f".reloc lists {len(im.relocs)} places, {len(want)} move with the image (difference {d})")
    if fmt == "aout":
        ln = {R32: 2, RPC32: 2, R16: 1, RPC16: 1}
        want = sorted((p, int(t in (RPC32, RPC16)), ln[t]) for p, t, a, nm in rels if (t in (R32, R16)) != a)
        got = sorted(x[:3] for x in im.relocs)
        if got != want:
            d = sorted(set(got) ^ set(want))[:4]
            out.append(f"a.out relocations {len(got)}, expected {len(want)} (difference {d})")
    if fmt == "unreal":
        want = sorted(p for p, t, a, nm in rels if t == R32 and not a)
        if bool(want) != bool(relod) and (want or relod):
            out.append(f".relod {'missing' if want else 'present without relocations'}")
        elif want:
            blob = im.read(relod[0], relod[1] - relod[0]) or b""
            got = sorted(x[0] for x in struct.iter_unpack("<I", blob[:len(blob) // 4 * 4]))
            if got != want:
                out.append(f".relod lists {len(got)} places, expected {len(want)}")
            if relod[0] % 4:
                out.append(".relod not aligned")
            for g in groups.values():
                for s in g:
                    if s.size and s.addr < relod[1] and relod[0] < s.addr + s.size and relod[1] > relod[0]:
                        out.append(f".relod overlaps {s.name}")


def args_of(fmt, opt):
    a = ["-" + fmt]
    for k, v in opt.items():
        if k == "stub":
            a += ["-stub", "stub.exe"]
        elif k in ("norel", "nobss", "gui"):
            if v:
                a.append("-" + k)
        elif k == "entry":
            a += ["-entry", v]
        elif k == "subsys":
            a += ["-gui"] if opt.get("gui") else ["-pesubsys", str(v)]
        else:
            a += ["-" + k, hex(v)]
    return a


def run_set(vlib, smlrl, d, objs, variants, archives=None, timeout=20, env=None):
    """Links objs once per variant (fmt, opt) and judges every image. -> [(variant, rc, message or None, problems)]"""
    import os
    for i, o in enumerate(objs):
        with open(f"{d}/o{i}.o", "wb") as f:
            f.write(o.build())
    jobs = []
    for k, (fmt, opt) in enumerate(variants):
        if opt.get("stub"):
            with open(d + "/stub.exe", "wb") as f:
                f.write(opt["stub"])
        for s in (f"{d}/v{k}.bin", f"{d}/v{k}.map"):
            if os.path.exists(s):
                os.unlink(s)
        jobs.append(([smlrl, *args_of(fmt, opt), "-o", f"v{k}.bin", "-map", f"v{k}.map", *[f"o{i}.o" for i in range(len(objs))]], d, ""))
    rs = vlib.mrun(jobs, npar=1, timeout=timeout, env=env)
    res = []
    for k, ((fmt, opt), r) in enumerate(zip(variants, rs)):
        entry = opt.get("entry", "__start")
        needed = select(objs, entry)
        probs = []
        have = os.path.exists(f"{d}/v{k}.bin")
        if r.rc == 0:
            if needed is None:
                probs.append("linked, although a symbol is undefined or defined twice")
            elif not have:
                probs.append("status 0 without an output file")
            else:
                data = open(f"{d}/v{k}.bin", "rb").read()
                mp = open(f"{d}/v{k}.map").read()
                probs = judge(objs, needed, fmt, opt, data, mp, entry)
        elif r.rc != 1:
            probs.append(f"the linker ended with {r.rc}: {r.out[-300:]!r}")
        elif have:
            probs.append("failed, but left its output file")
        res.append(((fmt, opt), r.rc, r.out.decode("latin-1", "replace").strip(), probs))
    return res


def replay_text(objs, fmt, opt, smlrl="smlrl"):
    import base64
    t = "link: " + " ".join([smlrl, *args_of(fmt, opt), "-o out -map out.map", *[f"o{i}.o" for i in range(len(objs))]]) + "\n"
    for i, o in enumerate(objs):
        t += f"\nobject o{i}.o:\n"
        for j, s in enumerate(o.secs):
            t += f"  section {j + 1} {s.name} flags={s.flags} type={s.type} align={s.align} size={s.size}\n"
            for r in s.rels[:40]:
                t += f"    reloc offset={r[0]:#x} type={r[1]} symbol={o.syms[r[2]]}\n"
        for n in o.syms[1:]:
            t += f"  symbol {n}\n"
        b = o.build()
        if len(b) < 20000:
            t += "  base64: " + base64.b64encode(b).decode() + "\n"
    return t


class Invalid(Exception):
    pass


def inv(c, msg):
    if not c:
        raise Invalid(msg)


def parse_object(d, base=0):
    """The structure of an object file as the linker's documentation describes its inputs; Invalid when it cannot be used."""
    def at(o, n, what):
        inv(0 <= o and base + o + n <= len(d), f"{what} outside the file")
        return d[base + o:base + o + n]
    h = at(0, 52, "header")
    ident = h[:16]
    (typ, mach, ver, entry, phoff, shoff, fl, eh, phe, phn, she, shn, shx) = struct.unpack_from("<HHIIIIIHHHHHH", h, 16)
    inv(ident[:4] == b"\x7fELF", "magic")
    inv(ident[4] == 1 and ident[5] == 1 and ident[6] == 1, "class, byte order or version")
    inv(typ == 1, "not relocatable")
    inv(mach == 3, "not x86")
    inv(eh == 52 and she == 40, "header sizes")
    inv(shoff and shx and shx < shn, "section name table index")
    sh = [list(struct.unpack("<10I", at(shoff + 40 * i, 40, f"section header {i}"))) for i in range(shn)]
    nt = at(sh[shx][4], sh[shx][5], "section names")
    for s in sh:
        inv(s[1] in (0, 1, 2, 3, 8, 9), f"section type {s[1]:#x}")
        if s[1] == 0:
            s[:] = [0] * 10

    def name(t, o, what):
        inv(o < len(t) or o == 0 and not len(t), what + " outside its table")
        e = t.find(b"\0", o)
        inv(e >= 0 or not len(t), what + " is not terminated")
        return t[o:e].decode("latin-1")
    ob = Ob()
    ob.raw = sh
    ob.symtabs = 0
    reltargets = set()
    for i, s in enumerate(sh):
        nm = name(nt, s[0], "section name") if i or s[0] else ""
        if s[1] in (1, 2, 3, 9) and not (s[1] == 1 and not s[2] & A):
            data = at(s[4], s[5], f"section {i}")
        else:
            data = b""
        if i == 0:
            continue
        ob.sec(nm, data, s[2] & 7 if s[1] in (1, 8) else 0, s[1], s[8], s[5])
        inv(s[1] in (0, 1, 8) or not s[2] & A, "an allocated table")
    for i, s in enumerate(sh):
        if s[1] == 2:
            ob.symtabs += 1
            inv(s[9] == 16 and s[5] // 16 and s[7] <= s[5] // 16, "symbol table sizes")
            inv(s[6] < shn and sh[s[6]][1] == 3, "symbol string table")
            st = at(sh[s[6]][4], sh[s[6]][5], "strings")
            syms = []
            for k in range(s[5] // 16):
                n, v, sz, info, other, shx_ = struct.unpack_from("<IIIBBH", d, base + s[4] + 16 * k)
                b = info >> 4
                inv(shx_ < shn or shx_ >= 0xff00, "symbol section")
                if k == 0:
                    syms.append(("", 0, 0, 0, 0))
                    continue
                loc = k < s[7]
                syms.append((name(st, n, "symbol name") if n else "", shx_, v, (0 if loc and b != 1 else 1 if b == 1 and not loc else 2), info & 15))
            ob.symlist = syms
            if ob.symtabs == 1:
                ob.syms = syms
    inv(ob.symtabs == 1, "not one symbol table")
    for i, s in enumerate(sh):
        if s[1] == 9:
            inv(s[9] == 8 and s[5], "relocation table sizes")
            inv(s[6] < shn and sh[s[6]][1] == 2, "relocation symbol table")
            inv(0 < s[7] < shn, "relocated section")
            t = sh[s[7]]
            if not t[2] & A:
                continue
            inv(s[7] not in reltargets, "two relocation tables for a section")
            reltargets.add(s[7])
            for k in range(s[5] // 8):
                off, info = struct.unpack_from("<II", d, base + s[4] + 8 * k)
                ty, sy = info & 255, info >> 8
                if t[1] != 1:
                    continue
                inv(ty in (R32, RPC32, R16, RPC16), f"relocation type {ty}")
                inv(sy < len(ob.syms), "relocation symbol")
                inv(off + (4 if ty in (R32, RPC32) else 2) <= t[5], "relocation outside its section")
                if sy:
                    n, sec, v, b, tt = ob.syms[sy]
                    inv(b != 2, "binding")
                    inv(sec < 0xff00 or sec == 0xfff1, "special section")
                    inv(b == 1 and n or sec, "undefined local symbol")
                ob.rel(s[7], off, ty, sy)
    return ob
