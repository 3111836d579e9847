"""Reading and writing 32-bit little-endian ELF relocatable objects, reading executables."""
import struct


class Obj:
    def __init__(self, data):
        self.d = data
        h = struct.unpack_from("<16sHHIIIIIHHHHHH", data, 0)
        (self.ident, self.type, self.machine, self.version, self.entry, self.phoff, self.shoff, self.flags,
         self.ehsize, self.phentsize, self.phnum, self.shentsize, self.shnum, self.shstrndx) = h
        self.sections = []
        for i in range(self.shnum):
            self.sections.append(list(struct.unpack_from("<10I", data, self.shoff + i * self.shentsize)))
        self.names = []
        for s in self.sections:
            st = self.sections[self.shstrndx]
            self.names.append(self.str(st, s[0]))
        self.symbols = []
        for i, s in enumerate(self.sections):
            if s[1] == 2:
                strs = self.sections[s[6]]
                for o in range(s[4], s[4] + s[5], 16):
                    n, v, sz, info, other, shndx = struct.unpack_from("<IIIBBH", data, o)
                    self.symbols.append((self.str(strs, n), v, sz, info, other, shndx))

    def str(self, sec, off):
        o = sec[4] + off
        return self.d[o:self.d.index(b"\0", o)].decode("latin-1")

    def content(self, i):
        s = self.sections[i]
        return b"\0" * s[5] if s[1] == 8 else self.d[s[4]:s[4] + s[5]]

    def find(self, name):
        return self.names.index(name)

    def relocs(self, i):
        """[(offset, type, symbol index)] for the section i."""
        out = []
        for s in self.sections:
            if s[1] == 9 and s[7] == i:
                for o in range(s[4], s[4] + s[5], 8):
                    off, info = struct.unpack_from("<II", self.d, o)
                    out.append((off, info & 255, info >> 8))
        return out

    def sym(self, name):
        for s in self.symbols:
            if s[0] == name:
                return s
        raise KeyError(name)

    def symdata(self, name, size):
        s = self.sym(name)
        return self.content(s[5])[s[1]:s[1] + size]


class Builder:
    """Builds an object. sec(name,type,flags,data|size,align) -> index; sym(...); rel(section, offset, type, symbol)."""

    def __init__(self, machine=3):
        self.machine = machine
        self.secs = []
        self.syms = [("", 0, 0, 0, 0, 0)]
        self.rels = {}

    def sec(self, name, data=b"", flags=3, type=1, align=4, size=None):
        self.secs.append(dict(name=name, data=bytes(data), flags=flags, type=type, align=align, size=len(data) if size is None else size))
        return len(self.secs)   # ELF section index (0 is the null section)

    def sym(self, name, sec, value, bind=1, typ=0, size=0):
        """bind 0 local, 1 global; sec 0 undefined; 0xfff1 absolute"""
        self.syms.append((name, value, size, (bind << 4) | typ, 0, sec))
        return len(self.syms) - 1

    def rel(self, sec, off, typ, sym):
        self.rels.setdefault(sec, []).append((off, typ, sym))

    def build(self):
        # local symbols first
        order = sorted(range(len(self.syms)), key=lambda i: (i != 0, self.syms[i][3] >> 4, i))
        new = {o: n for n, o in enumerate(order)}
        nlocal = sum(1 for s in self.syms if s[3] >> 4 == 0)
        strtab = b"\0"
        symtab = b""
        for i in order:
            n, v, sz, info, other, sh = self.syms[i]
            off = 0
            if n:
                off = len(strtab)
                strtab += n.encode() + b"\0"
            symtab += struct.pack("<IIIBBH", off, v, sz, info, other, sh)
        all_ = [dict(s, link=0, info=0, entsize=0) for s in self.secs]
        nsec = len(all_)
        symi = nsec + 1
        stri = nsec + 2
        shstri = nsec + 3
        all_.append(dict(name=".symtab", data=symtab, flags=0, type=2, align=4, size=len(symtab), link=stri, info=nlocal, entsize=16))
        all_.append(dict(name=".strtab", data=strtab, flags=0, type=3, align=1, size=len(strtab), link=0, info=0, entsize=0))
        all_.append(dict(name=".shstrtab", data=b"", flags=0, type=3, align=1, size=0, link=0, info=0, entsize=0))
        for sec, rl in sorted(self.rels.items()):
            data = b"".join(struct.pack("<II", o, t | new[s] << 8) for o, t, s in rl)
            all_.append(dict(name=".rel" + self.secs[sec - 1]["name"], data=data, flags=0, type=9, align=4, size=len(data), link=symi, info=sec, entsize=8))
        shstr = b"\0"
        for s in all_:
            s["nameoff"] = len(shstr)
            shstr += s["name"].encode() + b"\0"
        all_[shstri - 1]["data"] = shstr
        all_[shstri - 1]["size"] = len(shstr)
        out = bytearray(52)
        for s in all_:
            if s["type"] != 8:
                while len(out) % 16:
                    out.append(0)
            s["off"] = len(out)
            if s["type"] != 8:
                out += s["data"]
        while len(out) % 16:
            out.append(0)
        shoff = len(out)
        out += b"\0" * 40
        for s in all_:
            out += struct.pack("<10I", s["nameoff"], s["type"], s["flags"], 0, s["off"], s["size"], s["link"], s["info"], s["align"], s["entsize"])
        struct.pack_into("<16sHHIIIIIHHHHHH", out, 0, b"\x7fELF\x01\x01\x01" + b"\0" * 9, 1, self.machine, 1, 0, 0, shoff, 0, 52, 0, 0, 40, len(all_) + 1, shstri)
        self.layout = dict(shoff=shoff, sections=all_)
        return bytes(out)


def archive(members, names=None):
    """A System V archive with a symbol index. members: [(name, data, [global defined symbols])]"""
    def hdr(name, size):
        return ("%-16s%-12s%-6s%-6s%-8s%-10d`\n" % (name, "0", "0", "0", "100644", size)).encode()
    syms = []
    for i, (n, d, s) in enumerate(members):
        syms += [(x, i) for x in s]
    idxlen = 4 + 4 * len(syms) + sum(len(s) + 1 for s, _ in syms)
    pos = 8 + 60 + idxlen + (idxlen & 1)
    offs = []
    for n, d, s in members:
        offs.append(pos)
        pos += 60 + len(d) + (len(d) & 1)
    idx = struct.pack(">I", len(syms)) + b"".join(struct.pack(">I", offs[i]) for _, i in syms) + b"".join(s.encode() + b"\0" for s, _ in syms)
    out = b"!<arch>\n" + hdr("/", idxlen) + idx + (b"\n" if idxlen & 1 else b"")
    for n, d, s in members:
        out += hdr(n + "/", len(d)) + d + (b"\n" if len(d) & 1 else b"")
    return out
