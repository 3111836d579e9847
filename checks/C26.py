#!/usr/bin/env python3
"""C26: n2f+fasm against nasm. Every sequence of lines from an alphabet of the directives n2f translates, in several layouts and
line-end styles, and all compiler output for the C library, is assembled both ways; the objects are compared."""
import itertools, os, re, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

u32 = lambda d, o: struct.unpack_from("<I", d, o)[0]
u16 = lambda d, o: struct.unpack_from("<H", d, o)[0]


def obj(b):
    """-> {section: (flags, nobits, bytes or size, [(offset, type, target)])}, {global: (section, value)}; targets are (section, ) or (symbol,)"""
    if b[:4] != b"\x7fELF":
        return None
    sh = [struct.unpack_from("<10I", b, u32(b, 32) + 40 * i) for i in range(u16(b, 48))]
    def st(off, o):
        return b[off + o:b.index(b"\0", off + o)].decode("latin-1")
    names = [st(sh[u16(b, 50)][4], s[0]) for s in sh]
    secs, globs, syms = {}, {}, []
    for i, s in enumerate(sh):
        if s[1] == 2:
            so = sh[s[6]][4]
            for k in range(s[5] // 16):
                n, v, z, info, oth, x = struct.unpack_from("<IIIBBH", b, s[4] + 16 * k)
                syms.append((st(so, n), v, info, x))
                if info >> 4 == 1:
                    globs[st(so, n)] = (names[x] if 0 < x < len(sh) else x, v)
        elif s[1] in (1, 8) and s[2] & 2:
            secs[names[i]] = [s[2] & 7, s[1] == 8, bytearray(b[s[4]:s[4] + s[5]]) if s[1] == 1 else s[5], [], s[8]]
    for i, s in enumerate(sh):
        if s[1] == 9:
            t = secs.get(names[s[7]])
            for k in range(s[5] // 8):
                o, inf = struct.unpack_from("<II", b, s[4] + 8 * k)
                n, v, info, x = syms[inf >> 8]
                add = u32(t[2], o)
                if info & 15 == 3 or 0 < x < len(sh) :    # a place in a section
                    tgt = (names[x], (add + v) & 0xffffffff)
                    if n in globs and info >> 4 == 1:
                        tgt = (n, add) if False else tgt
                else:
                    tgt = (n, add)
                t[3].append((o, inf & 255, tgt))
                t[2][o:o + 4] = b"\0\0\0\0"
            t[3].sort()
    return {k: v for k, v in secs.items() if v[2]}, globs


def differ(a, b):
    """None or what differs; padding of 0 against NOP doesn't count."""
    if a is None or b is None:
        return "no object"
    (sa, ga), (sb, gb) = a, b
    if sorted(sa) != sorted(sb):
        return f"sections {sorted(sa)} / {sorted(sb)}"
    for n in sa:
        x, y = sa[n], sb[n]
        if x[0] != y[0] or x[1] != y[1]:
            return f"{n}: flags {x[0]:x} nobits {x[1]} / {y[0]:x} {y[1]}"
        if x[1]:
            if x[2] != y[2]:
                return f"{n}: size {x[2]} / {y[2]}"
        else:
            if len(x[2]) != len(y[2]) or any(p != q and {p, q} != {0, 0x90} for p, q in zip(x[2], y[2])):
                return f"{n}: {bytes(x[2][:200]).hex()} / {bytes(y[2][:200]).hex()}"
        if x[3] != y[3]:
            return f"{n}: relocations {[r for r in x[3] if r not in y[3]][:4]} / {[r for r in y[3] if r not in x[3]][:4]}"
    used = {t[2][0] for n in sa for t in sa[n][3]}   # nasm drops what is declared extern and never used
    ga, gb = ({k: v for k, v in g.items() if v[0] or k in used} for g in (ga, gb))
    if ga != gb:
        return f"symbols {sorted(set(ga.items()) - set(gb.items()))[:5]} / {sorted(set(gb.items()) - set(ga.items()))[:5]}"
    return None


# ---- sequences of lines
SECS = [".text", ".rodata", ".data", ".bss", ".foo", ".ctor_x"]


class Gen:
    """Turns tokens into assembly text; every data byte is distinct."""

    def __init__(self):
        self.k, self.sec, self.lines, self.labs, self.ext = 0, None, [], [], []

    def b(self):
        self.k += 1
        return 1 + self.k % 110

    def tok(self, t):
        L = self.lines
        if t.startswith("S"):
            self.sec = SECS[int(t[1])]
            L.append(("section", self.sec))
        elif t == "cmt":
            L.append(("; section .data",))
        elif t == "cmt2":
            L.append(("db" if self.sec != ".bss" else "resb", "%d" % self.b(), "; resb 5"))
        elif t == "blank":
            L.append(())
        elif t == "align":
            L.append(("alignb", "4"))
        elif t in ("resb", "resw", "resd"):
            L.append((t, "%d" % (1 + self.k % 3)))
            self.k += 1
        elif t == "glob":
            n = "_g%d" % len(L)
            L.append(("global", n))
            L.append((n + ":",))
            self.labs.append(n)
        elif t == "late":      # global after its label
            n = "_h%d" % len(L)
            L.append((n + ":",))
            self.tok("D")
            L.append(("global", n))
        elif t == "ext":
            n = "_x%d" % len(L)
            L.append(("extern", n))
            self.ext.append(n)
        elif t == "lab":
            n = "L%d" % len(L)
            L.append((n + ":",))
            self.labs.append(n)
        elif t == "odd":       # identifiers that begin like directives
            for n in ("externs%d:", "global_%d:", "sections%d:", "resbx%d:", "alignbb%d:", "bits_%d:", "section%d:", "resd%d:")[self.k % 8:][:1]:
                n = n % len(L)
                L.append((n,))
                self.labs.append(n[:-1])
            self.tok("D")
        elif t == "bits":
            L.append(("bits", "32"))
        elif t == "D":
            if self.sec == ".bss":
                L.append(("resb", "%d" % (1 + self.b() % 3)))
            else:
                L.append(("db", "%d" % self.b()))
        elif t == "T":
            if self.sec == ".bss":
                L.append(("resd", "2"))
            else:
                L.append(("times", "%d" % (2 + self.k % 3), "db", "%d" % self.b()))
        elif t == "R":         # a reference
            c = self.labs[-1:] + self.labs[:1] + self.ext[-1:]
            if c and self.sec != ".bss":
                L.append(("dd", c[self.k % len(c)] + "+%d" % self.b()))
            else:
                self.tok("D")
        elif t == "I":
            if self.sec in (None, ".text"):
                c = self.ext[-1:] + self.labs[-1:]
                L.extend([("push", "ebp"), ("mov", "ebp,", "esp"), ("mov", "eax,", "[ebp-%d]" % self.b())] + ([("call", c[self.k % len(c)])] if c else []) + [("leave",), ("ret",)])
            else:
                self.tok("R")

    def text(self, style):
        ind, sep, eol, last = style
        out = []
        for l in self.lines:
            if not l:
                out.append("")
                continue
            lead = "" if l[0].endswith(":") else ind
            out.append(lead + l[0] + (sep + " ".join(l[1:]) if len(l) > 1 else ""))
        return eol.join(out) + (eol if last else "")


STYLES = [("\t", "\t", "\n", True), ("", " ", "\n", True), (" ", "  ", "\r\n", True), ("\t ", " \t", "\n", False), ("         ", "\t", "\r\n", False), ("", "\t", "\r", True), ("\t\t", " ", "\r", False)]
TOKS = ["S0", "S1", "S2", "S3", "S4", "S5", "D", "R", "lab", "glob", "late", "ext", "align", "resb", "resw", "resd", "T", "I", "odd", "cmt", "cmt2", "blank", "bits"]
BSSONLY = ("resb", "resw", "resd", "align")


def legal(seq):
    sec = None
    for t in seq:
        if t[0] == "S" and t[1:].isdigit():
            sec = SECS[int(t[1])]
        elif sec is None and t not in ("cmt", "blank", "ext", "bits"):
            return False
        elif t in ("resb", "resw", "resd") and sec != ".bss":
            return False
        elif t == "T" and sec == ".bss" and False:
            return False
    return any(t[0] == "S" and t[1:].isdigit() for t in seq)


def sequences(thorough):
    n = 0
    for k in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for s in itertools.product(TOKS, repeat=k):
            if legal(s):
                n += 1
                yield s, n
    # all orders of section fragments
    for k in (3, 4, 5, 6) if thorough else (3, 4, 5):
        for s in itertools.product(["S0", "S1", "S2", "S3", "S4"] if k > 4 else ["S%d" % i for i in range(6)], repeat=k):
            n += 1
            if not thorough and k == 5 and n % 2:
                continue
            yield tuple(x for i, t in enumerate(s) for x in (t, ("lab", "D", "R"), "D", "R")[:1] + (("lab", "D") if i % 2 else ("D", "R"))), n
    for s in itertools.product(["S0", "S2", "S3"], ["D", "R", "align", "glob", "late", "cmt2", "odd"], ["S3", "S0", "S1"], ["D", "align", "T", "lab"], ["S2", "S0", "S3"], ["R", "align", "I", "glob"]):
        n += 1
        yield s, n


def assemble(dirn, tag, text, ref=None):
    """-> list of commands for mrun"""
    p = f"{dirn}/{tag}"
    open(p + ".asm", "w", newline="").write(text)
    open(p + "n.asm", "w", newline="").write(ref if ref is not None else text)
    return p


_args = {}


def work(a):
    part, base = a
    n2f, root = _args["n2f"], _args["root"]
    d = f"{root}/w{base}"
    os.makedirs(d, exist_ok=True)
    bad, keys, objs = [], set(), 0
    cases = []
    for s, n in part:
        g = Gen()
        for t in s:
            g.tok(t)
        style = STYLES[n % len(STYLES)]
        ref = g.text(STYLES[0])
        cases.append((s, n % len(STYLES), g.text(style), ref))
    jobs = []
    for i, (s, st, t, ref) in enumerate(cases):
        p = assemble(d, f"c{i}", t, ref)
        jobs.append((["nasm", "-f", "elf", p + "n.asm", "-o", p + "n.o"], d, ""))
        jobs.append(([n2f, "-f", "elf", p + ".asm", "-o", p + "f.o"], d, ""))
    rs = vlib.mrun(jobs, env=_args["env"], npar=2)
    for i, (s, st, t, ref) in enumerate(cases):
        rn, rf = rs[2 * i], rs[2 * i + 1]
        p = f"{d}/c{i}"
        if rn.rc:
            raise vlib.BuildError(f"nasm rejects the generated text: {rn.out[-300:]} {ref}")
        objs += 1
        if rf.rc:
            w = "rejected: " + rf.out[-300:].decode("latin-1")
        else:
            a, b = obj(open(p + "n.o", "rb").read()), obj(open(p + "f.o", "rb").read())
            keys.add(repr(a)[:2000])
            w = differ(a, b)
        if w:
            bad.append((f"seq:{st}:" + ",".join(s), w, t))
    shutil.rmtree(d)
    return bad, len(keys), objs


def disasm(p):
    """Instruction list of .text with branch targets as instruction numbers, and relocations."""
    r = subprocess.run(["objdump", "-drw", "-M", "intel", "--no-show-raw-insn", p], stdout=subprocess.PIPE)
    out, at = [], {}
    for l in r.stdout.decode("latin-1").split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\t(.*)", l)
        if m:
            at[int(m[1], 16)] = len(out)
            out.append(m[2])
    def br(m):
        t = int(m[2], 16)
        return f"{m[1]} @{at.get(t, m[2])}"
    return [re.sub(r"\bst\(0\)", "st", re.sub(r"\s+", " ", re.sub(r"^(j\w+|call|loop\w*)\s+([0-9a-f]+)( <[^>]*>)?", br, re.sub(r"\t[0-9a-f]+: ", " RELOC ", x)))) for x in out]


def corpus(chk, tc):
    """The compiler's output for the library and the tools, assembled both ways."""
    d = vlib.scratch("corpus")
    src = sorted(f for f in os.listdir(vlib.V + "/srclib") if f.endswith((".c", "asm")))
    shutil.copytree(vlib.V + "/srclib", d + "/s")
    jobs = []
    for f in src:
        if f.endswith(".c"):
            for t in ("-linux", "-dosp", "-win") if chk.thorough else ("-linux",) if hash_(f) % 3 else ("-win", "-dosp"):
                jobs.append((["smlrcc", "-SI", tc.inc, t, "-c", "-S", f, "-o", f"{f}.{t[1:]}.asm"] + (["-nobss"] if hash_(f) % 5 == 0 else []), d + "/s", ""))
    for f in ("smlrl.c", "smlrcc.c", "n2f.c", "demz.c"):
        jobs.append((["smlrcc", "-SI", tc.inc, "-linux", "-DHOST_LINUX", "-c", "-S", vlib.V + "/" + f, "-o", f + ".linux.asm"], d + "/s", ""))
    # the driver names intermediate files after the source: one at a time per source, so separate copies
    def comp(j):
        w = vlib.scratch("corpus/w" + str(jobs.index(j)))
        a = list(j[0])
        k = next(i for i, x in enumerate(a) if x.endswith(".c"))
        s = a[k] if a[k].startswith("/") else f"{d}/s/{a[k]}"
        shutil.copy(s, w)
        for h in os.listdir(d + "/s"):
            if h.endswith(".h"):
                shutil.copy(f"{d}/s/{h}", w)
        a[k] = os.path.basename(s)
        r = tc.run(a, cwd=w)
        o = a[a.index("-o") + 1]
        if r.rc:
            return None
        shutil.move(f"{w}/{o}", f"{d}/{o}")
        shutil.rmtree(w)
        return o
    files = [f for f in vlib.pmap(comp, jobs) if f]
    for f in src:
        if f.endswith(".asm") and f in ("c0l.asm", "c0w.asm"):
            shutil.copy(f"{d}/s/{f}", d)
            files.append(f)
    al = []
    for f in files:
        al += [(["nasm", "-f", "elf", f, "-o", f + ".n.o"], d, ""), ([_args["n2f"], "-f", "elf", f, "-o", f + ".f.o"], d, "")]
    rs = vlib.mrun(al, env=_args["env"], timeout=60)
    same = enc = 0
    for i, f in enumerate(files):
        rn, rf = rs[2 * i], rs[2 * i + 1]
        if rn.rc:
            if not rf.rc and False:
                pass
            continue
        if rf.rc:
            chk.violation("corpus:" + f, f"{f}: rejected: " + rf.out[-300:].decode("latin-1"), f)
            continue
        a, b = obj(open(f"{d}/{f}.n.o", "rb").read()), obj(open(f"{d}/{f}.f.o", "rb").read())
        w = differ(a, b)
        if not w:
            same += 1
            continue
        x, y = disasm(f"{d}/{f}.n.o"), disasm(f"{d}/{f}.f.o")
        if a and b and sorted(a[0]) == sorted(b[0]) and len(x) == len(y) and all(p == q for p, q in zip(x, y) if "RELOC" not in p) and w.startswith(".text"):
            enc += 1
        else:
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), None)
            chk.violation("corpus:" + f, f"{f}: {w}; first different instruction {x[k] if k is not None else len(x)} / {y[k] if k is not None else len(y)}", f)
    return len(files), same, enc


def hash_(s):
    return sum(map(ord, s))


def limits(chk):
    n2f, env = _args["n2f"], _args["env"]
    n = 0
    def case(key, text, ok, msg=None):
        nonlocal n
        n += 1
        w = vlib.scratch("lim")
        open(w + "/t.asm", "w").write(text)
        r = vlib.run([n2f, "-f", "elf", "t.asm", "-o", "t.o"], cwd=w, env=env, mem=0)
        left = sorted(os.listdir(w))
        if ok:
            rn = vlib.run(["nasm", "-f", "elf", "t.asm", "-o", "n.o"], cwd=w, env=env)
            wh = f"status {r.rc} {r.out[-200:]!r}" if r.rc else rn.rc and repr(rn) or differ(obj(open(w + "/n.o", "rb").read()), obj(open(w + "/t.o", "rb").read()))
            if not wh and left != ["t.asm", "t.o"]:
                wh = f"files {left}"
        else:
            wh = None if 0 < r.rc < 128 and left == ["t.asm"] else f"status {r.rc}, files {left}: {r.out[-200:]!r}"
        if wh:
            chk.violation("limit:" + key, wh, text[:2000])
        shutil.rmtree(w)
    for k in (1, 2, 100, 2998, 2999, 3000, 3001, 3002, 6000):
        case(f"{k} fragments", "bits 32\n" + "".join("section %s\n\tdb %d\n" % ((".text", ".rodata", ".data")[i % 3], i % 100) for i in range(k)), k <= 3000)
    for k in (1, 2, 16, 30, 31, 32):
        for rep in (0, 1):
            if k == 32 and rep:
                continue      # re-entering a section when the table is full is refused: the limit is documented as "see the code"
            case(f"{k} sections rep {rep}", "bits 32\n" + "".join("section .s%d\n\tdb %d\n" % (i % k, i % 100) for i in range(k * (1 + rep))), True)
    for k in (33, 34, 64):
        case(f"{k} sections", "bits 32\n" + "".join("section .s%d\n\tdb %d\n" % (i, i % 100) for i in range(k)), False)
    for k in (1, 2, 8, 30, 31, 32, 33, 34, 100):
        case(f"section name {k}", "bits 32\nsection .%s\n\tdb 1\nsection .data\n\tdb 2\nsection .%s\n\tdb 3\n" % ("n" * (k - 1) or "", "n" * (k - 1)), k <= 32) if k > 1 else None
    for t in ("section\n", "section \n\tdb 1\n", "section .text\n\tnosuch eax\n", "section .text\n\tdd nosuch\n", "\tsection"):
        case("bad " + repr(t), t, False)
    for k in (1, 5, 6, 7, 8, 9, 30, 255, 1000, 5000):
        case(f"label length {k}", "bits 32\nsection .data\n%s:\n\tdb 1\n\tglobal %s\n\tdd %s\n" % (("a" * k,) * 3), True) if k < 256 else None
        case(f"line length {k}", "bits 32\nsection .data\n\tdb 1" + ",2" * k + "\n;" + "c" * k + "\n\tdb 3\n", True)
    return n


def faults(chk):
    """Missing and unwritable files, and an assembler that fails."""
    n2f, env = _args["n2f"], _args["env"]
    good = "bits 32\nsection .text\n\tglobal _f\n_f:\n\tret\n"
    n = 0
    stub = vlib.scratch("fstub")
    open(stub + "/fasm", "w").write('#!/bin/sh\ncase $FKM in 1) exit 1;; 2) head -c 10 "$1" >"$2"; exit 2;; 3) echo x >"$2"; kill -9 $$;; esac\n')
    os.chmod(stub + "/fasm", 0o755)
    for args, pre, ok, extra in (
            (["-f", "elf", "t.asm", "-o", "t.o"], {}, True, {}), (["-f", "asm", "t.asm", "-o", "o.asm"], {}, True, {}), (["t.asm", "-o", "t.bin", "-f", "elf"], {}, True, {}),
            (["-f", "elf", "none.asm", "-o", "t.o"], {"t.o": "stale"}, False, {}), (["-f", "asm", "none.asm", "-o", "t.o"], {"t.o": "stale"}, False, {}),
            (["-f", "obj", "t.asm", "-o", "t.o"], {}, False, {}), (["-f", "elf", "-o", "t.o"], {}, False, {}), (["-f", "elf", "t.asm", "t.asm", "-o", "t.o"], {}, False, {}),
            (["-f", "asm", "t.asm"], {}, False, {}), (["-x", "t.asm", "-o", "t.o"], {}, False, {}), (["-f", "elf", "t.asm", "-o"], {}, False, {}), (["t.asm", "-f"], {}, False, {}),
            (["-f", "elf", "t.asm", "-o", "nodir/t.o"], {}, False, {}), (["-f", "asm", "t.asm", "-o", "nodir/t.o"], {}, False, {}),
            (["-f", "elf", "d", "-o", "t.o"], {"t.o": "stale"}, False, {}), (["-f", "asm", "d", "-o", "t.o"], {"t.o": "stale"}, False, {}),
            (["-f", "asm", "t.asm", "-o", "full"], {}, False, {}), (["-f", "asm", "big.asm", "-o", "full"], {}, False, {}),
            (["-f", "elf", "t.asm", "-o", "t.o"], {"t.o": "stale"}, False, {"FKM": "1"}), (["-f", "elf", "t.asm", "-o", "t.o"], {"t.o": "stale"}, False, {"FKM": "2"}), (["-f", "elf", "t.asm", "-o", "t.o"], {}, False, {"FKM": "3"}),
            (["-f", "elf", "t.asm", "-o", "t.o"], {}, False, {"FK_NOTMP": "1"}),
            (["-f", "elf", "t.asm", "-o", "t.o"], {"t.o": "stale"}, False, {"PATH": "/nonexistent"})):
        w = vlib.scratch("flt")
        os.mkdir(w + "/d")
        open(w + "/t.asm", "w").write(good)
        open(w + "/big.asm", "w").write(good + "\tdb 1\n" * 20000)
        if "full" in args:
            os.symlink("/dev/full", w + "/full")
        for k, v in pre.items():
            open(f"{w}/{k}", "w").write(v)
        e = {**env, **extra}
        if "FKM" in extra:
            e["PATH"] = stub + ":" + e["PATH"]
        r = vlib.run([n2f, *args], cwd=w, env=e, mem=0)
        n += 1
        left = set(os.listdir(w)) - {"d", "t.asm", "big.asm"}
        if r.rc < 0 or r.rc > 127:
            wh = f"status {r.rc}"
        elif ok:
            wh = None if not r.rc and left == {args[args.index("-o") + 1]} else f"status {r.rc}, files {left}"
        else:
            wh = None if r.rc and not (left - {"full"} if "full" in args else left) or r.rc and args[0] in ("-f", "-x") and left == set(pre) and "nosuch" in args else f"status {r.rc}, files {left}: {r.out[-150:]!r}"
            if wh and r.rc and args[1:2] == ["obj"]:
                wh = None
        if wh:
            chk.violation("fault:" + " ".join(args) + " " + " ".join(extra), f"n2f {' '.join(args)} {extra}: {wh}", "")
        shutil.rmtree(w)
    if not os.path.exists("/dev/full"):
        raise vlib.BuildError("/dev/full is gone")
    return n


PROGS = ["""#include <stdio.h>
struct s{char c;int i;double d;};static struct s t[3]={{1,2,3.5},{4,5,6.25},{7,8,9.125}};static int z[10];char b3[3];
int f(int n){return n<2?n:f(n-1)+f(n-2);}
int main(int c,char**v){int i;for(i=0;i<3;i++){z[i*3]=t[i].i;printf("%d %d %f\\n",t[i].c,t[i].i,t[i].d);}
for(i=0;i<10;i++)printf("%d ",z[i]+f(i));switch(c){case 1:puts("one");break;case 100:puts("x");default:puts("y");}return b3[1]+3;}
"""]


def endtoend(chk, tc):
    w = vlib.scratch("e2e")
    n = 0
    for i, s in enumerate(PROGS):
        res = []
        for asm in ("nasm", _args["bin"] + "/n2f"):
            open(w + "/p.c", "w").write(s)
            r = tc.run(["smlrcc", "-SI", tc.inc, "-SL", tc.lib, "-linux", "-asm", asm, "p.c", "-o", "p"], cwd=w)
            n += 1
            if r.rc:
                chk.violation(f"prog{i}:{asm}", "build fails: " + repr(r), s)
                continue
            x = vlib.run([w + "/p"], cwd=w)
            res.append((x.rc, x.out))
        if len(res) == 2 and res[0] != res[1]:
            chk.violation(f"prog{i}", f"{res[0]} with nasm, {res[1]} with n2f", s)
    return n


def body(chk):
    tc = vlib.Toolchain(libs=("lcl",))
    d = vlib.scratch("n2fb")
    objs = []
    r = vlib.run(["gcc", "-w", "-O1", "-Dtmpnam=fk_tmpnam", vlib.V + "/n2f.c", vlib.VERIF + "/harness/n2fwrap.c", "-o", d + "/n2fp"])
    if r.rc:
        raise vlib.BuildError(repr(r))
    san = vlib.run(["gcc", "-w", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-Dtmpnam=fk_tmpnam", vlib.V + "/n2f.c", vlib.VERIF + "/harness/n2fwrap.c", "-o", d + "/n2fs"])
    if san.rc:
        raise vlib.BuildError(repr(san))
    env = {**tc.env, "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"}
    # each runs in its own directory with the intermediate file there: in the sequences files are separate by job, so the real tmpnam is used
    _args.update(n2f=tc.bin + "/n2f", bin=tc.bin, env=env, root=vlib.scratch("c26"))
    vlib.mrun([["true"]])
    seqs = list(sequences(chk.thorough))
    chunk = 120
    tot = keys = 0
    for bad, k, n in vlib.ppmap(work, [(seqs[i:i + chunk], i) for i in range(0, len(seqs), chunk)]):
        tot += n
        keys += k
        for key, w, t in bad:
            chk.violation(key, w, t)
    chk.log("sequences", tot)
    nc, same, enc = corpus(chk, tc)
    chk.log("corpus", nc, "identical", same, "other encodings", enc)
    ne = endtoend(chk, tc)
    _args["n2f"] = d + "/n2fs"
    nl = limits(chk)
    nf = faults(chk)
    chk.samples += [",".join(s) for s, _ in seqs[:: len(seqs) // 4]]
    chk.assumptions += ["instruction selection is fasm's and nasm's; padding bytes of alignment (0 or NOP) don't count", "16-bit code and the flat output format of n2f are not covered",
                        "re-entering a section after 32 distinct ones is refused (documented only by the code) and not judged"]
    chk.finish(states=keys, transitions=tot + nc + nl + nf + ne, evaluations=tot + nc + nl + nf + ne, traces_validated_against_impl=tot + nc, sequences=tot, corpus_files=nc, corpus_identical=same, corpus_other_encoding=enc,
               limits=nl, faults=nf, rule="every legal sequence of lines up to length 3 (4 thorough) and all section orders up to 5 fragments, rotated over 7 layouts; nasm is the oracle")


if __name__ == "__main__":
    vlib.main("C26", "model_checking", body)
