"""Model of the compiler driver (doc/smlrcc.md), and the means to run smlrcc.c with simulated tools (harness/fkdrv.c)."""
import os, re, sys
import vlib

# option: (format, compiler options, macros, linker option, standard library, default executable)
FMT = {
    "-dost": ("tiny", ["-seg16"], ["_DOS"], "-tiny", "lcds.a", "a.com"), "-tiny": ("tiny", ["-seg16"], [], "-tiny", None, "a.com"),
    "-doss": ("small", ["-seg16"], ["_DOS"], "-small", "lcds.a", "a.exe"), "-small": ("small", ["-seg16"], [], "-small", None, "a.exe"),
    "-dosh": ("huge", ["-huge"], ["_DOS"], "-huge", "lcdh.a", "a.exe"), "-huge": ("huge", ["-huge"], [], "-huge", None, "a.exe"),
    "-dosu": ("unreal", ["-unreal"], ["_DOS"], "-unreal", "lcdu.a", "a.exe"), "-unreal": ("unreal", ["-unreal"], [], "-unreal", None, "a.exe"),
    "-dosp": ("aout", ["-seg32"], ["_DOS", "_DPMI"], "-aout", "lcdp.a", "a.exe"), "-aout": ("aout", ["-seg32"], [], "-aout", None, "a.out"),
    "-win": ("pe", ["-seg32", "-winstack"], ["_WINDOWS"], "-pe", "lcw.a", "a.exe"), "-pe": ("pe", ["-seg32"], [], "-pe", None, "a.exe"),
    "-linux": ("elf", ["-seg32"], ["_LINUX"], "-elf", "lcl.a", "a.out"), "-elf": ("elf", ["-seg32"], [], "-elf", None, "a.out"),
    "-macos": ("mach", ["-seg32"], ["_MACOS"], "-mach", "lcm.a", "a.out"),
    "-flat16": ("flat16", ["-seg16"], [], "-flat16", None, "a.bin"), "-flat32": ("flat32", ["-seg32"], [], "-flat32", None, "a.bin"),
}
CCFLAGS = ["-signed-char", "-unsigned-char", "-signed-wchar", "-unsigned-wchar", "-short-wchar", "-long-wchar", "-leading-underscore",
           "-no-leading-underscore", "-winstack", "-Wall"]
LDPARAM = ["-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap", "-stub"]
ARITY = {"smlrl": ["-o"] + LDPARAM, "smlrc": ["-I", "-SI", "-D"], "smlrpp": ["-o", "-D", "-I", "-J", "-U"], "gcc": ["-o", "-D", "-I", "-isystem", "-U"]}
GROUPS = [("-signed-char", "-unsigned-char"), ("-signed-wchar", "-unsigned-wchar"), ("-short-wchar", "-long-wchar"),
          ("-leading-underscore", "-no-leading-underscore")]


def canon(argv):
    """What the order of independent options doesn't alter."""
    tool = argv[0]
    ar = ARITY.get(tool, ["-o", "-f"])
    par, flags, pos = {}, [], []
    i = 1
    while i < len(argv):
        a = argv[i]
        if a in ar:
            par.setdefault(a, []).append(argv[i + 1] if i + 1 < len(argv) else None)
            i += 2
            continue
        j = next((o for o in ("-SI", "-D", "-I", "-J", "-U") if o in ar and a.startswith(o)), None) if a.startswith("-") and a != "-zI" else None
        if j:
            par.setdefault(j, []).append(a[len(j):])
        elif a.startswith("-"):
            flags.append(a)
        else:
            pos.append(a)
        i += 1
    for o in ("-I", "-SI", "-J", "-isystem"):
        if o in par:
            par[o] = [os.path.normpath(x) if x else x for x in par[o]]
    if "-D" in par:
        par["-D"] = sorted(par["-D"], key=lambda x: x.split("=")[0])
    if tool == "smlrl":
        pos = [os.path.normpath(x) if x else x for x in pos]
        par = {k: v if k == "-o" else v[-1:] for k, v in par.items()}
        if "-stub" in par:
            par["-stub"] = [os.path.normpath(par["-stub"][0])]
    last = {}
    rest = set()
    for f in flags:
        g = next((g for g in GROUPS if f in g), None)
        if g:
            last[g] = f
        else:
            rest.add(f)
    return (tool, tuple(sorted((k, tuple(v)) for k, v in par.items())), tuple(sorted(rest | set(last.values()))), tuple(pos))


class Err(Exception):
    pass


def model(args, env, files, prefix="pfx"):
    """-> (rc ok, [canonical commands], {path: content} afterwards, output executable?, [stale-able files]); raises Err(option error).
    files: {path: content}"""
    st = dict(files)
    use, gcc = True, "SMLRPPG" in env
    args = list(args)
    if "-ppg" in args:
        gcc = True
    if "-nopp" in args:
        use = False
    args = [a for a in args if a not in ("-ppg", "-nopp")]
    cc, ld, pp = ["smlrc"], ["smlrl"], []
    if use:
        pp = ["gcc", "-E", "-undef", "-nostdinc"] if gcc else ["smlrpp", "-U", "__STDC_VERSION__", "-zI"]
    sysinc = "-SI" if not use else "-isystem" if gcc else "-J"
    fmt = out = asm = sl = None
    stub = nolink = toasm = False
    uch, uw, sw = False, None, None
    inputs, i = [], 0

    def p(*a):
        (pp if use else cc).extend(a)

    def setfmt(o):
        nonlocal fmt
        fmt = FMT[o]
        cc.extend(fmt[1])
        for m in fmt[2]:
            p("-D", m)
        ld.append(fmt[3])
    verbose = False
    while i < len(args):
        a = args[i]
        nxt = args[i + 1] if i + 1 < len(args) else None
        i += 1
        if a in ("-v", "-verbose"):
            verbose = True
        elif a in ("-asm", "-o", *LDPARAM):
            if nxt is None:
                raise Err(a)
            i += 1
            if a == "-asm":
                asm = nxt
            elif a == "-o":
                out = nxt
            else:
                ld += [a, nxt]
                stub |= a == "-stub"
        elif a in CCFLAGS:
            cc.append(a)
            if a.endswith("-char"):
                uch = a == "-unsigned-char"
            elif a in ("-signed-wchar", "-unsigned-wchar"):
                uw = a == "-unsigned-wchar"
            elif a.endswith("-wchar"):
                sw = a == "-short-wchar"
        elif a in ("-norel", "-gui"):
            ld.append(a)
        elif a == "-nobss":
            cc.append(a)
            ld.append(a)
        elif a in FMT:
            setfmt(a)
        elif a == "-c":
            nolink = True
        elif a == "-S":
            nolink = toasm = True
        elif re.match(r"-(D|I|SI|SL)", a):
            o = re.match(r"-(D|I|SI|SL)", a).group(0)
            v = a[len(o):]
            if not v:
                if nxt is None:
                    raise Err(a)
                v = nxt
                i += 1
            if o == "-SL":
                sl = v
            else:
                p(sysinc if o == "-SI" else o, v)
        elif a.startswith("-"):
            raise Err(a)
        else:
            inputs.append(a)
    if not inputs:
        raise Err("no inputs")
    if not fmt:
        setfmt("-linux")
    name, _, _, _, lib, defout = fmt
    asm = asm or env.get("SMLRASM") or "nasm"
    if not nolink and out is None:
        out = defout
    wide = name in ("elf", "mach")
    if wide:
        if uw is None:
            cc.append("-signed-wchar")
        if sw is None:
            cc.append("-long-wchar")
    uw = not wide if uw is None else uw
    sw = not wide if sw is None else sw
    # system files
    places = [os.path.join(env[e], s) for e, s in (("SMLRC", ""), ("HOME", "smlrc")) if e in env] + [prefix + "/smlrc"]
    j = lambda *x: os.path.normpath(os.path.join(*x))
    have = lambda f: j(f) in st or f in st
    inc = next((j(q, "include") for q in places if have(j(q, "include/limits.h"))), None)
    libs = ([sl] if sl else []) + [j(q, "lib") for q in places]
    ldir = next((q for q in libs if have(j(q, lib))), None) if lib else None
    if inc:
        p(sysinc, inc)
    if use:
        for m in ["__SMALLER_C__", "__SMALLER_C_16__" if "-seg16" in fmt[1] else "__SMALLER_C_32__",
                  *(["__HUGE__"] if name == "huge" else ["__UNREAL__"] if name == "unreal" else []),
                  "__SMALLER_C_UCHAR__" if uch else "__SMALLER_C_SCHAR__", "__SMALLER_C_UWCHAR__" if uw else "__SMALLER_C_SWCHAR__",
                  "__SMALLER_C_WCHAR16__" if sw else "__SMALLER_C_WCHAR32__", "__SMALLER_PP__"]:
            pp += ["-D", m]
        cc.append("-nopp")
    arch = nolink and not toasm and out and re.search(r".\.[aA]$", out)
    steps = []   # (canonical command or None, output, input paths, tag, temporary files so far)
    temps, objs, linkin = [], [], []
    results = []

    def step(cmd, o, ins, tag):
        steps.append(dict(cmd=canon(cmd) if cmd else None, out=o, ins=ins, temps=list(temps), tag=tag))
        for f in ins:
            if f not in st:
                raise KeyError(f)
        st[o] = tag + b"(" + b",".join(st[f][:3000] for f in ins) + b")"
    for f in inputs:
        m = re.search(r".\.(c|i|asm|o|a)$", f)
        if not m:
            return dict(bad=f, steps=steps, out=out, files=st, verbose=verbose)
        k = m.group(1)
        stem = f[:-len(k)]
        if k in "oa":
            if not nolink:
                linkin.append(f)
            elif arch and k == "o":
                objs.append(f)
            continue
        src, mine = f, []
        if k == "c" and use:
            mine.append(stem + "i")
            temps.append(stem + "i")
            step(pp + ["-o", stem + "i", f], stem + "i", [f], b"PP")
            src = stem + "i"
        if k in "ci":
            a = out if toasm and out and len(inputs) == 1 else stem + "asm"
            temps.append(a)
            step(cc + [src, a], a, [src], b"CC")
            if not toasm:
                mine.append(a)
            src = a
        if not toasm:
            o = out if nolink and not arch and out and len(inputs) == 1 else stem + "o"
            if not nolink or arch:
                temps.append(o)
            step([asm, "-f", "elf", src, "-o", o], o, [src], b"AS")
            if not nolink:
                linkin.append(o)
            elif arch:
                objs.append(o)
        for t in mine:
            st.pop(t, None)
    if not nolink:
        l = ld + linkin
        if ldir:
            l.append(j(ldir, lib))
            linkin = linkin + [j(ldir, lib)]
            if name == "aout" and not stub and have(j(ldir, "dpstub.exe")):
                l += ["-stub", j(ldir, "dpstub.exe")]
        step(l + ["-o", out], out, linkin, b"LD")
        mapf = [ld[q + 1] for q in range(len(ld)) if ld[q] == "-map"]
        if mapf:
            st[mapf[-1]] = b"MAP"
        if wide:
            steps.append(dict(cmd=None, out=out, ins=[], temps=list(temps), tag=b"chmod"))
        for t in temps:
            st.pop(t, None)
    elif arch:
        st[out] = [(re.split(r"[/\\]", o)[-1], st.get(o)) for o in objs]
        for t in temps:
            st.pop(t, None)
    return dict(bad=None, steps=steps, out=out, files=st, exe=wide and not nolink, arch=arch, temps=temps, verbose=verbose, objs=objs, inputs=inputs)


def unarc(b):
    if b[:8] != b"!<arch>\n":
        return "no magic"
    p, out = 8, []
    while p < len(b):
        h = b[p:p + 60]
        if len(h) < 60 or h[58:60] != b"`\n":
            return f"bad header at {p}"
        f = [h[:16], h[16:28], h[28:34], h[34:40], h[40:48], h[48:58]]
        if not all(re.fullmatch(rb"\d+ *", x) for x in f[1:]):
            return f"bad header fields {h!r}"
        n, size = f[0].rstrip(b" "), int(f[5])
        p += 60
        d = b[p:p + size]
        if len(d) < size:
            return f"member at {p} cut short"
        if n.startswith(b"#1/"):
            k = int(n[3:])
            n, d = d[:k], d[k:]
        elif n.endswith(b"/"):
            n = n[:-1]
        else:
            return f"bad name {n!r}"
        out.append((n.decode("latin-1"), d))
        p += size
        if size & 1:
            if b[p:p + 1] != b"\n":
                return f"no padding at {p}"
            p += 1
    return out


def build(san=True):
    d = vlib.scratch("drv%d" % san)
    fs = "address,undefined" if san else "undefined"
    names = ("fopen", "fread", "fwrite", "fseek", "fclose", "malloc", "realloc", "system")
    b = d + "/drv"
    objs = []
    for src, defs in ((vlib.V + "/smlrcc.c", ["main=drv_tool", "HOST_LINUX", 'PATH_PREFIX="pfx"'] + [f"{n}=fk_{n}" for n in names]),
                      (vlib.VERIF + "/harness/fkdrv.c", []), (vlib.VERIF + "/harness/forkrun.c", [])):
        o = f"{b}.{len(objs)}.o"
        r = vlib.run(["gcc", "-w", "-O1", "-g", "-fsanitize=" + fs, "-fno-sanitize-recover=undefined", *["-D" + x for x in defs], "-c", src, "-o", o], timeout=200)
        if r.rc:
            raise vlib.BuildError(r.err.decode("latin-1")[-2000:])
        objs.append(o)
    r = vlib.run(["gcc", "-fsanitize=" + fs, *objs, "-o", b], timeout=200)
    if r.rc:
        raise vlib.BuildError(r.err.decode("latin-1")[-2000:])
    return b


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS": "exitcode=99", "PATH": "/usr/bin:/bin"}


class Out:
    __slots__ = ("rc", "text", "cmds", "special", "files", "exe", "hits", "broken", "missing")


def parse(r):
    o = Out()
    o.rc, o.cmds, o.special, o.files, o.exe, o.hits, o.missing = r.rc, [], [], {}, {}, 0, []
    b = r.out
    p = b.rfind(b"\n@@END ")
    o.broken = r.rc in (99, -99) or r.rc < 0 or p < 0 or b"Sanitizer" in b or b"runtime error" in b
    o.text = b[:p] if p >= 0 else b
    if p < 0:
        return o
    q = b.index(b"\n", p + 1)
    o.hits = int(b[p + 7:q])
    q += 1
    while q < len(b):
        e = b.index(b"\n", q)
        l = b[q:e].split(b"\x1f")
        q = e + 1
        if l[0] == b"C":
            o.cmds.append([x.decode("latin-1") for x in l[1:]])
        elif l[0] == b"X":
            o.special.append(b"\x1f".join(l[1:]).decode("latin-1"))
        elif l[0] == b"M":
            o.missing.append(l[1].decode("latin-1"))
        elif l[0] == b"F":
            n = int(l[3])
            o.files[l[1].decode("latin-1")] = b[q:q + n]
            o.exe[l[1].decode("latin-1")] = l[2] == b"1"
            q += n + 1
    return o


def enc(s):
    return s.replace("\n", "\x02").replace("\t", "\x03")


class Case:
    __slots__ = ("args", "env", "files", "faults", "k", "key", "resp")

    def __init__(self, args, env=None, files=None, faults=(), k=None, key=None, resp=None):
        self.args, self.env, self.files, self.faults, self.k, self.key, self.resp = args, env or {}, files or {}, faults, k, key, resp

    def label(self):
        e = "".join(f"{k}={v} " for k, v in self.env.items())
        return f"{e}smlrcc {' '.join(map(repr, self.args)) if any(re.search(r'[^-+.,=/@a-zA-Z0-9_]', a) for a in self.args) else ' '.join(self.args)}" + \
            (f" [files {sorted(self.files)}]" if len(self.files) < 4 else "") + "".join(f" [step {s} fails, mode {m}]" for s, m in self.faults) + (f" [call {self.k[0]}{self.k[1]} fails]" if self.k else "")


def job(c, n):
    f = [f"d=j{n}"] + [f"e={k}={v}" for k, v in c.env.items()]
    f += [f"w={p}=" + enc(v if isinstance(v, str) else v.decode("latin-1")) for p, v in c.files.items()]
    f += [f"w={p}=" + enc(v) for p, v in (c.resp or {}).items()]
    f += [f"t={s}:{m}" for s, m in c.faults]
    if c.k:
        f.append(f"k={c.k[0]}:{c.k[1]}")
    return (vlib.scratch("drvrun"), ["\x1f".join(f), *map(enc, c.args)])


def expand(s):
    """File content as the harness writes it."""
    def rep(m):
        n = int(m.group(1))
        return "".join("0123456789abcdef"[k % 16] for k in range(n - 1, -1, -1))
    return re.sub("\x04(\\d+)@", rep, s).encode("latin-1")
