#!/usr/bin/env python3
"""C23: the linker on unusable inputs. Every truncation and every field mutation of objects and archives, under the address
sanitizer; accepted inputs have to give the image of the model; every failing library call has to be reported."""
import sys, os, itertools, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, linkmodel, elfio
from linkmodel import *

ROOT = FAST = ASAN = SHIM = CASES = None
ENV = None


def base_objs():
    o, p = Ob(), Ob()
    t = o.sec(".text", bytes(range(32)), A | X)
    r = o.sec(".rodata", b"rodata..", A)
    w = o.sec(".data", b"\0" * 12, A | W)
    b = o.sec(".bss", b"", A | W, NOBITS, 4, 20)
    for i, k in enumerate((t, r, w, b)):
        o.sym(f"S0_{i}", k, 0)
    o.sym("__start", t, 2, 1, 2)
    ss = o.sym("", w, 0, 0, 3)
    l = o.sym("loc", r, 3, 0, 1)
    x = o.sym("ext", 0, 0)
    st = o.sym("__stop__data", 0, 0)
    o.sym("f.asm", 0xfff1, 0, 0, 4)
    for off, ty, sy in ((4, R32, ss), (8, RPC32, x), (12, R16, 0), (16, RPC16, x), (28, R32, l)):
        o.rel(t, off, ty, sy)
    o.rel(w, 0, R32, x)
    o.rel(w, 8, R32, st)
    t = p.sec(".text", b"code" * 3, A | X, PROGBITS, 16)
    w = p.sec(".data", b"data5", A | W, PROGBITS, 2)
    n = p.sec(".note", b"not loaded", 0, PROGBITS, 1)
    p.sym("S1_0", t, 0)
    p.sym("S1_1", w, 0)
    p.sym("ext", w, 1, 1, 1)
    bk = p.sym("__start", 0, 0)
    p.rel(t, 0, R32, bk)
    for q in (o, p):
        for s in q.secs:
            b = bytearray(s.data)
            for off, ty, sy in s.rels:
                b[off:off + (4 if ty < 20 else 2)] = b"\0" * (4 if ty < 20 else 2)
            s.data = bytes(b)
    return o, p


HDR = [("ident%d" % i, i, 1) for i in range(4, 8)] + [("magic%d" % i, i, 1) for i in range(4)] + \
    [(n, o, z) for n, o, z in (("type", 16, 2), ("machine", 18, 2), ("version", 20, 4), ("entry", 24, 4), ("phoff", 28, 4), ("shoff", 32, 4), ("flags", 36, 4),
     ("ehsize", 40, 2), ("phentsize", 42, 2), ("phnum", 44, 2), ("shentsize", 46, 2), ("shnum", 48, 2), ("shstrndx", 50, 2))]
SHF = ("name", "type", "flags", "addr", "offset", "size", "link", "info", "addralign", "entsize")


def fields(d, base=0):
    """(label, offset, width) of every field of the object at base."""
    out = [("hdr." + n, base + o, z) for n, o, z in HDR]
    shoff, shn = u32(d, base + 32), u16(d, base + 48)
    for i in range(shn):
        a = base + shoff + 40 * i
        out += [(f"sh{i}.{n}", a + 4 * k, 4) for k, n in enumerate(SHF)]
        typ, off, size = u32(d, a + 4), u32(d, a + 16), u32(d, a + 20)
        if typ == 2:
            for k in range(size // 16):
                s = base + off + 16 * k
                out += [(f"sym{k}.name", s, 4), (f"sym{k}.value", s + 4, 4), (f"sym{k}.size", s + 8, 4), (f"sym{k}.info", s + 12, 1), (f"sym{k}.other", s + 13, 1), (f"sym{k}.shndx", s + 14, 2)]
        if typ == 9:
            for k in range(size // 8):
                s = base + off + 8 * k
                out += [(f"rel{i}.{k}.offset", s, 4), (f"rel{i}.{k}.type", s + 4, 1), (f"rel{i}.{k}.sym", s + 5, 2), (f"rel{i}.{k}.symhi", s + 7, 1)]
        if typ == 3:
            out += [(f"str{i}.{k}", base + off + k, 1) for k in range(size)]
    return out


def menu(v, z, size):
    m = (1 << 8 * z) - 1
    l = {0, 1, 2, 3, 4, 5, 6, 8, 9, v + 1, v - 1, v ^ 1, v * 2, v + 4, v + 16, v - 4, v | 1 << (8 * z - 1), m, m - 1, m >> 1, (m >> 1) + 1, m & ~15, m - 51, 0x10, 0x20, 0x11, 0x12, 0x13, 0x41, size, size - 1, size - 4, size + 1, v ^ 0x10, 12, 13, 20, 21, 24, 100}
    if z == 2:
        l |= {0xfff1, 0xfff2, 0xff00}
    return sorted({x & m for x in l if x >= 0} - {v})


def cases(thorough):
    """[(label, {file: bytes}, argument files, format, objects in order as (file, base))]"""
    o, p = base_objs()
    b0, b1 = o.build(), p.build()
    arc = elfio.archive([("a.o", b1, ["ext", "S1_0", "S1_1"]), ("longer_name.o", b0, ["__start"])])
    out = []
    fmts = ("elf", "small", "unreal", "aout") if not thorough else ("elf", "small", "unreal", "aout", "mach", "flat32", "huge", "tiny")

    def one(label, f0, f1, fm):
        out.append((label, {"o0.o": f0, "o1.o": f1}, ["o0.o", "o1.o"], fm, [("o0.o", 0), ("o1.o", 0)]))
    for f in fmts:
        one("unchanged", b0, b1, f)
    for n in range(len(b0)):
        one(f"truncate o0 {n}", b0[:n], b1, "elf")
    for n in range(len(b1)):
        one(f"truncate o1 {n}", b0, b1[:n], fmts[n % len(fmts)])
    k = 0
    for i, (me, ot) in enumerate(((b0, b1), (b1, b0))):
        for lab, off, z in fields(me):
            v = int.from_bytes(me[off:off + z], "little")
            isstr = lab.startswith("str")
            for x in (menu(v, z, len(me)) if not isstr else [y for y in (0, ord("x"), ord("."), 255) if y != v]):
                m = me[:off] + x.to_bytes(z, "little") + me[off + z:]
                k += 1
                for f in ([fmts[k % len(fmts)]] if not thorough else fmts):
                    one(f"o{i} {lab}={x:#x}", m if i == 0 else ot, ot if i == 0 else m, f)
    # pairs of structural fields of the small object
    fl = [x for x in fields(b1) if x[0].startswith(("sh", "hdr.sh", "rel")) and not x[0].endswith((".addr", ".addralign"))]
    for (la, oa, za), (lb, ob_, zb) in itertools.combinations(fl, 2):
        if not thorough and (oa + ob_) % 8:
            continue
        va, vb = int.from_bytes(b1[oa:oa + za], "little"), int.from_bytes(b1[ob_:ob_ + zb], "little")
        for x, y in ((va + 1, vb + 1), (0, 0xffffffff), (0xffffffff, 0), (0x7fffffff, 1)) if thorough else ((va + 1, vb - 1), (0, 0xffffffff)):
            m = bytearray(b1)
            m[oa:oa + za] = (x & ((1 << 8 * za) - 1)).to_bytes(za, "little")
            m[ob_:ob_ + zb] = (y & ((1 << 8 * zb) - 1)).to_bytes(zb, "little")
            one(f"o1 {la},{lb}={x:#x},{y:#x}", b0, bytes(m), "elf")
    # archives
    pos = [8]
    while pos[-1] + 60 <= len(arc):
        n = int(arc[pos[-1] + 48:pos[-1] + 58])
        pos.append(pos[-1] + 60 + n + (n & 1))
    mem = [pos[1] + 60, pos[2] + 60]

    def ar(label, a, f="elf"):
        out.append((label, {"l.a": a}, ["l.a"], f, [("l.a", mem[0]), ("l.a", mem[1])]))
    ar("archive unchanged", arc)
    for n in range(len(arc)):
        ar(f"truncate archive {n}", arc[:n], fmts[n % len(fmts)])
    for h, start in enumerate(pos[:3]):
        for x in range(start, start + 60):
            for y in b"\0 /019`\n\xff#":
                if arc[x] != y:
                    ar(f"archive header {h} byte {x - start}={y:#x}", arc[:x] + bytes([y]) + arc[x + 1:])
    for x in range(8):
        for y in (0, 33, 127, 255):
            if arc[x] != y:
                ar(f"archive magic {x}={y:#x}", arc[:x] + bytes([y]) + arc[x + 1:])
    for h, start in enumerate(pos[:3]):
        for nm in ("#1/0", "#1/4", "#1/99999", "#1/4294967295", "//", "/", "/0", "__.SYMDEF", "x"):
            a = arc[:start] + nm.ljust(16).encode() + arc[start + 16:]
            ar(f"archive name {h} {nm}", a)
        for sz in (0, 1, 51, 52, 60, 100, 4294967295, 4294967236, 2147483647, 9999999999):
            a = arc[:start + 48] + str(sz).ljust(10).encode() + arc[start + 58:]
            ar(f"archive size {h} {sz}", a)
    for lab, off, z in fields(arc, mem[0]):
        if lab.startswith("str") or not thorough and not lab.startswith(("sh", "hdr")):
            continue
        v = int.from_bytes(arc[off:off + z], "little")
        for x in menu(v, z, len(b1)):
            ar(f"member {lab}={x:#x}", arc[:off] + x.to_bytes(z, "little") + arc[off + z:])
    # symbols: undefined, duplicate, common, absolute
    for bind, sec in itertools.product((0, 1, 2, 3), (0, 1, 2, 3, 4, 0xfff1, 0xfff2, 0xffff, 0xff00)):
        for refd in (0, 1, 2):
            q, r = base_objs()
            s = q.sym("extra", sec if sec < 5 or sec >= 0xff00 else 1, 4, bind if bind < 3 else 1, 1)
            if refd:
                tt = q.secs[2]
                q.rel(3, 4, R32, s)
                if refd == 2:
                    e = r.sym("extra", 0, 0)
                    r.rel(1, 4, R32, e)
                    dd = bytearray(r.secs[0].data)
                    dd[4:8] = b"\0" * 4
                    r.secs[0].data = bytes(dd)
            for f in fmts:
                one(f"symbol bind={bind} section={sec:#x} referenced={refd}", q.build(), r.build(), f)
    return out


def judge_case(files, order, fmt, image, mp):
    """None: fine; a string: what is wrong; '?': cannot be judged."""
    try:
        obs = []
        for f, base in order:
            obs.append(parse_object(files[f], base))
    except Invalid as e:
        if str(e) == "binding":
            return "?"      # odd, but usable
        return "linked, although an input is invalid: " + str(e)
    except struct.error as e:
        return "linked, although an input is cut off"
    obs_sel = select(obs, "__start")
    if obs_sel is None:
        if any(t[3] == 2 for o in obs for t in o.syms):
            return "?"
        return "linked, although a symbol is undefined or defined twice"
    for i in obs_sel:
        o = obs[i]
        own = {}
        for n, sec, v, b, t in o.syms:
            if b == 1 and 0 < sec <= len(o.secs) and v > o.secs[sec - 1].size or n.startswith(("__start_.", "__stop_.")):
                return "?"
            if b == 1 and sec and n.startswith("S"):
                own.setdefault(n, []).append((sec, v))
            if b == 2:
                return "?"
            if b == 1 and sec >= 0xff00 and sec != 0xfff1:
                return "?"
            if b == 1 and 0 < sec <= len(o.secs) and not o.secs[sec - 1].flags & A:
                return "?"
        for j, s in enumerate(o.secs):
            if s.flags & A and own.get(f"S{i}_{j}") != [(j + 1, 0)]:
                return "?"
        if any(s.size > 1 << 24 for s in o.secs):
            return "?"      # would take too long to build
        for s in o.secs:
            if s.flags & A and s.type not in (PROGBITS, NOBITS):
                return "?"
            if s.rels and any(b < a + 4 for (a, _, _), (b, _, _) in zip(sorted(s.rels), sorted(s.rels)[1:])):
                return "?"
            for off, ty, si in s.rels:
                n, sec, v, b, t = o.syms[si]
                if si and 0 < sec <= len(o.secs) and not o.secs[sec - 1].flags & A:
                    return "?"
                if t == 3 and (b != 0 or v):
                    return "?"
    probs = judge(obs, obs_sel, fmt, {}, image, mp, "__start")
    return probs[0] if probs else None


def workn(rng):
    res = []
    d = f"{ROOT}/w{os.getpid()}"
    jobs = []
    for k, n in enumerate(rng):
        label, files, args, fmt, order = CASES[n]
        e = f"{d}/{k}"
        os.makedirs(e, exist_ok=True)
        for f in os.listdir(e):
            os.unlink(e + "/" + f)
        for f, b in files.items():
            with open(e + "/" + f, "wb") as g:
                g.write(b)
        jobs.append((e, ["-" + fmt, "-o", "out", "-map", "map", *args]))
    rs = vlib.forkrun(ASAN, jobs, env=ENV)
    for k, (n, r) in enumerate(zip(rng, rs)):
        label, files, args, fmt, order = CASES[n]
        e = f"{d}/{k}"
        have = os.path.exists(e + "/out")
        what = None
        kind = "refused"
        if r.timeout:
            what = "does not terminate"
        elif r.rc not in (0, 1):
            t = r.out.decode("latin-1", "replace")
            i = t.find("ERROR: ")
            what = f"memory error or crash (status {r.rc}): {t[max(0, i):][:700]}"
        elif r.rc == 1:
            if have:
                what = "failed, but left its output file"
            elif not r.out.strip():
                what = "failed without a message"
            elif label.endswith("unchanged"):
                what = "refused a valid input: " + r.out.decode("latin-1", "replace")[-200:]
        else:
            kind = "linked"
            if not have:
                what = "status 0 without output"
            else:
                what = judge_case(files, order, fmt, open(e + "/out", "rb").read(), open(e + "/map", encoding="latin-1").read())
                if what == "?":
                    kind, what = "unjudged", None
        res.append((n, kind, what))
    return res


def faults(c):
    """Every single failing library call, and every point from which on writes fail."""
    d = vlib.scratch("c23f")
    o, p = base_objs()
    for k, b in (("o0.o", o.build()), ("o1.o", p.build())):
        open(f"{d}/{k}", "wb").write(b)
    n = runs = 0
    for fmt in FORMATS:
        if fmt == "pe":
            # 16-bit relocations of the base objects are refused in PE
            continue
        args = [FAST, "-" + fmt, "-o", "out", "o0.o", "o1.o"]
        vlib.run(args, cwd=d, env=ENV)
        good = open(d + "/out", "rb").read()
        runs += limits(c, d, fmt, args + ["-map", "map"])
        for kinds in ("r", "w", "o", "s", "c", "m"):
            env = dict(ENV, LD_PRELOAD=SHIM, IOFAIL_K=kinds, IOFAIL_C="1")
            r = vlib.run(args, cwd=d, env=env)
            cnt = int(r.err.decode().split("IOFAIL count")[1].split()[0]) if b"IOFAIL count" in r.err else -1
            if r.rc != 0 or cnt <= 0:
                raise vlib.BuildError(f"fault shim: {fmt} {kinds} {r!r}")
            jobs = [(at, ps) for at in range(1, cnt + 1) for ps in ((0, 1) if kinds == "w" else (0,))]

            def one(j):
                at, ps = j
                e = f"{d}/{fmt}{kinds}{at}_{ps}"
                os.makedirs(e)
                for f in ("o0.o", "o1.o"):
                    os.link(f"{d}/{f}", f"{e}/{f}")
                en = dict(env, IOFAIL_N=str(at))
                if ps:
                    en["IOFAIL_P"] = "1"
                r = vlib.run(args, cwd=e, env=en, timeout=20)
                have = os.path.exists(e + "/out")
                same = have and open(e + "/out", "rb").read() == good
                for f in os.listdir(e):
                    os.unlink(e + "/" + f)
                os.rmdir(e)
                return r, have, same
            for (at, ps), (r, have, same) in zip(jobs, vlib.pmap(one, jobs)):
                runs += 1
                if r.rc == 0 and same and kinds in "mc":
                    continue     # the C library copes without the memory; nothing is lost
                if r.rc != 1 or have:
                    c.violation(f"fault:{fmt}:{kinds}:{at}:{ps}", f"-{fmt}: failing call {at} of kind '{kinds}'{' and all later ones' if ps else ''}: status {r.rc}, output {'left' if have else 'absent'}", r.out.decode("latin-1") + r.err.decode("latin-1"))
    return runs


def limits(c, d, fmt, args):
    """The file system takes only the first n bytes of a file."""
    import resource, signal, subprocess
    size = os.path.getsize(d + "/out")
    runs = 0

    def one(n):
        e = f"{d}/lim{n}"
        os.makedirs(e)
        for f in ("o0.o", "o1.o"):
            os.link(f"{d}/{f}", f"{e}/{f}")

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        p = subprocess.run(args, cwd=e, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre, timeout=60)
        have = os.path.exists(e + "/out")
        for f in os.listdir(e):
            os.unlink(e + "/" + f)
        os.rmdir(e)
        return p.returncode, have
    ns = sorted(set(range(0, size, max(1, size // 40))) | {1, size - 1, size // 2})
    for n, (rc, have) in zip(ns, vlib.pmap(one, ns)):
        if rc != 1 or have:
            c.violation(f"full:{fmt}:{n}", f"-{fmt}: the output file can hold only {n} of {size} bytes: status {rc}, output {'left' if have else 'absent'}")
    return len(ns)


def body(c):
    global ROOT, FAST, ASAN, SHIM, CASES, ENV
    tc = vlib.Toolchain(tools=("smlrl",))
    ASAN = vlib.forkbin([vlib.V + "/smlrl.c"], vlib.scratch() + "/smlrl_asan", ("-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DHOST_LINUX"))
    FAST = tc.bin + "/smlrl"
    ENV = dict(tc.env, MRUN_NODATA="1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:symbolize=0:max_allocation_size_mb=64", LANG="C")
    ROOT = vlib.scratch("c23")
    SHIM = vlib.scratch() + "/iofail.so"
    r = vlib.run(["gcc", "-shared", "-fPIC", "-O1", "-w", vlib.VERIF + "/harness/iofail.c", "-o", SHIM, "-ldl"])
    if r.rc:
        raise vlib.BuildError(repr(r))
    vlib.mrun([["true"]])
    nf = faults(c)
    c.log("fault runs", nf)
    CASES = cases(c.thorough)
    c.log("cases", len(CASES))
    step = 64
    parts = [range(i, min(i + step, len(CASES))) for i in range(0, len(CASES), step)]
    cnt = {}
    seen = {}
    for res in vlib.ppmap(workn, parts):
        for n, kind, what in res:
            cnt[kind] = cnt.get(kind, 0) + 1
            if what:
                label, files, args, fmt, order = CASES[n]
                key = (label.split("=")[0] + ":" + what[:40]).replace(" ", "_")
                if key in seen:
                    continue
                seen[key] = 1
                import base64
                c.violation(key, f"{label} -{fmt}: {what}", "\n".join(f"{f} base64: {base64.b64encode(b).decode()}" for f, b in files.items()))
    c.assumptions.append("inputs a linker may accept although unusual (weak or common symbols without references, overlapping relocations, sections without a start symbol) are run but their images are not judged")
    c.finish(evaluations=len(CASES) + nf, distinct_nontrivial=len(CASES), states=len(CASES), transitions=nf, traces_validated_against_impl=cnt.get("linked", 0),
             outcomes=cnt, fault_points=nf,
             rule="every truncation length; every field of every header, section header, symbol and relocation over a value menu; archive headers byte by byte; every failing call of fread/fwrite/fopen/fseek/fclose/malloc in every format",
             samples=[x[0] for x in CASES[::max(1, len(CASES) // 5)]])


if __name__ == "__main__":
    vlib.main("C23", "fault_enumeration", body)
