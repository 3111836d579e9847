#!/usr/bin/env python3
"""C25: the driver's command lines. smlrcc.c runs unmodified with simulated tools (harness/fkdrv.c); for every command line of the
enumeration the tools it runs, their options, and the files that remain are compared with lib/drvmodel.py."""
import itertools, os, re, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, drvmodel
from drvmodel import Case, FMT, CCFLAGS, LDPARAM

FILES = {"a.c": "A", "b.c": "B", "p.i": "P", "q.i": "Q", "x.asm": "X", "y.asm": "Y", "m.o": "MM", "n.o": "N", "l.a": "L", "k.a": "K", "s.stub": "S"}
SYS = {"pfx/smlrc/include/limits.h": "h", **{"pfx/smlrc/lib/" + l: l for l in ("lcds.a", "lcdh.a", "lcdu.a", "lcdp.a", "lcw.a", "lcl.a", "lcm.a", "dpstub.exe")}}
ALL = {**FILES, **SYS}
KINDS = ["a.c", "p.i", "x.asm", "m.o", "l.a"]
SECOND = {"a.c": "b.c", "p.i": "q.i", "x.asm": "y.asm", "m.o": "n.o", "l.a": "k.a"}


def grid(thorough):
    singles = [[k] for k in KINDS]
    pairs = [[a, SECOND[b]] for a in KINDS for b in KINDS]
    ins = singles + pairs
    if thorough:
        ins += [[a, SECOND[b], c] for a in KINDS for b in KINDS for c in KINDS if a != c]
    for f in [None, *FMT]:
        for stage in ("link", "c", "S", "ar"):
            for inp in ins:
                for o in (False, True):
                    if stage == "ar" and not o:
                        continue
                    if stage in "cS" and o and len(inp) > 1:
                        continue
                    if stage == "S" and o and inp[0] not in ("a.c", "p.i"):
                        continue
                    if stage == "c" and o and inp[0] in ("m.o", "l.a"):
                        continue
                    for pp in ("", "-ppg", "-nopp", "env"):
                        a = [f] if f else []
                        a += {"link": [], "c": ["-c"], "S": ["-c", "-S"], "ar": ["-c"]}[stage]
                        if pp.startswith("-"):
                            a.append(pp)
                        out = {"link": "out.x", "c": "out.o", "S": "out.asm", "ar": "out.a"}[stage]
                        yield Case(a + inp + (["-o", out] if o else []), {"SMLRPPG": "gcc"} if pp == "env" else {}, ALL)
        for asm in (["-asm", "yasm"], ["-asm", "n2f"], []):
            for env in ({}, {"SMLRASM": "n2f"}, {"SMLRASM": "yasm"}):
                for inp in singles:
                    yield Case(([f] if f else []) + asm + inp, env, ALL)


OPTS = [["-v"], ["-verbose"], ["-map", "o.map"], ["-pesubsys", "10"], ["-entry", "_go"], ["-origin", "0x1000"], ["-stack", "4096"],
        ["-minheap", "100000"], ["-maxheap", "0x100000"], ["-stub", "s.stub"], *[[x] for x in CCFLAGS], ["-norel"], ["-gui"], ["-nobss"],
        ["-DAA"], ["-D", "AA=2"], ["-DBB=1"], ["-Ii1"], ["-I", "i2"], ["-SIs1"], ["-SI", "s2"], ["-nopp"], ["-ppg"], ["-asm", "yasm"], ["-S"], ["-c"]]


def options(thorough):
    n = 0
    for f in ("-linux", "-dosp", "-win", "-flat16") if not thorough else FMT:
        for stage in ([], ["-c"]):
            for o in OPTS:
                for w in range(3):
                    yield Case(([f] if w < 2 else []) + (o if w else []) + stage + ["a.c", "x.asm"] + (o if not w else []) + ([f] if w == 2 else []), {}, ALL)
            for a, b in itertools.product(OPTS, OPTS):
                n += 1
                order = [[f, *stage, *a, *b, "a.c", "x.asm"], [*a, "a.c", f, *b, "x.asm", *stage], ["a.c", *a, *stage, "x.asm", *b, f]]
                for k, l in enumerate(order):
                    if thorough or k == n % 3:
                        yield Case(l, {}, ALL)
    if thorough:
        for a, b, c in itertools.product(OPTS, OPTS, OPTS):
            yield Case(["-dosp", *a, "a.c", *b, "x.asm", *c], {}, ALL)


def response(thorough):
    base = [["-win", "-c", "a.c", "-o", "out.o"], ["-dosp", "-DAA=1", "a.c", "x.asm", "-stack", "4096", "-v"], ["-c", "a.c", "m.o", "-o", "out.a"], ["-nopp", "a.c", "-S", "-ppg"]]
    seps = [" ", "\n", "\t", "\r\n", "  ", " \n", "\f", "\v"]
    for b in base:
        for i in range(len(b)):
            for j in range(i + 1, len(b) + 1):
                for s in seps:
                    for pre in ("", s):
                        for post in ("", s):
                            yield Case(b[:i] + ["@r"] + b[j:], {}, ALL, resp={"r": pre + s.join(b[i:j]) + post})
                for k in range(j, len(b)):
                    for l in range(k + 1, len(b) + 1):
                        yield Case(b[:i] + ["@r"] + b[j:k] + ["@q"] + b[l:], {}, ALL, resp={"r": " ".join(b[i:j]), "q": "\n".join(b[k:l])})
        for i in range(len(b) + 1):
            yield Case(b[:i] + ["@r"] + b[i:], {}, ALL, resp={"r": ""})
            yield Case(b[:i] + ["@r"] + b[i:], {}, ALL, resp={"r": " \n"})
    # sizes
    for n in [*range(0, 140 if not thorough else 2100), 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]:
        yield Case(["@r", "a.c"], {}, ALL, resp={"r": "-c" + " " * n})
        yield Case(["-c", "@r"], {}, ALL, resp={"r": " " * n + "-DXX a.c"})
    for n in range(1, 60):    # many arguments
        yield Case(["-c", "@r", "-v"], {}, ALL, resp={"r": " ".join(["-DM%d" % k for k in range(n)] + ["a.c"])})
    yield Case(["-c", "@none"], {}, ALL)


def errors(thorough):
    ctx = [[], ["a.c"], ["-c", "a.c"], ["-win", "a.c", "x.asm"], ["-c", "a.c", "-o", "out.o"]]
    for c in ctx:
        for o in ("-o", "-asm", *LDPARAM, "-D", "-I", "-SI", "-SL"):
            yield Case(c + [o], {}, ALL)
        for o in ("-x", "-O2", "-", "--", "-cc", "-E", "-So", "-V", "-C", "-outp", "-mapp", "-winn", "-dos", "-nobsss", "-Wal", "-Walll", "-no-bss", "-l", "-L", "-linux32", "-d", "-s", "-stacks", "-signed", "-verb", "-flat", "-mach"):
            for k in range(len(c) + 1):
                if k and c[k - 1] == "-o":
                    continue
                yield Case(c[:k] + [o] + c[k:], {}, ALL)
        for f in ("f.txt", "noext", "a.cc", "a.h", "x.s", "x.as", "m.obj", ".c", ".o", "l.so", "a.c.", "asm", "x.bsm", "xasm", "bc", "x.asn", "x.aam"):
            for k in range(len(c) + 1):
                if k and c[k - 1] == "-o":
                    continue
                yield Case(c[:k] + [f] + c[k:], {}, {**ALL, f: "Z"})
    for c in (["-c"], ["-v"], [], ["-linux", "-DX"], ["@e"]):
        yield Case(c, {}, {**ALL, "e": ""})


CH = "a \"'\\$(;*`&|<^?#~%!{}[]=>)\x7f"


def quoting(thorough):
    l = [""] + ["".join(t) for n in (1, 2) for t in itertools.product(CH, repeat=n)] + ["".join(t) for t in itertools.product(CH[:11] if not thorough else CH, repeat=3)]
    for s in l:
        yield Case(["-c", "-D", "X=" + s, "a.c"], {}, ALL)
        yield Case(["-c", "-nopp", "-DX=" + s, "a.c"], {}, ALL)
    m = [x for x in l if len(x) < 3 and "/" not in x]
    for s in m:
        if s.startswith("-") or s.startswith("@"):
            continue
        yield Case(["n" + s + ".c", "-v", "-o", "o" + s], {}, {**SYS, "n" + s + ".c": "A"}) if "=" not in s else Case(["-c", "a.c"], {}, ALL)
        if s and "=" not in s:
            yield Case(["-c", s + "z.asm", "m.o", "-o", s + "l.a"], {}, {**SYS, s + "z.asm": "A", "m.o": "MM"})
        yield Case(["-I", "i" + s, "-SI" + "j" + s, "a.c", "-map", "m" + s, "-asm", "t" + s + "asm"], {}, ALL)


def search(thorough):
    inc, libs = ["limits.h"], ["lcl.a", "lcdp.a", "dpstub.exe", "lcds.a"]
    opts = (0, 1, 2, 3)
    for f in ("-linux", "-dosp", "-dost", "-elf"):
        for pp in ([], ["-nopp"], ["-ppg"]):
            for sm, ho, px in itertools.product(opts, opts, opts):
                for envs in ((1, 1), (1, 0), (0, 1), (0, 0)):
                    for sl in (0, 1):
                        files = dict(FILES)
                        for present, d in ((sm, "sm"), (ho, "ho/smlrc"), (px, "pfx/smlrc")):
                            if present & 1:
                                files[d + "/include/limits.h"] = "h"
                            if present & 2:
                                for l in libs:
                                    files[d + "/lib/" + l] = l + d
                        env = {}
                        if envs[0]:
                            env["SMLRC"] = "sm" if sl else "sm/"
                        if envs[1]:
                            env["HOME"] = "ho/" if sl else "ho"
                        a = [f, *pp]
                        if sl:
                            for l in libs:
                                files["sl/" + l] = l + "sl"
                            a += ["-SLsl"] if sm & 1 else ["-SL", "sl/"]
                        yield Case(a + ["-SIusr", "a.c"], env, files)


def archives(thorough):
    names = ["a" * n + ".o" for n in range(1, 22)] + ["b" * 253 + ".o", "c" * 250 + ".o", "a b.o"]
    names += ["d/" + n for n in names[:18]] + ["d/e/f.o", "..o", "d.o/x.o"]
    sizes = [*range(0, 20), 63, 64, 65, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 9999, 10000, 16384, 32767, 32768, 32769]
    if thorough:
        sizes = [*range(0, 1100), *sizes]
    for n in names:
        for s in (0, 1, 6, 1023, 1024):
            for o in ("l.a", "d/l.a", "L.A"):
                yield Case(["-c", n, "-o", o], {}, {"d/z": "", n: "\x04%d@" % s})
        for n2 in names[::3]:
            if n != n2:
                yield Case(["-c", n, n2, "-o", "l.a"], {}, {n: "\x047@", n2: "\x0410@"})
    for s in sizes:
        yield Case(["-c", "a.o", "-o", "l.a"], {}, {"a.o": "\x04%d@" % s})
        for t in (0, 1, 2, 1024):
            yield Case(["-c", "a.o", "d/b.o", "a_long_member_name.o", "-o", "l.a"], {}, {"a.o": "\x04%d@" % s, "d/b.o": "\x04%d@" % t, "a_long_member_name.o": "\x04%d@" % (s ^ 1)})
    for k in range(1, 40 if not thorough else 200):
        yield Case(["-c", *["m%d.o" % q for q in range(k)], "-o", "l.a"], {}, {"m%d.o" % q: "\x04%d@" % (q * 37) for q in range(k)})
    for src in ("a.c", "d/s.c", "p.i", "x.asm", "d/t.asm", "d/long_source_file_name.c"):
        for o in ("l.a", "d/l.a"):
            yield Case(["-c", src, "m.o", "-o", o], {}, {**ALL, "d/s.c": "DS", "d/t.asm": "DT", "d/long_source_file_name.c": "long"})


def response_args(c):
    if not c.resp:
        return c.args
    out = []
    for a in c.args:
        if a.startswith("@") and a[1:] in c.resp:
            out += re.split(r"[ \f\n\r\t\v]+", c.resp[a[1:]].strip(" \f\n\r\t\v")) if c.resp[a[1:]].strip(" \f\n\r\t\v") else []
        else:
            out.append(a)
    return out


def judge(c, o):
    """-> None or (what)"""
    files = {p: drvmodel.expand(v) for p, v in c.files.items()}
    resp = {p: drvmodel.expand(v) for p, v in (c.resp or {}).items()}
    if o.broken:
        return "memory error or crash: " + o.text[-300:].decode("latin-1")
    if o.special:
        return "sh would interpret the command: " + o.special[0][:200]
    try:
        m = drvmodel.model(response_args(c), c.env, files)
    except drvmodel.Err as e:
        if not o.rc:
            return f"accepted an invalid command line ({e})"
        if o.cmds:
            return f"ran {o.cmds[0]} for an invalid command line ({e})"
        return None
    got = [drvmodel.canon(x) for x in o.cmds if x[0] != "chmod"]
    if m["bad"]:
        if not o.rc:
            return f"accepted the input file {m['bad']!r}"
        if any(g[0] == "smlrl" for g in got):
            return "linked in spite of an input of an unknown type"
        return None
    if m["arch"] and any(len(n) > 255 for n, _ in m["files"][m["out"]]):
        return None if o.rc and m["out"] not in o.files else "a name too long was archived"
    if o.rc:
        return f"failed with {o.rc}: {o.text[-200:].decode('latin-1')!r}; commands {o.cmds}"
    want = [s["cmd"] for s in m["steps"] if s["cmd"]]
    if got != want:
        k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        return f"command {k}: ran {o.cmds[k] if k < len(o.cmds) else None}\n expected {want[k] if k < len(want) else None}\n got {got[k] if k < len(got) else None}"
    exp = {**m["files"], **resp}
    if m["arch"]:
        a = o.files.get(m["out"])
        ml = exp[m["out"]]
        exp[m["out"]] = a
        if a is None:
            return "no archive"
        u = drvmodel.unarc(a)
        if u != ml:
            return f"archive {m['out']}: " + (u if isinstance(u, str) else f"members {[(n, len(d)) for n, d in u]} instead of {[(n, len(d or b'')) for n, d in ml]}")
    if o.files != exp:
        for f in sorted(set(exp) | set(o.files)):
            if o.files.get(f) != exp.get(f):
                return f"file {f!r}: {o.files.get(f, b'(none)')[:100]!r} instead of {exp.get(f, b'(none)')[:100]!r}"
    if m["exe"] and not o.exe.get(m["out"]):
        return f"{m['out']} is not executable"
    if m["verbose"]:
        for x in o.cmds:
            if not any(l.startswith(x[0].encode()[:3]) and os.path.basename(x[-1]).encode()[:1] in l for l in o.text.split(b"\n")):
                return f"-v doesn't print {x}"
    return None


def part(a):
    binary, cases, base = a
    jobs = [drvmodel.job(c, base + i) for i, c in enumerate(cases)]
    rs = vlib.forkrun(binary, jobs, env=drvmodel.ENV)
    bad, outs, ncmd = [], set(), 0
    for c, r in zip(cases, rs):
        o = drvmodel.parse(r)
        ncmd += len(o.cmds)
        w = judge(c, o)
        if w:
            bad.append((c.label(), w))
        outs.add((o.rc, tuple(map(tuple, o.cmds))))
    return bad, len(outs), ncmd


def conformance(chk, tc):
    """The same command lines through the real sh with recording stand-ins for the tools."""
    d = vlib.scratch("conf")
    b = vlib.scratch("confbin")
    stub = '#!/usr/bin/env python3\nimport sys\nopen("%s/log","a").write("\\x1f".join([sys.argv[0].split("/")[-1]]+sys.argv[1:])+"\\n")\na=sys.argv[1:]\no=a[a.index("-o")+1] if "-o" in a else a[-1]\nopen(o,"w").write("x")\n' % d
    for t in ("smlrc", "smlrl", "smlrpp", "nasm", "gcc", "yasm"):
        p = f"{b}/{t}"
        open(p, "w").write(stub)
        os.chmod(p, 0o755)
    r = vlib.run(["gcc", "-w", "-O1", "-DHOST_LINUX", '-DPATH_PREFIX="pfx"', vlib.V + "/smlrcc.c", "-o", b + "/smlrcc"])
    if r.rc:
        raise vlib.BuildError(r.err.decode())
    cases = []
    for q, cs in enumerate((list(quoting(False))[::97], list(grid(False))[::1501], list(options(False))[::331])):
        cases += cs
    bad = 0
    for c in cases:
        w = vlib.scratch("conf/w")
        for p, v in c.files.items():
            os.makedirs(os.path.dirname(f"{w}/{p}"), exist_ok=True)
            open(f"{w}/{p}", "wb").write(drvmodel.expand(v))
        if os.path.exists(d + "/log"):
            os.unlink(d + "/log")
        env = {"PATH": b + ":/usr/bin:/bin", **c.env}
        r = vlib.run([b + "/smlrcc", *c.args], cwd=w, env=env)
        got = [l.split("\x1f") for l in open(d + "/log", encoding="latin-1").read().split("\n")[:-1]] if os.path.exists(d + "/log") else []
        try:
            m = drvmodel.model(c.args, c.env, {p: drvmodel.expand(v) for p, v in c.files.items()})
        except drvmodel.Err:
            continue
        want = [s["cmd"] for s in m["steps"] if s["cmd"]]
        if m["bad"]:
            continue
        if any(x[0].startswith("t") for x in want):   # an assembler that has no stand-in
            continue
        if [drvmodel.canon(g) for g in got] != want or r.rc:
            bad += 1
            chk.violation("conf:" + c.label(), f"through sh: ran {got}, expected {want}, status {r.rc}", c.label())
        vlib.shutil.rmtree(w)
    return len(cases)


def body(chk):
    asan, plain = vlib.pmap(drvmodel.build, (True, False))
    cov, total, ncmd, nout = {}, 0, 0, 0
    for name, gen in (("formats", grid), ("options", options), ("response files", response), ("errors", errors), ("quoting", quoting), ("search", search), ("archives", archives)):
        cases = list(gen(chk.thorough))
        chunk = 400
        res = vlib.ppmap(part, [(plain if name in ("formats", "options", "search") and not chk.thorough else asan, cases[i:i + chunk], total + i) for i in range(0, len(cases), chunk)])
        for bad, k, n in res:
            nout += k
            ncmd += n
            for l, w in bad:
                chk.violation(f"{name}:{l}"[:300], w, l)
        cov[name] = len(cases)
        total += len(cases)
        chk.samples.append(cases[len(cases) // 2].label())
        chk.log(name, len(cases))
    nconf = conformance(chk, None)
    chk.assumptions += ["combinations of two target formats, library locations holding the library without the stub, and -o with several inputs and -c are not judged",
                        "HOST_LINUX build of the driver; DOS/Windows command files not run"]
    chk.finish(states=total, transitions=ncmd, evaluations=total, traces_validated_against_impl=total, commands=ncmd, distinct_outcomes=nout, groups=cov, conformance_runs_with_sh=nconf,
               rule="every command line of the enumeration runs the real driver; tools, options, order, files and archive bytes compared with the model")


if __name__ == "__main__":
    vlib.main("C25", "model_checking", body)
