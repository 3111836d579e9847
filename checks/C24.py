#!/usr/bin/env python3
"""C24: failures under the driver. Every base command line is run with every one of its steps failing in every mode, and with
every one of its own library calls failing, on the unmodified smlrcc.c with simulated tools (harness/fkdrv.c)."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, drvmodel
from drvmodel import Case

SRC = {"a.c": "A", "b.c": "B", "d/e.c": "E", "p.i": "P", "x.asm": "X", "d/y.asm": "Y", "m.o": "MM", "n.o": "\x041500@", "l.a": "L"}
SYS = {"pfx/smlrc/include/limits.h": "h", **{"pfx/smlrc/lib/" + l: l for l in ("lcds.a", "lcdh.a", "lcdu.a", "lcdp.a", "lcw.a", "lcl.a", "lcm.a", "dpstub.exe")}}
MODES = (1, 2, 3, 4, 5)


def bases(thorough):
    pool = ["a.c", "b.c", "d/e.c", "p.i", "x.asm", "d/y.asm", "m.o", "n.o", "l.a"]
    ins = [[x] for x in pool] + [list(t) for t in itertools.permutations(["a.c", "p.i", "x.asm", "m.o", "l.a"], 2)]
    ins += [["a.c", "b.c"], ["a.c", "d/e.c"], ["x.asm", "d/y.asm"], ["m.o", "n.o"], ["a.c", "b.c", "d/e.c"], ["d/e.c", "d/y.asm", "m.o", "a.c"], ["m.o", "a.c", "l.a", "x.asm"]]
    if thorough:
        ins += [list(t) for t in itertools.permutations(pool, 3)]
    n = 0
    for i in ins:
        for st in ("link", "linko", "c", "co", "S", "So", "ar"):
            if st in ("co", "So") and (len(i) > 1 or i[0][-1] in "oa" or st == "So" and i[0].endswith("asm")):
                continue
            fmts = ["-linux", "-win", "-dosp", "-macos", "-doss", "-flat32"]
            for f in fmts if thorough or len(i) == 1 else [fmts[n % 6], "-linux"] if n % 6 else ["-linux"]:
                n += 1
                for pp in ([], ["-nopp"], ["-v"]) if thorough else ([], ["-nopp"], ["-v"])[n % 3:n % 3 + 1]:
                    a = [f, *pp, *i]
                    a += {"link": [], "linko": ["-o", "out.x"], "c": ["-c"], "co": ["-c", "-o", "d/out.o"], "S": ["-c", "-S"], "So": ["-S", "-o", "out.asm"], "ar": ["-c", "-o", "out.a"]}[st]
                    yield a, i, st


def files_for(i, stale, m):
    f = {**{k: SRC[k] for k in set(i)}, **SYS, "d/keep": "K"}
    if stale and m["out"] and m["out"] not in f:
        f[m["out"]] = "STALE"
    if stale == 2:
        for s in m["steps"]:
            for t in s["temps"]:
                f.setdefault(t, "OLD")
    return f


def judge_fail(c, o, m, i, st, step):
    """step: index of the failing step or None (own call failing); the driver must have failed, cleanly."""
    if o.broken:
        return "memory error or crash: " + o.text[-300:].decode("latin-1")
    if not o.rc:
        return "exit status 0 in spite of the failure"
    steps = m["steps"]
    if step is not None:
        want = [s["cmd"] for s in steps[:step + 1] if s["cmd"]]
        got = [drvmodel.canon(x) for x in o.cmds if x[0] != "chmod"]
        if got != want:
            return f"commands {got[len(want) - 1:]} after the failing one {want[-1:]}" if len(got) > len(want) else f"commands {got} instead of {want}"
        chm = [x for x in o.cmds if x[0] == "chmod"]
        if chm and steps[step]["cmd"]:
            return f"ran {chm[0]} after the failing {steps[step]['cmd']}"
        if not o.text.strip():
            return "no message"
    for k, v in c.files.items():
        if (k in i or k in SYS or k == "d/keep") and o.files.get(k) != drvmodel.expand(v):
            return f"{k} was altered or removed"
    named = m["out"] is not None
    if named and m["out"] in o.files and not (step is None and not o.cmds and o.files[m["out"]] == b"STALE"):   # failed before it was known
        return f"the output {m['out']} remains: {o.files[m['out']][:60]!r}"
    if step is not None:
        s = steps[step]
        gone = set(s["temps"]) if s["tag"] != b"chmod" else set(m["temps"])
    else:
        gone = set(m["temps"]) if len(o.cmds) >= len([s for s in steps if s["cmd"]]) else set()
    for t in sorted(gone - set(i)):
        if t in o.files and not (step is None and c.files.get(t) == "OLD"):
            return f"intermediate file {t} remains: {o.files[t][:60]!r}"
    return None


def judge_ok(o, m):
    if o.broken:
        return "memory error or crash: " + o.text[-300:].decode("latin-1")
    want = [s["cmd"] for s in m["steps"] if s["cmd"]]
    got = [drvmodel.canon(x) for x in o.cmds if x[0] != "chmod"]
    if got != want:
        return f"commands {got} instead of {want}"
    exp = dict(m["files"])
    if m["arch"]:
        a = o.files.get(m["out"])
        if a is None or drvmodel.unarc(a) != exp[m["out"]]:
            return f"status 0, and the archive is {a[:200] if a is not None else None!r}"
        exp[m["out"]] = a
    for f in sorted(set(exp) | set(o.files)):
        if exp.get(f) != o.files.get(f):
            return f"status 0, and file {f} is {o.files.get(f, b'(none)')[:100]!r} instead of {exp.get(f, b'(none)')[:100]!r}"
    if m["exe"] and not o.exe.get(m["out"]):
        return f"status 0, and {m['out']} is not executable"
    return None


def part(a):
    binary, items, base = a
    bad, n, cmds, rcs = [], 0, 0, set()
    jobs, meta = [], []

    def flush(keep=None):
        nonlocal n, cmds
        rs = vlib.forkrun(binary, [drvmodel.job(c, base + q) for q, c in enumerate(jobs)], env=drvmodel.ENV) if jobs else []
        out = []
        for c, (m, i, st, step), r in zip(jobs, meta, rs):
            o = drvmodel.parse(r)
            n += 1
            cmds += len(o.cmds)
            if step == "ok":
                w = f"failed with {o.rc}: {o.text[-200:]!r}" if o.rc else judge_ok(o, m)
            elif step == "own":
                w = None if o.hits < c.k[1] else judge_ok(o, m) if not o.rc else judge_fail(c, o, m, i, st, None)
            else:
                w = judge_fail(c, o, m, i, st, step)
            if w:
                bad.append((c.label(), w))
            rcs.add((o.rc, len(o.cmds)))
            out.append(o)
        jobs.clear()
        meta.clear()
        return out
    for args, i, st, own in items:
        m0 = drvmodel.model(args, {}, {**{k: drvmodel.expand(SRC[k]) for k in set(i)}, **{k: b"" for k in SYS}})
        for stale in (0, 1, 2):
            f = files_for(i, stale, m0)
            m = drvmodel.model(args, {}, {k: drvmodel.expand(v) for k, v in f.items()})
            jobs.append(Case(args, {}, f))
            meta.append((m, i, st, "ok"))
            for s in range(len(m["steps"])):
                for mode in MODES:
                    if stale == 1 and mode not in (1, 4):
                        continue
                    jobs.append(Case(args, {}, f, faults=((s + 1, mode),)))
                    meta.append((m, i, st, s))
        flush()
        if own:
            f = files_for(i, 1, m0)
            m = drvmodel.model(args, {}, {k: drvmodel.expand(v) for k, v in f.items()})
            for kind in "orwscm":
                # how often it is called
                jobs.append(Case(args, {}, f, k=(kind, 10 ** 6)))
                meta.append((m, i, st, "own"))
                k = flush()[0].hits
                for q in range(1, k + 1):
                    jobs.append(Case(args, {}, f, k=(kind, q)))
                    meta.append((m, i, st, "own"))
                flush()
    return bad, n, cmds, rcs


RESP = [["-c", "@r", "-o", "out.a"], ["@r"], ["-win", "@r", "x.asm"]]


def responses(binary, chk):
    """Unreadable response files."""
    n = 0
    for a, rt, kind in itertools.product(RESP, ("a.c m.o", "-v a.c", "a.c            -DAA=1", "a.c m.o             -Wall"), "roc"):
        if 1:
            for q in range(1, 40):
                c = Case(a, {}, {**{k: SRC[k] for k in ("a.c", "x.asm", "m.o")}, **SYS}, resp={"r": rt}, k=(kind, q))
                o = drvmodel.parse(vlib.forkrun(binary, [drvmodel.job(c, 0)], env=drvmodel.ENV)[0])
                if o.hits < q:
                    break
                n += 1
                args = [y for x in a for y in (rt.split() if x == "@r" else [x])]
                m = drvmodel.model(args, {}, {k: drvmodel.expand(v) for k, v in {**c.files, **c.resp}.items()})
                w = None
                if o.broken:
                    w = "memory error: " + o.text[-200:].decode("latin-1")
                elif not o.rc:
                    w = judge_ok(o, m)
                elif m["out"] in o.files:
                    w = f"{m['out']} remains"
                if w:
                    chk.violation("resp:" + c.label(), w, c.label())
    # a missing input, output directory, or an output that can't be created
    return n


def missing(binary, chk):
    n = 0
    for args in (["a.c", "none.c"], ["none.c"], ["-c", "none.o", "-o", "out.a"], ["-c", "m.o", "none.o", "-o", "out.a"], ["m.o", "none.o"], ["m.o", "none.a"], ["-c", "a.c", "-o", "nodir/out.o"],
                 ["a.c", "-o", "nodir/out"], ["-c", "m.o", "-o", "nodir/out.a"], ["-c", "a.c", "m.o", "-o", "nodir/out.a"], ["-S", "a.c", "-o", "nodir/out.asm"], ["-c", "none.asm"], ["none.i"], ["-c", "x.asm", "none.o", "-o", "out.a"],
                 ["a.c", "bad.txt"], ["-c", "a.c", "x.asm", "bad.txt", "-o", "out.a"], ["a.c", "-o", "out.x", "bad"], ["a.c", "x.asm", "b.c", "bad.cc", "-o", "out.x"]):
        f = {**{k: SRC[k] for k in ("a.c", "b.c", "x.asm", "m.o")}, **SYS, "bad.txt": "B", "bad": "B", "bad.cc": "B", "out.x": "STALE", "out.a": "STALE", "a.out": "STALE"}
        c = Case(args, {}, f)
        o = drvmodel.parse(vlib.forkrun(binary, [drvmodel.job(c, 0)], env=drvmodel.ENV)[0])
        n += 1
        w = None
        out = args[args.index("-o") + 1] if "-o" in args else None if "-c" in args or "-S" in args else "a.out"
        if o.broken:
            w = "memory error: " + o.text[-200:].decode("latin-1")
        elif not o.rc:
            w = "exit status 0"
        elif out in o.files:
            w = f"the output {out} remains"
        else:
            for k, v in f.items():
                if k not in ("out.x", "out.a", "a.out") and o.files.get(k) != drvmodel.expand(v):
                    w = f"{k} altered or removed"
            for t in ("a.i", "a.asm", "x.o", "none.i", "none.asm", "b.i", "b.asm") + (("a.o", "b.o") if "-c" not in args or "out.a" in args or "nodir/out.a" in args else ()):
                if t in o.files and not (t == "x.o" and "-c" in args and "-o" not in args):
                    w = f"intermediate file {t} remains"
        if w:
            chk.violation("missing:" + c.label(), w, c.label() + "\n" + repr(o.cmds))
    return n


def conformance(chk):
    """The real tools, with a wrapper that fails at each step, through the real sh."""
    tc = vlib.Toolchain(libs=("lcl",))
    n = 0
    wb = vlib.scratch("wrapbin")
    for t in ("smlrpp", "smlrc", "nasm", "smlrl"):
        real = tc.bin + "/" + t if t != "nasm" else "$(PATH=/usr/local/bin:/usr/bin:/bin; command -v nasm)"
        open(f"{wb}/{t}", "w").write('#!/bin/sh\nn=$(cat "$FKN"); n=$((n+1)); echo $n >"$FKN"\nif [ $n = "$FKAT" ]; then case $FKMODE in 1) exit 3;; 2) %s "$@" >/dev/null; exit 1;; 3) %s "$@" >/dev/null; kill -9 $$;; esac; fi\nexec %s "$@"\n' % (real, real, real))
        os.chmod(f"{wb}/{t}", 0o755)
    main = "int printf(char*,...);int f(int);int main(void){printf(\"%d\\n\",f(41));return 0;}\n"
    for args, temps in ((["m.c", "f.c", "-o", "prog"], ["m.i", "m.asm", "m.o", "f.i", "f.asm", "f.o"]), (["-c", "m.c", "f.c", "-o", "lib.a"], ["m.i", "m.asm", "m.o", "f.i", "f.asm", "f.o"]), (["-c", "f.c", "-o", "ff.o"], ["f.i", "f.asm"])):
        out = args[-1]
        for at in range(0, 9):
            for mode in (1, 2, 3):
                w = vlib.scratch("real")
                open(w + "/m.c", "w").write(main)
                open(w + "/f.c", "w").write("int f(int x){return x+1;}\n")
                open(w + "/" + out, "w").write("stale")
                cnt = vlib.scratch() + "/cnt"
                open(cnt, "w").write("0\n")
                env = {**tc.env, "PATH": wb + ":" + tc.env["PATH"], "FKN": cnt, "FKAT": str(at), "FKMODE": str(mode)}
                r = vlib.run([tc.bin + "/smlrcc", "-SI", tc.inc, "-SL", tc.lib, *args], cwd=w, env=env)
                n += 1
                total = int(open(cnt).read())
                left = sorted(os.listdir(w))
                if at == 0 or at > total:
                    want = sorted(["m.c", "f.c", out])
                    if r.rc or left != want:
                        chk.violation(f"real:{args}:ok", f"status {r.rc}, files {left}: {r.out[-300:]!r}", "")
                    elif out == "prog" and vlib.run([w + "/prog"]).out != b"42\n":
                        chk.violation("real:prog", "the program doesn't print 42", "")
                elif not r.rc or left != ["f.c", "m.c"] or total != at:
                    chk.violation(f"real:{args}:{at}:{mode}", f"step {at} fails: status {r.rc}, {total} steps ran, files left {left}", r.out.decode("latin-1"))
                vlib.shutil.rmtree(w)
                if mode == 1 and (at == 0 or at > total):
                    break
    return n


def body(chk):
    binary, plain = vlib.pmap(drvmodel.build, (True, False))
    items = []
    for q, (a, i, st) in enumerate(bases(chk.thorough)):
        items.append((a, i, st, chk.thorough or "ar" == st or q % 7 == 0))
    total = cmds = 0
    rcs = set()
    items.sort(key=lambda x: not x[3])
    chunk = 8
    for bad, n, k, r in vlib.ppmap(part, [(binary if chk.thorough or any(x[3] for x in items[q:q + chunk]) else plain, items[q:q + chunk], q * 2000) for q in range(0, len(items), chunk)]):
        total += n
        cmds += k
        rcs |= r
        for l, w in bad:
            chk.violation(("fault:" + l)[:300], w, l)
    chk.log("command lines", len(items), "runs", total)
    nr = responses(binary, chk)
    nm = missing(binary, chk)
    nc = conformance(chk)
    chk.samples += [" ".join(x[0]) for x in items[::max(1, len(items) // 5)]][:5]
    chk.assumptions += ["outputs completed earlier in a command with several outputs (-c or -S with several inputs), and the default-named object of an assembler that failed leaving one under -c, are not judged",
                        "a tool that fails with status 0 isn't counted as failing", "a seek that fails while the size of a response file is determined is not judged (the portable size search relies on failing seeks)",
                        "HOST_LINUX build of the driver; removal of files is assumed to succeed"]
    chk.finish(states=total + nr + nm, transitions=cmds, evaluations=total + nr + nm, traces_validated_against_impl=total + nr + nm, command_lines=len(items), distinct_outcomes=len(rcs),
               unreadable_inputs=nr + nm, conformance_runs_with_real_tools=nc, rule="every step of every command line failing in each of 5 modes with fresh, stale-output and stale-intermediate directories; every own library call failing once")


if __name__ == "__main__":
    vlib.main("C24", "model_checking", body)
