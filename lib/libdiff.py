"""Runs a harness program built with the compiler and library under test and with gcc/glibc over the same enumeration; compares
what they print (a hash per group of cases; the cases of a differing group are then printed in full and the first difference shown)."""
import os, shutil, re
import vlib

LIBS = {"-linux": "lcl", "-dosh": "lcdh", "-doss": "lcds", "-dost": "lcds", "-dosu": "lcdu"}


def build(tc, src, name, flags, defs):
    d = vlib.scratch(name)
    shutil.copy(src, d)
    for h in os.listdir(os.path.dirname(src)):
        if h.endswith(".h"):
            shutil.copy(os.path.dirname(src) + "/" + h, d)
    b = os.path.basename(src)
    g = vlib.run(["gcc", "-w", "-O1", "-fno-builtin", "-funsigned-char", "-fwrapv", *defs, d + "/" + b, "-o", d + "/ref", "-lm"], cwd=d, timeout=100)
    if g.rc:
        raise vlib.BuildError("gcc: " + repr(g))
    exe = d + ("/ours" if flags[0] == "-linux" else "/T.COM" if flags[0] == "-dost" else "/T.EXE")
    tc.compile([*flags, *defs, d + "/" + b, "-o", exe], cwd=d)
    return d, exe


def go(tc, d, exe, args, ref, timeout):
    try:
        os.remove(d + "/OUT.TXT")
    except OSError:
        pass
    if ref:
        r = vlib.run([d + "/ref", *args], cwd=d, timeout=timeout)
    elif exe.endswith((".EXE", ".COM")):
        r = vlib.dosbox(tc, d, ["T " + " ".join(args)], timeout=timeout)
    else:
        r = vlib.run([exe, *args], cwd=d, timeout=timeout)
    try:
        out = open(d + "/OUT.TXT", encoding="latin-1", newline="").read().replace("\r", "")
    except OSError:
        out = ""
    return r, out


def check(chk, harness, groups, targets, rule, timeout=600, prep=None, finish=True):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=tuple(sorted({LIBS[t[1][0]] for t in targets})))
    def one(t):
        name, flags, defs = t
        d, exe = build(tc, vlib.VERIF + "/harness/" + harness, name + str(abs(hash(tuple(defs))))[:6], flags, defs)
        if prep:
            prep(name, d)
        r0, want = go(tc, d, exe, [], True, timeout)
        r1, got = go(tc, d, exe, [], False, timeout)
        W, G = want.splitlines(), got.splitlines()
        bad = [i for i in range(len(W)) if i >= len(G) or W[i] != G[i]]
        if not W:
            raise vlib.BuildError("reference printed nothing: " + repr(r0))
        for i in bad[:6]:
            g = W[i].split()[0]
            gi = int(g) if g.isdigit() else i
            if gi < len(groups) and i < len(G):
                _, a = go(tc, d, exe, [g], True, timeout)
                _, b = go(tc, d, exe, [g], False, timeout)
                A, B = a.splitlines(), b.splitlines()
                diff = [(x, y) for x, y in zip(A, B) if x != y] or [(f"{len(A)} lines", f"{len(B)} lines")]
                seen = set()
                for x, y in diff:
                    k = x.split(" ", 1)[0]
                    if k in seen:
                        continue
                    seen.add(k)
                    if len(seen) > 4:
                        break
                    chk.violation(f"{name}:{groups[gi]}:{x}"[:160], f"{name}: {groups[gi]}: expected '{x}', got '{y}'", f"harness/{harness} {' '.join(defs)}, group {gi}")
            else:
                chk.violation(f"{name}:{i}", f"{name}: line {i}: expected '{W[i]}', got '{G[i] if i < len(G) else 'nothing (died)'}' rc={r1.rc}", f"harness/{harness} {' '.join(defs)}")
                break
        _, a = go(tc, d, exe, ["-2"], True, timeout)
        n = 0
        m = re.search(r"cases (\d+)", a)
        n = int(m[1]) if m else 0
        return name, n, len(W)
    tot, per = 0, {}
    for name, n, g in vlib.pmap(one, targets):
        tot += n
        per[name] = n
    for g in groups[:4]:
        chk.samples.append(g)
    if finish:
        chk.finish(states=tot, transitions=tot, evaluations=tot, traces_validated_against_impl=tot, per_configuration=per, rule=rule, exhaustive=True)
    return tot, per
