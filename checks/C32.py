"""C32: the heap, over all sequences of malloc/calloc/realloc/free to a depth."""
import sys, os, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

OPS = ["malloc(1)", "malloc(16)", "malloc(17)", "malloc(48)", "malloc(200)", "calloc(3,7)", "realloc(0,20)", "impossible requests",
       *[f"free(slot {i})" for i in range(3)], *[f"realloc(slot {i},{s})" for i in range(3) for s in (1, 16, 60, 200, "huge")]]
NFIRST = 8     # operations that are possible on an empty heap


def name(seq):
    return "; ".join(OPS[ord(c) - 65] if 0 <= ord(c) - 65 < len(OPS) else "?" for c in seq)


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=("lcl", "lcds", "lcdh", "lcdu"))
    d = vlib.scratch("heap")
    shutil.copy(vlib.VERIF + "/harness/heap.c", d)
    tc.compile(["-linux", d + "/heap.c", "-o", d + "/hr"], cwd=d)
    tc.compile(["-linux", "-DFORK", d + "/heap.c", "-o", d + "/hf"], cwd=d)
    full = chk.thorough
    cover = {}
    def judge(lab, out, rc=0):
        m = re.search(r"T (\d+) (\d+) (\d+)\s*$", out)
        if rc or not m:
            chk.violation(f"{lab}:died", f"{lab}: the heap exploration died (exit {rc}): {out[-300:]}", "harness/heap.c")
        for l in out.splitlines():
            v = re.match(r"V (\S*): (.*)", l)
            if v:
                chk.violation(f"{lab}:{v[1]}:{v[2]}", f"{lab}: {v[2]} after: {name(v[1]) or 'exhausting the heap'}", "harness/heap.c; operations: " + v[1])
        if m:
            cover[lab] = cover.get(lab, 0) + int(m[1])
        return out
    def linux(a):
        lab, argv = a
        r = vlib.run(argv, timeout=2000 if full else 300)
        judge(lab, r.out.decode("latin-1"), r.rc)
    jobs = [("linux, growing heap", [d + "/hf", str(4 + full), str(i), "0"]) for i in range(NFIRST)]
    jobs += [("linux, memory limit %d" % l, [d + "/hf", "3", str(i), str(l)]) for l in (0x60, 0x100, 0x240) for i in range(NFIRST)]
    jobs += [("linux, grown heap", [d + "/hr", str(5 + full), str(i)]) for i in range(NFIRST)]
    def dos(a):
        m, ext = a
        w = vlib.scratch(m)
        shutil.copy(vlib.VERIF + "/harness/heap.c", w)
        tc.compile(["-" + m, w + "/heap.c", "-o", w + "/H." + ext], cwd=w)
        r = vlib.dosbox(tc, w, [f"H {4 + full}"], timeout=2000 if full else 300)
        try:
            out = open(w + "/OUT.TXT", encoding="latin-1").read()
        except OSError:
            out = ""
        judge(m, out)
        chk.samples.append(f"{m}: " + " ".join(out.split()))
    vlib.pmap(lambda j: j(), [lambda a=a: linux(a) for a in jobs] + [lambda a=a: dos(a) for a in (("dost", "COM"), ("doss", "EXE"), ("dosh", "EXE"), ("dosu", "EXE"))])
    n = sum(cover.values())
    for q in ("AHA", "DDIVN", "EEJ"):
        chk.samples.append(name(q))
    chk.finish(states=n, transitions=n, traces_validated_against_impl=n, per_configuration=cover,
               rule="every sequence of 8 allocation requests (one the impossible sizes), 3 frees, 15 reallocs over 3 live blocks; Linux with a fresh growing heap (each step in a forked process), with a data limit, and replayed on a grown heap; DOS tiny/small/huge/unreal. After each step: alignment, disjointness, bounds, contents of every live block; at the end everything freed and reusable, a repeated pattern does not grow the heap", exhaustive=True)


if __name__ == "__main__":
    vlib.main("C32", "model_checking", body)
