"""C04: constant expressions."""
import sys, os, itertools, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, families as F, elfio


def constexprs(m, th):
    """Every constant expression of the families, as nodes (scalars)."""
    K = F.consts(m)
    b = m.ibits
    for k in range(b - 1):
        K.append(C.lit(m, (1 << k) + 1))
    seen = set()
    K = [k for k in K if not (k.x in seen or seen.add(k.x))]
    small = [C.lit(m, v) for v in (0, 1, -1, 5, -(1 << (b - 1)))] + [C.lit(m, 3, "u"), C.lit(m, (1 << b) - 2, "u")]
    if th:
        small += [C.lit(m, v) for v in ((1 << (b - 1)) - 1, 200, -129)]
    ops = C.BINOPS[:-1]
    un = [lambda e, o=o: C.unop(m, o, e) for o in C.UNOPS] + [lambda e, t=t: C.cast(m, t, e) for t in C.TYPES]
    for k in K:
        yield k
    for op in ops:
        for l in K:
            for r in K:
                yield C.binop(m, op, l, r)
    for k in K:
        for u in un:
            e = u(k)
            yield e
            for u2 in un:
                e2 = u2(e)
                yield e2
                if th:
                    for u3 in un:
                        yield u3(e2)
    o2 = ops if th else [o for o in ops if o not in ("<=", ">=", "!=")]
    for a, c in itertools.product(o2, o2):
        for x, y, z in itertools.product(small, small, small):
            yield C.binop(m, c, C.binop(m, a, x, y), z)
            yield C.binop(m, c, x, C.binop(m, a, y, z))
    for op in ops:
        for x, y in itertools.product(small, small):
            for u in un:
                yield u(C.binop(m, op, x, y))
                yield C.binop(m, op, u(x), y)
                yield C.binop(m, op, x, u(y))
            yield C.cond(m, C.binop(m, op, x, y), x, y)
    for x, y, z in itertools.product(small, K, small):
        yield C.cond(m, x, y, z)
        yield C.cond(m, x, z, y)
    # without redundant parentheses: precedence and associativity
    for ops3 in itertools.product(ops, repeat=2):
        for x, y, z in itertools.product([C.lit(m, 7), C.lit(m, 2), C.lit(m, 0)], [C.lit(m, 3), C.lit(m, 12)], [C.lit(m, 1), C.lit(m, 5)]):
            yield parse(m, [x, ops3[0], y, ops3[1], z])
            yield parse(m, [x, ops3[0], y, ops3[1], z], un="-")
    for ops4 in itertools.product(["+", "*", "<<", "<", "==", "&", "^", "|", "&&", "||", "-", "%"], repeat=3):
        yield parse(m, [C.lit(m, 6), ops4[0], C.lit(m, 3), ops4[1], C.lit(m, 2), ops4[2], C.lit(m, 1)])


PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}


def parse(m, toks, un=None):
    """Evaluates a flat operator sequence by C's precedence; un: a unary operator before the second operand."""
    ops = []
    vals = []
    def red():
        o = ops.pop()
        r = vals.pop()
        l = vals.pop()
        vals.append(C.binop(m, o, l, r))
    txt = []
    for i, t in enumerate(toks):
        if isinstance(t, str):
            while ops and PREC[ops[-1]] >= PREC[t]:
                red()
            ops.append(t)
            txt.append(" " + t + " ")
        else:
            if un and i == 2:
                txt.append(un + " ")
                vals.append(C.unop(m, un, t))
            else:
                vals.append(t)
            txt.append(t.x)
    while ops:
        red()
    e = vals[0]
    return C.N("(" + "".join(txt) + ")", e.t, e.v, e.ok, e.trap, e.needs, True)


BACKENDS = {
    "seg32": (32, ["smlrc", "-seg32"]), "seg16": (16, ["smlrc", "-seg16"]), "huge": (32, ["smlrc", "-huge"]), "unreal": (32, ["smlrc", "-unreal"]),
    "mips": (32, ["smlrcmips"]),
}


def assemble(tc, be, d, src, name="t"):
    """Object of a C source, or the failed result."""
    with open(f"{d}/{name}.c", "w") as f:
        f.write(src)
    r = tc.run([*BACKENDS[be][1], "-nopp", f"{name}.c", f"{name}.asm"], cwd=d)
    if r.rc:
        return None, r
    if be == "mips":
        r = tc.run(["mipsel-linux-gnu-gcc", "-mno-abicalls", "-march=mips32r2", "-x", "assembler", "-c", f"{name}.asm", "-o", f"{name}.o"], cwd=d)
    else:
        r = tc.run(["nasm", "-f", "elf", f"{name}.asm", "-o", f"{name}.o"], cwd=d)
    if r.rc:
        return None, r
    return elfio.Obj(open(f"{d}/{name}.o", "rb").read()), r


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "smlrcmips"), libs=("lcl",))
    th = chk.thorough
    total = defined = 0
    fams = {}
    samples = []

    def table_job(job):
        be, nodes, form = job
        m = C.Model(BACKENDS[be][0])
        d = vlib.scratch(f"c{id(nodes):x}{form}{be}")
        I = m.ibits // 8
        n = len(nodes)
        per = 2
        xs = [e.x for e in nodes]
        if form == "init":
            src = "int T[]={" + ",\n".join(f"{x},({x}*0-1<0)*16+(int)sizeof({x})" for x in xs) + "};\n"
        elif form == "enum":
            src = "enum{" + ",\n".join(f"e{i}=(int){x}" for i, x in enumerate(xs)) + "};\nint T[]={" + ",".join(f"e{i},{i}" for i in range(n)) + "};\n"
        elif form == "bound":
            src = "\n".join(f"extern char a{i}[({x}&15)+1];" for i, x in enumerate(xs)) + "\nint T[]={" + ",".join(f"sizeof a{i},{i}" for i in range(n)) + "};\n"
        elif form == "static":
            src = "int T[1];\nint*f(int k){" + "".join(f"static int s{i}={x};" for i, x in enumerate(xs)) + "return &s0;}\n"
            src = "int*g(int k){static int T[]={" + ",\n".join(f"{x},{i}" for i, x in enumerate(xs)) + "};return T+k;}\nint TT=1;"
        o, r = assemble(tc, be, d, src)
        res = []
        if o is not None:
            if form == "static":
                sec = o.find(".data")
                raw = o.content(sec)
            else:
                try:
                    raw = o.symdata("T" if be == "mips" else "_T", 2 * n * I)
                except KeyError:
                    raw = b""
            if len(raw) < 2 * n * I:
                res = None
            else:
                got = np.frombuffer(raw[:2 * n * I], "<i4" if I == 4 else "<i2").astype(np.int64).reshape(n, 2)
                for i, e in enumerate(nodes):
                    if form == "init":
                        exp = (int(m.wrap(e.v, "i")), (16 if m.promote(e.t) == "i" else 0) + m.T[e.t][0] // 8)
                    elif form == "bound":
                        exp = ((int(e.v) & 15) + 1, i)
                    else:
                        exp = (int(m.wrap(e.v, "i")), i)
                    if tuple(got[i]) != exp:
                        res.append((i, exp, tuple(int(x) for x in got[i])))
        else:
            res = None
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return res, r, src

    def handle(job, depth=0):
        be, nodes, form = job
        if len(chk.violations) > 30:
            return
        res, r, src = table_job(job)
        if res == []:
            return
        if len(nodes) == 1:
            e = nodes[0]
            if res is None:
                chk.violation(f"{form}:{be}:{e.x}", f"{be}: constant expression {e.x} in {form} position is not accepted: {r!r}", src)
            else:
                chk.violation(f"{form}:{be}:{e.x}", f"{be}: constant expression {e.x} in {form} position: expected (value, 16 if signed + size / index) {res[0][1]}, got {res[0][2]}", src)
            return
        if res is None:
            h = len(nodes) // 2
            handle((be, nodes[:h], form))
            handle((be, nodes[h:], form))
        else:
            for i, e, g in res[:20]:
                handle((be, [nodes[i]], form))

    def ok(e):
        return bool(np.all(e.ok)) and not bool(np.any(e.trap))
    cache = {}
    for be in BACKENDS:
        m = C.Model(BACKENDS[be][0])
        cur = []
        jobs = []
        forms = ["init"] + (["enum", "bound", "static"] if be in ("seg32", "seg16") else [])
        if m.ibits not in cache:
            nodes = cache[m.ibits] = []
            for e in constexprs(m, th):
                total += 1
                if ok(e):
                    nodes.append(e)
        nodes = cache[m.ibits]
        if not th and be in ("huge", "unreal"):
            nodes = nodes[:6000]
        for form in forms:
            ns = nodes if form == "init" or th else [e for i, e in enumerate(nodes) if i < 9000 or form == "enum"]
            if form == "static":
                ns = ns[:12000] if not th else ns
            step = 100 if form == "bound" else 200 if form == "enum" else 1000
            for i in range(0, len(ns), step):
                jobs.append((be, ns[i:i + step], form))
            fams[be + "/" + form] = len(ns)
            defined += len(ns)
        samples.append(f"{be}: int T[]={{{nodes[1234 % len(nodes)].x}}} -> {int(nodes[1234 % len(nodes)].v)}")
        vlib.pmap(handle, jobs)
        chk.log(be, {k: v for k, v in fams.items() if k.startswith(be)})
    # case labels: executed; each label must catch exactly its value
    m = C.Model(32)
    m16 = C.Model(16)
    caseexp = cache[32][:8000] if not th else cache[32][::3]

    def case_job(nodes):
        d = vlib.scratch(f"k{id(nodes):x}")
        src = "int write(int,void*,unsigned);\n"
        for i, e in enumerate(nodes):
            src += f"int F{i}(int v){{switch(v){{case {e.x}:return 1;}}return 0;}}\n"
        src += "int (*ft[])(int)={" + ",".join(f"F{i}" for i in range(len(nodes))) + "};\nint V[]={" + ",".join(C.lit(m, int(m.wrap(e.v, "i")), "i").x for e in nodes) + "};\n"
        src += "char o[3];int main(void){int i;for(i=0;i<%d;i++){o[0]='0'+ft[i](V[i]);o[1]='0'+ft[i](V[i]+1);o[2]='0'+ft[i](V[i]^0x10000);write(1,o,3);}return 0;}\n" % len(nodes)
        open(d + "/t.c", "w").write(src)
        r = tc.cc(["-nopp", "-linux", "t.c", "-o", "t"], cwd=d)
        if r.rc == 0:
            r = tc.run([d + "/t"], cwd=d)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return r.rc == 0 and r.out == b"100" * len(nodes), r, src

    def case_handle(nodes):
        good, r, src = case_job(nodes)
        if good or len(chk.violations) > 30:
            return
        if len(nodes) == 1:
            chk.violation("case:" + nodes[0].x, f"case {nodes[0].x} does not catch exactly {int(m.wrap(nodes[0].v, 'i'))}: {r!r}", src)
            return
        h = len(nodes) // 2
        case_handle(nodes[:h])
        case_handle(nodes[h:])
    vlib.pmap(case_handle, [caseexp[i:i + 150] for i in range(0, len(caseexp), 150)])
    fams["linux/case"] = len(caseexp)
    defined += len(caseexp)
    # division by a constant zero is rejected
    bad = 0
    divs = []
    for x in ("1", "0", "(-1)", "7u", "(1?2:3)", "((char)1)"):
        for z in ("0", "0u", "(1-1)", "(char)256", "(2<1)", "(0&1)", "-0", "'\\0'", "(short)65536", "!5"):
            for op in "/%":
                divs += [f"int a={x}{op}{z};", f"enum{{e={x}{op}{z}}};", f"char a[5+{x}{op}{z}];", f"int f(int v){{switch(v){{case {x}{op}{z}:return 1;}}return 0;}}",
                         f"int f(void){{static int q={x}{op}{z};return q;}}"]
    def div_job(s):
        d = vlib.scratch(f"z{abs(hash(s)):x}")
        open(d + "/t.c", "w").write(s + "\n")
        r = tc.run(["smlrc", "-seg32", "-nopp", "t.c", "t.asm"], cwd=d)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        if r.rc <= 0 or r.timeout:
            r2 = None
            chk.violation("div0:" + s.replace(" ", ""), f"a division by zero is not rejected: {s}: {r!r}", s)
        return 1
    bad = sum(vlib.pmap(div_job, divs))
    fams["div0"] = bad
    chk.assumptions += ["constant expressions with undefined results (shift counts out of range, INT_MIN/-1) are not judged"]
    chk.finish(evaluations=defined + bad, distinct_nontrivial=sum(len(c) for c in cache.values()) + bad,
               rule="every constant expression of the families (48+ boundary constants squared x operators, unary/cast chains, depth-2 trees, unparenthesised operator sequences) in each constant context and back end; non-trivial = defined by C",
               families=fams, exhaustive=True, samples=samples)


if __name__ == "__main__":
    vlib.main("C04", "exploration", body)
