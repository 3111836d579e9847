"""C05: assignment, compound assignment, increment and decrement."""
import sys, os, itertools, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, families as F, exprrun as R

CN = C.CNAME
DECL = "".join(f"{CN[t]} gp{t},gv{t},gq{t},ga{t}[3];struct R{t}{{{CN[t]} a,v,b;}} gs{t};{CN[t]}*xp{t}(void){{extern int cnt;++cnt;return ga{t}+1;}}{CN[t]} id{t}({CN[t]} v){{return v;}}\n" for t in C.TYPES) + \
    "int cnt;int ix(void){++cnt;return 1;}int mix(int r,int n,int p,int q,int c){return r*31+n*1009+p*12011+q*3277+c*7;}\n"

OPS = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
INC = ["++v", "--v", "v++", "v--"]
LVS = "GLDEeMNnSXIAP"


def lvalue(k, t):
    """(set-up with pre, value, post = pv, x, qv; lvalue text; new value text; pre text; post text; count expected; tail)"""
    T = CN[t]
    if k == "G":
        return f"gp{t}=pv;gv{t}=x;gq{t}=qv;", f"gv{t}", f"gv{t}", f"gp{t}", f"gq{t}", 0
    if k == "L":
        return f"{T} lp=pv;{T} lv=x;{T} lq=qv;", "lv", "lv", "lp", "lq", 0
    arr = f"ga{t}[0]=pv;ga{t}[1]=x;ga{t}[2]=qv;"
    a3 = (f"ga{t}[1]", f"ga{t}[0]", f"ga{t}[2]")
    if k == "D":
        return f"{T}*p=ga{t}+1;" + arr, "*p", *a3, 0
    if k == "E":
        return f"int i=1;" + arr, f"ga{t}[i]", *a3, 0
    if k == "e":
        return arr, f"ga{t}[ix()]", *a3, 1
    if k == "A":
        return f"{T} la[3];la[0]=pv;la[1]=x;la[2]=qv;", "la[1]", "la[1]", "la[0]", "la[2]", 0
    st = f"gs{t}.a=pv;gs{t}.v=x;gs{t}.b=qv;"
    s3 = (f"gs{t}.v", f"gs{t}.a", f"gs{t}.b")
    if k == "M":
        return f"struct R{t}*p=&gs{t};" + st, "p->v", *s3, 0
    if k == "N":
        return st, f"gs{t}.v", *s3, 0
    if k == "n":
        return f"struct R{t} s;s.a=pv;s.v=x;s.b=qv;", "s.v", "s.v", "s.a", "s.b", 0
    if k == "S":
        return f"static {T} sp,sv,sq;sp=pv;sv=x;sq=qv;", "sv", "sv", "sp", "sq", 0
    if k == "X":
        return arr, f"*xp{t}()", *a3, 1
    if k == "I":
        return f"{T}*p=ga{t}+1;" + arr, "*p++", *a3, None   # count: how far p moved
    raise KeyError(k)


class Fn:
    def __init__(self, body, v, ok, trap, key, T):
        self.body, self.v, self.ok, self.trap, self.key = body, np.broadcast_to(v, (T,)), ok, trap, key


def build(m, grid, k, t, op, rhs, use):
    """One function. rhs: node with .pre (declarations)."""
    x, y, z = grid
    T = len(x)
    lv0 = C.N("lv", t, m.wrap(x, t))
    pvv, qvv = 0x5a, -0x5b
    if op in INC:
        d = C.lit(m, 1)
        new = C.binop(m, "+" if "+" in op else "-", lv0, d)
        rpre = ""
    else:
        rpre = rhs.pre
        new = C.N("", rhs.t, rhs.v, rhs.ok, rhs.trap) if op == "=" else C.binop(m, op[:-1], lv0, rhs)
    nv = m.wrap(new.v, t)
    res = m.wrap(x, t) if op in ("v++", "v--") else nv
    setup, lv, now, pre, post, cnt = lvalue(k, t) if k != "P" else ("", "pp", "pp", "0x5a", "(-0x5b)", 0)
    if op in INC:
        L = f"({lv})" if lv[0] == "*" else lv
        e = op.replace("v", L)
    else:
        e = f"{lv} {op} {rhs.x}"
    moved = "(int)(p-ga%s)-1" % t if cnt is None else "cnt"
    c = 1 if cnt is None else cnt
    W = lambda v: m.wrap(v, "i")
    pw, qw = (W(m.wrap(np.int64(pvv), t)), W(m.wrap(np.int64(qvv), t))) if k != "P" else (pvv, qvv)
    if use == "val":
        core = f"r={e};"
        r = W(res)
    elif use == "drop":
        core = f"{e};"
        r = 0
    elif use == "cond":
        core = f"if({e})r=3;else r=4;"
        r = np.where(res != 0, 3, 4)
    elif use == "arg":
        core = f"r=id{t}({e});"
        r = W(res)
    elif use == "sum":
        core = f"r=z-({e});"
        rr = C.binop(m, "-", C.N("z", "i", m.wrap(z, "i")), C.N("", t, res))
        r = W(rr.v)
    elif use == "sum2":
        core = f"r=({e})*z;"
        rr = C.binop(m, "*", C.N("", t, res), C.N("z", "i", m.wrap(z, "i")))
        r = W(rr.v)
    elif use == "chain":
        core = f"r=gvi={e};"
        r = W(res)
    elif use == "chainc":
        core = f"r=gvc={e};"
        r = W(m.wrap(res, "c"))
    elif use == "not":
        core = f"r=!({e});"
        r = (np.asarray(res) == 0).astype(np.int64)
    elif use == "lt":
        core = f"if(({e})<z)r=3;else r=4;"
        rr = C.binop(m, "<", C.N("", t, res), C.N("z", "i", m.wrap(z, "i")))
        r = np.where(np.asarray(rr.v) != 0, 3, 4)
    mixed = m.wrap(np.asarray(r) * 31 + W(nv) * 1009 + pw * 12011 + qw * 3277 + c * 7, "i")
    if k == "P":
        body = f"int r=0;{rpre}cnt=0;{core}return mix(r,pp,0x5a,-0x5b,cnt);"
        # a parameter of the type itself: the object lives in the argument area
        return ("P", t, body, mixed, new, f"{k}{t} {e} {use}")
    body = f"int r=0,pv=0x5a,qv=-0x5b;{rpre}{'' if k in 'GNXe' else ''}" + setup + f"cnt=0;{core}return mix(r,{now},{pre},{post},{moved});"
    # declarations come before statements in each set-up
    return ("F", t, body, mixed, new, f"{k}{t} {e} {use}")


def family(m, grid, lvs, types, rtypes, rkinds, consts, uses, ops=OPS):
    x, y, z = grid
    T = len(x)
    for k in lvs:
        for t in types:
            for use in uses:
                for op in INC:
                    yield build(m, grid, k, t, op, None, use)
                rs = []
                for t2 in rtypes:
                    for rk in rkinds:
                        if rk == "P":
                            if t2 != "i":
                                continue
                            n = C.N("y", "i", m.wrap(y, "i")); n_pre = ""
                        elif rk == "L":
                            n = C.N("ly", t2, m.wrap(y, t2)); n_pre = f"{CN[t2]} ly=y;"
                        elif rk == "G":
                            n = C.N(f"gy{t2}", t2, m.wrap(y, t2)); n_pre = ""
                        elif rk == "D":
                            n = C.N(f"(*py{t2})", t2, m.wrap(y, t2)); n_pre = ""
                        elif rk == "F":
                            n = C.N(f"fy{t2}()", t2, m.wrap(y, t2)); n_pre = ""
                        elif rk == "X":
                            n = C.binop(m, "+", C.N(f"gy{t2}", t2, m.wrap(y, t2)), C.N("1", "i", np.int64(1))); n_pre = ""
                        rs.append(RN(n, n_pre))
                rs += [RN(c, "") for c in consts]
                for r in rs:
                    for op in ops:
                        if op in ("/=", "%=") and r.const and r.v == 0:
                            continue
                        yield build(m, grid, k, t, op, r, use)


class RN(C.N):
    __slots__ = ("pre",)

    def __init__(self, n, pre):
        C.N.__init__(self, n.x, n.t, n.v, n.ok, n.trap, n.needs, n.const)
        self.pre = pre


class PBatch(R.Batch):
    """Functions on parameters of the type get helper functions in front."""

    def source(self, main):
        helpers = "".join(f.helper.replace("@", f"H{i}") for i, f in enumerate(self.funcs) if f.helper)
        for i, f in enumerate(self.funcs):
            if f.helper:
                f.body = f.call.replace("@", f"H{i}")
        s = C.program(self.m, self.grid, self.funcs, main)
        skip = C.skipmap(self.funcs, len(self.grid[0]))
        h = C.header(self.m)
        s = s.replace(h, h + self.decls + helpers, 1)
        return s.replace("SKIP", "1" if skip is not None else "0"), (b"" if skip is None else skip.tobytes())


def pbatches(m, grid, gen, size):
    it = iter(gen)
    T = len(grid[0])
    while True:
        fs = []
        for kind, t, body, v, new, key in itertools.islice(it, size):
            ok = True if new.ok is True else np.broadcast_to(new.ok, (T,))
            trap = False if new.trap is False else np.broadcast_to(new.trap, (T,))
            f = Fn(body, v, ok, trap, key, T)
            f.helper = None
            if kind == "P":
                f.helper = f"int @(int z,{CN[t]} pp,int y){{{body}}}\n"
                f.call = f"return @(z,x,y);"
                f.body = body
            fs.append(f)
        if not fs:
            return
        yield PBatch(m, grid, fs, DECL)


def structs(m, grid, sizes):
    """Structure assignment: every size, every pair of designators; neighbours keep their value."""
    x, y, z = grid
    T = len(x)
    out = []
    for n in sizes:
        sname = f"struct Z{n}"
        decl = f"{sname}{{char c[{n}];}};"
        body0 = f"{sname}{{char c[{n}];}};struct{{char g0;{sname} s;char g1;}} a,b,c;static struct{{char g0;{sname} s;char g1;}} S;{sname}*p=&b.s,*q=&S.s;int i,h=0;" \
            f"for(i=0;i<{n};i++){{a.s.c[i]=x+i*3;b.s.c[i]=y-i;c.s.c[i]=i;S.s.c[i]=7;}}a.g0=b.g0=c.g0=S.g0=11;a.g1=b.g1=c.g1=S.g1=13;cnt=0;"
        fin = "".join(f"for(i=0;i<{n};i++)h=h*5+{v}.s.c[i];h=h*3+{v}.g0+2*{v}.g1;" for v in "abcS") + "return h+cnt;"
        A = [m.wrap(x + i * 3, "c") for i in range(n)]
        B = [m.wrap(y - i, "c") for i in range(n)]
        Cc = [np.full(T, i if i < 128 else i - 256) for i in range(n)]
        S = [np.full(T, 7)] * n
        def mk(stmt, a, b, c, s, cnt=0, extra=0):
            h = np.zeros(T, np.int64)
            for v in (a, b, c, s):
                for i in range(n):
                    h = m.wrap(h * 5 + v[i], "i")
                h = m.wrap(h * 3 + 11 + 26, "i")
            out.append(Fn(body0 + stmt + fin, m.wrap(h + cnt, "i"), True, False, f"struct{n} {stmt}", T))
            out[-1].helper = None
        mk("a.s=b.s;", B, B, Cc, S)
        mk("*p=a.s;", A, A, Cc, S)
        mk("a.s=*p;", B, B, Cc, S)
        mk("S.s=*p;", A, B, Cc, B)
        mk("*q=c.s;", A, B, Cc, Cc)
        mk("*p=*q;", A, S, Cc, S)
        mk("a.s=b.s=c.s;", Cc, Cc, Cc, S)
        mk("a.s=*p=*q;", S, S, Cc, S)
        mk("*(cnt++,p)=a.s;", A, A, Cc, S, 1)
        mk("a.s=a.s;", A, B, Cc, S)
        mk("if(z)a.s=b.s;else b.s=c.s;", [np.where(z != 0, u, v) for u, v in zip(B, A)], [np.where(z != 0, u, v) for u, v in zip(B, Cc)], Cc, S)
        mk("{" + f"{sname} l;l=a.s;a.s=b.s;b.s=l;" + "}", B, A, Cc, S)
        mk("{" + f"{sname} l[3];l[0]=b.s;l[2]=c.s;l[1]=a.s;*p=l[1];a.s=l[2];c.s=l[0];" + "}", Cc, A, B, S)
    return out


def big(model, sizes, pairs, stack):
    """Structures of many sizes at many offsets: assigned, passed and returned whole; nothing around the copy changes."""
    pre = f"char sa[AR];char da[AR];int rdy;void rd(void){{int i;if(rdy)return;rdy=1;for(i=0;i<AR;i++)sa[i]=i*7+i/256*5+i/16384*3;}}\n" \
          "int vf(char*d,char*s,int n,int r){int i,b=0;for(i=-4;i<0;i++)if(d[i]!=99)b++;for(i=0;i<n;i++)if(d[i]!=s[i])b++;for(;i<n+4;i++)if(d[i]!=99)b++;return b*10+r;}\n" \
          "void cl(char*d,int n){int i;for(i=-4;i<n+4;i++)d[i]=99;}\n".replace("AR", "AR")
    from snip import Snip
    for n in sizes:
        d = f"struct K@@{{char c[{n}];}};"
        body, exp = "rd();", []
        for so, do in pairs(n):
            body += f"{{struct K@@*p=(struct K@@*)(sa+{so}),*q=(struct K@@*)(da+{do});cl(da+{do},{n});*q=*p;o(vf(da+{do},sa+{so},{n},1));}}"
            exp.append(1)
            if n <= stack:
                body += f"{{struct K@@*p=(struct K@@*)(sa+{so}),*q=(struct K@@*)(da+{do});cl(da+{do},{n});g@@(3,*p,q,5);o(vf(da+{do},sa+{so},{n},2));cl(da+{do},{n});*q=h@@(p);o(vf(da+{do},sa+{so},{n},3));}}"
                exp += [2, 3]
        if n <= stack:
            d += "void g@@(int a,struct K@@ s,struct K@@*q,int b){if(a==3&&b==5)*q=s;}struct K@@ h@@(struct K@@*p){return *p;}"
        yield pre, Snip(body, exp, d, f"struct of {n} bytes")


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds", "lcdh", "lcdu"))
    st = R.Stats()
    th = chk.thorough
    def suite(be, m, lvl):
        size = 100 if be.group == 1 else 60
        V = lambda n: F.vals(m, n)
        def go(label, grid, gen, sz=size):
            R.check_batches(chk, be, pbatches(m, grid, gen, sz), st, label)
        g = C.mkgrid(V("tiny") + [200], V("tiny") + [-130], [3, 0]) if lvl >= 2 else C.mkgrid(V("tiny")[::2] + [200], [V("tiny")[i] for i in (1, 2, 3, 5)], [3])
        cs = [C.lit(m, v) for v in (0, 1, 2, -1, 5, 200, 0x7ff0)] + [C.lit(m, (1 << m.ibits) - 3, "u")]
        uses = ["val", "drop", "cond", "arg", "sum", "sum2", "chain", "chainc", "not", "lt"]
        if lvl >= 3:
            go("assign", g, family(m, g, LVS, C.TYPES, C.TYPES, "PLGDFX", cs, uses))
        elif lvl == 2:
            go("assign", g, family(m, g, LVS, C.TYPES, "iuc", "LF", cs, ["val", "drop"]))
            go("assign-use", g, family(m, g, "LDeP", "icw", "iu", "G", cs[:3], uses[2:]))
            go("assign-types", g, family(m, g, "GD", C.TYPES, C.TYPES, "PDX", [], ["val"]))
        else:
            go("assign", g, family(m, g, "GLDeMPI", C.TYPES, "ic", "F", cs[2:5], ["val"]))
            go("assign-drop", g, family(m, g, "GDS", C.TYPES, "i", "G", cs[4:6], ["drop"]))
            go("assign-use", g, family(m, g, "De", "iw", "i", "G", cs[3:4], ["cond", "sum", "chain", "lt"]))
        gs = C.mkgrid([3, -100], [9, 127], [0, 1])
        fs = structs(m, gs, range(1, 41) if th else list(range(1, 20)) + [31, 32, 33] if lvl >= 2 else [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17])
        for f in fs:
            f.body
        R.check_batches(chk, be, (PBatch(m, gs, fs[i:i + 40], DECL) for i in range(0, len(fs), 40)), st, "struct")
    import snip
    def bigs(be, m, sizes, pairs, stack, arena):
        l = list(big(m, sizes, pairs, stack))
        snip.check(chk, be, m, (x[1] for x in l), 8, st, "whole structures", l[0][0].replace("AR", str(arena)), 2000)
    offs = lambda k: lambda n: [(8 + a, 8 + b) for a in range(k) for b in range(k)]
    few = lambda n: [(16, 16), (17, 30), (31, 16), (24, 23), (15, 33), (21, 20)]
    edge = [k * 32768 + e for k in (1, 2, 3) for e in (-17, -16, -1, 0, 1, 15, 16, 17)] + [70001]
    small = list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096]
    bigs(R.LinuxBackend(tc), C.Model(32), small + edge, lambda n: offs(4)(n) if n < 5000 else few(n), 100000, 140000)
    bigs(R.MipsBackend(tc), C.Model(32), [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 31, 32, 33, 256, 32767, 32768, 65535, 65536] + (small if th else []), lambda n: offs(2)(n), 20000, 140000)
    bigs(R.DosBackend(tc, ("-doss",), "doss", False), C.Model(16), small + [9999], offs(2), 5000, 10100)
    bigs(R.DosBackend(tc, ("-dosh",), "dosh", False), C.Model(32), small[::3] + [32760], few, 5000, 33000)
    bigs(R.DosBackend(tc, ("-dosh",), "dosh", False), C.Model(32), edge if th else edge[:8:2] + edge[8:16:2] + [98304, 98321, 70001], few, 5000, 140000)
    bigs(R.DosBackend(tc, ("-dosu",), "dosu", False), C.Model(32), small[::3] + edge[::6], lambda n: few(n)[:3], 5000, 140000)
    suite(R.LinuxBackend(tc), C.Model(32), 3 if th else 2)
    suite(R.MipsBackend(tc), C.Model(32), 2 if th else 1)
    suite(R.DosBackend(tc, ("-doss",), "doss", False), C.Model(16), 2 if th else 1)
    suite(R.DosBackend(tc, ("-dosh",), "dosh", False), C.Model(32), 2 if th else 1)
    suite(R.DosBackend(tc, ("-dosu",), "dosu", False), C.Model(32), 2 if th else 1)
    chk.assumptions += ["wrap-around for signed overflow; undefined operand values are excluded", "the result (value, object, neighbours, evaluation count) is compared as one linear mix"]
    chk.finish(evaluations=st.evals, distinct_nontrivial=st.funcs,
               rule="object kind x object type x operator x right operand kind/type x use of the value: one compiled function each (distinct text), run on every tuple of a boundary-value grid, with guards around the object and a count of evaluations",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C05", "exploration", body)
