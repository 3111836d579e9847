"""C11: float arithmetic, comparison, conversion."""
import sys, os, itertools, warnings, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R
warnings.simplefilter("ignore")
np.seterr(all="ignore")
f32 = np.float32


def bits(v):
    return int(np.array(v, f32).view(np.uint32))


FV = [0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 3.0, -7.25, 1e10, 16777216.0, 16777215.0, 8388607.5, 2147483648.0, -2147483648.0, 2147483520.0, 4294967040.0, 1.17549435e-38, 1.4e-45, -1.4e-45, 1.1754942e-38, 3.4028235e38, -3.4028235e38,
      float("inf"), float("-inf"), float("nan"), 0.5, -0.5, 1e-30, 255.9, -128.9, 127.5, 65535.5, 32767.9, -32768.5, 1 / 3., 2.0, 1e20]
FS = [0.0, -0.0, 1.0, -2.5, 0.1, 16777216.0, 2147483520.0, 1.4e-45, 3.4028235e38, float("inf"), float("-inf"), float("nan"), 100.7, -0.75]
IV = [0, 1, -1, 7, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 16777215, 16777216, 16777217, 16777219, 33554431, 33554433, -16777217, 2147483647, 2147483646, 2147483583, 2147483584, -2147483648, -2147483647, -2147483520, 1000000007, 0x7fffff80, 0x40000040]


class Q:
    """expression: text, type ('f', 'i' or 'u'), value array, ok mask; pre: statements it needs"""
    __slots__ = ("x", "t", "v", "ok")

    def __init__(self, x, t, v, ok):
        self.x, self.t, self.v, self.ok = x, t, v, ok


DECL = "float gfa,gfb,gar[3],*gpf;struct gst{char c;float m;};struct gst gst,*gsp;float ff(float x){return x;}float fi(int x){return x;}int gfi(float x){return x;}\n"
PRO = "float a=*(float*)&x,b=*(float*)&y;int i=z;unsigned u=z;char c=z;unsigned char d=z;short s=z;unsigned short w=z;struct gst st;gfa=a;gfb=b;gar[1]=a;gpf=&gfb;gst.m=b;gsp=&gst;st.m=a;"


def canon(v):
    """float array -> int32 bit patterns with one NaN"""
    b = np.asarray(v, f32).view(np.uint32).astype(np.int64)
    b = np.where((b & 0x7fffffff) > 0x7f800000, 0x7fc00000, b)
    return np.where(b >= 1 << 31, b - (1 << 32), b)


def w32(v):
    v = np.asarray(v, np.int64) & 0xffffffff
    return np.where(v >= 1 << 31, v - (1 << 32), v)


class Fn:
    def __init__(self, q, how="ret"):
        x = q.x
        if q.t == "f":
            if how == "ret":
                t = f"float r={x};"
            elif how == "assign":
                t = f"float r;r={x};"
            elif how == "arg":
                t = f"float r=ff({x});"
            elif how == "glob":
                t = f"float r;gfa={x};r=gfa;"
            elif how == "elem":
                t = f"float r;gar[i&1]=5;gar[2]={x};r=gar[2];"
            elif how == "deref":
                t = f"float r,*p=&r;*p={x};"
            elif how == "toint":   # only for values in range
                t = None
            body = PRO + t + "{int q=*(int*)&r;if((q&0x7fffffff)>0x7f800000)q=0x7fc00000;return q;}"
            self.v = canon(q.v)
        else:
            if how == "if":
                body = PRO + f"if({x})return 1;return 0;"
                self.v = (np.asarray(q.v) != 0).astype(np.int64)
            elif how == "while":
                body = PRO + f"while({x})return 1;return 0;"
                self.v = (np.asarray(q.v) != 0).astype(np.int64)
            elif how == "for":
                body = PRO + f"for(;{x};)return 1;return 0;"
                self.v = (np.asarray(q.v) != 0).astype(np.int64)
            elif how == "do":
                body = PRO + f"int n=0;do{{if(n++)return 1;}}while({x});return 0;"
                self.v = (np.asarray(q.v) != 0).astype(np.int64)
            elif how == "var":
                body = PRO + f"int r={x};return r;"
                self.v = w32(q.v)
            else:
                body = PRO + f"return {x};"
                self.v = w32(q.v)
        self.body, self.ok, self.trap, self.key = body, q.ok, False, (how + ":" + x)


class Grid:
    def __init__(self, fa, fb, iv):
        L = list(itertools.product(fa, fb, iv))
        self.a = np.array([t[0] for t in L], f32)
        self.b = np.array([t[1] for t in L], f32)
        self.z = np.array([t[2] for t in L], np.int64)
        sg = lambda v: np.where(v >= 1 << 31, v - (1 << 32), v)
        self.xyz = [sg(self.a.view(np.uint32).astype(np.int64)), sg(self.b.view(np.uint32).astype(np.int64)), self.z]
        self.T = len(L)


def leaves(g, intk=True, few=False):
    T = np.ones(g.T, bool)
    A = [Q(n, "f", g.a, T) for n in (("a", "gfa") if few else ("a", "gfa", "gar[1]", "st.m", "ff(a)", "*&a", "(&gfa)[0]"))]
    B = [Q(n, "f", g.b, T) for n in (("b", "gsp->m") if few else ("b", "gfb", "*gpf", "gsp->m", "gst.m", "ff(b)"))]
    I = []
    if intk:
        wr = lambda n, sg: (g.z + (1 << (n - 1))) % (1 << n) - (1 << (n - 1)) if sg else g.z % (1 << n)
        I = [Q("i", "i", g.z, T), Q("u", "u", g.z % (1 << 32), T), Q("c", "i", wr(8, 1), T), Q("d", "i", wr(8, 0), T), Q("s", "i", wr(16, 1), T), Q("w", "i", wr(16, 0), T)]
    return A, B, I


def tof(q):
    if q.t == "f":
        return q
    return Q(q.x, "f", np.asarray(q.v, np.float64).astype(f32), q.ok)


def arith(op, l, r):
    a, b = tof(l).v, tof(r).v
    v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
    return Q(f"({l.x}{op}{r.x})" if not r.x.startswith(("-", "+", "&", "*")) else f"({l.x}{op} {r.x})", "f", v.astype(f32), l.ok & r.ok)


def cmp_(op, l, r):
    a, b = tof(l).v, tof(r).v
    v = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    return Q(f"({l.x}{op}{r.x})" if r.x[0] not in "&*-" else f"({l.x}{op} {r.x})", "i", v.astype(np.int64), l.ok & r.ok)


RANGE = {"int": (-2.0**31 - 0.5, 2.0**31, 32, 1), "unsigned": (-1, 2.0**32, 32, 0), "char": (-129, 128, 8, 1), "unsigned char": (-1, 256, 8, 0), "short": (-32769, 32768, 16, 1), "unsigned short": (-1, 65536, 16, 0), "long": (-2.0**31 - .5, 2.0**31, 32, 1)}


def fcast(ty, q):
    lo, hi, n, sg = RANGE[ty]
    v = q.v.astype(np.float64)
    ok = (v > lo) & (v < hi)
    iv = np.trunc(np.where(ok, v, 0)).astype(np.int64)
    return Q(f"({ty}){q.x}" if q.x[0] not in "(" or True else "", "u" if ty == "unsigned" else "i", iv, q.ok & ok)


def truth(q):
    return np.asarray(q.v) != 0   # NaN != 0 is true, as C has it


def fam(g, full):
    A, B, I = leaves(g)
    AR, CM = "+-*/", ("<", "<=", ">", ">=", "==", "!=")
    for l, r in itertools.product(A, B):
        for op in AR:
            for how in ("ret", "assign", "arg", "glob", "elem", "deref") if full and l.x in ("a", "gfa") else ("ret",):
                yield Fn(arith(op, l, r), how)
            yield Fn(arith(op, r, l))
        for op in CM:
            for how in ("ret", "if", "while", "var", "for", "do") if l.x in ("a", "ff(a)") else ("ret", "if"):
                yield Fn(cmp_(op, l, r), how)
    for l in A + B:
        for x, v in ((f"-{l.x}", -l.v), (f"+{l.x}", l.v), (f"(float){l.x}", l.v), (f"-(-{l.x})", l.v), (f"({l.x})", l.v), (f"(double){l.x}", l.v), (f"(i,{l.x})", l.v)):
            yield Fn(Q(x, "f", v, l.ok))
        for how in ("ret", "if", "while", "var", "for", "do"):
            yield Fn(Q(f"!{l.x}", "i", (~truth(l)).astype(np.int64), l.ok), how)
            yield Fn(Q(f"!!{l.x}", "i", truth(l).astype(np.int64), l.ok), how)
        for how in ("if", "while", "for", "do"):
            yield Fn(Q(l.x, "i", truth(l).astype(np.int64), l.ok), how)
        yield Fn(Q(f"({l.x}?3:4)", "i", np.where(truth(l), 3, 4), l.ok))
        yield Fn(Q(f"({l.x}==0)", "i", (l.v == 0).astype(np.int64), l.ok))
        for l2 in B[:2] + A[:1]:
            for op, v in (("&&", truth(l) & truth(l2)), ("||", truth(l) | truth(l2))):
                for how in ("ret", "if", "while"):
                    yield Fn(Q(f"({l.x}{op}{l2.x})".replace("&&&", "&& &"), "i", v.astype(np.int64), l.ok), how)
                yield Fn(Q(f"({l.x}{op}i)", "i", ((truth(l) & (g.z != 0)) if op == "&&" else (truth(l) | (g.z != 0))).astype(np.int64), l.ok))
                yield Fn(Q(f"(i{op}{l.x})", "i", ((truth(l) & (g.z != 0)) if op == "&&" else (truth(l) | (g.z != 0))).astype(np.int64), l.ok))
        for ty in RANGE:
            e = fcast(ty, l)
            yield Fn(e)
            yield Fn(Q(f"({e.x}+1)", e.t, e.v + 1, e.ok))
            if ty != "long":
                yield Fn(Q("r", e.t, e.v, e.ok), "ret") if False else stmt(f"{ty} r={l.x};return r;", e, f"init {ty}={l.x}")
                yield stmt(f"{ty} r;r={l.x};return r;", e, f"assign {ty}={l.x}")
        yield stmt(f"return {l.x};", fcast("int", l), "return int " + l.x)
        yield stmt(f"return gfi({l.x});", fcast("int", l), "arg int " + l.x)
        yield stmt(f"int t[2];t[i&1]={l.x};return t[i&1];", fcast("int", l), "elem int " + l.x)


class stmt(Fn):
    def __init__(self, body, q, key):
        self.body, self.v, self.ok, self.trap, self.key = PRO + body, w32(q.v), q.ok, False, key


class fstmt(Fn):
    def __init__(self, body, v, ok, key):
        self.body = PRO + body + "{int q=*(int*)&r;if((q&0x7fffffff)>0x7f800000)q=0x7fc00000;return q;}"
        self.v, self.ok, self.trap, self.key = canon(v), ok, False, key


def fam_mixed(g):
    """Integers of every type with floats."""
    A, B, I = leaves(g)
    for k in I:
        kf = tof(k).v
        for x in (f"(float){k.x}", f"{k.x}+0.0f", f"(double){k.x}"):
            yield Fn(Q(x, "f", kf + f32(0) if "+" in x else kf, k.ok))
        for how in ("ret", "assign", "arg", "glob", "elem", "deref"):
            yield Fn(Q(k.x, "f", kf, k.ok), how)
        yield fstmt(f"float r=fi({k.x});", np.asarray(w32(k.v), np.float64).astype(f32), k.ok, "fi " + k.x)
        for l in A[:3] + B[:1]:
            for op in "+-*/":
                yield Fn(arith(op, l, k))
                yield Fn(arith(op, k, l))
            for op in ("<", "<=", ">", ">=", "==", "!="):
                for how in ("ret", "if"):
                    yield Fn(cmp_(op, l, k), how)
                    yield Fn(cmp_(op, k, l), how)
            for c, cv in (("i", g.z != 0), ("a", truth(A[0])), ("a<b", A[0].v < B[0].v)):
                yield Fn(Q(f"({c}?{l.x}:{k.x})", "f", np.where(cv, l.v, kf), k.ok))
                yield Fn(Q(f"({c}?{k.x}:{l.x})", "f", np.where(cv, kf, l.v), k.ok))
                yield Fn(Q(f"({c}?{k.x}:1.5f)", "f", np.where(cv, kf, f32(1.5)), k.ok))
                yield Fn(Q(f"({c}?2:{l.x})", "f", np.where(cv, f32(2), l.v), k.ok))


def fam_depth(g, consts=True):
    """Depth 2: every pair of operators, both shapes, mixed with integer and constant operands."""
    A, B, I = leaves(g, True, True)
    K = [Q("2.5f", "f", np.full(g.T, 2.5, f32), np.ones(g.T, bool)), Q("3", "i", np.full(g.T, 3), np.ones(g.T, bool)), Q("1e-40f", "f", np.full(g.T, 1e-40, f32), np.ones(g.T, bool))]
    L = [A[0], B[1], I[0], I[1], K[0]]
    for o1, o2 in itertools.product("+-*/", "+-*/"):
        for p, q, r in itertools.product([A[0], B[1], I[1]], [B[0], I[0], K[0]], [A[1], I[0], K[1], K[2]]):
            if not (p.t == "f" or q.t == "f") or not (q.t == "f" or r.t == "f"):
                continue
            yield Fn(arith(o2, arith(o1, p, q), r))
            yield Fn(arith(o1, p, arith(o2, q, r)))
    for o1 in "+-*/":
        for o2 in ("<", ">=", "==", "!="):
            for p, q, r in itertools.product([A[0], I[0]], [B[1], K[0]], [A[1], I[1]]):
                yield Fn(cmp_(o2, arith(o1, p, q), r), "ret")
                yield Fn(cmp_(o2, r, arith(o1, p, q)), "if")
        for p, q in itertools.product([A[0], B[1]], L):
            e = arith(o1, p, q)
            yield Fn(Q(f"-{e.x}", "f", -e.v, e.ok))
            yield Fn(Q(f"!{e.x}", "i", (~truth(e)).astype(np.int64), e.ok))
            for ty in ("int", "unsigned", "unsigned char", "short"):
                yield Fn(fcast(ty, e))
            yield Fn(arith("+", Q(f"ff({e.x})", "f", e.v, e.ok), A[0]))
            yield Fn(arith("*", tof2(fcast("int", e)), B[0]))


def tof2(q):
    return Q(f"({q.x})", q.t, q.v, q.ok)


def flit(v):
    """A C literal for a float32 value."""
    v = f32(v)
    if np.isnan(v) or np.isinf(v):
        return None
    s = "%.9g" % abs(float(v))
    if "." not in s and "e" not in s:
        s += ".0"
    s += "f"
    return f"(-{s})" if np.signbit(v) else s


def const_cases():
    """Constant folding: the same operators with literal operands, placed in static data and in expressions."""
    fin = [v for v in FV if flit(v)]
    fin2 = [v for v in FS if flit(v)]
    one = np.ones(1, bool)
    def leaf(v, neg=False):
        return Q(flit(v), "f", np.array([v], f32), one)
    il = lambda v: Q(f"({v})" if v != -2147483648 else "(-2147483647-1)", "i", np.array([v]), one)
    ul = lambda v: Q(f"{v % (1 << 32)}u", "u", np.array([v % (1 << 32)]), one)
    for x, y in itertools.product(fin, fin):
        for op in "+-*/":
            if op == "/" and y == 0:
                continue
            yield arith(op, leaf(x), leaf(y))
        for op in ("<", "<=", ">", ">=", "==", "!="):
            yield cmp_(op, leaf(x), leaf(y))
        yield Q(f"({flit(x)}&&{flit(y)})", "i", np.array([int(bool(x) and bool(y))]), one)
        yield Q(f"({flit(x)}||{flit(y)})", "i", np.array([int(bool(x) or bool(y))]), one)
    for x in fin:
        l = leaf(x)
        yield Q(f"-{l.x}", "f", -l.v, one)
        yield Q(f"+{l.x}", "f", l.v, one)
        yield l
        yield Q(f"!{l.x}", "i", np.array([int(x == 0)]), one)
        yield Q(f"({l.x}?5:6)", "i", np.array([5 if x != 0 else 6]), one)
        yield Q(f"({l.x}?1.5f:2)", "f", np.array([1.5 if x != 0 else 2], f32), one)
        for ty in RANGE:
            e = fcast(ty, l)
            if e.ok[0]:
                yield e
        for v in IV[:31:2]:
            for k in (il(v), ul(v)):
                for op in "+-*/":
                    if not (op == "/" and v == 0):
                        yield arith(op, l, k)
                    if not (op == "/" and x == 0):
                        yield arith(op, k, l)
                yield cmp_("<", l, k)
                yield cmp_("==", k, l)
    for v in IV:
        for k in (il(v), ul(v)):
            yield Q(f"(float){k.x}", "f", tof(k).v, one)
            yield tof(k)


def fam_const():
    """As run-time functions (folded in the expression) and as static data."""
    for q in const_cases():
        if "{" in q.x:
            continue
        if q.t == "f":
            yield cst(f"static float r={q.x};", q, "static:")
            yield cst(f"float r={q.x};", q, "auto:")
        else:
            yield cst2(f"static int r={q.x};return r;", q, "static:")
            yield cst2(f"return {q.x};", q, "ret:")


class cst(Fn):
    def __init__(self, st, q, k):
        self.body = st + "{int q=*(int*)&r;if((q&0x7fffffff)>0x7f800000)q=0x7fc00000;return q;}"
        self.v, self.ok, self.trap, self.key = canon(q.v), True, False, k + q.x


class cst2(Fn):
    def __init__(self, st, q, k):
        self.body, self.v, self.ok, self.trap, self.key = st, w32(q.v), True, False, k + q.x


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcdh", "lcdu"))
    st = R.Stats()
    m = C.Model(32)
    g1 = Grid(FV, FV, [0, 5])
    g2 = Grid(FS, FS[:4], IV)
    g3 = Grid(FS, FS, [0, -3, 16777217])
    gc = C.mkgrid([0], [0])
    def suite(be, lvl):
        go = lambda lab, g, fs, n: R.check_batches(chk, be, R.batches(m, g, fs, n, DECL), st, lab)
        if lvl == 2:
            go("ops", g1.xyz, fam(g1, True), 60)
            go("mixed", g2.xyz, fam_mixed(g2), 60)
            go("depth2", g3.xyz, fam_depth(g3), 60)
            go("const", gc, fam_const(), 100)
        else:
            # the x87 emulation of DOSBox orders NaNs: they are left to the native run
            nn = lambda l: [v for v in l if v == v or be.name == "mips"]
            a = Grid(nn(FV[::2] + FS), nn(FS), [0])
            go("ops", a.xyz, (f for k, f in enumerate(fam(a, False)) if k % 3 == 0 or chk.thorough), 30)
            b = Grid(nn([0.1, -2.5, float("nan")]), [1.0], IV[::2])
            go("mixed", b.xyz, (f for k, f in enumerate(fam_mixed(b)) if k % 3 == 1 or chk.thorough), 30)
            c = Grid([0.1, -2.5, 1e30], [3.0, -0.75], [0, -3])
            go("depth2", c.xyz, (f for k, f in enumerate(fam_depth(c)) if k % 3 == 2 or chk.thorough), 30)
    suite(R.LinuxBackend(tc), 2)
    suite(R.MipsBackend(tc), 1)
    suite(R.DosBackend(tc, ("-dosh",), "dosh", False), 1)
    if chk.thorough:
        suite(R.DosBackend(tc, ("-dosu",), "dosu", False), 1)
    chk.finish(evaluations=st.evals, distinct_nontrivial=st.funcs,
               rule="every operator over 7x6 operand placements and every mixed integer type, on the product of 37 boundary float values (and 31 integers); conversions to and from every integer type (out-of-range excluded); conditions; depth-2 expressions; the same with literal operands folded by the compiler in data and in code; bit patterns compared with numpy float32 (one NaN)",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C11", "exploration", body)
