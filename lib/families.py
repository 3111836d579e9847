"""The enumerated families of integer expressions; used for each back end."""
import itertools, numpy as np
import cexpr as C


def consts(m):
    b = m.ibits
    i = [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 127, 128, 255, 256, -1, -2, -128, -129, 32767, -32768]
    if b == 32:
        i += [32768, 65535, 65536, -32769, 0x7fffffff, -0x80000000, 0x01000000]
        u = [0, 1, 8, 255, 0x7fffffff, 0x80000000, 0xffffffff, 65536]
    else:
        u = [0, 1, 8, 255, 0x7fff, 0x8000, 0xffff]
    return [C.lit(m, v) for v in i] + [C.lit(m, v, "u") for v in u]


def few_consts(m):
    b = m.ibits
    return [C.lit(m, v) for v in ([0, 1, 3, 8, -1, 255, -128, 1 << (b - 2)])] + [C.lit(m, 5, "u"), C.lit(m, (1 << b) - 1, "u"), C.lit(m, 1 << (b - 1), "u")]


def vals(m, n):
    b = m.ibits
    full = [0, 1, 2, 3, 7, 8, 31, 127, 128, 129, 255, 256, -1, -2, -3, -7, -127, -128, -129, -256, 32767, -32768, 100, -100]
    if b == 32:
        full += [32768, 65535, 65536, -32769, 0x7fffffff, -0x80000000, -0x7fffffff, 0x12345678, -0x12345678, 0x00ff00ff]
    else:
        full += [-32767, 0x1234, -0x1234, 0x0ff0, 15, 9]
    small = [0, 1, -1, 5, -128, 200, 0x7fffffff if b == 32 else 0x7fff, -0x80000000 if b == 32 else -0x8000, 31 if b == 32 else 15, 0x1234567 if b == 32 else 0x1235]
    tiny = [0, 1, -1, 7, -0x80000000 if b == 32 else -0x8000, 1000]
    return {"full": full, "small": small, "tiny": tiny, "six": [0, 1, -3, 130, 40000 if b == 32 else -25536, -0x80000000 if b == 32 else -0x8000], "two": [3, -70000 if b == 32 else -7000]}[n]


def fam_binop(m, kinds, types, grid):
    """Every binary operator on every pair of operand kinds/types/constants; both operands may not be constants."""
    L = [C.leaf(m, grid, "P", 0, "i")] + [C.leaf(m, grid, k, 0, t) for k in kinds for t in types]
    R = [C.leaf(m, grid, "P", 1, "i")] + [C.leaf(m, grid, k, 1, t) for k in kinds for t in types]
    K = consts(m)
    for op in C.BINOPS:
        for l in L:
            for r in R:
                yield C.Func(m, C.binop(m, op, l, r))
        for c in K:
            for r in R:
                yield C.Func(m, C.binop(m, op, c, r))
            for l in L:
                if op in "/%" and c.v == 0:
                    continue
                yield C.Func(m, C.binop(m, op, l, c))


def fam_same(m, kinds, types, grid):
    """Both operands the same object."""
    for k in kinds:
        for t in types:
            l = C.leaf(m, grid, k, 0, t)
            for op in C.BINOPS:
                yield C.Func(m, C.binop(m, op, l, l))


def fam_unary(m, kinds, types, grid):
    """Every chain of up to 3 unary operators and casts on every operand."""
    U = [lambda e, o=o: C.unop(m, o, e) for o in C.UNOPS] + [lambda e, t=t: C.cast(m, t, e) for t in C.TYPES]
    L = [C.leaf(m, grid, "P", 0, "i")] + [C.leaf(m, grid, k, 0, t) for k in kinds for t in types]
    for e in L:
        for a in U:
            e1 = a(e)
            yield C.Func(m, e1)
            for b in U:
                yield C.Func(m, b(e1))
    for e in L[:3]:
        for a, b, c in itertools.product(U, U, U):
            yield C.Func(m, c(b(a(e))))


def operands(m, grid, slot, kinds, types, cs):
    return [C.leaf(m, grid, k, slot, t) for k in kinds for t in types if not (k == "P" and t != "i")] + cs


def fam_depth2(m, grid, ops1, ops2, opnds, shapes="lr", seen=None):
    """(x op1 y) op2 z and x op2 (y op1 z)."""
    for o1 in ops1:
        for o2 in ops2:
            for x, y, z in itertools.product(*opnds):
                if x.const and y.const and z.const:
                    continue
                if "l" in shapes and not (o1 in "/%" and y.const and y.v == 0) and not (x.const and y.const and o1 in C.SHIFT + ["/", "%"]):
                    if not (o2 in "/%" and z.const and z.v == 0):
                        yield C.Func(m, C.binop(m, o2, C.binop(m, o1, x, y), z))
                if "r" in shapes and not (o1 in "/%" and z.const and z.v == 0) and not (y.const and z.const and o1 in C.SHIFT + ["/", "%"]):
                    i = C.binop(m, o1, y, z)
                    if not (o2 in "/%" and i.const and np.any(np.asarray(i.v) == 0)):
                        yield C.Func(m, C.binop(m, o2, x, i))


def fam_depth3(m, grid, ops, opnds, midops=None):
    """(x op y) op (z op x) in every operator triple: both operands of the middle operator are computed."""
    for o1 in ops:
        for o2 in (midops or ops):
            for o3 in ops:
                for x, y, z in opnds:
                    yield C.Func(m, C.binop(m, o2, C.binop(m, o1, x, y), C.binop(m, o3, z, x)))


def fam_unmix(m, grid, kinds, types):
    """(un(x op y)) op2 z , x op2 un(y), (T)(x op y) op2 z"""
    U = [lambda e, o=o: C.unop(m, o, e) for o in C.UNOPS] + [lambda e, t=t: C.cast(m, t, e) for t in C.TYPES]
    for k in kinds:
        for t in types:
            if k == "P" and t != "i":
                continue
            x, y, z = (C.leaf(m, grid, k, s, t) for s in range(3))
            for op in C.BINOPS:
                for u in U:
                    yield C.Func(m, C.binop(m, op, x, u(y)))
                    yield C.Func(m, C.binop(m, op, u(x), y))
                    yield C.Func(m, u(C.binop(m, op, x, y)))
                    for o2 in ("+", "<", ">>", "*", "&", "=="):
                        yield C.Func(m, C.binop(m, o2, u(C.binop(m, op, x, y)), z))


def fam_ctx(m, grid, kinds, types, cs):
    """Every expression of one operator in every context."""
    for ctx in C.CONTEXTS:
        for k in kinds:
            for t in types:
                if k == "P" and t != "i":
                    continue
                x, y, z = (C.leaf(m, grid, k, s, t) for s in range(3))
                es = [x, C.unop(m, "-", x), C.unop(m, "!", x), C.unop(m, "~", x), C.cast(m, "c", x), C.cast(m, "b", x), C.cast(m, "w", x),
                      C.unop(m, "!", C.unop(m, "!", x)), C.cond(m, x, y, z)]
                for op in C.BINOPS:
                    es.append(C.binop(m, op, x, y))
                    es.append(C.unop(m, "!", es[-1]))
                    for c in cs:
                        if not (op in "/%" and c.v == 0):
                            es.append(C.binop(m, op, x, c))
                for e in es:
                    yield C.Func(m, e, ctx)


def fam_logic(m, grid, kinds, types):
    """Trees of && || ! ?: and comparisons with up to 3 leaves, in value and jump context."""
    ctxs = ("ret", "if", "ifnot", "do", "sel", "andr", "orr")
    for k in kinds:
        for t in types:
            if k == "P" and t != "i":
                continue
            x, y, z = (C.leaf(m, grid, k, s, t) for s in range(3))
            A = lambda e: [e, C.unop(m, "!", e), C.binop(m, "<", e, C.lit(m, 2))]
            for o1 in C.LOGIC:
                for o2 in C.LOGIC:
                    for a, b, c in itertools.product(A(x), A(y), A(z)):
                        l = C.binop(m, o2, C.binop(m, o1, a, b), c)
                        r = C.binop(m, o2, a, C.binop(m, o1, b, c))
                        for e in (l, r, C.unop(m, "!", l), C.binop(m, o2, C.unop(m, "!", C.binop(m, o1, a, b)), c)):
                            for ctx in ctxs:
                                yield C.Func(m, e, ctx)


def fam_cond(m, grid, kinds, types, cs):
    """?: with operands of all type pairs, nested, in both branches and in the condition."""
    for k in kinds:
        for t1 in types:
            for t2 in types:
                if k == "P" and (t1 != "i" or t2 != "i"):
                    continue
                x, y, z = C.leaf(m, grid, k, 0, t1), C.leaf(m, grid, k, 1, t1), C.leaf(m, grid, k, 2, t2)
                e = C.cond(m, x, y, z)
                yield C.Func(m, e)
                yield C.Func(m, e, "if")
                for op in C.BINOPS:
                    yield C.Func(m, C.binop(m, op, e, x))
                    yield C.Func(m, C.binop(m, op, z, e))
                    yield C.Func(m, C.cond(m, C.binop(m, op, x, y), y, z))
                    yield C.Func(m, C.cond(m, x, C.binop(m, op, y, z), z))
                    yield C.Func(m, C.cond(m, x, z, C.binop(m, op, y, z)))
                for c in cs:
                    yield C.Func(m, C.cond(m, x, c, z))
                    yield C.Func(m, C.cond(m, x, y, c))
                yield C.Func(m, C.cond(m, x, C.cond(m, y, x, z), z))
                yield C.Func(m, C.cond(m, x, z, C.cond(m, y, x, z)))
                yield C.Func(m, C.cond(m, C.cond(m, x, y, z), y, z))


class PF:
    """A function given by its text and values (pointer family)."""
    def __init__(self, m, body, v, ok=True, trap=False):
        self.body, self.v, self.ok, self.trap, self.key = body, m.wrap(v, "i"), ok, trap, body.replace(" ", "")


PTRDECL = """
char PA1[64];short PA2[64];int PA4[64];struct B3{char c[3];};struct B3 PA3[64];struct B12{int a[3];};struct B12 PA12[64];
int AA[5][7];char AC[6][3];struct B20{char h;struct B12 v[3];short t;};struct B20 PS[20];
"""


def fam_ptr(m):
    """Pointer arithmetic: p+i, i+p, p-i, p-q, p[i], &p[i], comparisons, ++ chains, multi-dimensional arrays.
    Every index is in range, so results are exact. Yields (grid, funcs)."""
    g = C.mkgrid([0, 1, 2, 5, 9, 31, 32, 40], [0, 1, 3, 8, 30], [0, 2, 6])
    x, y, z = g
    isz = m.ibits // 8
    out = []
    pt = [("PA1", "char", 1), ("PA2", "short", 2), ("PA4", "int", isz), ("PA3", "struct B3", 3), ("PA12", "struct B12", 3 * isz)]
    idx = {"x": x, "gxi": x, "gxb": x & 255, "(x+z)%20": (x + z) % 20, "lxs": x, "*pxi": x, "fxi()": x, "7": np.int64(7), "gxw": x}
    for arr, ty, sz in pt:
        for it, iv in idx.items():
            pro = "short lxs=x;" if "lxs" in it else ""
            for pk, pd in (("arr", ""), ("loc", f"{ty}*p={arr};"), ("par", f"{ty}*p={arr}+z;")):
                P = arr if pk == "arr" else "p"
                pv = z if pk == "par" else np.int64(0)
                base = f"(char*){arr}"
                for form, v in ((f"(char*)({P}+{it})-{base}", (pv + iv) * sz), (f"(char*)({it}+{P})-{base}", (pv + iv) * sz),
                                (f"(char*)&{P}[{it}]-{base}", (pv + iv) * sz), (f"(char*)({P}+60-{it})-{base}", (pv + 60 - iv) * sz),
                                (f"({P}+{it})-({P}+y)", iv - y), (f"&{P}[{it}]-&{arr}[y]", pv + iv - y),
                                (f"&{P}[{it}]<&{arr}[y]", pv + iv < y), (f"&{P}[{it}]>={P}+y", iv >= y), (f"{P}+{it}=={arr}+y", pv + iv == y),
                                (f"&{P}[{it}]!=&{arr}[y]", pv + iv != y), (f"(char*)(&{P}[{it}]+y)-{base}", (pv + iv + y) * sz),
                                (f"!{P}", iv * 0), (f"{P}&&{it}", iv != 0), (f"({P}+{it}?1:2)", iv * 0 + 1)):
                    out.append(PF(m, f"{pro}{pd}return {form};", v))
            if pro == "":
                out.append(PF(m, f"{ty}*p={arr};{ty}*q;q=p+{it};p+={it};return (p==q)*1000+(int)(p-{arr});", 1000 + iv))
                out.append(PF(m, f"{ty}*p={arr}+60;p-={it};return p-{arr};", 60 - iv))
                out.append(PF(m, f"{ty}*p={arr}+{it};{ty}*q=p++;return (int)(p-{arr})*100+(int)(q-{arr});", (iv + 1) * 100 + iv))
                out.append(PF(m, f"{ty}*p={arr}+{it};{ty}*q=++p;return (int)(p-{arr})*100+(int)(q-{arr});", (iv + 1) * 101))
                out.append(PF(m, f"{ty}*p={arr}+1+{it};{ty}*q=p--;return (int)(p-{arr})*100+(int)(q-{arr});", iv * 100 + iv + 1))
                out.append(PF(m, f"{ty}*p={arr}+1+{it};{ty}*q=--p;return (int)(p-{arr})*100+(int)(q-{arr});", iv * 101))
                out.append(PF(m, f"{ty}*p={arr}+{it};{ty}**q=&p;++*q;(*q)++;*q+=2;return p-{arr};", iv + 4))
    for a, b in itertools.product(("x%5", "y%5", "2"), ("z", "x%7", "6")):
        av = eval(a, {"x": x, "y": y})
        bv = eval(b, {"x": x, "z": z})
        av, bv = np.asarray(av), np.asarray(bv)
        out.append(PF(m, f"return (char*)&AA[{a}][{b}]-(char*)AA;", (av * 7 + bv) * isz))
        out.append(PF(m, f"return (char*)(AA[{a}]+{b})-(char*)AA;", (av * 7 + bv) * isz))
        out.append(PF(m, f"return (char*)(*(AA+{a})+{b})-(char*)AA;", (av * 7 + bv) * isz))
        out.append(PF(m, f"return (char*)(AA+{a})-(char*)AA+(int)sizeof(AA[{b}]);", av * 7 * isz + 7 * isz))
        out.append(PF(m, f"AA[{a}][{b}]=x*3+y;return AA[{a}][{b}]+(int)(&AA[{a}]-&AA[0]);", x * 3 + y + av))
        out.append(PF(m, f"return &AC[{a}][{b}%3]-AC[0];", av * 3 + bv % 3))
        out.append(PF(m, f"PS[{a}].v[{b}%3].a[1]=y+5;return PS[{a}].v[{b}%3].a[1];", y + 5 + 0 * av + 0 * bv))
        out.append(PF(m, f"struct B20*p=PS+{a};p->v[{b}%3].a[x%3]=77;return *((*p).v[{b}%3].a+x%3)+(int)((char*)&p->v[{b}%3].a[x%3]-(char*)&PS[{a}].v[0]);",
                      77 + ((bv % 3) * 3 + x % 3) * isz + 0 * av))
    T = len(x)
    for f in out:
        f.v = np.broadcast_to(f.v, (T,))
    return g, out


def fam_pow2(m, grid, kinds, types):
    """Every power of two and its neighbours as a constant operand of every operator."""
    b = m.ibits
    cs = set()
    for k in range(b):
        for v in ((1 << k) - 1, 1 << k, (1 << k) + 1):
            if v < 1 << (b - 1):
                cs |= {v, -v}
    cs.add(-(1 << (b - 1)))
    K = [C.lit(m, v) for v in sorted(cs)] + [C.lit(m, 1 << (b - 1), "u"), C.lit(m, (1 << b) - 1, "u")] + [C.lit(m, 1 << k, "u") for k in range(b)]
    for k in kinds:
        for t in types:
            if k == "P" and t != "i":
                continue
            x = C.leaf(m, grid, k, 0, t)
            for op in C.BINOPS:
                for c in K:
                    if not (op in "/%" and c.v == 0):
                        yield C.Func(m, C.binop(m, op, x, c))
                    yield C.Func(m, C.binop(m, op, c, x))
                    if op in C.REL:
                        yield C.Func(m, C.binop(m, op, x, c), "if")


def fam_frame(m, grid, sizes):
    """Locals on both sides of the 8-bit (and larger) frame offset limits; members at such offsets; many parameters."""
    x, y, z = grid
    T = len(x)
    W = lambda v: np.broadcast_to(m.wrap(v, "i"), (T,))
    for s in sizes:
        for t in "cbswiu":
            cn = C.CNAME[t]
            for op in ("+", "-", "&", "<", "==", "<<"):
                a = C.N("a", t, m.wrap(x, t)); b = C.N("b", t, m.wrap(y, t))
                e = C.binop(m, op, a, b)
                yield PF(m, f"{cn} a;char pad[{s}];{cn} b;pad[0]=pad[{s}-1]=z;a=x;b=y;return {e.x};", np.broadcast_to(e.v, (T,)), e.ok)
                yield PF(m, f"struct{{char pad[{s}];{cn} a;{cn} b;}}v;v.pad[{s}-1]=z;v.a=x;v.b=y;return (v.a {op} v.b);", np.broadcast_to(e.v, (T,)), e.ok)
                if s <= 600:
                    yield PF(m, f"struct Q{{char pad[{s}];{cn} a;{cn} b;}}v,*p=&v;p->pad[{s}-1]=z;p->a=x;p->b=y;return (p->a {op} p->b);", np.broadcast_to(e.v, (T,)), e.ok)
        yield PF(m, f"char a[{s}];int i;for(i=0;i<{s};i++)a[i]=i+x;return a[{s}-1]*3+a[0]+(a[{s}/2]==(signed char)({s}/2+x));",
                 W(m.wrap(x + s - 1, "c") * 3 + m.wrap(x, "c") + 1))


FRAME_SIZES = [1, 2, 3, 4, 5, 100, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 240, 250, 252, 254, 255, 256, 257, 260, 4000]


def fam_far(m, big):
    """Objects in a large address space: arrays beyond 64 KB, every element kind, at 64 KB edges. (32-bit int models)"""
    pts = [0, 1, 2, 15, 16, 17, 255, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65540, 98303, 98304, 131070, 131071, 131072, 140000]
    g = [np.array(pts, np.int64), np.array([(p * 7) % 100 + 1 for p in pts], np.int64), np.array([i % 5 for i in range(len(pts))], np.int64)]
    x, y, z = g
    out = []
    for arr, ty, sz, lim in (("H1", "char", 1, 150000), ("H2", "short", 2, 70000), ("H4", "int", 4, 35000)):
        xi = x * lim // 150000
        X = f"(x*1)" if lim == 150000 else f"(x/10*{lim // 10000}/15000*1000)"
        # an index expression that the program and the model compute alike
        k = {"H1": 1, "H2": 3, "H4": 5}[arr]
        X, xi = f"(x/{k})", x // k
        P = f"{ty}*p={arr}+{X};"
        out += [PF(m, f"{arr}[{X}]=y;return {arr}[{X}];", y), PF(m, f"{P}*p=y+1;return {arr}[{X}]+*p;", (y + 1) * 2),
                PF(m, f"{P}p[z]=y;return *(p+z)+{arr}[{X}+z];", 2 * y), PF(m, f"{P}return p-{arr};", xi), PF(m, f"{P}return (char*)p-(char*){arr};", xi * sz),
                PF(m, f"{P}*p++=y;*p=z;return p[-1]*10+p[0]+(int)(p-{arr});", y * 10 + z + xi + 1),
                PF(m, f"{P}*p=y;*p+=z;++*p;return (*p)--;", y + z + 1), PF(m, f"{P}{ty}*q=p+1;return (p<q)+2*(p==q)+4*(q>p)+8*(q-p);", 1 + 4 + 8 + 0 * x),
                PF(m, f"{P}p+=z;p-=2*z;return {arr}+{X}-p;", z), PF(m, f"{P}p[0]=1;p[1]=2;p[2]=3;p[3]=4;return p[0]+p[1]*10+p[2]*100+p[3]*1000;", 4321 + 0 * x),
                PF(m, f"{P}*p=x;return (char)*p==(char)x;", 1 + 0 * x),
                PF(m, f"{ty} v=y;{ty}*l=&v;{arr}[{X}]=*l;*l=5;return {arr}[{X}]*10+v;", y * 10 + 5),
                PF(m, f"{ty} *a[3];a[1]={arr}+{X};*a[1]=y;return **(a+1);", y),
                PF(m, f"return ({arr}[{X}]=y)+({arr}[{X}]==y)+!{arr}[{X}];", y + 1)]
        for op in C.ARITH + C.SHIFT + C.REL:
            a, b = C.N("u", "i", y), C.N("w", "i", z)
            e = C.binop(m, op, C.N(f"{arr}[{X}]", "i", y), C.N("HZ[z]", "i", z))
            out.append(PF(m, f"{arr}[{X}]=y;HZ[z]=z;return {e.x};", np.broadcast_to(e.v, x.shape), e.ok, e.trap))
            e = C.binop(m, op, C.N(f"HZ[z]", "i", z), C.N(f"*({arr}+{X})", "i", y))
            out.append(PF(m, f"{arr}[{X}]=y;HZ[z]=z;return {e.x};", np.broadcast_to(e.v, x.shape), e.ok, e.trap))
    for f in out:
        f.v = np.broadcast_to(f.v, x.shape)
    return g, out


FARDECL = "char H1[150010];short H2[50010];int H4[30010];int HZ[8];\n"
