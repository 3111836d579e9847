"""Typed C expressions rendered as text and evaluated over a grid of operand values by a reference model (numpy)."""
import numpy as np
import itertools

np.seterr(all="ignore")


class Model:
    """Integer model: bits of int; types c(signed char) b(unsigned char) s(short) w(unsigned short) i u."""

    def __init__(self, ibits):
        self.ibits = ibits
        self.T = {"c": (8, True), "b": (8, False), "s": (16, True), "w": (16, False), "i": (ibits, True), "u": (ibits, False)}

    def wrap(self, a, t):
        bits, sg = self.T[t]
        a = np.asarray(a)
        m = a & np.int64((1 << bits) - 1)
        if sg:
            m = np.where(m >> (bits - 1), m - np.int64(1 << bits), m)
        return m

    def promote(self, t):
        bits, sg = self.T[t]
        if bits < self.ibits:
            return "i"
        return "i" if sg else "u"

    def common(self, t1, t2):
        return "u" if "u" in (self.promote(t1), self.promote(t2)) else "i"


CNAME = {"c": "signed char", "b": "unsigned char", "s": "short", "w": "unsigned short", "i": "int", "u": "unsigned"}
TYPES = "cbswiu"


class N:
    """A node: text, type, values, ok (the value is defined), trap (evaluating it is not allowed)."""
    __slots__ = ("x", "t", "v", "ok", "trap", "needs", "lv", "const")

    def __init__(self, x, t, v, ok=True, trap=False, needs=frozenset(), const=False):
        self.x, self.t, self.v, self.ok, self.trap, self.needs, self.const = x, t, v, ok, trap, needs, const


def lit(m, val, t=None):
    """A literal of int or unsigned type; negative ones in parentheses."""
    imax = (1 << (m.ibits - 1)) - 1
    if t is None:
        t = "i" if -imax - 1 <= val <= imax else "u"
    if t == "u":
        x = "%du" % val if val <= imax else "0x%Xu" % val
    elif val == -imax - 1:
        x = "(-%d-1)" % imax
    elif val < 0:
        x = "(%d)" % val
    else:
        x = str(val)
    return N(x, t, np.int64(val), const=True)


def _or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return a & b


def conv(m, n, t):
    return m.wrap(n.v, t)


ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
SHIFT = ["<<", ">>"]
REL = ["<", "<=", ">", ">=", "==", "!="]
LOGIC = ["&&", "||"]
BINOPS = ARITH + SHIFT + REL + LOGIC + [","]


def arith(m, op, a, b, ct):
    """a, b already converted to ct (int64). Returns (v, ok, trap)."""
    if op == "+":
        return m.wrap(a + b, ct), True, False
    if op == "-":
        return m.wrap(a - b, ct), True, False
    if op == "*":
        return m.wrap((np.asarray(a).astype(np.int64)) * b, ct), True, False
    if op in "/%":
        z = np.asarray(b) == 0
        if ct == "i":
            z = z | ((np.asarray(b) == -1) & (np.asarray(a) == -(1 << (m.ibits - 1))))
        bb = np.where(z, 1, b)
        q = np.abs(a) // np.abs(bb)
        q = np.where((np.asarray(a) < 0) != (bb < 0), -q, q)
        r = a - q * bb
        return m.wrap(q if op == "/" else r, ct), ~z, z
    if op == "&":
        return m.wrap(a & b, ct), True, False
    if op == "|":
        return m.wrap(a | b, ct), True, False
    if op == "^":
        return m.wrap(a ^ b, ct), True, False
    raise KeyError(op)


def binop(m, op, l, r, paren=True):
    x = f"{l.x}{op}{r.x}" if not (op[0] in "+-&/") else f"{l.x} {op} {r.x}"
    if paren:
        x = "(" + x + ")"
    needs = l.needs | r.needs
    if op in ARITH:
        ct = m.common(l.t, r.t)
        v, ok, trap = arith(m, op, conv(m, l, ct), conv(m, r, ct), ct)
        if op in "/%":   # an undefined operand could be anything
            for e in (l, r):
                if e.ok is not True:
                    trap = _or(trap, ~e.ok)
        return N(x, ct, v, _and(_and(l.ok, r.ok), ok), _or(_or(l.trap, r.trap), trap), needs, l.const and r.const)
    if op in SHIFT:
        ct = m.promote(l.t)
        a = conv(m, l, ct)
        b = conv(m, r, m.promote(r.t))
        good = (b >= 0) & (b < m.ibits)
        bb = np.where(good, b, 0)
        if op == "<<":
            v = m.wrap(np.left_shift(np.asarray(a) & ((1 << m.ibits) - 1), bb), ct)
        else:
            v = m.wrap(np.right_shift(a, bb), ct)
        return N(x, ct, v, _and(_and(l.ok, r.ok), good), _or(l.trap, r.trap), needs, l.const and r.const)
    if op in REL:
        ct = m.common(l.t, r.t)
        a, b = conv(m, l, ct), conv(m, r, ct)
        f = {"<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal, "==": np.equal, "!=": np.not_equal}[op]
        return N(x, "i", f(a, b).astype(np.int64), _and(l.ok, r.ok), _or(l.trap, r.trap), needs, l.const and r.const)
    if op in LOGIC:
        a = np.asarray(l.v) != 0
        b = np.asarray(r.v) != 0
        use = a if op == "&&" else ~a   # the right operand is evaluated
        v = (a & b) if op == "&&" else (a | b)
        ok = _and(l.ok, True if r.ok is True else (~use | r.ok))
        trap = _or(l.trap, False if r.trap is False else (use & r.trap))
        # an undefined left value makes the evaluation of a trapping right operand uncertain
        if l.ok is not True and r.trap is not False:
            trap = _or(trap, ~l.ok & r.trap)
        return N(x, "i", v.astype(np.int64), ok, trap, needs, l.const and r.const)
    if op == ",":
        return N(x, r.t, r.v, r.ok, _or(l.trap, r.trap), needs)
    raise KeyError(op)


def unop(m, op, e):
    if op in ("-", "+"):
        t = m.promote(e.t)
        v = m.wrap(-np.asarray(conv(m, e, t)), t) if op == "-" else conv(m, e, t)
        return N(f"({op} {e.x})", t, v, e.ok, e.trap, e.needs, e.const)
    if op == "~":
        t = m.promote(e.t)
        return N(f"(~{e.x})", t, m.wrap(~np.asarray(conv(m, e, t)), t), e.ok, e.trap, e.needs, e.const)
    if op == "!":
        return N(f"(!{e.x})", "i", (np.asarray(e.v) == 0).astype(np.int64), e.ok, e.trap, e.needs, e.const)
    raise KeyError(op)


def cast(m, t, e):
    return N(f"(({CNAME[t]}){e.x})", t, m.wrap(e.v, t), e.ok, e.trap, e.needs, e.const)


def cond(m, c, a, b):
    t = m.common(a.t, b.t)
    cv = np.asarray(c.v) != 0
    v = np.where(cv, m.wrap(a.v, t), m.wrap(b.v, t))
    ok = c.ok
    if a.ok is not True:
        ok = _and(ok, ~cv | a.ok)
    if b.ok is not True:
        ok = _and(ok, cv | b.ok)
    trap = c.trap
    if a.trap is not False:
        trap = _or(trap, (cv if c.ok is True else (cv | ~c.ok)) & a.trap)
    if b.trap is not False:
        trap = _or(trap, (~cv if c.ok is True else (~cv | ~c.ok)) & b.trap)
    return N(f"({c.x}?{a.x}:{b.x})", t, v, ok, trap, c.needs | a.needs | b.needs, c.const and a.const and b.const)


UNOPS = ["-", "+", "~", "!"]
SLOTS = "xyz"

# Operand kinds: how slot s of type t is written in the program.
# P parameter (int only), L local, G global, D pointer target, E element of a global array with variable index,
# A element of a local array with constant index, M member through pointer, N member of a global structure, F call result
def leaf(m, grid, kind, slot, t):
    """slot 0..2; grid: list of three int64 arrays."""
    s = SLOTS[slot]
    v = m.wrap(grid[slot], t)
    if kind == "P":
        return N(s, "i", m.wrap(grid[slot], "i"))
    if kind == "L":
        return N(f"l{s}{t}", t, v, needs=frozenset([("L", s, t)]))
    if kind == "G":
        return N(f"g{s}{t}", t, v)
    if kind == "D":
        return N(f"(*p{s}{t})", t, v)
    if kind == "E":
        return N(f"e{t}[k{s}]", t, v)
    if kind == "A":
        return N(f"a{s}{t}[1]", t, v, needs=frozenset([("A", s, t)]))
    if kind == "M":
        return N(f"q{s}->{t}", t, v)
    if kind == "N":
        return N(f"r{s}.{t}", t, v)
    if kind == "F":
        return N(f"f{s}{t}()", t, v)
    raise KeyError(kind)


def prologue(needs):
    out = []
    for k, s, t in sorted(needs):
        if k == "L":
            out.append(f"{CNAME[t]} l{s}{t}={s};")
        elif k == "A":
            out.append(f"{CNAME[t]} a{s}{t}[3];")
    for k, s, t in sorted(needs):
        if k == "A":
            out.append(f"a{s}{t}[1]={s};")
    return "".join(out)


CONTEXTS = {
    # name: (declarations after prologue, function of N -> (body text, value array))
    "ret": lambda m, n: (f"return {n.x};", n.v),
    "if": lambda m, n: (f"if({n.x})return 7;return 9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "ifnot": lambda m, n: (f"if(!{n.x})return 7;return 9;", np.where(np.asarray(n.v) == 0, 7, 9)),
    "while": lambda m, n: (f"while({n.x})return 7;return 9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "do": lambda m, n: (f"do{{if(kk++)return 7;}}while({n.x});return 9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "for": lambda m, n: (f"for(;{n.x};)return 7;return 9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "sel": lambda m, n: (f"return {n.x}?7:9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "andr": lambda m, n: (f"if({n.x}&&kx)return 7;return 9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "orr": lambda m, n: (f"if({n.x}||kz)return 7;return 9;", np.where(np.asarray(n.v) != 0, 7, 9)),
    "idx": lambda m, n: (f"return tab[{n.x}&7];", (np.asarray(n.v) & 7) * 3 + 1),
    "arg": lambda m, n: (f"return idf({n.x});", m.wrap(n.v, "i")),
    "arg2": lambda m, n: (f"return idg(5,{n.x},6);", m.wrap(n.v, "i")),
    "asgi": lambda m, n: (f"int t;t={n.x};return t;", m.wrap(n.v, "i")),
    "asgc": lambda m, n: (f"signed char t={n.x};return t;", m.wrap(n.v, "c")),
    "asgw": lambda m, n: (f"gt={n.x};return gt;", m.wrap(n.v, "w")),
    "sw": lambda m, n: (f"switch({n.x}){{case 0:return 3;case 1:return 4;default:return 5;}}",
                        np.where(np.asarray(n.v) == 0, 3, np.where(np.asarray(n.v) == 1, 4, 5))),
}


class Func:
    __slots__ = ("body", "v", "ok", "trap", "key")

    def __init__(self, m, n, ctx="ret"):
        body, v = CONTEXTS[ctx](m, n)
        pro = prologue(n.needs)
        if ctx in ("asgi", "asgc"):   # declarations first
            d, _, b = body.partition(";")
            if ctx == "asgi":
                body = "int t;" + pro + b
            else:
                body = pro + "{" + body + "}"
        elif ctx == "do":
            body = "int kk=0;" + pro + body
        else:
            body = pro + body
        self.body, self.v, self.ok, self.trap, self.key = body, m.wrap(v, "i"), n.ok, n.trap, ctx + ":" + n.x.replace(" ", "")


def header(m, names="xyz", macros=False):
    """Declarations of every operand object."""
    o = []
    for s in SLOTS:
        for t in TYPES:
            o.append(f"{CNAME[t]} g{s}{t};{CNAME[t]}*p{s}{t};{CNAME[t]} f{s}{t}(void){{return g{s}{t};}}")
    for t in TYPES:
        o.append(f"{CNAME[t]} e{t}[8];")
    o.append("struct S{" + "".join(f"{CNAME[t]} {t};" for t in TYPES) + "};")
    for s in SLOTS:
        o.append(f"struct S r{s},*q{s};int k{s};")
    o.append("int tab[8]={1,4,7,10,13,16,19,22};unsigned short gt;int idf(int a){return a;}int idg(int a,int b,int c){return b;}")
    return "\n".join(o) + "\n"


def setter():
    """void set(int x,int y,int z): gives every operand object its value. Objects of one slot never overlap others."""
    o = ["void set(int x,int y,int z){"]
    for i, s in enumerate(SLOTS):
        o.append(f"q{s}=&r{s};k{s}={i * 2 + 1 if s != 'z' else 0};")
        for t in TYPES:
            o.append(f"g{s}{t}={s};p{s}{t}=&g{s}{t};r{s}.{t}={s};e{t}[k{s}]={s};")
    o.append("}")
    return "\n".join(o) + "\n"


# kz is 0 (the orr context needs it) and kx is 1 (the andr context)


def program(m, grid, funcs, epilogue):
    src = [header(m)]
    for i, f in enumerate(funcs):
        src.append(f"int F{i}(int x,int y,int z){{{f.body}}}\n")
    src.append(setter())
    src.append("int (*ft[])(int,int,int)={" + ",".join(f"F{i}" for i in range(len(funcs))) + "};\n")
    T = len(grid[0])
    for n, g in zip("XYZ", grid):
        src.append(f"int G{n}[]={{" + ",".join(lit(m, int(v), "i").x for v in g) + "};\n")
    src.append(f"enum{{NF={len(funcs)},NT={T}}};\n")
    src.append(epilogue)
    return "".join(src)


MAIN_UNIX = """
int read(int,void*,unsigned);int write(int,void*,unsigned);
int out[NF];char skip[NF];
int main(void){int t,k;
for(t=0;t<NT;t++){
 if(SKIP){k=0;while(k<NF){int r=read(0,skip+k,NF-k);if(r<=0)return 3;k+=r;}}
 set(GX[t],GY[t],GZ[t]);
 for(k=0;k<NF;k++){out[k]=(SKIP&&skip[k]=='1')?0:ft[k](GX[t],GY[t],GZ[t]);}
 k=0;while(k<NF*(int)sizeof(int)){int r=write(1,(char*)out+k,NF*sizeof(int)-k);if(r<=0)return 4;k+=r;}
}
return 0;}
"""


def skipmap(funcs, T):
    any_ = any(f.trap is not False and np.any(f.trap) for f in funcs)
    if not any_:
        return None
    a = np.zeros((T, len(funcs)), np.uint8)
    for i, f in enumerate(funcs):
        if f.trap is not False:
            a[:, i] = f.trap
    return (a + ord("0")).astype(np.uint8)


def expected(m, funcs, T):
    E = np.empty((T, len(funcs)), np.int64)
    OK = np.empty((T, len(funcs)), bool)
    for i, f in enumerate(funcs):
        E[:, i] = f.v
        OK[:, i] = f.ok
        if f.trap is not False:
            OK[:, i] &= ~np.asarray(f.trap)
    return E, OK


def mkgrid(a, b, c=None):
    """Product grid of value lists."""
    L = list(itertools.product(a, b, c if c is not None else [3]))
    return [np.array([t[i] for t in L], np.int64) for i in range(3)]
