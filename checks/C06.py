"""C06: control flow. All statement trees up to a size x all condition outcomes; traces against a reference interpreter."""
import sys, os, itertools, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R, snip as S

FUEL = 18

# ---- conditions: ("c",) next input bit; ("k", 0/1); ("!", e) ("&&", l, r) ("||", l, r) ("?", c, a, b) (",", l, r) ("a", k, e) event then value
def ctext(e):
    o = e[0]
    if o == "c":
        return "c()"
    if o == "k":
        return str(e[1])
    if o == "ev":
        return f"a({e[1]})"
    if o == "!":
        return f"!({ctext(e[1])})"
    if o == "?":
        return f"({ctext(e[1])}?{ctext(e[2])}:{ctext(e[3])})"
    if o == "==0":
        return f"({ctext(e[1])}==0)"
    if o == "lt":
        return f"(({ctext(e[1])})<1)"
    return f"({ctext(e[1])}{o}{ctext(e[2])})"


class Abort(Exception):
    pass


class M:
    __slots__ = ("bits", "n", "h", "fuel", "mask", "steps")

    def __init__(self, bits, ibits):
        self.bits, self.n, self.h, self.fuel, self.mask, self.steps = bits, 0, 1, 0, (1 << ibits) - 1, 0

    def ev(self, k):
        self.h = (self.h * 33 + k) & self.mask
        self.fuel += 1
        if self.fuel >= FUEL:
            raise Abort

    def c(self):
        if self.n >= len(self.bits):
            raise Need
        b = self.bits[self.n]
        self.n += 1
        self.ev(50 + b)
        return b


class Need(Exception):
    pass


class Stuck(Exception):
    pass


def ceval(e, m):
    o = e[0]
    if o == "c":
        return m.c()
    if o == "k":
        return e[1]
    if o == "ev":
        m.ev(e[1])
        return e[1]
    if o == "!":
        return int(not ceval(e[1], m))
    if o == "==0":
        return int(ceval(e[1], m) == 0)
    if o == "lt":
        return int(ceval(e[1], m) < 1)
    if o == "&&":
        return int(bool(ceval(e[1], m)) and bool(ceval(e[2], m)))
    if o == "||":
        return int(bool(ceval(e[1], m)) or bool(ceval(e[2], m)))
    if o == ",":
        ceval(e[1], m)
        return ceval(e[2], m)
    if o == "?":
        return ceval(e[2], m) if ceval(e[1], m) else ceval(e[3], m)


# ---- statements -> flat code of the reference machine
class Flat:
    def __init__(self):
        self.code = []
        self.names = {}

    def emit(self, *a):
        self.code.append(list(a))
        return len(self.code) - 1

    def stmt(self, s, brk, cont):
        """brk, cont: lists of instruction indexes to patch."""
        o = s[0]
        if o == "a":
            self.emit("ev", s[1])
        elif o == ";":
            pass
        elif o == "break":
            brk.append(self.emit("jmp", None))
        elif o == "continue":
            cont.append(self.emit("jmp", None))
        elif o == "return":
            self.emit("ret")
        elif o == "goto":
            self.emit("goto", s[1])
        elif o == "label":
            self.names[s[1]] = len(self.code)
            self.stmt(s[2], brk, cont)
        elif o == "seq":
            for x in s[1:]:
                self.stmt(x, brk, cont)
        elif o in ("blk", "blk0"):
            self.stmt(s[2], brk, cont)
            self.emit("ev", s[1])
        elif o == "if":
            j = self.emit("jz", s[1], None)
            self.stmt(s[2], brk, cont)
            if len(s) > 3:
                k = self.emit("jmp", None)
                self.code[j][2] = len(self.code)
                self.stmt(s[3], brk, cont)
                self.code[k][1] = len(self.code)
            else:
                self.code[j][2] = len(self.code)
        elif o in ("while", "for"):
            b, c = [], []
            if o == "for" and s[1] is not None:
                self.emit("ev", s[1])
            top = len(self.code)
            cond = s[1] if o == "while" else s[2]
            j = self.emit("jz", cond, None) if cond is not None else None
            self.stmt(s[2] if o == "while" else s[4], b, c)
            step = len(self.code)
            if o == "for" and s[3] is not None:
                self.emit("ev", s[3])
            self.emit("jmp", top)
            end = len(self.code)
            if j is not None:
                self.code[j][2] = end
            for x in b:
                self.code[x][1] = end
            for x in c:
                self.code[x][1] = step
        elif o == "do":
            b, c = [], []
            top = len(self.code)
            self.stmt(s[1], b, c)
            step = len(self.code)
            self.emit("jnz", s[2], top)
            for x in b:
                self.code[x][1] = len(self.code)
            for x in c:
                self.code[x][1] = step
        elif o == "switch":
            # ("switch", body) ; control: two input bits; body: list of (label or None, stmt); labels 0..3, 'default', 'x' = none
            b = []
            sw = self.emit("sw", None, None)
            tab = {}
            for lab, st in s[1]:
                for l in lab:
                    tab[l] = len(self.code)
                self.stmt(st, b, cont)
            end = len(self.code)
            self.code[sw][1] = tab
            self.code[sw][2] = end
            for x in b:
                self.code[x][1] = end
        else:
            raise KeyError(o)


def flat(s):
    f = Flat()
    f.stmt(s, [], [])
    f.emit("ret")
    for i in f.code:
        if i[0] == "goto":
            i[0] = "jmp"
            i[1] = f.names[i[1]]
    return f.code


def execute(code, bits, ibits):
    """(hash, bits used). Raises Need when more bits are wanted, Stuck for a silent loop."""
    m = M(bits, ibits)
    pc = 0
    quiet = 0
    last = 0
    try:
        while True:
            i = code[pc]
            pc += 1
            o = i[0]
            if o == "ev":
                m.ev(i[1])
            elif o == "jmp":
                pc = i[1]
            elif o == "jz":
                if not ceval(i[1], m):
                    pc = i[2]
            elif o == "jnz":
                if ceval(i[1], m):
                    pc = i[2]
            elif o == "ret":
                m.h = (m.h * 33 + 98) & m.mask
                return m.h, m.n
            elif o == "sw":
                b = m.c()
                b += 2 * m.c()
                pc = i[1].get(b, i[1].get("default", i[2]))
            if m.fuel == last:
                quiet += 1
                if quiet > 60:
                    raise Stuck
            else:
                quiet, last = 0, m.fuel
    except Abort:
        m.h = (m.h * 33 + 99) & m.mask
        return m.h, m.n


def table(code, B, ibits):
    """Result for each x < 2^B (bit i of x is the i-th outcome; running out of outcomes aborts)."""
    v = np.zeros(1 << B, np.int64)
    stack = [[]]
    n = 0
    while stack:
        p = stack.pop()
        try:
            h, used = execute(code, p, ibits)
        except Need:
            if len(p) == B:
                # the harness aborts when bits run out
                h, used = exhausted(code, p, ibits), B
            else:
                stack.append(p + [1])
                stack.append(p + [0])
                continue
        n += 1
        low = sum(b << i for i, b in enumerate(p))
        v[low::1 << len(p)] = h
    return v, n


def exhausted(code, bits, ibits):
    m = M(bits, ibits)
    pc = 0
    try:
        while True:
            i = code[pc]
            pc += 1
            o = i[0]
            if o == "ev":
                m.ev(i[1])
            elif o == "jmp":
                pc = i[1]
            elif o == "jz":
                if not ceval(i[1], m):
                    pc = i[2]
            elif o == "jnz":
                if ceval(i[1], m):
                    pc = i[2]
            elif o == "sw":
                b = m.c()
                b += 2 * m.c()
                pc = i[1].get(b, i[1].get("default", i[2]))
    except (Need, Abort):
        return (m.h * 33 + 99) & m.mask


# ---- text
def text(s, nested=False):
    o = s[0]
    if o == "a":
        return f"a({s[1]});"
    if o == ";":
        return ";"
    if o in ("break", "continue"):
        return o + ";"
    if o == "return":
        return "return fin();"
    if o == "goto":
        return f"goto {s[1]};"
    if o == "label":
        return f"{s[1]}:{text(s[2])}"
    if o == "seq":
        return "{" + "".join(text(x) for x in s[1:]) + "}"
    if o == "blk":
        return "{int v=%d;%sa(v);}" % (s[1], text(s[2]))
    if o == "blk0":
        return "{int v;%sv=%d;a(v);}" % (text(s[2]), s[1])
    if o == "if":
        c = ctext(s[1])
        if len(s) == 3:
            return f"if({c}){text(s[2])}"
        t = text(s[2])
        if dangling(s[2]):
            t = "{" + t + "}"
        return f"if({c}){t}else {text(s[3])}"
    if o == "while":
        return f"while({ctext(s[1])}){text(s[2])}"
    if o == "for":
        e = lambda k: "" if k is None else f"a({k})"
        return f"for({e(s[1])};{'' if s[2] is None else ctext(s[2])};{e(s[3])}){text(s[4])}"
    if o == "do":
        return f"do {text(s[1])}while({ctext(s[2])});"
    if o == "switch":
        r = ""
        for lab, st in s[1]:
            r += "".join("default:" if l == "default" else f"case {l}:" for l in lab) + text(st)
        return "switch(c2()){" + r + "}"
    raise KeyError(o)


def dangling(s):
    """Would a following else attach to an if inside s?"""
    o = s[0]
    if o == "if":
        return len(s) == 3 or dangling(s[3])
    if o == "while":
        return dangling(s[2])
    if o == "for":
        return dangling(s[4])
    if o == "label":
        return dangling(s[2])
    return False


CB = ("c",)


def gen(n, loop, sw, conds, memo={}):
    """All statements with exactly n nodes. loop/sw: inside a loop / breakable."""
    key = (n, loop, sw, conds)
    if key in memo:
        return memo[key]
    r = []
    if n == 1:
        r = [("a", 1), (";",), ("return",)]
        if loop or sw:
            r.append(("break",))
        if loop:
            r.append(("continue",))
    else:
        for c in conds:
            for s in gen(n - 1, loop, sw, conds):
                r.append(("if", c, s))
            for s in gen(n - 1, True, True, conds):
                r.append(("while", c, s))
                r.append(("do", s, c))
                r.append(("for", 2, c, 3, s))
        for s in gen(n - 1, True, True, conds):
            r.append(("for", None, None, 3, s))
        for s in gen(n - 1, loop, sw, conds):
            r.append(("blk", 7, s))
        for s in gen(n - 1, loop, True, conds):
            r.append(("switch", [((1,), s)]))
            r.append(("switch", [(("default",), s)]))
        for i in range(1, n - 1):
            for a in gen(i, loop, sw, conds):
                for b in gen(n - 1 - i, loop, sw, conds):
                    r.append(("seq", a, b))
                    r.append(("if", CB, a, b))
            for a in gen(i, loop, True, conds):
                for b in gen(n - 1 - i, loop, True, conds):
                    r.append(("switch", [((0,), a), (("default",), b)]))
                    r.append(("switch", [(("default", 1), a), ((2,), b)]))
    memo[key] = r
    return r


def number(s, k=None):
    """Distinct event numbers in preorder."""
    k = k or itertools.count(1)
    o = s[0]
    if o == "a":
        return ("a", next(k))
    if o == "blk":
        return ("blk", next(k), number(s[2], k))
    if o == "seq":
        return ("seq",) + tuple(number(x, k) for x in s[1:])
    if o == "if":
        return ("if", s[1]) + tuple(number(x, k) for x in s[2:])
    if o == "while":
        return ("while", s[1], number(s[2], k))
    if o == "do":
        return ("do", number(s[1], k), s[2])
    if o == "for":
        return ("for", s[1] and next(k) + 20, s[2], s[3] and next(k) + 20, number(s[4], k))
    if o == "switch":
        return ("switch", [(l, number(x, k)) for l, x in s[1]])
    if o == "label":
        return ("label", s[1], number(s[2], k))
    return s


def fam_trees(sizes, conds):
    for n in sizes:
        for s in gen(n, False, False, conds):
            yield ("seq", ("a", 40), number(s), ("a", 41))


def fam_goto(n):
    """n lines with labels, every line any of: event, conditional jump, jump; some lines inside blocks and loops."""
    labs = [f"L{i}" for i in range(n)]
    menu = [("a", None), (";",)] + [("goto", l) for l in labs] + [("if", CB, ("goto", l)) for l in labs] + [("return",)]
    for ls in itertools.product(menu, repeat=n):
        lines = [("label", labs[i], ("a", i + 1) if l[0] == "a" else l) for i, l in enumerate(ls)]
        if all(l[0] in ("a", ";", "return") for l in ls):
            continue
        yield ("seq", ("a", 40), *lines, ("a", 41))
        if n == 3:
            yield ("seq", ("a", 40), ("while", CB, ("seq", lines[0], ("a", 30), lines[1])), lines[2], ("a", 41))
            yield ("seq", lines[0], ("do", ("seq", ("a", 30), lines[1], ("blk0", 7, lines[2])), CB), ("a", 41))
            yield ("seq", ("if", CB, ("seq", lines[0], ("a", 30)), lines[1]), ("for", 21, CB, 22, lines[2]), ("a", 41))
            yield ("seq", ("switch", [((0, 2), lines[0]), ((1,), ("seq", lines[1], ("break",))), (("default",), ("blk0", 7, lines[2]))]), ("a", 41))


def cond_trees(n):
    """Boolean expressions with exactly n leaves."""
    if n == 1:
        return [CB, ("k", 0), ("k", 1)]
    r = []
    for i in range(1, n):
        for a in cond_trees(i):
            for b in cond_trees(n - i):
                for o in ("&&", "||", ","):
                    r.append((o, a, b))
    for i in range(1, n - 1):
        for j in range(1, n - i):
            for a in cond_trees(i):
                for b in cond_trees(j):
                    for c in cond_trees(n - i - j):
                        r.append(("?", a, b, c))
    return r


def fam_conds(leaves, ctxs):
    for n in leaves:
        for e in cond_trees(n):
            for v in ([e, ("!", e)] if n > 1 else [e, ("!", e), ("!", ("!", e)), ("==0", e), ("lt", e)]):
                for c in ctxs:
                    yield c(v)
            if n > 1 and e[0] in ("&&", "||"):
                for v in ((e[0], ("!", e[1]), e[2]), (e[0], e[1], ("!", e[2])), (e[0], ("==0", e[1]), e[2])):
                    for c in ctxs:
                        yield c(v)


CTX = [lambda e: ("seq", ("if", e, ("a", 1), ("a", 2)), ("a", 3)),
       lambda e: ("seq", ("if", e, ("a", 1)), ("a", 3)),
       lambda e: ("seq", ("while", e, ("a", 1)), ("a", 3)),
       lambda e: ("seq", ("do", ("a", 1), e), ("a", 3)),
       lambda e: ("seq", ("for", 4, e, 5, ("a", 1)), ("a", 3))]


class Fn:
    def __init__(self, s, B, ibits, key):
        self.body = None
        self.v, self.n = table(flat(s), B, ibits)
        self.trap = False
        self.ok = True
        t = text(s)
        self.key = key + ":" + t
        self.body = "X0{" + t + "}return fin();"


DECL = """
typedef struct{unsigned a,b,c,d;}jb_t[1];int setjmp(jb_t);void longjmp(jb_t,int);jb_t jb;
int inp,nin,hh,fu;
void die(void){hh=hh*33+99;longjmp(jb,1);}
int a(int k){hh=hh*33+k;if(++fu>=FUEL)die();return k;}
int c(void){int b;if(nin>=BITS)die();b=inp>>nin&1;++nin;a(50+b);return b;}
int c2(void){int b=c();return b+2*c();}
int fin(void){hh=hh*33+98;return hh;}
"""
X0 = "inp=x;nin=fu=0;hh=1;if(setjmp(jb))return hh;"
MIPSDECL = DECL.replace("typedef struct{unsigned a,b,c,d;}jb_t[1];int setjmp(jb_t);void longjmp(jb_t,int);", "typedef int jb_t[200];int _setjmp(int*);void longjmp(int*,int);")
MIPSX0 = X0.replace("setjmp", "_setjmp")


def build(job):
    """In a worker process: functions for a slice of a family."""
    label, args, part, nparts, B, ibits = job
    fs = []
    skipped = 0
    for i, s in enumerate(FAMS[label](*args)):
        if i % nparts != part:
            continue
        try:
            fs.append(Fn(s, B, ibits, label))
        except Stuck:
            skipped += 1
    return fs, skipped


FAMS = {
    "trees": lambda sizes, conds: fam_trees(sizes, conds),
    "goto": lambda n: fam_goto(n),
    "conds": lambda leaves, ctx: fam_conds(leaves, [CTX[i] for i in ctx]),
}


class CBatch(R.Batch):
    def source(self, main):
        x0, decl = (MIPSX0, MIPSDECL) if self.decls == "mips" else (X0, DECL)
        B = int(len(self.grid[0])).bit_length() - 1
        src = decl.replace("FUEL", str(FUEL)).replace("BITS", str(B))
        for i, f in enumerate(self.funcs):
            src += f"int F{i}(int x,int y,int z){{" + f.body.replace("X0", x0, 1) + "}\n"
        src += "int (*ft[])(int,int,int)={" + ",".join(f"F{i}" for i in range(len(self.funcs))) + "};\n"
        src += "".join(f"int G{n}[]={{" + ",".join(str(int(v)) for v in g) + "};\n" for n, g in zip("XYZ", self.grid))
        src += f"enum{{NF={len(self.funcs)},NT={len(self.grid[0])}}};void set(int x,int y,int z){{}}\n" + main
        return src.replace("SKIP", "0"), b""


# ---- controlling expressions of every scalar type, constant and loaded, in every place that tests a value
PRE_T = "int zi;int*gp;char gc[3];void gf(void){}struct ts{int a,b;}gs;\n"


def typed(word, fp):
    k = [("0", 0), ("1", 1), ("-1", 1), ("0u", 0), ("2u", 1), ("0x100", 1), ("0x8000", 1), ("'\\0'", 0), ("'0'", 1), ("(char)0x100", 0), ("(char)0x180", 1), ("(unsigned char)256", 0), ("(unsigned char)257", 1),
         ("(signed char)-256", 0), ("(signed char)128", 1), ("(char)-1", 1), ("sizeof(int)-sizeof(int)", 0), ("sizeof(char)", 1), ("1-1", 0), ("!1", 0), ("!0", 1), ("~0", 1), ("~-1", 0), ("-0", 0), ("+0", 0), ("3&4", 0), ("3&&4", 1),
         ("0||0", 0), ("1,0", 0), ("0,1", 1), ("1?0:1", 0), ("0?0:1", 1), ("1>2", 0), ("-1<0u", 0), ("-1<0", 1), ("(int*)0", 0), ("(void*)0", 0), ("(int*)1", 1), ("(char*)0+1", 1), ("gc", 1), ("gc+1", 1), ("&gc[2]", 1), ("&zi", 1), ("gf", 1), ("&gf", 1), ("&gs.b", 1),
         ('"a"', 1), ('""', 1), ('*""', 0), ('*"a"', 1), ('"ab"[2]', 0), ("zi", 0), ("!zi", 1), ("gp", 0), ("!gp", 1), ("*gc", 0), ("gc[1]", 0), ("gs.a", 0), ("(&gs)->b", 0), ("zi++,--zi", 0), ("zi=0", 0), ("(zi=1)&&(zi=0,1)", 1), ("gc==0", 0), ("gf!=0", 1)]
    if word == 4:
        k += [("(short)0x10000", 0), ("(unsigned short)0x18000", 1), ("(short)0x18000", 1), ("(unsigned short)-65536", 0), ("0x10000", 1), ("0x80000000", 1), ("(long)0", 0), ("(short)1", 1)]
    fl = [("0.0f", 0), ("-0.0f", 0), ("0.5f", 1), ("-0.5f", 1), ("1e-30f", 1), ("-1e-30f", 1), ("1e-45f", 1), ("1e30f", 1), ("0.0f*-1", 0), ("-(0.0f)", 0), ("-(float)0", 0), ("(float)0", 0), ("(float)1", 1), ("(float)-1", 1), ("(float)0u", 0), ("0.5f-0.5f", 0),
          ("(int)0.5f", 0), ("(int)-0.5f", 0), ("(int)1.5f", 1), ("1e-20f*1e-30f", 0), ("0.0f==-0.0f", 1), ("0.0f<-0.0f", 0), ("0.5f<1", 1), ("!0.5f", 0), ("!0.0f", 1), ("!-0.0f", 1), ("!!0.25f", 1), ("0.5f&&0.25f", 1), ("0.5f&&-0.0f", 0), ("-0.0f||0.0f", 0), ("-0.0f||1e-30f", 1),
          ("1?0.0f:1", 0), ("0?0:0.5f", 1), ("0,0.5f", 1), ("0.5f,0", 0), ("(float)0.5f", 1), ("(char)0.5f", 0), ("(unsigned char)256.5f", None), ("0.5f!=0", 1), ("1/(1/-0.0f)", None)] if fp else []
    ty = [("char", ["0", "1", "-128", "127"]), ("unsigned char", ["0", "1", "128", "255"]), ("signed char", ["0", "-1"]), ("short", ["0", "1", "256", "-32767-1"]), ("unsigned short", ["0", "256", "0x8000", "0xff00"]), ("int", ["0", "1", "256", "-1"]), ("unsigned", ["0", "256", "0x8000"]),
          ("int*", ["0", "(int*)0x100", "&zi"]), ("void(*)(void)", ["0", "gf"])]
    if word == 4:
        ty[5] = ("int", ["0", "1", "256", "65536", "0x1000000", "-2147483647-1"])
        ty += [("long", ["0", "65536"]), ("unsigned long", ["0", "0x80000000"])]
    if fp:
        ty += [("float", ["0.0f", "-0.0f", "1.0f", "-1.0f", "0.5f", "1e-38f", "-1e-38f", "1e-45f", "1e38f"])]
    items = [(e, t, "", "", "") for e, t in k + fl if t is not None]
    for t, vs in ty:
        for v in vs:
            tr = int(v not in ("0", "0.0f", "-0.0f"))
            d = f"void(*g@@)(void)={v};" if "(*)" in t else f"{t} g@@={v};"
            l = d.replace("g@@", "l")
            items += [("g@@", tr, d, "", ""), ("l", tr, "", l, ""), ("l+0" if t[-1] != ")" else "l==0?0:l", tr, "", l, ""), ("l,g@@", tr, d, l, ""), ("zi?g@@:l", tr, d, l, "")]
            if t[-1] != ")":
                items += [("*q", tr, d, f"{t}*q=&g@@;", ""), ("l=g@@", tr, d, f"{t} l;", ""), ("r@@()", tr, d + f"{t} r@@(void){{return g@@;}}", "", ""), (f"({t})g@@", tr, d, "", ""), ("w.b", tr, "", f"struct{{char a;{t} b;}}w={{1,{v}}};", "")]
                if t[-1] != "*" :
                    items += [("-l", tr, "", l, ""), ("+l", tr, "", l, "")]
    for e, t, d, l, _ in items:
        p = f"({e})" if "," in e or "=" in e else e
        b = l + f"int n=0;if({e})o(1);else o(2);if({e})o(3);o(4);while({e}){{o(5);if(++n==2)break;}}do{{o(6);if(++n>4)break;}}while({e});for(;{e};){{o(7);if(++n>6)break;}}"
        x = ([1, 3] if t else [2]) + [4] + ([5, 5] if t else [])
        n = 2 if t else 0
        while True:
            x.append(6)
            n += 1
            if n > 4 or not t:
                break
        while t:
            x.append(7)
            n += 1
            if n > 6:
                break
        b += f"o(({e})?8:9);o(!({e}));o(!!({e}));o(({e})&&zi+1);o(zi||({e}));o((zi+1)&&({e}));o(({e})||zi);if(!({e}))o(10);if(({e})&&zi+1)o(11);if(zi||({e}))o(12);if(!({e})||zi)o(13);else o(14);n=({e})?3:4;o(n);n=!({e});o(n);n=zi||({e});o(n);if(({e})&&({e}))o(15);o(zi);"
        x += [8 if t else 9, 1 - t, t, t, t, t, t] + ([] if t else [10]) + ([11, 12] if t else []) + [14 if t else 13, 3 if t else 4, 1 - t, t] + ([15] if t else []) + [0]
        yield S.Snip(b, x, d)


def switches(word):
    """switch on every integer type; case constants converted to the promoted type."""
    ty = [("char", -128, 127), ("unsigned char", 0, 255), ("signed char", -128, 127), ("short", -32768, 32767), ("unsigned short", 0, 65535)]
    ty += [("int", -2**31, 2**31 - 1), ("unsigned", 0, 2**32 - 1), ("long", -2**31, 2**31 - 1)] if word == 4 else [("int", -32768, 32767), ("unsigned", 0, 65535)]
    W = 1 << (8 * word)
    lit = lambda v: f"(-{-v - 1}-1)" if v < 0 else f"{v}u" if v >= W // 2 else str(v)
    pts = [0, 1, -1, 127, 128, 255, -128, 256, 32767, -32768, 65535]
    if word == 4:
        pts += [32768, 65536, 2**31 - 1, -2**31, 2**32 - 1]
    else:
        pts = [p for p in pts if -32768 <= p < 65536]
    for t, lo, hi in ty:
        vals = [v for v in pts if lo <= v <= hi]
        for n in (1, 2, 3, 5, len(pts)):
            for rot in range(len(pts)):
                cs = []
                for p in pts[rot:] + pts[:rot]:
                    if len(cs) < n and p % W not in [c % W for c in cs]:
                        cs.append(p)
                for de in (None, 0, len(cs)):
                    body = [f"case {lit(c)}:o({i + 1});break;" if i % 3 else f"case {lit(c)}:o({i + 1});" for i, c in enumerate(cs)]
                    if de is not None:
                        body.insert(de, "default:o(99);")
                    src, exp = "", []
                    for v in vals:
                        src += f"x={lit(v)};f@@(x);"
                        seq = [(c % W, i + 1, bool(i % 3)) for i, c in enumerate(cs)]
                        if de is not None:
                            seq.insert(de, (None, 99, False))
                        pos = next((i for i, s in enumerate(seq) if s[0] == v % W), None)
                        if pos is None and de is not None:
                            pos = next(i for i, s in enumerate(seq) if s[0] is None)
                        while pos is not None and pos < len(seq):
                            exp.append(seq[pos][1])
                            if seq[pos][2]:
                                break
                            pos += 1
                        exp.append(77)
                    yield S.Snip(f"{t} x;" + src, exp, f"void f@@({t} x){{switch(x){{{''.join(body)}}}o(77);}}")


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds", "lcdh"))
    st = R.Stats()
    th = chk.thorough
    paths = 0
    skipped = 0
    B = 6 if th else 5
    both = (CB, ("k", 1), ("k", 0))
    plan = [("trees", ((1, 2, 3), both)), ("trees", ((4,), both if th else (CB,))), ("goto", (2,)), ("goto", (3,)),
            ("conds", ((1, 2, 3), (0, 1, 2, 3, 4)))]
    plan += [("trees", ((5,), (CB,))), ("goto", (4,)), ("conds", ((4,), (0, 2)))] if th else [("trees5", ((5,), (CB,)))]
    FAMS["trees5"] = lambda sizes, conds: (s for i, s in enumerate(fam_trees(sizes, conds)) if True)
    cache = {}
    def funcs(label, args, ibits):
        nonlocal skipped
        k = (label, repr(args), ibits)
        if k not in cache:
            np_ = 16
            out = []
            for fs, sk in vlib.ppmap(build, [(label, args, p, np_, B, ibits) for p in range(np_)]):
                out += fs
                skipped += sk
            cache[k] = out
        return cache[k]
    def suite(be, ibits, plan, tag, size):
        nonlocal paths
        m = C.Model(ibits)
        g = [np.arange(1 << B), np.zeros(1 << B, int), np.zeros(1 << B, int)]
        for label, args in plan:
            fs = funcs(label, args, ibits)
            for f in fs:
                f.v = m.wrap(f.v, "i")
            paths += sum(f.n for f in fs)
            R.check_batches(chk, be, (CBatch(m, g, fs[i:i + size], tag) for i in range(0, len(fs), size)), st, f"{label}{args[0]}")
    suite(R.LinuxBackend(tc), 32, plan, "", 120)
    suite(R.MipsBackend(tc), 32, plan[:4] if not th else plan[:5], "mips", 120)
    suite(R.DosBackend(tc, ("-doss",), "doss", False), 16, plan[:3] if not th else plan[:5], "", 60)
    suite(R.DosBackend(tc, ("-dosh",), "dosh", False), 32, plan[:3] if not th else plan[:5], "", 60)
    m32, m16 = C.Model(32), C.Model(16)
    for be, m, w, fp, n in ((R.LinuxBackend(tc), m32, 4, True, 40), (R.MipsBackend(tc), m32, 4, False, 40), (R.DosBackend(tc, ("-doss",), "doss", False), m16, 2, False, 15), (R.DosBackend(tc, ("-dosh",), "dosh", False), m32, 4, True, 20)):
        S.check(chk, be, m, typed(w, fp), n, st, "typed", PRE_T, 300)
        S.check(chk, be, m, switches(w), n, st, "switch", "", 300)
    chk.assumptions += [f"executions are cut after {FUEL} events or {B} condition outcomes; loops without any event are not generated ({skipped} programs)"]
    chk.finish(states=st.funcs, transitions=st.evals, traces_validated_against_impl=paths, families=st.families, programs=st.batches, exhaustive=True,
               rule="states: distinct statement trees; transitions: executions (tree x outcome string); traces: distinct paths of the reference machine, each compared with the compiled program's trace hash",
               samples=st.samples)


if __name__ == "__main__":
    vlib.main("C06", "model_checking", body)
