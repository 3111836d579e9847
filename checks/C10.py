"""C10: calls, arguments, results, variadic access, recursion, structures by value, interoperation with gcc -m32."""
import sys, os, itertools, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R
from snip import Snip, check

SCAL = {"c": ("char", 1, True), "b": ("unsigned char", 1, False), "s": ("short", 2, True), "w": ("unsigned short", 2, False), "i": ("int", 0, True), "u": ("unsigned", 0, False)}
STRUCTS = {"A": ["char a"], "B": ["short a"], "D": ["char a", "char b", "char c"], "E": ["int a", "char b"], "G": ["int a", "int b"], "H": ["char a", "int b", "short c"], "K": ["int a", "int b", "int c", "int d", "char e"], "N": ["char a[5]"]}
PRE = "".join("struct %s{%s;};" % (k, ";".join(v)) for k, v in STRUCTS.items()) + "\nint gz[4];char*gs=\"str\";int gt(int x){gz[3]=gz[3]*3+x;return x;}\n"


def wrapv(v, size, signed):
    m = 1 << (8 * size)
    v %= m
    return v - m if signed and v >= m // 2 else v


class V:
    """A value of a type: caller text, checks of a name, expected list."""
    ctr = itertools.count(1)


VALS = [0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 1000, -1000, 77, 0x1234, -32767, 65]


def val(t, n, word):
    """n-th value of type t -> (declaration for the caller's object, expression, checks(name) -> (text, expected))."""
    if t in SCAL:
        ty, sz, sg = SCAL[t]
        v = VALS[(n * 7 + ord(t)) % len(VALS)]
        if word == 4 and t in "iu" and n % 3 == 0:
            v = v * 60007
        return "", f"({v})", lambda nm: (f"o({nm});", [wrapv(v, sz or word, sg)])
    if t == "p":
        k = n % 4
        return "", f"gz+{k}", lambda nm: (f"o({nm}-gz);", [k])
    if t == "q":
        return "", '"s%d"' % (n % 10), lambda nm: (f"o({nm}[0]);o({nm}[1]);o({nm}[2]);", [115, 48 + n % 10, 0])
    if t == "f":
        v = [0.0, 1.5, -2.25, 1e6, 3.0, -7.0][n % 6]
        return "", f"{v}f" if v >= 0 else f"(-{-v}f)", lambda nm: (f"o((int)({nm}*4));", [int(v * 4)])
    if t == "F":
        return "", "gt", lambda nm: (f"o({nm}==gt);", [1])
    mem = STRUCTS[t]
    dec, chk, exp = f"struct {t} @N@=" + "{", "", []
    vals = []
    for j, m in enumerate(mem):
        ty, nm = m.rsplit(" ", 1)
        if nm == "a[5]":
            vs = [(n * 3 + j + q) % 100 for q in range(5)]
            vals.append("{" + ",".join(map(str, vs)) + "}")
            chk += "".join(f"o(%s.a[{q}]);" for q in range(5))
            exp += vs
        else:
            sz = {"char": 1, "short": 2, "int": word}[ty]
            v = wrapv(VALS[(n * 5 + j * 3) % len(VALS)], sz, True)
            vals.append(f"({v})")
            chk += f"o(%s.{nm});"
            exp.append(v)
    return dec + ",".join(vals) + "};", "@N@", lambda nm: (chk.replace("%s", nm), exp)


def tname(t, name):
    if t in SCAL:
        return f"{SCAL[t][0]} {name}"
    return {"p": f"int*{name}", "q": f"char*{name}", "f": f"float {name}", "F": f"int(*{name})(int)", "v": f"void {name}"}.get(t) or f"struct {t} {name}"


def rettype(t):
    return tname(t, "").strip() if t != "F" else None


def sig(word, params, ret, n, how):
    """One call: callee reports every parameter and clobbers it; the caller checks its own locals and the result."""
    pc, pe = "", []
    ptxt, args, cdec, post, poste = [], [], "", "", []
    for j, t in enumerate(params):
        d, a, ck = val(t, n + j * 5, word)
        nm = f"p{j}"
        ptxt.append(tname(t, nm))
        x, e = ck(nm)
        pc += x
        pe += e
        if d:
            cdec += d.replace("@N@", f"a{j}")
            a = f"a{j}"
            x, e = ck(a)
            post += x
            poste += e
        args.append(a)
    # the callee overwrites its parameters and some locals
    for j, t in enumerate(params):
        if t in SCAL or t in "pqf":
            pc += f"p{j}=0;"
        elif t in STRUCTS:
            pc += f"p{j}.a{'[0]' if t == 'N' else ''}=0;"
    body = ""
    rexp = []
    if ret != "v":
        d, a, ck = val(ret, n + 11, word)
        if d:
            body = f"{d.replace('@N@', 'r')}" + pc + "return r;"
        else:
            body = pc + f"return {a};"
        x, rexp = ck("res")
    else:
        body, x = pc, ""
    fn = f"fn@@"
    decls = f"{tname(ret, fn) if ret != 'F' else ''}({','.join(ptxt) or 'void'}){{int l[3];l[0]=l[2]=99;{body}}}"
    call = fn
    pre = "int k1=4321;char k2=87;"
    if how == "ptr":
        pre += f"{tname(ret, '(*fp)')}({','.join(ptxt) or 'void'})={fn};"
        call = "(*fp)"
    elif how == "ptr2":
        pre += f"struct{{int z;{tname(ret, '(*fp[2])')}({','.join(ptxt) or 'void'});}}h;h.fp[1]={fn};"
        call = "h.fp[1]"
    c = f"{call}({','.join(args)})"
    if ret == "v":
        run = f"{c};"
    elif how == "ignore":
        run, x, rexp = f"{c};", "", []
    elif how == "assign":
        run = f"{tname(ret, 'res')};res={c};"
    else:
        run = f"{tname(ret, 'res')}={c};"
    return Snip(pre + cdec + "short k3=-77;" + run + x + post + "o(k1);o(k2);o(k3);", pe + rexp + poste + [4321, 87, -77], decls, key=f"w{word} {how} {ret}({','.join(params)})#{n % 7}")


def sigs(word, full, nofloat=False):
    fl = ["f"] if word == 4 and not nofloat else []
    P = list("cbswiupq") + fl + list("ADEGHKN")
    RT = list("vcbswiupq") + fl + list("ABDEGHKN")
    n = 0
    for r in RT:
        for how in ("init", "assign", "ignore", "ptr", "ptr2"):
            yield sig(word, (), r, n, how)
            for p in P + ["F"]:
                n += 1
                yield sig(word, (p,), r, n, how)
            for ps in itertools.product("ciGD" + ("f" if fl else "s"), repeat=2):
                n += 1
                yield sig(word, ps, r, n, how)
    for ps in itertools.product(P, repeat=2):
        for r in "iGv":
            n += 1
            yield sig(word, ps, r, n, "init")
    for ps in itertools.product(P if full else "cwiGA" + ("f" if fl else "q"), repeat=3):
        n += 1
        yield sig(word, ps, "iGvcK"[n % 5], n, ("init", "ptr")[n & 1])
    for ln in (4, 5, 6):
        for ps in itertools.product("ciDG" if ln == 4 and full else "ciK", repeat=ln):
            n += 1
            yield sig(word, ps, "iHv"[n % 3], n, "init")
    for ln in (8, 12, 20):
        for base in ("i", "c", "ci", "iG", "cDf" if fl else "cD", "w", "A", "p"):
            if base == "A" and ln == 20:   # more than one expression may hold
                continue
            n += 1
            yield sig(word, tuple(itertools.islice(itertools.cycle(base), ln)), "i", n, "init")


def nested(word, nofloat=False, huge=False):
    """Calls inside arguments, results used at once, evaluation of every argument exactly once."""
    two = "int f@@(int a,int b){return a*10+b;}struct G g@@(int a,int b){struct G r;r.a=a;r.b=b;return r;}int h@@(struct G x){return x.a*10+x.b;}struct G k@@(struct G x,int n){x.a+=n;return x;}char c@@(int x){return x;}"
    # every expression tree of calls with up to 3 levels
    def trees(d, leaf):
        if d == 0:
            for v in leaf:
                yield str(v), v
            return
        for v in leaf[:1]:
            yield str(v), v
        for (a, av) in trees(d - 1, leaf):
            for (b, bv) in trees(d - 1, leaf):
                yield f"f@@({a},{b})", av * 10 + bv
                yield f"h@@(g@@({a},{b}))", av * 10 + bv
    seen = 0
    for t, v in trees(2, [1, 2]):
        seen += 1
        yield Snip(f"int x=5;o({t});o(x+{t});o({t}+x);o(x);o({t}?1:2);o(g@@({t},3).a);o(g@@(4,{t}).b);o(h@@(k@@(g@@({t},1),2)));", [v, 5 + v, v + 5, 5, 1 if v else 2, v, v, (v + 2) * 10 + 1], two)
    for n in range(1, 7):
        ar = ",".join(f"(gz[{j % 3}]++,gt({j}))" for j in range(n))
        yield Snip(f"int i;for(i=0;i<3;i++)gz[i]=0;o(q@@({ar}));o(gz[0]);o(gz[1]);o(gz[2]);", [sum(j * (j + 1) for j in range(n))] + [len(range(k, n, 3)) for k in range(3)],
                   f"int q@@({','.join(f'int a{j}' for j in range(n))}){{return {'+'.join(f'a{j}*{j + 1}' for j in range(n))};}}")
    for e, v in (("c@@(200)", -56), ("c@@(0x17f)", 127), ("c@@(-1)+1", 0), ("(unsigned char)c@@(200)", 200), ("c@@(255)==-1", 1), ("c@@(128)<0", 1), ("-c@@(200)", 56), ("c@@(c@@(300)+c@@(1))", 45)):
        yield Snip(f"o({e});", [v], two)
    for ty, ex in (("unsigned char", [(300, 44), (-1, 255), (128, 128)]), ("short", [(-2, -2), (32767, 32767)]), ("char", [(300, 44), (128, -128)]), ("unsigned", [(7, 7)])) + ((("unsigned short", [(-1, 65535), (65536 + 5, 5)]), ("short", [(32768, -32768), (70000, 4464)])) if word == 4 else ()):
        for a, e in ex:
            yield Snip(f"int x={a};o(r@@(x));o(r@@(x)*2);o(r2@@(x));o(r@@({a})=={e});", [e, wrapv(e * 2, word, True), e, 1], f"{ty} r@@(int x){{return x;}}int r2@@({ty} x){{return x;}}")
    if word == 4 and not nofloat:
        for b, e in (("float r@@(int x){return x;}", "(int)(r@@(7)*2)"), ("int r@@(float x){return x*2;}", "r@@(7)"), ("float r@@(float x){return x+x;}", "(int)r@@(7)"), ("float r@@(char x){return x*2;}", "(int)r@@(7)"), ("int r@@(float x,...){return x*2;}", "r@@(7)")):
            yield Snip(f"o({e});", [14], b)
    # recursion
    yield Snip("o(fib@@(15));o(ack@@(2,3));o(ev@@(10));o(ev@@(11));o(sum@@(200));", [610, 9, 1, 0, 20100 if word == 4 else 20100],
               "int fib@@(int n){return n<2?n:fib@@(n-1)+fib@@(n-2);}int ack@@(int m,int n){return m?n?ack@@(m-1,ack@@(m,n-1)):ack@@(m-1,1):n+1;}int od@@(int);int ev@@(int n){return n?od@@(n-1):1;}int od@@(int n){return n?ev@@(n-1):0;}int sum@@(int n){int l[4];l[0]=n;l[3]=n?sum@@(n-1):0;return l[0]+l[3];}")
    yield Snip("struct K x;int i;x=r@@(5);o(x.a);o(x.b);o(x.c);o(x.d);o(x.e);", [5, 4 + 3 + 2 + 1 + 0 + 5 if False else 15, 0, 5, 6],
               "struct K r@@(int n){struct K x,y;x.a=n;x.b=0;x.c=0;x.d=n;x.e=n+1;if(n){y=r@@(n-1);x.b=y.b+n;}return x;}")
    for sz in (1, 3, 4, 5, 7, 8, 12, 16, 33, 100, 127, 128, 129, 255, 256, 257, 1000):
        d = f"struct Q@@{{char x[{sz}];}};struct Q@@ f@@(int a,struct Q@@ s,int b){{struct Q@@ t;int i;for(i=0;i<{sz};i++)t.x[i]=s.x[i]+a-b;s.x[0]=0;return t;}}"
        yield Snip(f"struct{{char g;struct Q@@ v;char h;}}a,b;int i,ok=1;a.g=b.g=1;a.h=b.h=2;for(i=0;i<{sz};i++){{a.v.x[i]=i*7;b.v.x[i]=9;}}b.v=f@@(50,a.v,8);for(i=0;i<{sz};i++)if(b.v.x[i]!=(char)(i*7+42)||a.v.x[i]!=(char)(i*7))ok=0;o(ok);o(a.g);o(a.h);o(b.g);o(b.h);o(f@@(3,f@@(2,a.v,1),1).x[{sz - 1}]);o(sizeof a);b=a;o(b.v.x[{sz // 2}]);",
                   [1, 1, 2, 1, 2, wrapv((sz - 1) * 7 + 3, 1, True), sz + 2, wrapv(sz // 2 * 7, 1, True)], d)
    # frames of many sizes: parameters and locals stay addressable
    for n in (1, 2, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 300, 4000) + ((9000, 20000) if word == 4 and not huge else ()):
        yield Snip(f"o(f@@(11,22,33));", [11, 22, 33, 44, n - 1, 66],
                   f"int f@@(int a,char b,int c){{int x=44;int l[{n}];char y=55;int i;for(i=0;i<{n};i++)l[i]=i;o(a);o(b);o(c);o(x);o(l[{n - 1}]);return y+a;}}")


def variadic(word, nofloat=False):
    """Optional arguments reached as stdarg.h documents it: word-aligned, after the last named parameter."""
    VA = "#ifndef VA\n#define VA\n#endif\n"
    F = {"i": ("int", lambda e: f"o({e});"), "u": ("unsigned", lambda e: f"o({e});"), "p": ("int*", lambda e: f"o({e}-gz);"), "G": ("struct G", lambda e: None), "D": ("struct D", lambda e: None)}
    names = "iupGD" + ("f" if word == 4 and not nofloat else "")
    for first in ("int n", "char n", "struct D z,int n", "char*z,char n"):
        for ln in range(0, 4):
            for seq in itertools.product(names, repeat=ln):
                if ln == 3 and first != "int n":
                    continue
                body, args, exp, pre = "", [], [], ""
                for j, t in enumerate(seq):
                    d, a, ck = val(t, j * 3 + ln + 1, word)
                    if d:
                        pre += d.replace("@N@", f"a{j}")
                        a = f"a{j}"
                    args.append(a)
                    ty = tname(t, "").strip() if t != "p" else "int*"
                    x, e = ck(f"v{j}")
                    exp += e
                    w = f"((sizeof({ty})+sizeof(int)-1)&-sizeof(int))"
                    body += f"{tname(t, f'v{j}')}=*({ty}*)((vl+={w})-{w});{x}"
                z = "struct D z0;z0.a=1;" if "struct D z" in first else ""
                fa = ["z0"] if z else ['"q"'] if "char*z" in first else []
                yield Snip(f"{z}{pre}o(f@@({','.join(fa + ['5'] + args)}));", exp + [5], f"int f@@({first},...){{char*vl=(char*)&n+((sizeof(n)+sizeof(int)-1)&-sizeof(int));{body}return n;}}", key=f"w{word} variadic {first} {','.join(seq)}")
    # promotions of narrow arguments in the variable part and in unprototyped calls
    for e, v in (("gc", -5), ("gb", 250), ("gsh", -300), ("'a'", 97), ("(char)300", 44), ("gw", 65000 if word == 4 else 65000 - 65536)):
        pre = "char gc=-5;unsigned char gb=250;short gsh=-300;unsigned short gw=65000u;"
        yield Snip(pre + f"o(f@@(1,{e},7));o(u@@({e},2));", [v + 7 if v + 7 < 32768 or word == 4 else v + 7, v + 2], f"int f@@(int n,...){{int*p=&n;return p[1]+p[2];}}int u@@();int w@@(void){{return 0;}}int u@@(a,b)".replace("int u@@(a,b)", "int u@@(int a,int b)") + "{return a+b;}")


GCC_DRV = r"""
typedef int (*fn)(void);
"""


def interop(chk, tc, st):
    """Scalar signatures called from gcc code into Smaller C code and back."""
    T = {"c": "char", "b": "unsigned char", "s": "short", "w": "unsigned short", "i": "int", "u": "unsigned", "p": "int*"}
    d = vlib.scratch("interop")
    sigs = [ps for n in (0, 1, 2) for ps in itertools.product("cbswiup", repeat=n)] + list(itertools.product("cwip", repeat=3)) + list(itertools.product("ci", repeat=5))
    allc = [(r, ps) for k, ps in enumerate(sigs) for r in ("cbswiup" if len(ps) < 2 else "cbswiu"[k % 6])]
    # Smaller C documents that a function extends its narrow result; gcc does not promise that, so gcc-built callees return words
    W = {"c": (1, True), "b": (1, False), "s": (2, True), "w": (2, False), "i": (4, True), "u": (4, False)}
    allw = [x for x in allc if x[0] in "iup"]
    groups = [(0, allw[i:i + 60]) for i in range(0, len(allw), 60)] + [(1, allc[i:i + 60]) for i in range(0, len(allc), 60)]
    def one(gi):
        order, g = groups[gi]
        callee, caller, main, exp = "", "", "", []
        hdr = "void o(int);extern int gz[4];\n"
        for k, (r, ps) in enumerate(g):
            sgn = f"{T[r]} @f{k}({','.join(T[p] + ' p%d' % j for j, p in enumerate(ps)) or 'void'})"
            vals = []
            cb = ""
            e = []
            for j, p in enumerate(ps):
                v = VALS[(k * 3 + j * 5) % len(VALS)] * (60007 if (k + j) % 3 == 0 else 1)
                if p == "p":
                    vals.append(f"gz+{j % 4}")
                    cb += f"o(p{j}-gz);"
                    e.append(j % 4)
                else:
                    vals.append(f"{v}" if p not in "bwu" else f"({v})")
                    cb += f"o(p{j});"
                    e.append(wrapv(v, *W[p]))
            if r == "p":
                ret, re_ = "gz+2", 2
                rep = f"o(@f{k}({','.join(vals)})-gz);"
            else:
                v = VALS[(k * 11 + 4) % len(VALS)] * (60007 if k % 2 else 1)
                ret, re_ = f"({v})", wrapv(v, *W[r])
                rep = f"o(@f{k}({','.join(vals)}));"
            e.append(re_)
            callee += sgn + "{" + cb + f"return {ret};}}\n"
            hdr += sgn + ";\n"
            caller += f"{{int a=31,b=32,c=33;{rep}o(a+b+c);}}\n"
            exp += e + [96]
        if True:   # order 0: smlrc calls gcc, 1: gcc calls smlrc
            pre = f"{d}/i{gi}_{order}"
            A, B = ("x", "y")
            # the callee reports without a call when gcc builds it: Smaller C functions document that they preserve no register
            open(pre + "callee.c", "w").write((hdr.replace("void o(int);", "extern int ob[4000];extern int on;static void o(int x){ob[on++]=x;}") if order == 0 else hdr).replace("@", A) + callee.replace("@", A))
            open(pre + "caller.c", "w").write(hdr.replace("@", A) + "void run(void){\n" + caller.replace("@", A) + "}\n")
            open(pre + "main.c", "w").write("int gz[4];int ob[4000];int on;void o(int x){ob[on++]=x;}int write(int,void*,unsigned);void run(void);int main(void){run();write(1,ob,on*4);return 0;}\n")
            gccfile = pre + ("callee.c" if order == 0 else "caller.c")
            for opt in ("-O0", "-O2") if order == 0 else ("-O0",):
                r = vlib.run(["gcc", "-m32", opt, "-c", "-w", "-fleading-underscore", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-fno-asynchronous-unwind-tables", "-fcf-protection=none", gccfile, "-o", pre + "g.o"])
                if r.rc:
                    raise vlib.BuildError(repr(r))
                other = pre + ("caller.c" if order == 0 else "callee.c")
                r = tc.cc(["-nopp", "-linux", pre + "main.c", other, pre + "g.o", "-o", pre + ".exe"], cwd=d)
                out = None
                if r.rc == 0:
                    r = tc.run([pre + ".exe"])
                    import numpy as np
                    out = [int(x) for x in np.frombuffer(r.out[:len(r.out) // 4 * 4], "<i4")]
                ex = [wrapv(x, 4, True) for x in exp]
                if out != ex:
                    i = next((i for i in range(min(len(ex), len(out or []))) if out[i] != ex[i]), None)
                    chk.violation(f"interop:{order}:{opt}:{gi}:{i}", f"gcc {opt} {'callee' if order == 0 else 'caller'}: output {i}: expected {ex[i] if i is not None else len(ex)}, got {out[i] if i is not None else r!r}", open(pre + "callee.c").read() + open(pre + "caller.c").read())
        return len(g)
    st.families["interop"] = sum(vlib.pmap(one, range(len(groups))))


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds", "lcdh"))
    st = R.Stats()
    m32, m16 = C.Model(32), C.Model(16)
    lin, mips = R.LinuxBackend(tc), R.MipsBackend(tc)
    doss, dosh = R.DosBackend(tc, ("-doss",), "doss", False), R.DosBackend(tc, ("-dosh",), "dosh", False)
    for be, m, w, full in ((lin, m32, 4, True), (mips, m32, 4, chk.thorough), (doss, m16, 2, chk.thorough), (dosh, m32, 4, chk.thorough)):
        sz = 40 if be is lin or be is mips else 25
        check(chk, be, m, sigs(w, full, False), sz, st, "signatures", PRE, 400)
        check(chk, be, m, variadic(w, False), sz, st, "variadic", PRE, 400)
        check(chk, be, m, nested(w, False, be is dosh), 10, st, "nested", PRE, 400)
    interop(chk, tc, st)
    chk.finish(evaluations=st.evals, distinct_nontrivial=st.funcs + st.families["interop"],
               rule="signatures: every result type x (0, 1 parameter of every type, pairs), every pair and triple of parameter types from 16 (quick: reduced for DOS and MIPS), 4-6 parameters over 3-4 types, up to 20; direct, indirect, through structure members; values that need conversion; callee clobbers its parameters; variadic sequences up to 3; nested call trees; recursion; structure and frame sizes across encoding limits; interoperation with gcc both ways",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C10", "exploration", body)
