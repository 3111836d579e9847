#!/usr/bin/env python3
"""C14: which programs the compiler accepts. All token sequences up to the bounds in expression, statement, declaration, definition, initializer and
enumeration position, run through the real compiler (an ASAN build, one forked process per program) and judged by a reference recogniser and type
checker (lib/cjudge.py); all sequences of arbitrary tokens and bytes for termination without memory errors; every table filled to and beyond its end."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cjudge as J

ETOK = ["x", "p", "s", "t", "a", "f", "g", "h", "k", "d", "w", "c", "1", "0", "+", "-", "*", "&", "!", "++", "=", "+=", "==", "(", ")", "[", "]", ".", "->", "m", "?", ":", ",", "sizeof", "(int)", "(void)", "%", '"st"']
ATOM = 'x|c|p|q|w|s|u|t|a|d|f|g ( )|h ( )|k|z|pp|& x|& s|& a|& f|* p|* pp|s . m|t -> n|"st"|0|1|1.5|(void*) 0|(char) x|(int) d|! p|x = 1|- d|sizeof s|(float) x|( x , p )|( x , s )|& p|a [ 0 ]|& a [ 1 ]|& s . m|* t|h ( ) . m|& * pp'.split("|")
BINOP = "+ - * / % & | ^ << >> < > <= >= == != && || = += -= *= /= %= &= |= ^= <<= >>= ,".split()
UNOP = "+ - ! ~ * & ++ -- sizeof (int) (float) (char) (void) (int*) (void*) (struct_S) (struct_S*)".split()
PLACE = {"file": "%s %s;", "extern": "extern %s %s;", "typedef": "typedef %s %s;", "static": "static %s %s;", "local": "void f(void){%s %s;}", "lstatic": "void f(void){static %s %s;}", "member": "struct Q{%s %s;};", "lextern": "void f(void){extern %s %s;}"}
BASES = {"int": ("int",), "void": ("void",), "struct S": ("struct", "S"), "struct I": ("inc",)}
SPEC = ["int", "char", "short", "long", "signed", "unsigned", "float", "double", "void", "static", "extern", "typedef", "const", "T", "struct S", "enum E"]
HOLES = [(), ("switch(x)", "{", None, "}"), ("while(x)", "{", None, "}"), ("do", None, "while(x)", ";"), ("if(x)", None, "else", ";"), ("switch(x)", "{", "case 1:", None, "break;", "default:", "x=1;", "}"), ("L:", "{", "int y;", None, "}", "goto M;", "M:", ";")]
ALLTOK = """int char void short long unsigned signed float double struct union enum typedef static extern const volatile if else while do for switch case default break continue return goto sizeof
 asm __interrupt ... { } ( ) [ ] ; : , . -> ? = += <<= == < && || & * + ++ ! ~ / % x y S L 0 1 2.5 'a' L'a' "s" L"s" 0x1p #define #ifdef #ifndef #else #endif #undef #include #pragma #line # \\ ' " /* // 08 99999999999 1e 0x @ $ inline auto register _Bool""".split()


def gen(c):
    """-> (kind, arguments of the judge, source text)"""
    q = c.tier == "quick"
    E = lambda s: J.DECLS + "void _(void){" + " ".join(s).replace("_S", " S") + ";}"
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        for s in itertools.product(ETOK, repeat=k):
            s = ("(",) + s + (")",)
            yield "expression sequences", (J.expression, s), E(s)
    for sub, n in ((["x", "p", "*", "&", "(", ")", "="], 6), (["x", "a", "t", "[", "]", "->", "m", "+"], 5), (["x", "p", "?", ":", ",", "0", "(", ")"], 5), (["f", "x", "(", ")", ",", "*", "&"], 6), (["x", "sizeof", "(int)", "*", "p", "++", "+"], 5), (["s", "h", ".", "m", "=", "&", "(", ")"], 5)):
        for s in itertools.product(sub, repeat=n if not q else n - 1):
            s = ("(",) + s + (")",)
            yield "expression sequences", (J.expression, s), E(s)
    cond = ["x", "p", "t", "a", "f", "0", "1", "1.5", "d", "s", "g ( )"] if q else ATOM
    for a in ATOM:
        for b in ATOM:
            for s in [a + f" {o} " + b for o in BINOP] + [a + " [ " + b + " ]"] + [f"{e} ? {a} : {b}" for e in cond]:
                s = ("( " + s + " )").split()
                yield "typed operands", (J.expression, s), E(s)
        for s in ([o + " ( " + a + " )" for o in UNOP] + [f"{o} {v} {a}" for o in UNOP for v in UNOP] + [a + " ++", a + " --"] + [f"{f} ( {a} )" for f in "fkzg"] + [f"f ( x , {a} )", f"z ( x , {a} )"]
                  + [y for m in ("m", "n", "zz") for o in (".", "->") for y in (f"{a} {o} {m}", f"( {a} ) {o} {m}")]):
            s = ("( " + s + " )").split()
            yield "typed operands", (J.expression, s), E(s)
    for k in range(5 if q else 6):
        for i, h in enumerate(HOLES):
            if i and k > (3 if q else 4):
                continue
            for s in itertools.product(J.STOK, repeat=k):
                s = sum((s if x is None else (x,) for x in h), ()) if h else s
                if k == 5 and not (s[0] in ("{", "if(x)", "do", "switch(x)", "L:") and s[-1] in ("}", ";", "break;", "else", "while(x)")):
                    continue
                for v in (True, False) if k < 3 else (True,):
                    yield "statements", (J.statements, s, v), "int x;%s f(void){%s}" % ("void" if v else "int", " ".join(s))
    for k in range(6 if q else 7):
        for s in itertools.product(J.FINE, repeat=k) if k < 5 else itertools.product(["for", "(", ")", ";", "x", "do", "while"], repeat=k):
            yield "statement tokens", (J.fine, s), "int x;void f(void){%s}" % " ".join(s)
    for k in range(5 if q else 6):
        for s in itertools.product(J.ALPHA, repeat=k):
            for pl in PLACE if k < 5 else ("file", "typedef", "local"):
                for b in BASES if k < 5 else ("int",):
                    yield "declarators", (J.declaration, s, BASES[b], pl.replace("lextern", "extern")), "struct S{int a;};" + PLACE[pl] % (b, " ".join(s))
    for k in range(1, 4 if q else 5):
        for s in itertools.product(SPEC, repeat=k):
            for pl in ("typedef char T;struct S{int a;};enum E{A};%s v;", "typedef char T;struct S{int a;};enum E{A};int f(void){%s v;return 0;}", "typedef char T;struct S{int a;};enum E{A};void f(%s v);", "typedef char T;struct S{int a;};enum E{A};struct Q{%s v;};", "typedef char T;struct S{int a;};enum E{A};int f(void){return sizeof(%s);}"):
                yield "specifiers", (J.specplace, s, pl), pl % " ".join(s)
    for k in range(6 if q else 7):
        for s in itertools.product(["*", "(", ")", "[", "]", "2", "v", "w", "int", "void", ","] if k < 5 else ["*", "(", ")", "v", "int", "void", ","], repeat=k):
            yield "definitions", (J.definition, s), "int f ( %s ) {return 0;}" % " ".join(s)
    for k in range(1, 5 if q else 7):
        for s in itertools.product(["{", "}", ",", "1", '"s"', "(&x)"] if k < 6 else ["{", "}", ",", "1"], repeat=k):
            for n in J.INITS:
                yield "initializers", (J.initializer, n, s), "static int x;%s = %s;" % (J.INITDECL[n], " ".join(s))
                yield "initializers", (J.initializer, n, s), "static int x;int f(void){%s = %s;}" % (J.INITDECL[n], " ".join(s))
    for k in range(1, 6 if q else 7):
        for s in itertools.product(["A", "B", "=", "1", ",", "+", "}", "{"] if k < 6 else ["A", "B", "=", "1", ","], repeat=k):
            yield "enumerators", (J.enumbody, s), "enum { %s };" % " ".join(s)
    # arbitrary tokens: no judgement, only orderly termination
    for k in (1, 2) if q else (1, 2, 3):
        for s in itertools.product(ALLTOK, repeat=k):
            t = " ".join(s)
            for pre in ("", "int x;int f(int y){", "int x=", "struct S{", "int f(", "#define M ", "int a[", "enum{"):
                if k < 3 or pre in ("", "int x;int f(int y){"):
                    yield "any tokens", None, pre + t
    for pre in ("", '"', "'", "'\\", '"\\', "#", "#define ", "#include ", "0", "0x", "1.", "1e", "L", "/*", "//", "M(", "#pragma pack(", "\\", "#line ", "# 1 "):
        for a in range(256):
            yield "any bytes", None, pre.encode() + bytes([a])
            yield "any bytes", None, pre.encode() + bytes([a]) + b"\n;"
            if pre in ("", "'", '"', '"\\', "#", "0") or not q:
                for b in range(256):
                    yield "any bytes", None, pre.encode() + bytes([a, b])


def limits(c, d, mode, args):
    """Each table filled with n = 0, 1, 2, ...: no memory error; accepted up to some size, refused with a message beyond, nothing lost while accepted."""
    fam = {
        "string length": (lambda n: 'char*s="%s";' % ("a" * n), 300, 255),
        "string pieces": (lambda n: "char*s=%s;" % ('"abcdefgh"' * (n + 1)), 400, 20),
        "name length": (lambda n: "int %s;" % ("a" * (n + 1)), 120, 62),
        "cases": (lambda n: "int x;void f(void){switch(x){%s;}}" % "".join("case %d:" % i for i in range(n)), 200, 127),
        "nested switch cases": (lambda n: "int x;void f(void){switch(x){case 1:switch(x){%s;}case 2:;}}" % "".join("case %d:" % i for i in range(n)), 200, 100),
        "labels": (lambda n: "void f(void){%s;}" % "".join("L%d:;" % i for i in range(n)), 40, 16),
        "gotos": (lambda n: "void f(void){%s%s;}" % ("".join("goto L%d;" % i for i in range(n)), "".join("L%d:;" % i for i in range(n))), 40, 16),
        "nested parentheses": (lambda n: "int x=%s1%s;" % ("(" * n, ")" * n), 400, 10),
        "nested blocks": (lambda n: "void f(void){%s%s}" % ("{" * n, "}" * n), 4000, 10),
        "nested ifs": (lambda n: "int x;void f(void){%s;}" % ("if(x)" * n), 2000, 10),
        "nested loops": (lambda n: "int x;void f(void){%s;%s}" % ("do " * n, "while(x);" * n), 2000, 10),
        "nested switches": (lambda n: "int x;void f(void){%s;}" % ("switch(x)" * n), 2000, 10),
        "sum length": (lambda n: "int x;int f(void){return x%s;}" % ("+x" * n), 300, 30),
        "constant sum": (lambda n: "int x=1%s;" % ("+1" * n), 300, 30),
        "right-nested": (lambda n: "int x;int f(void){return %sx;}" % ("x=" * n), 300, 20),
        "unary": (lambda n: "int x;int f(void){return %sx;}" % ("- " * n), 300, 30),
        "comma": (lambda n: "int x;int f(void){return x%s;}" % (",x" * n), 300, 30),
        "conditionals": (lambda n: "int x;int f(void){return x%s;}" % ("?x:x" * n), 200, 10),
        "logical": (lambda n: "int x;int f(void){return x%s;}" % ("&&x" * n), 200, 20),
        "arguments": (lambda n: "int g();int f(void){return g(%s);}" % ",".join("1" * n), 200, 30),
        "nested calls": (lambda n: "int g(int);int f(void){return %s1%s;}" % ("g(" * n, ")" * n), 200, 10),
        "parameters": (lambda n: "int f(%s){return 0;}" % ",".join("int a%d" % i for i in range(n)) if n else "int f(void){return 0;}", 1200, 50),
        "globals": (lambda n: "".join("int a%d;" % i for i in range(n)), 1600, 300),
        "locals": (lambda n: "void f(void){%s}" % "".join("int a%d;" % i for i in range(n)), 1600, 300),
        "members": (lambda n: "struct S{%sint z;};" % "".join("int a%d;" % i for i in range(n)), 1600, 300),
        "enumerators": (lambda n: "enum{%sZ};" % "".join("a%d," % i for i in range(n)), 1600, 300),
        "typedefs": (lambda n: "".join("typedef int a%d;" % i for i in range(n)), 1600, 300),
        "tags": (lambda n: "".join("struct a%d{int x;};" % i for i in range(n)), 800, 100),
        "prototypes": (lambda n: "".join("int a%d(int,char*);" % i for i in range(n)), 800, 100),
        "functions": (lambda n: "".join("int a%d(int b){return b;}" % i for i in range(n)), 1200, 200),
        "pointer levels": (lambda n: "int %sp;" % ("*" * n), 4000, 30),
        "array dimensions": (lambda n: "int a%s;" % ("[1]" * n), 1600, 10),
        "nested declarators": (lambda n: "int %sp%s;" % ("(" * n, ")" * n), 2000, 10),
        "function pointer nesting": (lambda n: "int %sp%s;" % ("(*" * n, ")(void)" * n), 1000, 10),
        "nested structures": (lambda n: "%sint z;%s" % ("struct{" * n, "}a;" * n), 600, 8),
        "macro name length": (lambda n: "#define %s 1\n" % ("a" * (n + 1)), 400, 62),
        "macro text": (lambda n: "#define A %s\n" % ("b" * n), 400, 100),
        "macros": (lambda n: "".join("#define a%d %d\n" % (i, i) for i in range(n)), 900, 200),
        "macro uses": (lambda n: "#define A 1+\nint x=%s1;" % ("A " * n), 200, 20),
        "macro nesting": (lambda n: "#define A0 1\n%sint x=A%d;" % ("".join("#define A%d A%d\n" % (i + 1, i) for i in range(n)), n), 300, 20),
        "nested ifdefs": (lambda n: "#ifdef A\n" * n + "#endif\n" * n + "int x;", 200, 8),
        "pragma pack depth": (lambda n: "".join("#pragma pack(push,1)\n" for i in range(n)) + "int x;", 60, 2),
        "initializer length": (lambda n: "int a[]={1%s};" % (",1" * n), 5000, 3000),
        "initializer nesting": (lambda n: "int a%s=%s1%s;" % ("[1]" * (n + 1), "{" * (n + 1), "}" * (n + 1)), 400, 8),
        "number length": (lambda n: "int x=%s1;" % ("0" * n), 600, 30),
        "float digits": (lambda n: "float x=0.%s1;" % ("0" * n), 400, 20),
        "asm length": (lambda n: 'void f(void){asm("%s");}' % ("n" * n), 400, 200),
        "line length": (lambda n: "int x%s;" % (" " * n), 3000, 300),
        "string expressions": (lambda n: "char*a[]={%s};" % ",".join('"s%d"' % i for i in range(n + 1)), 800, 200),
        "local array initializers": (lambda n: "void f(void){%s}" % "".join("int a%d[2]={1,2};" % i for i in range(n)), 400, 100),
        "sizeof nesting": (lambda n: "int x=%sint%s;" % ("sizeof(" * (n + 1), ")" * (n + 1)), 200, 0),
        "casts": (lambda n: "int x;int f(void){return %sx;}" % ("(int)" * n), 300, 20),
        "subscripts": (lambda n: "int a%s;int f(void){return a%s;}" % ("[1]" * (n + 1), "[0]" * (n + 1)), 60, 5),
        "member chains": (lambda n: "struct S{struct S*p;int x;}s;int f(void){return s%s.x;}" % (".p[0]" * n), 200, 5),
        "local size": (lambda n: "void f(void){char a[%d];a[0]=1;}" % (1 << n), 34, 10),
        "array size": (lambda n: "char a[%d];" % (1 << n), 34, 10),
        "structure size": (lambda n: "struct{%s}a;" % "".join("char a%d[0x40000000];" % i for i in range(n + 1)), 8, 0),
        "array total": (lambda n: "char a[0x4000]%s;" % ("[0x10]" * n), 12, 0),
    }
    runs = 0
    edges = {}
    jobs = []
    for name, (f, top, least) in fam.items():
        st = max(1, top // (40 if c.tier == "quick" else 400))
        assert f is not None
        jobs.append([(name, n) for n in sorted(set(range(0, top + 1, st)) | set(range(min(20, top))) | {least, max(0, least - 1)})])
    def work(part):
        return vlib.ccrun(d, [(list(args) + ["t.c", "out"], {"t.c": fam[name][0](n)}) for name, n in part], ms=20000)
    def judge(part, rs):
        """-> last accepted, first refused"""
        ok = [n for (x, n), r in zip(part, rs) if r[0] == 0]
        no = [n for (x, n), r in zip(part, rs) if r[0] == 1]
        for (name, n), r in zip(part, rs):
            if r[0] not in (0, 1):
                c.violation("limit:" + name, f"{mode}: {name} {n}: " + fault(r), fam[name][0](n)[:3000])
            elif r[0] and not re.search(rb'Error in "[^"]*" \(\d+:\d+\)', r[1]):
                c.violation("limit:" + name, f"{mode}: {name} {n}: refused without a message")
        return ok, no
    res = forkmap(lambda i: work(jobs[i]), len(jobs))
    second = []
    for part, rs in zip(jobs, res):
        runs += len(part)
        name = part[0][0]
        ok, no = judge(part, rs)
        if no and ok and max(ok) > min(no) and name not in ("local size", "array size"):
            c.violation("limit:" + name, f"{mode}: {name}: refused at {min(no)}, accepted at {max(ok)}")
        if mode == "seg32" and (not ok or max(ok) < fam[name][2]):
            c.violation("limit:" + name, f"{mode}: {name}: only {max(ok) if ok else None} accepted, expected at least {fam[name][2]}: {[r[1] for r in rs if r[0]][:1]}")
        if ok and no:
            lo, hi = max(x for x in ok if x < min(no)) if min(no) > min(ok) else min(ok), min(no)
            second.append([(name, n) for n in range(lo, min(hi + 1, lo + 400))])
        else:
            edges[name] = "none up to %d" % fam[name][1] if ok else "all refused"
    for part, rs in zip(second, forkmap(lambda i: work(second[i]), len(second))):
        runs += len(part)
        ok, no = judge(part, rs)
        name = part[0][0]
        if ok and no:
            if max(ok) > min(no):
                c.violation("limit:" + name, f"{mode}: {name}: refused at {min(no)}, accepted at {max(ok)}")
            edges[name] = max(ok)
    return runs, edges


def fault(r):
    if r[0] == 512:
        return "no end within the time limit"
    m = re.search(rb"ERROR: AddressSanitizer: [^\n]*", r[1])
    s = re.search(rb"SUMMARY: [^\n]*", r[1])
    return "memory error or crash: " + (m[0].decode("latin-1")[:90] + " " if m else "") + (s[0].decode("latin-1") if s else "status %d" % r[0])


MODES = {"seg32": ["-seg32", "-nopp"], "seg16": ["-seg16", "-nopp"], "huge": ["-huge", "-nopp"]}


def body(c):
    d = vlib.ccbuild()
    cnt, verd, bad = {}, {"ok": 0, "bad": 0, "may": 0}, {}
    B = 3000

    def work(part):
        rs = vlib.ccrun(d, [t for _, _, t in part])
        out = []
        for (kind, j, t), r in zip(part, rs):
            v = j[0](*j[1:]) if j else None
            what = None
            if r[0] not in (0, 1):
                what = fault(r)
            elif r[0] and not re.search(rb'Error in "t.c" \(-?\d+:\d+\)\n.', r[1]):
                what = "refused without a message: %r" % r[1][-80:]
            elif v == "ok" and r[0]:
                what = "valid, but refused: " + r[1].decode("latin-1")[-80:].strip().replace("\n", " ")
            elif v == "bad" and not r[0]:
                what = "ill-formed, but accepted"
            out.append((v, what))
        return out

    def batches():
        b = []
        for x in gen(c):
            b.append(x)
            if len(b) == B:
                yield b
                b = []
        if b:
            yield b
    total = 0
    wave, it = [], batches()
    while True:
        wave = list(itertools.islice(it, 64))
        if not wave:
            break
        fn = lambda i: work(wave[i])
        for part, res in zip(wave, forkmap(fn, len(wave))):
            for (kind, j, t), (v, what) in zip(part, res):
                total += 1
                cnt[kind] = cnt.get(kind, 0) + 1
                if v:
                    verd[v] += 1
                if what:
                    t = t if isinstance(t, str) else t.decode("latin-1")
                    t = t.replace(J.DECLS, "")
                    c.violation("source:" + re.sub(r"\s+", "_", t)[-150:], f"{kind}: {what}: {t}"[:400], t)
        if len(c.violations) > 150:
            break
    c.log(cnt, verd)
    edges = {}
    for m, a in MODES.items():
        n, edges[m] = limits(c, d, m, a)
        total += n
        c.log(m, n, edges[m])
    c.finish(states=total, transitions=total, executions=total, evaluations=total, distinct_nontrivial=verd["ok"] + verd["bad"], judged_valid=verd["ok"], judged_invalid=verd["bad"], left_open=verd["may"],
             programs_by_kind=cnt, table_limits=edges, traces_validated_against_impl=total,
             rule="every token sequence up to the bound of each position, run through the real compiler under AddressSanitizer; each accepted or refused as the reference recogniser and type checker says; tables filled one element at a time to the point of refusal",
             samples=["(" + " ".join(s) + ")" for s in itertools.islice(itertools.product(ETOK[:3], repeat=2), 5)])


def forkmap(fn, n):
    """Like ppmap for a closure over data made before the fork."""
    global _fn
    _fn = fn
    return vlib.ppmap(_call, range(n))


def _call(i):
    return _fn(i)


if __name__ == "__main__":
    vlib.main("C14", "exploration", body)
