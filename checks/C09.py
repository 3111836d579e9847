"""C09: initializers."""
import sys, os, itertools, struct as pystruct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R
from snip import Snip, check, reject

PRE = """
char gc[6]="hello";int gi;int ga[4]={5,6,7,8};struct gs{char a;int b[3];}gs;int gf(void);int gf(void){return 77;}
"""


class S:   # scalar
    def __init__(self, kind, word):
        self.kind, self.word = kind, word
        self.size = {"c": 1, "b": 1, "s": 2, "w": 2}.get(kind, word)
        self.align = min(self.size, word)
        self.base = {"c": "char", "b": "unsigned char", "s": "short", "w": "unsigned short", "i": "int", "u": "unsigned", "f": "float", "p": "char*", "q": "int*", "F": "fn_t"}[kind]
        self.name = kind

    def dec(self, n):
        return f"{self.base} {n}"


class A:
    def __init__(self, el, n):
        self.el, self.n = el, n
        self.size, self.align = el.size * n, el.align
        self.members = [("[%d]" % i, i * el.size, el) for i in range(n)]
        self.chars = isinstance(el, S) and el.kind in "cb"
        self.name = el.name + str(n)

    def dec(self, n):
        return self.el.dec(f"{n}[{self.n}]" if self.n else n + "[]")


class G:
    cnt = itertools.count()

    def __init__(self, mem, union=False, pack=None, word=4):
        self.union, self.mem, self.pack = union, mem, pack
        self.tag = "Z%d" % next(G.cnt)
        P = pack or word
        off, sz, al = 0, 0, 1
        self.members = []
        for i, t in enumerate(mem):
            a = min(t.align, P)
            al = max(al, a)
            off = 0 if union else (off + a - 1) // a * a
            self.members.append((".%s" % "abcdefgh"[i], off, t))
            sz = max(sz, off + t.size)
            off += t.size
        self.size, self.align = (sz + al - 1) // al * al, al
        if union:
            self.members = self.members[:1]
        self.name = ("U" if union else "S") + (str(pack) if pack else "") + "(" + ",".join(m.name for m in mem) + ")"

    def deps(self):
        for t in self.mem:
            while isinstance(t, A):
                t = t.el
            if isinstance(t, G):
                yield from t.deps()
        s = ("union " if self.union else "struct ") + self.tag + "{" + "".join(t.dec("abcdefgh"[i]) + ";" for i, t in enumerate(self.mem)) + "};\n"
        yield (f"#pragma pack({self.pack})\n{s}#pragma pack()\n" if self.pack else s)

    def dec(self, n):
        return f"{'union' if self.union else 'struct'} {self.tag} {n}"


def shapes(t, last, top=False, rich=True):
    """Initializer trees for t: ('v',) ('b',) ('s',k,braced) ('B',[...],comma) ('E',[...])"""
    if isinstance(t, S):
        yield ("v",)
        if rich:
            yield ("b",)
        return
    if isinstance(t, A) and t.chars:
        for k in range(0, t.n + 1):
            yield ("s", k, False)
        if rich:
            yield ("s", t.n, True)
            yield ("s", t.n // 2, "cat")
    ms = t.members
    for n in range(1, len(ms) + 1):
        r2 = rich and n <= 2
        for sub in itertools.product(*[list(shapes(m[2], i == n - 1, rich=r2)) for i, m in enumerate(ms[:n])]):
            yield ("B", sub, False)
            if r2:
                yield ("B", sub, True)
    if not top:
        for n in (range(1, len(ms) + 1) if last else (len(ms),)):
            for sub in itertools.product(*[list(shapes(m[2], last and i == n - 1, rich=False)) for i, m in enumerate(ms[:n])]):
                if begins_brace(sub[0]):
                    continue
                yield ("E", sub)


def begins_brace(s):
    return s[0] in ("b", "B") or (s[0] == "s" and s[2] is True) or (s[0] == "E" and begins_brace(s[1][0]))


def values(kind, word):
    """(text, expected) where expected is bytes, or ('eq', expr)"""
    W = 8 * word
    sz = {"c": 1, "b": 1, "s": 2, "w": 2}.get(kind, word)
    le = lambda v: (v & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
    if kind in "cbswiu":
        l = [("1", 1), ("-1", -1), ("0x7F", 127), ("'a'", 97), ("1+2*3", 7), ("sizeof(int)", word), ("0", 0), ("200", 200), ("-128", -128), ("0x1234", 0x1234), ("2,".strip(","), 2),
             ("(char)0x1ff", -1), ("3>2?5:6", 5), ("!0", 1), ("~5", -6), ("(unsigned char)-1", 255), ("'\\377'", -1), ("-32768", -32768) if word == 4 else ("-32767-1", -32768), ("0xFFFFu", 0xffff), ("sizeof\"abc\"", 4)]
        if word == 4:
            l += [("0x12345678", 0x12345678), ("-0x7fffffff-1", -2**31), ("3.7f", 3), ("-3.7", -3), ("(short)0x18000", -32768), ("1e3", 1000)] if kind != "b" and kind != "c" else [("3.7f", 3), ("1e2", 100)]
            if kind == "u":
                l = [x for x in l if x[0] != "-3.7"] + [("3e9", 3000000000)]
            if kind == "w":
                l = [x for x in l if x[0] != "-3.7"]
        return [(a, le(b)) for a, b in l]
    if kind == "f":
        f = lambda v: pystruct.pack("<f", v)
        return [("1.5f", f(1.5)), ("-2", f(-2)), ("0", f(0)), ("3u", f(3)), ("1e10", f(1e10)), ("-0.25", f(-.25)), ("1.0f/4", f(.25)), ("'a'", f(97)), ("16777217", f(16777216.)), ("-0.0f", f(-0.0)), ("(int)2.9f", f(2))]
    if kind == "p":
        return [("gc", ("eq", "gc")), ("gc+2", ("eq", "&gc[2]")), ("&gc[3]", ("eq", "gc+3")), ("0", ("eq", "0")), ("3+gc", ("eq", "gc+3")), ("&gc[5]-1", ("eq", "gc+4")), ("(char*)&gi", ("eq", "&gi")),
                ("&gs.a", ("eq", "(char*)&gs")), ("(char*)gf", ("eq", "(char*)gf")), ("(char*)4660", ("eq", "(char*)4660")), ('"xyz"', ("str", "xyz")), ('"ab" "cd"', ("str", "abcd")), ('"wxyz"+1', ("str", "xyz")), ("(char*)ga+1", ("eq", "(char*)ga+1")), ("0+gc", ("eq", "gc")), ("&*gc", ("eq", "gc"))]
    if kind == "q":
        return [("&gi", ("eq", "&gi")), ("ga", ("eq", "ga")), ("ga+3", ("eq", "&ga[3]")), ("&ga[1]", ("eq", "ga+1")), ("&gs.b[2]", ("eq", "gs.b+2")), ("gs.b", ("eq", "&gs.b[0]")), ("0", ("eq", "0")), ("&ga[3]-2", ("eq", "ga+1")), ("(int*)gc", ("eq", "(int*)gc")), ("&gs.b[1]+1", ("eq", "gs.b+2")), ("gs.b+1", ("eq", "gs.b+1"))]
    return [("gf", ("eq", "gf")), ("&gf", ("eq", "gf")), ("0", ("eq", "0")), ("(fn_t)gc", ("eq", "(fn_t)gc"))]


STR = "abcdefgh"


def render(t, sh, cnt, img, eqs, path, off, vals):
    k = sh[0]
    if k in "vb" and isinstance(t, S):
        v = vals(t)
        txt, e = v[next(cnt) % len(v)]
        if isinstance(e, bytes):
            img[off:off + t.size] = e
        else:
            eqs.append((path, e))
        return "{" + txt + "}" if k == "b" else txt
    if k == "s":
        s = STR[:sh[1]]
        for i, ch in enumerate(s):
            img[off + i] = ord(ch)
        lit = f'"{s}"' if sh[2] != "cat" else f'"{s[:1]}" "{s[1:]}"'
        return "{" + lit + "}" if sh[2] is True else lit
    parts = [render(m[2], x, cnt, img, eqs, path + m[0], off + m[1], vals) for m, x in zip(t.members, sh[1])]
    txt = ",".join(parts)
    return txt if k == "E" else "{" + txt + ("," if sh[2] else "") + "}"


def leafs(t, path=""):
    if isinstance(t, S):
        yield path, t
    else:
        for m in t.members:
            yield from leafs(m[2], path + m[0])


def snippet(t, shp, word, vals, ctr, kind, name=None):
    img, eqs = [0] * t.size, []
    txt = render(t, shp, ctr, img, eqs, "", 0, vals)
    d = t
    while isinstance(d, A):
        d = d.el
    decls = "".join(dict.fromkeys(d.deps())) if isinstance(d, G) else ""
    obj = "v"
    big = word * 2
    tn = t
    if name == "[]":   # size from the initializer
        tn = A(t.el, 0)
    dcl = tn.dec("v@@")
    decls = decls.replace("Z", "Z@@_") if decls else ""
    dcl = dcl.replace("Z", "Z@@_")
    exp = []
    if kind == "g":
        decls += f"char l@@[3]=\"LL\";{dcl}={txt};char r@@[3]=\"RR\";"
        body = ""
    elif kind == "gs":
        decls += f"static int l@@=0x4c4c;static {dcl}={txt},r@@q;static int r@@=0x5252;".replace(",r@@q", "")
        body = ""
    elif kind == "s":
        body = f"static char l@@[3]=\"LL\";static {dcl}={txt};static char r@@[3]=\"RR\";"
    else:
        body = f"int l@@=0x4c4c;{dcl}={txt};int r@@=0x5252;int z@@[2];z@@[0]=z@@[1]=3;"
    body += f"o(sizeof v@@);"
    exp.append(t.size)
    for path, e in eqs:
        if e[0] == "eq":
            body += f"o(v@@{path}=={e[1]});"
            exp.append(1)
        else:
            for j in range(len(e[1]) + 1):
                body += f"o(v@@{path}[{j}]);"
                exp.append(ord(e[1][j]) if j < len(e[1]) else 0)
        body += f"v@@{path}=0;"
    body += "{int i;for(i=0;i<(int)sizeof v@@;i++)o(((char*)&v@@)[i]&255);}"
    exp += img
    if kind in ("g", "s"):
        body += "o(l@@[0]);o(l@@[1]);o(l@@[2]);o(r@@[0]);o(r@@[2]);"
        exp += [76, 76, 0, 82, 0]
    else:
        body += "o(l@@);o(r@@);"
        exp += [0x4c4c, 0x5252]
    if kind == "s":   # keeps its value between calls: initialised once
        pass
    return Snip(body, exp, decls.replace("@@_", "@@_"), key=f"w{word} {kind} {t.name} {dcl.replace('@@', '')}={txt}"[:300])


def fam(word, full):
    s = lambda k: S(k, word)
    c, b, h, i, u, p, q, F = (s(k) for k in "cbsiupqF")
    w = word
    g = lambda *m, **k: G(list(m), word=w, **k)
    types = [A(c, 3), A(i, 3), A(h, 2), A(A(i, 2), 2), A(A(c, 3), 2), A(A(h, 1), 3), g(c, h, i), g(c, h, i, pack=1), g(A(c, 3), i), g(i, g(c, i), c), A(g(c, i), 2),
             g(A(g(c, h), 2), c), g(c, A(A(h, 2), 2), c) , g(i, A(c, 5), union=True), g(c, i, union=True), A(g(c, i, union=True), 2), g(g(h, g(i, c, union=True)), c), g(p, c, q), A(p, 2), A(q, 3),
             A(F, 2), g(F, A(p, 1), u), g(c, pack=1), A(g(c, i, pack=1), 2), g(c, g(i, c, pack=1), i, pack=2), A(A(A(h, 2), 1), 2), g(A(c, 2), A(c, 2)), g(A(A(c, 2), 2), b)]
    if word == 4:
        f = s("f")
        types += [A(f, 2), g(c, f, i), g(A(f, 2), c)]
    cache = {}
    def vals(t):
        if t.kind not in cache:
            cache[t.kind] = values(t.kind, word)
        return cache[t.kind]
    ctr = itertools.count()
    for t in types:
        lim = 3000 if full else 60
        al = list(shapes(t, True, top=True))
        step = 1
        if len(al) > lim:   # evenly thinned, recorded by the counts
            step = len(al) // lim + 1
        for n, sh in enumerate(al[::step]):
            for kind in ("g", "gs", "s", "a") if full or n % 2 == 0 else ("g", "a"):
                yield snippet(t, sh, word, vals, ctr, kind)
        if isinstance(t, A):
            # the size comes from the initializer
            for n in (1, 2, 3, 4):
                t2 = A(t.el, n)
                a2 = [x for x in shapes(t2, True, top=True, rich=False) if (x[0] == "B" and len(x[1]) == n and all(y[0] != "E" or len(y[1]) == len(t.el.members) for y in x[1])) or (x[0] == "s" and x[1] + 1 == n)]
                for sh in a2[:40 if full else 6]:
                    for kind in ("g", "s", "a"):
                        yield snippet(t2, sh, word, vals, ctr, kind, "[]")
    # every value form of every scalar kind, in each storage class, plain and braced, alone and beside others
    for k in "cbswiupqF" + ("f" if word == 4 else ""):
        if word == 2 and k in ():
            continue
        t = S(k, word)
        for j, v in enumerate(values(k, word)):
            one = lambda tt: [v] if tt.kind == k else [("7", b"\7" + b"\0" * (tt.size - 1))]
            for sh in (("v",), ("b",)):
                for kind in ("g", "gs", "s", "a"):
                    if k in "cbsw" and kind == "a" and len(v[1]) < word:
                        pass
                    yield snippet(t, sh, word, one, itertools.count(), kind)
            for tt in (A(t, 2), G([c, t, c], word=word)):
                for kind in ("g", "a"):
                    yield snippet(tt, list(shapes(tt, True, top=True))[-1], word, one, itertools.count(), kind)


def autos(word):
    """Run-time initializers, several declarators, re-initialisation on every entry, struct copies."""
    yield Snip("int a=3,b=a+4,c=b*a;o(a);o(b);o(c);", [3, 7, 21])
    yield Snip("int i;for(i=0;i<3;i++){int a[3]={1,2};o(a[0]);o(a[1]);o(a[2]);a[0]=9;a[2]=8;}", [1, 2, 0] * 3)
    yield Snip("int i;for(i=0;i<3;i++){static int a[3]={1,2};o(a[0]++);o(a[1]);o(a[2]--);}", [1, 2, 0, 2, 2, -1, 3, 2, -2])
    yield Snip("int a=1;{int b=a;int a=b+1;o(a);}o(a);", [2, 1])
    for n in range(1, 5):
        for txt in itertools.product(["v%d=%d", "v%d[]={%d,1}", "*v%d=(int*)%d", "v%d[2]={%d}"], repeat=n):
            for st in ("", "static "):
                d = st + "int " + ",".join(x % (k, 10 + k) for k, x in enumerate(txt)) + ";"
                body, exp = d, []
                for k, x in enumerate(txt):
                    e = "v%d" % k
                    if "[" in x:
                        body += f"o(sizeof {e}/sizeof(int));o({e}[0]);o({e}[1]);"
                        exp += [2, 10 + k, 1 if "[]" in x else 0]
                    else:
                        body += f"o((int){e});"
                        exp.append(10 + k)
                yield Snip(body, exp)
    for mem, vals in ((("char a", "int b"), (5, 6)), (("char a", "char b", "char c"), (1, 2, 3)), (("int a", "int b", "int c", "char d"), (1, 2, 3, 4)), (("char a",), (9,))):
        sd = "struct K@@{" + ";".join(mem) + ";};"
        sh = lambda v: "".join(f"o({v}.{m[-1]});" for m in mem)
        L = ",".join(map(str, vals))
        yield Snip(f"struct K@@ x={{{L}}};struct K@@ y=x;struct K@@ z={{{L}}},w=y;x.a=0;" + sh("y") + sh("z") + sh("w") + "o(x.a);", list(vals) * 3 + [0], sd)
        yield Snip(f"struct K@@ y=f@@(),*p=&y;struct K@@ z=*p;" + sh("y") + sh("z") + sh("p[0]"), list(vals) * 3, sd + f"struct K@@ f@@(void){{static struct K@@ r={{{L}}};return r;}}")
        yield Snip(f"struct K@@ a[2]={{{{{L}}}}};struct K@@ y=a[0],z=a[1];" + sh("y") + sh("z"), list(vals) + [0] * len(vals), sd)
    # values of narrow objects stored by initialisation
    for ty, mn, mx in (("char", -128, 127), ("unsigned char", 0, 255), ("short", -32768, 32767), ("unsigned short", 0, 65535)):
        if word == 2 and ty == "unsigned short":
            continue
        for v in (0, 1, -1, 127, 128, 255, 256, 300, -129, 32767, -32767):
            m = 1 << (8 if "char" in ty else 16)
            e = v % m
            if mn < 0 and e >= m // 2:
                e -= m
            lit = f"({v})"
            yield Snip(f"int n={lit};{ty} a=n,b={lit},c=a;static {ty} d={lit};{ty} e[2]={{{lit},{lit}}};o(a);o(b);o(c);o(d);o(e[1]);o(a==b);", [e] * 5 + [1])
    for n in range(0, 7):
        yield Snip(f'char a[]="{STR[:n]}",b[]={{"{STR[:n]}"}},*c="{STR[:n]}";static char d[]="{STR[:n]}";o(sizeof a);o(sizeof b);o(sizeof d);o(a[{n}]);o(c[{n}]);' + "".join(f"o(a[{k}]);o(b[{k}]);o(c[{k}]);o(d[{k}]);" for k in range(n)),
                   [n + 1] * 3 + [0, 0] + [ord(STR[k]) for k in range(n) for _ in range(4)])
        if n:
            yield Snip(f'static char a[{n}]="{STR[:n]}";static char g=\'G\';char b[{n}]="{STR[:n]}";o(sizeof a);o(g);' + "".join(f"o(a[{k}]);o(b[{k}]);" for k in range(n)), [n, 71] + [ord(STR[k]) for k in range(n) for _ in range(2)])


def wides(ty, size, word):
    """Arrays of wide characters: every length against every string, in every kind of object; what follows stays in place."""
    o = lambda e, n: "".join(f"o({e}[{i}]);" for i in range(n))
    v = lambda st, n: [ord(c) for c in st][:n] + [0] * (n - len(st))
    W = f"typedef {ty} W@@;"
    for n in range(1, 8):
        for k in range(0, n + 1):
            st = STR[:k]
            for lit in (f'L"{st}"', f'{{L"{st}"}}', f'L"{st[:1]}" L"{st[1:]}"', "{" + ",".join(f"L'{c}'" for c in st) + "}")[:4 if k else 3]:
                exp = [n * size] + v(st, n) + [0x51, 0x52]
                yield Snip(f"o(sizeof x@@);{o('x@@', n)}o(l@@);o(r@@);", exp, W + f"int l@@=0x51;W@@ x@@[{n}]={lit};int r@@=0x52;")
                yield Snip(f"static char l=0x51;static W@@ x[{n}]={lit};static char r=0x52;o(sizeof x);{o('x', n)}o(l);o(r);", exp, W)
                yield Snip(f"int l=0x51;W@@ x[{n}]={lit};int r=0x52;o(sizeof x);{o('x', n)}o(l);o(r);", exp, W)
                yield Snip(f"{o('w@@.x', n)}o(w@@.a);o(w@@.b);", exp[1:], W + f"struct S@@{{char a;W@@ x[{n}];char b;}}w@@={{0x51,{lit},0x52}};")
                if lit[0] == "L":
                    yield Snip(f"o(sizeof x@@);{o('x@@[0]', n)}{o('x@@[1]', n)}{o('x@@[2]', n)}o(l@@);o(r@@);", [3 * n * size] + v(st, n) + v("z", n) + v(st, n) + [0x51, 0x52], W + f"int l@@=0x51;W@@ x@@[3][{n}]={{{lit},{{L'z'}},{lit}}};int r@@=0x52;")
    for k in range(0, 8):
        st = STR[:k]
        yield Snip(f'static W@@ x[]=L"{st}";W@@ y[]={{L"{st}"}};W@@*p=L"{st}";o(sizeof x);o(sizeof y);o(sizeof L"{st}");{o("x", k + 1)}{o("y", k + 1)}{o("p", k + 1)}', [(k + 1) * size] * 3 + v(st, k + 1) * 3, W)
        yield Snip(f'{o("p@@[0]", k + 1)}{o("p@@[1]", 3)}o(c@@[0]);', v(st, k + 1) + v("yz", 3) + [ord("q")], W + f'W@@*p@@[2]={{L"{st}",L"yz"}};char*c@@="q";')
    for esc, val in (("\\0", 0), ("\\377", 255), ("\\x7f", 127), ("\\n", 10), ("\\xFFFF", 65535), ("\\x1234", 0x1234)) + ((("\\x12345678", 0x12345678),) if size == 4 else ()):
        if word == 2 and val > 32767 and "unsigned" not in ty:
            val -= 65536
        e = val - 65536 if size == 2 and val > 32767 and "unsigned" not in ty else val
        yield Snip(f"W@@ x[3]=L\"a{esc}\",y=L'{esc}';o(x[0]);o(x[1]);o(x[2]);o(y);", [97, e, 0, e], W)


def bad(word):
    out = []
    decl = [("int a[2]", ["{1,2,3}", "{{1},{2},{3}}", "{}", "{1,,2}", "{,}", "1", "{1,2", "{{1,2}}", '"a"']), ("char a[2]", ['"abc"', '{"abc"}', "{1,2,3}", '{"a","b"}', "{}", '{"a",1}', 'L"a"']),
            ("struct{char a;int b;}s", ["{1,2,3}", "{}", "{{1},{2},{3}}", "{1,{2,3}}", "{{1,2}}", "{1 2}"]), ("union{int a;char b;}s", ["{1,2}", "{}", "{{1},{2}}"]),
            ("int a[2][2]", ["{1,2,3,4,5}", "{{1,2,3}}", "{{1},{2},{3}}", "{{{1,2}}}"]), ("struct{int a[2];int b;}s", ["{1,2,3,4}", "{{1,2,3},4}", "{{1,2},3,4}"]),
            ("int x", ["{}", "{1,2}", "gi", "gf()", "gi+1", "&gi+gi", "ga[1]", "*ga", "gs"]), ("char x", ["&gi", "ga"]), ("short x", ["&gi"] if word == 4 else []), ("int*p", ["&gi*2", "-ga", "&gi-&gi2"]), ("int a[]", ["{}", "1", "gi"]),
            ("struct u9 z", ["{1}"]), ("void f(void)", ["1", "{}"]), ("extern int a[2]", ["{1,2,3}"]), ("typedef int t", ["1"])]
    for d, l in decl:
        for x in l:
            if (d, x) in (("int x", "gf()"),):
                pass
            src = PRE.replace("fn_t", "int") + f"int gi2;{d}={x};"
            if "gi2" in x:
                continue
            out.append((src, False, f"{d}={x}"))
            if d not in ("void f(void)", "typedef int t", "extern int a[2]", "struct u9 z"):
                out.append((PRE + f"int gi2;void f(void){{static {d}={x};}}", False, f"static {d}={x}"))
    for d, x in (("int a[2]", "{1,2,}"), ("int a[2]", "{1}"), ("char a[3]", '"abc"'), ("char a[2]", "{'a','b'}"), ("struct{char a;int b;}s", "{{1},{2}}"), ("int x", "{1}"), ("int x", "1+2"), ("int x", "{(int)&gi}"), ("int*p", "{&gi}")):
        out.append((PRE + f"{d}={x};", True, f"{d}={x}"))
    for d, x in (("int a[2]", "{1,2,3}"), ("int x", "{}"), ("int x", "{1,2}"), ("struct{char a;int b;}s", "{1,2,3}"), ("struct gs s", "1"), ("char a[2]", '"abc"'), ("int a[]", "1"), ("int a[2]", "ga"), ("struct gs s", "{1,2,3,4,5}")):
        out.append((PRE + f"void f(void){{{d}={x};}}", False, f"auto {d}={x}"))
    return out


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds", "lcdh"))
    st = R.Stats()
    m32, m16 = C.Model(32), C.Model(16)
    pre = "typedef int(*fn_t)(void);\n" + PRE
    def fixp(gen, huge=False):
        return gen
    check(chk, R.LinuxBackend(tc), m32, fam(4, True), 50, st, "image", pre, 300)
    check(chk, R.LinuxBackend(tc), m32, autos(4), 40, st, "auto", pre, 300)
    check(chk, R.MipsBackend(tc), m32, (s for s in fam(4, chk.thorough) if not (" S1" in s.key or "S2" in s.key or "pack" in s.decls)), 50, st, "image", pre, 300)
    check(chk, R.MipsBackend(tc), m32, autos(4), 40, st, "auto", pre, 300)
    check(chk, R.DosBackend(tc, ("-doss",), "doss", False), m16, fam(2, chk.thorough), 25, st, "image", pre, 300)
    check(chk, R.DosBackend(tc, ("-doss",), "doss", False), m16, autos(2), 25, st, "auto", pre, 300)
    dosh = R.DosBackend(tc, ("-dosh",), "dosh", False)
    check(chk, dosh, m32, fam(4, chk.thorough), 25, st, "image", pre, 300)
    check(chk, dosh, m32, autos(4), 25, st, "auto", pre, 300)
    check(chk, R.LinuxBackend(tc), m32, wides("int", 4, 4), 60, st, "wide", pre, 300)
    for fl, ty, sz in (("-unsigned-wchar -short-wchar", "unsigned short", 2), ("-signed-wchar -short-wchar", "short", 2), ("-unsigned-wchar -long-wchar", "unsigned", 4), ("-signed-wchar -long-wchar", "int", 4)):
        check(chk, R.LinuxBackend(tc, ("-linux", *fl.split()), fl), m32, wides(ty, sz, 4), 60, st, "wide", pre, 300)
    check(chk, R.DosBackend(tc, ("-doss",), "doss", False), m16, wides("unsigned", 2, 2), 30, st, "wide", pre, 300)
    check(chk, R.DosBackend(tc, ("-doss", "-signed-wchar"), "doss signed", False), m16, wides("int", 2, 2), 30, st, "wide", pre, 300)
    check(chk, dosh, m32, wides("unsigned short", 2, 4), 30, st, "wide", pre, 300)
    n = reject(chk, tc, bad(4), ("smlrc", "-seg32", "-nopp"))
    n += reject(chk, tc, bad(2), ("smlrc", "-seg16", "-nopp"), cwdname="rej16")
    st.families["rejections"] = n
    chk.finish(evaluations=st.evals + n, distinct_nontrivial=st.funcs + n,
               rule="initializer trees (braced, elided, partial, trailing comma, strings, braced scalars) of about 30 aggregate types, and every constant form of every scalar kind, as global, static, block-static and automatic objects between guards; sizes taken from initializers; run-time initializers; excess and malformed initializers",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C09", "exploration", body)
