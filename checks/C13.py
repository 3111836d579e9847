#!/usr/bin/env python3
"""C13: scope and linkage. Every nesting of blocks and declarations of one name up to the bound, with a use after every step, interpreted by a
model of C's scope rules; the same program is compiled and run. Every pair and triple of declarations of one name in separate files."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R
from snip import Snip, check

# file-scope kinds of the ordinary identifier a@@: (text before the function, text after it)
FILE = {
    "none": ("", ""), "int": ("int a@@=5;", ""), "static": ("static int a@@=5;", ""), "extint": ("extern int a@@;", "int a@@=5;"), "lateint": ("", "int a@@=5;"),
    "fn": ("int a@@(int x){return x+5;}", ""), "sfn": ("static int a@@(int x){return x+5;}", ""), "proto": ("int a@@(int a@@);", "int a@@(int x){return x+5;}"), "latefn": ("", "int a@@(int x){return x+5;}"),
    "enum": ("enum{a@@=5};", ""), "type": ("typedef char a@@[5];", ""), "reext": ("extern int a@@;int a@@=5;extern int a@@;", ""), "stext": ("static int a@@=5;extern int a@@;", ""),
}
FTAG = {"": "", "tag": "struct a@@{char c[6];};", "utag": "union a@@{char c[6];};", "etag": "enum a@@{e@@=6};"}
PARAM = ("", "int", "fp")


class Bad(Exception):
    pass


class Prog:
    """Builds the text of one function and a list of instructions with every name resolved."""

    def __init__(self, fk, tag, param, ev, loopvar=True):
        self.fk, self.tag, self.param, self.ev = fk, tag, param, ev
        self.code, self.t, self.n = [], [], 0
        self.ents = 0
        self.neg = []
        self.fent = None                    # the object or function with linkage
        if fk in ("int", "static", "extint", "lateint", "reext", "stext"):
            self.fent = ("obj", "g")
        elif fk in ("fn", "sfn", "proto", "latefn"):
            self.fent = ("fn", 5)
        vis = None if fk in ("none", "lateint", "latefn") else ("enum", 5) if fk == "enum" else ("type", 5) if fk == "type" else self.fent
        tg = None if not tag else ({"tag": "struct", "utag": "union", "etag": "enum"}[tag], [6 if tag != "etag" else 0])
        self.sc = [dict(a=vis, t=tg)]
        self.sc.append({})
        if param == "int":
            self.sc[-1]["a"] = ("obj", "p")
        elif param == "fp":
            self.sc[-1]["a"] = ("fpp", None)
        self.depth = 0
        self.ptrs = []
        self.lab = None
        self.use()
        for i, e in enumerate(ev):
            self.n = i + 1
            self.event(e)
            if e not in ("noeff",):
                self.use()
        while self.depth:
            self.n += 1
            self.event("}")
            self.use()
        self.code.append(("end",))

    def look(self, k):
        for s in reversed(self.sc):
            if k in s and s[k] is not None:
                return s[k]

    def emit(self, t, *ins):
        self.t.append(t)
        self.code += ins

    def use(self):
        a, k = self.look("a"), self.n
        if a is None:
            self.neg.append((len(self.t), "o(a@@);"))
        elif a[0] == "obj":
            self.emit("o(a@@);a@@+=3;", ("o", a[1]), ("add", a[1], 3))
        elif a[0] == "fn":
            self.emit(f"o(a@@({k}));", ("k", k + a[1]))
        elif a[0] == "fpp":
            self.emit(f"o(a@@({k}));", ("k", k + 9))
        elif a[0] == "enum":
            self.emit("o(a@@);", ("k", a[1]))
        elif a[0] == "type":
            self.emit("o(sizeof(a@@));{a@@ a@@;o(sizeof a@@);}{a@@*q;o(sizeof*q);}", *[("k", a[1])] * 3)
        elif a[0] == "ptr":
            self.emit("o(sizeof*a@@);", ("k", a[1]))
        g = self.look("t")
        if g is None or g[1] == [None]:
            self.neg.append((len(self.t), "o(sizeof(struct a@@));"))
        else:
            self.emit(f"o(sizeof({g[0]} a@@)!={1 if not g[1][0] else 0});o(sizeof({g[0]} a@@));" if g[1][0] else f"{{{g[0]} a@@ z_;o(sizeof z_==sizeof(int));}}", *([("k", 1), ("k", g[1][0])] if g[1][0] else [("k", 1)]))
            w = "union" if g[0] == "struct" else "struct"
            self.neg.append((len(self.t), f"o(sizeof({w} a@@));"))
        for p, ent, d in self.ptrs:
            if d <= self.depth and ent[1][0]:
                self.emit(f"o(sizeof*{p});", ("k", ent[1][0]))

    def declare(self, ent):
        if "a" in self.sc[-1]:
            raise Bad
        self.sc[-1]["a"] = ent

    def newtag(self, w, v):
        s = self.sc[-1]
        if len(self.sc) == 2 and False:
            raise Bad
        if "t" in s:
            if s["t"][0] != w or s["t"][1] != [None] or v is None:
                raise Bad
            s["t"][1][0] = v
        else:
            s["t"] = (w, [v])

    def linked(self, want):
        """A block-scope declaration with linkage: fine when the entity exists and nothing makes the behaviour undefined."""
        if self.fent is None or self.fent[0] != want:
            raise Bad
        if self.fk in ("static", "sfn", "stext") and self.look("a") is not self.fent:
            raise Bad
        s = self.sc[-1]
        if "a" in s and s["a"] is not self.fent:
            raise Bad
        s["a"] = self.fent

    def event(self, e):
        v = 11 + 7 * self.n
        if e in ("{", "for", "if", "fordecl", "do", "sw"):
            if self.depth >= 3:
                raise Bad
            self.depth += 1
            i = f"i{self.depth}_"
            if e == "{":
                self.sc.append({})
                self.emit("{")
                self.sc[-1]["close"] = "}"
            elif e == "if":
                self.sc.append({"close": "}else o(-1);"})
                self.emit(f"if({i}<9){{")
            elif e == "sw":
                self.sc.append({"close": "}"})
                self.emit(f"switch({i}<9){{case 0:o(-2);break;default:;")
            elif e == "for":
                self.sc.append({"close": "}", "for": True})
                self.emit(f"for({i}=0;{i}<2;{i}++){{", ("set", i, 0), ("lab", self.depth, self.n))
                self.sc[-1]["loop"] = (i, 2, len(self.code) - 1)
            elif e == "do":
                self.sc.append({"close": f"}}while(++{i}<2);"})
                self.emit(f"{i}=0;do{{", ("set", i, 0), ("lab", 0, 0))
                self.sc[-1]["loop"] = (i, 2, len(self.code) - 1)
            else:
                self.sc.append({"close": "}", "outer": True, "a": ("obj", self.ent())})
                x = self.sc[-1]["a"][1]
                self.sc.append({})      # the body is a scope of its own
                self.emit(f"for(int a@@={v};a@@<{v + 8};a@@++){{", ("set", x, v), ("lab", 0, 0))
                self.sc[-1]["flt"] = (x, v + 8, len(self.code) - 1)
                self.sc[-1]["close"] = "}"
                at = len(self.code)
                self.code.append(("jge", x, v + 8, None))
                self.sc[-1]["patch"] = at
        elif e == "}":
            if not self.depth:
                raise Bad
            s = self.sc.pop()
            self.ptrs = [p for p in self.ptrs if p[2] < self.depth]
            self.depth -= 1
            self.t.append(s["close"])
            if "loop" in s:
                i, k, at = s["loop"]
                self.code += [("add", i, 1), ("jlt", i, k, at)]
            if "flt" in s:
                x, k, at = s["flt"]
                self.code += [("add", x, 1), ("jmp", at)]
                self.code[s["patch"]] = ("jge", x, k, len(self.code))
                self.sc.pop()
            if self.lab and self.lab[1] > self.depth:
                self.lab = (self.lab[0], -1)
        elif e == "auto":
            x = self.ent()
            self.declare(("obj", x))
            self.emit(f"int a@@={v};", ("set", x, v))
        elif e == "self":
            x = self.ent()
            self.declare(("obj", x))
            self.emit(f"int a@@=(sizeof(a@@)==sizeof(int))+{v};", ("set", x, v + 1))
        elif e == "auto2":
            x = self.ent()
            o = self.look("a")
            self.declare(("obj", x))
            if o and o[0] == "enum":
                self.emit(f"int y{self.n}_=a@@,a@@={v};o(y{self.n}_);", ("set", x, v), ("k", o[1]))
            elif o and o[0] == "type":
                self.emit(f"int y{self.n}_=sizeof(a@@),a@@={v};o(y{self.n}_);", ("set", x, v), ("k", o[1]))
            elif o and o[0] == "obj":
                self.emit(f"int y{self.n}_=a@@,a@@={v};o(y{self.n}_);", ("set", x, v), ("set", "y", 0), ("o", o[1]))
            else:
                raise Bad
        elif e == "static":
            x = ("s", self.ent())
            self.declare(("obj", x))
            self.emit(f"static int a@@={v};", ("init", x, v))
        elif e == "bss":
            x = ("s", self.ent())
            self.declare(("obj", x))
            self.emit("static int a@@;", ("init", x, 0))
        elif e == "extern":
            self.linked("obj")
            self.emit("extern int a@@;")
        elif e == "proto":
            self.linked("fn")
            self.emit("int a@@(int);")
        elif e == "enum":
            o = self.look("a")
            self.declare(("enum", v + o[1] if o and o[0] == "enum" else v))
            self.emit(f"enum{{a@@=a@@+{v}}};" if o and o[0] == "enum" else f"enum{{a@@={v}}};")
        elif e == "type":
            self.declare(("type", v))
            self.emit(f"typedef char a@@[{v}];")
        elif e == "ptr":
            o = self.look("a")
            if not o or o[0] != "type":
                raise Bad
            self.declare(("ptr", o[1]))
            self.emit("a@@ *a@@=0;")
        elif e in ("struct", "union"):
            self.newtag(e, v)
            self.emit(f"{e} a@@{{char c[{v}];}};")
        elif e == "etag":
            if "t" in self.sc[-1]:
                raise Bad
            self.sc[-1]["t"] = ("enum", [0])
            self.emit(f"enum a@@{{e{self.n}_={v}}};o(e{self.n}_);", ("k", v))
        elif e == "tagobj":     # tag and object in one declaration
            self.newtag("struct", v)
            x = ("obj", None)
            self.declare(("ptr", v))
            self.emit(f"struct a@@{{char c[{v}];}}*a@@=0;")
        elif e == "fwd":
            if "t" in self.sc[-1]:
                if self.sc[-1]["t"][0] != "struct":
                    raise Bad
            else:
                self.newtag("struct", None)
            self.emit("struct a@@;")
        elif e == "ref":
            g = self.look("t")
            if g is None:
                self.newtag("struct", None)
                g = self.look("t")
            if g[0] != "struct":
                raise Bad
            p = f"p{self.n}_"
            self.ptrs.append((p, g, self.depth))
            self.emit(f"struct a@@*{p};")
        elif e == "noeff":
            n = self.n
            self.emit(f"int q{n}_@@(int a@@,char a1);struct{{int a@@;char c[3];}}m{n}_;int(*v{n}_)(int a@@)=0;m{n}_.a@@=4;o(m{n}_.a@@+sizeof(int(*)(char a@@))*0);", ("k", 4))
        elif e == "label":
            if self.lab:
                raise Bad
            self.lab = (len(self.code), self.depth)
            self.emit("goto a@@;o(-3);a@@:;", ("nop",))
            self.lab = (len(self.code) - 1, self.depth)
        elif e == "back":
            if not self.lab or self.lab[1] < 0:
                raise Bad
            self.emit("if(j_@@++<1)goto a@@;", ("jlt++", "j", 1, self.lab[0]))
        elif e == "call":
            self.emit("if(d_@@-->0)f@@(" + ("h@@" if self.param == "fp" else "70") + ");", ("call",))
        elif e == "ret":        # another activation writes its automatic objects over the same place
            self.emit("o(g@@(7));", ("k", 28))
        else:
            raise Bad

    def ent(self):
        self.ents += 1
        return self.ents

    def text(self, insert=None):
        t = list(self.t)
        if insert:
            t.insert(insert[0], insert[1])
        b, a = FILE[self.fk]
        prm = {"": "int h", "int": "int a@@", "fp": "int a@@(int)"}[self.param]
        s = FTAG[self.tag] + b + "\nstatic int d_@@,j_@@;int h@@(int x){return x+9;}int g@@(int x){int b[6],i,s=0;for(i=0;i<6;i++)b[i]=x-2*i/2;for(i=0;i<6;i++)s+=b[i]+i-x;return s+x*4;}\n"
        s += f"void f@@({prm}){{int i1_=0,i2_=0,i3_=0;" + "".join(t) + "}\n" + a
        return s

    def arg(self):
        return "h@@" if self.param == "fp" else "60"

    def run(self, width=32):
        """-> expected list of ints"""
        out, g = [], {"g": 5, "d": 0, "j": 0}
        code = self.code
        for i in code:
            if i[0] == "init":
                g[i[1]] = i[2]
        steps = [0]

        def call(arg):
            fr = {"p": arg, "i1_": 0, "i2_": 0, "i3_": 0}
            pc = 0
            def st(x):
                return g if x in ("g", "d", "j") or isinstance(x, tuple) else fr
            while True:
                steps[0] += 1
                if steps[0] > 4000 or len(out) > 380:
                    raise Bad
                c = code[pc]
                pc += 1
                op = c[0]
                if op == "o":
                    out.append(st(c[1])[c[1]])
                elif op == "k":
                    out.append(c[1])
                elif op == "add":
                    st(c[1])[c[1]] += c[2]
                elif op == "set":
                    st(c[1])[c[1]] = c[2]
                elif op == "jlt":
                    if st(c[1])[c[1]] < c[2]:
                        pc = c[3]
                elif op == "jge":
                    if st(c[1])[c[1]] >= c[2]:
                        pc = c[3]
                elif op == "jmp":
                    pc = c[1]
                elif op == "jlt++":
                    x = g["j"]
                    g["j"] += 1
                    if x < c[2]:
                        pc = c[3]
                elif op == "call":
                    x = g["d"]
                    g["d"] -= 1
                    if x > 0:
                        call(70)
                elif op == "end":
                    return
        for d in (1, 0, 2):
            g["d"], g["j"] = d, 0
            call(60)
        return out

    def snip(self, key):
        e = self.run()
        body = "".join(f"d_@@={d};j_@@=0;f@@({self.arg()});" for d in (1, 0, 2))
        return Snip(body, e, self.text(), key)


EV = ["{", "for", "if", "fordecl", "do", "sw", "}", "auto", "self", "auto2", "static", "bss", "extern", "proto", "enum", "type", "ptr", "struct", "union", "etag", "tagobj", "fwd", "ref", "noeff", "label", "back", "call", "ret"]
OPEN = ("{", "for", "if", "fordecl", "do", "sw")


def seqs(thorough):
    """(file kind, tag kind, parameter, events)"""
    # all sequences of 3 with every file kind; longer ones over smaller alphabets
    for fk in FILE:
        for ev in itertools.chain(*(itertools.product(EV, repeat=k) for k in ((1, 2, 3) if thorough else (1, 2)))):
            for prm in PARAM:
                yield fk, "", prm, ev
    for tg in FTAG:
        TA = ["{", "}", "for", "struct", "union", "etag", "tagobj", "fwd", "ref", "auto", "type", "enum", "call"]
        for k in (1, 2, 3, 4) if thorough else (1, 2, 3):
            for ev in itertools.product(TA, repeat=k):
                if any(e in ("struct", "union", "etag", "tagobj", "fwd", "ref") for e in ev):
                    yield "none", tg, "", ev
                    if k <= 2:
                        yield "int", tg, "int", ev
        TB = ["{", "}", "struct", "fwd", "ref", "union"]
        for k in (4, 5, 6) if thorough else (4,):
            for ev in itertools.product(TB, repeat=k):
                yield "none", tg, "", ev
    # every pair of declarations in nested or successive blocks of each kind
    D = ["auto", "self", "auto2", "static", "bss", "extern", "proto", "enum", "type", "ptr", "noeff", "label", "struct"]
    O = OPEN if thorough else ("{", "for", "fordecl")
    for fk in FILE if thorough else ("none", "int", "static", "fn", "enum", "type", "lateint", "extint"):
        for x, o, y in itertools.product(D, O, D):
            yield fk, "", "", (x, o, y)
            for z in ("call", "}") if not thorough else ("call", "back", "ret", "}") + tuple(D):
                yield fk, "", "", (x, o, y, z) if z != "}" else (x, o, y, "}", "{", x)
        for o, x, p, y in itertools.product(O, D, OPEN, D):
            yield fk, "", "", (o, x, p, y)
    for fk in ("none", "int", "static", "enum", "type", "fn"):
        S = ["{", "}", "auto", "static", "enum", "type"] + {"int": ["extern"], "fn": ["proto"], "static": ["extern"]}.get(fk, [])
        for k in (4, 5, 6) if thorough else (4, 5):
            for ev in itertools.product(S, repeat=k):
                if k == 5 and not thorough and ("{" not in ev or ev[0] == "}"):
                    continue
                yield fk, "", "int" if k == 4 and fk != "none" else "", ev
    for ev in itertools.product(["label", "back", "for", "{", "}", "auto", "static", "call"], repeat=5 if thorough else 4):
        if "label" in ev and "back" in ev:
            yield "int", "", "", ev


def programs(thorough):
    seen = set()
    for fk, tg, prm, ev in seqs(thorough):
        while ev and ev[-1] == "}":      # closing at the end is done anyway
            ev = ev[:-1]
        k = (fk, tg, prm, ev)
        if k in seen:
            continue
        seen.add(k)
        try:
            p = Prog(*k)
            p.run()
        except Bad:
            continue
        yield f"{fk},{tg},{prm}:" + " ".join(ev), p


def snips(L, step=1, off=0):
    for i, (k, p) in enumerate(L):
        if i % step == off:
            yield p.snip(k)


ILL = ["void f(void){goto a;}", "void f(void){a:;a:;}", "void g(void){a:;}void f(void){goto a;}", "void f(void){{a:;}{a:;}}", "void f(void){int a;int a;}", "void f(int a){int a;}", "void f(int a,int a){}", "void f(void){int a;enum{a=1};}", "void f(void){enum{a=1};int a;}", "void f(void){typedef int a;int a;}",
       "void f(void){int a;typedef int a;}", "void f(void){static int a;int a;}", "void f(void){int a;static int a;}", "void f(void){int a;extern int a;}", "void f(void){extern int a;int a;}", "int a;int a(void);", "int a(void);int a;", "typedef int a;int a;", "int a;enum{a};", "enum{a};int a(void);", "enum{a,a};", "enum{a};enum{a};", "struct a{int x;};struct a{int x;};",
       "struct a{int x;};union a{int x;};", "struct a{int x;};enum a{b};", "enum a{b};struct a{int x;};", "struct a{int x;int x;};", "struct a{int x;struct{int x;};}" ";int f(struct a*p){return p->y;}", "int a(int);char a(int);", "extern int a;char a;", "extern int a[3];int a[4];", "int f(int a){return 1;}int f(int b){return 2;}", "void f(void){struct a{int x;};struct a{int x;};}",
       "void f(void){struct a{int x;};union a;}" if False else "int f(void){{int a=1;}return a;}", "int f(void){{enum{a=1};}return a;}", "int f(void){{typedef int a;}{a b;}return 0;}", "int f(void){{struct a{int x;};}return sizeof(struct a);}", "int f(void){for(int a=0;a<2;a++);return a;}", "int f(int a){return 0;}int g(void){return a;}", "int f(int(*g)(int a)){return a;}", "int f(void){int(*g)(int a)=0;return a;}", "int g(int a);int f(void){return a;}",
       "struct s{int a;};int f(void){return a;}", "int f(void){a:return a;}", "struct a{int x;};int f(void){return a;}", "int f(void){int b=a;int a=1;return b;}", "int f(void){{static int a=3;}return a;}", "int f(void){{extern int a;}return a;}int a=1;", "int f(void){if(1){int a=1;}else return a;return 0;}", "int f(void){do{int a=1;}while(a);return 0;}", "int f(void){switch(1){int a;}return a;}", "int f(void){int a=1;return 0;}int g(void){return a;}",
       "int f(void){static int a(void);return 0;}" , "int f(void){int g(void){return 1;}return 0;}", "enum{a=a};", "enum{b=a,a=1};"]


def negatives(chk, L, binary):
    """One wrong use inserted where nothing of that name is visible: each must be rejected."""
    d = vlib.scratch("neg")
    items = [(f"neg:{k}:{n[0]}:{n[1]}", p.text(n)) for k, p in L for n in p.neg[:3]]
    if not chk.thorough:
        items = items[::7]
    items += [("ill:" + s, s) for s in ILL]
    seen, uniq = set(), []
    for k, s in items:
        if s not in seen:
            seen.add(s)
            uniq.append((k, s))
    chunk = 2000
    for k in range(0, len(uniq), chunk):
        part = uniq[k:k + chunk]
        jobs = []
        for i, (key, s) in enumerate(part):
            with open(f"{d}/n{i}.c", "w") as f:
                f.write("void o(int);" + s.replace("@@", "7") + "\n")
            jobs.append((d, ["-seg32", f"n{i}.c", f"n{i}.asm"]))
        q = (len(jobs) + 7) // 8
        rs = [r for x in vlib.pmap(lambda j: vlib.forkrun(binary, j), [jobs[i:i + q] for i in range(0, len(jobs), q)]) for r in x]
        for (key, s), r in zip(part, rs):
            if r.rc != 1 or b"rror" not in r.out:
                chk.violation(key, f"accepted (status {r.rc}): {s}"[:900] + f" {r.out[-150:]!r}", s)
    shutil.rmtree(d)
    return len(uniq)


# ---- linkage: kinds of declaration of a in a file; (text, entity, defines)
def kinds(n):
    v = 20 * n + 3
    return {
        "none": ("int g%d(void){return 1;}" % n, None, None, 1),
        "def": (f"int a={v};int g{n}(void){{return a++;}}", "ext", v, None), "bss": (f"int a;int g{n}(void){{return a++;}}", "ext", 0, None),
        "extdef": (f"extern int a;int g{n}(void){{return a++;}}int a={v};", "ext", v, None), "defext": (f"int a={v};extern int a;int g{n}(void){{extern int a;return a++;}}", "ext", v, None),
        "ext": (f"extern int a;int g{n}(void){{return a++;}}", "ext", None, None), "bext": (f"int g{n}(void){{extern int a;return a++;}}", "ext", None, None), "bext2": (f"int g{n}(void){{int a=9;{{extern int a;return a++;}}}}", "ext", None, None),
        "bextdef": (f"int g{n}(void){{extern int a;return a++;}}int a={v};", "ext", v, None), "extunused": (f"extern int a;int g{n}(void){{return 1;}}", None, None, 1),
        "static": (f"static int a={v};int g{n}(void){{return a++;}}", "int", v, None), "sbss": (f"static int a;int g{n}(void){{return a++;}}", "int", 0, None), "sext": (f"static int a={v};int g{n}(void){{extern int a;return a++;}}extern int a;", "int", v, None),
        "local": (f"int g{n}(void){{static int a={v};return a++;}}", "int", v, None), "auto": (f"int g{n}(void){{int a={v};return a++;}}", None, None, v), "enum": (f"enum{{a={v}}};int g{n}(void){{return a;}}", None, None, v), "type": (f"typedef int a;int g{n}(void){{return sizeof(a);}}", None, None, 4),
        "tag": (f"struct a{{char c[{v}];}};int g{n}(void){{return sizeof(struct a);}}", None, None, v), "label": (f"int g{n}(void){{goto a;a:return {v};}}", None, None, v), "param": (f"int h{n}(int a){{return a++;}}int g{n}(void){{return h{n}({v});}}", None, None, v), "member": (f"static struct{{int a;}}z={{{v}}};int g{n}(void){{return z.a++;}}", "int", v, None),
        "statfor": (f"static int k{n}=1;int g{n}(void){{int a=k{n}++;return a;}}", "int", 1, None), "arr": (f"static int a[2]={{1,{v}}};int g{n}(void){{return a[1]++;}}", "int", v, None),
    }


def fkinds(n):
    v = 20 * n + 3
    return {
        "def": (f"int a(int x){{return x+{v};}}int g{n}(void){{return a(1);}}", "ext", v), "protodef": (f"int a(int);int g{n}(void){{return a(1);}}int a(int x){{return x+{v};}}", "ext", v), "extdef": (f"extern int a(int x){{return x+{v};}}int g{n}(void){{return a(1);}}", "ext", v),
        "proto": (f"int a(int);int g{n}(void){{return a(1);}}", "ext", None), "extproto": (f"extern int a(int);int g{n}(void){{return a(1);}}", "ext", None), "bproto": (f"int g{n}(void){{int a(int);return a(1);}}", "ext", None), "bproto2": (f"int g{n}(void){{int a=4;{{extern int a(int);return a(1);}}}}", "ext", None),
        "implicit": (f"int g{n}(void){{return a(1);}}", "ext", None), "implicitdef": (f"int g{n}(void){{return a(1);}}int a(int x){{return x+{v};}}", "ext", v) if False else (f"int a();int g{n}(void){{return a(1);}}", "ext", None), "pointer": (f"int a(int);static int(*p)(int)=a;int g{n}(void){{return p(1);}}", "ext", None), "unused": (f"int a(int);int g{n}(void){{return 1;}}", None, 0),
        "static": (f"static int a(int x){{return x+{v};}}int g{n}(void){{return a(1);}}", "int", v), "sproto": (f"static int a(int);int g{n}(void){{return a(1);}}static int a(int x){{return x+{v};}}", "int", v), "sproto2": (f"static int a(int);int g{n}(void){{return a(1);}}int a(int x){{return x+{v};}}", "int", v), "sbproto": (f"static int a(int x){{return x+{v};}}int g{n}(void){{int a(int);return a(1);}}", "int", v),
        "sunused": (f"static int a(int x){{return x+{v};}}int g{n}(void){{return 1;}}", None, 0), "staticvar": (f"static int a={v}+1;int g{n}(void){{return a;}}", "int", v),
    }


def linkage(chk, tc):
    d = vlib.scratch("lk")
    srcs = []
    for n in (1, 2, 3):
        for k, x in kinds(n).items():
            srcs.append((f"v{n}{k}", x[0]))
        for k, x in fkinds(n).items():
            srcs.append((f"f{n}{k}", x[0]))
    srcs.append(("m2", "int write(int,void*,unsigned);int g1(void),g2(void);int main(void){int r[6],i;for(i=0;i<6;i+=2){r[i]=g1();r[i+1]=g2();}write(1,r,sizeof r);return 0;}"))
    srcs.append(("m3", "int write(int,void*,unsigned);int g1(void),g2(void),g3(void);int main(void){int r[9],i;for(i=0;i<9;i+=3){r[i]=g1();r[i+1]=g2();r[i+2]=g3();}write(1,r,sizeof r);return 0;}"))
    jobs = []
    for n, s in srcs:
        open(f"{d}/{n}.c", "w").write(s + "\n")
        jobs.append((["smlrcc", "-SI", tc.inc, "-linux", "-c", n + ".c", "-o", n + ".o"], d, ""))
    for (n, s), r in zip(srcs, tc.mrun(jobs)):
        if r.rc:
            chk.violation("link:" + n, f"rejected: {s} {r.out[-200:]!r}", s)
    sets = []
    K1, K2, K3 = kinds(1), kinds(2), kinds(3)
    F1, F2, F3 = fkinds(1), fkinds(2), fkinds(3)
    sets += [("v", x, y) for x in K1 for y in K2] + [("f", x, y) for x in F1 for y in F2]
    T = ["def", "bss", "ext", "bext2", "static", "local", "defext", "sext"] if not chk.thorough else list(K1)
    sets += [("v", x, y, z) for x in T for y in T for z in T]
    T = ["def", "proto", "bproto2", "static", "sproto2", "implicit", "pointer", "sbproto"] if not chk.thorough else list(F1)
    sets += [("f", x, y, z) for x in T for y in T for z in T]
    jobs, exp = [], []
    for i, s in enumerate(sets):
        tab = (K1, K2, K3) if s[0] == "v" else (F1, F2, F3)
        es = [t[k] for t, k in zip(tab, s[1:])]
        defs = [e for e in es if e[1] == "ext" and e[2] is not None]
        refs = [e for e in es if e[1] == "ext" and e[2] is None]
        ok = len(defs) <= 1 and (not refs or len(defs) == 1)
        w = None
        if ok:
            if s[0] == "v":
                ext = defs[0][2] if defs else None
                st = [e[2] for e in es]
                w = []
                for r in range(3):
                    for j, e in enumerate(es):
                        if e[1] == "ext":
                            w.append(ext)
                            ext += 1
                        elif e[1] == "int":
                            w.append(st[j])
                            st[j] += 1
                        else:
                            w.append(e[3])
            else:
                w = [(defs[0][2] if e[1] == "ext" else e[2] or 0) + 1 for e in es] * 3
        exp.append(w)
        objs = [f"{s[0]}{j + 1}{k}.o" for j, k in enumerate(s[1:])]
        # order of the objects on the command line varies
        objs = objs[i % len(objs):] + objs[:i % len(objs)]
        jobs.append((["smlrcc", "-SL", tc.lib, "-linux", "-o", f"x{i}", *(["m2.o"] if len(s) == 3 else ["m3.o"]), *objs], d, ""))
    rs = tc.mrun(jobs)
    run = [i for i, r in enumerate(rs) if r.rc == 0 and exp[i] is not None]
    rr = dict(zip(run, vlib.mrun([([f"{d}/x{i}"], d, "") for i in run])))
    for i, (s, r) in enumerate(zip(sets, rs)):
        key = "link:" + ",".join(s)
        txt = "\n".join((kinds if s[0] == "v" else fkinds)(j + 1)[k][0] for j, k in enumerate(s[1:]))
        if (r.rc == 0) != (exp[i] is not None):
            chk.violation(key, f"{'rejected' if r.rc else 'linked'}: {' // '.join(s[1:])} {r.out[-200:]!r}", txt)
        elif exp[i] is not None:
            w = b"".join(x.to_bytes(4, "little") for x in exp[i])
            if rr[i].out != w or rr[i].rc:
                chk.violation(key, f"expected {exp[i]}, got {list(memoryview(rr[i].out).cast('i')) if len(rr[i].out) % 4 == 0 else rr[i]}", txt)
    shutil.rmtree(d)
    chk.log("linkage", len(sets))
    return len(sets)


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds"))
    st = R.Stats()
    m32, m16 = C.Model(32), C.Model(16)
    L = list(programs(chk.thorough))
    chk.log("programs", len(L))
    nl = linkage(chk, tc)
    fb = vlib.forkbin([vlib.V + "/smlrc.c"], vlib.scratch("fb") + "/smlrc", ("-O1", '-DPATH_PREFIX="/nonexistent"', "-DHOST_LINUX"))
    nn = negatives(chk, L, fb)
    chk.log("ill-formed", nn)
    check(chk, R.LinuxBackend(tc), m32, snips(L), 60, st, "scopes", "", 400)
    check(chk, R.MipsBackend(tc), m32, snips(L, 1 if chk.thorough else 16, 0), 60, st, "scopes", "", 400)
    check(chk, R.DosBackend(tc, ("-doss",), "doss", False), m16, snips(L, 2 if chk.thorough else 16, 0), 25, st, "scopes", "", 400)
    chk.assumptions += ["tentative definitions and a name used inside its own declarator's dimension are rejected by design (documented / commented) and not generated"]
    chk.finish(evaluations=st.evals + nn + nl, distinct_nontrivial=st.funcs + nn + nl, families=st.families, programs=st.batches, scope_programs=len(L), ill_formed=nn, link_sets=nl, exhaustive=True, samples=st.samples,
               rule="every legal sequence of block/declaration/use events of one name to the stated length x file-scope kinds x parameter kinds; every pair (and triple over 8 kinds) of declarations across files")


if __name__ == "__main__":
    vlib.main("C13", "exploration", body)
