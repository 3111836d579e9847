"""C16: every small set of macro definitions and uses through the stand-alone preprocessor, against a model of the standard's expansion (cross-checked with gcc -E)."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppmodel
from ppmodel import lex, Macro, Model, Undefined, kind

PP = ["smlrpp", "-U", "__STDC_VERSION__", "-zI", "-l"]


def cases(fam, full):
    """yields ([(name, params or None, body)], use)"""
    seqs = lambda al, n: (s for k in range(n + 1) for s in itertools.product(al, repeat=k))
    if fam == "one":
        uses = ["F(a)", "F(O)", "F(F)(a)", "F(F(a))", "F()", "F (a)(O)", "O(a)", "F(O O)", "F((a,b))", "O", "F(F)", "F\n(\na\n) F", "F(O(a))(b)", "F( O ( ) )"]
        for b in seqs(["x", "F", "O", "a", "(", ")", "##", "#x"], 4 if full else 3):
            for o in ("", "a", "F", "O", "F(", "(", "x F", "F(O)", "F)"):
                for u in uses:
                    yield [("F", "x", " ".join(b)), ("O", None, o)], u
    elif fam == "two":
        uses = ["F(a,b)", "F(,)", "F(a,)", "F(,b)", "F(G,G)", "F(G(a),G(b))", "F((a,b),c)", "F(F(a,b),c)", "F ( a + G , - G )(c)", "G(a,b)"]
        for b in seqs(["x", "y", "##", "#y", "G", "(", ")", "-"], 4 if full else 3):
            for g in (None, "G"):
                for gb in ("a", "x y", "F", "G(1)", ""):
                    for u in uses:
                        yield [("F", "x,y", " ".join(b)), ("G", "q" if g else None, gb)], u
    elif fam == "var":
        us = ["F()", "F(a)", "F(a,b)", "F(a,b,c)", "F(,)", "F(,,)", "F((a,b),c)", "F(G,G,G)", "F(F(a,b),c,d)", "F( a , b , G )"]
        for p in ("...", "x,...", "x,y,..."):
            for b in seqs([q for q in p.split(",")[:-1]] + ["__VA_ARGS__", "#__VA_ARGS__", "##", ",", "a", "G"], 3 if full else 3):
                for gb in ("1", "F", "x,y"):
                    for u in us:
                        yield [("F", p, " ".join(b)), ("G", None, gb)], u
    elif fam == "rec":
        menu = ["G", "H", "F", "G(a)", "H(a)", "F(a)", "G(x)", "H(x)", "F(x)", "x", "x(x)", "x(a)", "G H", "(a)", "F(H)(x)", "G(F(x))"]
        menu = menu if full else menu[:13]
        for a in menu:
            for b in menu:
                for c in menu:
                    for pa, pb, pc in itertools.product((None, "x"), repeat=3):
                        if (pa, pb, pc).count("x") in ((1, 2) if full else (2,)):
                            for u in (("F(a)", "F(F)(G)(H)", "H(G(F(a)))") if pa else ("F", "F(a)(b)", "G(F)(H)")):
                                yield [("F", pa, a), ("G", pb, b), ("H", pc, c)], u
    elif fam == "str":
        it = ["a", "1", '"s"', '"a\\n"', '"\\""', '"\\\\"', "'\"'", "'\\\\'", "'\\''", 'L"w"', "L'c'", "+", "++", "->", ".5e+3", "0x1p-2", "(a)", "((", "))", "( )", "...", "%:", "<:", "a/**/b", "a /* c */ b", "a\nb", "a \t  b", "S", "E", "#", "##", "T(a)", '"//"', '"/*"', "'/*'", '" "', "a//\nb", "@", "$", "`"]
        it = [i for i in it if i not in ("((", "))")]
        for a in it:
            for b in it + [""]:
                for sep in ("", " ", "\t/**/ ", "\n"):
                    for pre in ("", " "):
                        yield [("T", "x", "#x"), ("S", None, "1"), ("E", None, ""), ("U", "x", "T(x)"), ("V", "...", "# __VA_ARGS__")], f"T({pre}{a}{sep}{b}{pre})"
                        yield [("T", "x", "#x"), ("S", None, "1"), ("E", None, ""), ("U", "x", "T(x)"), ("V", "...", "# __VA_ARGS__")], f"V({pre}{a},{sep}{b}{pre})" if pre else f"U({a}{sep}{b})"
    elif fam == "paste":
        it = ["a", "L", "x", "e", "E", "p", "_", "1", "0", "0x", "1e", "1p", ".", ".1", "1.", "..", '"s"', "'c'", "L"] + [p for p in ppmodel.PUNCT if p not in ("#", "##", "%:", "%:%:", ",", "(", ")")]
        it = sorted(set(it) - {".."})
        for a in it:
            for b in it:
                if kind(a + b) not in (None, "ws", "o") and not (a in ("1e", "1p") and b[0] in ".eEpP"):   # 1e. is no constant, and taken as two tokens here
                    yield [("C", "x,y", "x ## y"), ("O", None, f"{a} ## {b}"), ("D", "x", f"x ## {b}"), ("E", "x", f"{a} ## x")], f"C({a},{b}) O D({a}) E({b}) C( {a} , {b} )"
                    if re.match(r"\w+\Z", a + b):
                        yield [("C", "x,y", "x##y"), (a + b, None, "hit") if ppmodel.ID.match(a + b) else ("Q", None, ""), ("W", "x,y", "C(x,y)")], f"C({a},{b}) W({a},{b}) C(C({a},{b}),{b})"
    elif fam == "space":
        it = ["a", "L", "1", "1.", ".", "e", '"s"', "'c'"] + [p for p in ppmodel.PUNCT if p not in ("#", "##", "%:", "%:%:", ",", "(", ")")]
        for a in it:
            for b in it:
                yield [("A", None, a), ("B", None, b), ("N", None, ""), ("I", "x", "x"), ("J", "x", f"x{b}")], f"A B|{a} B|I({a}){b} I({a})I({b})|A{'' if not re.match('[A-Za-z0-9_.]', b) else ' '}{b}|J(A)|{a} N {b}|{a}N{chr(32) + "|" + a + "B " if not re.match("[A-Za-z0-9_.\"']", a) else ""}"[:None if not re.match('.*[A-Za-z0-9_.]$', a) else -2] if 1 else ""
    elif fam == "args":
        # white space, line breaks, comments and directives-like lines inside invocations
        for pre in ("", " ", "\n", "\n\n", "/* */", "//c\n"):
            for mid in ("", "\n", " /**/ ", "\n\t"):
                for post in ("", "\n", " "):
                    for a in ("a", "(a , b)", "O", "P(1)", "", "a O"):
                        yield [("P", "x", "[x|#x]"), ("O", None, "P"), ("Q", "", "q"), ("R", "x,y", "y x")], f"P{pre}({mid}{a}{post}) O{pre}({a}{mid}) Q{pre}({mid}{post}) R{pre}({mid}{a},{a}{post}) ;"


def text(defs):
    s = ""
    for n, p, b in defs:
        s += f"#define {n}{'' if p is None else '(' + p + ')'} {b}\n"
    return s


def model(defs, use):
    if re.search(r"\n[ \t]*(/\*.*?\*/)?[ \t]*(#|%:)", use):
        raise Undefined("directive in arguments")
    ms = {}
    for n, p, b in defs:
        pr = None if p is None else [("__VA_ARGS__" if q == "..." else q) for q in p.split(",")] if p else []
        if n in ms:
            raise Undefined("twice")
        if re.search(r"__VA_ARGS__", b) and (p is None or "..." not in p):
            raise Undefined("va")
        ms[n] = Macro(b, pr, bool(p) and "..." in p)
    r = Model(ms).expand(lex(use) + [T0])
    if [t.s for t in r] != [t.s for t in Model(ms, True).expand(lex(use) + [T0])]:
        raise Undefined("unspecified nesting")
    if r[-1].s != ";":
        raise Undefined("swallowed the end")
    return [t.s for t in r[:-1]]


T0 = ppmodel.T(";")


def batch(job):
    fam, full, part, parts, root, d = job
    groups, cur, n, und = [], [], 0, 0
    for i, (defs, use) in enumerate(cases(fam, full)):
        if i % parts != part:
            continue
        try:
            exp = model(defs, use)
        except Undefined:
            und += 1
            continue
        cur.append((defs, use, exp))
    tools = vlib_tc(root)
    bad, unspec, tot = [], 0, len(cur)
    for k in range(0, len(cur), 3000):
        g = cur[k:k + 3000]
        src, last = [], None
        for j, (defs, use, exp) in enumerate(g):
            if defs != last:
                src.append("".join(f"#undef {n}\n" for n, _, _ in last or []) + text(defs))
                last = defs
            src.append(f"{use} ;\nMARK_{j} ;\n")
        p = f"{d}/{fam}{part}_{k}.c"
        open(p, "w").write("".join(src))
        r = vlib.run([tools + "/smlrpp", *PP[1:], p], timeout=200)
        q = vlib.run(["gcc", "-E", "-P", "-w", "-std=c99", "-undef", "-nostdinc", "-ftrack-macro-expansion=0", p], timeout=200)
        a, b = split(r.out), split(q.out)
        if r.rc or len(a) < len(g):
            # find the case on its own
            for j, (defs, use, exp) in enumerate(g):
                open(p, "w").write(text(defs) + use + " ;\nMARK_0 ;\n")
                r1 = vlib.run([tools + "/smlrpp", *PP[1:], p], timeout=20)
                a1 = split(r1.out)
                if r1.rc or a1.get(0) != exp:
                    if b.get(j) == exp:
                        bad.append((defs, use, exp, a1.get(0), repr(r1)))
                        if len(bad) > 5:
                            break
                    else:
                        unspec += 1
        else:
            for j, (defs, use, exp) in enumerate(g):
                if b.get(j) != exp:
                    unspec += 1
                elif a.get(j) != exp:
                    bad.append((defs, use, exp, a.get(j), ""))
        os.remove(p)
    return fam, bad, tot, und, unspec


def vlib_tc(root):
    return root + "/bin"


def split(out):
    r, cur = {}, []
    ts = [m.group() for m in ppmodel.TOK.finditer(out.decode("latin-1")) if m.lastgroup != "ws"]
    i = 0
    while i < len(ts):
        if ts[i].startswith("MARK_"):
            r[int(ts[i][5:])] = cur[:-1] if cur and cur[-1] == ";" else cur
            cur = []
            i += 2
        else:
            cur.append(ts[i])
            i += 1
    return r


def redefinitions():
    """pairs of definitions of one name -> (source, whether it is valid)"""
    forms = [("M", None, b) for b in ("", "1", "2", "a+b", "a + b", "a  +  b", "a +b", "a/**/+/**/b", "a\\\n+ b", '"a b"', '"a  b"', "(x) x", "'a'")]
    forms += [("M", p, b) for p in ("x", "y", "", "x,y", "...", "x,...", "y,x") for b in ("x", "y", "1", "x y", "x  y", "xy")]
    def norm(f):
        ts = lex(f[2].replace("\\\n", ""))
        return f[1], [(t.s, t.w and i > 0) for i, t in enumerate(ts)]
    for f in forms:
        for g in forms:
            same = norm(f) == norm(g)
            yield text([f]) + text([g]), same
            yield text([f]) + "#undef M\n" + text([g]), True
    for s in ["#define A", "#define A ", "#define A 1 2", "#define A() 1", "#define A(...) __VA_ARGS__", "#define A(x) # x", "#define A # b", "#undef QQ", "#define A(x,...) #x #__VA_ARGS__", "#define A x ## y", "#", "# ", "# /* c */", "#define A #", "#define A(x) x#x", "#define A '\"'"]:
        yield s + "\n", True
    for s in ["#define", "#define 1", "#define +", "#define defined", "#define A(x", "#define A(x,", "#define A(x,)", "#define A(,)", "#define A(x y) x", "#define A(x,x) x", "#define A(1) x", "#define A(...,x) x", "#define A(x) #", "#define A(x) #y", "#define A(x) # 1",
              "#define A ##", "#define A ## b", "#define A b ##", "#define A(x) ## x", "#define A(x) x ##", "#undef", "#undef 1", "#define A(x) x\nA(1,2)\n", "#define A(x,y) x\nA(1)\n", "#define A() x\nA(1)\n", "#define A(x) x\nA(1\n",
              "#define __LINE__ 1", "#undef __FILE__", "#undef __LINE__", "#error x", "#define A(x) \"\n#else", "#define __DATE__"]:
        yield s + "\n", False


def body(chk):
    full = chk.thorough
    tc = vlib.Toolchain(tools=("smlrpp",))
    d = vlib.scratch("pp")
    jobs = []
    for fam, parts in (("one", 8), ("two", 8), ("var", 8), ("rec", 8), ("str", 4), ("paste", 2), ("space", 2), ("args", 1)):
        parts *= 8 if full else 1
        jobs += [(fam, full, k, parts, tc.root, d) for k in range(parts)]
    tot = und = unspec = 0
    per, seen = {}, 0
    for fam, bad, n, u, s in vlib.ppmap(batch, jobs):
        tot += n
        und += u
        unspec += s
        per[fam] = per.get(fam, 0) + n
        for defs, use, exp, got, r in bad[:3]:
            src = text(defs) + use
            chk.violation(f"{fam}:{src!r}", f"{src!r} gives {got}, the standard {exp} {r}", src)
    # definitions that are accepted or refused
    rd = list(redefinitions())
    for k, (s, ok) in enumerate(rd):
        open(f"{d}/r{k}.c", "w").write(s)
    for (s, ok), r in zip(rd, tc.mrun([[*PP, f"{d}/r{k}.c"] for k in range(len(rd))])):
        tot += 1
        if (r.rc == 0) != ok or r.rc < 0:
            chk.violation(f"accept:{s!r}", f"{s!r}: exit {r.rc}, expected {'acceptance' if ok else 'refusal'}: {r.out[-300:]!r}", s)
    # -D, -U and definitions on the command line
    cl = [(["-DA"], "A", "1"), (["-DA=2"], "A", "2"), (["-DA="], "[A]", "[]"), (["-DA(x)=x x"], "A(1)", "11"), (["-DA=1", "-UA"], "A", "A"), (["-DA=B", "-DB=A"], "A", "A"), (["-D", "A=3"], "A", "3"), (["-DA=x##y"], "A", "xy"), (["-DA(...)=#__VA_ARGS__"], "A(1,2)", '"1,2"')]
    open(d + "/cl.c", "w").write("")
    for o, u, e in cl:
        open(d + "/cl.c", "w").write(u + "\n")
        r = tc.run([tc.bin + "/smlrpp", *PP[1:], *o, d + "/cl.c"])
        tot += 1
        if r.rc or re.sub(r"\s", "", r.out.decode()) != e:
            chk.violation(f"option:{o}:{u}", f"options {o}: {u} gives {r!r}, expected {e}", " ".join(o))
    chk.log(f"cases {per}, not judged: undefined {und}, unspecified (gcc and the model differ) {unspec}")
    chk.samples += ["F(x) with every body of up to 3 tokens", rd[5][0]]
    chk.finish(states=tot, transitions=tot, evaluations=tot, traces_validated_against_impl=tot, per_family=per, undefined_skipped=und, unspecified_skipped=unspec, definition_forms=len(rd), exhaustive=True,
               rule="all macro bodies of up to 3 (thorough 4) tokens x other definitions x uses; recursion of three macros; stringizing and pasting of all token pairs; all pairs of redefinitions; the model's expansion is the expectation where gcc agrees with it")


if __name__ == "__main__":
    vlib.main("C16", "exploration", body)
