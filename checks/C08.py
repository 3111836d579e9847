"""C08: layout of structures, unions, arrays; #pragma pack."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, exprrun as R
from snip import Snip, check, reject


class T:
    """A type: declare(name) text, size, align, leaves [(suffix, offset, size, kind)]."""
    def __init__(self, name, dec, size, align, leaves):
        self.name, self.dec, self.size, self.align, self.leaves = name, dec, size, align, leaves


def basics(word):
    pre = """
struct n1{char a;short b;};struct n2{int a;char b;};struct n3{char a;};union u1{char a;int b;};union u2{char a[3];short b;};struct n4{struct n3 a;struct n1 b;};
struct n5{union u2 a;char b;};
"""
    B = lambda n, d, s, k="i": T(n, d, s, min(s, word), [("", 0, s, k)])
    c, s, i, p = B("c", "char %s", 1), B("s", "short %s", min(2, word)), B("i", "int %s", word), B("p", "char*%s", word, "p")
    n1 = agg("n1", "struct n1 %s", [("a", c), ("b", s)], word)
    n2 = agg("n2", "struct n2 %s", [("a", i), ("b", c)], word)
    n3 = agg("n3", "struct n3 %s", [("a", c)], word)
    u1 = agg("u1", "union u1 %s", [("a", c), ("b", i)], word, True)
    ca = arr(c, 3)
    u2 = agg("u2", "union u2 %s", [("a", ca), ("b", s)], word, True)
    n4 = agg("n4", "struct n4 %s", [("a", n3), ("b", n1)], word)
    n5 = agg("n5", "struct n5 %s", [("a", u2), ("b", c)], word)
    l = [c, s, i, p, ca, arr(s, 2), arr(i, 2), n1, n2, n3, u1, u2, n4, n5, arr(n1, 2), arr(arr(c, 2), 3)]
    if word == 4:
        l += [B("f", "float %s", 4, "f"), B("l", "unsigned long %s", 4), B("fp", "int(*%s)(void)", 4, "fp")]
    return pre, l


def arr(t, n):
    lv = [("[%d]" % k + sfx, k * t.size + off, sz, kd) for k in range(n) for sfx, off, sz, kd in t.leaves]
    return T(t.name + str(n), t.dec.replace("%s", "%%s[%d]" % n) if "[" not in t.dec else t.dec.replace("%s", "%%s[%d]" % n), t.size * n, t.align, lv)


def agg(name, dec, members, pack, union=False):
    off = size = 0
    al = 1
    lv = []
    for n, t in members:
        a = min(t.align, pack)
        al = max(al, a)
        if not union:
            off = (off + a - 1) // a * a
        lv += [("." + n + sfx, off + o, sz, k) for sfx, o, sz, k in t.leaves]
        if union:
            size = max(size, t.size)
        else:
            off += t.size
            size = off
    size = (size + al - 1) // al * al
    return T(name, dec, size, al, lv)


def offsets(members, pack, union):
    off, out = 0, []
    for n, t in members:
        a = min(t.align, pack)
        if not union:
            off = (off + a - 1) // a * a
        out.append(off)
        if not union:
            off += t.size
    return out


def types(word, full):
    pre, l = basics(word)
    red = [t for t in l if t.name in ("c", "s", "i", "c3", "n1", "u2", "n3")]
    seqs = list(itertools.product(l, repeat=1)) + list(itertools.product(l, repeat=2))
    seqs += list(itertools.product(l if full else red, repeat=3))
    if full:
        seqs += list(itertools.product(red, repeat=4))
    for seq in seqs:
        ms = list(zip("abcd", seq))
        for union in (False, True):
            for pack in (0, 1, 2, 4) if word == 4 else (0, 1, 2):
                yield ms, union, pack


def snips(word, full):
    for ms, union, pack in types(word, full):
        P = pack or word
        t = agg("x", "%s", ms, P, union)
        kw = "union" if union else "struct"
        dec = f"{kw} T@@{{" + "".join(m.dec % n + ";" for n, m in ms) + "}"
        pk = (f"\n#pragma pack({pack})\n", "\n#pragma pack()\n") if pack else ("", "")
        body = f"{pk[0]}{dec};{pk[1]}static char g1;static {kw} T@@ g;static char g2;static {kw} T@@ h[3];{kw} T@@ l;{kw} T@@*p=h+1;unsigned i;"
        exp = []
        body += f"o(sizeof({kw} T@@));o(sizeof g);o(sizeof h);o((char*)(p+1)-(char*)p);o((char*)&h[2]-(char*)h);o(&h[2]-h);o((unsigned)&g%{t.align});o((unsigned)h%{t.align});"
        exp += [t.size, t.size, 3 * t.size, t.size, 2 * t.size, 2, 0, 0]
        for (n, m), off in zip(ms, offsets(ms, P, union)):
            body += f"o(sizeof g.{n});o((char*)&p->{n}-(char*)p);o((char*)&l.{n}-(char*)&l);o((unsigned)&(({kw} T@@*)0)->{n});"
            exp += [m.size, off, off, off]
        # image: every leaf written through the static object, the pointer and the local
        lv = t.leaves
        img = [[0x5A] * t.size for _ in range(4)]
        body += f"for(i=0;i<sizeof g;i++){{((char*)&g)[i]=0x5A;((char*)&l)[i]=0x5A;}}for(i=0;i<sizeof h;i++)((char*)h)[i]=0x5A;"
        for j, (sfx, off, sz, k) in enumerate(lv):
            if union and j >= 3:
                break
            if sz == 1:
                v, b = str(j + 1), [j + 1]
            else:
                val = 0x1234 + j * 0x101 if sz == 2 else 0x12345678 + j * 0x01010101
                b = list(val.to_bytes(sz, "little"))
                v = hex(val)
                if k == "p":
                    v = f"(char*){v}"
                elif k == "fp":
                    v = f"(int(*)(void)){v}"
                elif k == "f":
                    v, b = f"{j + 1}.0f", list(__import__("struct").pack("<f", j + 1.0))
            body += f"g{sfx}={v};l{sfx}={v};p->{sfx[1:]}={v};"
            for im in (0, 1, 2):
                img[im][off:off + sz] = b
        body += "for(i=0;i<sizeof g;i++)o(((char*)&g)[i]&255);for(i=0;i<sizeof l;i++)o(((char*)&l)[i]&255);for(i=0;i<sizeof h;i++)o(((char*)h)[i]&255);"
        exp += img[0] + img[1] + [0x5A] * t.size + img[2] + [0x5A] * t.size
        yield Snip(body, exp, key=f"w{word} pack({pack}) {kw} " + ",".join(m.name for _, m in ms))


def declarators(word):
    """Every declarator of up to 3 derivations; sizeof the type, of an object of it, a typedef of it, and strides."""
    base = [("char", 1), ("short", 2), ("int", word), ("struct n2", 2 * word), ("union u1", word), ("unsigned char", 1)]
    D = ["*", "[2]", "[5]", "f"]
    for bn, bs in base:
        for n in range(0, 4):
            for ds in itertools.product(D, repeat=n):
                # ds applied from the outside of the declarator in: ds[0] is what the object is
                bad = any((a == "f" and b in ("f", "[2]", "[5]")) or (a[0] == "[" and b == "f") for a, b in zip(ds, ds[1:])) or (ds and ds[0] == "f")
                if bad:
                    continue
                txt = "%s"
                for a, b in zip(ds, list(ds[1:]) + [None]):
                    if a == "*":
                        txt = txt % "*%s" if False else "*" + txt
                        if b and b != "*":
                            txt = "(" + txt + ")"
                    elif a == "f":
                        txt = txt + "(void)"
                    else:
                        txt = txt + a
                def size(ds):
                    if not ds:
                        return bs
                    if ds[0] == "*":
                        return word
                    if ds[0] == "f":
                        return 0
                    return int(ds[0][1:-1]) * size(ds[1:])
                s = size(ds)
                body = f"typedef {bn} {txt % 'td'};static {bn} {txt % 'a'};{bn} {txt % 'l'};static {bn} {txt % 'r[2]'};o(sizeof a);o(sizeof(td));o(sizeof l);o(sizeof({bn} {txt % ''}));o(sizeof r);o((char*)&r[1]-(char*)r);"
                exp = [s, s, s, s, 2 * s, s]
                e, d2 = "a", ds
                while d2 and d2[0] != "f":
                    e, d2 = f"(*{e})", d2[1:]
                    if d2 and d2[0] == "f":
                        break
                    body += f"o(sizeof {e});"
                    exp.append(size(d2))
                    if d2 or True:
                        body += f"o(sizeof {e[1:-1].replace('*', '', 1)}[0]);"
                        exp.append(size(d2))
                yield Snip(body, exp, key=f"w{word} sizeof {bn} {txt % 'a'}")


def packseq(word):
    """Sequences of pack directives with a probe structure after each, balanced afterwards."""
    D = ["push", "push,1", "push,2", "pop", "1", "2", ""]
    if word == 4:
        D += ["4", "push,4"]
    for n in (1, 2, 3, 4):
        for seq in itertools.product(D if n < 4 else ["push,1", "push", "pop", "2", ""], repeat=n):
            cur, st, ok = word, [], True
            body, exp = "\n#pragma pack()\n", []
            for k, d in enumerate(seq):
                if d == "pop":
                    if not st:
                        ok = False
                        break
                    cur = st.pop()
                elif d.startswith("push"):
                    st.append(cur)
                    if "," in d:
                        cur = int(d[5:])
                else:
                    cur = int(d) if d else word
                body += f"\n#pragma pack({d})\nstruct q@@_{k}{{char a;int b;char c;}};o(sizeof(struct q@@_{k}));"
                a = min(cur, word)
                exp.append((a + word + 1 + a - 1) // a * a)
            if not ok:
                continue
            body += "\n#pragma pack(pop)\n" * len(st) + "\n#pragma pack()\n"
            yield Snip(body, exp, key=f"w{word} pack sequence " + "|".join(seq))


def packbad(word):
    out = []
    for v in ("3", "5", "6", "7", "0", "8" if word == 4 else "4", "16", "x", "push,3", "push,0", "push push", "1,2", "pop pop"):
        out.append((f"#pragma pack({v})\nstruct s{{char a;int b;}};\nint x;", False, f"pack({v})"))
    out.append(("#pragma pack(pop)\nint x;", False, "underflow"))
    for n in (1, 2, 3):
        out.append(("#pragma pack(push)\n" * n + "#pragma pack(pop)\n" * (n + 1) + "int x;", False, f"underflow{n}"))
        out.append(("#pragma pack(push)\n" * n + "#pragma pack(pop)\n" * n + "int x;", True, f"balanced{n}"))
    out.append(("#pragma pack(push,1)\n" * 100 + "int x;", False, "overflow"))
    for v in ("", "1", "2", "push", "push,1", "push,2") + (("4",) if word == 4 else ()):
        out.append((f"#pragma pack({v})\nint x;", True, f"pack({v})"))
    return out


def incomplete():
    I = ["struct z", "union z"]
    out = []
    for k in I:
        out += [(f"{k} x;", False, k + " object"), (f"{k};{k} x[2];", False, k + " array"), (f"struct w{{{k} a;}};", False, k + " member"),
                (f"{k};int f(void){{return sizeof({k});}}", False, k + " sizeof"), (f"{k}*p;int f(void){{p++;return 0;}}", False, k + " ++"),
                (f"{k}*p;int f(void){{return p->a;}}", False, k + " ->"), (f"{k}*p;struct w{{{k}*a;}};int f(void){{return sizeof p;}}", True, k + " ptr"),
                (f"{k};{k}{{int a;}};{k} x;", True, k + " completed"), (f"{k}{{int a;}};{k}{{int a;}};", False, k + " twice"),
                (f"struct w{{int a;int a;}};", False, "dup member"), (f"{k}{{{k} a;}};", False, k + " self"), (f"{k}{{{k}*a;}};{k} x;", True, k + " selfptr")]
    out += [("int a[0];", False, "a[0]"), ("int a[-1];", False, "a[-1]"), ("void v;", False, "void"), ("void a[2];", False, "void[]"),
            ("int f(void){return sizeof(void);}", False, "sizeof void"), ("int a[][];", False, "[][]"), ("extern int a[];int f(void){return sizeof a;}", False, "sizeof []"),
            ("extern int a[][3];int f(void){return sizeof a[0];}", True, "[][3]"), ("int f(void)[2];", False, "f returning array"), ("int a[2](void);", False, "array of f"),
            ("int f(void)(void);", False, "f returning f")]
    return out


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f", "smlrcmips"), libs=("lcl", "lcds", "lcdh"))
    st = R.Stats()
    pre4, _ = basics(4)
    pre2, _ = basics(2)
    lin = R.LinuxBackend(tc)
    m32, m16 = C.Model(32), C.Model(16)
    check(chk, lin, m32, snips(4, True), 60, st, "layout", pre4, 600)
    check(chk, lin, m32, declarators(4), 60, st, "declarators", pre4)
    check(chk, lin, m32, packseq(4), 60, st, "packseq", pre4)
    mips = R.MipsBackend(tc)
    check(chk, mips, m32, declarators(4), 60, st, "declarators", pre4)
    check(chk, mips, m32, (s for s in snips(4, chk.thorough) if "pack(0)" in s.key), 60, st, "layout", pre4, 600)
    doss = R.DosBackend(tc, ("-doss",), "doss", False)
    check(chk, doss, m16, snips(2, chk.thorough), 30, st, "layout", pre2, 600)
    check(chk, doss, m16, declarators(2), 40, st, "declarators", pre2)
    check(chk, doss, m16, packseq(2), 40, st, "packseq", pre2)
    dosh = R.DosBackend(tc, ("-dosh",), "dosh", False)
    check(chk, dosh, m32, declarators(4), 40, st, "declarators", pre4)
    if chk.thorough:
        check(chk, dosh, m32, snips(4, False), 30, st, "layout", pre4, 600)
    n = reject(chk, tc, packbad(4) + incomplete(), ("smlrc", "-seg32", "-nopp"))
    n += reject(chk, tc, packbad(2) + incomplete(), ("smlrc", "-seg16", "-nopp"), cwdname="rej16")
    st.families["rejections"] = n
    chk.finish(evaluations=st.evals + n, distinct_nontrivial=st.funcs + n,
               rule="structures and unions of every sequence of 1-3 (reduced menu: 4) members from 16-19 member types under every pack value; every declarator of up to 3 derivations over 6 base types; every pack directive sequence up to length 4; sizes, offsets, strides, alignment and the image of member stores",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C08", "exploration", body)
