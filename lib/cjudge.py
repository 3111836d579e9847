"""Which token sequences C accepts: a parser and type checker for a small world of names, giving 'ok', 'bad', or 'may' (only a rule the documentation
says is not enforced, or a feature it says is missing, decides)."""

INT, FLT, VOID, CHR = ("int",), ("flt",), ("void",), ("chr",)
S, U = ("struct", "S"), ("struct", "U")
P = lambda t: ("ptr", t)
ENV = {"x": INT, "c": CHR, "p": P(INT), "q": P(CHR), "w": P(VOID), "s": S, "u": U, "t": P(S), "a": ("arr", INT), "d": FLT,
       "f": ("fn", INT, (INT,)), "g": ("fn", VOID, ()), "h": ("fn", S, ()), "k": P(("fn", INT, (INT,))), "z": ("fn", INT, None), "pp": P(P(INT))}
DECLS = "struct S{int m;int*n;};struct U{int m;};int x;char c;int*p;char*q;void*w;struct S s;struct U u;struct S*t;int a[2];float d;int f(int);void g(void);struct S h(void);int(*k)(int);int z();int**pp;"
MEM = {S: {"m": INT, "n": P(INT)}, U: {"m": INT}}


class Bad(Exception):
    pass


class E:
    """type, lvalue, constant 0 (null pointer constant)"""
    __slots__ = ("t", "lv", "null", "const")

    def __init__(self, t, lv=False, null=False, const=None):
        self.t, self.lv, self.null, self.const = t, lv, null, const


arith = lambda t: t in (INT, FLT, CHR)
integer = lambda t: t in (INT, CHR)
isptr = lambda t: t[0] == "ptr"
scalar = lambda t: arith(t) or isptr(t)
prom = lambda t: INT if t == CHR else t
usual = lambda a, b: FLT if FLT in (a, b) else INT
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
BIN = [{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}]
KEYWORDS = {"sizeof"}
TYPES = {"(int)": INT, "(float)": FLT, "(char)": CHR, "(void)": VOID, "(int*)": P(INT), "(void*)": P(VOID), "(struct_S)": S, "(struct_S*)": P(S)}


class Parser:
    def __init__(self, toks, env=ENV):
        toks = list(toks)
        self.t, self.i, self.env, self.may, self.rvstruct = toks, 0, env, False, False

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def eat(self, x):
        if self.peek() != x:
            raise Bad(x)
        self.i += 1

    def decay(self, e):
        if e.t[0] == "arr":
            return E(P(e.t[1]))
        if e.t[0] == "fn":
            return E(P(e.t))
        return e

    def expr(self):
        e = self.assign()
        while self.peek() == ",":
            self.i += 1
            e = self.assign()
            if e.t[0] == "fn":
                self.may = True             # stays a function: see tests/bugs/ncompile/005
            e = self.decay(e)
            e = E(e.t)
        return e

    def assign(self):
        l = self.cond()
        op = self.peek()
        if op in ASSIGN:
            # the left side has to be a unary expression; the parser is told by .lv
            self.i += 1
            r = self.decay(self.assign())
            if l.t[0] == "struct" and not l.lv:
                self.may = True         # structures are always lvalues (tests/bugs/compile/003 to 006)
            elif not l.lv or l.t[0] in ("arr", "fn"):
                raise Bad("lvalue")
            if op == "=":
                self.assignable(l.t, r)
            else:
                o = op[:-1]
                if o in "+-" and isptr(l.t) and integer(r.t):
                    self.complete(l.t[1])
                elif arith(l.t) and arith(r.t) and (o in "+-*/" or integer(l.t) and integer(r.t)):
                    if FLT in (l.t, r.t):
                        self.may = True      # documented as not supported with float
                elif o in "+-" and isptr(l.t) and scalar(r.t) or isptr(r.t) and scalar(l.t) and o in "+-":
                    raise Bad("compound")
                else:
                    raise Bad("compound")
            return E(l.t)
        return l

    def assignable(self, t, r):
        if t[0] == "struct" or r.t[0] == "struct":
            if t != r.t:
                raise Bad("struct assign")
            return
        if r.t == VOID:
            raise Bad("void value")
        if arith(t) and arith(r.t) or t == r.t or isptr(t) and r.null:
            return
        if isptr(t) and isptr(r.t) and VOID in (t[1], r.t[1]) and "fn" not in (t[1][0], r.t[1][0]):
            return
        self.may = True      # minimal checks in assignments and argument passing

    def complete(self, t):
        if t == VOID or t[0] == "fn":
            self.may = True     # arithmetic on void* and function pointers

    def cond(self):
        c = self.binary(0)
        if self.peek() != "?":
            return c
        self.i += 1
        c = self.decay(c)
        if not scalar(c.t):
            raise Bad("?")
        a = self.decay(self.expr())
        self.eat(":")
        b = self.decay(self.cond())
        if arith(a.t) and arith(b.t):
            return E(usual(prom(a.t), prom(b.t)))
        if a.t == b.t:
            return E(a.t)
        if isptr(a.t) and b.null:
            return E(a.t)
        if isptr(b.t) and a.null:
            return E(b.t)
        if isptr(a.t) and isptr(b.t):
            if VOID in (a.t[1], b.t[1]) and "fn" not in (a.t[1][0], b.t[1][0]):
                return E(P(VOID))
            if VOID in (a.t[1], b.t[1]):
                self.may = True
                return E(P(VOID))
        raise Bad("?:")

    def binary(self, lev):
        if lev == len(BIN):
            return self.unary()
        l = self.binary(lev + 1)
        while self.peek() in BIN[lev]:
            op = self.peek()
            self.i += 1
            r = self.decay(self.binary(lev + 1))
            l = self.bin(op, self.decay(l), r)
        return l

    def bin(self, op, l, r):
        a, b = l.t, r.t
        cv = None
        if op in ("||", "&&"):
            if scalar(a) and scalar(b):
                return E(INT)
        elif op in ("*", "/"):
            if arith(a) and arith(b):
                if op == "/" and r.null:
                    self.may = True
                return E(usual(a, b), null=op == "*" and l.const is not None and r.const is not None and not l.const * r.const, const=None)
        elif op in ("%", "&", "|", "^", "<<", ">>"):
            if integer(a) and integer(b):
                if op == "%" and r.null:
                    self.may = True
                return E(INT)
        elif op == "+":
            if arith(a) and arith(b):
                return E(usual(a, b))
            for x, y in ((a, b), (b, a)):
                if isptr(x) and integer(y):
                    self.complete(x[1])
                    return E(x)
        elif op == "-":
            if arith(a) and arith(b):
                return E(usual(a, b), null=l.const is not None and l.const == r.const)
            if isptr(a) and integer(b):
                self.complete(a[1])
                return E(a)
            if isptr(a) and isptr(b):
                if a != b:
                    self.may = True
                self.complete(a[1])
                return E(INT)
        else:
            if arith(a) and arith(b):
                return E(INT)
            if isptr(a) and isptr(b):
                if a != b and not (VOID in (a[1], b[1])):
                    self.may = True     # pointed-to types are hardly compared
                if op not in ("==", "!=") and ("fn" in (a[1][0], b[1][0])):
                    self.may = True
                if "fn" in (a[1][0], b[1][0]) and a != b:
                    self.may = True
                return E(INT)
            for x, y, z in ((a, b, r), (b, a, l)):
                if isptr(x) and z.null:
                    if op not in ("==", "!="):
                        self.may = True
                    return E(INT)
        raise Bad("operands of " + op)

    def unary(self):
        op = self.peek()
        if op in ("+", "-", "!", "~", "*", "&"):
            self.i += 1
            e = self.castexpr()
            if op == "&":
                if e.t[0] == "struct" and not e.lv:
                    self.may = True
                    return E(P(e.t))
                if e.t[0] == "fn" or e.lv:
                    return E(P(e.t))
                raise Bad("&")
            if op == "*" and e.t[0] == "fn":
                self.may = True         # tests/bugs/ncompile/005
            e = self.decay(e)
            if op == "*":
                if not isptr(e.t):
                    raise Bad("*")
                if e.t[1] == VOID:
                    self.may = True
                return E(e.t[1], e.t[1][0] != "fn" and e.t[1] != VOID)
            if op == "!" and scalar(e.t):
                return E(INT, null=e.const is not None and e.const != 0)
            if op == "~" and integer(e.t) or op in "+-" and arith(e.t):
                return E(prom(e.t), null=op != "~" and e.null and e.t == INT, const=e.const if op in "+-" and e.const == 0 else None)
            raise Bad("unary " + op)
        if op in ("++", "--"):
            self.i += 1
            e = self.unary()
            self.incdec(e)
            return E(e.t)
        if op == "sizeof":
            self.i += 1
            n = self.peek()
            if n in TYPES:
                self.i += 1
                if TYPES[n] == VOID:
                    raise Bad("sizeof void")
                # sizeof(type) followed by a primary would be a parse error: handled by what follows
                return E(INT)
            e = self.unary()
            if e.t[0] == "fn" or e.t == VOID:
                raise Bad("sizeof")
            return E(INT)
        return self.castexpr(True)

    def castexpr(self, fromunary=False):
        n = self.peek()
        if n in TYPES:
            self.i += 1
            e = self.decay(self.castexpr())
            t = TYPES[n]
            if t == VOID:
                return E(VOID)
            if not scalar(t) or not scalar(e.t):
                raise Bad("cast")
            if FLT in (t, e.t) and (isptr(t) or isptr(e.t)):
                raise Bad("cast float pointer")
            return E(t, null=e.null and t in (INT, P(VOID)))
        if not fromunary:
            return self.unary()
        return self.postfix()

    def incdec(self, e):
        if not e.lv or not scalar(e.t):
            raise Bad("++")
        if e.t == FLT:
            self.may = True
        if isptr(e.t):
            self.complete(e.t[1])

    def postfix(self):
        e = self.primary()
        while True:
            op = self.peek()
            if op == "[":
                self.i += 1
                r = self.decay(self.expr())
                self.eat("]")
                l = self.decay(e)
                for x, y in ((l.t, r.t), (r.t, l.t)):
                    if isptr(x) and integer(y):
                        if x[1] == VOID or x[1][0] == "fn":
                            self.may = True
                        e = E(x[1], x[1] != VOID and x[1][0] != "fn")
                        break
                else:
                    raise Bad("[]")
            elif op == "(":
                self.i += 1
                l = self.decay(e)
                args = []
                if self.peek() != ")":
                    args.append(self.decay(self.assign()))
                    while self.peek() == ",":
                        self.i += 1
                        args.append(self.decay(self.assign()))
                self.eat(")")
                if not isptr(l.t) or l.t[1][0] != "fn":
                    raise Bad("call")
                ft = l.t[1]
                if ft[2] is not None:
                    if len(ft[2]) != len(args):
                        raise Bad("argument count")
                    for p, x in zip(ft[2], args):
                        self.assignable(p, x)
                else:
                    for x in args:
                        if x.t == VOID:
                            raise Bad("void argument")
                e = E(ft[1])
            elif op in (".", "->"):
                self.i += 1
                m = self.peek()
                self.i += 1
                if m is None or not m.isidentifier() or m == "sizeof":
                    raise Bad("member")
                l = e if op == "." else self.decay(e)
                st = l.t if op == "." else l.t[1] if isptr(l.t) else None
                if st is None or st[0] != "struct" or m not in MEM[st]:
                    raise Bad("member")
                if op == "." and not l.lv:
                    e = E(MEM[st][m], True)
                    self.rvstruct = True
                else:
                    e = E(MEM[st][m], True)
            elif op in ("++", "--"):
                self.i += 1
                self.incdec(e)
                e = E(e.t)
            else:
                return e

    def primary(self):
        n = self.peek()
        self.i += 1
        if n == "(":
            e = self.expr()
            self.eat(")")
            return e
        if n in self.env:
            t = self.env[n]
            return E(t, t[0] != "fn")
        if n in ("0", "1", "2"):
            return E(INT, null=n == "0", const=int(n))
        if n == "1.5":
            return E(FLT)
        if n == '"st"':
            while self.peek() == n:
                self.i += 1
            return E(("arr", CHR), True)
        if n is not None and n.isidentifier() and n not in KEYWORDS and self.t[self.i:self.i + 1] == ["("] :
            self.may = True             # a call of an undeclared function is only warned about
            self.env = {**self.env, n: ("fn", INT, None)}
            return E(("fn", INT, None))
        if n is not None and n.isidentifier() and n not in KEYWORDS:
            j = self.i                      # the name may stand in parentheses
            while self.t[j:j + 1] == [")"]:
                j += 1
            if j > self.i and self.t[j:j + 1] == ["("]:
                self.may = True
                self.env = {**self.env, n: ("fn", INT, None)}
                return E(("fn", INT, None))
        if n == "'c'":
            return E(INT, const=99)
        raise Bad("primary")


def expression(toks):
    p = Parser(toks)
    try:
        p.decay(p.expr())
        if p.i != len(toks):
            return "bad"
    except Bad:
        return "bad"
    return "may" if p.may or p.rvstruct else "ok"


# ---- statements -----------------------------------------------------------------------------------------------------------------------------
STOK = ["{", "}", "if(x)", "else", "while(x)", "do", "for(;;)", "for(x=0;x<2;x++)", "switch(x)", "case 1:", "case 2:", "default:", "break;", "continue;", "return;", "return x;", "goto L;", "goto M;", "L:", "M:", "int y;", "y;", "x=1;", ";", "x", "int z=1,w;"]


class Stmt:
    """Body of a function (void or int): the token sequence goes between { and }."""

    def __init__(self, toks, void):
        self.t, self.i, self.void, self.may = toks, 0, void, False
        self.labels, self.gotos = set(), set()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def block(self, end, loop, sw, scopes):
        sc = set()
        scopes = scopes + [sc]
        while True:
            k = self.peek()
            if k == end:
                return
            if k is None:
                raise Bad("}")
            if k in ("int y;", "int z=1,w;"):
                self.i += 1
                for n in ("y",) if k == "int y;" else ("z", "w"):
                    if n in sc:
                        raise Bad("redeclaration")
                    sc.add(n)
            else:
                self.stmt(loop, sw, scopes)

    def stmt(self, loop, sw, scopes):
        k = self.peek()
        self.i += 1
        if k in ("case 1:", "case 2:", "default:"):
            if sw is None:
                raise Bad("case")
            if k in sw:
                raise Bad("duplicate")
            sw.add(k)
            return self.labelled(loop, sw, scopes)
        if k in ("L:", "M:"):
            if k[0] in self.labels:
                raise Bad("label")
            self.labels.add(k[0])
            return self.labelled(loop, sw, scopes)
        if k == "{":
            self.block("}", loop, sw, scopes)
            self.i += 1
        elif k == "if(x)":
            self.stmt(loop, sw, scopes)
            if self.peek() == "else":
                self.i += 1
                self.stmt(loop, sw, scopes)
        elif k in ("while(x)", "for(;;)", "for(x=0;x<2;x++)"):
            self.stmt(True, sw, scopes)
        elif k == "do":
            self.stmt(True, sw, scopes)
            if self.peek() != "while(x)":
                raise Bad("do")
            self.i += 1
            if self.peek() not in (";",):
                raise Bad("do ;")
            self.i += 1
        elif k == "switch(x)":
            self.stmt(loop, set(), scopes)
        elif k == "break;":
            if not loop and sw is None:
                raise Bad(k)
        elif k == "continue;":
            if not loop:
                raise Bad(k)
        elif k == "return;":
            if not self.void:
                raise Bad(k)
        elif k == "return x;":
            if self.void:
                raise Bad(k)
        elif k in ("goto L;", "goto M;"):
            self.gotos.add(k[5])
        elif k == "y;":
            if not any("y" in s for s in scopes):
                raise Bad("undeclared")
        elif k in ("x=1;", ";"):
            pass
        elif k == "x":
            if self.peek() != ";":
                raise Bad("x")
            self.i += 1
        else:
            raise Bad(k)

    def labelled(self, loop, sw, scopes):
        if self.peek() in ("}", "int y;", "int z=1,w;", None):
            raise Bad('label')                    # a declaration or the end of the block: not a statement
            if self.peek() is None:
                return
            if self.peek() == "}":
                return
            raise Bad("declaration after label")
        self.stmt(loop, sw, scopes)


def statements(toks, void):
    p = Stmt(list(toks) + ["END"], void)
    try:
        p.block("END", False, None, [])
        if p.gotos - p.labels:
            return "bad"
    except Bad:
        return "bad"
    return "may" if p.may else "ok"


# ---- declarations ---------------------------------------------------------------------------------------------------------------------------
def specifiers(toks, flt=True, long=True):
    """'ok'/'bad'/'may' for the specifiers of a declaration of one object."""
    ty = sorted(t for t in toks if t in ("int", "char", "short", "long", "signed", "unsigned", "float", "double", "void"))
    rest = [t for t in toks if t not in ty]
    store = [t for t in rest if t in ("static", "extern", "typedef")]
    qual = [t for t in rest if t in ("const", "volatile")]
    named = [t for t in rest if t in ("T", "struct S", "enum E")]
    sets = {("void",), ("int",), ("char",), ("short",), ("long",), ("signed",), ("unsigned",), ("float",), ("double",), ("char", "signed"), ("char", "unsigned"), ("int", "short"), ("short", "signed"), ("int", "short", "signed"),
            ("short", "unsigned"), ("int", "short", "unsigned"), ("int", "signed"), ("int", "unsigned"), ("int", "long"), ("long", "signed"), ("int", "long", "signed"), ("long", "unsigned"), ("int", "long", "unsigned"), ("double", "long")}
    if len(store) > 1:
        return "bad"
    if len(named) + (1 if ty else 0) != 1:
        return "bad"
    if ty and tuple(ty) not in sets:
        return "may" if ty == ["long", "long"] or ty == ["int", "long", "long"] else "bad"
    if store and toks[0] != store[0]:
        return "may"                            # tests/bugs/ncompile/009
    if qual and len(qual) != len(set(qual)):
        return "may"
    return "ok"


ALPHA = ["*", "(", ")", "[", "]", "2", "v", "int", "void", ",", "="]


class Decl:
    """init-declarator list after a base type, up to the semicolon."""

    def __init__(self, toks, base):
        self.t, self.i, self.base, self.may = list(toks) + [";"], 0, base, False

    def peek(self):
        return self.t[self.i]

    def eat(self, k):
        if self.peek() != k:
            raise Bad(k)
        self.i += 1

    def type_start(self):
        return self.peek() in ("int", "void")

    def declarator(self, abstract):
        """-> (name, function from base type to type)"""
        n = 0
        while self.peek() == "*":
            self.i += 1
            n += 1
        name, inner = None, lambda t: t
        fn_now = False
        if self.peek() == "(":
            self.i += 1
            if abstract != "no" and (self.peek() == ")" or self.type_start()):
                self.i -= 1
            else:
                if self.peek() == ")" or self.type_start():
                    raise Bad("()")
                name, inner = self.declarator(abstract)
                self.eat(")")
        elif self.peek() in ("v", "w", "f"):
            name = self.peek()
            self.i += 1
        elif abstract == "no":
            raise Bad("no name")
        suf = []
        while self.peek() in ("[", "("):
            if self.peek() == "[":
                self.i += 1
                if self.peek() == "2":
                    self.i += 1
                    d = 2
                elif self.peek() == "]":
                    d = None
                else:
                    raise Bad("dimension")
                self.eat("]")
                suf.append(("arr", d))
            else:
                self.i += 1
                suf.append(("fn", self.params()))
                self.eat(")")

        def build(t, inner=inner, suf=suf, n=n):
            for _ in range(n):
                t = ("ptr", t)
            for s in reversed(suf):
                if s[0] == "arr":
                    if t[0] == "fn" or t == ("void",) or t[0] == "arr" and t[2] is None or t == ("inc",):
                        raise Bad("array element")
                    t = ("arr", t, s[1])
                else:
                    if t[0] in ("fn", "arr"):
                        raise Bad("function result")
                    t = ("fn", t, s[1])
            return inner(t)
        return name, build

    def params(self):
        if self.peek() == ")":
            return None
        res, names = [], []
        first = True
        while True:
            if not self.type_start():
                raise Bad("parameter")
            b = (self.peek(),)
            self.i += 1
            nm, bld = self.declarator("may")

            t = bld(b)
            if t == ("void",):
                if not (first and nm is None and self.peek() == ")"):
                    raise Bad("void parameter")
                # (void) alone
                return []
            first = False
            if nm:
                if nm in names:
                    raise Bad("parameter name twice")
                names.append(nm)
            res.append(t)
            if self.peek() == ",":
                self.i += 1
                continue
            return res

    def toplevel(self):
        res = []
        if self.peek() == ")":
            return res
        while True:
            self.i += 1
            nm, bld = self.declarator("may")
            t = bld(("int",))
            res.append(nm or ("" if self.t[self.i - 1] == "void" and not res else None))
            if self.peek() != ",":
                return res
            self.i += 1

    def run(self, place):
        seen = set()
        if self.t == [";"] and self.base[0] in ("struct", "inc") and place in ("file", "local"):
            return                          # a tag
        while True:
            nm, bld = self.declarator("no")
            t = bld(self.base)
            init = self.peek() == "="
            if t == ("void",) and place != "typedef":
                if place == "extern":
                    self.may = True
                else:
                    raise Bad("void object")
            if t == ("inc",) and place not in ("typedef", "extern"):
                raise Bad("incomplete")
            if t == ("inc",) and place == "extern":
                self.may = True
            if init:
                self.i += 1
                if t[0] in ("fn", "arr") or place in ("extern", "typedef", "member"):
                    raise Bad("init")
                p = Parser(self.t, {"v": conv(t)})
                p.i = self.i
                e = p.decay(p.assign())
                if place != "local" and "v" in self.t[self.i:p.i]:
                    self.may = True             # not a constant
                p.assignable(conv(t), e)
                self.may |= p.may
                self.i = p.i
            if t[0] == "arr" and t[2] is None and place not in ("extern", "typedef"):
                if place in ("file",):
                    self.may = True             # tentative
                raise Bad("size")
            if t[0] == "fn" and place == "member":
                raise Bad("function member")
            if t[0] == "fn" and place == "lstatic":
                raise Bad("static function")
            if nm in seen:
                if t[0] == "fn" or place == "extern":
                    self.may = True             # redeclaration
                elif place == "file":
                    self.may = True             # tentative definitions
                else:
                    raise Bad("redeclared")
            seen.add(nm)
            if self.peek() == ",":
                self.i += 1
                continue
            break
        if self.i != len(self.t) - 1:
            raise Bad("rest")


def conv(t):
    if t[0] == "ptr":
        return ("ptr", conv(t[1]))
    if t[0] == "fn":
        return ("fn", conv(t[1]), None if t[2] is None else tuple(conv(x) for x in t[2]))
    if t[0] == "arr":
        return ("arr", conv(t[1]))
    return t


def definition(toks):
    """int f ( toks ) { }"""
    p = Decl(["f", "(", *toks, ")"], ("int",))
    try:
        nm, bld = p.declarator("no")
        t = bld(("int",))
        if p.peek() == ",":
            return "may"                    # tests/bugs/compile/009
        if p.i != len(p.t) - 1 or t[0] != "fn" or nm != "f":
            raise Bad("definition")
        # the parameters of the function defined are those of the first list; names of nested lists do not matter
        q = Decl(["(", *toks, ")"], ("int",))
        q.i = 1
        top = q.toplevel()
        if None in top:
            raise Bad("name missing")
    except Bad:
        return "bad"
    return "may" if p.may else "ok"


INITS = {"int": INT, "char": CHR, "char*": P(CHR), "int*": P(INT), "int[2]": ("arr", INT, 2), "int[]": ("arr", INT, None), "char[2]": ("arr", CHR, 2), "char[]": ("arr", CHR, None), "int[2][2]": ("arr", ("arr", INT, 2), 2),
         "struct S": ("struct", [INT, INT]), "struct R": ("struct", [("arr", INT, 2), INT]), "struct N[2]": ("arr", ("struct", [CHR, ("struct", [INT, INT])]), 2), "union U": ("struct", [INT]), "char*[2]": ("arr", P(CHR), 2), "char[2][2]": ("arr", ("arr", CHR, 2), 2), "struct C": ("struct", [("arr", CHR, 2), CHR])}
INITDECL = {"int": "int v", "char": "char v", "char*": "char*v", "int*": "int*v", "int[2]": "int v[2]", "int[]": "int v[]", "char[2]": "char v[2]", "char[]": "char v[]", "int[2][2]": "int v[2][2]", "struct S": "struct S{int a,b;}v", "struct R": "struct R{int a[2],b;}v",
            "struct N[2]": "struct N{char c;struct{int a,b;}d;}v[2]", "union U": "union U{int a;char b;}v", "char*[2]": "char*v[2]", "char[2][2]": "char v[2][2]", "struct C": "struct C{char a[2];char b;}v"}


class Init:
    def __init__(self, toks):
        self.t, self.i, self.may = [*toks, "END"], 0, False

    def scalar(self, t):
        k = self.t[self.i]
        if k == "{":
            self.i += 1
            if self.t[self.i] == "{":
                self.may = True                 # more than one pair of braces: undefined, diagnosed by some
            self.scalar(t)
            if self.t[self.i] == ",":
                self.i += 1
            if self.t[self.i] != "}":
                raise Bad("}")
            self.i += 1
        elif k in ("1", '"s"', "(&x)"):
            self.i += 1
            e = INT if k == "1" else P(CHR) if k == '"s"' else P(INT)
            while k == '"s"' and self.t[self.i] == k:
                self.i += 1
            if e != t and not (arith(e) and arith(t)):
                self.may = True
        else:
            raise Bad("scalar")

    def string(self, t):
        """a string literal for a character array"""
        n = 1
        while self.t[self.i] == '"s"':
            self.i += 1
            n += 1
        if t[2] is not None and n - 1 > t[2]:
            raise Bad("string too long")
        if t[2] is not None and n > t[2]:
            self.may = True                     # no room for the zero: allowed in C

    def obj(self, t, top):
        if t[0] not in ("arr", "struct"):
            return self.scalar(t)
        k = self.t[self.i]
        if t[0] == "arr" and t[1] == CHR and k == '"s"':
            return self.string(t)
        if k == "{":
            self.i += 1
            if t[0] == "arr" and t[1] == CHR and self.t[self.i] == '"s"':
                self.string(t)
                if self.t[self.i] == ",":
                    self.i += 1
                if self.t[self.i] != "}":
                    raise Bad("}")
                self.i += 1
                return
            self.fill(t, True)
            if self.t[self.i] != "}":
                raise Bad("excess")
            self.i += 1
            return
        if top:
            raise Bad("brace")
        self.fill(t, False)

    def fill(self, t, braced):
        subs = t[1] if t[0] == "struct" else [t[1]] * t[2] if t[2] is not None else None
        n = 0
        if braced and self.t[self.i] == "}":
            raise Bad("empty")
        while subs is None or n < len(subs):
            self.obj(subs[n] if subs is not None else t[1], False)
            n += 1
            if subs is not None and n == len(subs) and not braced:
                return                          # the comma belongs to the enclosing list
            if self.t[self.i] == ",":
                if not braced and self.t[self.i + 1] == "}":
                    return                      # a trailing comma of the enclosing list
                self.i += 1
                if braced and self.t[self.i] == "}":
                    return
            else:
                return


def initializer(name, toks):
    p = Init(toks)
    try:
        p.obj(INITS[name], True)
        if p.i != len(p.t) - 1:
            raise Bad("rest")
    except Bad:
        return "bad"
    return "may" if p.may else "ok"


def enumbody(toks):
    """enum { toks }"""
    t, i, names = [*toks, "}"], 0, set()
    while t[i] != "}" or i == 0:
        if t[i] not in ("A", "B"):
            return "bad"
        n = t[i]
        i += 1
        if t[i] == "=":
            p = Parser(t, {x: INT for x in names})
            p.i = i + 1
            try:
                p.cond()
            except Bad:
                return "bad"
            i = p.i
        if n in names:
            return "bad"
        names.add(n)
        if t[i] == ",":
            i += 1
        elif t[i] != "}":
            return "bad"
    return "ok" if i == len(toks) else "bad"


def declaration(toks, base, place):
    p = Decl(toks, base)
    try:
        p.run(place)
    except Bad:
        return "bad"
    return "may" if p.may else "ok"


def specplace(toks, place):
    v = specifiers(toks)
    if v == "bad":
        return v
    st = [t for t in toks if t in ("static", "extern", "typedef")]
    inner = "void f(%s" in place or "struct Q{" in place or "sizeof" in place
    if inner and st:
        return "bad"
    if "void" in toks and "sizeof" in place:
        return "bad"
    if "void" in toks and "typedef" not in st:
        return "may" if "extern" in st else "bad"
    if "void" in toks and "%s v)" in place:
        return "bad"
    return v


FINE = ["for", "(", ")", ";", "x", "while", "do", "if", "else", "{", "}", "return", "case", ":", "goto", "L"]


class Fine(Parser):
    def __init__(self, toks):
        Parser.__init__(self, [*toks, "END"], {"x": INT})
        self.labels, self.gotos = set(), set()

    def cnd(self):
        self.eat("(")
        self.expr()
        self.eat(")")

    def stmt(self):
        k = self.peek()
        self.i += 1
        if k == "{":
            while self.peek() != "}":
                if self.peek() == "END":
                    raise Bad("}")
                self.stmt()
            self.i += 1
        elif k == ";":
            pass
        elif k == "for":
            self.eat("(")
            for e in ";;)":
                if self.peek() != e:
                    self.expr()
                self.eat(e)
            self.stmt()
        elif k == "while":
            self.cnd()
            self.stmt()
        elif k == "do":
            self.stmt()
            self.eat("while")
            self.cnd()
            self.eat(";")
        elif k == "if":
            self.cnd()
            self.stmt()
            if self.peek() == "else":
                self.i += 1
                self.stmt()
        elif k == "return":
            self.eat(";")
        elif k == "goto":
            if self.peek() not in ("L", "x"):
                raise Bad("label")
            self.gotos.add(self.peek())
            self.i += 1
            self.eat(";")
        elif k in ("L", "x") and self.peek() == ":":
            self.i += 1
            if k in self.labels:
                raise Bad("twice")
            self.labels.add(k)
            self.stmt()
        elif k in ("x", "(", "L"):
            self.i -= 1
            self.expr()
            self.eat(";")
        else:
            raise Bad(k)


def fine(toks):
    p = Fine(toks)
    try:
        while p.peek() != "END":
            p.stmt()
        if p.gotos - p.labels:
            return "bad"
    except Bad:
        return "bad"
    return "may" if p.may else "ok"
