"""Model of C99 macro expansion (Prosser's algorithm), on preprocessing tokens that remember white space before them."""
import re

PUNCT = ["%:%:", "<<=", ">>=", "...", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##",
         "<:", ":>", "<%", "%>", "%:", "[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^", "|", "?", ":", ";", "=", ",", "#"]
TOK = re.compile(r"(?P<ws>(?:[ \t\v\f\n]|/\*.*?\*/|//[^\n]*)+)|(?P<s>L?\"(?:\\.|[^\"\\\n])*\"|L?'(?:\\.|[^'\\\n])*')|(?P<id>[A-Za-z_]\w*)|(?P<n>\.?[0-9](?:[eEpP][+-]|[\w.])*)|(?P<p>" + "|".join(map(re.escape, PUNCT)) + ")|(?P<o>.)", re.S)


class Undefined(Exception):
    pass


class T:
    __slots__ = ("s", "w", "h")

    def __init__(self, s, w=False, h=frozenset()):
        self.s, self.w, self.h = s, w, h

    def __repr__(self):
        return self.s


def lex(text):
    out, w = [], False
    for m in TOK.finditer(text):
        if m.lastgroup == "ws":
            w = True
        else:
            out.append(T(m.group(), w))
            w = False
    return out


def kind(s):
    m = TOK.fullmatch(s)
    return m.lastgroup if m else None


ID = re.compile(r"[A-Za-z_]\w*\Z")
PLACE = ""


class Macro:
    def __init__(self, body, params=None, var=False):
        self.body, self.params, self.var = lex(body) if isinstance(body, str) else body, params, var
        for i, t in enumerate(self.body):
            if t.s == "##" and i in (0, len(self.body) - 1):
                raise Undefined("## at the edge")
            if params is not None and t.s == "#" and (i + 1 == len(self.body) or self.body[i + 1].s not in params):
                raise Undefined("# without parameter")


class Model:
    def __init__(self, macros, wide=False):
        self.m = macros
        self.wide = wide      # whether an invocation finished by the rest of the source is still nested in the macro its name came from (unspecified)

    def expand(self, ts, depth=0):
        """ts: list of tokens -> list of tokens"""
        out = []
        ts = list(reversed(ts))
        steps = 0
        while ts:
            steps += 1
            if steps > 3000 or len(ts) > 5000:
                raise Undefined("too long")
            t = ts.pop()
            m = self.m.get(t.s)
            if m is None or t.s in t.h:
                out.append(t)
            elif m.params is None:
                r = self.subst(m, {}, t.h | {t.s}, t.w)
                ts.extend(reversed(r))
            elif ts and ts[-1].s == "(":
                ts.pop()
                args, cur, lev = [], [], 0
                while True:
                    if not ts:
                        raise Undefined("unterminated")
                    x = ts.pop()
                    if x.s == ")" and lev == 0:
                        break
                    if x.s == "," and lev == 0 and not (m.var and len(args) >= len(m.params) - 1):
                        args.append(cur)
                        cur = []
                        continue
                    lev += (x.s == "(") - (x.s == ")")
                    cur.append(x)
                args.append(cur)
                if not m.params and args == [[]]:
                    args = []
                if len(args) != len(m.params):
                    raise Undefined("arity")
                r = self.subst(m, dict(zip(m.params, args)), (t.h if self.wide else t.h & x.h) | {t.s}, t.w)
                ts.extend(reversed(r))
            else:
                out.append(t)
        return out

    def subst(self, m, ap, hs, w):
        out, b, i = [], m.body, 0
        pend = False       # the previous item is the left operand of ##
        full = {}
        while i < len(b):
            t = b[i]
            nxt = i + 1 < len(b) and b[i + 1].s == "##"
            if t.s == "##" and i:
                pend = True
                i += 1
                continue
            if t.s == "#" and m.params is not None:
                p = b[i + 1]
                item = [T(stringize(ap[p.s]), t.w)]
                i += 1
                if i + 1 < len(b) and b[i + 1].s == "##":
                    nxt = True
                if nxt or pend:
                    raise Undefined("order of # and ##")
            elif t.s in ap:
                if nxt or pend:
                    item = [T(x.s, x.w, x.h) for x in ap[t.s]] or [T(PLACE, t.w)]
                else:
                    if t.s not in full:
                        full[t.s] = self.expand(ap[t.s])
                    item = [T(x.s, x.w, x.h) for x in full[t.s]]
                if item:
                    item[0] = T(item[0].s, t.w, item[0].h)
            else:
                item = [T(t.s, t.w)]
            if pend:
                a = out.pop()
                c = item[0]
                s = a.s + c.s
                if s and kind(s) in (None, "ws", "o"):
                    raise Undefined("paste")
                out.append(T(s, a.w, a.h & c.h))
                out += item[1:]
                if nxt and i >= 2 and len(item) == 1:
                    # a ## b ## c: the order is unspecified, so the other order has to give the same
                    d = b[i + 2] if i + 2 < len(b) else None
                    if d is not None and d.s not in ap and kind(c.s + d.s) in (None, "ws", "o"):
                        raise Undefined("order of ##")
                pend = False
            else:
                out += item
            i += 1
        r = [T(x.s, x.w, x.h | hs) for x in out if x.s != PLACE]
        if r:
            r[0] = T(r[0].s, w, r[0].h)
        return r


def stringize(ts):
    s = ""
    for i, t in enumerate(ts):
        if i and t.w:
            s += " "
        if kind(t.s) == "s":
            s += t.s.replace("\\", "\\\\").replace('"', '\\"')
        else:
            s += t.s
    if re.search(r"(?<!\\)(\\\\)*\\$", s) or any(t.s == "\\" for t in ts):
        raise Undefined("stray backslash")
    return '"' + s + '"'
