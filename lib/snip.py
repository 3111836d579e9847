"""Snippets: small C functions that report a list of ints through o(); batched, run on a back end, compared with expected lists."""
import itertools, os, re, shutil, concurrent.futures, numpy as np
import vlib, exprrun as R


class Snip:
    """decls: file-scope text; body: statements of a void function that calls o(int); exp: list of ints (wrapped to the
    target's int), or a predicate(list) -> bool."""
    __slots__ = ("key", "decls", "body", "exp")

    def __init__(self, body, exp, decls="", key=None):
        self.body, self.exp, self.decls = body, exp, decls
        self.key = key or re.sub(r"\s+", " ", decls + body)[:300]


COMMON = """
int ob[OBN];int on;
void o(int x){if(on<OBN-2)ob[2+on++]=x;}
"""
UNIX_IO = "int write(int,void*,unsigned);\n"
DOS_IO = "int creat(char*,int);int write(int,void*,unsigned);int close(int);\n"


class Batch:
    def __init__(self, m, snips, pre="", obn=2000):
        self.m, self.snips, self.pre, self.obn = m, snips, pre, obn

    def source(self, main):
        dos = "creat(" in main
        s = (DOS_IO if dos else UNIX_IO) + COMMON.replace("OBN", str(self.obn)) + self.pre + "\n"
        for i, x in enumerate(self.snips):
            s += x.decls.replace("@@", str(i)) + "\nvoid s%d(void){%s\n}\n" % (i, x.body.replace("@@", str(i)))
        n = len(self.snips)
        s += "void (*st[])(void)={" + ",".join("s%d" % i for i in range(n)) + "};\n"
        if dos:
            O, K = re.search(r'"(O\d*\.DAT)"', main)[1], re.search(r'"(K\d*\.DAT)"', main)[1]
            s += f'int main(void){{int i,f=creat("{O}",0);for(i=0;i<{n};i++){{on=0;st[i]();ob[0]=i;ob[1]=on;if(write(f,ob,(on+2)*sizeof(int))!=(on+2)*(int)sizeof(int))return 2;}}close(f);f=creat("{K}",0);close(f);return 0;}}\n'
        else:
            s += f'int main(void){{int i;for(i=0;i<{n};i++){{on=0;st[i]();ob[0]=i;ob[1]=on;if(write(1,ob,(on+2)*sizeof(int))!=(on+2)*(int)sizeof(int))return 2;}}return 0;}}\n'
        return s, b""

    def parse(self, raw):
        a = np.frombuffer(raw[:len(raw) // (self.m.ibits // 8) * (self.m.ibits // 8)], "<i4" if self.m.ibits == 32 else "<i2")
        out, p = [], 0
        while p + 2 <= len(a):
            i, n = int(a[p]), int(a[p + 1])
            if i != len(out) or n < 0 or p + 2 + n > len(a):
                break
            out.append([int(v) for v in a[p + 2:p + 2 + n]])
            p += 2 + n
        return out

    def ok(self, k, got):
        e = self.snips[k].exp
        if callable(e):
            return e(got)
        h = 1 << (self.m.ibits - 1)
        return got == [(int(v) + h) % (2 * h) - h for v in e]


def check(chk, be, m, gen, size, stats, label, pre="", obn=2000):
    def outcome(bs):
        res = []
        for b, (st, raw, r) in zip(bs, be.raw(bs)):
            got = b.parse(raw)
            bad = [k for k in range(len(got)) if not b.ok(k, got[k])]
            res.append((b, st, got, bad, r))
        return res
    def report(b, k):
        nb = Batch(m, [b.snips[k]], pre, obn)
        _, st, got, bad, r = outcome([nb])[0]
        s = b.snips[k]
        e = "predicate" if callable(s.exp) else s.exp
        if st == "ok" and not bad and len(got) == 1:
            _, st, got, bad, r = outcome([b])[0]
            if st == "ok" and len(got) == len(b.snips) and k not in bad:
                return
            chk.violation("company:" + s.key, f"{be.name}/{label}: after other functions '{s.decls} {s.body}': expected {str(e)[:400]}, got {got[k] if k < len(got) else r!r}", be.source(b)[0])
            return
        chk.violation(s.key, f"{be.name}/{label}: '{s.decls} {s.body}'"[:1500] + f": expected {str(e)[:400]}, got {str(got[0])[:400] if got else (st, r)!r}", be.source(nb)[0])
    def isolate(b, r):
        if len(chk.violations) > 30:
            return
        if len(b.snips) == 1:
            report(b, 0)
            return
        if chk.elapsed() > 600:
            chk.violation(f"batch:{label}:{b.snips[0].key}", f"{be.name}: a program of {len(b.snips)} functions fails: {r!r}", be.source(b)[0])
            return
        h = len(b.snips) // 2
        found = False
        for part in (b.snips[:h], b.snips[h:]):
            nb = Batch(m, part, pre, obn)
            if handle(*outcome([nb])[0], top=False):
                found = True
        if not found:
            _, st, got, bad, r = outcome([b])[0]
            if st != "ok" or bad or len(got) != len(b.snips):
                chk.violation(f"batch:{label}:{b.snips[0].key}", f"{be.name}: a program of {len(b.snips)} functions that work one by one fails together: {st} {r!r}", be.source(b)[0])
    def handle(b, st, got, bad, r, top=True):
        if top:
            stats.batches += 1
            stats.funcs += len(b.snips)
            stats.evals += sum(len(g) for g in got)
            lab = be.name + "/" + label
            first = lab not in stats.families
            stats.families[lab] = stats.families.get(lab, 0) + len(b.snips)
            if first and len(stats.samples) < 40 and got:
                s = b.snips[min(len(b.snips) // 2, len(got) - 1)]
                stats.samples.append(f"{lab}: {s.decls} {s.body} -> {got[min(len(b.snips) // 2, len(got) - 1)]}"[:600])
        if len(chk.violations) > 30:
            return True
        for k in bad[:50]:
            report(b, k)
        if st != "ok" or len(got) != len(b.snips):
            if len(b.snips) == 1:
                report(b, 0)
            else:
                isolate(b, r)
            return True
        return bool(bad)
    def batches():
        it = iter(gen)
        while True:
            b = list(itertools.islice(it, size))
            if not b:
                return
            yield Batch(m, b, pre, obn)
    def groups():
        it = batches()
        while True:
            g = list(itertools.islice(it, be.group))
            if not g:
                return
            yield g
    with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
        pend = set()
        for g in groups():
            if len(chk.violations) > 30:
                break
            pend.add(ex.submit(outcome, g))
            if len(pend) >= vlib.NCPU * 3:
                done, pend = concurrent.futures.wait(pend, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    for x in f.result():
                        handle(*x)
        for f in concurrent.futures.as_completed(pend):
            for x in f.result():
                handle(*x)
    chk.log(f"{be.name}/{label}: {stats.families.get(be.name + '/' + label, 0)} snippets")


def reject(chk, tc, items, args=("smlrc", "-seg32", "-nopp"), label="accept", cwdname="rej"):
    """items: (source, should_be_accepted, key). Runs the compiler proper on each."""
    d = vlib.scratch(cwdname)
    items = list(items)
    jobs = []
    for n, (s, want, key) in enumerate(items):
        p = f"{d}/t{n}.c"
        with open(p, "w", encoding="latin-1") as f:
            f.write(s + "\n")
        jobs.append(([*args, p, f"{d}/t{n}.asm"], d, ""))
    for (s, want, key), r in zip(items, tc.mrun(jobs)):
        if r.rc < 0 or r.rc >= 126 and r.rc != 255 or (r.rc == 0) != want or (r.rc and b"rror" not in r.out):
            chk.violation(f"{label}:{key}", ("rejected: " if want else "accepted: ") + s[:800] + f" {r!r}", s)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return len(items)
