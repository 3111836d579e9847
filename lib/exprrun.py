"""Compiles batches of expression functions for a back end, runs them, compares with the reference model."""
import os, shutil, numpy as np, itertools, threading
import vlib, cexpr as C


_lock = threading.Lock()


class Batch:
    def __init__(self, m, grid, funcs, decls=""):
        self.m, self.grid, self.funcs, self.decls = m, grid, funcs, decls

    def source(self, main):
        s = C.program(self.m, self.grid, self.funcs, main)
        skip = C.skipmap(self.funcs, len(self.grid[0]))
        return self.decls + s.replace("SKIP", "1" if skip is not None else "0"), (b"" if skip is None else skip.tobytes())


def batches(m, grid, funcs, size, decls=""):
    it = iter(funcs)
    while True:
        b = list(itertools.islice(it, size))
        if not b:
            return
        yield Batch(m, grid, b, decls)


def compare(m, b, raw):
    """Mismatching (t, k, expected, got) list."""
    T = len(b.grid[0])
    nf = len(b.funcs)
    dt = {32: "<i4", 16: "<i2"}[m.ibits]
    if len(raw) != T * nf * (m.ibits // 8):
        return None
    got = np.frombuffer(raw, dt).reshape(T, nf).astype(np.int64)
    E, OK = C.expected(m, b.funcs, T)
    bad = (got != E) & OK
    return [(int(t), int(k), int(E[t, k]), int(got[t, k])) for t, k in zip(*np.nonzero(bad))]


class LinuxBackend:
    name = "linux"
    group = 1
    single_limit = 600

    def __init__(self, tc, flags=("-linux",), name=None, nopp=True):
        self.tc, self.flags = tc, flags
        self.n = itertools.count()
        self.nopp = ["-nopp"] if nopp else []
        if name:
            self.name = name

    def source(self, b):
        return b.source(C.MAIN_UNIX)

    def raw(self, bs):
        return [self.raw1(b) for b in bs]

    def raw1(self, b):
        """Returns (status, bytes, result)."""
        d = vlib.scratch("e%06d" % next(self.n))
        src, skip = self.source(b)
        with open(d + "/t.c", "w", encoding="latin-1") as f:
            f.write(src)
        r = self.tc.cc([*self.nopp, *self.flags, "t.c", "-o", "t.exe"], cwd=d, timeout=60)
        if r.rc:
            res = ("compile", b"", r)
        else:
            r = self.tc.run([d + "/t.exe"], cwd=d, stdin=skip, timeout=60)
            res = ("ok" if r.rc == 0 else "run", r.out, r)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return res


MAIN_DOS = """
int creat(char*,int);int open(char*,int,...);int read(int,void*,unsigned);int write(int,void*,unsigned);int close(int);
int out[NF];char skip[NF];
int main(void){int t,k,fi=0,fo;
fo=creat("@O",0);if(fo<0)return 2;
if(SKIP){fi=open("@S",0);if(fi<0)return 2;}
for(t=0;t<NT;t++){
 if(SKIP){if(read(fi,skip,NF)!=NF)return 3;}
 set(GX[t],GY[t],GZ[t]);
 for(k=0;k<NF;k++){out[k]=(SKIP&&skip[k]=='1')?0:ft[k](GX[t],GY[t],GZ[t]);}
 if(write(fo,out,NF*sizeof(int))!=NF*(int)sizeof(int))return 4;
}
close(fo);
fo=creat("@K",0);close(fo);
return 0;}
"""


class DosBackend(LinuxBackend):
    """flags: -dost -doss -dosh -dosu; a group of programs runs in one DOSBox."""
    group = 16
    single_limit = 45

    def source(self, b):
        return b.source(MAIN_DOS.replace("@O", "O.DAT").replace("@S", "S.DAT").replace("@K", "K.DAT"))

    def raw(self, bs):
        d = vlib.scratch("d%06d" % next(self.n))
        res = [None] * len(bs)
        cmds = []
        ext = "COM" if "-dost" in self.flags else "EXE"
        for i, b in enumerate(bs):
            src, skip = b.source(MAIN_DOS.replace("@O", "O%d.DAT" % i).replace("@S", "S%d.DAT" % i).replace("@K", "K%d.DAT" % i))
            with open(f"{d}/t{i}.c", "w", encoding="latin-1") as f:
                f.write(src)
            if skip:
                with open(f"{d}/S{i}.DAT", "wb") as f:
                    f.write(skip)
            r = self.tc.cc([*self.nopp, *self.flags, f"t{i}.c", "-o", f"T{i}.{ext}"], cwd=d, timeout=60)
            if r.rc:
                res[i] = ("compile", b"", r)
            else:
                cmds.append(f"T{i}.{ext} > X{i}.TXT")
        if cmds:
            r = vlib.dosbox(self.tc, d, cmds, timeout=self.single_limit if len(bs) == 1 else 150)
            for i in range(len(bs)):
                if res[i] is None:
                    try:
                        raw = open(f"{d}/O{i}.DAT", "rb").read()
                    except OSError:
                        raw = b""
                    res[i] = ("ok" if os.path.exists(f"{d}/K{i}.DAT") else "run", raw, r)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        if len(bs) > 1:   # what did not finish in company is run alone
            for i, b in enumerate(bs):
                if res[i][0] == "run":
                    res[i] = self.raw([b])[0]
        return res


# soft-float helpers under the compiler's convention (float bits in integer registers), on the hard-float unit of qemu
MIPS_FLOAT = r"""
typedef unsigned U;
static inline float f(U x){union{U u;float f;}v;v.u=x;return v.f;}
static inline U b(float x){union{U u;float f;}v;v.f=x;return v.u;}
U __addsf3(U x,U y){return b(f(x)+f(y));}
U __subsf3(U x,U y){return b(f(x)-f(y));}
U __mulsf3(U x,U y){return b(f(x)*f(y));}
U __divsf3(U x,U y){return b(f(x)/f(y));}
U __negsf2(U x){return x^0x80000000u;}
int __lesf2(U x,U y){float p=f(x),q=f(y);return p<q?-1:p==q?0:1;}
int __gesf2(U x,U y){float p=f(x),q=f(y);return p>q?1:p==q?0:p<q?-1:-2;}
U __floatsisf(int x){return b((float)x);}
U __floatunsisf(U x){return b((float)x);}
int __fixsfsi(U x){return (int)f(x);}
U __fixunssfsi(U x){float p=f(x);return p>=2147483648.0f?(U)(int)(p-2147483648.0f)+0x80000000u:(U)(int)p;}
"""


class MipsBackend(LinuxBackend):
    name = "mips"
    float_o = None

    def helpers(self):
        with _lock:
            return self._helpers()

    def _helpers(self):
        if MipsBackend.float_o is None:
            d = vlib.scratch("mipsf")
            open(d + "/f.c", "w").write(MIPS_FLOAT)
            r = vlib.run(["mipsel-linux-gnu-gcc", "-O1", "-mno-abicalls", "-march=mips32r2", "-fno-builtin", "-c", "f.c", "-o", "f.o"], cwd=d)
            if r.rc:
                raise vlib.BuildError(repr(r))
            MipsBackend.float_o = d + "/f.o"
        return MipsBackend.float_o

    def raw1(self, b):
        d = vlib.scratch("m%06d" % next(self.n))
        src, skip = self.source(b)
        with open(d + "/t.c", "w", encoding="latin-1") as f:
            f.write(src)
        r = self.tc.run(["smlrcmips", "-signed-wchar", "-long-wchar", "-nopp", "t.c", "t.s"], cwd=d, timeout=60)
        if r.rc == 0:
            r = self.tc.run(["mipsel-linux-gnu-gcc", "-mno-abicalls", "-static", "-march=mips32r2", "t.s", *([self.helpers()] if "float" in src else []), "-o", "t.exe"], cwd=d, timeout=120)
        if r.rc:
            res = ("compile", b"", r)
        else:
            r = self.tc.run(["qemu-mipsel", d + "/t.exe"], cwd=d, stdin=skip, timeout=90)
            res = ("ok" if r.rc == 0 else "run", r.out, r)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return res


class Stats:
    def __init__(self):
        self.funcs = self.evals = self.defined = self.batches = 0
        self.families = {}
        self.samples = []


def check_batches(chk, be, gen, stats, label, keyprefix=""):
    """gen: iterable of Batch. Runs all of them in parallel; reports confirmed mismatches."""
    src_of = lambda b: be.source(b)[0]
    def one(b):
        st, raw, r = be.raw([b])[0]
        return b, st, (compare(b.m, b, raw) if st == "ok" else None), r
    def many(bs):
        return [(b, st, (compare(b.m, b, raw) if st == "ok" else None), r) for b, (st, raw, r) in zip(bs, be.raw(bs))]
    def handle(b, st, bad, r):
        stats.batches += 1
        stats.funcs += len(b.funcs)
        T = len(b.grid[0])
        stats.evals += T * len(b.funcs)
        lab = be.name + "/" + label
        stats.families[lab] = stats.families.get(lab, 0) + len(b.funcs)
        if len(stats.samples) < 40 and stats.families[lab] == len(b.funcs):
            f = b.funcs[len(b.funcs) // 2]
            stats.samples.append(f"{lab}: {f.body} x,y,z={[int(g[T // 2]) for g in b.grid]} -> {int(np.broadcast_to(f.v, (T,))[T // 2])}")
        if bad == []:
            return
        if len(chk.violations) > 30:
            return
        if bad is None:
            isolate(b, st, r)   # the whole batch failed: bisect
            return
        for k in sorted(set(x[1] for x in bad))[:50]:
            confirm(b, k)
    def isolate(b, st, r):
        if len(chk.violations) > 30:
            return
        if len(b.funcs) == 1:
            confirm(b, 0)
            return
        if (r.timeout and be.single_limit > 30 and len(b.funcs) < 50) or chk.elapsed() > 600:
            chk.violation(f"{keyprefix}batch:{label}:{b.funcs[0].key}", f"{be.name}: a program of {len(b.funcs)} functions does not come back: {st} {r!r}", src_of(b))
            return
        h = len(b.funcs) // 2
        found = False
        for part in (b.funcs[:h], b.funcs[h:]):
            nb = type(b)(b.m, b.grid, part, b.decls)
            _, st2, bad, r2 = one(nb)
            if bad == []:
                continue
            found = True
            if bad is None:
                isolate(nb, st2, r2)
            else:
                for k in sorted(set(x[1] for x in bad))[:50]:
                    confirm(nb, k)
        if not found:
            _, st, bad, r = one(b)
            if bad != []:
                chk.violation(f"{keyprefix}batch:{label}:{b.funcs[0].key}", f"{be.name}: a program of {len(b.funcs)} functions that work one by one fails together: {st} {r!r}", src_of(b))
    def confirm(b, k):
        f = b.funcs[k]
        nb = type(b)(b.m, b.grid, [f], b.decls)
        _, st, bad, r = one(nb)
        if st != "ok" or bad is None:
            chk.violation(keyprefix + f.key, f"{be.name}: '{f.body}' does not {'compile' if st == 'compile' else 'run'}: {r!r}", src_of(nb))
        elif bad:
            t, _, e, g = bad[0]
            chk.violation(keyprefix + f.key, f"{be.name}: '{f.body}' with x,y,z={[int(q[t]) for q in b.grid]}: expected {e}, got {g} ({len(bad)} operand tuples)", src_of(nb))
        else:
            _, st, bad, r = one(b)   # only wrong in company
            bad = [x for x in (bad or []) if x[1] == k]
            if bad:
                t, _, e, g = bad[0]
                chk.violation(keyprefix + "company:" + f.key, f"{be.name}: '{f.body}' after other functions with x,y,z={[int(q[t]) for q in b.grid]}: expected {e}, got {g}", src_of(b))
    import concurrent.futures
    def groups():
        it = iter(gen)
        while True:
            g = list(itertools.islice(it, be.group))
            if not g:
                return
            yield g
    with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
        pend = set()
        for g in groups():
            if len(chk.violations) > 30:
                break
            pend.add(ex.submit(many, g))
            if len(pend) >= vlib.NCPU * 3:
                done, pend = concurrent.futures.wait(pend, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    for x in f.result():
                        handle(*x)
        for f in concurrent.futures.as_completed(pend):
            for x in f.result():
                handle(*x)
    chk.log(f"{be.name}/{label}: {stats.families.get(be.name + '/' + label, 0)} functions")
