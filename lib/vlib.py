"""Shared machinery: building the tool chain from /repo's working tree, running, reporting, evidence."""
import atexit, concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
V = REPO + "/v0100"
NCPU = min(8, os.cpu_count() or 8)
T0 = time.monotonic()
THOROUGH = "thorough" in sys.argv or "quick" not in sys.argv and os.environ.get("VERIF_TIER") == "thorough"

_scratch = None
_owner = os.getpid()


def scratch(name=None):
    """A private directory, removed at exit; scratch('x') is a fresh subdirectory."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp_", dir=os.environ.get("VERIF_TMP", "/tmp"))
        atexit.register(_cleanup)
    if name is None:
        return _scratch
    p = os.path.join(_scratch, name)
    os.makedirs(p, exist_ok=True)
    return p


def _cleanup():
    if os.getpid() == _owner and _scratch and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_scratch, ignore_errors=True)


class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return f"rc={self.rc} timeout={self.timeout} out={self.out[:300]!r} err={self.err[:300]!r}"


def _limits(mem, fsize):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_DATA, (mem, mem))
    return f


def run(argv, cwd=None, env=None, stdin=b"", timeout=60, mem=3 << 30, fsize=512 << 20, merge=False, retry=True):
    """Runs argv in its own session with limits. A time-out is retried once with four times the limit."""
    e = dict(os.environ) if env is None else env
    if not THOROUGH:     # a check has 900 s for everything, and a hang is a result to report
        timeout = min(timeout, max(5, 800 - (time.monotonic() - T0)))
    p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         start_new_session=True, preexec_fn=_limits(mem, fsize))
    try:
        out, err = p.communicate(stdin, timeout)
        return Result(p.returncode, out, err or b"")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        if retry and (THOROUGH or time.monotonic() - T0 < 400):
            return run(argv, cwd, env, stdin, timeout * 3, mem, fsize, merge, False)
        return Result(-99, out or b"", err or b"", True)


def pmap(fn, items, workers=NCPU):
    """Ordered parallel map over threads (the work is in child processes)."""
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


_mrun = None


def mrun(jobs, env=None, npar=NCPU, timeout=20):
    """Runs many small commands. jobs: list of argv or (argv, cwd, stdin path). Returns a list of Result (output merged)."""
    global _mrun
    jobs = list(jobs)
    if not jobs:
        return []
    if _mrun is None:
        o = scratch("mrun") + "/mrun"
        r = run(["gcc", "-O1", "-w", VERIF + "/lib/mrun.c", "-o", o])
        if r.rc:
            raise BuildError("mrun: " + repr(r))
        _mrun = o
    import struct
    def enc(s):
        s = os.fsencode(s)
        return struct.pack("<I", len(s)) + s
    res = [None] * len(jobs)
    def part(idx):
        buf = []
        for i in idx:
            j = jobs[i]
            argv, cwd, inp = j if isinstance(j, tuple) else (j, "", "")
            buf.append(struct.pack("<I", len(argv)) + b"".join(map(enc, argv)) + enc(cwd or "") + enc(inp or "") + struct.pack("<I", int(timeout * 1000)))
        p = subprocess.run([_mrun, str(npar)], input=b"".join(buf), stdout=subprocess.PIPE, env=env)
        o, p0 = p.stdout, 0
        while p0 < len(o):
            k, rc, n = struct.unpack_from("<IiI", o, p0)
            res[idx[k]] = Result(rc, o[p0 + 12:p0 + 12 + n], b"", rc == -99)
            p0 += 12 + n
    part(range(len(jobs)))
    again = [i for i, r in enumerate(res) if r is None or r.timeout]
    if again:   # a time-out under load is tried again with fewer at a time
        if any(res[i] is None for i in again):
            raise BuildError("mrun lost results")
        timeout *= 4
        npar = 2
        part(again[:40])
    return res


def forkbin(sources, out, cflags=(), defs=("main=tool_main",)):
    """A tool whose main() is run in forked children (harness/forkrun.c)."""
    o = []
    for i, src in enumerate(sources):
        obj = f"{out}.{i}.o"
        r = run(["gcc", "-w", *cflags, *["-D" + d for d in defs], "-c", src, "-o", obj], timeout=200)
        if r.rc:
            raise BuildError(r.err.decode("latin-1")[-2000:])
        o.append(obj)
    r = run(["gcc", "-w", *cflags, VERIF + "/harness/forkrun.c", *o, "-o", out], timeout=200)
    if r.rc:
        raise BuildError(r.err.decode("latin-1")[-2000:])
    return out


def forkrun(binary, jobs, env=None, timeout=10):
    """jobs: [(directory, [arguments])] -> [Result]; a time-out is tried again alone with more time."""
    import struct
    inp = b"".join(b"\t".join(map(os.fsencode, [d, *a])) + b"\n" for d, a in jobs)
    p = subprocess.run([binary, str(timeout), scratch()], input=inp, stdout=subprocess.PIPE, env=env)
    res, o, q = [], p.stdout, 0
    while q < len(o):
        rc, n = struct.unpack_from("<II", o, q)
        res.append(Result(-99 if rc == 512 else 256 - rc if rc > 256 else rc, o[q + 8:q + 8 + n], b"", rc == 512))
        q += 8 + n
    if len(res) != len(jobs):
        raise BuildError(f"forkrun: {len(res)} of {len(jobs)} results, status {p.returncode}")
    if timeout <= 10:
        for i, r in enumerate(res):
            if r.timeout:
                res[i] = forkrun(binary, [jobs[i]], env, 40)[0]
    return res


def ccbuild(name="ccrun", asan=True, defs=()):
    """The compiler proper as a shared object and the program that runs it on many sources (harness/ccrun.c)."""
    d = scratch(name)
    fl = ["-fsanitize=address"] if asan else []
    r = run(["gcc", "-w", "-O1", "-g1", *fl, "-fPIC", "-shared", "-Wl,-Bsymbolic", "-D__NO_INLINE__", "-U_FORTIFY_SOURCE", *["-D%s=fk_%s" % (x, x) for x in "exit printf vprintf puts putchar fopen fclose".split()], "-Dmain=tool_main", '-DPATH_PREFIX="/nonexistent"', "-DHOST_LINUX",
             *["-D" + x for x in defs], V + "/smlrc.c", "-o", d + "/smlrc.so"], timeout=200)
    if not r.rc:
        r = run(["gcc", "-w", "-O1", "-rdynamic", "-c", VERIF + "/harness/ccrun.c", "-o", d + "/ccrun.o"])
    if not r.rc:
        r = run(["gcc", *fl, "-rdynamic", d + "/ccrun.o", "-o", d + "/ccrun", "-ldl"])
    if r.rc:
        raise BuildError(r.err.decode("latin-1")[-2000:])
    return d


def ccrun(d, jobs, args=("-seg32", "-nopp"), out=False, ms=3000, tag="j"):
    """jobs: source text, or ([arguments], {file: text}) -> list of (status, messages, output); status 256: memory error, 512: time-out."""
    import struct
    P = lambda s: struct.pack("<I", len(s)) + s
    E = lambda s: s if isinstance(s, bytes) else s.encode("latin-1")
    fixed = struct.pack("<I", len(args) + 2) + b"".join(P(E(a)) for a in (*args, "t.c", "out")) + struct.pack("<I", 1) + P(b"t.c")
    fn = "%s/%s.%d.in" % (d, tag, os.getpid())
    with open(fn, "wb") as f:
        for j in jobs:
            if isinstance(j, tuple):
                a, files = j
                f.write(struct.pack("<I", len(a)) + b"".join(P(E(x)) for x in a) + struct.pack("<I", len(files)) + b"".join(P(E(k)) + P(E(v)) for k, v in files.items()))
            else:
                f.write(fixed + P(E(j)))
    p = subprocess.run([d + "/ccrun", d + "/smlrc.so", fn, str(ms)] + (["out"] if out else []), stdout=subprocess.PIPE, cwd=d, env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1"})
    os.unlink(fn)
    res, o, q = [], p.stdout, 0
    while q < len(o):
        st, n = struct.unpack_from("<II", o, q)
        m = o[q + 8:q + 8 + n]
        q += 8 + n
        n, = struct.unpack_from("<I", o, q)
        res.append((st, m, o[q + 4:q + 4 + n]))
        q += 4 + n
    if len(res) != len(jobs):
        raise BuildError(f"ccrun: {len(res)} of {len(jobs)} results, status {p.returncode}")
    return res


def ppmap(fn, items, workers=NCPU, chunk=1):
    """Ordered parallel map over forked processes (the work is in Python)."""
    items = list(items)
    if not items:
        return []
    import multiprocessing as mp
    scratch()
    with concurrent.futures.ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(fn, items, chunksize=chunk))


class BuildError(Exception):
    pass


TOOLS = {
    "smlrc": ["smlrc.c"], "smlrl": ["smlrl.c"], "smlrcc": ["smlrcc.c"], "n2f": ["n2f.c"], "demz": ["demz.c"],
    "smlrpp": ["ucpp/%s.c" % x for x in "arith assert cpp eval lexer macro mem nhash".split()],
    "smlrcmips": ["smlrc.c"],
}


def tree_hash(*names):
    h = hashlib.sha256()
    for n in names:
        p = os.path.join(V, n)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
    return h.hexdigest()


class Toolchain:
    """The tools built from the working tree by gcc, and libraries built by those tools.

    tc = Toolchain(libs=("lcl",)); tc.cc([...]) runs the driver."""

    def __init__(self, tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=(), cflags=("-O1",), cc="gcc",
                 name="inst", stub=False):
        cache = os.environ.get("VERIF_CACHE")
        key = None
        if cache:
            h = tree_hash("smlrc.c", "smlrl.c", "smlrcc.c", "n2f.c", "demz.c", "fp.c", "cgx86.c", "cgmips.c", "ucpp", "srclib", "include")
            key = hashlib.sha256(repr((h, tools, libs, cflags, cc, stub)).encode()).hexdigest()[:24]
            self.root = os.path.join(cache, key)
            if os.path.exists(self.root + "/ok"):
                self._set()
                return
            os.makedirs(self.root, exist_ok=True)
        else:
            self.root = scratch(name)
        self._set()
        os.makedirs(self.bin, exist_ok=True)
        os.makedirs(self.lib, exist_ok=True)
        if not os.path.exists(self.inc):
            shutil.copytree(V + "/include", self.inc)
        rs = pmap(lambda t: self._tool(t, cc, cflags), tools)
        for t, r in zip(tools, rs):
            if r.rc:
                raise BuildError(f"{t}: {r.err.decode('latin-1')[-2000:]}")
        self.build_libs(libs)
        if stub:
            r = self.cc(["-small", V + "/srclib/dpstub.asm", "-o", self.lib + "/dpstub.exe"], cwd=self.root)
            if r.rc:
                raise BuildError("dpstub: " + repr(r))
        if key:
            open(self.root + "/ok", "w").close()

    def _set(self):
        self.bin = self.root + "/bin"
        self.inc = self.root + "/smlrc/include"
        self.lib = self.root + "/smlrc/lib"
        self.env = {"HOME": self.root + "/nohome", "LANG": "C.UTF-8", "SHELL": "/bin/sh",
                    "PATH": self.bin + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                    "SDL_VIDEODRIVER": "dummy", "SDL_AUDIODRIVER": "dummy", "QEMU_LD_PREFIX": "/usr/mipsel-linux-gnu"}

    def _tool(self, t, cc, cflags):
        a = [cc, "-w", *cflags]
        if t == "smlrpp":
            a += ["-DSTAND_ALONE", "-DUCPP_CONFIG"]
        elif t == "smlrcmips":
            a += ["-DMIPS"]
        a += ['-DPATH_PREFIX="%s"' % self.root, "-DHOST_LINUX"]
        a += [V + "/" + s for s in TOOLS[t]]
        return run(a + ["-o", self.bin + "/" + t], timeout=200)

    def build_libs(self, libs):
        def one(l):
            d = self.root + "/lib_" + l
            shutil.copytree(V + "/srclib", d + "/srclib")
            r = self.cc(["-SI", self.inc, "@" + l + ".txt"], cwd=d + "/srclib", timeout=200)
            if r.rc or not os.path.exists(d + "/srclib/" + l + ".a"):
                raise BuildError(l + ": " + repr(r))
            shutil.copy(d + "/srclib/" + l + ".a", self.lib)
            shutil.rmtree(d)
        pmap(one, libs)

    def run(self, argv, **kw):
        kw.setdefault("env", self.env)
        if "/" not in argv[0]:
            p = self.bin + "/" + argv[0]
            if os.path.exists(p):
                argv = [p, *argv[1:]]
        return run(argv, **kw)

    def mrun(self, jobs, **kw):
        def fix(j):
            a, rest = (j[0], j[1:]) if isinstance(j, tuple) else (j, ("", ""))
            if "/" not in a[0] and os.path.exists(self.bin + "/" + a[0]):
                a = [self.bin + "/" + a[0], *a[1:]]
            return (a, *rest)
        kw.setdefault("env", self.env)
        return mrun([fix(j) for j in jobs], **kw)

    def cc(self, args, **kw):
        return self.run([self.bin + "/smlrcc", *args], **kw)

    def compile(self, args, **kw):
        r = self.cc(args, **kw)
        if r.rc:
            raise BuildError(f"smlrcc {' '.join(args)}: {r!r}")
        return r


DOSBOX_CONF = """[sdl]
output=surface
[dosbox]
memsize=16
[cpu]
core=normal
cputype=pentium_slow
cycles=max
[mixer]
nosound=true
[speaker]
pcspeaker=false
[autoexec]
"""


def dosbox(tc, d, commands, timeout=120):
    """Runs DOS commands with C: = d."""
    with open(d + "/RUN.BAT", "wb") as f:
        f.write(b"@echo off\r\n" + b"".join(c.encode() + b"\r\n" for c in commands) + b"exit\r\n")
    with open(d + "/dosbox.conf", "w") as f:
        f.write(DOSBOX_CONF)
    env = dict(tc.env)
    env["HOME"] = d  # its configuration stays in the scratch directory
    return run(["dosbox", "-conf", "dosbox.conf", "-c", "mount c " + d, "-c", "c:", "-c", "run.bat", "-c", "exit"],
               cwd=d, env=env, timeout=timeout, stdin=None, retry=False)


class Check:
    def __init__(self, pid, level, argv=None):
        self.pid, self.level = pid, level
        tier = os.environ.get("VERIF_TIER", "quick")
        argv = sys.argv[1:] if argv is None else argv
        for i, a in enumerate(argv):
            if a == "--tier":
                tier = argv[i + 1]
        self.tier = "thorough" if tier == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.known = load_known(pid)
        self.seen_known = {}
        self.violations = []
        self.lock = threading.Lock()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.rdir = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence") + "/replay"
        os.makedirs(self.rdir, exist_ok=True)
        for f in os.listdir(self.rdir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(self.rdir, f))

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.monotonic() - T0), *a, flush=True)

    def elapsed(self):
        return time.monotonic() - T0

    def violation(self, key, what, replay=""):
        """A confirmed violation. key identifies the failing input or call site; listed keys are known findings."""
        with self.lock:
            for k, d in self.known:
                if k == key or (k.endswith("*") and key.startswith(k[:-1])):
                    if k not in self.seen_known:
                        self.seen_known[k] = d
                        print(f"KNOWN-FINDING: property={self.pid} {d} [{k}]", flush=True)
                    return
            if len(self.violations) >= 200:
                self.violations.append(None)
                return
            n = len(self.violations)
            path = os.path.join(self.rdir, f"{self.pid}-{n:03d}.txt")
            if n < 25:
                with open(path, "w", encoding="utf-8", errors="replace") as f:
                    f.write(f"property: {self.pid}\nkey: {key}\nwhat: {what}\n\n{replay}\n")
            self.violations.append((key, what, path))
            if n < int(os.environ.get('VERIF_SHOW', 10)):
                print(f"  key={key} {what}"[:600], flush=True)
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def finish(self, **cov):
        self.cov.update(cov)
        if "samples" not in self.cov:
            self.cov["samples"] = self.samples[:5]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - T0, 2),
                  violations=len(self.violations))
        d = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence")
        os.makedirs(d, exist_ok=True)
        with open(f"{d}/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        short = {k: v for k, v in self.cov.items() if k not in ("samples", "rule")}
        self.log("coverage:", json.dumps(short, default=str)[:1500])
        self.log("violations:", len(self.violations), "known findings seen:", len(self.seen_known))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def load_known(pid):
    out = []
    try:
        for line in open(VERIF + "/known_findings.txt", encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m[1] == pid:
                out.append((m[2], m[3]))
    except FileNotFoundError:
        pass
    return out


def main(pid, level, body):
    """body(check); a build or internal error is not a verdict: traceback, exit 2."""
    c = Check(pid, level)
    try:
        body(c)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        if c.violations:
            c.log("stopped early, after a violation")
            try:
                c.finish(evaluations=1, distinct_nontrivial=1, rule="stopped early", states=1, transitions=1,
                         traces_validated_against_impl=1)
            except SystemExit:
                pass
            sys.stdout.flush()
            os._exit(1)
        sys.stdout.flush()
        sys.exit(2)
