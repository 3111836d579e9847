"""C31: stdio under failing and short system requests: every request of every operation sequence fails or is cut short in turn."""
import sys, os, struct, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from C30 import step, header, init_state, INIT, READ, WRITE

_cache = {}


def legal(s, seq):
    for op in seq:
        k = (s, op)
        v = _cache.get(k)
        if v is None:
            v = step(s, op, False)
            _cache[k] = v = v[0] if v else 0
        if v == 0:
            return False
        s = v
    return True


def enum(cfg, ops, depth, first):
    """all legal sequences up to the depth; for each, which operations can be left out (or replaced by a getc)"""
    _cache.clear()
    s0 = init_state(cfg)
    if cfg[0] in "oi":
        s0 = s0[:7] + (cfg[0],) + s0[8:]
    def go(s, seq):
        for op in (first if first and not seq else ops):
            k = (s, op)
            v = _cache.get(k)
            if v is None:
                v = step(s, op, False)
                _cache[k] = v = v[0] if v else 0
            if v == 0 or len(v[0]) > (5600 if cfg[3] == "BIG" else 55):
                continue
            q = seq + op
            yield q
            if len(q) < depth:
                yield from go(v, q)
    for q in go(s0, ""):
        m1 = m2 = 0
        for k in range(len(q)):
            rest = q[k + 1:]
            if "u" in rest or "U" in rest:
                j = min(i for i in (rest.find("u"), rest.find("U")) if i >= 0)
                if not any(c in "ghjGRQ" for c in rest[:j]):
                    continue
            if q[k] in READ and s0[7] == "u" and any(c in WRITE or c == "f" for c in re.split("[0-9_=+$!%wrM-]", rest)[0]):
                continue    # output must not directly follow a failed input
            if legal(s0, q[:k] + rest):
                m1 |= 1 << k
            if q[k] == "R" and legal(s0, q[:k] + "g" + rest):
                m2 |= 1 << k
        yield q, m1, m2


def job(a):
    cfg, ops, depth, first, two, exe = a
    L = list(enum(cfg, ops, depth, first))
    if not L:
        return cfg, 0, 0, 0, [], 0
    inp = header(cfg) + b"".join(bytes([len(q)]) + q.encode() + struct.pack("<HHB", m1, m2, two) for q, m1, m2 in L) + b"\0"
    r = vlib.run([exe], stdin=inp, timeout=500)
    t = re.search(rb"T (\d+) (\d+)\n$", r.out)
    bad = r.out.decode("latin-1").splitlines()
    bad = [x for x in bad if not x.startswith("T ")]
    if r.rc or not t:
        bad.append("the harness died: exit %s after %s" % (r.rc, bad[-1:]))
    return cfg, len(L), int(t[1]) if t else 0, int(t[2]) if t else 0, bad, len(_cache)


RW = "gGRupnsW0_=+$fFmcwrt"
RD = "ghGHRQuU0_=+3$mMFcwtr"
WR = "pnsWVPf0_=$mFcwt"
AP = "pqnsWVPfFcmet"
OUT = "abdpnsWfFc"
IN = "jgkGRuU0_=+mct"
BIGR = "gRBu56=_8$t"
BIGU = "gBup56=_8Cf$"


def configs(full):
    f = 1 if full else 0
    for b in ((1, 0), (2, 1), (2, 2), (2, 3), (3, 3), (0, 0)):
        yield ("r", *b, INIT), RD, 3 + f
        yield ("w", *b, INIT), WR, 3 + f
        yield ("w", *b, INIT), "pnsWfFc", 5 + f
        yield ("a", *b, INIT[:3]), AP, 3 + f
        yield ("r+", *b, INIT), RW, 3 + f
        yield ("w+", *b, INIT), RW, 3 + f
        yield ("o", *b, b""), OUT, 4 + f
        yield ("i", *b, INIT), IN, 4 + f
    for m, o in (("r", BIGR), ("r+", BIGU)):
        for b in ((0, 0), (2, 16)):
            yield (m, *b, "BIG"), o, 3 + f
    for b in ((5, 4), (7, 5), (4, 8)):
        yield ("w+", *b, INIT), "gupsWf0_=F", 3 + f
        yield ("r", *b, INIT), "gGRu_=0c", 4 + f


def body(chk):
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=("lcl",))
    d = vlib.scratch("h")
    for f in ("stdio.c", "stdiof.h"):
        shutil.copy(f"{vlib.VERIF}/harness/{f}", d)
    tc.compile(["-linux", "-DMEM", "-DFAULT", d + "/stdio.c", "-o", d + "/sf"], cwd=d)
    jobs = []
    for cfg, ops, dp in configs(chk.thorough):
        jobs += [(cfg, ops, dp, o, 0, d + "/sf") for o in ops]
        # two faults: one operation less
        jobs += [(cfg, ops, dp - 1, o, 1, d + "/sf") for o in ops]
    n = runs = checks = states = 0
    seen = {}
    for cfg, k, r, c, bad, st in vlib.ppmap(job, jobs):
        n += k
        runs += r
        checks += c
        states += st
        for b in bad:
            m = re.match(r"V (\S+) faults((?: \S+)+) at op (\d+): (.*)", b)
            if not m:
                chk.violation(f"{cfg[0]}:{cfg[1]}:{b[:60]}", f"mode {cfg[0]}, buffering {cfg[1]} size {cfg[2]}: {b}", "")
                continue
            fk = (cfg[0], m[4], m[1][int(m[3])] if int(m[3]) < len(m[1]) else "close")
            v = (len(m[1]), cfg, m)
            if fk not in seen or v[0] < seen[fk][0]:
                seen[fk] = v
    for fk, (_, cfg, m) in sorted(seen.items()):
        chk.violation(f"{cfg[0]}:{cfg[1]}:{m[1]}:{m[2].strip().replace(' ', ',')}", f"mode {cfg[0]}, buffering {cfg[1]} size {cfg[2]}, file {cfg[3]!r}: operations '{m[1]}' with faults (request/kind/type){m[2]}: {m[4]} (operation {m[3]})", "operation letters: harness/stdio.c; kinds: 1 fails, 2 short (1 byte), 3 short by one; types r w s o c m = read write lseek open close malloc")
    chk.log(f"{n} sequences, {runs} executions, {checks} faulted executions judged")
    chk.finish(states=states, transitions=n, executions=runs, faulted_executions=checks, traces_validated_against_impl=runs,
               rule="every legal operation sequence to depth 3-5 per mode and buffering; in each, every system request (read, write, lseek, open, close, malloc) fails or is cut short in turn; every pair of faults one operation less deep", exhaustive=True)


if __name__ == "__main__":
    vlib.main("C31", "fault_enumeration", body)
