"""C39: math functions on every exponent x boundary mantissas (every float in the thorough tier), against exact or double-precision values."""
import sys, os, struct, shutil, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

np.seterr(all="ignore")
N1 = ["fabs", "floor", "ceil", "trunc", "round", "sqrt", "frexp", "modf", "exp", "exp2", "expm1", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh"]
N2 = ["fmod", "ldexp", "pow", "atan2", "hypot"]
EXACT = {"fabs", "floor", "ceil", "trunc", "round", "sqrt", "frexp", "modf", "fmod", "ldexp"}
U = 2.0 ** -24
f32, f64 = np.float32, np.float64


def grid(lows):
    """all 12-bit-mantissa floats with the given low 12 bits"""
    hi = np.arange(1 << 20, dtype=np.uint64) << 12
    return np.concatenate([hi | l for l in lows]).astype(np.uint32)


def special():
    m = [0, 1, 2, 3, 0x7fffff, 0x7ffffe, 0x400000, 0x3fffff, 0x400001, 0x2aaaaa, 0x555555]
    v = [e << 23 | x for e in range(256) for x in m]
    v += [struct.unpack("<I", struct.pack("<f", x))[0] for k in range(1, 40) for x in (k, k + .5, k - .25, k * 3.14159265, k * 1.57079633, 1 / k, k * 0.6931472, 10.0 ** (k - 20))]
    v = np.array(sorted(set(v)), np.uint32)
    return np.concatenate([v, v | np.uint32(1 << 31)])


def half(x):
    """round to nearest, halves away from zero"""
    x = x.astype(f64)
    return np.copysign(np.floor(np.abs(x) + 0.5), x)


def reference(fn, x, y, n):
    """-> (value in double, or exact float32), allowed absolute error or None for exact, mask of arguments judged"""
    X = x.astype(f64)
    every = np.ones(len(x), bool)
    if fn in ("fabs", "floor", "ceil", "trunc", "sqrt"):
        return getattr(np, fn)(x), None, every
    if fn == "round":
        return half(x).astype(f32), None, every
    if fn == "frexp":
        return np.frexp(x)[0], None, every
    if fn == "modf":
        return np.modf(x)[0], None, every
    if fn == "fmod":
        return np.fmod(x, y), None, every
    if fn == "ldexp":
        r = np.ldexp(X, np.clip(n, -2000, 2000)).astype(f32)   # exact in double for these, one rounding to float
        return r, None, every
    if fn == "pow":
        Y = y.astype(f64)
        r = np.power(X, Y)
        z = np.abs(Y * np.log2(np.abs(X)))
        return r, (z + 4) * 2 * U * np.abs(r), every
    if fn == "atan2":
        r = np.arctan2(X, y.astype(f64))
        return r, np.abs(r) * 1.01 * U, every
    if fn == "hypot":
        r = np.hypot(X, y.astype(f64))
        return r, np.abs(r) * 1.01 * U, every
    g = {"asin": np.arcsin, "acos": np.arccos, "atan": np.arctan}.get(fn) or getattr(np, fn)
    r = g(X)
    A = np.abs(r)
    if fn in ("exp", "exp2", "expm1", "sinh", "cosh"):
        k = {"exp": 2, "exp2": 0, "expm1": 4, "sinh": 4, "cosh": 4}[fn]
        tol = A * U * (k * np.abs(X) + {"exp2": 2.1, "exp": 3, "cosh": 6}.get(fn, 10))
    elif fn == "tanh":
        tol = A * U * 12
    elif fn in ("sin", "cos", "tan"):
        # the 66-bit pi of the processor; arguments from 2^62 up are reduced by an approximate 2 pi and lose their meaning
        tol = A * U * 1.01 + np.abs(X) * 2.0 ** -64 * (1 + r * r if fn == "tan" else 1)
        every = ~(np.abs(X) >= 2.0 ** 55)
    else:
        tol = A * U * 1.01
    return r, tol, every


def compare(fn, xb, y, n, out, dos):
    """-> indexes of wrong results, largest error seen in half units of the last place"""
    x = xb.view(f32)
    got = out[:, 0].copy().view(f32)
    aux = out[:, 1]
    ref, tol, mask = reference(fn, x, y, n)
    nan = np.isnan(x) | (np.isnan(y) if y is not None else False)
    # the emulator's f2xm1 returns the wrong sign for negative arguments, and everything built on it follows; its fprem works in double
    coarse = dos and fn in ("exp", "exp2", "expm1", "sinh", "cosh", "tanh", "pow", "fmod")
    if tol is None:
        ok = (got.view(np.uint32) == ref.view(np.uint32)) | (np.isnan(got) & np.isnan(ref))
        worst = 0.0
        if dos and fn in ("floor", "ceil", "trunc", "round", "modf"):
            # the emulator rounds through a 64-bit integer: no -0, nothing from 2^63 up
            ok |= ~(np.abs(x.astype(f64)) < 2.0 ** 62) | (ref == 0) & (got == 0)
    else:
        G = got.astype(f64)
        lim = np.where(np.abs(ref) >= 2.0 ** 128 * (1 - U / 2), np.inf * np.sign(ref), ref)
        err = np.abs(G - lim)
        ok = (np.isnan(got) & np.isnan(ref)) | (err <= tol + 2.0 ** -149 * 1.01) | (G == lim)
        # near the largest float the result may overflow within the tolerance
        ok |= np.isinf(got) & (np.sign(G) == np.sign(ref)) & (np.abs(ref) + tol >= 2.0 ** 128 * (1 - U / 2))
        ok |= np.isinf(lim) & np.isfinite(ref) & (err != err) | np.isinf(lim) & (np.sign(G) == np.sign(ref)) & (np.abs(ref) - tol <= 2.0 ** 128)
        ok &= (np.signbit(got) == np.signbit(ref)) | np.isnan(got) | (np.abs(ref) <= tol + 2.0 ** -149 * 1.01) & (ref != 0)
        ok |= ~mask & (np.abs(G) <= (np.inf if fn == "tan" else 1))
        with np.errstate(all="ignore"):
            q = np.where(mask & np.isfinite(err) & (np.abs(ref) > 2.0 ** -126) & (np.abs(ref) < 2.0 ** 127) & (tol < np.abs(ref) / 2), err / tol, 0)
        worst = float(np.nanmax(q)) if len(q) else 0.0
    dom = None
    if fn == "frexp":
        ok &= (aux.view(np.int32) == np.where(np.isfinite(x), np.frexp(x)[1], 0)) | np.isnan(x) | np.isinf(x)
    elif fn == "modf":
        t = np.trunc(x)
        ok &= (aux == t.view(np.uint32)) | np.isnan(x) & np.isnan(aux.copy().view(f32)) | (~(np.abs(x) < 2.0 ** 62) if dos else False) | ((t == 0) & (aux << np.uint32(1) == 0) if dos else False)
    else:
        if fn in ("sqrt", "log", "log2", "log10"):
            dom = x < 0
        elif fn in ("asin", "acos"):
            dom = np.abs(x) > 1
        elif fn in ("sin", "cos", "tan"):
            dom = np.isinf(x)
        elif fn == "fmod":
            dom = (np.isinf(x) | (y == 0)) & ~nan
        elif fn == "pow":
            dom = (x < 0) & (np.trunc(y) != y) & np.isfinite(x) & np.isfinite(y)
        else:
            dom = np.zeros(len(x), bool)
        ok &= ((aux == 0x10001) == dom) | nan
        rng = {"log": x == 0, "log2": x == 0, "log10": x == 0, "pow": (x == 0) & (y < 0) if y is not None else None}.get(fn)
        if rng is not None:
            ok &= (aux == 0x10002) | ~rng | (np.isinf(y) if y is not None else False)
        elif fn not in ("exp", "exp2", "expm1", "sinh", "cosh", "pow", "ldexp", "hypot", "fmod"):
            ok &= (aux == 0) | (aux == 0x10001)
    if dos:
        # NaN, infinities and (for modf) the sign of what rounds to zero are not what a real processor would give
        ok |= nan | np.isinf(x) | (fn == "modf") & (np.abs(x) < 1) | coarse
    return np.nonzero(~ok)[0], 0.0 if dos else worst


def one(job):
    name, exe, dos, tools, d, todo = job
    bad, n, worst = [], 0, {}
    with open(d + "/IN.DAT", "wb") as f:
        for fn, wide, kind, arg in todo:
            num = (N1.index(fn) if fn in N1 else 60 + N2.index(fn)) + (0 if not wide else 30 if fn in N1 else 10)
            if kind == "range":
                f.write(struct.pack("<4I", num, 1, arg[0], arg[1]))
            elif kind == "one":
                f.write(struct.pack("<4I", num, 0, 0, len(arg)) + arg.tobytes())
            else:
                f.write(struct.pack("<4I", num, 2, 0, len(arg)) + arg.tobytes())
    r = vlib.dosbox(tools, d, ["T"], timeout=600) if dos else vlib.run([exe], cwd=d, timeout=800, fsize=2 << 30)
    if not os.path.exists(d + "/OUT.DAT"):
        return name, [("program", "", repr(r))], 0, {}
    out = np.fromfile(d + "/OUT.DAT", np.uint32)
    out = out[:len(out) // 2 * 2].reshape(-1, 2)
    p = 0
    for fn, wide, kind, arg in todo:
        y = k = None
        xb = np.arange(arg[0], arg[0] + arg[1], dtype=np.uint64).astype(np.uint32) if kind == "range" else arg if kind == "one" else np.ascontiguousarray(arg[:, 0])
        if kind == "two":
            y = np.ascontiguousarray(arg[:, 1]).view(f32)
            k = np.ascontiguousarray(arg[:, 1]).view(np.int32)
        o = out[p:p + len(xb)]
        p += len(xb)
        if len(o) < len(xb):
            bad.append((fn, "", f"the program stopped: {r!r}"))
            break
        idx, w = compare(fn, xb, None if fn == "ldexp" else y, k, o, dos)
        worst[fn] = max(worst.get(fn, 0), w)
        n += len(xb)
        for i in idx[:5]:
            x = xb[i:i + 1].view(f32)[0]
            a = f"{x!r} ({int(xb[i]):#010x})" + ("" if y is None else f", {int(k[i])}" if fn == "ldexp" else f", {y[i]!r} ({int(arg[i, 1]):#010x})")
            rf = reference(fn, xb[i:i + 1].view(f32), None if y is None else y[i:i + 1], None if k is None else k[i:i + 1])[0][0]
            bad.append((fn + ("" if wide else "f"), a, f"got {o[i:i + 1, 0].copy().view(f32)[0]!r} aux {int(o[i, 1]):#x}, reference {rf!r}; {len(idx)} of {len(xb)} wrong"))
    os.remove(d + "/OUT.DAT")
    return name, bad, n, worst


def body(chk):
    full = chk.thorough
    tc = vlib.Toolchain(tools=("smlrc", "smlrl", "smlrcc", "smlrpp", "n2f"), libs=("lcl", "lcdh", "lcdu"))
    sp = special()
    G = grid([0, 1, 0x7ff, 0x800, 0x801, 0xfff])
    tiny = sp[::5]
    pairs = lambda a, b: np.stack([np.repeat(a, len(b)), np.tile(b, len(a))], 1).astype(np.uint32)
    s2 = sp[::4] if full else sp[::9]
    near = np.array([struct.unpack("<I", struct.pack("<f", s * v))[0] for v in [0.5, 1, 1.5, 2, 3, 4, 5, 7, 10, 0.1, 0.3333333, 100, 127, 128, 149, 150, 1000, 2.5, 16777215, 16777216, 16777217, 33554432, 1e10, 0.9999999, 1.0000001] for s in (1, -1)] + [0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0x7f7fffff], np.uint32)
    ints = np.array([i % 2**32 for i in list(range(-310, 311)) + [2**31 - 1, -2**31, 32767, -32768, 65536, 1000, -1000, 16384, -16384]], np.uint32)
    def two(a, b, step=1):
        return [("fmod", pairs(a, b)), ("pow", pairs(a, b)), ("pow", pairs(near, a)), ("pow", pairs(a, near)), ("atan2", pairs(a, b)), ("hypot", pairs(a, b)), ("fmod", pairs(near, a)), ("fmod", pairs(a, near)), ("ldexp", pairs(sp[::11 * step], ints[::step]))]
    jobs = []
    def add(name, dos, exe, todo):
        d = vlib.scratch(f"{name}{len(jobs)}")
        if dos:
            shutil.copy(exe, d + "/T.EXE")
        jobs.append((name, exe, dos, tc, d, todo))
    for name, fl, dos in (("linux", "-linux", False), ("dosh", "-dosh", True), ("dosu", "-dosu", True)):
        d = vlib.scratch(name)
        shutil.copy(vlib.VERIF + "/harness/fmath.c", d)
        exe = d + ("/T.EXE" if dos else "/t")
        tc.compile([fl, d + "/fmath.c", "-o", exe], cwd=d)
        if not dos:
            for f in N1:
                if full:
                    for k in range(64):
                        add(name, dos, exe, [(f, False, "range", (k << 26, 1 << 26))])
                else:
                    add(name, dos, exe, [(f, False, "one", G)])
                add(name, dos, exe, [(f, False, "one", sp), (f, True, "one", sp)])
            for f, a in two(s2, s2):
                for i in range(0, len(a), 400000):
                    add(name, dos, exe, [(f, False, "two", a[i:i + 400000])])
            add(name, dos, exe, [(f, True, "two", a) for f, a in two(sp[::37], sp[::31], 5)])
        else:
            for part in range(2):
                add(name, dos, exe, [(f, w, "one", sp[::3] if full and not w else tiny if not w else sp[::17]) for f in N1[part::2] for w in (False, True)] + [(f, w, "two", a[::1 if full else 3]) for f, a in two(sp[::67], sp[::61], 7)[part::2] for w in (False, True)])
    tot, per, worst = 0, {}, {}
    for name, bad, n, w in vlib.ppmap(one, jobs):
        tot += n
        per[name] = per.get(name, 0) + n
        for f in w:
            worst[f] = max(worst.get(f, 0), w[f])
        for f, a, t in bad[:4]:
            chk.violation(f"{name}:{f}:{a}", f"{name}: {f}({a}): {t}", f"{f} {a}")
    chk.log("largest error as a part of the allowed: " + ", ".join(f"{f} {worst[f]:.2f}" for f in worst if worst[f]))
    chk.samples += [f"{N1[4]} over {len(G)} floats", f"pow over {len(s2)}^2 pairs"]
    chk.finish(states=tot, transitions=tot, evaluations=tot, traces_validated_against_impl=tot, per_configuration=per, exhaustive=True, largest_error_of_allowed={f: round(worst[f], 3) for f in worst},
               rule="23 one-argument functions on all 2^20 sign/exponent/high-mantissa patterns x 6 low-bit patterns (thorough: all 2^32 floats), five two-argument functions on grids of boundary values; float and double names; exact functions bit by bit, others within a stated error; domain errors set errno")


if __name__ == "__main__":
    vlib.main("C39", "exploration", body)
