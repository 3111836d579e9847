"""C01: integer expressions on the 32-bit x86 back end."""
import sys, os, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, families as F, exprrun as R


def body(chk):
    tc = vlib.Toolchain(libs=("lcl",))
    be = R.LinuxBackend(tc)
    m = C.Model(32)
    st = R.Stats()
    V = lambda n: F.vals(m, n)
    def go(label, grid, funcs, size=160, decls=""):
        R.check_batches(chk, be, R.batches(m, grid, funcs, size, decls), st, label)
    th = chk.thorough
    g2 = C.mkgrid(V("full"), V("full")) if th else C.mkgrid(V("small") + [255, 65536], V("small") + [3])
    go("binop", g2, F.fam_binop(m, "LGDEAMNF" if th else "LGDEMF", C.TYPES, g2))
    go("same", g2, F.fam_same(m, "LGDEAMNF", C.TYPES, g2))
    g1 = C.mkgrid(V("full"), [5])
    go("unary", g1, F.fam_unary(m, "LGDEAMNF", C.TYPES, g1))
    g3 = C.mkgrid(V("tiny"), V("tiny"), V("two") if not th else V("tiny"))
    fc = [C.lit(m, 5), C.lit(m, -1)]
    ops = C.ARITH + C.SHIFT + ["<", "==", "&&", "||"]
    allops = C.BINOPS
    K = "LGDF"
    o = lambda types: [F.operands(m, g3, s, K, types, fc) for s in range(3)]
    go("depth2-int", g3, F.fam_depth2(m, g3, ops if not th else allops, ops if not th else allops, o("i")))
    rest = [t for t in "ubcsw"] if th else ["u", "c"]
    for t in rest:
        oo = [F.operands(m, g3, s, "LD" if not th else K, t, [C.lit(m, 5)]) for s in range(3)]
        go("depth2-" + t, g3, F.fam_depth2(m, g3, ops if not th else allops, ops if not th else allops, oo))
    mixed = [[C.leaf(m, g3, "L", 0, a), C.leaf(m, g3, "F", 0, a)] for a in "u"] + [[C.leaf(m, g3, "G", 1, a), C.leaf(m, g3, "E", 1, a)] for a in "c"] + [[C.leaf(m, g3, "D", 2, "w"), C.lit(m, -3)]]
    go("depth2-mixed", g3, F.fam_depth2(m, g3, allops, allops, mixed))
    q = lambda ks, ts: tuple(C.leaf(m, g3, k, s, t) for s, (k, t) in enumerate(zip(ks, ts)))
    go("depth3", g3, F.fam_depth3(m, g3, allops if th else ops, [q("LGD", "iii"), q("FFF", "iui"), q("DPL", "bic")] if not th else
        [q(k, t) for k in ("LGD", "FFF", "DPL", "EEE", "GLF", "DDD") for t in ("iii", "uic", "wbs") if not ("P" in k and t[1] != "i")]))
    go("unmix", g3, F.fam_unmix(m, g3, "LDF" if not th else "LGDEF", "ibcw" if not th else C.TYPES))
    go("context", g3, F.fam_ctx(m, g3, "PGDF" if not th else "PLGDEF", "icbu" if not th else C.TYPES, F.few_consts(m)))
    go("logic", g3, F.fam_logic(m, g3, "LDF" if not th else "LGDEF", "ib" if not th else "iubc"))
    go("cond", g3, F.fam_cond(m, g3, "LGF" if not th else "LGDEF", C.TYPES, F.few_consts(m)))
    gw = C.mkgrid(V("full"), [5])
    go("pow2", gw, F.fam_pow2(m, gw, "LG" if not th else "PLGDF", "iub" if not th else C.TYPES))
    gf = C.mkgrid([0, -1, 77, 40000], [2, -128, 0x7fffffff], [9])
    go("frame", gf, F.fam_frame(m, gf, F.FRAME_SIZES), 100)
    gp, fp = F.fam_ptr(m)
    go("pointer", gp, fp, 150, F.PTRDECL)
    chk.assumptions += ["two's complement wrap-around for signed overflow, arithmetic right shift of negative values (documented behaviour of the supported targets)",
                        "shift counts outside 0..31, division by zero and INT_MIN/-1 are excluded (undefined in C)"]
    chk.finish(evaluations=st.evals, distinct_nontrivial=st.funcs,
               rule="every element of each family (see families) is one compiled function, distinct by its source text, run on every tuple of a boundary-value grid; trivial = both operands constant, not generated",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C01", "exploration", body)
