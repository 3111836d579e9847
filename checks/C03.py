"""C03: integer expressions from the MIPS back end, run in qemu-mipsel."""
import sys, os, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, families as F, exprrun as R


def body(chk):
    tc = vlib.Toolchain(tools=("smlrcmips",))
    be = R.MipsBackend(tc)
    m = C.Model(32)
    st = R.Stats()
    V = lambda n: F.vals(m, n)
    def go(label, grid, funcs, size=160, decls=""):
        R.check_batches(chk, be, R.batches(m, grid, funcs, size, decls), st, label)
    th = chk.thorough
    g2 = C.mkgrid(V("full"), V("small")) if th else C.mkgrid(V("small") + [255, 65536], V("small") + [3])
    go("binop", g2, F.fam_binop(m, "LGDEAMNF" if th else "LGDF", C.TYPES, g2))
    go("same", g2, F.fam_same(m, "LGDEAMNF", C.TYPES, g2))
    g1 = C.mkgrid(V("full"), [5])
    go("unary", g1, F.fam_unary(m, "LGDEAMNF", C.TYPES, g1))
    g3 = C.mkgrid(V("tiny"), V("tiny"), V("two"))
    ops = C.ARITH + C.SHIFT + ["<", "==", "&&", "||"]
    allops = C.BINOPS
    oo = [F.operands(m, g3, s, "LDF" if not th else "LGDEF", "i", [C.lit(m, 5)]) for s in range(3)]
    go("depth2-int", g3, F.fam_depth2(m, g3, ops if not th else allops, ops if not th else allops, oo))
    for t in "ub" if not th else "ubcsw":
        oo = [F.operands(m, g3, s, "LD", t, [C.lit(m, -7)]) for s in range(3)]
        go("depth2-" + t, g3, F.fam_depth2(m, g3, ops, ops, oo))
    q = lambda ks, ts: tuple(C.leaf(m, g3, k, s, t) for s, (k, t) in enumerate(zip(ks, ts)))
    go("depth3", g3, F.fam_depth3(m, g3, ops if not th else allops, [q("LGD", "iii"), q("FFF", "iui"), q("DPL", "bic")]))
    go("unmix", g3, F.fam_unmix(m, g3, "LF" if not th else "LGDEF", "icbw" if not th else C.TYPES))
    go("context", g3, F.fam_ctx(m, g3, "PDF" if not th else "PLGDEF", "ibu" if not th else C.TYPES, F.few_consts(m)))
    go("logic", g3, F.fam_logic(m, g3, "LF" if not th else "LGDEF", "ib"))
    go("cond", g3, F.fam_cond(m, g3, "LF" if not th else "LGDEF", C.TYPES, F.few_consts(m)))
    gw = C.mkgrid(V("full"), [5])
    go("pow2", gw, F.fam_pow2(m, gw, "L" if not th else "LGD", "iu" if not th else C.TYPES))
    gf = C.mkgrid([0, -1, 77, 40000], [2, -128, 0x7fffffff], [9])
    go("frame", gf, F.fam_frame(m, gf, F.FRAME_SIZES + [32700, 32760, 32764, 32768, 32772, 33000]), 100)
    gp, fp = F.fam_ptr(m)
    go("pointer", gp, fp, 150, F.PTRDECL)
    # deep right-nested expressions run out of registers
    deep = []
    for n in range(2, 24):
        for op in ("+", "-", "*", "^", "<", "<<"):
            for k in "LDF":
                e = C.leaf(m, g3, k, 0, "i")
                for i in range(n):
                    e = C.binop(m, op if i % 2 else "-", C.leaf(m, g3, k, i % 3, "i"), e)
                deep.append(C.Func(m, e))
                if n > 15:
                    continue   # more tokens than one expression may have
                e = C.leaf(m, g3, "F", 0, "i")
                for i in range(n):
                    e = C.binop(m, op if i % 2 else "+", C.binop(m, "^", C.leaf(m, g3, k, i % 3, "i"), C.lit(m, i)), e)
                deep.append(C.Func(m, e))
    go("deep", g3, deep, 60)
    gq, fq = F.fam_far(m, True)
    go("far", gq, fq, 100, F.FARDECL)
    chk.assumptions += ["qemu-mipsel executes MIPS32r2 code as a processor does; the harness is linked with glibc",
                        "wrap-around for signed overflow; undefined operand values are excluded"]
    chk.finish(evaluations=st.evals, distinct_nontrivial=st.funcs,
               rule="every element of each family is one compiled function, distinct by its source text, run on every tuple of a boundary-value grid",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C03", "exploration", body)
