"""C02: integer expressions in the DOS memory models (16-bit tiny/small; 32-bit huge/unreal), run in DOSBox."""
import sys, os, numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cexpr as C, families as F, exprrun as R


def body(chk):
    tc = vlib.Toolchain(libs=("lcds", "lcdh", "lcdu"))
    st = R.Stats()
    th = chk.thorough
    def suite(be, m, lvl):
        V = lambda n: F.vals(m, n)
        size = 100 if m.ibits == 16 else 120
        def go(label, grid, funcs, sz=size, decls=""):
            R.check_batches(chk, be, R.batches(m, grid, funcs, sz, decls), st, label)
        ops = C.ARITH + C.SHIFT + ["<", "==", "&&", "||"]
        allops = C.BINOPS
        gb = C.mkgrid(V("six") if not th else V("small"), V("six") if not th else V("small"))
        g3 = C.mkgrid([V("tiny")[i] for i in (1, 3, 4)], [V("tiny")[i] for i in (0, 2, 5)], V("two")) if not th else C.mkgrid(V("tiny"), V("tiny")[:4], V("two"))
        g1 = C.mkgrid(V("full"), [5])
        if lvl == 0:    # linking and start-up only
            go("unary", g1, F.fam_unary(m, "LGD", "ib", g1))
            return
        kinds = {1: "LGF", 2: "LGDF", 3: "LGDEMF"}[lvl]
        types = {1: "icu", 2: C.TYPES, 3: C.TYPES}[lvl]
        go("binop", gb, F.fam_binop(m, kinds, types, gb))
        go("unary", g1, F.fam_unary(m, "LGDEAMNF" if lvl > 1 else "LDF", types, g1))
        fc = [C.lit(m, 5)]
        oo = [F.operands(m, g3, s, "LGDF" if lvl > 2 else "LDF", "i", fc) for s in range(3)]
        go("depth2-int", g3, F.fam_depth2(m, g3, ops if lvl > 1 else C.ARITH, ops if lvl > 1 else C.ARITH + ["<", "<<"], oo))
        if lvl > 1:
            oo = [F.operands(m, g3, s, "LD", "u" if s else "b", []) for s in range(3)]
            go("depth2-u", g3, F.fam_depth2(m, g3, ops, ops, oo))
        q = lambda ks, ts: tuple(C.leaf(m, g3, k, s, t) for s, (k, t) in enumerate(zip(ks, ts)))
        go("depth3", g3, F.fam_depth3(m, g3, ops if lvl > 1 else ["+", "*", "<<"], [q("LGD", "iii"), q("FPD", "iib")]))
        go("unmix", g3, F.fam_unmix(m, g3, "D" if lvl < 3 else "LDF", "ic" if lvl < 3 else "icbw"))
        go("context", g3, F.fam_ctx(m, g3, "PD" if lvl < 3 else "PGDF", "ib" if lvl < 3 else "iubc", F.few_consts(m)[:4] if lvl < 3 else F.few_consts(m)))
        go("logic", g3, F.fam_logic(m, g3, "L", "i") if lvl < 3 else F.fam_logic(m, g3, "LF", "ib"))
        go("cond", g3, F.fam_cond(m, g3, "L" if lvl < 3 else "LGF", "iub" if lvl < 3 else C.TYPES, []))
        gw = C.mkgrid(V("full")[::2], [5])
        go("pow2", gw, F.fam_pow2(m, gw, "L" if lvl < 3 else "LGD", "i" if lvl == 1 else "iu" if lvl == 2 else C.TYPES))
        gf = C.mkgrid([0, -1, 77], [2, -128], [9])
        go("frame", gf, F.fam_frame(m, gf, [1, 3, 100] + list(range(110, 131)) + [252, 256] if lvl > 1 else [1, 120, 124, 126, 128, 130, 256]), 60)
        gp, fp = F.fam_ptr(m)
        go("pointer", gp, fp, 60, F.PTRDECL)
        if m.ibits == 32:
            gq, fq = F.fam_far(m, True)
            go("far", gq, fq, 100, F.FARDECL)
    a = 3 if th else 2
    suite(R.DosBackend(tc, ("-doss",), "doss", False), C.Model(16), a)
    suite(R.DosBackend(tc, ("-dosh",), "dosh", False), C.Model(32), a if th else 1)
    suite(R.DosBackend(tc, ("-dosu",), "dosu", False), C.Model(32), a if th else 1)
    suite(R.DosBackend(tc, ("-dost",), "dost", False), C.Model(16), 0)
    chk.assumptions += ["DOSBox executes real-mode and unreal-mode code as a PC does", "wrap-around for signed overflow; undefined operand values are excluded"]
    chk.finish(evaluations=st.evals, distinct_nontrivial=st.funcs,
               rule="every element of each family is one compiled function, distinct by its source text and memory model, run on every tuple of a boundary-value grid",
               families=st.families, programs=st.batches, exhaustive=True, samples=st.samples)


if __name__ == "__main__":
    vlib.main("C02", "exploration", body)
