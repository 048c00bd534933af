"""C19 the semidefinite variant of the factorization"""
from . import ldlt_common as ld
from sa.lib import anchor, arr, symmat

KEY = "restart-drops-coupling"


def make(n, hist, mat=None):
    def sc(run, I):
        m = ld.new_mgr(run, I, n, hist)
        A = arr(mat, "i") if mat else symmat("A", n)
        out = ld.factor_by(run, I, m, A, "factor_with_allow_semidefinite")
        if out.kind != "ret":
            run.each_point("semidefinite verdict", lambda p: "factorization raises %s" % out.exc)
            return
        got = I.truth(out.value)
        spd = I.truth(I.call(I.getattr_(m, "is_spd"), []))

        def known(p):
            A = ld.sym_at(p, "A", n)
            acc, dropped = ld.restart_accepts(A)
            return acc and dropped

        def f(p, listed):
            w = ld.is_psd(ld.sym_at(p, "A", n))
            if got and not w and known(p) is listed:
                return "accepts a matrix that is not positive semidefinite"
            if not listed:
                if not got and w:
                    return "rejects a positive semidefinite matrix"
                if spd != got:
                    return "is_spd() is %s after verdict %s" % (spd, got)

        fine = run.each_point("semidefinite verdict", lambda p: f(p, False))
        run.each_point("semidefinite verdict", lambda p: f(p, True), key=KEY)
        if fine and not got:
            # the reported block carries a vector with v'Av = -ep < 0
            ld.judge_witness(run, I, m, got, n, "A", "M", rule="certificate of refusal", strict=True)
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    semi = "factor_with_allow_semidefinite"
    dims = sorted(ld.loop_dims(ctx.src, ld.MODS, 7, 14))
    for n, hist in [(1, ()), (2, ()), (3, ()), (4, ()), (5, ()), (6, ()), (2, ("factorize",)), (3, ("factor",)), (2, (semi,)),
                    (3, (semi,)), (2, ("many ok",)), (3, ("many failed",))] + [(n, ()) for n in dims] \
            + ([(8, ()), (4, (semi,))] if ctx.thorough else []):
        ctx.explore("n=%d%s" % (n, "".join("/after " + h for h in hist)), make(n, hist),
                    ld.late(ctx, hist, ld.general("M", n)(ld.sampler(ld.specs(n, hist), True))), ld.MODS, ints=ld.COUNTERS, optional=bool(hist) and hist[0].startswith("many"),
                    npoints=300 if ctx.thorough else 120)
    for n, _, k in ld.whole_tasks():
        ctx.explore("n=%d/integers %d" % (n, k), make(n, (), ld.whole(n, k)), ld.whole_sampler(n, k), ld.MODS,
                    valid=ld.whole_valid(n, k), npoints=3)
    ctx.flush()
    ctx.floor("tasks", 12, len(ctx.tasks))
