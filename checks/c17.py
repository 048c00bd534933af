"""C17 a failed factorization yields a checkable certificate"""
from . import ldlt_common as ld
from sa.lib import anchor, arr, snapshot, symmat


def make(n, how, hist, mat=None):
    def sc(run, I):
        m = ld.new_mgr(run, I, n, hist)
        A = arr(mat, "i") if mat else symmat("A", n)
        out = ld.factor_by(run, I, m, A, how)
        if out.kind != "ret":
            run.each_point("factorization", lambda p: "factorization raises %s" % out.exc)
            return
        got = I.truth(out.value)
        ld.judge_witness(run, I, m, got, n, "A", "M")
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    semi = "factor_with_allow_semidefinite"
    for n, how, hist in ld.tasks(ctx, [(3, semi, ()), (2, semi, ("factorize",)), (4, semi, ())]):
        ctx.explore("n=%d/%s%s" % (n, how, "".join("/after " + h for h in hist)), make(n, how, hist),
                    ld.late(ctx, hist, ld.general("M", n)(ld.sampler(ld.specs(n, hist)))), ld.MODS, ints=ld.COUNTERS, optional=bool(hist) and hist[0].startswith("many"),
                    npoints=200 if ctx.thorough else 80)
    for n, how, k in ld.whole_tasks():
        ctx.explore("n=%d/%s/integers %d" % (n, how, k), make(n, how, (), ld.whole(n, k)), ld.whole_sampler(n, k), ld.MODS,
                    valid=ld.whole_valid(n, k), npoints=3)
    ctx.flush()
    ctx.floor("tasks", 20, len(ctx.tasks))
    ctx.floor("partitions", 100, ctx.partitions())
