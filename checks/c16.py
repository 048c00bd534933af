"""C16 LDL' factorization decides positive definiteness exactly"""
from . import ldlt_common as ld
from sa.lib import anchor, arr, snapshot, symmat


def make(n, how, hist, mat=None):
    def sc(run, I):
        m = ld.new_mgr(run, I, n, hist)
        A = arr(mat, "i") if mat else symmat("A", n)
        before = snapshot(A)
        out = ld.factor_by(run, I, m, A, how)
        got = ld.judge_verdict(run, I, m, out, n, "A")
        if got is not None:
            ld.judge_sqrt(run, I, m, got, n, "A")
        run.obligation("matrix untouched", snapshot(A) == before, "the matrix handed in is modified")
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    for n, how, hist in ld.tasks(ctx):
        ctx.explore("n=%d/%s%s" % (n, how, "".join("/after " + h for h in hist)), make(n, how, hist),
                    ld.late(ctx, hist, ld.sampler(ld.specs(n, hist))), ld.MODS, ints=ld.COUNTERS, optional=bool(hist) and hist[0].startswith("many"),
                    npoints=200 if ctx.thorough else 80)
    for n, how, k in ld.whole_tasks():
        ctx.explore("n=%d/%s/integers %d" % (n, how, k), make(n, how, (), ld.whole(n, k)), ld.whole_sampler(n, k), ld.MODS,
                    valid=ld.whole_valid(n, k), npoints=3)
    ctx.flush()
    ctx.floor("tasks", 20, len(ctx.tasks))
    ctx.floor("partitions", 100, ctx.partitions())
