"""C22 profit oracle: both constraints, current gradients, from any earlier use"""
from sa import terms as tm
from sa.interp import Stop
from sa.lib import COUNTERS, anchor, constants, counter_vals, outcome, snapshot, vec, widen_counters

from . import profit_common as pc


def make(calls, how=""):
    """calls: list of method names; every call is judged. how: "inplace" the caller
    reuses one array for the points, "late" after arbitrarily many earlier calls"""

    def sc(run, I):
        el, pr = vec("a", 2), vec("v", 2)
        mk = lambda: I.call(anchor(I, pc.PR, "ProfitOracle"), [pc.params(), el, pr])
        if how == "late":
            o, n = widen_counters(I, run, mk, lambda o, k: outcome(I, I.getattr_(o, "assess_optim"), [vec("x", 2), tm.atom("gam0")]))
            if not n:
                raise Stop("no call counters")
        else:
            o = mk()
        before = snapshot([el, pr])
        buf = vec("x", 2)
        for t, meth in enumerate(calls):
            x, g = "xyz"[t], "gam%d" % t
            xv = vec(x, 2)
            if how == "inplace":
                buf.data[...] = xv.data
                xv = buf
            out = outcome(I, I.getattr_(o, meth), [xv, tm.atom(g)])

            def f(p):
                if out.kind != "ret":
                    return "%s raises %s" % (meth, out.exc)
                r = pc.ref_at(p, x, g)
                w = "call %d: " % (t + 1)
                return pc.judge_feas(p, r, out.value, w) if meth == "assess_feas" else pc.judge_optim(p, r, out.value, w)

            if not run.each_point("profit oracle", f):
                return
        run.obligation("problem data untouched", snapshot([el, pr]) == before, "the caller's arrays are modified")
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    F, O = "assess_feas", "assess_optim"
    consts = constants(ctx.src, pc.MODS)
    for calls, how in [([O], ""), ([F], ""), ([O, O], ""), ([F, O], ""), ([O, F], ""), ([O, O, O], ""), ([F, F, O], ""),
                       ([O, O], "inplace"), ([F, O], "inplace"), ([O], "late"), ([F], "late")]:
        n = len(calls)
        xs, gs = "xyz"[:n], ["gam%d" % t for t in range(n)]
        smp = pc.sampler(xs, gs)

        def late(rng, i, smp=smp):
            d = smp(rng, i)
            counter_vals(rng, consts, d)
            return d

        ctx.explore(" then ".join(calls) + ("/" + how if how else ""), make(calls, how), late if how == "late" else smp, pc.MODS,
                    valid=pc.valid_for(xs, gs), npoints=(400 if ctx.thorough else 120) * n, max_partitions=4000,
                    ints=COUNTERS, optional=how == "late")
    ctx.flush()
    ctx.floor("tasks", 7, len(ctx.tasks))
    ctx.floor("partitions", 40, ctx.partitions())
