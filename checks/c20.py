"""C20 low-pass feasibility: nothing is missed, every cut is a violated requirement"""
from fractions import Fraction

from mpmath import mpf

from sa.lib import anchor, arr, outcome, snapshot, vec

from . import lowpass_common as lc


def judge(run, out, sp, L):
    def f(p):
        bad = sp.violated([p.vals["x%d" % i] for i in range(sp.n)], *lc.lv_at(p, L))
        if out.kind != "ret":
            return "assess_feas raises %s" % out.exc
        if out.value is None:
            return "accepts coefficients violating %s at grid point %d" % (bad[0][1], bad[0][0]) if bad else None
        got = lc.cut_values(p, out.value)
        if isinstance(got, str):
            return got
        if not any(lc.matches(got, b) for b in bad):
            return "cut (%s, %s) is not one of the %d violated requirements" % (lc.fmt(got[0]), lc.fmt(got[1]), len(bad))

    return run.each_point("low-pass requirements", f)


def make(sp, L=None, prior=(), case=False, how=""):
    def sc(run, I):
        if how == "late":
            o = lc.late_oracle(run, I, sp, L, "assess_feas")
        else:
            o = I.call(anchor(I, lc.LP, "create_lowpass_case"), [sp.n]) if case else lc.make_oracle(I, sp, L)
        x = vec("x", sp.n)
        for h in prior:
            h = arr([Fraction(v) for v in h])
            if how == "inplace":     # the caller reuses one array for its coefficients
                x.data[...] = h.data
                h = x
            outcome(I, I.getattr_(o, "assess_feas"), [h])
        x.data[...] = vec("x", sp.n).data
        before = snapshot(x)
        out = outcome(I, I.getattr_(o, "assess_feas"), [x])
        judge(run, out, sp, L)
        run.obligation("coefficients untouched", snapshot(x) == before, "the coefficient vector is modified")
        run.ex.last_path = list(run.path)

    return sc


def wide(n, L, case=None):
    """a long filter at concrete coefficients, each question to an oracle used before"""
    def sc(run, I):
        sp = lc.Spec(n, "0.12", "0.2")
        mk = anchor(I, lc.LP, "create_lowpass_case")
        o = lc.make_oracle(I, sp, L) if case is None else I.call(mk, case)
        for k, x in lc.wide_points(sp, L):
            out = outcome(I, I.getattr_(o, "assess_feas"), [arr(x)])
            v = [mpf(c.numerator) / c.denominator for c in x]
            bad = sp.violated(v, *lc.nums(L))

            def f(p, out=out, bad=bad, k=k):
                if out.kind != "ret":
                    return "assess_feas raises %s" % out.exc
                if out.value is None:
                    return "accepts coefficients violating %s at grid point %d" % (bad[0][1], bad[0][0]) if bad else None
                got = lc.cut_values(p, out.value)
                if isinstance(got, str):
                    return got
                if not any(lc.matches(got, b) for b in bad):
                    return "%d taps: the cut for a response out of bounds at grid point %d is not one of the %d violated requirements" % (n, k, len(bad))

            run.each_point("low-pass requirements", f)
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    S = [lc.Spec(3, "0.12", "0.2"), lc.Spec(3, "0.5", "0.5"), lc.Spec(2, "0.3", "0.6"), lc.Spec(4, "0.1", "0.25")]
    for sp in S:
        ctx.explore("ndim=%d/%s/%s/fresh" % (sp.n, sp.wpass, sp.wstop), make(sp), lc.sampler(sp), lc.MODS,
                    valid=lc.valid, npoints=(12 if ctx.thorough else 6) * sp.m, max_depth=1000, hunting=sp.n < 4 or ctx.thorough)
    for sp in S[:1] + S[2:3] + (S[3:] if ctx.thorough else []):
        for L in lc.SETS[:2]:
            for k, sign, x in lc.history_points(sp, L):
                how = "inplace" if k % 2 else ""
                ctx.explore("ndim=%d/%s/%s/levels %s/after a query with extremum at %d%+d%s" % (
                    sp.n, sp.wpass, sp.wstop, ",".join(L), k, sign, " in the same array" if how else ""),
                    make(sp, L, [x], how=how), lc.sampler(sp, L), lc.MODS, valid=lc.valid,
                    npoints=(6 if ctx.thorough else 3) * sp.m, max_depth=1000, hunting=ctx.thorough)
    # the shipped standard case: ripple 2.5 %, attenuation 1/8, edges 0.12 and 0.20
    sp = lc.Spec(3, "0.12", "0.2")
    ctx.explore("standard case", make(sp, ("1600/1681", "1681/1600", "1/64"), case=True), lc.sampler(sp, ("1600/1681", "1681/1600", "1/64")),
                lc.MODS, valid=lc.valid, npoints=3 * sp.m, max_depth=1000, hunting=False)
    # no stop band and a negative lower level: the leading coefficient is a requirement of its own
    sp = lc.Spec(2, "1", "1")
    ctx.explore("ndim=2/1/1/negative lower level", make(sp), lc.lead_sampler(sp), lc.MODS, valid=lc.valid, npoints=60, max_depth=1000)
    sp, L = lc.Spec(3, "1", "1"), ("-2", "3/2", "1")
    ctx.explore("ndim=3/1/1/levels %s" % ",".join(L), make(sp, L), lc.lead_sampler(sp, L), lc.MODS, valid=lc.valid, npoints=60, max_depth=1000)
    sp, L = lc.Spec(2, "0.3", "0.6"), lc.SETS[2]
    ctx.explore("ndim=2/late", make(sp, L, how="late"), lc.late_sampler(ctx, lc.sampler(sp, L)), lc.MODS, valid=lc.valid, npoints=60,
                max_depth=1000, hunting=False, ints=lc.COUNTERS, optional=True)
    std = ("1600/1681", "1681/1600", "1/64")
    ctx.explore("standard case/48 taps by default", wide(48, std, []), lambda rng, i: {}, lc.MODS, npoints=1, max_depth=10**6, hunting=False)
    for n in lc.wide_dims(ctx):
        ctx.explore("%d taps" % n, wide(n, lc.SETS[0]), lambda rng, i: {}, lc.MODS, npoints=1, max_depth=10**6, hunting=False)
    ctx.flush()
    ctx.floor("tasks", 20, len(ctx.tasks))
