"""C10 the alternative formulations of the core calculator agree"""
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import Unmodelled
from sa.lib import anchor, close, ev, fmt, outcome, sg

from . import calc_common as cc

A = tm.atom


def forms():
    n, tau, b0, b1 = A("n"), A("tau"), A("b0"), A("b1")
    tsq = tm.mul(tau, tau)
    b0b1 = tm.mul(b0, b1)
    eta2 = tm.add(tsq, tm.mul(n, b0b1))
    eta1 = tm.add(tau, tm.mul(n, b0))
    single = lambda v: cc.r_single(v["n"], v["b0"], v["tau"] ** 2)
    central = lambda v: cc.r_single(v["n"], mpf(0), v["tau"] ** 2)
    par = lambda v: cc.r_parallel(v["n"], v["b0"], v["b1"], v["tau"] ** 2)
    par0 = lambda v: cc.r_parallel(v["n"], mpf(0), v["b1"], v["tau"] ** 2)
    ok1 = lambda v: sg(v["b0"], v["tau"]) <= 0 and sg(v["tau"], -v["n"] * v["b0"]) > 0
    okp = lambda v: (sg(abs(v["b0"]), v["tau"]) <= 0 and sg(abs(v["b1"]), v["tau"]) <= 0
                     and sg(v["tau"] ** 2, -v["n"] * v["b0"] * v["b1"]) > 0)
    ok2 = lambda v: okp(v) and sg(v["b0"], -v["b1"]) != 0
    okold = lambda v: okp(v) and sg(v["b0"], v["b1"]) != 0 and sg(abs(v["b1"]), v["tau"]) < 0 \
        and sg(abs(v["b0"]), v["tau"]) < 0
    okc = lambda v: 0 <= sg(v["b1"]) and sg(v["b1"], v["tau"]) <= 0
    okco = lambda v: 0 < sg(v["b1"]) and sg(v["b1"], v["tau"]) <= 0
    return {
        "calc_central_cut": ([tau], central, lambda v: True),
        "calc_bias_cut": ([b0, tau], single, ok1),
        "calc_bias_cut_fast": ([b0, tau, eta1], single, ok1),
        "calc_parallel_central_cut": ([b1, tsq], par0, okc),
        "calc_parallel_central_cut_old": ([b1, tsq], par0, okco),
        "calc_parallel_bias_cut": ([b0, b1, tsq], par, okp),
        "calc_parallel_bias_cut_fast": ([b0, b1, tsq, b0b1, eta2], par, okp),
        "calc_parallel_bias_cut_fast2": ([b0, b1, tsq, b0b1, eta2], par, ok2),
        "calc_parallel_bias_cut_old": ([b0, b1, tsq], par, ok2),
        "calc_parallel_bias_cut_fast_old": ([b0, b1, tsq, b0b1, eta2], par, okold),
    }


def sampler(rng, i):
    d = cc.sampler(rng, i)
    d["tau"] = mp.sqrt(d.pop("tsq"))
    if i % 7 == 3:
        d["b0"] = mpf(0)
    if i % 7 == 5:
        d["b1"] = d["tau"]
    return d


def valid(p):
    v = p.vals
    return v["n"] >= 2 and v["n"] == mp.nint(v["n"]) and v["n"] < 10**7 and v["tau"] > 0


def run(ctx):
    have = 0
    for name, (args, ref, ok) in forms().items():
        have += 1

        def sc(run, I, name=name, args=args, ref=ref, ok=ok, dim=None):
            core = anchor(I, "ellalgo.ell_calc_core", "EllCalcCore")
            if dim:
                run.assume(tm.eq(A("n"), tm.const(dim)))
            c = I.call(core, [dim or A("n")])
            out = outcome(I, anchor_method(I, c, name), args)

            def f(p):
                if not ok(p.vals):
                    return None
                want = ref(p.vals)
                if out.kind != "ret":
                    return "%s raises %s" % (name, out.exc)
                if not isinstance(out.value, (tuple, list)) or len(out.value) != 3:
                    return "%s returns %r" % (name, out.value)
                for nm, g, w in zip(("rho", "sigma", "delta"), out.value, want):
                    g = ev(p, g)
                    if not close(g, w, 0 if w else p.vals["tau"]):
                        return "%s: %s = %s, its siblings give %s" % (name, nm, fmt(g), fmt(w))

            run.each_point("sibling formulations agree", f)
            run.ex.last_path = list(run.path)

        ctx.explore(name, sc, sampler, cc.MODS, valid=valid, npoints=400 if ctx.thorough else 120, ints=("n",),
                    fallback=[("%s/n=%d" % (name, d), lambda r, I, d=d, sc=sc: sc(r, I, dim=d)) for d in (2, 3, 4, 7)])
    ctx.floor("formulations", 10, have)


def anchor_method(I, c, name):
    from sa.interp import AbsRaise

    try:
        return I.getattr_(c, name)
    except AbsRaise:
        raise Unmodelled("EllCalcCore.%s is gone" % name)
