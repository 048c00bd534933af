"""C23 robust and discrete profit oracles"""
import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import Arr, Stop
from sa.lib import COUNTERS, Out, anchor, close, closes, constants, counter_vals, ev, fmt, outcome, sg, snapshot, vec, widen_counters
from sa.terms import UNDEF

from . import profit_common as pc

KEY = "offset-sign"
EN = ["e1", "e2", "e3", "e4", "e5"]


# ---------------------------------------------------------------- robust variant
def rb_data(v, x):
    s = lambda i: -1 if sg(x[i]) > 0 else 1
    return dict(pA=(v["p"] - v["e3"]) * v["A"], k=v["k"] - v["e4"],
                a=[v["a0"] + s(0) * v["e1"], v["a1"] + s(1) * v["e2"]], v=[v["v0"] + v["e5"], v["v1"] + v["e5"]])


def rb_make(n, how=""):
    def sc(run, I):
        el, pr = vec("a", 2), vec("v", 2)
        before = snapshot([el, pr])
        mk = lambda: I.call(anchor(I, pc.PR, "ProfitRbOracle"), [pc.params(), el, pr, tuple(tm.atom(e) for e in EN)])
        if how == "late":
            o, c = widen_counters(I, run, mk, lambda o, k: outcome(I, I.getattr_(o, "assess_optim"), [vec("x", 2), tm.atom("gam0")]))
            if not c:
                raise Stop("no call counters")
        else:
            o = mk()
        buf = vec("x", 2)
        for t in range(n):
            x, g = "xyz"[t], "gam%d" % t
            xv = vec(x, 2)
            if how == "inplace":
                buf.data[...] = xv.data
                xv = buf
            out = outcome(I, I.getattr_(o, "assess_optim"), [xv, tm.atom(g)])

            def f(p):
                v = p.vals
                xx = [v[x + "0"], v[x + "1"]]
                r = pc.Ref(rb_data(v, xx), xx, v[g])
                if out.kind != "ret":
                    return "call %d raises %s" % (t + 1, out.exc)
                return pc.judge_optim(p, r, out.value, "call %d: " % (t + 1))

            if not run.each_point("worst case of the parameter intervals", f):
                return
        run.obligation("problem data untouched", snapshot([el, pr]) == before, "the caller's arrays are modified")
        run.ex.last_path = list(run.path)

    return sc


def rb_sampler(n):
    def extra(rng, i, d, q):
        d.update(e1=q(0, 0.05), e2=q(0, 0.05), e3=q(0, 0.5), e4=q(0, 1), e5=q(0, 0.5))

    base = pc.sampler("xyz"[:n], ["gam%d" % t for t in range(n)], extra)

    def f(rng, i):
        d = base(rng, i)
        for t in range(n):
            for c in "01":
                if rng.random() < 0.3:
                    d["xyz"[t] + c] = mpf(rng.randrange(-1500, 500)) / 1000
                if rng.random() < 0.05:
                    d["xyz"[t] + c] = mpf(0)
        return d

    return f


def rb_valid(n):
    xs, gs = "xyz"[:n], ["gam%d" % t for t in range(n)]

    def extra(p):
        v = p.vals
        if any(v[e] < 0 for e in EN) or v["p"] <= v["e3"] or v["k"] <= v["e4"] or v["e1"] >= v["a0"] or v["e2"] >= v["a1"]:
            return False
        return all(pc.Ref(rb_data(v, [v[x + "0"], v[x + "1"]]), [v[x + "0"], v[x + "1"]], v[g]).ok for x, g in zip(xs, gs))

    return pc.valid_for(xs, gs, extra)


# ---------------------------------------------------------------- discrete variant
def rnd(y):
    f = mp.floor(y)
    d = y - f
    if d == mpf(1) / 2:
        r = f if int(f) % 2 == 0 else f + 1
    else:
        r = f if d < mpf(1) / 2 else f + 1
    return r or mpf(1)


def q_make(retries, how=""):
    def sc(run, I):
        mk = lambda: I.call(anchor(I, pc.PR, "ProfitQOracle"), [pc.params(), vec("a", 2), vec("v", 2)])
        if how == "late":
            o, c = widen_counters(I, run, mk, lambda o, k: outcome(I, I.getattr_(o, "assess_optim_q"), [vec("x", 2), tm.atom("gam0"), False]))
            if not c:
                raise Stop("no call counters")
        else:
            o = mk()
        outs = []
        kept = []
        buf = vec("x", 2)
        for t, retry in enumerate(retries):
            x, g = "xyz"[t], "gam%d" % t
            xv = vec(x, 2)
            if how == "inplace":
                buf.data[...] = xv.data
                xv = buf
            out = outcome(I, I.getattr_(o, "assess_optim_q"), [xv, tm.atom(g), retry])
            if out.kind == "ret" and isinstance(out.value, (tuple, list)) and len(out.value) == 4 and isinstance(out.value[1], Arr) \
                    and np.shares_memory(out.value[1].data, buf.data):
                v = list(out.value)      # the caller's own array: keep what it held
                v[1] = Arr(out.value[1].data.copy(), buf.dt)
                out = Out("ret", tuple(v))
            outs.append(out)
            if out.kind == "ret" and isinstance(out.value, (tuple, list)) and len(out.value) == 4 and isinstance(out.value[1], Arr):
                kept.append((out.value[1], snapshot(out.value[1])))

        def walk(p, listed):
            v = p.vals
            xd = [mpf(0), mpf(0)]
            for t, retry in enumerate(retries):
                w = "call %d: " % (t + 1)
                xx, gam = [v["xyz"[t] + c] for c in "01"], v["gam%d" % t]
                D = pc.data(v)
                r = pc.Ref(D, xx, gam)
                if not retry and not r.cuts():
                    y = [mp.exp(c) for c in xx]
                    if any(abs(c - mp.floor(c) - mpf(1) / 2) < mpf(10) ** -40 for c in y):
                        return None                      # tie: either neighbour is nearest
                    xd = [mp.log(rnd(c)) for c in y]
                r2 = pc.Ref(D, xd, gam)
                if not r2.ok:
                    return None                          # level so low that its logarithm does not exist
                out = outs[t]
                if out.kind != "ret" or not isinstance(out.value, (tuple, list)) or len(out.value) != 4:
                    return None if listed else w + "assess_optim_q %r" % (out,)
                cut, xr, gn, more = out.value
                if not retry and r.cuts():
                    if listed:
                        continue
                    bad = pc.judge_feas(p, r, cut, w)
                    if bad:
                        return bad
                    if gn is not None:
                        return w + "value reported for an infeasible point"
                    if not (isinstance(xr, Arr) and closes([ev(p, c) for c in xr.data.flat], xx, 1)):
                        return w + "evaluation point is not the point asked about"
                    if more is not True:
                        return w + "no alternative offered after a feasibility cut"
                    continue
                if not listed:
                    if not (isinstance(xr, Arr) and closes([ev(p, c) for c in xr.data.flat], xd, 1)):
                        return w + "evaluation point %s, expected the rounded point %s" % (
                            fmt([ev(p, c) for c in xr.data.flat]) if isinstance(xr, Arr) else xr, fmt(xd))
                    if more is not (not retry):
                        return w + "alternative flag is %r" % (more,)
                got = pc.cut_at(p, cut)
                if got is None:
                    return None if listed else w + "cut is %r" % (cut,)
                off = sum(got[0][i] * (xx[i] - xd[i]) for i in (0, 1))
                base = (got[0], got[1] - off)
                flip = (got[0], got[1] + off)
                res, res_f = [judge(p, r2, b, gn, w) for b in (base, flip)]
                if listed:
                    if res and not res_f:
                        return w + "offset moved to the wrong side of the point asked about"
                elif res and res_f:
                    return res

        run.each_point("discrete profit oracle", lambda p: walk(p, False))
        run.each_point("discrete profit oracle", lambda p: walk(p, True), key=KEY)
        for a, s in kept:
            run.obligation("evaluation points stay put", snapshot(a) == s, "an evaluation point handed out earlier changes")
        run.ex.last_path = list(run.path)

    return sc


def judge(p, r, cut, gn, w):
    """cut relative to the rounded point: (gradient, beta) values"""
    bad = r.cuts()
    if gn is None:
        if not bad:
            return w + "feasible rounded point not reported as an improvement"
        if not any(pc.same_cut(cut, b) for b in bad):
            return w + "cut (%s, %s) at the rounded point is not a violated constraint" % (fmt(cut[0]), fmt(cut[1]))
        return None
    if bad:
        return w + "value although the rounded point violates the %s constraint" % bad[0][0]
    want = r.cobb - r.vy
    if not close(ev(p, gn), want, r.cobb):
        return w + "value %s, the profit of the rounded point is %s" % (fmt(ev(p, gn)), fmt(want))
    if not pc.same_cut(cut, ("", r.grad(want), mpf(0))):
        return w + "optimality cut (%s, %s), expected (%s, 0) at the rounded point" % (fmt(cut[0]), fmt(cut[1]), fmt(r.grad(want)))


def q_sampler(n):
    base = pc.sampler("xyz"[:n], ["gam%d" % t for t in range(n)])

    def f(rng, i):
        d = base(rng, i)
        for t in range(n):
            if rng.random() < 0.15:
                d["xyz"[t] + rng.choice("01")] = mp.log(mpf(rng.randrange(1, 900)) / 1000)
            if rng.random() < 0.5:
                D = pc.data(d)
                xx = [d["xyz"[t] + c] for c in "01"]
                r = pc.Ref(D, [mp.log(rnd(mp.exp(c))) for c in xx], mpf(0))
                d["gam%d" % t] = (r.cobb - r.vy) - abs(r.cobb - r.vy) * mpf(rng.randrange(0, 300)) / 1000
        return d

    return f


def run(ctx):
    consts = constants(ctx.src, pc.MODS)

    def late(how, smp):
        def f(rng, i):
            d = smp(rng, i)
            counter_vals(rng, consts, d)
            return d

        return f if how == "late" else smp

    for n, how in [(1, ""), (2, ""), (2, "inplace"), (1, "late")] + ([(3, "")] if ctx.thorough else []):
        ctx.explore("robust/%d calls%s" % (n, "/" + how if how else ""), rb_make(n, how), late(how, rb_sampler(n)), pc.MODS, valid=rb_valid(n),
                    npoints=(500 if ctx.thorough else 250) * n, max_partitions=6000, ints=COUNTERS, optional=how == "late")
    F, T = False, True
    for plan, how in [([F], ""), ([F, T], ""), ([F, F], ""), ([T], ""), ([F, T, F], ""), ([F, T], "inplace"), ([F, F], "inplace"), ([F], "late")]:
        n = len(plan)
        xs, gs = "xyz"[:n], ["gam%d" % t for t in range(n)]
        ctx.explore("discrete/%s%s" % ("".join("T" if r else "F" for r in plan), "/" + how if how else ""), q_make(plan, how),
                    late(how, q_sampler(n)), pc.MODS, valid=pc.valid_for(xs, gs), npoints=(400 if ctx.thorough else 120) * n,
                    max_partitions=6000, ints=COUNTERS, optional=how == "late")
    ctx.flush()
    ctx.floor("tasks", 10, len(ctx.tasks))
    ctx.floor("partitions", 60, ctx.partitions())
