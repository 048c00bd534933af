"""C21 low-pass optimality: the stopband peak is the objective"""
from fractions import Fraction

from mpmath import mpf

from sa import terms as tm
from sa.interp import Arr
from sa.lib import anchor, arr, close, closes, ev, fmt, outcome, sg, vec

from . import lowpass_common as lc


def judge(run, out, sp, L, fixed=None):
    def f(p):
        at = dict(p.vals, gam=lc.nums(L)[2], **fixed) if fixed else p.vals
        lp, up, _ = lc.lv_at(p, L)
        gam = at["gam"]
        x = [at["x%d" % i] for i in range(sp.n)]
        bad = sp.violated(x, lp, up, gam)
        if out.kind != "ret":
            return "assess_optim raises %s" % out.exc
        if not isinstance(out.value, (tuple, list)) or len(out.value) != 2:
            return "assess_optim returns %r" % (out.value,)
        cut, val = out.value
        got = lc.cut_values(p, cut)
        if isinstance(got, str):
            return got
        if bad:
            if val is not None:
                return "reports value %s although %s is violated at grid point %d" % (fmt(ev(p, val)), bad[0][1], bad[0][0])
            if not any(lc.matches(got, b) for b in bad):
                return "cut (%s, %s) is not a violated requirement at level %s" % (fmt(got[0]), fmt(got[1]), fmt(gam))
            return None
        if val is None:
            return "feasible coefficients are not reported as an improvement"
        peak = max(sp.resp(i, x) for i in range(sp.nstop, sp.m))
        v = ev(p, val)
        if not close(v, peak, max(abs(c) for c in x)):
            return "value %s, but the stopband peak is %s" % (fmt(v), fmt(peak))
        rows = [sp.rows[i] for i in range(sp.nstop, sp.m) if close(sp.resp(i, x), peak, max(abs(c) for c in x))]
        if not any(closes(got[0], r, 1) for r in rows):
            return "the cut is not taken at the frequency of the stopband peak"
        if not closes(got[1], (0, peak), max(abs(c) for c in x)):
            return "offsets %s, expected (0, %s)" % (fmt(got[1]), fmt(peak))

    return run.each_point("stopband peak", f)


def make(sp, L=None, prior=(), how=""):
    def sc(run, I):
        o = lc.late_oracle(run, I, sp, L, "assess_optim") if how == "late" else lc.make_oracle(I, sp, L)
        x = vec("x", sp.n)
        for h, g in prior:
            h = arr([Fraction(v) for v in h])
            if how == "inplace":     # the caller reuses one array for its coefficients
                x.data[...] = h.data
                h = x
            if g is None:
                outcome(I, I.getattr_(o, "assess_feas"), [h])
            else:
                outcome(I, I.getattr_(o, "assess_optim"), [h, tm.const(Fraction(g))])
        x.data[...] = vec("x", sp.n).data
        out = outcome(I, I.getattr_(o, "assess_optim"), [x, tm.atom("gam")])
        judge(run, out, sp, L)
        run.ex.last_path = list(run.path)

    return sc


def sampler(sp, L=None):
    base = lc.sampler(sp, L)

    def f(rng, i):
        d = base(rng, i)
        st = lc.nums(L)[2] if L else d["sp"]
        d["gam"] = st if i % 2 else rng.choice([st, st * 3, st / 2, lc.mpf(rng.randrange(1, 3000)) / 1000])
        if i % 9 == 4:      # no response reaches such a level
            d["gam"] = rng.choice([mpf(0), -mpf(1) / 10, mpf(-1)])
        if not L:
            d["sp"] = rng.choice([d["sp"], lc.mpf(1) / 7, lc.mpf(5)])
        return d

    return f


def valid(p):
    return lc.valid(p)


def wide(n, L):
    """a long filter at concrete coefficients: the peak at every kind of grid point, and its violation"""
    def sc(run, I):
        sp = lc.Spec(n, "0.12", "0.2")
        o = lc.make_oracle(I, sp, L)
        for only in (True, False):
            for k, x in lc.wide_points(sp, L, only):
                out = outcome(I, I.getattr_(o, "assess_optim"), [arr(x), tm.const(Fraction(L[2]))])
                judge(run, out, sp, L, dict(("x%d" % i, mpf(c.numerator) / c.denominator) for i, c in enumerate(x)))
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    S = [lc.Spec(3, "0.12", "0.2"), lc.Spec(2, "0.3", "0.6"), lc.Spec(3, "0.5", "0.5"), lc.Spec(4, "0.1", "0.25")]
    for sp in S[:3] + (S[3:] if ctx.thorough else []):
        ctx.explore("ndim=%d/%s/%s/fresh" % (sp.n, sp.wpass, sp.wstop), make(sp), sampler(sp), lc.MODS,
                    valid=valid, npoints=(12 if ctx.thorough else 6) * sp.m, max_depth=1000, hunting=sp.n == 2 or ctx.thorough)
    for sp in S[:2] + (S[3:] if ctx.thorough else []):
        for L in lc.SETS[:2]:
            hs = lc.history_points(sp, L)
            ok = [str(Fraction(L[2]) / 2 + Fraction(1, 8))] + ["1/50"] * (sp.n - 1)
            pri = [((x, g),) for _, _, x in hs[::2 if ctx.thorough else 3] for g in (L[2],)] + [((ok, "2"),), ((ok, "2"), (ok, "1/100"))]
            pri += [((ok, "2"), (x, L[2])) for _, _, x in hs[1::7]]
            pri += [((ok, None),), ((ok, "2"), (hs[0][2], None))]
            for k, pr in enumerate(pri):
                how = "inplace" if k % 2 else ""
                ctx.explore("ndim=%d/%s/%s/levels %s/after history %d%s" % (sp.n, sp.wpass, sp.wstop, ",".join(L), k,
                                                                            " in the same array" if how else ""),
                            make(sp, L, pr, how), sampler(sp, L), lc.MODS, valid=valid,
                            npoints=(6 if ctx.thorough else 3) * sp.m, max_depth=1000, hunting=False)
    sp, L = lc.Spec(2, "0.3", "0.6"), lc.SETS[2]
    ctx.explore("ndim=2/late", make(sp, L, how="late"), lc.late_sampler(ctx, sampler(sp, L)), lc.MODS, valid=valid, npoints=60,
                max_depth=1000, hunting=False, ints=lc.COUNTERS, optional=True)
    for n in lc.wide_dims(ctx):
        ctx.explore("%d taps" % n, wide(n, lc.SETS[0]), lambda rng, i: {}, lc.MODS, npoints=1, max_depth=10**6, hunting=False)
    ctx.flush()
    ctx.floor("tasks", 15, len(ctx.tasks))
