"""C25 spectral factorization: autocorrelation, round trip and rejection"""
from fractions import Fraction

from mpmath import mp, mpf

from sa import lib, terms as tm
from sa.interp import Arr
from sa.lib import anchor, arr, close, closes, ev, fmt, outcome, sg, snapshot, vec
from sa.terms import UNDEF

SF = "ellalgo.oracles.spectral_fact"
MODS = (SF,)


def autoc(h):
    n = len(h)
    return [sum(h[i] * h[i + t] for i in range(n - t)) for t in range(n)]


def inv_make(n):
    def sc(run, I):
        h = vec("h", n)
        before = snapshot(h)
        out = outcome(I, anchor(I, SF, "inverse_spectral_fact"), [h])

        def f(p):
            if out.kind != "ret" or not isinstance(out.value, Arr) or out.value.data.shape != (n,):
                return "inverse_spectral_fact %r" % (out,)
            got = [ev(p, c) for c in out.value.data.flat]
            want = autoc([p.vals["h%d" % i] for i in range(n)])
            if not closes(got, want):
                return "autocorrelation %s, expected %s" % (fmt(got), fmt(want))

        run.each_point("autocorrelation", f)
        run.obligation("input untouched", snapshot(h) == before, "the impulse response is modified")
        run.ex.last_path = list(run.path)

    return sc


def inv_sampler(n):
    return lambda rng, i: {"h%d" % k: mpf(rng.randrange(-3000, 3000)) / 1000 for k in range(n)}


def marginal(p, out):
    """a minimum that counts as rounding noise: factored, with a response of numbers"""
    if out.kind != "ret" or not isinstance(out.value, Arr):
        return "marginal spectrum: %r" % (out,)
    if any(ev(p, c) is UNDEF for c in out.value.data.flat):
        return "marginal spectrum: the response is undefined"


def edge_make(v, ok):
    """a flat spectrum of exactly this value"""
    def sc(run, I):
        out = outcome(I, anchor(I, SF, "spectral_fact"), [arr([Fraction(v)])])
        run.each_point("noise limit", lambda p: marginal(p, out) if ok else None if out.kind == "raise" else "a spectrum with minimum %s is factored" % v)
        run.ex.last_path = list(run.path)

    return sc


def fact_make(n):
    """r is the autocorrelation of a minimum-phase h whose zeros are well inside
    the unit circle, so the sampled cepstrum is exact far beyond the tolerance"""

    def sc(run, I):
        r = vec("r", n)
        before = snapshot(r)
        out = outcome(I, anchor(I, SF, "spectral_fact"), [r])

        def f(p):
            rv = [p.vals["r%d" % k] for k in range(n)]
            if n == 1:
                if rv[0] > 0:
                    want = [mp.sqrt(rv[0])]
                elif rv[0] > mpf("-1e-4"):
                    return marginal(p, out)
                else:
                    return None if out.kind == "raise" else "a negative spectrum is factored"
            elif n > 2:
                want = [p.vals["w%d" % k] for k in range(n)]    # the sampled minimum-phase response
                if not closes(autoc(want), rv):
                    return None
            else:
                a = p.vals["r1"] / p.vals["r0"]
                low = p.vals["r0"] - 2 * abs(p.vals["r1"])      # the sampled minimum (at 0 or pi)
                if low <= mpf("-1e-4"):
                    return None if out.kind == "raise" else "a spectrum with minimum %s is factored" % fmt(low)
                if low <= 0:
                    return marginal(p, out)
                if abs(a) > mpf(1) / 2:
                    return None
                # h = (c, c*z), z the root of z^2 - z/a + 1 inside the circle
                z = (1 - mp.sqrt(1 - 4 * a * a)) / (2 * a) if a else mpf(0)
                if abs(z) > mpf("0.35"):
                    return None
                c = mp.sqrt(p.vals["r0"] / (1 + z * z))
                want = [c, c * z]
            if out.kind != "ret" or not isinstance(out.value, Arr) or out.value.data.shape != (n,):
                return "spectral_fact %r" % (out,)
            got = [ev(p, c) for c in out.value.data.flat]
            if UNDEF in got or max(abs(x - y) for x, y in zip(got, want)) > mpf(10) ** -25 * max(abs(x) for x in want):
                return "factor %s, expected %s" % (fmt(got), fmt(want))

        run.each_point("minimum-phase factor", f)
        run.obligation("input untouched", snapshot(r) == before, "the autocorrelation is modified")
        run.ex.last_path = list(run.path)

    return sc


def fact_sampler(n):
    def f(rng, i):
        if n == 1:
            return {"r0": rng.choice([mpf(rng.randrange(1, 5000)) / 1000, -mpf(rng.randrange(1, 5000)) / 1000, mpf("-1e-5"), mpf("1e-9"),
                                       mpf("-9.9e-5"), mpf("-1.01e-4"), mpf("-1e-4"), mpf(-3) / 2048, mpf(0), mpf("-2e-3"), mpf("-5e-4")])}
        if n > 2:
            w = [mpf(rng.randrange(100, 3000)) / 1000]
            for _ in range(n - 1):
                z = mpf(rng.randrange(-300, 300)) / 1000
                w = [a + z * b for a, b in zip(w + [mpf(0)], [mpf(0)] + w)]
            d = {"w%d" % k: w[k] for k in range(n)}
            d.update({"r%d" % k: v for k, v in enumerate(autoc(w))})
            return d
        z = mpf(rng.randrange(-300, 300)) / 1000
        c = mpf(rng.randrange(100, 3000)) / 1000
        r = autoc([c, c * z])
        if i % 4 == 3:
            m = rng.choice([mpf(rng.randrange(10, 2000)) / 1000, mpf("6e-5"), mpf("3e-5"), mpf("1e-6"), mpf("2e-4"), mpf("5.1e-5"), mpf("4.9e-5"),
                            mpf("1e-3")])
            r[1] = (r[0] / 2 + m) * rng.choice([1, -1])
        return {"r0": r[0], "r1": r[1]}

    return f


def reject_make(kind):
    def sc(run, I):
        v = {"empty": arr([]), "nan": arr([tm.atom("r0"), tm.const(float("nan"))]), "inf": arr([tm.atom("r0"), tm.const(float("inf"))]),
             "neginf": arr([tm.const(float("-inf"))])}[kind]
        out = outcome(I, anchor(I, SF, "spectral_fact"), [v])
        run.obligation("invalid input is refused", out.kind == "raise" and out.exc == "ValueError",
                       "spectral_fact of %s input %r" % (kind, out))
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    for n in (1, 2, 3, 4, 6, 9, 20, 33) + ((48, 65, 100, 130) if ctx.thorough else ()) + tuple(sorted(lib.loop_dims(ctx.src, MODS, 5, 140))):
        ctx.explore("inverse/n=%d" % n, inv_make(n), inv_sampler(n), MODS, npoints=30 if n < 9 else 3, optional=n >= 9)
    ctx.explore("factor/n=1", fact_make(1), fact_sampler(1), MODS, npoints=40)
    for part in range(4):
        ctx.explore("factor/n=2/%d" % part, fact_make(2), lambda rng, i, part=part, f=fact_sampler(2): f(rng, 4 * i + part), MODS,
                    npoints=24 if ctx.thorough else 10, hunting=False)
    for n in (3, 4) if ctx.thorough else (3,):
        ctx.explore("factor/n=%d" % n, fact_make(n), fact_sampler(n), MODS, npoints=5, hunting=False)
    for v, ok in (("0", True), ("-1/20000", True), ("-1/10000", False), ("-1/5000", False)):
        ctx.explore("factor/flat %s" % v, edge_make(v, ok), lambda rng, i: {"u": mpf(1)}, MODS, npoints=1)
    for k in ("empty", "nan", "inf", "neginf"):
        ctx.explore("reject/" + k, reject_make(k), lambda rng, i: {"r0": mpf(2)}, MODS, npoints=2)
    ctx.flush()
    ctx.floor("tasks", 10, len(ctx.tasks))
