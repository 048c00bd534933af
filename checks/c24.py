"""C24 conjugate gradient returns solutions only"""
import random

import numpy as np
from fractions import Fraction
from mpmath import mp, mpf

from sa import lib, terms as tm
from sa.interp import Arr
from sa.lib import anchor, arr, ev, evs, fmt, outcome, sg, snapshot, symmat, vec
from sa.terms import UNDEF

from . import ldlt_common as ld

CG = "ellalgo.conjugate_gradient"
MODS = (CG,)


def residual(p, A, b, x):
    r = evs(p, b) - evs(p, A).dot(x)
    return mp.sqrt(r.dot(r))


def steps_needed(p, A, b, x0, tol, cap):
    """number of exact CG steps until the residual is below tol (None: not within cap)"""
    Am, bm = evs(p, A), evs(p, b)
    x = np.array([mpf(v) for v in x0], dtype=object)
    r = bm - Am.dot(x)
    d, k = r.copy(), 0
    scale = max(abs(c) for c in bm) + max(abs(c) for c in Am.flat) * max(abs(c) for c in x)
    close_calls = False
    while True:
        nr = mp.sqrt(r.dot(r))
        if abs(nr - tol) <= mpf(10) ** -30 * tol:
            close_calls = True
        if nr < tol:
            return k, close_calls
        if k >= cap or k > len(bm) + 2 or nr <= mpf(10) ** -40 * scale:
            return None, close_calls
        Ad = Am.dot(d)
        den = d.dot(Ad)
        if den == 0:
            return None, close_calls
        a = r.dot(r) / den
        x, rn = x + a * d, r - a * Ad
        d = rn + rn.dot(rn) / r.dot(r) * d
        r = rn
        k += 1


def fixed(n):
    """a rational positive definite matrix with n different eigenvalues"""
    rng = random.Random(n)
    L = [[Fraction(rng.randrange(-9, 10), 10) if c < r else Fraction(int(r == c)) for c in range(n)] for r in range(n)]
    D = [Fraction(2 + 3 * k, 2) for k in range(n)]
    return [[sum(L[r][k] * D[k] * L[c][k] for k in range(n)) for c in range(n)] for r in range(n)]


def make(n, x0, cap, tol="sym", bint=False, anyA=False, wide=False):
    """x0: none/vec/int/pos; cap: max_iter or None for the default; wide: the matrix is fixed"""

    def sc(run, I):
        f = anchor(I, CG, "conjugate_gradient")
        A, b = arr(fixed(n)) if wide else symmat("A", n), vec("b", n) if wide != "tol" else arr(numbers(n))
        if bint:
            b = arr(list(range(1, n + 1)), "i")
        start = {"none": None, "vec": vec("x", n), "int": arr([1, -2, 3][:n], "i"), "pos": vec("x", n)}[x0]
        kw = {}
        if start is not None:
            kw["x0"] = start
        if tol == "sym":
            kw["tol"] = tm.atom("tol")
        if cap is not None:
            kw["max_iter"] = cap
        args = [A, b]
        if x0 == "pos":
            args = [A, b, start, tm.atom("tol"), cap]
            kw = {}
        before = snapshot([A, b, start])
        out = outcome(I, f, args, kw)

        def at(p):
            t = p.vals["tol"] if tol == "sym" else mpf(10) ** -5
            s = [mpf(0)] * n if start is None else [ev(p, c) for c in start.data.flat]
            need, near = steps_needed(p, A, b, s, t, 1000 if cap is None else cap) if not anyA else (0, False)
            if near:
                return None
            if out.kind == "raise":
                if out.exc != "ValueError":
                    return "raises %s" % out.exc
                return None if need is None or anyA else "fails although %d steps of the iteration reach the tolerance" % need
            if not isinstance(out.value, Arr) or out.value.data.shape != (n,):
                return "returns %r" % (out.value,)
            x = np.array([ev(p, c) for c in out.value.data.flat], dtype=object)
            if any(c is UNDEF for c in x):
                return "returns an undefined value"
            r = residual(p, A, b, x)
            if r >= t:
                return "returns a point with residual %s, tolerance %s" % (fmt(r), fmt(t))
            if need is None:
                return "returns within the tolerance only after more than %s iterations" % cap

        run.each_point("residual below tolerance", at)
        run.obligation("inputs untouched", snapshot([A, b, start]) == before, "the caller's arrays are modified")
        if out.kind == "ret" and isinstance(out.value, Arr) and start is not None:
            run.obligation("result owns its storage", not np.shares_memory(out.value.data, start.data),
                           "the solution shares storage with the initial guess")
        run.ex.last_path = list(run.path)

    return sc


def sampler(n, tol):
    def f(rng, i):
        q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
        G = np.array([[q(-1, 1) for _ in range(n)] for _ in range(n)], dtype=object)
        A = G.dot(G.T)
        for k in range(n):
            A[k, k] += q(0.1, 2)
        if i % 6 == 1:
            A = np.array([[q(0.5, 3) * int(r == c) for c in range(n)] for r in range(n)], dtype=object)
        if i % 6 == 2:
            A = np.array([[mpf(2) * int(r == c) for c in range(n)] for r in range(n)], dtype=object)
        d = {nm: A[r, c] for nm, r, c in ld.names("A", n)}
        x = np.array([q(-2, 2) for _ in range(n)], dtype=object)
        b = np.array([q(-3, 3) for _ in range(n)], dtype=object)
        if i % 7 == 3:
            b = A.dot(x) + np.array([q(-0.01, 0.01) for _ in range(n)], dtype=object)
        if i % 7 == 4:
            b = A.dot(x)
        if i % 11 == 5:
            b = b * 0
        for k in range(n):
            d["x%d" % k], d["b%d" % k] = x[k], b[k]
        if tol == "sym":
            d["tol"] = mpf(10) ** rng.choice([-5, -3, -2, -1, 0, -10]) * q(0.5, 2)
        return d

    return f


def wide_sampler(n):
    def f(rng, i):
        q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
        d = {"tol": mpf(10) ** rng.choice([-5, -3, -8])}
        for k in range(n):
            d["x%d" % k], d["b%d" % k] = q(-2, 2), q(-3, 3)
        return d

    return f


def numbers(n):
    rng = random.Random(100 + n)
    return [Fraction(rng.randrange(-30, 31), 10) for _ in range(n)]


def tol_sampler(n):
    """tolerances around the residual of every step"""
    A = np.array([[mpf(c.numerator) / c.denominator for c in r] for r in fixed(n)], dtype=object)
    r = np.array([mpf(c.numerator) / c.denominator for c in numbers(n)], dtype=object)
    d, res = r.copy(), []
    while len(res) < n:
        res.append(mp.sqrt(r.dot(r)))
        Ad = A.dot(d)
        a = r.dot(r) / d.dot(Ad)
        rn = r - a * Ad
        d = rn + rn.dot(rn) / r.dot(r) * d
        r = rn

    def f(rng, i):
        return {"tol": res[i % n] * rng.choice([mpf("1.0001"), mpf("1.5"), mpf(1) / 2, mpf("0.9999"), mpf("0.15"), mpf("0.011")])}

    return f


def any_sampler(n):
    base, mats = sampler(n, "sym"), ld.sampler([("A", n)])

    def f(rng, i):
        d = base(rng, i)
        if i % 3:
            d.update(mats(rng, i))
        if i % 5 == 0:
            d["tol"] = mpf(rng.randrange(500, 5000)) / 1000
        return d

    return f


TINY = mpf(10) ** -25


def valid(n):
    def f(p):
        # well away from the resolution of the valuations (80 digits)
        if "tol" in p.vals and p.vals["tol"] <= TINY:
            return False
        A = ld.sym_at(p, "A", n)
        D, _ = ld.ldl(A)
        return len(D) == n and min(D) > mpf(10) ** -15 * max(abs(x) for x in A.flat)

    return f


def run(ctx):
    cases = [(n, x0, cap, "sym", False) for n in (1, 2, 3) for x0 in ("none", "vec") for cap in (n, n + 2, None)]
    cases += [(2, "vec", 0, "sym", False), (2, "none", 1, "sym", False), (3, "vec", 1, "sym", False), (3, "vec", 2, "sym", False),
              (2, "int", 5, "sym", False), (3, "int", None, "default", False), (2, "none", None, "default", False),
              (2, "vec", None, "default", False), (2, "pos", 2, "sym", False), (2, "none", 3, "sym", True), (2, "none", 0, "sym", False)]
    if ctx.thorough:
        cases += [(4, "vec", None, "sym", False), (4, "none", 4, "default", False)]
    for n, x0, cap, tol, bint in cases:
        ctx.explore("n=%d/x0=%s/max_iter=%s/tol=%s%s" % (n, x0, cap, tol, "/int b" if bint else ""), make(n, x0, cap, tol, bint),
                    sampler(n, tol), MODS, valid=valid(n), npoints=200 if ctx.thorough else 60)
    # more unknowns: as many steps as unknowns are enough, and later steps are like the first
    for n in sorted({5, 8} | ({12, 16} if ctx.thorough else set()) | lib.loop_dims(ctx.src, MODS, 4, 12)):
        for x0, cap in (("none", n), ("vec", None)):
            ctx.explore("n=%d/x0=%s/max_iter=%s/fixed matrix" % (n, x0, cap), make(n, x0, cap, wide=True), wide_sampler(n), MODS,
                        valid=lambda p: p.vals["tol"] > TINY, npoints=4, hunting=False, optional=n > 5)
    # late steps: everything but the tolerance is fixed
    for n in sorted({12, 20} | ({28} if ctx.thorough else set()) | lib.loop_dims(ctx.src, MODS, 4, 40)):
        ctx.explore("n=%d/fixed system, any tolerance" % n, make(n, "none", n, wide="tol"), tol_sampler(n), MODS,
                    valid=lambda p: p.vals["tol"] > TINY, npoints=6 * n, hunting=False, optional=n > 12)
    for n in (1, 2, 3):
        ctx.explore("n=%d/any symmetric matrix" % n, make(n, "vec", 3, anyA=True), any_sampler(n), MODS,
                    valid=lambda p: p.vals["tol"] > TINY, npoints=200 if ctx.thorough else 60)
    ctx.flush()
    ctx.floor("tasks", 20, len(ctx.tasks))
