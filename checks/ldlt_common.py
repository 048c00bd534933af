"""Reference facts about LDL' factorization, and scenarios for C16, C17, C19."""
from fractions import Fraction

import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import AbsRaise, Arr, H, Unmodelled
from sa.lib import (COUNTERS, anchor, arr, close, closes, constants, counter_vals, ev, evs, fmt, loop_dims, outcome, sg, snapshot, symmat,
                    widen_counters)
from sa.terms import UNDEF

LD = "ellalgo.oracles.ldlt_mgr"
MODS = (LD,)
EPS = mpf(10) ** -40


def names(pre, n):
    return [("%s%d%d" % (pre, i, j), i, j) for i in range(n) for j in range(i + 1)]


def sym_at(p, pre, n):
    A = np.array([[mpf(0)] * n for _ in range(n)], dtype=object)
    for nm, i, j in names(pre, n):
        A[i, j] = A[j, i] = p.vals[nm] if not isinstance(p, dict) else p[nm]
    return A


def zero(x, scale):
    return abs(x) <= EPS * max(scale, mpf(10) ** -10)


def ldl(A, upto=None):
    """(pivots, L) of the leading block up to and including the first pivot <= 0"""
    n = len(A)
    scale = max(abs(x) for x in A.flat)
    L = np.array([[mpf(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)
    D = []
    for i in range(n):
        for j in range(i):
            L[i, j] = (A[i, j] - sum(L[i, k] * D[k] * L[j, k] for k in range(j))) / D[j]
        d = A[i, i] - sum(L[i, k] ** 2 * D[k] for k in range(i))
        if zero(d, scale):
            d = mpf(0)
        D.append(d)
        if d <= 0:
            break
    return D, L


def is_pd(A):
    D, _ = ldl(A)
    return len(D) == len(A) and D[-1] > 0


def is_psd(A):
    """exact symmetric elimination: a zero pivot needs a zero row"""
    A = A.copy()
    n = len(A)
    scale = max(abs(x) for x in A.flat)
    for k in range(n):
        if zero(A[k, k], scale):
            if any(not zero(A[i, k], scale) for i in range(k + 1, n)):
                return False
            continue
        if A[k, k] < 0:
            return False
        for i in range(k + 1, n):
            f = A[i, k] / A[k, k]
            for j in range(k + 1, n):
                A[i, j] -= f * A[k, j]
    return True


def restart_accepts(A):
    """the recorded finding: restart after a zero pivot, dropping its couplings"""
    n = len(A)
    scale = max(abs(x) for x in A.flat)
    start, dropped = 0, False
    while start < n:
        B = A[start:, start:]
        D, _ = ldl(B)
        if D[-1] > 0:
            return True, dropped
        if D[-1] < 0:
            return False, dropped
        z = start + len(D) - 1
        dropped = dropped or any(not zero(A[i, j], scale) for i in range(z + 1, n) for j in range(z + 1))
        start = z + 1
    return True, dropped


def sampler(specs, semi=False):
    """specs: [(prefix, n)]; matrices L D L' with dyadic entries, so that pivots
    (including zero ones) are exact"""

    def one(rng, pre, n):
        dy = lambda: mpf(rng.randrange(-12, 13)) / rng.choice([1, 2, 4])
        L = np.array([[mpf(int(i == j)) if j >= i else dy() for j in range(n)] for i in range(n)], dtype=object)
        D = [mpf(rng.choice([1, 2, 4, 0.5, 8])) for _ in range(n)]
        z = rng.random()
        if z < 0.6:
            k = rng.randrange(n)
            D[k] = mpf(rng.choice([-1, -2, 0, 0, -0.5]))
            for j in range(k + 1, n):
                D[j] = mpf(rng.choice([1, -1, 0, 2]))
        A = L.dot(np.diag(np.array(D, dtype=object))).dot(L.T)
        if z > 0.9:
            A = np.array([[dy() for _ in range(n)] for _ in range(n)], dtype=object)
        if z < 0.1:
            # dyadic row coupled to a zero pivot
            k = rng.randrange(n)
            A[k, k] = mpf(0)
        return {nm: A[i, j] for nm, i, j in names(pre, n)}

    def f(rng, i):
        d = {}
        for pre, n in specs:
            d.update(one(rng, pre, n))
        return d

    return f


def getter(run, I, mat):
    """an element callback that counts nothing and returns mat[i, j]"""

    def g(i, j):
        return I.getitem(mat, (i, j))

    return H(g, "get_elem")


def call(I, o, name, *args):
    return outcome(I, I.getattr_(o, name), list(args))


def factor_by(run, I, m, mat, how):
    if how == "factorize":
        return call(I, m, "factorize", mat)
    return call(I, m, how, getter(run, I, mat))


def judge_verdict(run, I, m, out, n, pre):
    if out.kind != "ret":
        run.each_point("positive-definiteness verdict", lambda p: "factorization raises %s" % out.exc)
        return None
    got = I.truth(out.value)
    spd = outcome(I, I.getattr_(m, "is_spd"), [])
    sp = I.truth(spd.value) if spd.kind == "ret" else None

    def verdict(p):
        w = is_pd(sym_at(p, pre, n))
        if got != w:
            return "verdict %s, but the matrix %s positive definite" % (got, "is" if w else "is not")
        if sp != w:
            return "is_spd() is %s after verdict %s" % (sp, got)

    return got if run.each_point("positive-definiteness verdict", verdict) else None


def judge_sqrt(run, I, m, got, n, pre):
    rt = outcome(I, I.getattr_(m, "sqrt"), [])

    def root(p):
        if not got:
            return None if rt.kind == "raise" else "a square root is handed out for a matrix that is not positive definite"
        if rt.kind != "ret" or not isinstance(rt.value, Arr) or rt.value.data.shape != (n, n):
            return "sqrt %r" % (rt,)
        R = evs(p, rt.value)
        if any(x is UNDEF for x in R.flat):
            return "square root undefined"
        if any(not close(R[i, j], mpf(0), 1) for i in range(n) for j in range(i)):
            return "square root is not upper triangular"
        if any(R[i, i] <= 0 for i in range(n)):
            return "square root has a nonpositive diagonal"
        if not closes(R.T.dot(R), sym_at(p, pre, n)):
            return "R'R = %s, expected %s" % (fmt(R.T.dot(R)), fmt(sym_at(p, pre, n)))

    run.each_point("R'R = A", root)


def judge_witness(run, I, m, got, n, pre, gen=None, rule="infeasibility certificate", strict=False):
    """certificate of a failed factorization; `gen` prefix of a general matrix"""
    if got:
        w = outcome(I, I.getattr_(m, "witness"), [])
        run.obligation(rule, w.kind == "raise", "witness() of a positive definite matrix returns %r" % (w.value,))
        return
    w = outcome(I, I.getattr_(m, "witness"), [])
    if w.kind != "ret":
        run.each_point(rule, lambda p: "witness() raises %s" % w.exc)
        return
    pos, wit = I.getattr_(m, "pos"), I.getattr_(m, "wit")
    if not (isinstance(pos, tuple) and len(pos) == 2 and isinstance(wit, Arr) and wit.data.shape == (n,)):
        run.each_point(rule, lambda p: "pos = %r, wit = %r" % (pos, wit))
        return
    s, e = [I.concrete_int(x) for x in pos]
    A = symmat(pre, n)
    q = outcome(I, I.getattr_(m, "sym_quad"), [A])
    M = arr([[tm.atom("%s%d_%d" % (gen, i, j)) for j in range(n)] for i in range(n)]) if gen else None
    qm = outcome(I, I.getattr_(m, "sym_quad"), [M]) if gen else None

    def f(p):
        v = np.array([ev(p, wit.data[i]) if s <= i < e else mpf(0) for i in range(n)], dtype=object)
        if any(x is UNDEF for x in v):
            return "witness undefined"
        if not any(sg(x) for x in v):
            return "witness is zero"
        ep = ev(p, w.value)
        Am = sym_at(p, pre, n)
        scale = max(abs(x) for x in Am.flat) * max(abs(x) for x in v) ** 2
        if ep is UNDEF or (ep < 0 and not zero(ep, scale)):
            return "certificate value %s is negative" % fmt(ep)
        if strict and (ep <= 0 or zero(ep, scale)):
            return "refused with certificate value %s" % fmt(ep)
        vav = v.dot(Am.dot(v))
        if not close(vav, -ep, scale):
            return "v'Av = %s, reported %s" % (fmt(vav), fmt(-ep))
        if q.kind != "ret" or not close(ev(p, q.value), vav, scale):
            return "quadratic form of the matrix itself: %r" % (fmt(ev(p, q.value)) if q.kind == "ret" else q,)
        if gen:
            Mm = evs(p, M)
            want = v.dot(Mm.dot(v))
            if qm.kind != "ret" or not close(ev(p, qm.value), want, max(abs(x) for x in Mm.flat) * max(abs(x) for x in v) ** 2):
                return "quadratic form %s, expected %s" % (fmt(ev(p, qm.value)) if qm.kind == "ret" else qm, fmt(want))

    run.each_point(rule, f)


def const_mat(n, fail):
    """a fixed matrix, positive definite or failing in its last row"""
    a = [[Fraction(2 + (i == 0)) if i == j else Fraction(1) if abs(i - j) == 1 else Fraction(0) for j in range(n)] for i in range(n)]
    if fail:
        a[n - 1][n - 1] = Fraction(-1)
    return arr(a)


def new_mgr(run, I, n, hist):
    """a manager with earlier use; "many ok"/"many failed": after arbitrarily many
    earlier factorizations (call counters widened)"""
    mk = lambda: I.call(anchor(I, LD, "LDLTMgr"), [n])
    if hist and hist[0].startswith("many"):
        fail = hist[0] == "many failed"

        def step(m, k):
            o = factor_by(run, I, m, const_mat(n, fail), "factorize")
            if o.kind == "ret":
                outcome(I, I.getattr_(m, "witness" if fail else "sqrt"), [])

        m, _ = widen_counters(I, run, mk, step)
        hist = hist[1:]
    else:
        m = mk()
    prior_use(run, I, m, hist, n)
    return m


def tasks(ctx, extra=()):
    """cases, with the orders the source singles out"""
    dims = sorted(loop_dims(ctx.src, MODS, 8, 20))
    return CASES + list(extra) + [(n, "factorize", ()) for n in dims if n not in (9, 12)] + \
        [(14, "factor", ("factorize",)), (4, "factorize", ("factorize",) * 3), (5, "factor", ("factorize", "factor"))] * ctx.thorough


def specs(n, hist):
    return [("A", n)] + [("P%d" % k, n) for k in range(len([h for h in hist if not h.startswith(("many", "whole"))]))]


def late(ctx, hist, smp):
    if not any(h.startswith("many") for h in hist):
        return smp
    consts = constants(ctx.src, MODS)

    def f(rng, i):
        d = smp(rng, i)
        counter_vals(rng, consts, d)
        return d

    return f


def whole(n, k):
    """fixed matrices of integers: two positive definite, two not, one semidefinite"""
    a = [[(4 if i == 0 else 3) if i == j else (1, -1)[k % 2] if abs(i - j) == 1 else k % 3 if abs(i - j) == 2 else 0 for j in range(n)] for i in range(n)]
    if k == 2:
        a[n - 1][n - 1] = -5
    elif k == 3:
        a = [[7 if i == j else 9 for j in range(n)] for i in range(n)]
    elif k == 4:
        a = [[(i + 1) * (j + 1) for j in range(n)] for i in range(n)]
    return a


def whole_tasks(hows=("factorize", "factor")):
    return [(n, how, k) for n, how in ((2, hows[0]), (3, hows[0]), (3, hows[-1]), (4, hows[0])) for k in range(5)]


def whole_sampler(n, k):
    a = whole(n, k)
    return general("M", n)(lambda rng, i: {nm: mpf(a[r][c]) for nm, r, c in names("A", n)})


def whole_valid(n, k):
    a = whole(n, k)
    return lambda p: all(p.vals[nm] == a[r][c] for nm, r, c in names("A", n))


def prior_use(run, I, m, hist, n):
    """earlier use of the same manager, before the factorization that is judged"""
    for k, h in enumerate(hist):
        P = symmat("P%d" % k, n)
        if h.startswith("whole"):
            P, h = arr(whole(n, int(h[-1])), "i"), "factorize"
        o = factor_by(run, I, m, P, h)
        if o.kind == "ret":
            outcome(I, I.getattr_(m, "sqrt" if I.truth(o.value) else "witness"), [])


def general(gen, n):
    def add(f):
        def g(rng, i):
            d = f(rng, i)
            for a in range(n):
                for b in range(n):
                    d["%s%d_%d" % (gen, a, b)] = mpf(rng.randrange(-3000, 3000)) / 1000
            return d

        return g

    return add


CASES = [  # n, how, earlier uses
    (1, "factorize", ()), (2, "factorize", ()), (3, "factorize", ()), (4, "factorize", ()), (5, "factorize", ()),
    (6, "factorize", ()), (7, "factorize", ()), (9, "factorize", ()), (12, "factorize", ()),
    (1, "factor", ()), (2, "factor", ()), (3, "factor", ()), (4, "factor", ()),
    (2, "factorize", ("factorize",)), (3, "factor", ("factorize",)),
    (2, "factor", ("factor_with_allow_semidefinite",)), (3, "factorize", ("factor_with_allow_semidefinite",)),
    (2, "factorize", ("factorize", "factor")),
    (2, "factorize", ("whole matrix 0",)), (3, "factor", ("whole matrix 2",)), (3, "factorize", ("whole matrix 3",)),
    (2, "factorize", ("many ok",)), (3, "factorize", ("many failed",)), (2, "factor", ("many failed", "factorize")),
]
