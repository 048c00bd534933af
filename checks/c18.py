"""C18 matrix-inequality oracles: exact verdict and exact cut"""
import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import Arr
from sa.lib import (COUNTERS, anchor, arr, close, closes, constants, counter_vals, ev, evs, fmt, loop_dims, outcome, sg, snapshot, symmat,
                    vec, widen_counters)
from sa.terms import UNDEF

from . import ldlt_common as ld

ORACLES = {
    "LMIOracle": ("ellalgo.oracles.lmi_oracle", True),
    "LMIOldOracle": ("ellalgo.oracles.lmi_old_oracle", True),
    "LMI0Oracle": ("ellalgo.oracles.lmi0_oracle", False),
}
MODS = (ld.LD,) + tuple(m for m, _ in ORACLES.values())
IB = [[4, 1, 0, 1], [1, 5, 2, 0], [0, 2, 3, 1], [1, 0, 1, 6]]
IF = [[[1, 2, 0, 1], [2, -1, 1, 0], [0, 1, 2, 1], [1, 0, 1, 1]], [[0, 1, 1, 0], [1, 3, 0, 2], [1, 0, -2, 0], [0, 2, 0, 1]],
      [[2, 0, 1, 1], [0, 1, 0, 0], [1, 0, 1, 3], [1, 0, 3, -1]]]


def mats(nv, m, const, ints):
    if ints:
        F = [arr([r[:m] for r in IF[k][:m]], "i") for k in range(nv)]
        B = arr([r[:m] for r in IB[:m]], "i")
    else:
        F = [symmat("F%d_" % k, m) for k in range(nv)]
        B = symmat("B", m)
    return F, (B if const else None)


def at(p, a):
    return evs(p, a)


def expected(p, F, B, x):
    """(None | (g, ep)) at a valuation, certificate normalised to last entry 1"""
    Fm = [at(p, f) for f in F]
    S = sum((f * xi for f, xi in zip(Fm, x)), 0 * Fm[0])
    M = at(p, B) - S if B is not None else S
    D, L = ld.ldl(M)
    m = len(D)
    if D[-1] > 0:
        return M, None
    v = np.array([mpf(0)] * len(M), dtype=object)
    v[m - 1] = mpf(1)
    for i in range(m - 2, -1, -1):
        v[i] = -sum(L[k, i] * v[k] for k in range(i + 1, m))
    s = 1 if B is not None else -1
    return M, (np.array([s * v.dot(f.dot(v)) for f in Fm], dtype=object), -v.dot(M.dot(v)))


def judge(run, out, F, B, xn, nv, which):
    def f(p):
        x = [p.vals["%s%d" % (xn, k)] for k in range(nv)]
        M, want = expected(p, F, B, x)
        if out.kind != "ret":
            return "%s: assess_feas raises %s" % (which, out.exc)
        if want is None:
            return None if out.value is None else "%s: cut for a point where the matrix is positive definite" % which
        if out.value is None:
            return "%s: accepts a point where the matrix is not positive definite" % which
        if not isinstance(out.value, (tuple, list)) or len(out.value) != 2 or not isinstance(out.value[0], Arr):
            return "%s: cut is %r" % (which, out.value)
        g, ep = [ev(p, c) for c in out.value[0].data.flat], ev(p, out.value[1])
        if any(c is UNDEF for c in g) or ep is UNDEF:
            return "%s: undefined cut" % which
        got, exp = g + [ep], list(want[0]) + [want[1]]
        if len(got) != len(exp):
            return "%s: gradient of length %d" % (which, len(g))
        big = max(abs(c) for c in exp)
        if sg(big) == 0:
            return None if all(sg(c) == 0 for c in got) else "%s: cut %s, expected zero" % (which, fmt(got))
        k = [abs(c) for c in exp].index(big)
        c = got[k] / exp[k]
        if c <= 0 or not closes(got, [c * e for e in exp], big):
            return "%s: cut (%s, %s), certificate gives (%s, %s)" % (which, fmt(g), fmt(ep), fmt(list(want[0])), fmt(want[1]))
        # every point of the feasible set stays on the kept side: g.(y - x) + ep = -v'M(y)v < 0

    return run.each_point("matrix inequality", f)


def ask(run, I, o, F, B, c, nv, x, which):
    out = outcome(I, I.getattr_(o, "assess_feas"), [x])
    return judge(run, out, F, B, "xyz"[c], nv, which)


def make(cls, nv, m, ints=False, calls=1, how=""):
    """how: "" fresh arrays; "inplace" the caller reuses one array for the points;
    "again" the last point repeats the first; "late" after arbitrarily many calls"""
    mod, const = ORACLES[cls]

    def sc(run, I):
        F, B = mats(nv, m, const, ints)
        mk = lambda: I.call(anchor(I, mod, cls), [F] + ([B] if const else []))
        before = snapshot([F, B])
        if how == "late":
            o, _ = widen_counters(I, run, mk, lambda o, k: outcome(I, I.getattr_(o, "assess_feas"), [vec("x", nv)]))
        else:
            o = mk()
        buf = vec("x", nv)
        for c in range(calls):
            x = vec("xyz"[c], nv)
            if how == "inplace":
                buf.data[...] = x.data
                x = buf
            if not ask(run, I, o, F, B, c, nv, x, "call %d" % (c + 1)):
                return
        if how == "again" and not ask(run, I, o, F, B, 0, nv, vec("x", nv), "first point again"):
            return
        run.obligation("problem data untouched", snapshot([F, B]) == before, "the caller's matrices are modified")
        run.ex.last_path = list(run.path)

    return sc


def sampler(nv, m, const, ints, calls, consts=None):
    base = ld.sampler([("B", m)] + [("F%d_" % k, m) for k in range(nv)])

    def f(rng, i):
        d = base(rng, i) if not ints else {}
        for c in range(calls):
            for k in range(nv):
                d["xyz"[c] + str(k)] = mpf(rng.randrange(-12, 13)) / rng.choice([1, 2, 4, 8])
        if not ints:
            # make one of the matrices seen interesting: choose B (or F0) so that M is the sampled matrix
            t = ld.sampler([("T", m)])(rng, i)
            x = [d["%s%d" % ("xyz"[i % calls], k)] for k in range(nv)]
            for nm, a, b in ld.names("", m):
                s = sum(d["F%d_%s" % (k, nm)] * x[k] for k in range(nv))
                if const:
                    d["B" + nm] = t["T" + nm] + s
                elif x[0]:
                    d["F0_" + nm] += (t["T" + nm] - s) / x[0]
        if not const:
            for nm, a, b in ld.names("B", m):
                d.pop(nm, None)
        if consts is not None:
            counter_vals(rng, consts, d)
        return d

    return f


def run(ctx):
    consts = constants(ctx.src, MODS)
    dims = sorted(loop_dims(ctx.src, MODS, 5, 16))
    for cls, (mod, const) in ORACLES.items():
        for nv, m, ints, calls, *how in [
                (1, 1, False, 1), (2, 2, False, 1), (3, 2, False, 1), (2, 3, False, 1), (1, 3, False, 1), (2, 4, False, 1),
                (1, 7, False, 1), (6, 2, False, 1), (9, 1, False, 1),
                (2, 2, False, 2), (1, 2, False, 2), (2, 2, True, 1), (3, 3, True, 2), (2, 4, True, 1),
                (2, 2, False, 2, "inplace"), (1, 2, False, 2, "again"), (2, 2, False, 1, "late"), (1, 2, False, 2, "late"),
                (1, 1, False, 3)] + [(1, d, False, 1) for d in dims] + [(d, 1, False, 1) for d in dims] + (
                [(3, 4, False, 1), (2, 3, False, 2), (2, 2, False, 3), (4, 5, False, 1), (2, 3, False, 2, "inplace")] if ctx.thorough else []):
            how = how[0] if how else ""
            ctx.explore("%s/vars=%d/size=%d%s/calls=%d%s" % (cls, nv, m, "/int" if ints else "", calls, "/" + how if how else ""),
                        make(cls, nv, m, ints, calls, how), sampler(nv, m, const, ints, calls, consts if how == "late" else None), MODS,
                        npoints=200 if ctx.thorough else 70, ints=COUNTERS, optional=how == "late")
    ctx.flush()
    ctx.floor("tasks", 50, len(ctx.tasks))
    ctx.floor("partitions", 150, ctx.partitions())
