"""C26 a cut never loses a point that satisfies it, and never grows the ellipsoid

The ellipsoid is observed through the public interface only: the center through
xc(), the shape through tsq() of probing cuts applied to copies of the space.
"""
import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import Arr
from sa.lib import arr, ev, fmt, outcome, sg
from sa.terms import UNDEF

from . import space_common as sp
from .calc_common import OK, status_name

TOL = mpf(10) ** -25


def probe(I, space, n):
    """{(i, j): tsq of a central cut along e_i + e_j} and the center, as terms"""
    out = {}
    dc = I.getattr_(I.ext["copy"], "deepcopy")
    for i in range(n):
        for j in range(i, n):
            g = [0] * n
            g[i] += 1
            g[j] += 1 if j != i else 0
            cp = I.call(dc, [space])
            r = outcome(I, I.getattr_(cp, "update_central_cut"), [(arr(g), tm.const(0))])
            if r.kind != "ret":
                return None
            # a direction in which the ellipsoid is flat is answered NoEffect
            out[i, j] = I.call(I.getattr_(cp, "tsq"), []) if status_name(r.value) == OK else tm.const(0)
    xc = I.call(I.getattr_(space, "xc"), [])
    return out, Arr(xc.data.copy(), xc.dt)


def shape(p, pr, n):
    q = {k: ev(p, v) for k, v in pr[0].items()}
    c = np.array([ev(p, x) for x in pr[1].data.flat], dtype=object)
    if any(v is UNDEF for v in list(q.values()) + list(c)):
        return None
    P = np.empty((n, n), dtype=object)
    for i in range(n):
        P[i, i] = q[i, i]
    for i in range(n):
        for j in range(i + 1, n):
            P[i, j] = P[j, i] = (q[i, j] - q[i, i] - q[j, j]) / 2
    return P, c


def det(P):
    if len(P) == 1:
        return P[0, 0]
    return sum((-1) ** j * P[0, j] * det(np.delete(P[1:], j, axis=1)) for j in range(len(P)))


def chol(P, n):
    """lower factor, None when P is not safely positive definite"""
    L = np.array([[mpf(0)] * n for _ in range(n)], dtype=object)
    big = max(abs(x) for x in P.flat)
    for j in range(n):
        s = P[j, j] - sum((L[j, k] ** 2 for k in range(j)), mpf(0))
        if s <= big * mpf(10) ** -20:
            return None
        L[j, j] = mp.sqrt(s)
        for i in range(j + 1, n):
            L[i, j] = (P[i, j] - sum((L[i, k] * L[j, k] for k in range(j)), mpf(0))) / L[j, j]
    return L


def inside(P, c, x, n):
    """(x-c)' P^-1 (x-c), through forward substitution"""
    L = chol(P, n)
    if L is None:
        return None
    d = x - c
    y = []
    for i in range(n):
        y.append((d[i] - sum((L[i, k] * y[k] for k in range(i)), mpf(0))) / L[i, i])
    return sum(v * v for v in y)


def directions(n, u):
    """unit vectors orthogonal to u"""
    out = []
    for k in range(n):
        e = np.array([mpf(1 if i == k else 0) for i in range(n)], dtype=object)
        e = e - u[k] * u
        for w in out[::2]:
            e = e - e.dot(w) * w
        m = mp.sqrt(sum(x * x for x in e))
        if m > mpf("1e-10"):
            out += [e / m, -e / m]
    if n > 2 and len(out) >= 4:
        out.append((out[0] + out[2]) / mp.sqrt(2))
        out.append((out[0] + out[3]) / mp.sqrt(2))
    return out


def kept_points(P, c, g, lo, hi, n):
    """points of the ellipsoid with lo <= g'(x-c) <= hi: the rims of both planes,
    the caps between them, and the poles"""
    L = chol(P, n)
    if L is None:
        return None
    w = L.T.dot(g)
    tau = mp.sqrt(w.dot(w))
    u = w / tau
    a, b = max(lo / tau, mpf(-1)), min(hi / tau, mpf(1))
    if a > b:
        return tau, []
    pts = []
    for k in range(9):
        t = a + (b - a) * k / 8
        s = mp.sqrt(max(1 - t * t, mpf(0)))
        for d in directions(n, u):
            pts.append(c + L.dot(t * u + s * d))
    return tau, pts


def touching(A, d, s, n):
    """the deep plane only touches the ellipsoid: what is left is a single point"""
    g = np.array([d["g%d_%d" % (s, i)] for i in range(n)], dtype=object)
    tau = mp.sqrt(g.dot(A[0].dot(g)))
    return abs(d["b0_%d" % s] - tau) <= TOL * tau


def scenario(cls, n, val, plan, flags=()):
    def sc(run, I):
        k, v, x0 = sp.make_space(I, cls, n, val)
        space = I.call(k, [v, x0])
        if "no_defer" in flags:
            I.setattr_(space, "no_defer_trick", True)
        steps = []
        for s, (mode, form) in enumerate(plan):
            sp.nonzero(run, s, n)
            last = s == len(plan) - 1
            pre = probe(I, space, n) if last else None
            out = outcome(I, I.getattr_(space, sp.METHOD[mode]), [(sp.vec("g%d_" % s, n), sp.make_beta(s, form))])
            site = I.exit_sites[-1] if I.exit_sites else None
            if out.kind != "ret" or (not last and status_name(out.value) != OK):
                return
        post = probe(I, space, n)
        st = status_name(out.value)
        mode, form = plan[-1]
        s = len(plan) - 1

        def f(p):
            d = p.vals
            A = shape(p, pre, n) if pre else None
            if A is None or chol(A[0], n) is None or (mode == "deep" and d["b0_%d" % s] < 0):
                return None                 # degenerate before the cut, or not a deep cut
            B = shape(p, post, n) if post else None
            if B is None:
                if st == OK and touching(A, d, s, n):
                    return None
                return "the space is unusable after the cut (%s)" % st
            g = np.array([d["g%d_%d" % (s, i)] for i in range(n)], dtype=object)
            b0 = mpf(0) if mode == "central" else d["b0_%d" % s]
            hi = -b0
            lo = -d["b1_%d" % s] if sp.is_two(form) else -mp.inf
            r = kept_points(A[0], A[1], g, lo, hi, n)
            if r is None:
                return None                 # degenerate ellipsoid before the cut
            tau, pts = r
            if st == "NoSoln":
                # an interior point satisfies the cut exactly if the slab is not empty and
                # reaches strictly inside (it may have no width)
                if (lo == -mp.inf or sg(lo, hi) <= 0) and lo < tau * (1 - TOL) and hi > -tau * (1 - TOL):
                    return "NoSoln although the ellipsoid has points with %s <= g.(x-c) <= %s (reach %s)" % (fmt(lo), fmt(hi), fmt(tau))
                return None
            if st != OK:
                return None
            da, db = det(A[0]), det(B[0])
            if db > da * (1 + TOL):
                return "volume grows: det %s -> %s" % (fmt(da), fmt(db))
            if chol(B[0], n) is None:
                # collapsed onto a plane (flat cut): only an empty-interior slab may do that
                if min(hi, tau) - max(lo, -tau) > mpf(10) ** -8 * tau:
                    return "the ellipsoid collapses although a full slice satisfies the cut"
                return None
            for x in pts:
                q = inside(B[0], B[1], x, n)
                if q > 1 + mpf(10) ** -18:
                    return "point %s of the ellipsoid satisfies the cut but lies outside the updated one (%s > 1)" % (fmt(list(x)), fmt(q))
            return None

        run.each_point("points satisfying the cut are kept, volume never grows", f, site=site)
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    plans = []
    for mode in ("deep", "central", "q"):
        for form in ("scalar", "list2"):
            plans.append((2, "array", [(mode, form)], ()))
            plans.append((3, "scalar", [(mode, form)], ()))
    plans += [(2, "array", [("deep", "scalar"), ("q", "list2")], ()),
              (2, "scalar", [("central", "scalar"), ("q", "scalar")], ("no_defer",)),
              (3, "array", [("deep", "scalar"), ("deep", "scalar")], ()),
              (2, "scalar", [("q", "list2"), ("deep", "list2")], ())]
    if ctx.thorough:
        for a in ("deep", "central", "q"):
            for b in ("deep", "central", "q"):
                plans.append((2, "array", [(a, "list2"), (b, "list2")], ()))
                plans.append((3, "array", [(a, "scalar"), (b, "list2")], ("no_defer",)))
        plans.append((4, "array", [("deep", "list2")], ()))
    for cls in sp.SPACES:
        for n, val, plan, flags in plans:
            name = "%s/n=%d/%s/%s%s" % (cls, n, val, "-".join("%s.%s" % x for x in plan), "/" + "+".join(flags) if flags else "")
            ctx.explore(name, scenario(cls, n, val, plan, flags), sp.sampler(n, val, plan, False), sp.MODS, valid=sp.valid,
                        npoints=120 if ctx.thorough else 50, max_partitions=4000)
    ctx.flush()
    ctx.floor("histories", 30, len(ctx.tasks))
    ctx.floor("partitions", 200, ctx.partitions())
