"""Histories of cuts applied to a search space, against a reference ellipsoid.

Only the public interface is observed (constructor, update_*, xc, tsq, set_xc);
the shape matrix is observed through the effect of a final probing cut with a
generic gradient.
"""
import random
from fractions import Fraction

import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import AbsRaise, Arr, Obj, Stop, Unmodelled
from sa.lib import anchor, arr, close, closes, ev, evs, fmt, outcome, sg, snapshot, vec, widen_counters
from sa.terms import UNDEF

from .calc_common import OK, reference, status_name

MODS = ("ellalgo.ell", "ellalgo.ell_stable", "ellalgo.ell_calc", "ellalgo.ell_calc_core")
METHOD = {"deep": "update_bias_cut", "central": "update_central_cut", "q": "update_q"}
SPACES = {"Ell": "ellalgo.ell", "EllStable": "ellalgo.ell_stable"}


class Ref:
    """{x : (x-c)' P^-1 (x-c) <= 1} with P = kappa*M kept as one matrix"""

    def __init__(self, P, c):
        self.P, self.c, self.n = P, c, len(c)
        self.unit = max(abs(x) for x in P.flat)
        self.tsq = mpf(0)

    def step(self, mode, g, b0, b1):
        """status name, 'raise' or None (outside the domain)"""
        if all(sg(x) == 0 for x in g):
            return "raise"
        Pg = self.P.dot(g)
        t = g.dot(Pg)
        scale = max(abs(x) for x in self.P.flat) * max(abs(x) for x in g) ** 2
        if sg(scale) == 0:
            return None
        if abs(t) <= scale * mpf(10) ** -40:
            self.tsq = None
            return "NoEffect"
        self.tsq = t
        r = reference(mode, mpf(self.n), b0, b1, t)
        if r is None:
            return None
        if r[1] is not None:
            rho, sigma, delta = r[1]
            self.c = self.c - rho * Pg / t
            self.P = delta * (self.P - sigma * np.outer(Pg, Pg) / t)
        return r[0]

    def singular(self):
        d = max(abs(x) for x in self.P.flat)
        return d < mpf(10) ** -30 * self.unit


def atoms_of_step(s, n, two):
    return ["g%d_%d" % (s, i) for i in range(n)] + ["b0_%d" % s] + (["b1_%d" % s] if two else [])


def is_two(form):
    return form not in ("scalar", "list1", "off")


def fixed(n, steps):
    """rational radii and gradients for the wide ellipsoids (valuation and constants)"""
    rng = random.Random(n)
    d = {"r%d" % k: Fraction(rng.randrange(3, 40), 10) for k in range(n)}
    d["kap"] = Fraction(5, 2)
    for s in range(steps):
        for k in range(n):
            v = Fraction(rng.randrange(-20, 21), 10)
            d["g%d_%d" % (s, k)] = v if v or rng.random() < 0.5 else Fraction(1)
    return d


def sampler(n, val, plan, failing, flags=()):
    """plan: list of (mode, form); `failing`: bias towards unsuccessful cuts"""
    fx = {k: mpf(v.numerator) / v.denominator for k, v in fixed(n, len(plan)).items()} if "fixed" in flags else {}

    def f(rng, i):
        d = {}
        q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
        for k in range(n):
            d["x%d" % k] = q(-2, 2)
            d["r%d" % k] = q(0.3, 4)
        d["kap"] = q(0.3, 6)
        if i % 7 == 3 and not fx and val != "int":      # the same at another scale
            u = mpf(10) ** rng.choice([-9, -6, -3, 3, 6, 12, 24])
            for k in range(n):
                d["x%d" % k] *= u
                d["r%d" % k] *= u * u
            d["kap"] *= u * u
        d.update(fx)
        if i % 9 == 4:
            for k in range(n):
                d["x%d" % k] = mpf(0)
        if "int_radii" in flags:
            d.update({k: mpf(v) for k, v in whole_numbers("r", n, 4).items()})
        if "int_center" in flags or "list_center" in flags:
            d.update({k: mpf(v) for k, v in whole_numbers("x", n, 0).items()})
        ref = Ref(start_matrix(n, val, d), np.array([d["x%d" % k] for k in range(n)], dtype=object))
        for s, (mode, form) in enumerate(plan):
            if mode == "set":
                for k in range(n):
                    d["y%d_%d" % (s, k)] = q(-2, 2)
                if "int_center" in flags or "list_center" in flags:
                    d.update({k: mpf(v) for k, v in whole_numbers("y%d_" % s, n, s).items()})
                continue
            g = [q(-2, 2) or mpf(1) for _ in range(n)]
            z = rng.random()
            if z < 0.15:
                g = [mpf(0)] * n
                g[rng.randrange(n)] = mpf(rng.choice([1, -1, 2]))
            elif z < 0.25 and s and "g%d_0" % (s - 1) in d:
                g = [d["g%d_%d" % (s - 1, k)] * rng.choice([1, -1]) for k in range(n)]
            elif z < 0.32:
                g = [x if rng.random() < 0.5 else mpf(0) for x in g]
            if fx:
                g = [fx["g%d_%d" % (s, k)] for k in range(n)]
            if whole_gradient(flags, s):
                g = [mpf(v) for v in int_gradient(s, n)]
            g = np.array(g, dtype=object)
            t = g.dot(ref.P.dot(g))
            tau = mp.sqrt(t) if t > 0 else mpf(1)
            r = q(0.001, 0.999)
            p_fail = 0.5 if failing else 0.1
            if rng.random() < p_fail:
                b0 = tau * rng.choice([1 + r, 2, -r, mpf(0), -1])
                b1 = tau * rng.choice([r, -r, -1 - r, mpf(0), 1])
            else:
                b0 = tau * rng.choice([mpf(0), r, r / 5, r / 50, mpf(1) / 4, 1 if s == len(plan) - 1 else r])
                b1 = rng.choice([b0 + tau * q(0.001, 0.9), b0, tau, tau * 2, b0 + tau / 10])
            for k in range(n):
                d["g%d_%d" % (s, k)] = g[k]
            d["b0_%d" % s] = b0
            if is_two(form):
                d["b1_%d" % s] = b1
            st = ref.step(mode, g, b0, b1 if is_two(form) else None)
            if st is None and rng.random() < 0.8:
                return None
        return d

    return f


def start_matrix(n, val, d):
    P = np.array([[mpf(0)] * n for _ in range(n)], dtype=object)
    for k in range(n):
        P[k, k] = d["kap"] if val == "scalar" else mpf(3) if val == "int" else d["r%d" % k]
    return P


def valid(p):
    rs = [v for k, v in p.vals.items() if k[0] == "r"]
    if rs and (min(rs) <= 0 or max(rs) > min(rs) * mpf(10) ** 24):      # beyond the precision of the comparison
        return False
    return all(v > 0 for k, v in p.vals.items() if k[0] == "k")


def make_beta(s, form):
    b0, b1 = tm.atom("b0_%d" % s), tm.atom("b1_%d" % s)
    return {"scalar": b0, "list1": [b0], "list2": [b0, b1], "tuple2": (b0, b1), "array2": arr([b0, b1])}[form]


def make_space(I, cls, n, val, fx=None):
    c = anchor(I, SPACES[cls], cls)
    at = (lambda k: tm.const(fx[k])) if fx else tm.atom
    v = {"scalar": at("kap"), "int": 3, "array": arr([at("r%d" % k) for k in range(n)]),
         "list": [at("r%d" % k) for k in range(n)]}[val]
    x0 = vec("x", n)
    return c, v, x0


def late_step(I, n):
    """k-th cut on the twin whose call counters are observed"""
    def step(sp, k):
        g = arr([Fraction((k * 7 + i * 3) % 5 - 2) or Fraction(1) for i in range(n)])
        outcome(I, I.getattr_(sp, "update_central_cut"), [(g, tm.const(0))])

    return step


def whole_numbers(pre, n, off):
    v = [2, 5, 1, 3] if off == 4 else [0, -2, 3, 1]
    return {"%s%d" % (pre, k): v[(off + k) % 4] for k in range(n)}


def whole_vector(run, pre, off, n, aslist):
    """concrete integers, as an integer array or a list"""
    d = whole_numbers(pre, n, off)
    for k, v in d.items():
        run.assume(tm.eq(tm.atom(k), tm.const(v)))
    return list(d.values()) if aslist else arr(list(d.values()), "i")


def whole_gradient(flags, s):
    return bool("int_later" in flags if s else "int_grad" in flags)


def int_gradient(s, n):
    v = [1, 2, -1, 3]
    return [v[(s + k) % 4] for k in range(n)]


def history(cls, n, val, plan, flags=(), judge=None):
    """run the plan on the space; judge(run, steps, n, val, plan)"""

    def sc(run, I):
        fx = fixed(n, len(plan)) if "fixed" in flags else None
        c, v, x0 = make_space(I, cls, n, val, fx)
        if "int_center" in flags or "list_center" in flags:
            x0 = whole_vector(run, "x", 0, n, "list_center" in flags)
        if "int_radii" in flags:
            v = whole_vector(run, "r", 4, n, val == "list")
        if "late" in flags:
            sp, k = widen_counters(I, run, lambda: I.call(c, [v, x0]), late_step(I, n))
            if not k:
                raise Stop("no call counters")
        else:
            sp = I.call(c, [v, x0])
        if "no_defer" in flags:
            I.setattr_(sp, "no_defer_trick", True)
        if "no_defer_class" in flags:
            I.setattr_(c, "no_defer_trick", True)
        steps, gbuf, bbuf = [], None, None
        for s, (mode, form) in enumerate(plan):
            if mode == "set":       # the caller moves the center
                y = vec("y%d_" % s, n)
                if "int_center" in flags or "list_center" in flags:
                    y = whole_vector(run, "y%d_" % s, s, n, "list_center" in flags)
                out = outcome(I, I.getattr_(sp, "set_xc"), [y])
                xc = I.call(I.getattr_(sp, "xc"), [])
                steps.append((out, Arr(xc.data.copy(), xc.dt) if isinstance(xc, Arr) else xc, None, None))
                continue
            if whole_gradient(flags, s):
                # concrete integer gradient, integer dtype
                ig = int_gradient(s, n)
                for k in range(n):
                    run.assume(tm.eq(tm.atom("g%d_%d" % (s, k)), tm.const(ig[k])))
                g = arr(ig, "i")
            elif fx:
                g = arr([fx["g%d_%d" % (s, k)] for k in range(n)])
            else:
                g = vec("g%d_" % s, n)
                if s or "zero" not in flags:
                    nonzero(run, s, n)
            beta = make_beta(s, form)
            if "buffer" in flags:       # the oracle refills the same arrays for every cut
                if gbuf is None:
                    gbuf = g
                gbuf.data[:] = g.data
                g = gbuf
                if isinstance(beta, list):
                    if bbuf is None:
                        bbuf = beta
                    bbuf[:] = beta
                    beta = bbuf
            out = outcome(I, I.getattr_(sp, METHOD[mode]), [(g, beta)])
            xc = I.call(I.getattr_(sp, "xc"), [])
            ts = I.call(I.getattr_(sp, "tsq"), [])
            steps.append((out, Arr(xc.data.copy(), xc.dt) if isinstance(xc, Arr) else xc, ts,
                          I.exit_sites[-1] if I.exit_sites else None))
            if "success" in flags and not (out.kind == "ret" and status_name(out.value) == OK):
                break
        judge(run, steps, n, val, plan)
        run.ex.last_path = list(run.path)

    return sc


def nonzero(run, s, n):
    """gradients of this step are nonzero (the zero gradient is a case of C13)"""
    for k in range(n):
        if k == n - 1 or run.choose([True, False], "g%d[%d] != 0" % (s, k)) if s == 0 else True:
            run.assume(tm.bnot(tm.eq(tm.atom("g%d_%d" % (s, k)), tm.const(0))))
            return
        run.assume(tm.eq(tm.atom("g%d_%d" % (s, k)), tm.const(0)))


def walk(p, steps, n, val, plan, on_step):
    """replay the reference at a valuation, calling on_step(s, ref, st, step, failed_before)"""
    d = p.vals
    ref = Ref(start_matrix(n, val, d), np.array([d["x%d" % k] for k in range(n)], dtype=object))
    failed = False
    for s, (mode, form) in enumerate(plan[:len(steps)]):
        if mode == "set":
            ref.c = np.array([d["y%d_%d" % (s, k)] for k in range(n)], dtype=object)
            out, xc = steps[s][:2]
            if out.kind != "ret":
                return "set_xc raises %s" % out.exc
            if not isinstance(xc, Arr) or not closes([ev(p, x) for x in xc.data.flat], list(ref.c), scale=1):
                return "the center is not the one it was set to"
            continue
        g = np.array([d["g%d_%d" % (s, k)] for k in range(n)], dtype=object)
        if ref.singular():
            return None
        st = ref.step(mode, g, d["b0_%d" % s], d["b1_%d" % s] if is_two(form) else None)
        if st is None:
            return None
        r = on_step(s, ref, st, steps[s], failed)
        if r:
            return "cut %d (%s, %s): %s" % (s + 1, mode, form, r)
        if st != OK:
            failed = True
    return None


def compare(p, ref, st, step, what=("status", "xc", "tsq")):
    out, xc, ts, _ = step
    if st == "raise":
        if out.kind != "raise":
            return "zero gradient accepted: %r" % (out,)
    else:
        if out.kind != "ret":
            return "raises %s, expected %s" % (out.exc, st)
        if "status" in what and status_name(out.value) != st:
            return "status %r, expected %s" % (out.value, st)
    if "xc" in what:
        if not isinstance(xc, Arr):
            return "center is %r" % (xc,)
        got = [ev(p, x) for x in xc.data.flat]
        if not closes(got, list(ref.c), scale=mp.sqrt(ref.unit)):
            return "center %s, expected %s" % (fmt(got), fmt(list(ref.c)))
    if "tsq" in what and st != "raise" and ref.tsq is not None:
        got = ev(p, ts)
        if not close(got, ref.tsq):
            return "size measure %s, expected %s" % (fmt(got), fmt(ref.tsq))
    return None


def judge_success(run, steps, n, val, plan):
    def on(s, ref, st, step, failed):
        if failed or st not in (OK,):
            return None
        return compare(None or on.p, ref, st, step)

    def f(p):
        on.p = p
        return walk(p, steps, n, val, plan, on)

    run.each_point("ellipsoid update", f, site=steps[-1][3])


def judge_failed(run, steps, n, val, plan):
    def on(s, ref, st, step, failed):
        if not failed and st == OK:
            return None
        return compare(on.p, ref, st, step, ("status", "xc") if st != OK else ("status", "xc", "tsq"))

    def f(p):
        on.p = p
        return walk(p, steps, n, val, plan, on)

    run.each_point("unsuccessful cut leaves the ellipsoid alone", f, site=steps[-1][3])
