"""Low-pass filter oracle: reference constraint set and scenarios (C20, C21)."""
from fractions import Fraction

import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import Arr, Stop
from sa.lib import (COUNTERS, anchor, arr, close, closes, constants, counter_vals, ev, fmt, loop_dims, outcome, sg, snapshot, vec,
                    widen_counters)
from sa.terms import UNDEF

LP = "ellalgo.oracles.lowpass_oracle"
MODS = (LP,)


class Spec:
    def __init__(self, ndim, wpass, wstop):
        self.n, self.wpass, self.wstop = ndim, wpass, wstop
        self.m = 15 * ndim
        self.npass = int(mp.floor(mpf(wpass) * (self.m - 1))) + 1
        self.nstop = int(mp.floor(mpf(wstop) * (self.m - 1))) + 1
        self.rows = [[mpf(1)] + [2 * mp.cos(k * mp.pi * i / (self.m - 1)) for k in range(1, ndim)] for i in range(self.m)]

    def resp(self, i, x):
        return sum(a * b for a, b in zip(self.rows[i], x))

    def violated(self, x, lp, up, sp):
        """all cuts that describe a violated requirement"""
        out = []
        for i in range(self.m):
            r = self.rows[i]
            v = self.resp(i, x)
            neg = [-c for c in r]
            if i < self.npass:
                if sg(v, up) > 0:
                    out.append((i, "passband upper", r, (v - up, v - lp)))
                if sg(v, lp) < 0:
                    out.append((i, "passband lower", neg, (lp - v, up - v)))
            elif i >= self.nstop:
                if sg(v, sp) > 0:
                    out.append((i, "stopband upper", r, (v - sp, v)))
                if sg(v) < 0:
                    out.append((i, "stopband sign", neg, (-v, -v + sp)))
            elif sg(v) < 0:
                out.append((i, "transition sign", neg, (-v,)))
        if sg(x[0]) < 0:
            out.append((-1, "leading coefficient", [mpf(-1)] + [mpf(0)] * (self.n - 1), (-x[0],)))
        return out


def cut_values(p, cut):
    """(gradient list, beta tuple) at a valuation or a string"""
    if not (isinstance(cut, (tuple, list)) and len(cut) == 2):
        return "cut is %r" % (cut,)
    g, b = cut
    if not isinstance(g, Arr):
        return "gradient is %r" % (g,)
    gv = [ev(p, c) for c in g.data.flat]
    bs = list(b) if isinstance(b, (tuple, list)) else list(b.data.flat) if isinstance(b, Arr) and b.data.ndim else [b]
    bv = tuple(ev(p, c) for c in bs)
    if UNDEF in gv or UNDEF in bv:
        return "undefined cut"
    return gv, bv


def matches(got, want):
    gv, bv = got
    _, _, g, b = want
    return len(gv) == len(g) and len(bv) == len(b) and closes(gv, g, 1) and closes(bv, b, max(abs(c) for c in g))


def bump(sp, k, sign, c, s):
    """coefficients (ndim >= 3) of c - sign*s*(cos w - cos w_k)^2: extremum exactly at w_k"""
    ck = mp.cos(mp.pi * k / (sp.m - 1))
    s = sign * s
    x = [c - s * (mpf(1) / 2 + ck * ck), s * ck, -s / 4]
    return x + [mpf(0)] * (sp.n - 3)


def pick_x(rng, sp, L, i, pre="x"):
    """a coefficient vector that violates (almost) only one requirement: grid
    point and side run through all combinations with the sample number"""
    q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
    e = rng.choice([mpf("1e-6"), mpf("1e-9"), mpf("0.01")])
    lp, up, st = L
    if i % 5 == 0 or sp.n < 3:
        z = i // 5 % 5
        if z == 0:
            x = [q(-1, 2)] + [q(-0.6, 0.6) for _ in range(sp.n - 1)]
        elif z == 1:
            c = q(0, 1.6)
            x = [c, q(-0.5, 0.5) * c] + [mpf(0)] * (sp.n - 2)
        elif z == 2:
            c = rng.choice([up + e, lp - e, st + e, -e, up, lp, st])
            x = [c - 2 * e, e] + [mpf(0)] * (sp.n - 2) if rng.random() < 0.5 else [c, mpf(0)] + [mpf(0)] * (sp.n - 2)
        else:
            x = [(lp + min(up, st)) / 2, q(-0.02, 0.02)] + [mpf(0)] * (sp.n - 2)
        x = x[:sp.n]
    else:
        t = i - i // 5 - 1
        k, sign = t % sp.m, 1 if t // sp.m % 2 else -1
        if k < sp.npass:
            c = up + e if sign > 0 else lp - e
        elif k >= sp.nstop:
            c = st + e if sign > 0 else -e
        else:
            sign, c = -1, -e
        x = bump(sp, k, sign, c, q(0.001, 0.4) if sign > 0 else q(0.05, 0.4))
    return {"%s%d" % (pre, a): x[a] for a in range(sp.n)}


# levels under which one requirement can be violated alone (low-order responses)
SETS = [("1/4", "5/4", "3/2"), ("0", "3/2", "1"), ("1/8", "5/4", "5/4")]


def nums(L):
    return [mpf(Fraction(v).numerator) / Fraction(v).denominator for v in L]


def levels(rng, i):
    if i % 3:
        return nums(SETS[i % 3 - 1])
    q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
    lp = rng.choice([mpf(0), q(0.1, 1), mpf(-2)])
    return [lp, lp + q(0.1, 3), rng.choice([q(0.01, 1), q(1, 4), mpf(3)])]


def sampler(sp, L=None, gamma=False):
    def f(rng, i):
        lv = nums(L) if L else levels(rng, i)
        d = {} if L else dict(zip(("lp", "up", "sp"), lv))
        d.update(pick_x(rng, sp, lv, i // 3 if not L else i))
        return d

    return f


def lead_sampler(sp, L=None):
    """responses near zero under a negative lower level: only the leading coefficient decides"""
    def f(rng, i):
        q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
        d = {}
        if not L:
            d = {"lp": -q(1, 4), "up": q(0.5, 2), "sp": rng.choice([q(0.01, 1), q(1, 9)])}
        e = rng.choice([mpf("1e-4"), mpf("1e-7"), mpf("1e-10"), mpf("0.01"), mpf("0.2")])
        d["x0"] = rng.choice([-e, -e, -e, e, mpf(0)])
        for k in range(1, sp.n):
            d["x%d" % k] = rng.choice([mpf(0), q(-0.1, 0.1)])
        return d

    return f


def lv_at(p, L):
    return nums(L) if L else [p.vals[k] for k in ("lp", "up", "sp")]


def valid(p):
    v = p.vals
    return "lp" not in v or v["lp"] < v["up"] and v["sp"] > 0


def make_oracle(I, sp, L):
    c = lambda s: tm.const(Fraction(s))
    lv = [c(v) for v in L] if L else [tm.atom(k) for k in ("lp", "up", "sp")]
    return I.call(anchor(I, LP, "LowpassOracle"), [sp.n, c(sp.wpass), c(sp.wstop)] + lv)


def late_oracle(run, I, sp, L, meth):
    """an oracle after arbitrarily many feasible queries (call counters widened; the
    number of observed calls exceeds the sweep length, so cyclic positions are not counters)"""
    ok = arr([(Fraction(L[0]) + min(Fraction(L[1]), Fraction(L[2]))) / 2] + [Fraction(0)] * (sp.n - 1))
    ex = [tm.const(Fraction(L[2]))] if meth == "assess_optim" else []
    o, k = widen_counters(I, run, lambda: make_oracle(I, sp, L), lambda o, k: outcome(I, I.getattr_(o, meth), [ok] + ex), times=sp.m + 5)
    if not k:
        raise Stop("no call counters")
    return o


def late_sampler(ctx, smp):
    consts = constants(ctx.src, MODS)

    def f(rng, i):
        d = smp(rng, i)
        counter_vals(rng, consts, d)
        return d

    return f


def history_points(sp, L):
    """concrete earlier queries that leave the sweep in different positions"""
    lp, up, st = nums(L)
    out, e = [], mpf("0.001")
    for k in sorted({0, 1, sp.npass - 1, sp.npass // 2, sp.npass, (sp.npass + sp.nstop) // 2, sp.nstop - 1, sp.nstop,
                     (sp.nstop + sp.m) // 2, sp.m - 2, sp.m - 1} & set(range(sp.m))):
        for sign in (1, -1):
            if k < sp.npass:
                c = up + e if sign > 0 else lp - e
            elif k >= sp.nstop:
                c = st + e if sign > 0 else -e
            elif sign > 0:
                continue
            else:
                c = -e
            x = bump(sp, k, sign, c, mpf("0.3")) if sp.n >= 3 else [c, e / 10]
            out.append((k, sign, [mp.nstr(v, 17) for v in x]))
    return out


def wide_points(sp, L, stop_only=False):
    """concrete coefficients of a long filter whose response leaves the limits (or peaks)
    at exactly one grid point, at the band edges and in between"""
    lp, up, st = nums(L)
    e, out = mpf("1e-15"), []
    ks = {sp.nstop, sp.nstop + 1, (sp.nstop + sp.m) // 2, sp.m - 2, sp.m - 1}
    if not stop_only:
        ks |= {0, 1, sp.npass - 1, sp.npass, sp.nstop - 1}
    for k in sorted(ks & set(range(sp.m))):
        sign = -1 if sp.npass <= k < sp.nstop or (k % 2 and not stop_only) else 1
        d = -e if stop_only else e
        c = (up + d if sign > 0 else lp - d) if k < sp.npass else st + d if sign > 0 else -d
        out.append((k, [Fraction(mp.nstr(v, 45)) for v in bump(sp, k, sign, c, mpf("0.3"))]))
    return out


def wide_dims(ctx):
    """the length the shipped case has by default, and those the source singles out"""
    return sorted({48} | loop_dims(ctx.src, MODS, 6, 80) if ctx.thorough else ({48} | loop_dims(ctx.src, MODS, 41, 80)))
