"""Profit oracles: reference and scenarios (C22, C23)."""
import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import Arr
from sa.lib import anchor, arr, close, closes, ev, fmt, outcome, sg, snapshot, vec
from sa.terms import UNDEF

PR = "ellalgo.oracles.profit_oracle"
MODS = (PR,)


def params():
    return (tm.atom("p"), tm.atom("A"), tm.atom("k"))


def data(d):
    g = lambda k: d[k]
    return dict(pA=g("p") * g("A"), k=g("k"), a=[g("a0"), g("a1")], v=[g("v0"), g("v1")])


class Ref:
    def __init__(self, D, x, gam):
        self.x, self.gam = x, gam
        self.q = [D["v"][i] * mp.exp(x[i]) for i in (0, 1)]
        self.vy = self.q[0] + self.q[1]
        self.logc = mp.log(D["pA"]) + sum(D["a"][i] * x[i] for i in (0, 1))
        self.cobb = mp.exp(self.logc)
        self.a = D["a"]
        self.f1 = x[0] - mp.log(D["k"])
        self.ok = gam + self.vy > 0
        self.f2 = mp.log(gam + self.vy) - self.logc if self.ok else None

    def cuts(self):
        """all cuts for violated constraints"""
        out = []
        if sg(self.f1) > 0:
            out.append(("limit", [mpf(1), mpf(0)], self.f1))
        if sg(self.f2) > 0:
            out.append(("profit level", self.grad(self.gam), self.f2))
        return out

    def grad(self, gam):
        return [self.q[i] / (gam + self.vy) - self.a[i] for i in (0, 1)]


def cut_at(p, cut):
    if not isinstance(cut, (tuple, list)) or len(cut) != 2 or not isinstance(cut[0], Arr):
        return None
    g, b = [ev(p, c) for c in cut[0].data.flat], ev(p, cut[1])
    if UNDEF in g or b is UNDEF:
        return None
    return g, b


def same_cut(got, want, scale=1):
    return got is not None and closes(got[0], want[1], scale) and close(got[1], want[2], scale)


def judge_feas(p, r, cut, which=""):
    bad = r.cuts()
    if cut is None:
        return "%saccepts a point violating the %s constraint" % (which, bad[0][0]) if bad else None
    got = cut_at(p, cut)
    if got is None:
        return "%scut is %r" % (which, cut)
    if not any(same_cut(got, b) for b in bad):
        return "%scut (%s, %s), violated: %s" % (which, fmt(got[0]), fmt(got[1]), [(b[0], fmt(b[1]), fmt(b[2])) for b in bad])


def judge_optim(p, r, value, which=""):
    if not isinstance(value, (tuple, list)) or len(value) != 2:
        return "%sassess_optim returns %r" % (which, value)
    cut, val = value
    bad = r.cuts()
    if bad or val is None:
        if val is not None:
            return "%svalue %s although the %s constraint is violated" % (which, fmt(ev(p, val)), bad[0][0])
        if not bad:
            return "%sfeasible point not reported as an improvement" % which
        return judge_feas(p, r, cut, which)
    want = r.cobb - r.vy
    v = ev(p, val)
    if not close(v, want, r.cobb):
        return "%svalue %s, the profit is %s" % (which, fmt(v), fmt(want))
    got = cut_at(p, cut)
    if not same_cut(got, ("", r.grad(want), mpf(0))):
        return "%soptimality cut %s, expected (%s, 0)" % (which, fmt(got) if got else cut, fmt(r.grad(want)))


def sampler(xs, gs, extra=None):
    def f(rng, i):
        q = lambda lo, hi: mpf(rng.randrange(int(lo * 1000), int(hi * 1000))) / 1000
        d = dict(p=q(1, 30), A=q(1, 50), k=q(2, 40), a0=q(0.05, 0.8), a1=q(0.05, 0.8), v0=q(0.1, 5), v1=q(0.1, 5))
        # units: quantities, prices and money may be of any magnitude
        up = [0, 0]
        if i % 7 == 6:
            up = [rng.choice([0, 1, 3, 5, 7, 9, 12]), rng.choice([0, 1, 3, 5, 7, 9, 12])]
            d["k"] *= mpf(10) ** up[0]
            d["v0"] /= mpf(10) ** rng.choice([0, up[0]])
            d["v1"] /= mpf(10) ** rng.choice([0, up[1]])
            d["p"] *= mpf(10) ** rng.choice([0, 0, 2, 6, -3])
            d["A"] *= mpf(10) ** rng.choice([0, 0, 2, 6, -3])
        if extra:
            extra(rng, i, d, q)
        for t, (x, g) in enumerate(zip(xs, gs)):
            z = (i + t) % 4
            d[x + "0"], d[x + "1"] = mp.log(d["k"]) + (q(-2, 0) if z < 3 else q(0, 1)), q(-1, 4) + mp.log(mpf(10)) * up[1]
            if t and i % 5 == 2:
                d[x + "0"], d[x + "1"] = d[xs[t - 1] + "0"], d[xs[t - 1] + "1"]
            D = data(d)
            r = Ref(D, [d[x + "0"], d[x + "1"]], mpf(0))
            prof = r.cobb - r.vy
            d[g] = prof - abs(prof) * q(0, 1) if z < 2 else prof + abs(prof) * q(0, 1)
            if i % 13 == 5:
                d[g] = mpf(0)
        return d

    return f


def valid_for(xs, gs, extra=None):
    def f(p):
        v = p.vals
        if any(v[k] <= 0 for k in ("p", "A", "k", "v0", "v1", "a0", "a1")):
            return False
        if any(abs(v[x + c]) > 60 for x in xs for c in "01"):
            return False
        D = data(v)
        if any(not Ref(D, [v[x + "0"], v[x + "1"]], v[g]).ok for x, g in zip(xs, gs)):
            return False
        return extra(p) if extra else True

    return f


def ref_at(p, x, g):
    v = p.vals
    return Ref(data(v), [v[x + "0"], v[x + "1"]], v[g])
