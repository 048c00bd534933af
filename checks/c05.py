"""C05 bisection keeps a certified bracket"""
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import HostObj
from sa.lib import anchor, close, ev, fmt, outcome, sg
from sa.terms import T, UNDEF

from . import driver_common as dc


class Orc(HostObj):
    def __init__(self, run, kind="float"):
        super().__init__()
        self.run, self.log, self.kind = run, [], kind

    def m_assess_bs(self, gamma):
        r = self.run.choose([True, False], "assess_bs #%d" % len(self.log))
        self.log.append((gamma, r))
        return dc.np_bool(r) if self.kind == "np" else r


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, T) and v.typ == "i"


def make_for(kind):
    ty = "i" if kind == "int" else "f"

    def make(mi):
        def sc(run, I):
            f = anchor(I, dc.CP, "bsearch")
            om = Orc(run, kind)
            opt = dc.options(run, I, mi)
            # the upper end alone decides whether the search is over integers
            br = (tm.atom("lo", "i" if kind == "int-float" else ty), tm.atom("hi", ty))
            if kind == "list":
                br = list(br)
            out = outcome(I, f, [om, br, opt])

            def at(p):
                if out.kind != "ret" or not isinstance(out.value, (tuple, list)) or len(out.value) != 2:
                    return "bsearch %r" % (out,)
                l, u = p.vals["lo"], p.vals["hi"]
                B, m, q = dc.budget(p, mi), 0, list(om.log)
                while True:
                    lab = dc.label(p, run, m, mi != "sym")
                    if sg(lab, B) >= 0:
                        k, why = B, "the budget is used up"
                        break
                    if sg((u - l) / 2, p.vals["tol"]) < 0:
                        k, why = lab, "the bracket is narrower than the tolerance"
                        break
                    mid = l + (u - l) / 2
                    if kind == "int":
                        mid = mp.floor(mid + mpf(10) ** -50) if mid >= 0 else mp.ceil(mid - mpf(10) ** -50)
                    if not q:
                        return "stops after %d queries with bracket [%s, %s]" % (m, fmt(l), fmt(u))
                    g, r = q.pop(0)
                    if kind == "int" and not is_int(g):
                        return "integer bracket queried at a non-integer value %r" % (g,)
                    g = ev(p, g)
                    if g is UNDEF or not close(g, mid, max(abs(l), abs(u))):
                        return "query %d at %s, expected the midpoint %s of [%s, %s]" % (m + 1, fmt(g), fmt(mid), fmt(l), fmt(u))
                    if r:
                        u = mid
                    else:
                        l = mid
                    m += 1
                if q:
                    return "goes on although %s" % why
                got = ev(p, out.value[0])
                if got is UNDEF or not close(got, u, max(abs(l), abs(u))):
                    return "returns %s, but the least value known to be feasible is %s" % (fmt(got), fmt(u))
                if kind == "int" and not is_int(out.value[0]):
                    return "integer bracket gives a non-integer result"
                n = ev(p, out.value[1])
                if n is UNDEF or not close(n, k):
                    return "reports %s iterations, expected %s (%s)" % (fmt(n), fmt(k), why)

            run.each_point("bisection", at)
            run.ex.last_path = list(run.path)

        return sc

    return make


def extra(kind):
    def f(rng, i, d):
        if kind == "int-float":
            d["lo"] = mpf(rng.randrange(-3, 3))
            d["hi"] = d["lo"] + rng.choice([0, 1, mpf(1) / 2, mpf(rng.randrange(1, 5000)) / 1000, 100, -1])
            d["tol"] = rng.choice([mpf("1e-20"), mpf("0.25"), mpf("0.1"), abs(d["hi"] - d["lo"]) / rng.choice([2, 4, 8, 16]) or mpf(1)])
        elif kind == "int":
            d["lo"] = mpf(rng.randrange(-20, 20))
            d["hi"] = d["lo"] + rng.choice([0, 1, 2, 3, 8, 100, -1])
            d["tol"] = mpf(rng.choice(["0.5", "1", "1e-20", "0.75", "2"]))
        else:
            d["lo"] = mpf(rng.randrange(-2000, 2000)) / 1000
            d["hi"] = d["lo"] + rng.choice([0, 1, mpf(1) / 2, mpf(rng.randrange(1, 5000)) / 1000, 100, -1])
            d["tol"] = rng.choice([mpf("1e-20"), mpf("0.25"), mpf("0.1"), abs(d["hi"] - d["lo"]) / rng.choice([2, 4, 8, 16]) or mpf(1)])
        for k in [k for k in d if ".tsq" in k or k.startswith("gam")]:
            del d[k]

    return f


def run(ctx):
    for kind in ("float", "int", "list", "int-float", "np"):
        dc.explore_driver(ctx, "bsearch/%s" % kind, make_for(kind), dc.sampler(extra=extra(kind)), npoints=140, ints=dc.INTS + {"int": ("lo", "hi"), "int-float": ("lo",)}.get(kind, ()))
    ctx.flush()
    ctx.floor("partitions", 40, ctx.partitions())
