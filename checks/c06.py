"""C06 bisection adaptor isolates the feasibility subproblem"""
from mpmath import mpf

from sa import terms as tm
from sa.interp import Arr
from sa.lib import anchor, ev, close, fmt, outcome
from sa.terms import UNDEF

from . import driver_common as dc


def make(mi, calls=1):
    def sc(run, I):
        log = []
        cls = anchor(I, dc.CP, "BSearchAdaptor")
        sp = dc.Space(run, I, log, "s")
        om = dc.Oracle(run, I, log, sp)
        opt = dc.options(run, I, mi)
        ad = I.call(cls, [om, sp, opt])
        for c in range(calls):
            del log[:]
            sp.clones = []
            before = tuple(sp.live.data.flat)
            g = tm.atom("gam%d" % c)
            if c:
                run.nloops = 0
            out = outcome(I, I.getattr_(ad, "assess_bs"), [g])
            xb = outcome(I, I.getattr_, [ad, "x_best"]) if False else I.getattr_(ad, "x_best")

            def at(p):
                if out.kind != "ret":
                    return "assess_bs raises %s" % out.exc
                if any(e[0] == "update" and e[1] == "s" for e in log):
                    return "the subproblem cuts the adaptor's own search space instead of a copy"
                ups = [i for i, e in enumerate(log) if e[0] == "gamma"]
                ass = [i for i, e in enumerate(log) if e[0] == "assess"]
                if len(ups) < 1 or (ass and ups[0] > ass[0]):
                    return "the oracle is asked before it is told the level"
                if any(i > ass[0] for i in ups) if ass else False:
                    return "the level changes while the subproblem runs"
                v = ev(p, log[ups[-1]][1])
                if v is UNDEF or not close(v, p.vals["gam%d" % c]):
                    return "the oracle is told level %s, expected %s" % (fmt(v), fmt(p.vals["gam%d" % c]))
                if not sp.clones:
                    return "no copy of the search space is made"
                cl = sp.clones[-1]
                try:
                    end, x = dc.feas_spec(cl, [e for e in log if e[0] != "gamma"], mi, first=before, result=False)(p, None)
                except dc.Bad as e:
                    return "subproblem: %s" % e
                sets = [e for e in log if e[0] == "set_xc"]
                if end == "accepted":
                    if out.value is not True:
                        return "the level is feasible but %r is returned" % (out.value,)
                    if len(sets) < 1 or sets[-1][1] != "s" or not dc.eq_tokens(sets[-1][2], x):
                        return "the feasible point is not stored in the adaptor's search space"
                    if not dc.eq_tokens(xb, x):
                        return "x_best is not the feasible point"
                else:
                    if out.value is not False:
                        return "the level is not shown feasible but %r is returned" % (out.value,)
                    if sets:
                        return "the adaptor's center moves although no feasible point was found"
                    if not dc.eq_tokens(xb, before):
                        return "x_best changes although no feasible point was found"

            if not run.each_point("isolated subproblem", at):
                return
            if c + 1 < calls:
                om.k = 0
        run.ex.last_path = list(run.path)

    return sc


def smp(rng, i):
    d = dc.sampler(prefix="s'0")(rng, i)
    return d


def run(ctx):
    dc.explore_driver(ctx, "assess_bs", lambda mi: make(mi), smp)
    ctx.explore("assess_bs twice", make(2, 2), smp, dc.MODS, valid=dc.valid, npoints=60, ints=dc.INTS)
    ctx.flush()
    ctx.floor("partitions", 30, ctx.partitions())
