"""C15 instances do not share state; calculators have no memory; copies are independent"""
from fractions import Fraction

from mpmath import mpf

from sa import lib, terms as tm
from sa.interp import Arr, H, Interp
from sa.lib import anchor, arr, cells, close, closes, ev, fmt, outcome, snapshot, symmat, vec
from sa.terms import UNDEF

from . import c18, c23
from . import calc_common as cc
from . import ldlt_common as ld
from . import lowpass_common as lc
from . import profit_common as pc
from . import space_common as sp

c = lambda s: tm.const(Fraction(s))


def ca(*v):
    return arr([Fraction(x) for x in v])


# a subject: constructor and calls under observation (abstract data), and the same
# with other, concrete data for the instance that must not interfere
class Subject:
    def __init__(self, mod, cls, new, calls, other, other_calls, other_cls=None):
        self.mod, self.cls, self.new, self.calls, self.other, self.other_calls = mod, cls, new, calls, other, other_calls
        self.other_cls = other_cls or (mod, cls)

    def make(self, I, args):
        return I.call(anchor(I, self.mod, self.cls), args)

    def make_other(self, I):
        return I.call(anchor(I, *self.other_cls), self.other())

    def do(self, I, o, meth, args):
        if meth.startswith("set:"):
            path = meth[4:].split(".")
            for a in path[:-1]:
                o = I.getattr_(o, a)
            I.setattr_(o, path[-1], args[0])
            return None
        out = outcome(I, I.getattr_(o, meth), args)
        return (out.kind, out.exc if out.kind == "raise" else freeze(out.value))


def freeze(v):
    """copy of a result, so that later changes show up as differences"""
    if isinstance(v, Arr):
        return Arr(v.data.copy(), v.dt)
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


def same(run, a, b, what):
    def f(p):
        if a[0] != b[0]:
            return "%s: %s / %s" % (what, a, b)
        if a[0] == "raise":
            return None if a[1] == b[1] else "%s: raises %s / %s" % (what, a[1], b[1])
        if snapshot(a[1]) == snapshot(b[1]):
            return None
        x, y = cells(a[1]), cells(b[1])
        if len(x) != len(y):
            return "%s: %r / %r" % (what, a[1], b[1])
        for u, w in zip(x, y):
            un, wn = ev(p, u), ev(p, w)
            if un is UNDEF and wn is UNDEF:
                if snapshot(u) != snapshot(w) and repr(getattr(u, "d", u)) != repr(getattr(w, "d", w)):
                    return "%s: %r / %r" % (what, u, w)
            elif un is UNDEF or wn is UNDEF or not close(un, wn):
                return "%s: %s alone, %s when another instance is used" % (what, fmt(un), fmt(wn))

    return run.each_point("instances are independent", f)


def subjects():
    P = ("central", "scalar")
    out = []
    for cls, mod in sp.SPACES.items():
        for val in ("array", "scalar"):
            def new(cls=cls, val=val):
                return [vec("r", 2) if val == "array" else tm.atom("kap"), vec("x", 2)]

            def calls():
                return [("update_bias_cut", [(vec("g0_", 2), tm.atom("b0_0"))]), ("xc", []), ("tsq", []),
                        ("update_q", [(vec("g1_", 2), [tm.atom("b0_1"), tm.atom("b1_1")])]), ("xc", []), ("tsq", [])]

            def ocalls():
                return [("set:no_defer_trick", [True]), ("set:helper.use_parallel_cut", [False]),
                        ("update_bias_cut", [(ca(1, 2), c("1/10"))]), ("update_q", [(ca(-1, 1), [c("1/20"), c("1/5")])]),
                        ("update_central_cut", [(ca(1, 1), c(0))]), ("set_xc", [ca(9, 9)]), ("xc", [])]

            plan = [("deep", "scalar"), ("q", "list2")]
            out.append((Subject(mod, cls, new, calls, lambda: [c(5), ca(3, 4)], ocalls),
                        sp.sampler(2, val, plan, False), sp.valid, sp.MODS, 60))
    out.append((Subject("ellalgo.ell_calc", "EllCalc", lambda: [3], lambda: [
        ("calc_single_or_parallel", [[tm.atom("b0"), tm.atom("b1")], tm.atom("tsq")]),
        ("calc_single_or_parallel_q", [tm.atom("b0"), tm.atom("tsq")]),
        ("calc_single_or_parallel_central_cut", [[c(0), tm.atom("b1")], tm.atom("tsq")])],
        lambda: [5], lambda: [("set:use_parallel_cut", [False]), ("calc_single_or_parallel", [[c("1/10"), c("1/2")], c(2)]), ("calc_single_or_parallel_q", [c("1/10"), c(2)]),
                              ("calc_single_or_parallel_central_cut", [[c(0), c("1/2")], c(2)])]),
        cc.sampler, cc.valid, cc.MODS, 80))
    # same order and different order; every observer is used after the factorization
    for k, (oo, ocalls) in enumerate([
            (3, lambda: [("factorize", [ca2([[1, 2, 0], [2, 1, 0], [0, 0, 1]])]), ("witness", []),
                         ("sym_quad", [ca2([[1, 0, 0], [0, 1, 0], [0, 0, 1]])])]),
            (2, lambda: [("factorize", [ca2([[4, 1], [1, 3]])]), ("sqrt", []), ("factorize", [ca2([[1, 2], [2, 1]])]), ("witness", []),
                         ("sym_quad", [ca2([[1, 0], [0, 1]])])]),
            (2, lambda: [("factor", [H(lambda i, j: c(1 + 2 * (i == j) - 5 * (i * j)), "get_elem")]), ("witness", []), ("factor_with_allow_semidefinite", [H(lambda i, j: c(1 + 2 * (i == j) - 5 * (i * j)), "get_elem")])])]):
        calls = lambda: [("factorize", [symmat("A", 2)]), ("is_spd", []), ("sqrt", []), ("witness", []), ("sym_quad", [symmat("A", 2)])]
        out.append((Subject(ld.LD, "LDLTMgr", lambda: [2], calls, lambda oo=oo: [oo], ocalls),
                    ld.sampler([("A", 2)]), None, ld.MODS, 60))
    for cls, (mod, const) in c18.ORACLES.items():
        def new(const=const):
            F, B = c18.mats(2, 2, const, False)
            return [F, B] if const else [F]

        def other(const=const):
            F = [ca2([[1, 2], [2, 5]]), ca2([[0, 1], [1, 3]])]
            return [F, ca2([[1, 0], [0, 1]])] if const else [F]

        out.append((Subject(mod, cls, new, lambda: [("assess_feas", [vec("x", 2)]), ("assess_feas", [vec("y", 2)])],
                            other, lambda: [("assess_feas", [ca(3, 1)]), ("assess_feas", [ca(-1, 2)]), ("assess_feas", [ca("1/9", "1/7")])]),
                    c18.sampler(2, 2, const, False, 2), None, c18.MODS, 60))
    spec = lc.Spec(2, "0.3", "0.6")
    base = lc.sampler(spec)
    out.append((Subject(lc.LP, "LowpassOracle", lambda: [2, c("0.3"), c("0.6"), tm.atom("lp"), tm.atom("up"), tm.atom("sp")],
                        lambda: [("assess_feas", [vec("x", 2)]), ("assess_optim", [vec("x", 2), tm.atom("sp")])],
                        lambda: [2, c("0.2"), c("0.5"), c("1/2"), c("3/2"), c("1/9")],
                        lambda: [("assess_feas", [ca(1, 0)]), ("assess_optim", [ca("1/2", "1/4"), c("1/3")]), ("assess_feas", [ca(5, 1)])]),
                base, lc.valid, lc.MODS, 90))
    xs, gs = "xy", ["gam0", "gam1"]
    for cls in ("ProfitOracle", "ProfitRbOracle", "ProfitQOracle"):
        rb, q = cls == "ProfitRbOracle", cls == "ProfitQOracle"

        def new(rb=rb):
            return [pc.params(), vec("a", 2), vec("v", 2)] + ([tuple(tm.atom(e) for e in c23.EN)] if rb else [])

        def other(rb=rb):
            return [(c(3), c(5), c(9)), ca("0.2", "0.3"), ca(1, 2)] + ([(c("0.01"), c("0.02"), c("0.1"), c("0.2"), c("0.3"))] if rb else [])

        m = "assess_optim_q" if q else "assess_optim"

        def calls(q=q, m=m):
            return [(m, [vec("x", 2), tm.atom("gam0")] + ([False] if q else [])), (m, [vec("y", 2), tm.atom("gam1")] + ([True] if q else []))]

        def ocalls(q=q, m=m):
            return [(m, [ca(0, 1), c(0)] + ([False] if q else [])), (m, [ca(5, 1), c(1)] + ([False] if q else [])),
                    (m, [ca(-1, 1), c("1/10")] + ([True] if q else []))]

        out.append((Subject(pc.PR, cls, new, calls, other, ocalls), c23.rb_sampler(2) if rb else pc.sampler(xs, gs),
                    c23.rb_valid(2) if rb else pc.valid_for(xs, gs), pc.MODS, 200))
    return out


def crossed(subs):
    """the other instance is of another class of the same family"""
    by = {}
    for s, smp, valid, mods, npts in subs:
        by.setdefault(s.cls, (s, smp, valid, mods, npts))
    out = []
    for a, b in (("Ell", "EllStable"), ("EllStable", "Ell"), ("EllCalc", "Ell"), ("Ell", "EllCalc"), ("LMIOracle", "LMIOldOracle"),
                 ("LMIOldOracle", "LMI0Oracle"), ("LMI0Oracle", "LMIOracle"), ("LDLTMgr", "LMIOracle"), ("LMIOracle", "LDLTMgr"),
                 ("ProfitOracle", "ProfitRbOracle"), ("ProfitRbOracle", "ProfitOracle"), ("ProfitQOracle", "ProfitRbOracle"),
                 ("ProfitOracle", "ProfitQOracle")):
        s, smp, valid, mods, npts = by[a]
        o = by[b][0]
        out.append((Subject(s.mod, a, s.new, s.calls, o.other, o.other_calls, (o.mod, b)), smp, valid, tuple(set(mods) | set(by[b][3])), npts // 2))
    return out


def calc_dims(src):
    """dimensions that a table indexed by a number occurring in the code would confuse with 3"""
    return [3 + k for k in sorted({int(c) for c in lib.constants(src, cc.MODS) if c.denominator == 1 and 2 < c <= 10 ** 6})[:6]]


NEAR = [("calc_single_or_parallel", lambda q: [[tm.atom("b0" + q), tm.atom("b1" + q)], tm.atom("tsq" + q)]),
        ("calc_single_or_parallel_q", lambda q: [[tm.atom("b0" + q), tm.atom("b1" + q)], tm.atom("tsq" + q)]),
        ("calc_single_or_parallel", lambda q: [tm.atom("b0" + q), tm.atom("tsq" + q)]),
        ("calc_single_or_parallel_q", lambda q: [tm.atom("b0" + q), tm.atom("tsq" + q)]),
        ("calc_single_or_parallel_central_cut", lambda q: [[c(0), tm.atom("b1" + q)], tm.atom("tsq" + q)])]


def near_scenario(meth, args):
    """a calculator asked twice, about cuts that may agree in any part"""

    def sc(run, I):
        calc = I.call(anchor(I, "ellalgo.ell_calc", "EllCalc"), [3])
        two = I.call(anchor(I, "ellalgo.ell_calc", "EllCalc"), [3])
        f = lambda o, q: (lambda r: (r.kind, r.exc if r.kind == "raise" else freeze(r.value)))(outcome(I, I.getattr_(o, meth), args(q)))
        alone = f(calc, "")
        f(two, "'")
        same(run, alone, f(two, ""), "EllCalc.%s after another question" % meth)
        run.ex.last_path = list(run.path)

    return sc


def near_sampler(rng, i):
    d = cc.sampler(rng, i)
    e = cc.sampler(rng, i + 1)
    for k in ("b0", "b1", "tsq"):
        z = rng.random()
        d[k + "'"] = d[k] if z < 0.4 else d[k] + d["tsq"] * mpf(10) ** rng.choice([-9, -13, -4]) if z < 0.7 else e[k]
    return d


def near_valid(p):
    return p.vals["tsq"] > 0 and p.vals["tsq'"] > 0


def ca2(rows):
    return arr([[Fraction(x) for x in r] for r in rows])


def scenario(s, order):
    def sc(run, I):
        a = s.make(I, s.new())
        alone = [s.do(I, a, m, args) for m, args in s.calls()]
        J = Interp(run.ex.src, run)
        run.interp = J
        try:
            if order == "other first":
                b = s.make_other(J)
                for m, args in s.other_calls():
                    s.do(J, b, m, args)
            a = s.make(J, s.new())
            if order != "other first":
                b = s.make_other(J)
            oc = s.other_calls()
            mixed = []
            for k, (m, args) in enumerate(s.calls()):
                mixed.append(s.do(J, a, m, args))
                if order != "other first":
                    om, oargs = oc[k % len(oc)]
                    s.do(J, b, om, oargs)
            for k, (x, y) in enumerate(zip(alone, mixed)):
                if not same(run, x, y, "%s call %d (%s)" % (s.cls, k + 1, s.calls()[k][0])):
                    return
            run.ex.last_path = list(run.path)
        finally:
            J.close()

    return sc


# ---------------------------------------------------------------- calculators without memory
def memory_scenario(s):
    def sc(run, I):
        a = s.make(I, s.new())
        fresh = [s.do(I, a, m, args) for m, args in s.calls()[:1]]
        J = Interp(run.ex.src, run)
        run.interp = J
        try:
            b = s.make(J, s.new())
            for m, args in s.other_calls():
                if not m.startswith("set:"):
                    s.do(J, b, m, args)
            later = [s.do(J, b, m, args) for m, args in s.calls()[:1]]
            same(run, fresh[0], later[0], "%s.%s after earlier calls" % (s.cls, s.calls()[0][0]))
            run.ex.last_path = list(run.path)
        finally:
            J.close()

    return sc


def sized(s):
    """the other questions, as far as they fit the instance under observation"""
    if s.cls == "LDLTMgr":
        return [("factorize", [ca2([[4, 1], [1, 3]])]), ("sqrt", []), ("factorize", [ca2([[1, 2], [2, 1]])]), ("witness", []),
                ("sym_quad", [ca2([[1, 0], [0, 1]])])]
    return s.other_calls()


def kept_scenario(s):
    """what a call returned is the caller's: later calls do not change it"""
    def sc(run, I):
        a = s.make(I, s.new())
        given = []
        for m, args in s.calls():
            if not m.startswith("set:"):
                out = outcome(I, I.getattr_(a, m), args)
                if out.kind == "ret":
                    given.append((m, out.value, freeze(out.value)))
        for m, args in s.other_calls():
            if not m.startswith("set:"):
                outcome(I, I.getattr_(a, m), args)
        for m, now, then in given:
            if not same(run, ("ret", then), ("ret", now), "answer of %s.%s after later calls" % (s.cls, m)):
                return
        run.ex.last_path = list(run.path)

    return sc


# ---------------------------------------------------------------- copies
def copy_scenario(cls, val):
    def sc(run, I):
        k, v, x0 = sp.make_space(I, cls, 2, val)
        o, ref = I.call(k, [v, x0]), I.call(k, [v, vec("x", 2)])
        cut0 = lambda: (vec("g0_", 2), tm.atom("b0_0"))
        sp.nonzero(run, 0, 2)
        for q in (o, ref):
            outcome(I, I.getattr_(q, "update_bias_cut"), [cut0()])
        cp = I.call(I.getattr_(I.ext["copy"], "deepcopy"), [o])
        r = [outcome(I, I.getattr_(q, "update_q"), [(vec("g1_", 2), [tm.atom("b0_1"), tm.atom("b1_1")])]) for q in (cp, ref)]
        xs = [I.call(I.getattr_(q, "xc"), []) for q in (cp, ref)]
        a, b = [(w.kind, w.exc) if w.kind == "raise" else (w.kind, freeze(w.value)) for w in r]
        if not same(run, a, b, "a copy of %s" % cls) or not same(run, ("ret", freeze(xs[0])), ("ret", freeze(xs[1])), "center of a copy of %s" % cls):
            return
        I.call(I.getattr_(cp, "set_xc"), [ca(8, 9)])
        # the original has not moved: it answers like a fresh space with only the first cut
        fresh = I.call(k, [v, vec("x", 2)])
        outcome(I, I.getattr_(fresh, "update_bias_cut"), [cut0()])
        for q in (o, fresh):
            q_ = outcome(I, I.getattr_(q, "update_central_cut"), [(vec("g1_", 2), c(0))])
        a, b = [("ret", freeze((I.call(I.getattr_(q, "xc"), []), I.call(I.getattr_(q, "tsq"), [])))) for q in (o, fresh)]
        same(run, b, a, "%s after its copy was cut" % cls)
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    subs = subjects()
    calc = next(t for t in subs if t[0].cls == "EllCalc")
    for d in calc_dims(ctx.src):
        s = calc[0]
        subs.append((Subject(s.mod, s.cls, s.new, s.calls, lambda d=d: [d], s.other_calls),) + calc[1:])
    for t in crossed(subs):
        s, smp, valid, mods, npts = t
        for order in ("interleaved", "other first"):
            ctx.explore("%s beside %s/%s" % (s.cls, s.other_cls[1], order), scenario(s, order), smp, mods, valid=valid, npoints=npts,
                        max_partitions=4000, max_depth=1000)
    for k, (m, args) in enumerate(NEAR):
        ctx.explore("EllCalc/asked twice/%s/%d" % (m, k), near_scenario(m, args), near_sampler, cc.MODS, valid=near_valid, npoints=120,
                    max_partitions=4000)
    for s, smp, valid, mods, npts in subs:
        low = s.cls == "LowpassOracle"
        kw = dict(valid=valid, npoints=npts * (2 if ctx.thorough else 1), max_partitions=4000, max_depth=1000)
        for order in ("interleaved", "other first"):
            ctx.explore("%s/%s" % (s.cls, order), scenario(s, order), smp, mods, **kw)
        if s.cls in ("EllCalc", "LDLTMgr", "LMIOracle", "LMIOldOracle", "LMI0Oracle"):
            o = Subject(s.mod, s.cls, s.new, s.calls, s.other, s.other_calls)
            if s.cls == "LDLTMgr":
                o.other_calls = lambda: [("factorize", [ca2([[1, 2], [2, 1]])]), ("witness", []), ("factorize", [ca2([[0, 2], [2, 1]])])]
            ctx.explore("%s/no memory" % s.cls, memory_scenario(o), smp, mods, **kw)
        if s.cls not in sp.SPACES:      # (the center of a search space is live by design)
            ctx.explore("%s/answers are kept" % s.cls, kept_scenario(Subject(s.mod, s.cls, s.new, s.calls, s.other, lambda s=s: sized(s))), smp, mods, **kw)
    plan = [("deep", "scalar"), ("q", "list2")]
    for cls in sp.SPACES:
        for val in ("array", "scalar"):
            ctx.explore("%s/%s/copy" % (cls, val), copy_scenario(cls, val), sp.sampler(2, val, plan, False), sp.MODS,
                        valid=sp.valid, npoints=60, max_partitions=4000)
    ctx.flush()
    ctx.floor("subjects", 12, len({s.cls for s, *_ in subs}) + 1)
    ctx.floor("tasks", 25, len(ctx.tasks))
