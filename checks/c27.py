"""C27 configuration: documented defaults, per-object fields, no hidden state, verbosity is silent"""
from fractions import Fraction

from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import HostObj
from sa.lib import anchor, close, ev, fmt, outcome, sg, snapshot
from sa.terms import UNDEF

from . import c05
from . import driver_common as dc

CFG = "ellalgo.ell_config"
DEF = {"max_iters": mpf(2000), "tolerance": mpf("1e-20"), "verbose": False}
ST = ("Success", "NoSoln", "NoEffect", "Unknown")


def field(p, o, I, n):
    v = I.getattr_(o, n)
    return v if isinstance(v, bool) else ev(p, v)


def fields_are(p, I, o, want, who):
    for n, w in want.items():
        v = I.getattr_(o, n)
        if isinstance(w, bool):
            if v is not w:
                return "%s: %s is %r, expected %r" % (who, n, v, w)
        else:
            x = ev(p, v)
            if x is UNDEF or isinstance(v, bool) or not close(x, w):
                return "%s: %s is %s, expected %s" % (who, n, fmt(x), fmt(w))


def objects(run, I):
    cls = anchor(I, CFG, "Options")
    a, b = I.call(cls, []), I.call(cls, [])
    new = {"max_iters": tm.atom("mi", "i"), "tolerance": tm.atom("tol"), "verbose": True}
    for n, v in new.items():
        I.setattr_(a, n, v)
    c = I.call(cls, [])

    def at(p):
        want = {"max_iters": p.vals["mi"], "tolerance": p.vals["tol"], "verbose": True}
        return fields_are(p, I, a, want, "an Options object after setting its fields") or \
            fields_are(p, I, b, DEF, "another Options object") or fields_are(p, I, c, DEF, "an Options object built later")

    run.each_point("fields of Options objects", at)
    run.ex.last_path = list(run.path)


class Short(dc.Space):
    """arbitrary answers for `free` cuts, then it gives up; sizes are arbitrary up to there"""
    free = 2

    def _upd(self, how, cut):
        keep = self.statuses
        if self.k >= self.free:
            self.statuses = ("NoSoln",)
        try:
            return super()._upd(how, cut)
        finally:
            self.statuses = keep


class Patient(dc.Space):
    """every cut succeeds and the size never gets small"""

    def m_tsq(self):
        return tm.const(Fraction(1))

    def _upd(self, how, cut):
        self.k += 1
        self.log.append(("update", self.name, how, dc.cut_copy(cut), "Success"))
        return dc.status(self.I, "Success")


class GivesUp(dc.Space):
    """the first cut already has no solution"""

    def m_tsq(self):
        return tm.const(Fraction(1))

    def _upd(self, how, cut):
        return dc.status(self.I, "NoSoln")

    def deepcopy(self, *_):
        return self

    m___deepcopy__ = deepcopy


class NeverOracle(HostObj):
    """always has another cut and never accepts"""

    def __init__(self, name):
        super().__init__()
        self.n = 0
        self.c = (dc.Arr(dc.tok(name)), tm.atom(name))

    def m_update(self, g):
        pass

    def m_assess_feas(self, x):
        self.n += 1
        return self.c

    def m_assess_optim(self, x, gamma):
        self.n += 1
        return (self.c, None)

    def m_assess_optim_q(self, x, gamma, retry):
        self.n += 1
        return (self.c, x, None, False)

    def m_assess_bs(self, gamma):
        self.n += 1
        return False


def used(run, I, before):
    """calls made earlier in the same process, with other settings"""
    if before != "used":
        return
    o = I.call(anchor(I, CFG, "Options"), [])
    for n, v in (("max_iters", 3), ("tolerance", tm.const(Fraction(1, 2))), ("verbose", True)):
        I.setattr_(o, n, v)
    for f, (kind, _) in dc.DRIVERS.items():
        log = []
        sp = Patient(run, I, log, "w")
        outcome(I, anchor(I, dc.CP, f), [NeverOracle("w"), sp] + ([] if kind == "feas" else [tm.atom("gam0")]) + [o])
    outcome(I, anchor(I, dc.CP, "bsearch"), [NeverOracle("w"), (tm.const(Fraction(0)), tm.const(Fraction(1))), o])
    outcome(I, anchor(I, dc.CP, "bsearch"), [NeverOracle("w"), (0, 9), o])
    ad = I.call(anchor(I, dc.CP, "BSearchAdaptor"), [NeverOracle("w"), Patient(run, I, [], "w"), o])
    outcome(I, I.getattr_(ad, "assess_bs"), [tm.atom("gam0")])
    # and without any, on problems of every kind that end at once
    for f, (kind, _) in dc.DRIVERS.items():
        outcome(I, anchor(I, dc.CP, f), [NeverOracle("w"), GivesUp(run, I, [], "w")] + ([] if kind == "feas" else [tm.atom("gam0")]))
    outcome(I, anchor(I, dc.CP, "bsearch"), [NeverOracle("w"), (5, 5)])
    outcome(I, anchor(I, dc.CP, "bsearch"), [NeverOracle("w"), (tm.const(Fraction(5)), tm.const(Fraction(5)))])
    ad = I.call(anchor(I, dc.CP, "BSearchAdaptor"), [NeverOracle("w"), GivesUp(run, I, [], "w")])
    outcome(I, I.getattr_(ad, "assess_bs"), [tm.atom("gam0")])


def omitted(fname, before, how):
    """a driver called without options: arbitrary first answers"""
    kind, spec_of = dc.DRIVERS[fname]

    def sc(run, I):
        used(run, I, before)
        log = []
        sp = Short(run, I, log, "s", ST if kind != "optim_q" else ST[:3])
        om = dc.Oracle(run, I, log, sp)
        args = [om, sp] + ([] if kind == "feas" else [tm.atom("gam0")])
        if how == "fresh":
            args.append(I.call(anchor(I, CFG, "Options"), []))
        out = outcome(I, anchor(I, dc.CP, fname), args)
        spec = spec_of(sp, log, 2000)

        def at(p):
            r = dc.check_point(p, out, spec)
            return r[1] if r else None

        run.each_point("%s with default options" % fname, at)
        run.ex.last_path = list(run.path)

    return sc


def endless(fname, before):
    """a driver called without options on a problem that never ends"""

    def sc(run, I):
        used(run, I, before)
        log, om = [], NeverOracle("e")
        if fname == "bsearch":
            # the width stays above the tolerance for all passes
            args = [om, (tm.const(Fraction(0)), tm.const(Fraction(10) ** 700))]
        elif fname == "BSearchAdaptor":
            sp = Patient(run, I, log, "s")
            sp.deepcopy = lambda *_: Patient(run, I, log, "s'")
            sp.m___deepcopy__ = sp.deepcopy
            args = [om, sp]
        else:
            args = [om, Patient(run, I, log, "s")] + ([] if dc.DRIVERS[fname][0] == "feas" else [tm.atom("gam0")])
        f = anchor(I, dc.CP, fname)
        if fname == "BSearchAdaptor":
            ad = I.call(f, args)
            out = outcome(I, I.getattr_(ad, "assess_bs"), [tm.atom("gam0")])
        else:
            out = outcome(I, f, args)

        def at(p):
            if out.kind != "ret":
                return "%s raises %s" % (fname, out.exc)
            if om.n != 2000:
                return "%s asks the oracle %d times, the default budget is 2000" % (fname, om.n)
            if fname == "BSearchAdaptor":
                return None if out.value is False else "an endless subproblem counts as feasible"
            n = ev(p, out.value[-1])
            if n is UNDEF or not close(n, mpf(2000)):
                return "%s reports %s iterations, expected 2000" % (fname, fmt(n))

        run.each_point("default iteration budget", at)
        run.ex.last_path = list(run.path)

    return sc


def bs_omitted(before):
    """bsearch without options: stops as soon as the half width is below 1e-20"""

    def sc(run, I):
        used(run, I, before)
        om = c05.Orc(run)
        lo, w = tm.atom("lo"), tm.atom("w")
        out = outcome(I, anchor(I, dc.CP, "bsearch"), [om, (lo, tm.add(lo, w))])

        def at(p):
            if out.kind != "ret":
                return "bsearch raises %s" % out.exc
            n, w_ = 0, p.vals["w"]
            while sg(w_ / 2, DEF["tolerance"]) >= 0:
                w_, n = w_ / 2, n + 1
            if len(om.log) != n:
                return "bracket width %s: %d queries, expected %d" % (fmt(p.vals["w"]), len(om.log), n)

        run.each_point("bisection with the default tolerance", at)
        run.ex.last_path = list(run.path)

    return sc


def ad_omitted(before):
    def sc(run, I):
        used(run, I, before)
        log = []
        sp = Short(run, I, log, "s")
        cl = Short(run, I, log, "c")
        first = tuple(sp.live.data.flat)

        def dup(*_):
            cl.live = dc.Arr(sp.live.data.copy())
            return cl

        sp.deepcopy = sp.m___deepcopy__ = dup
        om = dc.Oracle(run, I, log, cl)
        ad = I.call(anchor(I, dc.CP, "BSearchAdaptor"), [om, sp])
        out = outcome(I, I.getattr_(ad, "assess_bs"), [tm.atom("gam0")])

        def at(p):
            if out.kind != "ret":
                return "assess_bs raises %s" % out.exc
            try:
                end, x = dc.feas_spec(cl, [e for e in log if e[0] != "gamma"], 2000, first=first, result=False)(p, None)
            except dc.Bad as e:
                return "subproblem: %s" % e
            if out.value is not (end == "accepted"):
                return "assess_bs returns %r, the subproblem ended %s" % (out.value, end)

        run.each_point("adaptor with default options", at)
        run.ex.last_path = list(run.path)

    return sc


def bs_given(mi, verbose, ty="f"):
    def sc(run, I):
        om = c05.Orc(run)
        opt = dc.options(run, I, mi)
        I.setattr_(opt, "verbose", verbose)
        b = snapshot(opt)
        out = outcome(I, anchor(I, dc.CP, "bsearch"), [om, (tm.atom("lo", ty), tm.atom("hi", ty)), opt])
        run.obligation("options are not modified", snapshot(opt) == b, "bsearch modifies the caller's Options")

        def at(p):
            if out.kind != "ret":
                return "bsearch raises %s" % out.exc
            l, u, n = p.vals["lo"], p.vals["hi"], 0
            while n < mi and sg((u - l) / 2, p.vals["tol"]) >= 0:
                mid = (l + u) / 2
                if ty == "i":
                    mid = mp.floor(mid) if mid >= 0 else mp.ceil(mid)
                if n < len(om.log) and om.log[n][1]:
                    u = mid
                else:
                    l = mid
                n += 1
            if len(om.log) != n:
                return "%d queries, expected %d" % (len(om.log), n)
            k = ev(p, out.value[1])
            if k is UNDEF or not close(k, mpf(n)):
                return "reports %s iterations, expected %d" % (fmt(k), n)

        run.each_point("bisection, verbose=%s" % verbose, at)
        run.ex.last_path = list(run.path)

    return sc


def ad_given(run, I):
    """the adaptor uses and keeps the caller's Options object: later changes to it count"""
    cls = anchor(I, dc.CP, "BSearchAdaptor")
    opt = dc.options(run, I, 1)
    om, log = NeverOracle("e"), []
    sp = Patient(run, I, log, "s")
    sp.deepcopy = sp.m___deepcopy__ = lambda *_: Patient(run, I, log, "s'")
    ad = I.call(cls, [om, sp, opt])
    b = snapshot(opt)
    I.call(I.getattr_(ad, "assess_bs"), [tm.atom("gam0")])
    run.obligation("options are not modified", snapshot(opt) == b, "the adaptor modifies the caller's Options")
    run.obligation("the adaptor uses the options it is given", om.n == 1, "%d passes with max_iters=1" % om.n)
    run.ex.last_path = list(run.path)


def smp(rng, i):
    tol = DEF["tolerance"]
    d = {"mi": rng.choice([0, 1, 50, 2001]), "tol": tol, "gam0": mpf(rng.randrange(-3000, 3000)) / 1000, "max_iters": 2000, "iter1": 5}
    for pre in ("s", "c"):
        for k in range(6):
            d["%s.tsq%d" % (pre, k)] = tol * rng.choice([mpf("0.5"), mpf("0.999"), 1, mpf("1.001"), 2, 1000, mpf(10) ** 20])
    for k in range(1, 6):
        d["gam%d" % k] = d["gam%d" % (k - 1)] - mpf(rng.randrange(1, 999)) / 1000
    d["lo"] = mpf(rng.randrange(-2000, 2000)) / 1000
    d["hi"] = d["lo"] + mpf(rng.randrange(1, 2000)) / 1000
    d["w"] = tol * rng.choice([mpf("0.5"), 1, mpf("1.99"), 2, mpf("2.01"), 3, 4, mpf("3.99"), 8, 15])
    return d


def smp_obj(rng, i):
    d = smp(rng, i)
    d["tol"] = mpf(rng.choice(["1e-20", "0.5", "1e-3"]))
    return d


def smp_bs(rng, i):
    d = smp(rng, i)
    d["tol"] = (d["hi"] - d["lo"]) / rng.choice([1, 2, 3, 4, 8, 16])
    return d


def smp_bsi(rng, i):
    d = smp(rng, i)
    d["lo"] = mpf(rng.randrange(-20, 20))
    d["hi"] = d["lo"] + rng.choice([0, 1, 2, 3, 8, 100])
    d["tol"] = mpf(rng.choice(["0.5", "1", "1e-20", "0.75", "2", "0.1"]))
    return d


def run(ctx):
    kw = dict(ints=("mi",) + dc.INTS, valid=lambda p: all(v >= 0 for k, v in p.vals.items() if "tsq" in k) and p.vals["tol"] > 0, npoints=80)
    fixed = dict(kw, valid=lambda p: kw["valid"](p) and close(p.vals["tol"], DEF["tolerance"]) and 0 < p.vals["w"] <= 15 * DEF["tolerance"])
    ctx.explore("Options objects", objects, smp_obj, dc.MODS, **dict(kw, valid=lambda p: p.vals["tol"] > 0))
    for before in ("fresh process", "used"):
        for f in dc.DRIVERS:
            ctx.explore("%s, options omitted/%s" % (f, before), omitted(f, before, "omitted"), smp, dc.MODS, **fixed)
        for f in list(dc.DRIVERS) + ["bsearch", "BSearchAdaptor"]:
            ctx.explore("%s, endless problem/%s" % (f, before), endless(f, before), smp, dc.MODS, **dict(fixed, npoints=6))
        ctx.explore("bsearch, options omitted/%s" % before, bs_omitted(before), smp, dc.MODS, **fixed)
        ctx.explore("adaptor, options omitted/%s" % before, ad_omitted(before), smp, dc.MODS, **fixed)
    for f in dc.DRIVERS:
        ctx.explore("%s, fresh Options" % f, omitted(f, "fresh process", "fresh"), smp, dc.MODS, **fixed)
        st = ST if not f.endswith("_q") else ST[:3]
        for m in ((1, 2) if f.endswith("_q") else (1, 3)):
            ctx.explore("%s, verbose/budget=%d" % (f, m), dc.driver_scenario(f, {"protocol", "result", "stop"}, st, opts="verbose")(m),
                        dc.sampler(), dc.MODS, ints=dc.INTS, valid=dc.valid, npoints=90)
    for v in (False, True):
        ctx.explore("bsearch, given options, verbose=%s" % v, bs_given(3, v), smp_bs, dc.MODS, **dict(kw, valid=lambda p: p.vals["tol"] > 0))
        ctx.explore("integer bsearch, given options, verbose=%s" % v, bs_given(3, v, "i"), smp_bsi, dc.MODS,
                    **dict(kw, ints=kw["ints"] + ("lo", "hi"), valid=lambda p: p.vals["tol"] > 0))
    ctx.explore("adaptor, given options", ad_given, smp, dc.MODS, **kw)
    ctx.flush()
    ctx.floor("partitions", 60, ctx.partitions())
