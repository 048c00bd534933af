"""Opaque collaborators and reference protocols for the driver loops (C01..C06).

The oracle and the search space are arbitrary: every answer they can give is a
separate trace partition, their contents are fresh tokens, and the center handed
out is live storage that the next update overwrites.
"""
import numpy as np
from mpmath import mp, mpf

from sa import terms as tm
from sa.interp import AbsRaise, Arr, HostObj, Unmodelled
from sa.lib import anchor, cells, close, ev, fmt, outcome, sg, snapshot
from sa.terms import T, UNDEF

MODS = ("ellalgo.cutting_plane", "ellalgo.ell_config")
CP = "ellalgo.cutting_plane"
N = 2
WIDEN = 2


def tok(name):
    a = np.empty(N, dtype=object)
    for i in range(N):
        a[i] = tm.atom("%s_%d" % (name, i))
    return a


class Space(HostObj):
    mode = "live"       # how xc() hands out the center: live storage overwritten by the next
                        # update, "swap": a new array per update, "fresh": a new array per call,
                        # "list": as live, the center being a list

    def __init__(self, run, I, log, name="s", statuses=("Success", "NoSoln", "NoEffect", "Unknown")):
        super().__init__()
        self.run, self.I, self.log, self.name, self.statuses = run, I, log, name, statuses
        self.k = 0
        self.live = Arr(tok("%s.c0" % name))
        self.clones = []

    def m_xc(self):
        if self.mode == "list":
            if not isinstance(self.live, list):
                self.live = list(self.live.data.flat)
            return self.live
        return Arr(self.live.data.copy()) if self.mode == "fresh" else self.live

    def m_tsq(self):
        self.log.append(("tsq", self.name, self.k))
        return tm.atom("%s.tsq%d" % (self.name, self.k))

    def _upd(self, how, cut):
        self.k += 1
        st = self.run.choose(self.statuses, "%s.%s #%d" % (self.name, how, self.k))
        self.log.append(("update", self.name, how, cut_copy(cut), st))
        new = tok("%s.c%d" % (self.name, self.k))
        if self.mode == "swap":
            self.live = Arr(new)
        elif isinstance(self.live, list):
            self.live[:] = list(new)
        else:
            self.live.data[:] = new
        return status(self.I, st)

    def m_update_bias_cut(self, cut):
        return self._upd("bias", cut)

    def m_update_central_cut(self, cut):
        return self._upd("central", cut)

    def m_update_q(self, cut):
        return self._upd("q", cut)

    def m_set_xc(self, x):
        self.log.append(("set_xc", self.name, Arr(x.data.copy(), x.dt) if isinstance(x, Arr) else x))
        self.live = Arr(x.data.copy(), x.dt) if isinstance(x, Arr) else self.live

    def deepcopy(self, *_):
        c = Space(self.run, self.I, self.log, "%s'%d" % (self.name, len(self.clones)), self.statuses)
        c.live, c.mode = Arr(self.live.data.copy()), self.mode
        self.clones.append(c)
        self.log.append(("deepcopy", self.name, c.name))
        return c

    def m___deepcopy__(self, *_):
        return self.deepcopy()

    def copy(self, *_):
        c = Space.__new__(Space)
        c.__dict__ = dict(self.__dict__)      # shallow: same storage, same name
        return c


def status(I, name):
    return anchor(I, "ellalgo.ell_config", "CutStatus", name)


def cut_copy(cut):
    """contents of a cut at the time it was applied, plus its identity"""
    return (cut, snapshot(cut))


def flat(x):
    return tuple(x.data.flat) if isinstance(x, Arr) else tuple(x) if isinstance(x, (list, tuple)) else (x,)


def center(space):
    return flat(space.live)


def np_bool(b):
    """a NumPy truth value: as good as the built-in one, but not the same object"""
    a = np.empty((), dtype=object)
    a[()] = tm.b(b)
    return Arr(a, "b")


class Oracle(HostObj):
    """every assess_* answer is a choice; cuts and values are fresh tokens"""

    def __init__(self, run, I, log, space, xq="fresh", again=False):
        super().__init__()
        self.flags = (lambda b: b) if xq != "np flags" else np_bool
        self.again, self.same = again, None
        self.kinds = ["better", "worse"] + (["same"] if xq == "echo" else [])
        self.run, self.I, self.log, self.space, self.xq = run, I, log, space, xq
        self.k = 0
        self.buf = Arr(tok("xq")) if xq == "buffer" else None

    def cut(self):
        if self.xq == "plain":      # offsets that are plain integers, every other cut a list
            b = [0, 1, [0, 2], [0]][self.k % 4]
            return (Arr(tok("g%d" % self.k)), b) if self.k % 2 else [Arr(tok("g%d" % self.k)), b]
        if self.again and self.same is not None:      # the very same cut object once more
            return self.same
        two = self.k % 2 == 1
        b = tm.atom("beta%d" % self.k)
        self.same = (Arr(tok("g%d" % self.k)), [b, tm.atom("beta%d'" % self.k)] if two else b)
        return self.same

    def value(self, kind, gamma):
        """a better value, the very object it was asked with, or none"""
        return {"better": tm.atom("gam%d" % (self.k + 1)), "same": gamma, "worse": None}[kind]

    def seen(self, x):
        return flat(x)

    def m_update(self, gamma):
        self.log.append(("gamma", gamma))

    def m_assess_feas(self, x):
        kind = self.run.choose(["cut", "feasible"], "assess_feas #%d" % self.k)
        cut = None if kind == "feasible" else self.cut()
        self.log.append(("assess", self.seen(x), cut, snapshot(cut)))
        self.k += 1
        return cut

    def m_assess_optim(self, x, gamma):
        kind = self.run.choose(self.kinds, "assess_optim #%d" % self.k)
        cut = self.cut()
        g1 = self.value(kind, gamma)
        self.log.append(("assess", self.seen(x), cut, snapshot(cut), gamma, g1))
        self.k += 1
        return (cut, g1)

    def m_assess_optim_q(self, x, gamma, retry):
        kind = self.run.choose(self.kinds, "assess_optim_q #%d" % self.k)
        more = self.run.choose([True, False], "more_alt #%d" % self.k)
        cut = self.cut()
        g1 = self.value(kind, gamma)
        xq = x if self.xq == "center" else Arr(tok("xq%d" % self.k))
        if self.buf is not None:        # one buffer of the oracle's, overwritten by every call
            self.buf.data[:] = xq.data
            xq = self.buf
        self.log.append(("assess", self.seen(x), cut, snapshot(cut), gamma, g1, xq, flat(xq), more, retry))
        self.k += 1
        return (cut, xq, g1, self.flags(more))


# ---------------------------------------------------------------- options and valuations
def options(run, I, mi):
    """an Options object; mi: 'sym' or a concrete iteration budget"""
    o = I.call(anchor(I, "ellalgo.ell_config", "Options"), [])
    I.setattr_(o, "max_iters", tm.atom("max_iters", "i") if mi == "sym" else mi)
    I.setattr_(o, "tolerance", tm.atom("tol"))
    return o


def sampler(prefix="s", ks=6, extra=None):
    def f(rng, i):
        d = {"max_iters": rng.choice([0, 1, 2, 3, 4, 5, 2000, 100]), "tol": mpf(rng.choice(["1e-20", "0.5", "1e-3", "0.01"]))}
        d["iter1"] = rng.choice([2, 3, 4, 5, 7, 19, 99, d["max_iters"], max(d["max_iters"] - 1, 0)])
        for k in range(ks):
            d["%s.tsq%d" % (prefix, k)] = d["tol"] * rng.choice([mpf("0.5"), 1, 2, 2, 3, 1000, mpf(10) ** 20])
        d["gam0"] = mpf(rng.randrange(-3000, 3000)) / 1000
        for k in range(1, ks):
            d["gam%d" % k] = d["gam%d" % (k - 1)] + rng.choice([1, mpf("0.001"), -1, 0, mpf(rng.randrange(1, 999)) / 1000])
        if i % 11 == 3:
            d["gam%d" % rng.randrange(ks)] = mpf(0)
        # contents of cuts and points: zeros and repetitions happen
        q = lambda: rng.choice([mpf(0), mpf(1), mpf(rng.randrange(-3000, 3000)) / 1000, mpf(rng.randrange(-3000, 3000)) / 1000])
        for k in range(ks):
            d["beta%d" % k], d["beta%d'" % k] = abs(q()), abs(q())
            for j in range(N):
                for v in ("g%d_%d", "xq%d_%d", prefix + ".c%d_%d"):
                    d[v % (k, j)] = d[v % (k - 1, j)] if k and rng.random() < 0.2 else q()
        if extra:
            extra(rng, i, d)
        return d

    return f


INTS = ("max_iters", "iter1")


def valid(p):
    v = p.vals
    return v["max_iters"] >= 0 and v["iter1"] >= WIDEN and v["tol"] > 0 and v["max_iters"] < 10**9 \
        and v["iter1"] < 10**9 and all(x >= 0 for k, x in v.items() if ".tsq" in k)


def label(p, run, m, conc):
    """iteration number of the m-th pass at a valuation"""
    if conc or m < WIDEN or not run.widened:
        return mpf(m)
    return p.vals["iter1"] + (m - WIDEN)


def budget(p, mi):
    return p.vals["max_iters"] if mi == "sym" else mpf(mi)


def same_cut(ev_, cut, snap):
    got, gsnap = ev_
    return got is cut or gsnap == snap


def cut_intact(ev_, cut, snap):
    """the cut that reached the space is the oracle's, unmodified"""
    return ev_[1] == snap


def eq_tokens(x, toks):
    return isinstance(x, (Arr, list)) and flat(x) == tuple(toks)


def aliases(x, space):
    if isinstance(space.live, list):
        return x is space.live
    return isinstance(x, Arr) and np.shares_memory(x.data, space.live.data)


def explore_driver(ctx, name, make, smp, npoints=90, depth=1, conc=(0, 1, 2, 3), **kw):
    """make(mi) -> scenario; abstract iteration budget with widened counter, and
    small concrete budgets"""
    npoints = npoints * (3 if ctx.thorough else 1)
    valid_ = kw.pop("valid", valid)
    ints = kw.pop("ints", INTS)
    fb = [("%s/budget=%d" % (name, m), make(m)) for m in (0, 1, 2, 3, 4)]
    ctx.explore("%s/any budget" % name, make("sym"), smp, MODS, ints=ints, valid=valid_, npoints=npoints,
                widen=WIDEN, depth=2 if ctx.thorough else depth, fallback=fb,
                # a pass is entered at most max_iters times: its number never exceeds the budget
                widen_inv=lambda k: tm.le(k, tm.atom("max_iters", "i")), **kw)
    for m in conc:
        ctx.explore("%s/budget=%d" % (name, m), make(m), smp, MODS, ints=ints, valid=valid_, npoints=npoints, **kw)


# ---------------------------------------------------------------- reference protocols
class Bad(Exception):
    """cat: the clause(s) of the specification that are broken, '|'-separated"""

    def __init__(self, cat, msg):
        super().__init__(msg)
        self.cat = set(cat.split("|"))


class Cursor:
    def __init__(self, log, who):
        self.ev = [e for e in log if e[0] in ("assess", "update", "set_xc", "deepcopy", "gamma") and
                   (e[0] in ("assess", "gamma") or e[1] == who)]
        self.i = 0

    def next(self):
        if self.i < len(self.ev):
            self.i += 1
            return self.ev[self.i - 1]
        return None

    def rest(self):
        return self.ev[self.i:]


def c_tokens(who, m, first=None):
    if m == 0 and first is not None:
        return first
    return tuple(tok("%s.c%d" % (who, m)))


def expect_update(cur, how, a, m):
    u = cur.next()
    if u is None or u[0] != "update":
        raise Bad("protocol", "pass %d: the cut of the oracle is not applied to the search space" % m)
    if u[2] != how:
        raise Bad("protocol", "pass %d: cut applied as a %s cut, expected %s" % (m, u[2], how))
    if not cut_intact(u[3], a[2], a[3]):
        raise Bad("protocol", "pass %d: the search space received a cut different from the oracle's" % m)
    return u


def expect_assess(cur, m, toks, why, cat="stop"):
    a = cur.next()
    if a is None or a[0] != "assess":
        raise Bad(cat, "stops before pass %d (%s)" % (m, why))
    if a[1] != toks:
        raise Bad("protocol", "pass %d: the oracle is not asked about the current center" % m)
    return a


def number(p, got, want, what):
    v = ev(p, got)
    if v is UNDEF or isinstance(v, bool) or not close(v, want):
        raise Bad("stop", "reported iteration count is %s, expected %s (%s)" % (fmt(v), fmt(want), what))


def no_more(cur, cat, what):
    if cur.rest():
        e = cur.rest()[0]
        if e[0] == "update":      # one cut per answer of the oracle, in every stopping case
            cat += "|protocol"
        raise Bad(cat, "goes on (%s) although %s" % (e[0], what))


def unpack(out, n):
    if out.kind != "ret":
        raise Bad("result", "raises %s" % out.exc)
    if not isinstance(out.value, (tuple, list)) or len(out.value) != n:
        raise Bad("result", "returns %r" % (out.value,))
    return out.value


def tsq_small(p, who, k):
    return sg(p.vals["%s.tsq%d" % (who, k)], p.vals["tol"]) < 0


def check_point(p, out, spec):
    try:
        spec(p, out)
    except Bad as e:
        return e.cat, str(e)
    return None


def feas_spec(space, log, mi, first=None, result=True):
    """-> function(p, out) raising Bad; returns (kind, m)"""
    who = space.name

    def spec(p, out):
        cur = Cursor(log, who)
        B = budget(p, mi)
        m = 0
        while True:
            lab = label(p, space.run, m, mi != "sym")
            if sg(lab, B) >= 0:
                no_more(cur, "stop", "the iteration budget is used up")
                end, x, k = "exhausted", None, B
                break
            a = expect_assess(cur, m, c_tokens(who, m, first), "budget left, last cut successful, size above tolerance")
            if a[2] is None:
                no_more(cur, "result", "the oracle accepted the center")
                end, x, k = "accepted", c_tokens(who, m, first), lab
                break
            u = expect_update(cur, "bias", a, m)
            if u[4] != "Success":
                no_more(cur, "stop", "the search space reported %s" % u[4])
                end, x, k = "failed", None, lab
                break
            if tsq_small(p, who, m + 1):
                no_more(cur, "stop", "the size measure is below the tolerance")
                end, x, k = "small", None, lab
                break
            m += 1
        if not result:
            return end, x
        rx, rk = unpack(out, 2)
        if x is None:
            if rx is not None:
                raise Bad("result", "returns a point although the oracle accepted none")
        else:
            if rx is None:
                raise Bad("result", "the oracle accepted the center but no point is returned")
            if not eq_tokens(rx, x):
                raise Bad("result", "the returned point is not the one the oracle accepted")
            if aliases(rx, space):
                raise Bad("result", "the returned point is the live center: a later cut on the space changes it")
        number(p, rk, k, end)
        return end, x

    return spec


def gamma_is(p, got, want):
    v = ev(p, got)
    return v is not UNDEF and close(v, ev(p, want))


def optim_spec(space, log, mi):
    who = space.name

    def spec(p, out):
        cur = Cursor(log, who)
        B = budget(p, mi)
        m, gam, best = 0, tm.atom("gam0"), None
        while True:
            lab = label(p, space.run, m, mi != "sym")
            if sg(lab, B) >= 0:
                no_more(cur, "stop", "the iteration budget is used up")
                k = B
                break
            a = expect_assess(cur, m, c_tokens(who, m), "budget left, last cut successful, size above tolerance")
            if not gamma_is(p, a[4], gam):
                raise Bad("protocol", "pass %d: the oracle is not given the best value so far" % m)
            if a[5] is not None:
                gam, best = a[5], c_tokens(who, m)
            u = expect_update(cur, "central" if a[5] is not None else "bias", a, m)
            if u[4] != "Success" or tsq_small(p, who, m + 1):
                no_more(cur, "stop", "the last cut failed or the size measure is below the tolerance")
                k = lab
                break
            m += 1
        rx, rg, rk = unpack(out, 3)
        check_best(p, rx, rg, best, gam, space)
        number(p, rk, k, "end of search")

    return spec


def check_best(p, rx, rg, best, gam, space):
    if best is None:
        if rx is not None:
            raise Bad("result", "returns a point although none was ever accepted")
    else:
        if rx is None:
            raise Bad("result", "the best point found is lost")
        if not eq_tokens(rx, best):
            raise Bad("result", "the returned point is not the one at which the best value was found")
        if aliases(rx, space):
            raise Bad("result", "the returned point is the live center: a later cut on the space changes it")
    if not gamma_is(p, rg, gam):
        raise Bad("result", "the returned value is not the best value found")


def optim_q_spec(space, log, mi):
    who = space.name

    def spec(p, out):
        cur = Cursor(log, who)
        B = budget(p, mi)
        m, gam, best, retry = 0, tm.atom("gam0"), None, False
        while True:
            lab = label(p, space.run, m, mi != "sym")
            if sg(lab, B) >= 0:
                no_more(cur, "stop", "the iteration budget is used up")
                k = B
                break
            a = expect_assess(cur, m, c_tokens(who, m), "budget left and no reason to stop", "stop|protocol" if retry else "stop")
            if not gamma_is(p, a[4], gam):
                raise Bad("protocol", "pass %d: the oracle is not given the best value so far" % m)
            if a[9] is not retry:
                raise Bad("protocol", "pass %d: retry flag is %r, expected %r" % (m, a[9], retry))
            if a[5] is not None:
                gam, best = a[5], a[7]
            u = expect_update(cur, "q", a, m)
            st, more = u[4], a[8]
            if st == "NoSoln" or (st == "NoEffect" and not more):
                no_more(cur, "stop|protocol", "the cut was rejected for good (%s)" % st)
                k = lab
                break
            if tsq_small(p, who, m + 1):
                no_more(cur, "stop", "the size measure is below the tolerance")
                k = lab
                break
            retry = st == "NoEffect"
            m += 1
        rx, rg, rk = unpack(out, 3)
        check_best(p, rx, rg, best, gam, space)
        number(p, rk, k, "end of search")

    return spec


DRIVERS = {
    "cutting_plane_feas": ("feas", feas_spec),
    "cutting_plane_optim": ("optim", optim_spec),
    "cutting_plane_optim_q": ("optim_q", optim_q_spec),
}


def driver_scenario(fname, cats, statuses, xq="fresh", again=False, opts="given", mode="live"):
    """opts: 'given' | 'verbose' (given, with progress output) | 'omitted' (documented defaults)"""
    kind, spec_of = DRIVERS[fname]

    def make(mi):
        def sc(run, I):
            log = []
            f = anchor(I, CP, fname)
            sp = Space(run, I, log, "s", statuses)
            sp.mode = mode
            om = Oracle(run, I, log, sp, xq, again)
            opt = options(run, I, mi) if opts != "omitted" else None
            if opts == "verbose":
                I.setattr_(opt, "verbose", True)
            before = snapshot(opt)
            args = [om, sp] + ([] if kind == "feas" else [tm.atom("gam0")]) + ([opt] if opt is not None else [])
            out = outcome(I, f, args)
            spec = spec_of(sp, log, mi)

            def at(p):
                r = check_point(p, out, spec)
                return r[1] if r and r[0] & cats else None

            run.each_point("%s: %s" % (fname, "/".join(sorted(cats))), at)
            if "protocol" in cats:
                run.obligation("options are not modified", snapshot(opt) == before, "the caller's Options object is modified")
            run.ex.last_path = list(run.path)

        return sc

    return make


def same_cut_again(ctx, fname, cats, statuses):
    """an oracle may hand out one and the same cut object on every pass"""
    mk = driver_scenario(fname, cats, statuses, again=True)
    for m in (2, 3):
        ctx.explore("%s/same cut object/budget=%d" % (fname, m), mk(m), sampler(), MODS, ints=INTS, valid=valid, npoints=90)


def other_spaces(ctx, fname, cats, statuses, budgets=(2, 3), **kw):
    """a search space may hand out a new center array per cut or per call, or a list"""
    for mode in ("swap", "fresh", "list"):
        mk = driver_scenario(fname, cats, statuses, mode=mode, **kw)
        for m in budgets:
            ctx.explore("%s/%s centers/budget=%d" % (fname, mode, m), mk(m), sampler(), MODS, ints=INTS, valid=valid, npoints=60)


def other_answers(ctx, fname, cats, statuses):
    """an oracle may report the very value it was asked with, or use plain integers as offsets"""
    for xq in ("plain",) + (("echo",) if fname != "cutting_plane_feas" else ()):
        mk = driver_scenario(fname, cats, statuses, xq=xq)
        for m in (2,) if xq == "echo" and fname.endswith("_q") else (2, 3):
            ctx.explore("%s/%s answers/budget=%d" % (fname, xq, m), mk(m), sampler(), MODS, ints=INTS, valid=valid, npoints=60)
