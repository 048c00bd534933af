"""C14 nothing the caller hands in is modified or adopted"""
import numpy as np
from mpmath import mpf

from sa import terms as tm
from sa.interp import Arr, Obj
from sa.lib import anchor, arr, outcome, snapshot, symmat, vec

from . import ldlt_common as ld
from . import lowpass_common as lc
from . import profit_common as pc
from . import space_common as sp


class Guard:
    """named caller-owned values, compared before/after every call"""

    def __init__(self, run):
        self.run, self.items = run, []

    def own(self, name, v):
        self.items.append((name, v, snapshot(v)))
        return v

    def check(self, after):
        for name, v, s in self.items:
            self.run.obligation("caller data untouched", snapshot(v) == s, "%s modifies the caller's %s" % (after, name))


def call(I, G, o, meth, args, what=None):
    out = outcome(I, I.getattr_(o, meth), args)
    G.check(what or meth)
    return out


# ---------------------------------------------------------------- search spaces
def space_sc(cls, n, val, plan, setxc):
    def sc(run, I):
        G = Guard(run)
        c, v, x0 = sp.make_space(I, cls, n, val)
        G.own("radii", v)
        G.own("initial center", x0)
        o = I.call(c, [v, x0])
        G.check("constructor")
        for s, (mode, form) in enumerate(plan):
            if setxc and s == 1:
                x1 = G.own("center given to set_xc", vec("x", n))
                call(I, G, o, "set_xc", [x1])
            cut = G.own("cut %d" % (s + 1), (vec("g%d_" % s, n), sp.make_beta(s, form)))
            call(I, G, o, sp.METHOD[mode], [cut], "%s.%s" % (cls, sp.METHOD[mode]))
        run.ex.last_path = list(run.path)

    return sc


# ---------------------------------------------------------------- factorization and oracles
def ldlt_sc(n, how):
    def sc(run, I):
        G = Guard(run)
        m = I.call(anchor(I, ld.LD, "LDLTMgr"), [n])
        A = G.own("matrix", symmat("A", n))
        out = ld.factor_by(run, I, m, A, how)
        G.check(how)
        if out.kind == "ret" and I.truth(out.value):
            call(I, G, m, "sqrt", [])
        else:
            call(I, G, m, "witness", [])
            B = G.own("matrix given to sym_quad", symmat("B", n))
            call(I, G, m, "sym_quad", [B])
        run.ex.last_path = list(run.path)

    return sc


def lmi_sc(cls, nv, m):
    from .c18 import ORACLES, mats

    mod, const = ORACLES[cls]

    def sc(run, I):
        G = Guard(run)
        F, B = mats(nv, m, const, False)
        G.own("coefficient matrices", F)
        G.own("constant matrix", B)
        o = I.call(anchor(I, mod, cls), [F] + ([B] if const else []))
        for k in range(2):
            x = G.own("point", vec("xy"[k], nv))
            call(I, G, o, "assess_feas", [x], cls + ".assess_feas")
        run.ex.last_path = list(run.path)

    return sc


def lowpass_sc(spec, L):
    def sc(run, I):
        G = Guard(run)
        o = lc.make_oracle(I, spec, L)
        x = G.own("coefficients", vec("x", spec.n))
        call(I, G, o, "assess_optim", [x, tm.atom("gam")], "LowpassOracle.assess_optim")
        call(I, G, o, "assess_feas", [x], "LowpassOracle.assess_feas")
        run.ex.last_path = list(run.path)

    return sc


def profit_sc(cls):
    def sc(run, I):
        G = Guard(run)
        el, pr = G.own("elasticities", vec("a", 2)), G.own("prices", vec("v", 2))
        pm = G.own("parameters", pc.params())
        args = [pm, el, pr]
        if cls == "ProfitRbOracle":
            args.append(G.own("variations", tuple(tm.atom(e) for e in ("e1", "e2", "e3", "e4", "e5"))))
        o = I.call(anchor(I, pc.PR, cls), args)
        G.check("constructor")
        for t in range(2):
            x = G.own("point", vec("xy"[t], 2))
            if cls == "ProfitQOracle":
                call(I, G, o, "assess_optim_q", [x, tm.atom("gam%d" % t), bool(t)], cls + ".assess_optim_q")
            else:
                call(I, G, o, "assess_optim", [x, tm.atom("gam%d" % t)], cls + ".assess_optim")
        run.ex.last_path = list(run.path)

    return sc


def solver_sc(n):
    def sc(run, I):
        G = Guard(run)
        A, b, x = G.own("matrix", symmat("A", n)), G.own("right-hand side", vec("b", n)), G.own("initial guess", vec("x", n))
        out = outcome(I, anchor(I, "ellalgo.conjugate_gradient", "conjugate_gradient"), [A, b, x, tm.atom("tol"), 3])
        G.check("conjugate_gradient")
        if out.kind == "ret" and isinstance(out.value, Arr):
            for nm, o in (("initial guess", x), ("right-hand side", b), ("matrix", A)):
                run.obligation("result owns its storage", not np.shares_memory(out.value.data, o.data),
                               "the solution shares storage with the caller's %s" % nm)
        run.ex.last_path = list(run.path)

    return sc


def adopted_sc(cls, n, val):
    """the caller may reuse what it handed in: later writes do not reach the space"""

    def sc(run, I):
        c, v, x0 = sp.make_space(I, cls, n, val)
        o = I.call(c, [v, x0])
        ref = I.call(c, [sp.make_space(I, cls, n, val)[1], vec("x", n)])

        def scribble(a):
            if isinstance(a, Arr):
                a.data[...] = tm.atom("junk")
            elif isinstance(a, list):
                a[:] = [tm.atom("junk")] * len(a)

        scribble(v)
        scribble(x0)
        for s, how in enumerate(("update_bias_cut", "update_central_cut")):
            if s:
                x1, x2 = vec("x", n), vec("x", n)
                for q, w in ((o, x1), (ref, x2)):
                    I.call(I.getattr_(q, "set_xc"), [w])
                scribble(x1)
            g1, g2 = vec("g%d_" % s, n), vec("g%d_" % s, n)
            b1, b2 = sp.make_beta(s, "list2"), sp.make_beta(s, "list2")
            sp.nonzero(run, s, n)
            r1 = outcome(I, I.getattr_(o, how), [(g1, b1)])
            r2 = outcome(I, I.getattr_(ref, how), [(g2, b2)])
            scribble(g1)
            scribble(b1)
            a, b = [I.call(I.getattr_(q, "xc"), []) for q in (o, ref)]
            same = r1.kind == r2.kind and snapshot(r1.value) == snapshot(r2.value) and snapshot(a) == snapshot(b)
            run.obligation("arguments are not adopted", same,
                           "writing to an array handed to %s earlier changes the search space" % cls)
        run.ex.last_path = list(run.path)

    return sc


def junk(f):
    def g(rng, i):
        d = f(rng, i)
        if d:
            d["junk"] = mpf(7)
        return d

    return g


def run(ctx):
    P = ("central", "scalar")
    for cls in sp.SPACES:
        for n, val, plan in [(2, "array", [("deep", "list2"), P]), (2, "list", [("q", "array2"), ("deep", "scalar")]),
                             (3, "array", [("central", "array2"), ("q", "list2")]), (2, "scalar", [("deep", "array2"), ("central", "list2")])]:
            for setxc in (False, True):
                ctx.explore("%s/n=%d/%s/%s%s" % (cls, n, val, plan, "/set_xc" if setxc else ""),
                            space_sc(cls, n, val, plan, setxc), sp.sampler(n, val, plan, False), sp.MODS, valid=sp.valid,
                            npoints=60, max_partitions=4000)
        for val in ("array", "scalar"):
            plan = [("deep", "list2"), ("central", "list2")]
            ctx.explore("%s/%s/arguments reused by the caller" % (cls, val), adopted_sc(cls, 2, val),
                        junk(sp.sampler(2, val, plan, False)), sp.MODS, valid=sp.valid, npoints=60, max_partitions=4000)
    for how in ("factorize", "factor", "factor_with_allow_semidefinite"):
        for n in (1, 2, 3, 4):
            ctx.explore("LDLTMgr/%s/n=%d" % (how, n), ldlt_sc(n, how), ld.sampler([("A", n), ("B", n)]), ld.MODS, npoints=60)
    from . import c18

    for cls, (mod, const) in c18.ORACLES.items():
        for nv, m in ((2, 2), (1, 2), (1, 1), (2, 1), (3, 3)):
            ctx.explore("%s/vars=%d/size=%d" % (cls, nv, m), lmi_sc(cls, nv, m), c18.sampler(nv, m, const, False, 2), c18.MODS, npoints=60)
    spec = lc.Spec(3, "0.12", "0.2")
    base = lc.sampler(spec, lc.SETS[2])

    def lsm(rng, i):
        d = base(rng, i)
        d["gam"] = mpf(5) / 4
        return d

    ctx.explore("LowpassOracle", lowpass_sc(spec, lc.SETS[2]), lsm, lc.MODS, npoints=3 * spec.m, hunting=False, max_depth=1000)
    from . import c23

    xs, gs = "xy", ["gam0", "gam1"]
    for cls in ("ProfitOracle", "ProfitRbOracle", "ProfitQOracle"):
        rb = cls == "ProfitRbOracle"
        ctx.explore(cls, profit_sc(cls), c23.rb_sampler(2) if rb else pc.sampler(xs, gs), pc.MODS,
                    valid=c23.rb_valid(2) if rb else pc.valid_for(xs, gs), npoints=200)
    from . import c24

    for n in (1, 2, 3):
        ctx.explore("conjugate_gradient/n=%d" % n, solver_sc(n), c24.sampler(n, "sym"), c24.MODS, valid=c24.valid(n), npoints=60)
    ctx.flush()
    ctx.floor("tasks", 28, len(ctx.tasks))
