"""C28 interface defaults and package surface"""
import ast
import os

from mpmath import mpf

from sa import terms as tm
from sa.interp import Arr, Class, Func, H, Obj
from sa.lib import anchor, close, ev, fmt, outcome, snapshot

TY = "ellalgo.ell_typing"
CFG = "ellalgo.ell_config"
MODS = ("ellalgo", TY, CFG, "ellalgo.cutting_plane", "ellalgo.ell", "ellalgo.ell_stable", "ellalgo.conjugate_gradient")
NAMES = {
    "Ell": "ellalgo.ell", "EllStable": "ellalgo.ell_stable", "cutting_plane_feas": "ellalgo.cutting_plane",
    "cutting_plane_optim": "ellalgo.cutting_plane", "cutting_plane_optim_q": "ellalgo.cutting_plane", "bsearch": "ellalgo.cutting_plane",
    "conjugate_gradient": "ellalgo.conjugate_gradient", "CutStatus": CFG, "Options": CFG, "OracleBS": TY, "OracleFeas": TY,
    "OracleOptim": TY, "OracleOptimQ": TY, "SearchSpace": TY, "LMIOracle": "ellalgo.oracles.lmi_oracle",
    "LMI0Oracle": "ellalgo.oracles.lmi0_oracle", "ProfitOracle": "ellalgo.oracles.profit_oracle",
    "ProfitRbOracle": "ellalgo.oracles.profit_oracle", "ProfitQOracle": "ellalgo.oracles.profit_oracle",
    "LowpassOracle": "ellalgo.oracles.lowpass_oracle",
}
ALIASES = ("ArrayType", "Cut", "CutChoice", "Num", "ParallelCut", "SingleCut")
STATUS = ("Success", "NoSoln", "NoEffect", "Unknown")
#: what each exported class must offer, beside the base class it is a case of
OFFERS = {
    "Ell": ("SearchSpace", ("xc", "tsq", "update_bias_cut", "update_central_cut", "update_q", "set_xc")),
    "EllStable": ("SearchSpace", ("xc", "tsq", "update_bias_cut", "update_central_cut", "update_q", "set_xc")),
    "LMIOracle": ("OracleFeas", ("assess_feas", "update")), "LMI0Oracle": ("OracleFeas", ("assess_feas", "update")),
    "ProfitOracle": ("OracleOptim", ("assess_optim",)), "ProfitRbOracle": ("OracleOptim", ("assess_optim",)),
    "ProfitQOracle": ("OracleOptimQ", ("assess_optim_q",)), "LowpassOracle": ("OracleOptim", ("assess_optim",)),
}


def tok(n):
    a = Arr(tm_arr(n))
    return a


def tm_arr(n):
    import numpy as np
    a = np.empty(2, dtype=object)
    for i in range(2):
        a[i] = tm.atom("%s%d" % (n, i))
    return a


def subclass(I, base, methods):
    """a user's class that implements only what it must"""
    c = Class("User" + base.name, [base], {k: H(v, k) for k, v in methods.items()})
    return c


def space_defaults(run, I):
    base = anchor(I, TY, "SearchSpace")
    log = []
    sts = {n: I.getattr_(anchor(I, CFG, "CutStatus"), n) for n in STATUS}

    def init(self, *a):
        self.d["c"] = tok("c")

    def upd(how):
        def f(self, cut):
            st = run.choose(list(STATUS), "%s cut" % how)
            log.append((how, cut, st))
            return sts[st]
        return f

    cls = subclass(I, base, {"__init__": init, "update_bias_cut": upd("bias"), "update_central_cut": upd("central"),
                             "xc": lambda self: self.d["c"], "tsq": lambda self: tm.atom("tsq")})
    o = I.call(cls, [])
    two = run.choose([False, True], "two offsets")
    cut = (tok("g"), [tm.atom("b0"), tm.atom("b1")] if two else tm.atom("b0"))
    before = snapshot(cut)
    out = outcome(I, I.getattr_(o, "update_q"), [cut])
    run.obligation("update_q defaults to one deep cut", out.kind == "ret" and [e[0] for e in log] == ["bias"],
                   "update_q on a space without one: %s, calls %s" % (out, [e[0] for e in log]))
    if len(log) == 1:
        run.obligation("update_q hands the cut on", snapshot(log[0][1]) == before and snapshot(cut) == before, "the cut is changed")
        run.obligation("update_q returns the status", out.value is sts[log[0][2]], "status %r instead of %s" % (out.value, log[0][2]))
    state = snapshot(o.d)
    x = tok("x")
    r = outcome(I, I.getattr_(o, "set_xc"), [x])
    run.obligation("set_xc does nothing by default", r.kind == "ret" and r.value is None and len(log) == 1 and snapshot(o.d) == state
                   and x.data[0] is tm.atom("x0"), "default set_xc: %r" % (r,))
    run.ex.last_path = list(run.path)


def oracle_defaults(run, I):
    base = anchor(I, TY, "OracleFeas")
    calls = []
    cls = subclass(I, base, {"__init__": lambda self: None, "assess_feas": lambda self, x: calls.append(x)})
    o = I.call(cls, [])
    state = snapshot(o.d)
    g = run.choose([tm.atom("gamma"), 3, None], "level")
    r = outcome(I, I.getattr_(o, "update"), [g])
    run.obligation("update does nothing by default", r.kind == "ret" and r.value is None and snapshot(o.d) == state and not calls,
                   "default update: %r" % (r,))
    r = outcome(I, I.getattr_(o, "assess_feas"), [tok("x")])
    run.obligation("a user's oracle is asked as is", r.kind == "ret" and r.value is None and len(calls) == 1, "%r" % (r,))
    bs = anchor(I, TY, "OracleBS")
    lacking = subclass(I, bs, {})
    r = outcome(I, lacking, [])
    run.obligation("a bisection oracle must define assess_bs", r.kind == "raise" and r.exc == "TypeError",
                   "an OracleBS without assess_bs: %r" % (r,))
    full = subclass(I, bs, {"assess_bs": lambda self, g: True})
    r = outcome(I, lambda_call(I, full), [])
    run.obligation("a complete bisection oracle can be built", r.kind == "ret", "%r" % (r,))
    for nm, meth, args in (("OracleOptim", "assess_optim", [tok("x"), tm.atom("gamma")]),
                           ("OracleOptimQ", "assess_optim_q", [tok("x"), tm.atom("gamma"), False])):
        seen = []
        res = (tok("g"), tm.atom("b"))
        c = subclass(I, anchor(I, TY, nm), {meth: lambda self, *a: seen.append(a) or res})
        o = outcome(I, lambda_call(I, c), [])
        ok = o.kind == "ret"
        r = outcome(I, I.getattr_(o.value, meth), args) if ok else o
        run.obligation("a user's %s is asked as is" % nm, r.kind == "ret" and r.value is res and len(seen) == 1
                       and all(a is b for a, b in zip(seen[0], args)), "%r" % (r,))
    run.ex.last_path = list(run.path)


def lambda_call(I, cls):
    return H(lambda *a: I.call(cls, list(a)), "build")


def exports(run, I):
    pkg = I.module("ellalgo")
    for n, mod in NAMES.items():
        src = anchor(I, mod, n)
        got = pkg.d.get(n)
        run.obligation("exported name", got is src, "ellalgo.%s is %r, not the object of %s" % (n, got, mod))
    for n in ALIASES:
        run.obligation("exported name", n in pkg.d, "ellalgo.%s is missing" % n)
    al = pkg.d.get("__all__", [])
    for n in list(NAMES) + list(ALIASES):
        run.obligation("name is public", n in al, "%s is missing from ellalgo.__all__" % n)
    for n in al:
        run.obligation("public name exists", n in pkg.d, "ellalgo.__all__ names %s, which does not exist" % n)
    st = anchor(I, CFG, "CutStatus")
    ms = [I.getattr_(st, n) for n in STATUS]
    for i, a in enumerate(ms):
        run.obligation("CutStatus member keeps its name", a.d.get("name") == STATUS[i], "CutStatus.%s is %r" % (STATUS[i], a.d.get("name")))
        for j, b in enumerate(ms):
            same = I.truth(I.compare("eq", a, b))
            run.obligation("CutStatus members are distinct", same == (i == j), "CutStatus.%s %s CutStatus.%s" % (
                STATUS[i], "==" if same else "!=", STATUS[j]))
    base = {n: anchor(I, TY, n) for n in ("SearchSpace", "OracleFeas", "OracleOptim", "OracleOptimQ", "OracleBS")}
    for n, (b, meths) in OFFERS.items():
        c = pkg.d[n]
        for m in meths:
            v, owner = c.find(m)
            run.obligation("method of an exported class", v is not None and not (
                isinstance(v, Func) and any(getattr(d, "id", getattr(d, "attr", "")) == "abstractmethod" for d in v.node.decorator_list)),
                "%s.%s is missing or abstract" % (n, m))
    for n in ("Ell", "EllStable"):
        run.obligation("role of an exported class", base["SearchSpace"] in pkg.d[n].mro, "%s is not a SearchSpace" % n)
    run.ex.last_path = list(run.path)


def copies(run, I):
    """statuses survive copying: a copied status still compares equal (spaces are deep-copied by the adaptor)"""
    st = anchor(I, CFG, "CutStatus")
    n = run.choose(list(STATUS), "status")
    m = I.getattr_(st, n)
    for how in ("copy", "deepcopy"):
        r = outcome(I, I.ext["copy"].d[how], [m])
        run.obligation("copied status", r.kind == "ret" and r.value is m, "%s of CutStatus.%s is %r" % (how, n, r))
    r = outcome(I, H(lambda: I.call(st, [m.d["value"]])), [])
    run.obligation("status by value", r.kind == "ret" and r.value is m, "CutStatus(%r) is %r" % (m.d["value"], r))
    run.ex.last_path = list(run.path)


def smp(rng, i):
    return {k: mpf(rng.randrange(-3000, 3000)) / 1000 for k in ("g0", "g1", "b0", "b1", "x0", "x1", "c0", "c1", "tsq", "gamma", "b")}


def run(ctx):
    for name, sc in (("search space defaults", space_defaults), ("oracle defaults", oracle_defaults), ("exports", exports), ("statuses", copies)):
        ctx.explore(name, sc, smp, MODS, npoints=4)
    ctx.flush()
    ctx.floor("partitions", 12, ctx.partitions())
