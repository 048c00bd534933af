"""Reference cut calculus and the scenarios shared by C07..C10.

The reference is the textbook minimum-volume ellipsoid calculus, evaluated at a
witness valuation; it is compared with the value numbers the analysis derives
from the repository's source.
"""
from mpmath import mpf, mp

from sa import terms as tm
from sa.lib import anchor, arr, close, ev, fmt, outcome, sg
from sa.interp import Obj, Unmodelled
from sa.terms import UNDEF

MODS = ("ellalgo.ell_calc", "ellalgo.ell_calc_core")


# ---------------------------------------------------------------- reference
def r_single(n, beta, tsq):
    tau = mp.sqrt(tsq)
    eta = tau + n * beta
    return eta / (n + 1), 2 * eta / ((n + 1) * (tau + beta)), n * n / (n * n - 1) * (tsq - beta * beta) / tsq


def r_parallel(n, b0, b1, tsq):
    z0, z1 = tsq - b0 * b0, tsq - b1 * b1
    xi = mp.sqrt(z0 * z1 + (n * (b1 * b1 - b0 * b0) / 2) ** 2)
    eta = tsq + n * b0 * b1
    sigma = 2 * eta / (tsq + b0 * b1 + n * (b0 + b1) ** 2 / 2 + xi)
    return sigma * (b0 + b1) / 2, sigma, n * n / (n * n - 1) * ((z0 + z1) / 2 + xi / n) / tsq


OK, NOSOLN, NOEFFECT = "Success", "NoSoln", "NoEffect"


def reference(mode, n, b0, b1, tsq):
    """(status, params or None, which) or None when the cut is outside the
    calculator's domain.  b1 is None for a single cut."""
    tau = mp.sqrt(tsq)
    if mode == "central":
        if b1 is None:
            return OK, r_single(n, mpf(0), tsq), "single"
        if sg(b1) < 0:
            return NOSOLN, None, "parallel"
        if sg(b1, tau) >= 0:
            return OK, r_single(n, mpf(0), tsq), "single"
        return OK, r_parallel(n, mpf(0), b1, tsq), "parallel"
    if b1 is None:
        if mode == "deep" and sg(b0) < 0:
            return None                      # documented precondition beta >= 0
        if sg(b0, tau) > 0:
            return NOSOLN, None, "single"
        if mode == "q" and sg(tau, -n * b0) <= 0:
            return NOEFFECT, None, "single"
        return OK, r_single(n, b0, tsq), "single"
    if sg(b1, b0) < 0 or sg(b1, -tau) < 0:
        return NOSOLN, None, "parallel"
    if sg(b1, tau) >= 0:
        return reference(mode, n, b0, None, tsq)
    if sg(b0, -tau) < 0:
        return None                          # lower plane beyond the far side
    eta = sg(tsq, -n * b0 * b1)
    if mode == "q":
        if eta <= 0:
            return NOEFFECT, None, "parallel"
    elif eta <= 0:
        return None
    return OK, r_parallel(n, b0, b1, tsq), "parallel"


# ---------------------------------------------------------------- valuations
def pick(rng, tau):
    r = mpf(rng.randrange(1, 1000)) / 1000
    return tau * rng.choice([0, r, r, 1, 1 + r, -r, -r / 10, mpf(1) / 2, -1, -1 - r, r / 1000, -r / 1000])


def sampler(rng, i):
    n = rng.choice([2, 2, 3, 4, 5, 7, 20])
    tau = mpf(rng.choice([1, 2, 3, 5, 7, 0.5, 0.125, 100, 0.01])) * rng.choice([1, mpf(rng.randrange(1, 999)) / 1000])
    if i % 6 == 5:      # the same at another scale
        tau *= mpf(10) ** rng.choice([-12, -9, -6, -4, -4, -3, 3, 6, 9])
    b0 = pick(rng, tau)
    b1 = rng.choice([pick(rng, tau), pick(rng, tau), b0, -b0, abs(b0) + tau / 8, -tau * tau / (n * b0) if b0 else b0])
    if i % 18 == 11:    # every order of b0, b1 and the two ends of the ellipsoid, at any scale
        tau *= mpf(10) ** rng.choice([-9, -6, -5, -4, -3, 0, 6])
        r, q = (mpf(rng.randrange(1, 1000)) / 1000 for _ in "rq")
        b1 = rng.choice([-tau * (1 + r), -tau * (1 + r), -tau * r, tau * r, tau * (1 + r)])
        b0 = b1 + rng.choice([0, -tau * q, -tau * q, tau * q, -2 * tau * q])
    return dict(n=n, tsq=tau * tau, b0=b0, b1=b1)


def valid(p):
    v = p.vals
    return v["n"] >= 2 and v["n"] == mp.nint(v["n"]) and v["n"] < 10**7 and v["tsq"] > 0


def status_name(s):
    return s.d.get("name") if isinstance(s, Obj) and s.cls.is_enum else None


# ---------------------------------------------------------------- EllCalc scenarios
METHOD = {
    "deep": "calc_single_or_parallel",
    "central": "calc_single_or_parallel_central_cut",
    "q": "calc_single_or_parallel_q",
}
FORMS = ["scalar", "list1", "tuple1", "array1", "list2", "tuple2", "array2", "list2-off", "array2-off", "off-class", "tuple-none-off", "int0", "int1"]


def make_beta(form):
    b0, b1 = tm.atom("b0"), tm.atom("b1")
    return {
        "scalar": b0, "list1": [b0], "tuple1": (b0,), "list2": [b0, b1], "tuple2": (b0, b1),
        "array1": arr([b0]), "array2-off": arr([b0, b1]), "array2": arr([b0, b1]), "list2-off": [b0, b1], "off-class": (b0, b1), "tuple-none-off": (b0, None),
    }.get(form)


def scenario(mode, form, want, dim=None):
    two = form in ("list2", "tuple2", "array2")

    def sc(run, I):
        cls = anchor(I, "ellalgo.ell_calc", "EllCalc")
        if dim:
            run.assume(tm.eq(tm.atom("n", "i"), tm.const(dim)))
        calc = I.call(cls, [dim or tm.atom("n", "i")])
        if form == "off-class":
            I.setattr_(cls, "use_parallel_cut", False)
        elif form.endswith("off"):
            I.setattr_(calc, "use_parallel_cut", False)
        b0 = tm.atom("b0")
        beta = make_beta(form)
        if form.startswith("int"):
            beta = int(form[3:])
            run.assume(tm.eq(b0, tm.const(beta)))
        out = outcome(I, I.getattr_(calc, METHOD[mode]), [beta, tm.atom("tsq")])
        judge(run, out, lambda p: reference(mode, p.vals["n"], p.vals["b0"], p.vals["b1"] if two else None,
                                            p.vals["tsq"]), want)

    return sc


def judge(run, out, ref, want):
    def f(p):
        r = ref(p)
        if r is None:
            return None
        status, params, which = r
        if out.kind != "ret":
            if "status" in want or (which in want and params):
                return "%s cut: raises %s, expected %s" % (which, out.exc, status)
            return None
        v = out.value
        if not (isinstance(v, (tuple, list)) and len(v) == 2):
            return "result is %r, expected (status, parameters)" % (v,) if "status" in want else None
        st, res = v
        if "status" in want:
            if status_name(st) != status:
                return "%s cut: status %r, expected %s" % (which, st, status)
            if (res is not None) != (status == OK):
                return "status %s with parameters %r" % (status, res)
        if params and which in want and res is not None:
            if not isinstance(res, (tuple, list)) or len(res) != 3:
                return "parameters are %r" % (res,)
            got = [ev(p, x) for x in res]
            for nm, g, w in zip(("rho", "sigma", "delta"), got, params):
                if not close(g, w, mp.sqrt(p.vals["tsq"]) if nm == "rho" else 1):
                    return "%s cut: %s = %s, expected %s" % (which, nm, fmt(g), fmt(w))
        return None

    run.each_point("cut calculus", f)
    run.ex.last_path = list(run.path)


def run_matrix(ctx, want, modes=("deep", "central", "q"), forms=FORMS, npoints=80):
    for mode in modes:
        for form in forms:
            name = "%s/%s" % (mode, form)
            ctx.explore(name, scenario(mode, form, want), with_ints, MODS, ints=("n",), valid=valid,
                        npoints=npoints * (4 if ctx.thorough else 1),
                        # an abstract dimension may meet a construct without transfer function
                        fallback=[("%s/n=%d" % (name, d), scenario(mode, form, want, d)) for d in (2, 3, 4, 7)])
    ctx.flush()


def with_ints(rng, i):
    d = sampler(rng, i)
    if i % 5 == 0:
        d["b0"] = mpf(i // 5 % 2)
    return d
