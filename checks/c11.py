"""C11 dense ellipsoid: exact update for every history"""
from sa import lib

from . import space_common as sp

P = ("central", "scalar")


def plans(thorough):
    out = []
    for mode in ("deep", "central", "q"):
        for form in ("scalar", "list2"):
            out.append((2, "scalar", [(mode, form), P], ()))
            out.append((3, "array", [(mode, form), P], ()))
    out += [
        (2, "list", [("deep", "tuple2"), ("deep", "scalar"), P], ()),
        (2, "int", [("q", "array2"), P], ()),
        (2, "array", [("deep", "scalar"), ("q", "list2"), P], ()),
        (2, "array", [("deep", "scalar"), ("q", "scalar"), P], ("no_defer",)),
        (3, "scalar", [("central", "list2"), ("deep", "scalar"), P], ("no_defer_class",)),
        (2, "scalar", [("deep", "scalar"), ("central", "scalar"), P], ("int_grad",)),
        (2, "array", [("deep", "scalar"), ("central", "scalar"), P], ("int_later",)),
        (2, "scalar", [("deep", "scalar"), ("set", "-"), P], ("int_center",)),
        (3, "array", [("central", "list2"), ("set", "-"), P], ("list_center", "int_radii")),
        (2, "list", [("q", "scalar"), ("deep", "scalar"), P], ("list_center", "int_radii", "no_defer")),
        (3, "array", [("central", "scalar"), ("deep", "list2"), P], ("int_later", "no_defer")),
        (4, "array", [("deep", "scalar"), ("central", "scalar"), P], ()),
        (3, "array", [("deep", "scalar"), ("deep", "list2"), P], ("no_defer",)),
        (2, "array", [("deep", "scalar"), ("central", "scalar"), P], ("buffer",)),
        (2, "scalar", [("q", "list2"), ("deep", "list2"), P], ("buffer",)),
        (2, "array", [("deep", "scalar"), ("set", "-"), ("central", "scalar"), P], ()),
        (2, "scalar", [("set", "-"), ("q", "scalar"), ("set", "-"), P], ("no_defer",)),
    ]
    if thorough:
        for a in ("deep", "central", "q"):
            for b in ("deep", "central", "q"):
                for f in ("scalar", "list2"):
                    out.append((2, "scalar", [(a, "scalar"), (b, f), P], ()))
                    out.append((3, "array", [(a, f), (b, "scalar"), P], ("no_defer",)))
        out.append((5, "array", [("deep", "scalar"), ("q", "list2"), P], ()))
    return out


def wide(ctx, cls):
    """wide ellipsoids and longer histories (gradients and radii fixed, offsets and
    center abstract), and any number of earlier cuts (call counters widened)"""
    D, S, L = ("deep", "scalar"), ("q", "scalar"), ("deep", "list2")
    dims = {6, 9} | ({12, 17} if ctx.thorough else set())
    named = lib.loop_dims(ctx.src, sp.MODS[:2], 5, 66 if cls == "Ell" else 34)
    out = [(n, "array", [D, S, P], ("fixed",)) for n in sorted(dims | named)]
    out += [(5, "scalar", [L, D, P], ("fixed", "no_defer")),
            (3, "array", [D, P, S, P, D, P], ("fixed",)),
            (3, "scalar", [P, D, P, L, S, P, P], ("fixed", "no_defer")),
            (2, "scalar", [D, ("q", "list2"), P], ("late",)),
            (2, "array", [("central", "list2"), D, P], ("late", "no_defer")),
            (3, "array", [D, P], ("late",))]
    return out


def run_for(ctx, cls, judge, failing=False, extra=()):
    consts = lib.constants(ctx.src, sp.MODS)
    for k, (n, val, plan, flags) in enumerate(plans(ctx.thorough) + wide(ctx, cls) + list(extra)):
        name = "%s/n=%d/%s/%s%s" % (cls, n, val, "-".join("%s.%s" % x for x in plan), "/" + "+".join(flags) if flags else "")
        smp = sp.sampler(n, val, plan, failing, flags)
        kw = dict(valid=sp.valid, npoints=200 if ctx.thorough else 70)
        if "fixed" in flags:
            fx = sorted(sp.fixed(n, len(plan)))
            kw = dict(valid=sp.valid, npoints=16 if n < 18 else 5, ints=fx, max_edges=8 if n < 18 else 3)
        if "late" in flags:
            base = smp

            def smp(rng, i, base=base):
                d = base(rng, i)
                if d:
                    lib.counter_vals(rng, consts, d)
                return d

            kw["ints"], kw["optional"] = lib.COUNTERS, True
        ctx.explore(name, sp.history(cls, n, val, plan, tuple(flags) + ("success",), judge), smp, sp.MODS, max_partitions=4000, **kw)
    ctx.flush()
    ctx.floor("histories", 15, len(ctx.tasks))


def run(ctx):
    run_for(ctx, "Ell", sp.judge_success)
