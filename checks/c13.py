"""C13 an unsuccessful cut leaves the search space alone"""
from sa import lib

from . import space_common as sp

P = ("central", "scalar")


def run(ctx):
    consts = lib.constants(ctx.src, sp.MODS)
    for cls in sp.SPACES:
        for n, val, plan, *fl in [
            (2, "array", [("deep", "scalar"), P]),
            (2, "scalar", [("deep", "list2"), P]),
            (2, "array", [("q", "scalar"), P]),
            (2, "scalar", [("q", "list2"), P]),
            (3, "array", [("q", "list2"), P]),
            (2, "array", [("central", "list2"), P]),
            (3, "scalar", [("deep", "scalar"), ("q", "list2"), P]),
            (2, "scalar", [("central", "scalar"), ("deep", "list2"), P]),
            (2, "scalar", [("q", "scalar"), ("q", "scalar"), P]),
            (2, "scalar", [("deep", "scalar"), P], "no_defer"),
            (2, "array", [("q", "list2"), P], "no_defer"),
            (2, "scalar", [("deep", "scalar"), P], "late"),
            (3, "array", [("q", "list2"), P], "late"),
            (2, "array", [("deep", "scalar"), ("q", "scalar"), P], "buffer"),
            (2, "scalar", [("deep", "scalar"), ("set", "-"), P]),
            (7, "array", [("deep", "scalar"), ("q", "list2"), P], "fixed"),
        ] + ([(3, "array", [("q", "list2"), ("q", "list2"), P]), (4, "array", [("deep", "list2"), P])] if ctx.thorough else []):
            name = "%s/n=%d/%s/%s" % (cls, n, val, "-".join("%s.%s" % x for x in plan))
            flags = ("zero",) + tuple(fl)
            name += "".join("/" + f for f in fl)
            base = sp.sampler(n, val, plan, True, flags)

            def smp(rng, i, base=base, n=n, flags=flags):
                d = base(rng, i)
                if d and "late" in flags:
                    lib.counter_vals(rng, consts, d)
                if d and i % 10 == 7 and "fixed" not in flags:
                    for k in range(n):
                        d["g0_%d" % k] = 0
                return d

            ctx.explore(name, sp.history(cls, n, val, plan, flags, sp.judge_failed), smp, sp.MODS,
                        valid=sp.valid, npoints=200 if ctx.thorough else 80, max_partitions=4000,
                        ints=sorted(sp.fixed(n, len(plan))) if "fixed" in flags else lib.COUNTERS if "late" in flags else (),
                        optional="late" in flags)
    ctx.flush()
    ctx.floor("histories", 18, len(ctx.tasks))
