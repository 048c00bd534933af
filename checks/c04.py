"""C04 all drivers stop when they must, and count iterations correctly"""
from . import driver_common as dc


def run(ctx):
    for f in dc.DRIVERS:
        st = ("Success", "NoSoln", "NoEffect") + (() if f.endswith("_q") else ("Unknown",))
        dc.explore_driver(ctx, f, dc.driver_scenario(f, {"stop"}, st), dc.sampler())
        dc.other_spaces(ctx, f, {"stop"}, st, (2,))
    ctx.flush()
    ctx.floor("partitions", 60, ctx.partitions())
