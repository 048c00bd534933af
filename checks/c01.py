"""C01 feasibility search returns only oracle-accepted points"""
from . import driver_common as dc


def run(ctx):
    ks = 6
    dc.explore_driver(ctx, "cutting_plane_feas", dc.driver_scenario(
        "cutting_plane_feas", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown")), dc.sampler(ks=ks))
    dc.same_cut_again(ctx, "cutting_plane_feas", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown"))
    dc.other_spaces(ctx, "cutting_plane_feas", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown"))
    dc.other_answers(ctx, "cutting_plane_feas", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown"))
    ctx.flush()
    ctx.floor("partitions", 20, ctx.partitions())
