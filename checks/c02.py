"""C02 continuous optimizer keeps the best pair"""
from . import driver_common as dc


def run(ctx):
    dc.explore_driver(ctx, "cutting_plane_optim", dc.driver_scenario(
        "cutting_plane_optim", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown")), dc.sampler())
    dc.same_cut_again(ctx, "cutting_plane_optim", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown"))
    dc.other_spaces(ctx, "cutting_plane_optim", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown"))
    dc.other_answers(ctx, "cutting_plane_optim", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect", "Unknown"))
    ctx.flush()
    ctx.floor("partitions", 20, ctx.partitions())
