"""C03 discrete optimizer keeps the incumbent and follows the retry protocol"""
from . import driver_common as dc


def run(ctx):
    # the evaluation point is a point of the oracle's own, or the center it was asked about
    for xq in ("fresh", "center"):
        dc.explore_driver(ctx, "cutting_plane_optim_q/%s" % xq, dc.driver_scenario(
            "cutting_plane_optim_q", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect"), xq), dc.sampler())
    dc.same_cut_again(ctx, "cutting_plane_optim_q", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect"))
    st = ("Success", "NoSoln", "NoEffect")
    dc.other_spaces(ctx, "cutting_plane_optim_q", {"protocol", "result"}, st, (2,))
    dc.other_spaces(ctx, "cutting_plane_optim_q", {"protocol", "result"}, st, (2,), xq="center")
    mk = dc.driver_scenario("cutting_plane_optim_q", {"protocol", "result"}, st, "buffer")
    for m in (2, 3):
        ctx.explore("cutting_plane_optim_q/one buffer for the evaluation points/budget=%d" % m, mk(m), dc.sampler(), dc.MODS,
                    ints=dc.INTS, valid=dc.valid, npoints=60)
    mk = dc.driver_scenario("cutting_plane_optim_q", {"protocol", "result"}, st, "np flags")
    for m in (2, 3):
        ctx.explore("cutting_plane_optim_q/NumPy truth values/budget=%d" % m, mk(m), dc.sampler(), dc.MODS,
                    ints=dc.INTS, valid=dc.valid, npoints=60)
    dc.other_answers(ctx, "cutting_plane_optim_q", {"protocol", "result"}, ("Success", "NoSoln", "NoEffect"))
    ctx.flush()
    ctx.floor("partitions", 20, ctx.partitions())
