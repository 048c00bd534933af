"""C09 parallel cuts: minimum-volume parameters"""
from . import calc_common as cc


def run(ctx):
    cc.run_matrix(ctx, {"parallel"}, forms=["list2", "tuple2", "array2"])
    ctx.floor("partitions", 20, ctx.partitions())
