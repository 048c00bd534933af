"""C08 single cuts: minimum-volume parameters"""
from . import calc_common as cc


def run(ctx):
    cc.run_matrix(ctx, {"single"})
    ctx.floor("partitions", 40, ctx.partitions())
