"""C07 every cut is classified correctly"""
from . import calc_common as cc


def run(ctx):
    cc.run_matrix(ctx, {"status"})
    ctx.floor("partitions", 40, ctx.partitions())
