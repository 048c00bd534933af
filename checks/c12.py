"""C12 the factored ellipsoid behaves as the dense one"""
from . import space_common as sp
from .c11 import run_for


def run(ctx):
    run_for(ctx, "EllStable", sp.judge_success)
