"""C29 demonstration command"""
from sa.interp import HostObj
from sa.lib import anchor, constants, outcome

SK = "ellalgo.skeleton"
MODS = (SK,)


def number(k):
    a, b = 1, 1
    for _ in range(k - 1):
        a, b = b, a + b
    return a


def fib_sc(ks):
    def sc(run, I):
        f = anchor(I, SK, "fib")
        for k in ks:
            out = outcome(I, f, [k])
            if k < 1:
                run.obligation("indices below one are refused", out.kind == "raise" and out.exc == "AssertionError",
                               "fib(%d) %s" % (k, "gives %r" % (out.value,) if out.kind == "ret" else "raises %s" % out.exc))
            else:
                run.obligation("exact Fibonacci number", out.kind == "ret" and type(out.value) is int and out.value == number(k),
                               "fib(%d) %s, expected %d" % (k, "is %s" % (out.value,) if out.kind == "ret" else "raises %s" % out.exc, number(k)))
        run.ex.last_path = list(run.path)

    return sc


def main_sc(argv, k, how):
    def sc(run, I):
        I.ext["sys"].d["argv"] = ["prog"] + argv
        n0 = len(I.printed)
        out = outcome(I, anchor(I, SK, how), [] if how == "run" else [list(argv)])
        text = "".join(I.printed[n0:])
        if k is None:
            run.obligation("unusable command lines are refused", out.kind == "raise" and not text, "%s %s prints %r" % (how, argv, text))
        else:
            want = "The %d-th Fibonacci number is %d\n" % (k, number(k))
            run.obligation("the command prints the number asked for", out.kind == "ret" and text == want,
                           "%s %s prints %r (%s), expected %r" % (how, argv, text, out.exc if out.kind != "ret" else "returns", want))
        run.ex.last_path = list(run.path)

    return sc


def run(ctx):
    hi = 1500 if ctx.thorough else 300
    ks = set(range(-3, hi)) | {1000, 2048}
    for c in constants(ctx.src, MODS):
        ks |= {int(c) + d for d in (-1, 0, 1, 2) if abs(c) < 20000}
    ks = sorted(ks)
    ctx.explore("fib/ascending", fib_sc(ks), None, MODS)
    ctx.explore("fib/descending", fib_sc(ks[::-1]), None, MODS)
    ctx.explore("fib/repeated", fib_sc([7, 7, 90, 7, 1, 2, 1, 300, 90, 0, 1, 90]), None, MODS)
    for how in ("main", "run"):
        for argv, k in ((["1"], 1), (["7"], 7), (["100"], 100), (["-v", "12"], 12), (["12", "--verbose"], 12), (["-vv", "93"], 93),
                        (["93", "--very-verbose"], 93), (["200"], 200), (["0"], None), (["x"], None), ([], None), (["1", "2"], None), (["2.5"], None)):
            ctx.explore("%s %s" % (how, " ".join(argv)), main_sc(argv, k, how), None, MODS)
    ctx.flush()
    ctx.floor("tasks", 20, len(ctx.tasks))
