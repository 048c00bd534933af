#!/usr/bin/env python3-vt
"""modeltest.py: compare the interpreter's transfer functions with Python/numpy on concrete
snippets (tools/model/*.py). A test of the analyser, not of the repository."""
import ast, importlib.util, os, sys, tempfile, shutil
from fractions import Fraction
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import numpy as np
from mpmath import mpf
from sa import terms as tm
from sa.explore import Explorer
from sa.interp import Arr, Unmodelled, AbsRaise
from sa.lib import exc_name


def conv(v, p):
    from sa.npmodel import Cx
    if isinstance(v, Arr):
        return np.array([conv(c, p) for c in v.data.flat]).reshape(v.data.shape)
    if isinstance(v, tm.T):
        x = p.ev(v)
        return x if isinstance(x, bool) else complex(x).real if not isinstance(x, str) else x
    if isinstance(v, Cx):
        return complex(conv(v.re, p), conv(v.im, p))
    if isinstance(v, (list, tuple, set, frozenset)):
        return [conv(x, p) for x in v]
    if isinstance(v, dict):
        return [[conv(a, p), conv(b, p)] for a, b in v.items()]
    if isinstance(v, (range,)):
        return list(v)
    if isinstance(v, Fraction):
        return float(v)
    return v


def norm(v):
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, dict):
        return [[norm(a), norm(b)] for a, b in v.items()]
    if isinstance(v, (list, tuple, set, frozenset, range)):
        return [norm(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return np.shape(a) == np.shape(b) and np.allclose(np.array(a, dtype=complex), np.array(b, dtype=complex), rtol=1e-12, atol=1e-13)
        except Exception:
            return False
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return abs(a - b) <= 1e-12 * max(1, abs(a))
    return a == b


def main():
    bad = 0
    only = sys.argv[1:]
    for fn in sorted(os.listdir(V + "/tools/model")):
        if not fn.endswith(".py"):
            continue
        src = open(V + "/tools/model/" + fn).read()
        tree = ast.parse(src)
        spec = importlib.util.spec_from_file_location("snip", V + "/tools/model/" + fn)
        real = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(real)
        W = tempfile.mkdtemp()
        os.makedirs(W + "/src/ellalgo")
        open(W + "/src/ellalgo/__init__.py", "w").close()
        # one expression per task: explode the returned tuples
        body, tasks = [], []
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith("t_"):
                if only and n.name not in only:
                    continue
                ret = n.body[-1]
                elts = ret.value.elts if isinstance(ret.value, ast.Tuple) else [ret.value]
                if isinstance(elts[0], ast.Name) and elts[0].id == "out":
                    for st in n.body:
                        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == "out" and isinstance(st.value, ast.List):
                            elts = st.value.elts + elts
                for k, e in enumerate(elts):
                    f = ast.FunctionDef(name="%s_%d" % (n.name, k), args=n.args, body=[s for s in n.body[:-1]] + [ast.Return(e)],
                                        decorator_list=[], lineno=1, type_params=[])
                    body.append(ast.fix_missing_locations(f))
                    tasks.append((f.name, ast.unparse(e)))
            else:
                body.append(n)
        code = ast.unparse(ast.Module(body, []))
        open(W + "/src/ellalgo/snip.py", "w").write(code)
        ns = {"__name__": "snip"}
        sys.modules["snip"] = real
        exec(compile(code, "snip", "exec"), ns)
        for name, text in tasks:
            want = norm(ns[name]())
            got = []

            def sc(run, I, name=name):
                m = I.module("ellalgo.snip")
                try:
                    v = I.call(I.getattr_(m, name), [])
                except AbsRaise as e:
                    got.append("raises %s" % exc_name(e))
                    return
                got.append(conv(v, run.ex.pool[0]))

            try:
                e = Explorer(W + "/src", name, sc, lambda rng, i: {"zz": mpf(1)}, seed=1, npoints=1)
                e.explore()
            except Unmodelled as x:
                print("UNMODELLED %s: %s   (%s)" % (name, x, text[:90]))
                bad += 1
                continue
            except Exception as x:
                print("CRASH %s: %s %s   (%s)" % (name, type(x).__name__, x, text[:90]))
                bad += 1
                continue
            if len(got) != 1 or not same(want, got[0]):
                print("DIFFERENT %s: %r, real %r   (%s)" % (name, got, want, text[:90]))
                bad += 1
        print(fn, len(tasks), "snippets")
        shutil.rmtree(W)
    print("bad:", bad)


main()
