"""Helpers shared by the checks."""
from __future__ import annotations

import ast
import os
from fractions import Fraction

import numpy as np
from mpmath import mp, mpf

from . import terms as tm
from .interp import AbsRaise, Arr, Class, Func, HostObj, Module, Obj, Stop, Unmodelled, parse
from .terms import T, UNDEF

TOL = mpf(10) ** -28


class Out:
    """outcome of an abstract call"""

    def __init__(self, kind, value=None, exc=None, site=None):
        self.kind, self.value, self.exc, self.site = kind, value, exc, site

    def __repr__(self):
        return "returns %r" % (self.value,) if self.kind == "ret" else "raises %s" % self.exc


def exc_name(e):
    v = e.value
    return getattr(getattr(v, "cls", None), "name", None) or getattr(v, "name", str(v))


def outcome(I, f, args, kw=None):
    try:
        v = I.call(f, list(args), kw or {})
    except AbsRaise as e:
        return Out("raise", exc=exc_name(e), site=e.site)
    return Out("ret", v)


def anchor(I, modname, *path):
    """resolve a public entry point; a vanished anchor breaks the analysis"""
    try:
        o = I.module(modname)
        for p in path:
            o = I.getattr_(o, p)
        return o
    except AbsRaise as e:
        raise Unmodelled("anchor %s.%s is gone: %s" % (modname, ".".join(path), exc_name(e)))
    except FileNotFoundError as e:
        raise Unmodelled("anchor module %s is gone: %s" % (modname, e))


# ---------------------------------------------------------------- values
def vec(name, n):
    return arr([tm.atom("%s%d" % (name, i)) for i in range(n)])


def symmat(name, n):
    return arr([[tm.atom("%s%d%d" % (name, max(i, j), min(i, j))) for j in range(n)] for i in range(n)])


def genmat(name, n, m=None):
    return arr([[tm.atom("%s%d_%d" % (name, i, j)) for j in range(m or n)] for i in range(n)])


def arr(rows, dt="f"):
    a = np.array(rows, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(a.shape):
        v = a[ix]
        out[ix] = v if isinstance(v, T) else tm.const(v)
    return Arr(out, dt)


def cells(a):
    """flat list of cells of an abstract array / sequence / scalar"""
    if isinstance(a, Arr):
        return list(a.data.flat)
    if isinstance(a, (list, tuple)):
        return [c for x in a for c in cells(x)]
    return [a]


def is_num(v):
    if isinstance(v, T):
        return v.typ in ("f", "i")
    if isinstance(v, bool):
        return False
    return isinstance(v, (int, float, Fraction)) or (isinstance(v, Arr) and v.data.ndim == 0)


def ev(p, v):
    """value of an abstract scalar at a witness valuation"""
    if isinstance(v, Arr):
        if v.data.size != 1:
            return UNDEF
        v = v.data.flat[0]
    if isinstance(v, T):
        return p.ev(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction):
        return mpf(v.numerator) / v.denominator
    if isinstance(v, (int, float, mpf)):
        return mpf(v)
    return UNDEF


def evs(p, a):
    if isinstance(a, Arr):
        out = np.empty(a.data.shape, dtype=object)
        for ix in np.ndindex(a.data.shape):
            out[ix] = ev(p, a.data[ix])
        return out
    return [ev(p, x) for x in a]


def close(a, b, scale=0):
    if a is UNDEF or b is UNDEF:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if mp.isnan(a) or mp.isnan(b):
        return False
    if a == b:
        return True
    if mp.isinf(a) or mp.isinf(b):
        return False
    return abs(a - b) <= TOL * max(abs(a), abs(b), abs(scale))


def sg(a, b=0):
    """sign of a - b, with the rounding residue of exact ties absorbed"""
    d = mpf(a) - mpf(b)
    if abs(d) <= mpf(10) ** -45 * max(abs(a), abs(b), mpf(10) ** -10):
        return 0
    return 1 if d > 0 else -1


def closes(a, b, scale=0):
    a, b = list(np.ravel(np.array(a, dtype=object))), list(np.ravel(np.array(b, dtype=object)))
    if len(a) != len(b):
        return False
    sc = max([abs(x) for x in a + b if x is not UNDEF and not isinstance(x, bool) and not mp.isinf(x)] + [scale])
    return all(close(x, y, sc) for x, y in zip(a, b))


def fmt(v):
    if v is UNDEF:
        return "undefined"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(fmt(x) for x in v) + "]"
    if isinstance(v, np.ndarray):
        return fmt(v.tolist())
    if isinstance(v, mpf):
        return mp.nstr(v, 10)
    return repr(v)


def snapshot(v, seen=None):
    """structure of an abstract value, for before/after comparison"""
    if isinstance(v, Arr):
        return ("arr", v.data.shape, tuple(tm.fp(c) if isinstance(c, T) else repr(c) for c in v.data.flat))
    if isinstance(v, T):
        return ("t", tm.fp(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snapshot(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((repr(k), snapshot(x)) for k, x in v.items()))
    if isinstance(v, Obj):
        seen = (seen or ()) + (id(v),)
        return ("obj", v.cls.name, tuple(sorted((k, snapshot(x) if id(x) not in seen else "rec") for k, x in v.d.items())))
    return ("v", repr(v))


def differs(run, a, b, what, rule, site=None, key=None):
    """obligation: abstract arrays/values a and b are equal on this partition"""
    ca, cb = cells(a), cells(b)
    if len(ca) != len(cb):
        run.ex.obligations += 1
        run.fail(rule, "%s: %d cells instead of %d" % (what, len(ca), len(cb)), None, site, key)
        return True
    if all(x is y for x, y in zip(ca, cb)):
        run.ex.obligations += 1
        return False

    def f(p):
        va, vb = [ev(p, x) for x in ca], [ev(p, x) for x in cb]
        if not closes(va, vb):
            return "%s is %s, expected %s" % (what, fmt(va), fmt(vb))

    return not run.each_point(rule, f, site, key)


# ---------------------------------------------------------------- source facts
def py_files(src):
    out = []
    for d, _, fs in os.walk(os.path.join(src, "ellalgo")):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
    return sorted(out)


def modname(src, path):
    r = os.path.relpath(path, src)[:-3].replace(os.sep, ".")
    return r[:-9] if r.endswith(".__init__") else r


def constants(src, mods):
    """numeric literals of the given modules (seeds for the witness search)"""
    out = set()
    for m in mods:
        path = os.path.join(src, *m.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(src, *m.split("."), "__init__.py")
        for n in ast.walk(parse(path)):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if n.value == n.value and abs(n.value) < 1e300:
                    out.add(Fraction(n.value) if isinstance(n.value, int) else Fraction(repr(n.value)))
    return sorted(out)


def small_dims(src, mods, lo, hi):
    """dimensions the source itself singles out in comparisons"""
    out = set()
    for m in mods:
        path = os.path.join(src, *m.split(".")) + ".py"
        if not os.path.exists(path):
            continue
        for n in ast.walk(parse(path)):
            if isinstance(n, ast.Compare):
                for c in [n.left] + n.comparators:
                    for k in ast.walk(c):
                        if isinstance(k, ast.Constant) and isinstance(k.value, int) and not isinstance(k.value, bool):
                            for d in (k.value - 1, k.value, k.value + 1):
                                if lo <= d <= hi:
                                    out.add(d)
    return out


def loop_dims(src, mods, lo, hi):
    """as small_dims, for every integer literal (loop bounds, moduli, slices)"""
    out = set()
    for c in constants(src, mods):
        if c.denominator == 1:
            for d in (int(c) - 1, int(c), int(c) + 1, int(c) + 2):
                if lo <= d <= hi:
                    out.add(d)
    return out


# ---------------------------------------------------------------- call counters kept by objects
def heap_ints(I, root):
    """{path: (container, key, value)} for the integers reachable from an object,
    its class and the module-level state of the repository"""
    out, seen, st = {}, set(), [(("obj",), root)]
    for m in I.modules.values():
        if m.path and m.path.startswith(I.src):
            st.append((("mod", m.name), m))
    while st:
        path, o = st.pop()
        if id(o) in seen or len(path) > 6:
            continue
        seen.add(id(o))
        if isinstance(o, Obj):
            items, box = list(o.d.items()), o.d
            st.append((path + ("cls",), o.cls))
        elif isinstance(o, Class):
            if o.module is None or o.is_enum:
                continue
            items, box = list(o.d.items()), o.d
        elif isinstance(o, Module):
            items, box = list(o.d.items()), o.d
        elif isinstance(o, Func):
            items, box = list(o.d.items()), o.d
        elif isinstance(o, dict):
            items, box = list(o.items()), o
        elif isinstance(o, list) and len(o) <= 16:
            items, box = list(enumerate(o)), o
        else:
            continue
        for k, v in items:
            if isinstance(v, T) and v.op == "const" and v.typ == "i":
                v = v.args[0]
            if isinstance(v, (int, Fraction)) and not isinstance(v, bool) and int(v) == v:
                out[path + (repr(k),)] = (box, k, int(v))
            elif isinstance(v, (Obj, dict, list, Class, Func)):
                st.append((path + (repr(k),), v))
    return out


def widen_counters(I, run, make, step, times=12):
    """-> (object, number of counters): a fresh object whose call counters (integers
    that grew by the same amount at every one of `times` calls on a twin) are
    abstract integers >= their value after the first calls"""
    twin = make()
    I.ints0 = heap_ints(I, twin)
    snaps = []
    for k in range(times):
        step(twin, k)
        snaps.append(heap_ints(I, twin))
    obj = make()
    fresh = heap_ints(I, obj)
    n = 0
    for path in sorted(snaps[-1]):
        vals = [s.get(path, (0, 0, None))[2] for s in snaps]
        if None in vals or vals[0] == vals[1] or len({b - a for a, b in zip(vals, vals[1:])}) != 1:
            continue
        box, key, _ = snaps[-1][path]
        if path[0] == "obj" and "cls" not in path:
            box = fresh[path][0] if path in fresh else boxes(obj, path)
            if box is None:
                continue
        st = vals[1] - vals[0]
        a = tm.atom("cnt0", "i")
        run.assume(tm.le(tm.const(0), a))
        box[key] = tm.add(tm.const(vals[0]), tm.mul(tm.const(st), a))
        n += 1
        if n == 4:
            break
    return obj, n


def boxes(obj, path):
    o = obj
    for k in path[1:-1]:
        if isinstance(o, Obj):
            o = next((v for q, v in o.d.items() if repr(q) == k), None)
        elif isinstance(o, dict):
            o = next((v for q, v in o.items() if repr(q) == k), None)
        else:
            return None
    return o.d if isinstance(o, Obj) else o if isinstance(o, (dict, list)) else None


def counter_vals(rng, consts, d, n=1):
    """values for the counters: around the integers the source mentions"""
    cs = [int(c) for c in consts if c.denominator == 1 and 2 <= c < 10**7] or [1000]
    for k in range(n):
        c = rng.choice(cs)
        d["cnt%d" % k] = max(0, rng.choice([c - 3, c - 2, c - 1, c, c + 1, 2 * c - 1, rng.randrange(0, 5000)]))


COUNTERS = ("cnt0",)


def Mat(p, a):
    """mp matrix of an abstract 2-d array at a point (None when undefined)"""
    v = evs(p, a)
    if any(x is UNDEF for x in v.flat):
        return None
    return v
