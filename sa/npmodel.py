"""Transfer functions for builtins, math, copy and the part of numpy in reach.

Arrays are object ndarrays of value numbers, so numpy itself supplies shapes,
broadcasting and view/copy behaviour; all arithmetic on cells is symbolic.
"""
from __future__ import annotations

import argparse as _argparse

import collections
import itertools
import math
from fractions import Fraction

import numpy as np

from . import terms as tm
from .interp import (
    AbsRaise, Arr, Bound, BType, Class, ClassM, Func, Gen, H, HostObj, MISSING, Module, Obj,
    Partial, Property, Static, Stop, SymRange, Typing, UnionT, Unmodelled,
)
from .terms import T


class Cx:
    """complex value number"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = tm.L(re), tm.L(im)

    def __repr__(self):
        return "(%s + i %s)" % (self.re, self.im)


def cx(v):
    if isinstance(v, Cx):
        return v
    if isinstance(v, complex):
        return Cx(tm.const(v.real), tm.const(v.imag))
    return Cx(v, tm.const(0.0))


def cx_op(op, a, b):
    a, b = cx(a), cx(b)
    if op == "add":
        return Cx(a.re + b.re, a.im + b.im)
    if op == "sub":
        return Cx(a.re - b.re, a.im - b.im)
    if op == "mul":
        return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    if op == "truediv":
        d = b.re * b.re + b.im * b.im
        return Cx(tm.div(a.re * b.re + a.im * b.im, d), tm.div(a.im * b.re - a.re * b.im, d))
    raise Unmodelled("complex %s" % op)


def obj(x):
    """object ndarray (never numeric) from nested python lists of cells"""
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


class DType:
    def __init__(self, kind):
        self.k = kind
        self.kind = "f" if kind == "s" else kind
        self.name = {"f": "float64", "s": "float32", "i": "int64", "b": "bool", "c": "complex128"}.get(kind, "object")
        self.itemsize = {"s": 4, "b": 1, "c": 16}.get(kind, 8)

    def __eq__(self, o):
        return isinstance(o, DType) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "dtype(%s)" % self.name


def kind_of(x):
    if isinstance(x, bool):
        return "b"
    if isinstance(x, T):
        return x.typ
    if isinstance(x, int):
        return "i"
    if isinstance(x, (Cx, complex)):
        return "c"
    return "f"


ORDER = "bisfc"       # s: single precision


def promote(*ks):
    return ORDER[max(ORDER.index(k) for k in ks)]


class NP:
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------ construction
    def wrap(self, a, dt="f"):
        if isinstance(a, np.ndarray):
            if a.ndim == 0:
                return a[()]
            return Arr(a, dt)
        return a

    def cell(self, x, dt):
        """convert one value to a cell of dtype dt"""
        if isinstance(x, Arr):
            if x.data.size != 1:
                raise self.I.exc("ValueError", "setting an array element with a sequence")
            x = x.data.reshape(-1)[0]
        if dt == "c":
            return cx(x)
        if dt == "f":
            if isinstance(x, T):
                if x.typ == "f":
                    return x
                if x.typ == "b":
                    return tm.ite(x, tm.const(1.0), tm.const(0.0))
                if x.op == "const":
                    return tm.mk("const", x.args, "f")
                return tm.fn("float", x) if False else tm.mk("add", (x, tm.const(0.0)), "f")
            if isinstance(x, (bool, int, Fraction)):
                return tm.mk("const", (Fraction(x),), "f")
            if isinstance(x, (Cx, complex)):
                raise self.I.exc("TypeError", "can't convert complex to float")
            raise self.I.exc("TypeError", "float() argument must be a number, not %s" % self.I.tn(x))
        if dt == "s":
            return tm.fn("single", self.cell(x, "f"))
        if dt == "i":
            if isinstance(x, T):
                if x.typ == "f":
                    return tm.fn("trunc", x, typ="i")
                return x
            if isinstance(x, (bool, int)):
                return tm.const(int(x))
            raise self.I.exc("TypeError", "int() argument must be a number")
        if dt == "b":
            return self.I.bt(x)
        return x

    def arr(self, v, dt=None, copy=True):
        """np.array / np.asarray"""
        if isinstance(v, Arr):
            if dt is None or dt == v.dt:
                return Arr(v.data.copy(), v.dt) if copy else v
            return self.astype(v, dt)
        if isinstance(v, (T, int, bool, Cx, complex)):
            k = dt or kind_of(v)
            a = np.empty((), dtype=object)
            a[()] = self.cell(v, k)
            return Arr(a, k)
        if isinstance(v, HostObj) and hasattr(v, "as_arr"):
            return self.arr(v.as_arr(), dt, copy)
        if isinstance(v, str) or v is None:
            a = np.empty((), dtype=object)
            a[()] = v
            return Arr(a, dt or "O")
        items = list(self.I.iter_(v))
        subs = [self.arr(x, None, True) for x in items]
        if not subs:
            return Arr(np.empty((0,), dtype=object), dt or "f")
        shp = subs[0].data.shape
        if any(s.data.shape != shp for s in subs):
            raise self.I.exc("ValueError", "setting an array element with a sequence (inhomogeneous shape)")
        k = dt or ("O" if any(s.dt == "O" for s in subs) else promote(*[s.dt for s in subs]))
        out = np.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs):
            s = s if s.dt == k or k == "O" else self.astype(s, k)
            out[i] = s.data if s.data.ndim else s.data[()]
        return Arr(out, k)

    def astype(self, a, dt):
        out = np.empty(a.data.shape, dtype=object)
        f, g = out.reshape(-1), a.data.reshape(-1)
        for i in range(g.size):
            f[i] = self.cell(g[i], dt)
        if out.ndim == 0:
            out[()] = f[0]
        return Arr(out, dt)

    def dtype(self, d):
        if d is None:
            return None
        if isinstance(d, DType):
            return d.k
        if isinstance(d, BType):
            return {"float": "f", "int": "i", "bool": "b", "complex": "c", "float64": "f", "float32": "s",
                    "int64": "i", "bool_": "b", "object": "O", "integer": "i"}.get(d.name, "f")
        if isinstance(d, str):
            if d.lstrip("<>=") in ("f4", "f2", "e", "f", "single", "half", "float32", "float16"):
                return "s"
            if d.lstrip("<>=")[:1] in ("c", "D", "F"):
                return "c"
            d = d.lstrip("<>=")
            return "f" if d[0] in "fd" else "i" if d[0] in "iu" else "b" if d[0] in "b?" else "c"
        return "f"

    def same_dtype(self, a, b):
        try:
            return a is not None and b is not None and self.dtype(a) == self.dtype(b)
        except IndexError:
            return False

    def full(self, shape, v, dt="f"):
        shape = self.shape(shape)
        a = np.empty(shape, dtype=object)
        a.fill(self.cell(v, dt))
        return Arr(a, dt)

    def shape(self, s):
        if isinstance(s, (int, T)):
            return (self.I.concrete_int(s),)
        return tuple(self.I.concrete_int(x) for x in self.I.iter_(s))

    # ------------------------------------------------------------ elementwise
    def unary(self, a, f, dt=None):
        if not isinstance(a, Arr):
            return f(a)
        out = np.empty(a.data.shape, dtype=object)
        for i in np.ndindex(*a.data.shape):
            out[i] = f(a.data[i])
        return self.wrap(out, dt or a.dt)

    def raw(self, v):
        """(ndarray, dt) of an operand"""
        if isinstance(v, Arr):
            return v.data, v.dt
        if isinstance(v, (T, int, bool, Cx, complex)):
            a = np.empty((), dtype=object)
            a[()] = v
            return a, kind_of(v)
        if isinstance(v, (list, tuple)) or (isinstance(v, HostObj) and hasattr(v, "as_arr")):
            x = self.arr(v)
            return x.data, x.dt
        if v is None or isinstance(v, (str, Obj)):
            a = np.empty((), dtype=object)
            a[()] = v
            return a, "O"
        raise Unmodelled("array operand %r at %s" % (v, self.I.site()))

    def ew(self, f, *vs, dt=None):
        """elementwise map with broadcasting"""
        raws = [self.raw(v) for v in vs]
        try:
            shp = np.broadcast_shapes(*[r[0].shape for r in raws])
        except ValueError as e:
            raise self.I.exc("ValueError", str(e))
        bs = [np.broadcast_to(r[0], shp) for r in raws]
        out = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            out[i] = f(*[b[i] for b in bs])
        k = dt or promote(*[r[1] for r in raws])
        return self.wrap(out, k)

    def binop(self, op, a, b):
        if op == "matmul":
            return self.matmul(a, b)
        for v in (a, b):
            if v is None or isinstance(v, str):
                raise self.I.exc("TypeError", "unsupported operand type for %s: NoneType" % op)
        if op in ("and", "or", "xor"):
            f = {"and": lambda x, y: tm.band(self.I.bt(x), self.I.bt(y)),
                 "or": lambda x, y: tm.bor(self.I.bt(x), self.I.bt(y)),
                 "xor": lambda x, y: tm.ite(self.I.bt(x), tm.bnot(self.I.bt(y)), self.I.bt(y))}[op]
            return self.ew(f, a, b, dt="b")
        r = self.ew(lambda x, y: self.scal(op, x, y), a, b)
        if isinstance(r, Arr) and op == "truediv" and r.dt == "i":
            r.dt = "f"
        return r

    def complex_op(self, op, a, b):
        return cx_op(op, a, b)

    def scal(self, op, a, b):
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            return cx_op(op, a, b)
        if not isinstance(a, (T, int, Fraction)) or not isinstance(b, (T, int, Fraction)):
            raise self.I.exc("TypeError", "unsupported operand types for %s: %s and %s" % (op, self.I.tn(a), self.I.tn(b)))
        if op in ("and", "or", "xor"):
            x, y = self.I.bt(a), self.I.bt(b)
            return self.I.b_(tm.band(x, y) if op == "and" else tm.bor(x, y) if op == "or"
                             else tm.ite(x, tm.bnot(y), y))
        a, b = self.I.numt(a), self.I.numt(b)
        if op == "add":
            return tm.add(a, b)
        if op == "sub":
            return tm.sub(a, b)
        if op == "mul":
            return tm.mul(a, b)
        if op == "truediv":
            if tm.is_const(b) and tm.cval(b) == 0 and tm.is_const(a):
                raise self.I.exc("ZeroDivisionError", "division by zero")
            return tm.div(a, b)
        if op == "floordiv":
            return tm.floordiv(a, b)
        if op == "mod":
            return tm.mod(a, b)
        if op == "pow":
            return tm.power(a, b)
        raise Unmodelled("operator %s on value numbers" % op)

    def compare(self, op, a, b):
        if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
            if op not in ("eq", "ne"):
                raise self.I.exc("TypeError", "comparison of array with %s" % self.I.tn(b))
            arr = a if isinstance(a, Arr) else b
            return self.unary(arr, lambda x: tm.b(op == "ne"), "b")

        def f(x, y):
            if isinstance(x, Cx) or isinstance(y, Cx):
                x, y = cx(x), cx(y)
                e = tm.band(tm.eq(x.re, y.re), tm.eq(x.im, y.im))
                return e if op == "eq" else tm.bnot(e)
            x, y = self.I.numt(x), self.I.numt(y)
            return {"lt": lambda: tm.lt(x, y), "le": lambda: tm.le(x, y), "gt": lambda: tm.lt(y, x),
                    "ge": lambda: tm.le(y, x), "eq": lambda: tm.eq(x, y), "ne": lambda: tm.bnot(tm.eq(x, y))}[op]()

        return self.ew(f, a, b, dt="b")

    def inplace(self, op, a, b):
        if op == "matmul":
            r = self.matmul(a, b)
        else:
            r = self.binop(op, a, b)
        rr = r.data if isinstance(r, Arr) else obj(r)
        rdt = r.dt if isinstance(r, Arr) else kind_of(r)
        if rr.shape != a.data.shape:
            raise self.I.exc("ValueError", "non-broadcastable output operand")
        if ORDER.index(rdt.replace("f", "s")) > ORDER.index(a.dt.replace("f", "s")):
            raise self.I.exc("TypeError", "Cannot cast ufunc output from %s to %s" % (rdt, a.dt))
        for i in np.ndindex(*rr.shape):
            a.data[i] = self.cell(rr[i], a.dt)
        return a

    # ------------------------------------------------------------ linear algebra
    def dot1(self, x, y):
        s = None
        for p, q in zip(x, y):
            m = self.scal("mul", p, q)
            s = m if s is None else self.scal("add", s, m)
        return tm.const(0.0) if s is None else s

    def matmul(self, a, b, is_dot=False):
        x, kx = self.raw(a)
        y, ky = self.raw(b)
        k = promote(kx, ky)
        if x.ndim == 0 or y.ndim == 0:
            if is_dot:
                return self.binop("mul", self.wrap(x, kx), self.wrap(y, ky))
            raise self.I.exc("ValueError", "matmul: scalar operand")
        if x.ndim == 3 and y.ndim <= 2 and is_dot or x.ndim == 3 and y.ndim < 3:
            return self.stack([self.matmul(Arr(x[i], kx), Arr(y, ky)) for i in range(x.shape[0])], k)
        if y.ndim == 3 and not is_dot:
            if x.ndim == 3 and len(x) != len(y):
                raise Unmodelled("matmul of rank > 2 with broadcasting")
            return self.stack([self.matmul(Arr(x[i] if x.ndim == 3 else x, kx), Arr(y[i], ky)) for i in range(y.shape[0])], k)
        if x.ndim > 2 or y.ndim > 2:
            raise Unmodelled("matmul of rank > 2")
        if x.shape[-1] != y.shape[0]:
            raise self.I.exc("ValueError", "shapes %s and %s not aligned" % (x.shape, y.shape))
        if x.ndim == 1 and y.ndim == 1:
            return self.dot1(x, y)
        if x.ndim == 2 and y.ndim == 1:
            out = np.empty((x.shape[0],), dtype=object)
            for i in range(x.shape[0]):
                out[i] = self.dot1(x[i], y)
            return Arr(out, k)
        if x.ndim == 1:
            out = np.empty((y.shape[1],), dtype=object)
            for j in range(y.shape[1]):
                out[j] = self.dot1(x, y[:, j])
            return Arr(out, k)
        out = np.empty((x.shape[0], y.shape[1]), dtype=object)
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                out[i, j] = self.dot1(x[i], y[:, j])
        return Arr(out, k)

    def stack(self, items, k):
        out = np.empty((len(items),) + (items[0].data.shape if isinstance(items[0], Arr) else ()), dtype=object)
        for i, v in enumerate(items):
            out[i] = v.data if isinstance(v, Arr) else v
        return Arr(out, k)

    def outer(self, a, b):
        x, kx = self.raw(a)
        y, ky = self.raw(b)
        x, y = x.reshape(-1), y.reshape(-1)
        out = np.empty((x.size, y.size), dtype=object)
        for i in range(x.size):
            for j in range(y.size):
                out[i, j] = self.scal("mul", x[i], y[j])
        return Arr(out, promote(kx, ky))

    # ------------------------------------------------------------ reductions
    def reduce(self, a, f, init=None, axis=None, dt=None, keepdims=False):
        x, k = self.raw(a)
        k = dt or k
        if axis is None:
            s = init
            for v in x.reshape(-1):
                s = v if s is None else f(s, v)
            if s is None:
                raise self.I.exc("ValueError", "zero-size array to reduction operation")
            if keepdims:
                out = np.empty((1,) * x.ndim, dtype=object)
                out[(0,) * x.ndim] = s
                return Arr(out, k)
            return s
        axes = [self.I.concrete_int(axis)] if not isinstance(axis, tuple) else [self.I.concrete_int(z) for z in axis]
        if len(axes) > 1:
            axes = sorted(z % x.ndim for z in axes)
            r = Arr(x, k)
            for ax in reversed(axes):
                r = self.reduce(r, f, init, ax, dt, True)
            return r if keepdims else self.wrap(r.data.squeeze(tuple(axes)), k)
        ax = axes[0] % x.ndim
        y = np.moveaxis(x, ax, 0)
        out = np.empty(y.shape[1:], dtype=object)
        for i in np.ndindex(*y.shape[1:]):
            s = init
            for j in range(y.shape[0]):
                v = y[(j,) + i]
                s = v if s is None else f(s, v)
            out[i] = s
        if keepdims:
            out = np.expand_dims(out, ax)
        return self.wrap(out, k)

    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        if not isinstance(a, (Arr, T, int)) :
            a = self.arr(list(self.I.iter_(a)))
        x, k = self.raw(a)
        if k == "b":
            a = self.astype(Arr(x, k), "i")
            k = "i"
        if where is not None:
            a = self.ew(lambda v, m: tm.ite(self.I.bt(m), v, tm.const(0.0)), Arr(x, k), where if isinstance(where, (Arr, bool, T)) else self.arr(where), dt=k)
        if dtype is not None:
            a = self.astype(a if isinstance(a, Arr) else Arr(*self.raw(a)), self.dtype(dtype))
        if x.size == 0 and (axis is None or x.ndim == 1):
            return tm.const(0.0) if initial is None else initial
        return self.reduce(a, lambda p, q: self.scal("add", p, q), axis=axis, keepdims=keepdims,
                           init=initial)

    def all(self, a, axis=None, keepdims=False):
        r = self.reduce(self.boolarr(a), tm.band, tm.TRUE, axis, "b", keepdims)
        return self.I.b_(r) if isinstance(r, T) else r

    def any(self, a, axis=None, keepdims=False):
        r = self.reduce(self.boolarr(a), tm.bor, tm.FALSE, axis, "b", keepdims)
        return self.I.b_(r) if isinstance(r, T) else r

    def boolarr(self, a):
        if not isinstance(a, Arr):
            if isinstance(a, (bool, int, T)):
                return self.I.bt(a)
            a = self.arr(a)
        return self.unary(a, self.I.bt, "b") if a.dt != "b" else a

    def max(self, a, axis=None, keepdims=False, initial=None):
        return self.reduce(a, lambda p, q: tm_max(p, q), initial, axis, keepdims=keepdims)

    def min(self, a, axis=None, keepdims=False, initial=None):
        return self.reduce(a, lambda p, q: tm_min(p, q), initial, axis, keepdims=keepdims)

    def argmax(self, a, axis=None, sign=1):
        x, k = self.raw(a if isinstance(a, Arr) else self.arr(a))
        if axis is not None and x.ndim > 1:
            y = np.moveaxis(x, self.I.concrete_int(axis), 0)
            out = np.empty(y.shape[1:], dtype=object)
            for i in np.ndindex(*y.shape[1:]):
                out[i] = tm.const(self.argmax(Arr(y[(slice(None),) + i], k), None, sign))
            return Arr(out, "i")
        f = x.reshape(-1)
        if f.size == 0:
            raise self.I.exc("ValueError", "attempt to get argmax of an empty sequence")
        best = 0
        for i in range(1, f.size):
            c = self.I.compare("gt" if sign > 0 else "lt", self.I.numt(f[i]), self.I.numt(f[best]))
            if self.I.truth(c):
                best = i
        return best

    def norm(self, a, ord=None, axis=None, keepdims=False):
        x, k = self.raw(a)
        if isinstance(ord, T) and ord.op == "special":
            return self.max(self.unary(Arr(x, k), tm.fabs), axis=axis)
        if ord is None or (isinstance(ord, (int, T)) and self.I.concrete_int(ord) == 2 and x.ndim == 1):
            sq = self.unary(Arr(x, k), lambda v: self.scal("mul", v, v))
            s = self.sum(sq, axis=axis)
            return self.unary(s, tm.sqrt)
        if isinstance(ord, int) and ord == 1 and x.ndim == 1:
            return self.sum(self.unary(Arr(x, k), tm.fabs), axis=axis)
        raise Unmodelled("norm order")

    # ------------------------------------------------------------ indexing
    def conv_ix(self, a, ix):
        I = self.I
        if not isinstance(ix, tuple):
            ix = (ix,)
        out = []
        for x in ix:
            if isinstance(x, slice):
                out.append(slice(*[None if v is None else I.concrete_int(v) for v in (x.start, x.stop, x.step)]))
            elif x is Ellipsis or x is None:
                out.append(x)
            elif isinstance(x, bool):
                raise Unmodelled("boolean scalar index")
            elif isinstance(x, (int, T)):
                if isinstance(x, T) and x.typ == "f":
                    raise I.exc("IndexError", "only integers are valid indices")
                out.append(I.concrete_int(x))
            elif isinstance(x, Arr):
                if x.dt == "b":
                    out.append(np.array([I.truth(v) for v in x.data.reshape(-1)], dtype=bool).reshape(x.data.shape))
                else:
                    out.append(np.array([I.concrete_int(v) for v in x.data.reshape(-1)], dtype=int).reshape(x.data.shape))
            elif isinstance(x, (list, range)):
                xs = list(x)
                if xs and all(isinstance(v, bool) or isinstance(v, T) and v.typ == "b" for v in xs):
                    out.append(np.array([I.truth(v) for v in xs], dtype=bool))
                else:
                    out.append(np.array([I.concrete_int(v) for v in xs], dtype=int))
            else:
                raise Unmodelled("index %r" % (x,))
        return tuple(out)

    def getitem(self, a, ix):
        cix = self.conv_ix(a, ix)
        try:
            r = a.data[cix]
        except IndexError as e:
            raise self.I.exc("IndexError", str(e))
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not any(c is Ellipsis for c in cix):
                return r[()]
            return Arr(r, a.dt)
        return self.out(r, a.dt)

    def out(self, r, dt):
        if isinstance(r, T) and r.typ == "b":
            return self.I.b_(r)
        if isinstance(r, T) and r.typ == "i" and r.op == "const":
            return int(r.args[0])
        return r

    def setitem(self, a, ix, v):
        # masked assignment of a scalar: gated per cell, no partitioning needed
        if isinstance(ix, Arr) and ix.dt == "b" and ix.data.shape == a.data.shape and not isinstance(v, (Arr, list, tuple)):
            c = self.cell(v, a.dt)
            for i in np.ndindex(*a.data.shape):
                m = self.I.bt(ix.data[i])
                a.data[i] = tm.ite(m, c, a.data[i]) if a.dt != "b" else c
            return
        cix = self.conv_ix(a, ix)
        try:
            tgt = a.data[cix]
        except IndexError as e:
            raise self.I.exc("IndexError", str(e))
        if not isinstance(tgt, np.ndarray):
            a.data[cix] = self.cell(v, a.dt)
            return
        r, k = self.raw(v)
        try:
            r = np.broadcast_to(r, tgt.shape)
        except ValueError as e:
            raise self.I.exc("ValueError", str(e))
        new = np.empty(tgt.shape, dtype=object)
        for i in np.ndindex(*tgt.shape):
            new[i] = self.cell(r[i], a.dt)
        a.data[cix] = new if new.ndim else new[()]

    def iterate(self, a):
        if a.data.ndim == 0:
            raise self.I.exc("TypeError", "iteration over a 0-d array")

        def g():
            for i in range(a.data.shape[0]):
                x = a.data[i]
                yield Arr(x, a.dt) if isinstance(x, np.ndarray) else self.out(x, a.dt)

        return g()

    # ------------------------------------------------------------ attributes
    def attr(self, a, name):
        d = a.data
        if name == "shape":
            return tuple(d.shape)
        if name == "ndim":
            return d.ndim
        if name == "size":
            return d.size
        if name == "T":
            return Arr(d.T, a.dt)
        if name == "flat":
            return Arr(d.reshape(-1), a.dt)
        if name == "dtype":
            return DType(a.dt)
        if name == "real":
            return self.unary(a, lambda x: cx(x).re, "f") if a.dt == "c" else a
        if name == "imag":
            return self.unary(a, lambda x: cx(x).im, "f")
        if name == "flags":
            return Flags()
        if name == "base":
            return None
        m = getattr(self, "m_" + name, None)
        if m is None:
            if hasattr(np.ndarray, name):
                raise Unmodelled("ndarray.%s at %s" % (name, self.I.site()))
            return MISSING
        return H(lambda *args, **kw: m(a, *args, **kw), "ndarray." + name)

    def set_attr(self, a, name, v):
        if name == "shape":
            a.data = a.data.reshape(self.shape(v))
        else:
            raise Unmodelled("setting ndarray.%s" % name)

    def m_copy(self, a, order=None):
        return Arr(a.data.copy(), a.dt)

    def m___copy__(self, a):
        return Arr(a.data.copy(), a.dt)

    def m___deepcopy__(self, a, memo=None):
        return Arr(a.data.copy(), a.dt)

    def m_dot(self, a, b, out=None):
        return self.matmul(a, b, True)

    def m___len__(self, a):
        return a.data.shape[0]

    def m_sum(self, a, *args, **kw):
        return self.sum(a, *args, **kw)

    def m_prod(self, a, axis=None):
        return self.reduce(a, lambda p, q: self.scal("mul", p, q), axis=axis)

    def m_mean(self, a, axis=None):
        n = a.data.size if axis is None else a.data.shape[axis]
        return self.I.binop("truediv", self.sum(a, axis), n)

    def m_all(self, a, *args, **kw):
        return self.all(a, *args, **kw)

    def m_any(self, a, *args, **kw):
        return self.any(a, *args, **kw)

    def m_max(self, a, *args, **kw):
        return self.max(a, *args, **kw)

    def m_min(self, a, *args, **kw):
        return self.min(a, *args, **kw)

    def m_argmax(self, a, axis=None):
        return self.argmax(a, axis)

    def m_argsort(self, a, *args, **kw):
        xs = list(self.iterate(a))
        return self.arr(sorted_(self.I, list(range(len(xs))), H(lambda i: xs[i])), "i")

    def m_argmin(self, a, axis=None):
        return self.argmax(a, axis, -1)

    def m_tolist(self, a):
        def rec(x):
            return [rec(y) if isinstance(y, np.ndarray) else self.out(y, a.dt) for y in x]

        return rec(a.data) if a.data.ndim else self.out(a.data[()], a.dt)

    def m_item(self, a, *ix):
        if ix:
            return self.getitem(a, ix if len(ix) > 1 else ix[0])
        if a.data.size != 1:
            raise self.I.exc("ValueError", "can only convert an array of size 1 to a Python scalar")
        return self.out(a.data.reshape(-1)[0], a.dt)

    def m_reshape(self, a, *s, **kw):
        if len(s) == 1 and not isinstance(s[0], (int, T)):
            s = tuple(self.I.iter_(s[0]))
        try:
            return Arr(a.data.reshape(tuple(self.I.concrete_int(x) for x in s)), a.dt)
        except ValueError as e:
            raise self.I.exc("ValueError", str(e))

    def m_ravel(self, a, *args):
        return Arr(a.data.reshape(-1), a.dt)

    def m_flatten(self, a, *args):
        return Arr(a.data.flatten(), a.dt)

    def m_transpose(self, a, *axes):
        return Arr(a.data.transpose(*axes), a.dt)

    def m_squeeze(self, a, axis=None):
        return self.wrap(a.data.squeeze(axis), a.dt)

    def m_astype(self, a, dt, copy=True, **kw):
        k = self.dtype(dt)
        return Arr(a.data.copy(), a.dt) if k == a.dt else self.astype(a, k)

    def m_fill(self, a, v):
        c = self.cell(v, a.dt)
        for i in np.ndindex(*a.data.shape):
            a.data[i] = c

    def m_diagonal(self, a, offset=0):
        return Arr(a.data.diagonal(offset), a.dt)

    def m_trace(self, a, offset=0):
        return self.sum(Arr(a.data.diagonal(offset), a.dt))

    def m_round(self, a, decimals=0):
        return self.unary(a, lambda x: self.round_(x, decimals))

    def m_cumsum(self, a, axis=None):
        if axis is not None and a.data.ndim > 1:
            y = np.moveaxis(a.data.copy(), self.I.concrete_int(axis), 0)
            for j in range(1, len(y)):
                for i in np.ndindex(*y.shape[1:]):
                    y[(j,) + i] = self.scal("add", y[(j - 1,) + i], y[(j,) + i])
            return Arr(np.moveaxis(y, 0, self.I.concrete_int(axis)), a.dt)
        out, s = [], None
        for v in a.data.reshape(-1):
            s = v if s is None else self.scal("add", s, v)
            out.append(s)
        return self.arr(out, a.dt)

    def m_conj(self, a):
        return self.unary(a, lambda x: Cx(x.re, tm.neg(x.im)) if isinstance(x, Cx) else x)

    m_conjugate = m_conj

    def m_clip(self, a, lo=None, hi=None, **kw):
        def f(x):
            if lo is not None:
                x = tm_max(x, tm.L(lo))
            if hi is not None:
                x = tm_min(x, tm.L(hi))
            return x

        return self.unary(a, f)

    def m_view(self, a, *args):
        return Arr(a.data.view(), a.dt)

    def m_setflags(self, a, **kw):
        raise Unmodelled("ndarray.setflags")

    def m_nonzero(self, a):
        return self.nonzero(a)

    def m_swapaxes(self, a, i, j):
        return Arr(a.data.swapaxes(i, j), a.dt)

    def m_take(self, a, ix, axis=None):
        return self.getitem(a, ix) if axis in (None, 0) else self.getitem(a, (slice(None), ix))

    def m_repeat(self, a, n, axis=None):
        return Arr(np.repeat(a.data, self.I.concrete_int(n), axis), a.dt)

    def nonzero(self, a):
        mask = [i for i in np.ndindex(*a.data.shape) if self.I.truth(a.data[i])]
        return tuple(self.arr([m[d] for m in mask], "i") for d in range(a.data.ndim))

    def round_(self, x, decimals=0):
        if decimals not in (0, None):
            s = tm.const(10 ** decimals)
            return tm.div(tm.fn("round", tm.mul(x, s)), s)
        return tm.fn("round", x, typ=x.typ) if isinstance(x, T) else x

    def scalar_attr(self, t, name):
        I = self.I
        if name in ("real", "T"):
            return t
        if name == "imag":
            return tm.const(0.0)
        if name == "shape":
            return ()
        if name in ("ndim",):
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            return DType(t.typ)
        if name in ("item", "copy", "conjugate", "conj", "sum", "max", "min", "tolist", "__float__", "squeeze", "ravel", "mean"):
            if name == "ravel":
                return H(lambda *a: self.arr([t]))
            return H(lambda *a, **k: t)
        if name == "astype":
            return H(lambda d, **k: self.cell(t, self.dtype(d)))
        if name == "is_integer":
            return H(lambda: I.b_(tm.eq(tm.fn("trunc", t, typ="i"), t)))
        if name == "dot":
            return H(lambda o: I.binop("mul", t, o))
        if name in ("all", "any"):
            return H(lambda: I.bt(t))
        if name == "round":
            return H(lambda d=0: self.round_(t, d))
        if name.startswith("__") and name[2:-2] in ("add", "sub", "mul", "truediv", "pow"):
            return H(lambda o: I.binop(name[2:-2], t, o))
        if name.startswith("__") and name[2:-2] in ("lt", "le", "gt", "ge", "eq", "ne"):
            return H(lambda o: I.compare(name[2:-2], t, o))
        return MISSING

    # ------------------------------------------------------------ native containers
    def native_attr(self, o, name):
        I = self.I
        if isinstance(o, Cx):
            if name == "real":
                return o.re
            if name == "imag":
                return o.im
            return MISSING
        if isinstance(o, DType):
            t = {"f": "float64", "s": "float32", "i": "int64", "b": "bool_", "c": "complex128"}.get(o.k)
            return {"kind": o.kind, "name": o.name, "itemsize": o.itemsize, "char": {"f": "d", "s": "f", "i": "l", "b": "?", "c": "D"}.get(o.k),
                    "type": I.ext["numpy"].d.get(t)}.get(name, MISSING)
        if isinstance(o, Flags):
            return True
        if o is None or isinstance(o, (bool, int)) and not hasattr(o, name):
            return MISSING
        if isinstance(o, int):
            if name == "is_integer":
                return H(lambda: True)
            return getattr(o, name) if not callable(getattr(o, name)) else H(getattr(o, name))
        if isinstance(o, list):
            if name == "index":
                def index(v, *a):
                    for i, x in enumerate(o):
                        if I.truth(I.compare("eq", x, v)):
                            return i
                    raise I.exc("ValueError", "not in list")
                return H(index)
            if name == "count":
                return H(lambda v: sum(1 for x in o if I.truth(I.compare("eq", x, v))))
            if name == "remove":
                def remove(v):
                    for i, x in enumerate(o):
                        if I.truth(I.compare("eq", x, v)):
                            del o[i]
                            return
                    raise I.exc("ValueError", "not in list")
                return H(remove)
            if name == "sort":
                def sort(key=None, reverse=False):
                    o[:] = sorted_(I, o, key, reverse)
                return H(sort)
            if name == "extend":
                return H(lambda v: o.extend(I.iter_(v)))
        if isinstance(o, tuple) and name in getattr(o, "_sa_fields", ()):
            return o[o._sa_fields.index(name)]
        if isinstance(o, tuple) and name in getattr(o, "_sa_extra", ()):
            v = o._sa_extra[name]
            if isinstance(v, Property):
                return I.call(v.fget, [o], {})
            if isinstance(v, Static):
                return v.fn
            if isinstance(v, ClassM):
                return H(lambda *a, **kw: I.call(v.fn, [o.sa_type] + list(a), kw))
            return Bound(v, o) if isinstance(v, Func) else v
        if isinstance(o, tuple) and hasattr(o, "_sa_fields"):
            if name == "_fields":
                return tuple(o._sa_fields)
            if name == "_asdict":
                return H(lambda: dict(zip(o._sa_fields, o)))
            if name == "_replace":
                return H(lambda **k: type(o)([k.get(f, v) for f, v in zip(o._sa_fields, o)]))
        if isinstance(o, (list, tuple, dict, set, frozenset, str, range, slice, collections.deque, bytes)):
            v = getattr(o, name, MISSING)
            if v is MISSING:
                return MISSING
            if callable(v):
                if isinstance(o, dict) and name in ("get", "pop", "setdefault"):
                    return H(lambda k, *a: v(I.hashable(k), *a), name)
                if isinstance(o, str) and name == "format":
                    def fmt_(*a, **k):
                        a, k = [I.plain(x) for x in a], {n: I.plain(x) for n, x in k.items()}
                        if all(isinstance(x, (int, float, str, type(None))) for x in list(a) + list(k.values())):
                            return o.format(*a, **k)
                        return o

                    return H(fmt_)
                if isinstance(o, str) and name == "join":
                    return H(lambda it: o.join(I.str_(x) for x in I.iter_(it)))
                return H(v, name)
            return v
        if isinstance(o, (Const,)):
            return MISSING
        v = getattr(o, "sa_" + name, MISSING)
        return v


class Flags:
    pass


class Const:
    pass


def tm_max(a, b):
    a, b = tm.L(a), tm.L(b)
    if a.op == "special" and a.args[0] == "-inf":
        return b
    if b.op == "special" and b.args[0] == "-inf":
        return a
    if tm.is_const(a) and tm.is_const(b):
        return a if tm.cval(a) >= tm.cval(b) else b
    if a is b:
        return a
    if tm.WATCH is not None:
        tm.WATCH(tm.lt(a, b))
    return tm.mk("max", (a, b), tm.join_typ(a, b))


def tm_min(a, b):
    a, b = tm.L(a), tm.L(b)
    if a.op == "special" and a.args[0] == "inf":
        return b
    if b.op == "special" and b.args[0] == "inf":
        return a
    if tm.is_const(a) and tm.is_const(b):
        return a if tm.cval(a) <= tm.cval(b) else b
    if a is b:
        return a
    if tm.WATCH is not None:
        tm.WATCH(tm.lt(a, b))
    return tm.mk("min", (a, b), tm.join_typ(a, b))


def sorted_(I, xs, key=None, reverse=False):
    items = [(I.call(key, [x], {}) if key is not None else x, x) for x in xs]
    out = []
    for k, x in items:  # stable insertion sort with abstract comparisons
        j = len(out)
        while j > 0 and I.truth(I.compare("gt" if reverse else "lt", k, out[j - 1][0])):
            j -= 1
        out.insert(j, (k, x))
    return [x for _, x in out]


def namedtuple_type(I, name, fields, defaults, extra=()):
    cls = type(str(name), (tuple,), {"_sa_fields": tuple(fields), "_sa_extra": dict(extra)})

    def make(*args, **kw):
        vals = list(args)
        for f in fields[len(args):]:
            if f in kw:
                vals.append(kw[f])
            elif f in defaults:
                vals.append(defaults[f])
            else:
                raise I.exc("TypeError", "missing field %s" % f)
        if len(vals) > len(fields):
            raise I.exc("TypeError", "too many fields")
        return cls(vals)

    bt = BType(name, make, lambda v: type(v) is cls)
    cls.sa_type = bt
    bt.attrs["_fields"] = tuple(fields)
    for k, v in dict(extra).items():
        bt.attrs[k] = H(lambda *a, v=v, **kw: I.call(v.fn, [bt] + list(a), kw)) if isinstance(v, ClassM) else v.fn if isinstance(v, Static) else v
    bt.attrs["_make"] = H(lambda it: make(*list(I.iter_(it))))
    return bt


EXC = [
    ("BaseException", None), ("Exception", "BaseException"), ("ArithmeticError", "Exception"),
    ("ZeroDivisionError", "ArithmeticError"), ("OverflowError", "ArithmeticError"),
    ("FloatingPointError", "ArithmeticError"), ("AssertionError", "Exception"), ("AttributeError", "Exception"),
    ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"), ("LookupError", "Exception"),
    ("IndexError", "LookupError"), ("KeyError", "LookupError"), ("NameError", "Exception"),
    ("UnboundLocalError", "NameError"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"),
    ("RecursionError", "RuntimeError"), ("StopIteration", "Exception"), ("TypeError", "Exception"),
    ("ValueError", "Exception"), ("OSError", "Exception"), ("SystemExit", "BaseException"),
    ("KeyboardInterrupt", "BaseException"), ("GeneratorExit", "BaseException"), ("Warning", "Exception"),
    ("RuntimeWarning", "Warning"), ("DeprecationWarning", "Warning"), ("UserWarning", "Warning"),
    ("MemoryError", "Exception"), ("PackageNotFoundError", "ModuleNotFoundError"), ("LinAlgError", "ValueError"),
]


def make_builtins(I):
    B = {}
    np_ = I.np

    for n, base in EXC:
        c = Class(n, [B[base]] if base else [], {})
        c.is_exc = True
        B[n] = c

    def to_float(v=0):
        if isinstance(v, str):
            return tm.const(float(v))
        if isinstance(v, Arr):
            if v.data.size != 1:
                raise I.exc("TypeError", "only length-1 arrays can be converted to Python scalars")
            v = v.data.reshape(-1)[0]
        if isinstance(v, Obj):
            f, _ = v.cls.find("__float__")
            if f is not None:
                return I.call(f, [v], {})
        if isinstance(v, HostObj) and hasattr(v, "to_float"):
            return v.to_float()
        return np_.cell(v, "f")

    def to_int(v=0, base=10):
        if isinstance(v, str):
            try:
                return int(v, base)
            except ValueError as e:
                raise I.exc("ValueError", str(e))
        if isinstance(v, Arr):
            v = v.data.reshape(-1)[0]
        if isinstance(v, T):
            if v.op == "const":
                return math.trunc(v.args[0])
            if v.typ == "b":
                return tm.ite(v, tm.const(1), tm.const(0))
            if v.op == "special":
                if v.args[0] in ("inf", "-inf"):
                    raise I.exc("OverflowError", "cannot convert float infinity to integer")
            return tm.fn("trunc", v, typ="i")
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, Obj) and v.cls.int_enum:
            return v.d["value"]
        raise I.exc("TypeError", "int() argument must be a number, not %s" % I.tn(v))

    def to_bool(v=False):
        if isinstance(v, T):
            return I.b_(I.bt(v))
        return I.truth(v)

    def is_(*types):
        return lambda v: isinstance(v, types)

    B["int"] = BType("int", to_int, lambda v: isinstance(v, int) or isinstance(v, T) and v.typ in "ib"
                     or isinstance(v, Obj) and v.cls.int_enum)
    B["float"] = BType("float", to_float, lambda v: isinstance(v, T) and v.typ == "f")
    B["bool"] = BType("bool", to_bool, lambda v: isinstance(v, bool) or isinstance(v, T) and v.typ == "b")
    B["str"] = BType("str", lambda v="": I.str_(v), is_(str))
    B["list"] = BType("list", lambda v=(): list(I.iter_(v)), is_(list))
    B["tuple"] = BType("tuple", lambda v=(): tuple(I.iter_(v)), is_(tuple))
    B["set"] = BType("set", lambda v=(): {I.hashable(x) for x in I.iter_(v)}, is_(set))
    B["frozenset"] = BType("frozenset", lambda v=(): frozenset(I.hashable(x) for x in I.iter_(v)), is_(frozenset))

    def to_dict(v=(), **kw):
        d = dict(v) if isinstance(v, dict) else {I.hashable(k): x for k, x in (tuple(I.iter_(p)) for p in I.iter_(v))}
        d.update(kw)
        return d

    B["dict"] = BType("dict", to_dict, is_(dict))
    B["dict"].attrs["fromkeys"] = H(lambda ks, v=None: {I.hashable(k): v for k in I.iter_(ks)})
    B["complex"] = BType("complex", lambda a=0, b=0: Cx(tm.L(a), tm.L(b)), is_(complex, Cx))
    B["object"] = BType("object", lambda: Obj(Class("object", [], {})), lambda v: True)
    B["object"].attrs["__setattr__"] = H(lambda o, n, v: o.d.__setitem__(n, v))
    B["object"].attrs["__new__"] = H(lambda c, *a, **k: Obj(c))
    B["type"] = BType("type", lambda v, *a: I.type_of(v), is_(Class, BType))
    B["slice"] = BType("slice", lambda *a: slice(*a), is_(slice))
    B["bytes"] = BType("bytes", lambda *a: b"", is_(bytes))
    B["NoneType"] = BType("NoneType", lambda: None, lambda v: v is None)

    def rng(*a):
        a = [x.data.reshape(-1)[0] if isinstance(x, Arr) else x for x in a]
        a = [int(x.args[0]) if isinstance(x, T) and x.op == "const" and x.typ == "i" else x for x in a]
        for x in a:
            if isinstance(x, T) and x.typ == "f":
                raise I.exc("TypeError", "'float' object cannot be interpreted as an integer")
            if not isinstance(x, (int, T)):
                raise I.exc("TypeError", "%s cannot be interpreted as an integer" % I.tn(x))
        if any(isinstance(x, T) for x in a):
            st, sp, se = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            if not isinstance(se, int) or se != 1:
                raise Unmodelled("abstract range step")
            return SymRange(st, sp, se)
        try:
            return range(*a)
        except ValueError as e:
            raise I.exc("ValueError", str(e))

    B["range"] = BType("range", rng, is_(range, SymRange))

    def length(v):
        if isinstance(v, Arr):
            if v.data.ndim == 0:
                raise I.exc("TypeError", "len() of unsized object")
            return v.data.shape[0]
        if isinstance(v, (list, tuple, dict, set, str, range, frozenset, collections.deque)):
            return len(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find("__len__")
            if f is not None:
                return I.call(f, [v], {})
        if isinstance(v, HostObj) and hasattr(v, "length"):
            return v.length()
        if isinstance(v, Class) and v.members is not None:
            return len(v.members)
        raise I.exc("TypeError", "object of type %s has no len()" % I.tn(v))

    def isinst(v, c):
        return I.isinstance_(v, c)

    def extreme(sign):
        def f(*a, key=None, default=MISSING):
            xs = list(a) if len(a) > 1 else list(I.iter_(a[0]))
            if not xs:
                if default is not MISSING:
                    return default
                raise I.exc("ValueError", "max() arg is an empty sequence")
            if key is None and all(isinstance(x, (T, int)) for x in xs) and any(isinstance(x, T) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = (tm_max if sign > 0 else tm_min)(I.numt(r), I.numt(x))
                return np_.out(r, None)
            ks = [I.call(key, [x], {}) if key is not None else x for x in xs]
            b = 0
            for i in range(1, len(xs)):
                if I.truth(I.compare("gt" if sign > 0 else "lt", ks[i], ks[b])):
                    b = i
            return xs[b]

        return f

    def sum_(it, start=0):
        s = start
        for x in I.iter_(it):
            s = I.binop("add", s, x)
        return s

    def abs_(v):
        if isinstance(v, Arr):
            return np_.unary(v, np_abs)
        if isinstance(v, T):
            return tm.fabs(v)
        if isinstance(v, Cx):
            return np_abs(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find("__abs__")
            return I.call(f, [v], {})
        return abs(v)

    def round_(v, nd=None):
        if isinstance(v, T):
            if nd is None:
                return tm.fn("round", v, typ="i") if v.op != "const" else int(round(v.args[0]))
            return np_.round_(v, nd)
        if isinstance(v, Arr):
            return np_.m_round(v, nd or 0)
        return round(v, nd) if nd is not None else round(v)

    def zip_(*its, strict=False):
        return zip(*[I.iter_(x) for x in its])

    def enum_(it, start=0):
        return ((i, x) for i, x in zip(itertools.count(start), I.iter_(it)))

    def map_(f, *its):
        return (I.call(f, list(xs), {}) for xs in zip(*[I.iter_(x) for x in its]))

    def filter_(f, it):
        return (x for x in I.iter_(it) if I.truth(x if f is None else I.call(f, [x], {})))

    def all_(it):
        for x in I.iter_(it):
            if not I.truth(x):
                return False
        return True

    def any_(it):
        for x in I.iter_(it):
            if I.truth(x):
                return True
        return False

    def next_(it, default=MISSING):
        if isinstance(it, Obj):
            f, _ = it.cls.find("__next__")
            try:
                return I.call(f, [it], {})
            except AbsRaise as e:
                if default is not MISSING and I.isinstance_(e.value, B["StopIteration"]):
                    return default
                raise
        try:
            return next(it)
        except StopIteration:
            if default is not MISSING:
                return default
            raise I.exc("StopIteration")

    def iter_(v, sentinel=MISSING):
        if sentinel is not MISSING:
            def g():
                while True:
                    x = I.call(v, [], {})
                    if I.truth(I.compare("eq", x, sentinel)):
                        return
                    yield x
            return g()
        return I.iter_(v)

    def reversed_(v):
        if isinstance(v, Arr):
            return np_.iterate(Arr(v.data[::-1], v.dt))
        if isinstance(v, (list, tuple, range, str)):
            return iter(v[::-1])
        return iter(list(I.iter_(v))[::-1])

    def pow_(a, b, m=None):
        return I.binop("pow", a, b)

    def getattr_(o, n, d=MISSING):
        if d is MISSING:
            return I.getattr_(o, n)
        try:
            v = I.lookup(o, n)
        except AbsRaise as e:
            if I.isinstance_(e.value, B["AttributeError"]):
                return d
            raise
        return d if v is MISSING else v

    def hasattr_(o, n):
        return getattr_(o, n, MISSING_DEFAULT) is not MISSING_DEFAULT

    def issub(c, d):
        if isinstance(d, tuple):
            return any(issub(c, x) for x in d)
        if isinstance(c, Class) and isinstance(d, Class):
            return d in c.mro
        return c is d

    def callable_(v):
        return isinstance(v, (Func, H, Bound, Class, BType, Partial, Static)) or (
            isinstance(v, Obj) and v.cls.find("__call__")[0] is not None)

    def divmod_(a, b):
        return (I.binop("floordiv", a, b), I.binop("mod", a, b))

    I.printed = []

    def print_(*a, sep=" ", end="\n", file=None, flush=False):
        I.printed.append((sep or " ").join(I.str_(x) for x in a) + (end if end is not None else "\n"))

    for n, f in {
        "len": length, "isinstance": isinst, "max": extreme(1), "min": extreme(-1), "sum": sum_, "abs": abs_,
        "round": round_, "zip": zip_, "enumerate": enum_, "map": map_, "filter": filter_, "all": all_, "any": any_,
        "next": next_, "iter": iter_, "reversed": reversed_, "pow": pow_, "getattr": getattr_, "hasattr": hasattr_,
        "setattr": lambda o, n, v: I.setattr_(o, n, v), "issubclass": issub, "callable": callable_, "divmod": divmod_,
        "print": print_, "sorted": lambda it, key=None, reverse=False: sorted_(I, list(I.iter_(it)), key, reverse),
        "repr": lambda v: str(v), "id": lambda v: id(v), "hash": lambda v: hash(I.hashable(v)),
        "format": lambda v, spec="": I.format_(v, spec), "vars": lambda v: I.getattr_(v, "__dict__"), "locals": lambda: {}, "globals": lambda: {},
        "property": lambda fget=None, fset=None, *a: Property(fget, fset), "staticmethod": Static, "classmethod": ClassM,
        "delattr": lambda o, n: o.d.pop(n), "chr": chr, "ord": ord, "dir": lambda v: [],
    }.items():
        B[n] = H(f, n)
    B["NotImplemented"] = Const()
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    B["__import__"] = H(lambda n, *a: I.import_name(n), "__import__")
    return B


MISSING_DEFAULT = object()


def np_abs(x):
    if isinstance(x, Cx):
        return tm.sqrt(x.re * x.re + x.im * x.im)
    return tm.fabs(x) if isinstance(x, (T, int, Fraction)) else abs(x)


def make_modules(I):
    np_ = I.np
    M = {}

    def mod(name, d):
        m = Module(name)
        for k, v in d.items():
            m.d[k] = H(v, name + "." + k) if callable(v) and not isinstance(
                v, (H, T, BType, Class, Typing, Module, Partial)) else v
        M[name] = m
        return m

    def typing_mod(name, extra=()):
        m = Module(name)
        m.attr_hook = lambda n: m.d.setdefault(n, Typing(n))
        for k, v in extra:
            m.d[k] = v
        M[name] = m

    B = I.builtins
    typing_mod("typing", [
        ("TYPE_CHECKING", False), ("cast", H(lambda t, v: v)), ("NamedTuple", Typing("NamedTuple")),
        ("final", H(lambda f: f)), ("overload", H(lambda f: f)), ("no_type_check", H(lambda f: f)),
        ("runtime_checkable", H(lambda f: f)), ("TypeVar", H(lambda *a, **k: Typing("TypeVar"))),
        ("NewType", H(lambda n, t: H(lambda v: v))),
    ])
    typing_mod("typing_extensions", [("override", H(lambda f: f)), ("final", H(lambda f: f))])
    M["typing"].d["override"] = H(lambda f: f)
    typing_mod("collections.abc")
    typing_mod("types")
    typing_mod("numpy.typing")

    def abstract(f):
        g = f
        while isinstance(g, (Static, ClassM)):
            g = g.fn
        if isinstance(g, Property):
            g = g.fget
        if isinstance(g, Func):
            g.d["__isabstractmethod__"] = True
        return f

    typing_mod("abc", [("abstractmethod", H(abstract)), ("abstractproperty", H(lambda f: Property(f)))])

    # ---------------------------------------------------------------- enum
    Enum = Class("Enum", [], {})
    Enum.is_enum = True
    IntEnum = Class("IntEnum", [Enum], {})
    IntEnum.is_enum = True
    IntEnum.int_enum = True

    class Auto:
        is_auto = True

    mod("enum", {"auto": lambda: Auto(), "unique": lambda c: c})
    M["enum"].d.update({"Enum": Enum, "IntEnum": IntEnum})

    # ---------------------------------------------------------------- copy
    def shallow(v):
        if isinstance(v, Arr):
            return Arr(v.data.copy(), v.dt)
        if isinstance(v, list):
            return list(v)
        if isinstance(v, dict):
            return dict(v)
        if isinstance(v, set):
            return set(v)
        if isinstance(v, Obj) and not v.cls.is_enum:
            f, _ = v.cls.find("__copy__")
            if f is not None:
                return I.call(f, [v], {})
            o = Obj(v.cls)
            o.d = dict(v.d)
            return o
        if isinstance(v, HostObj) and hasattr(v, "copy"):
            return v.copy()
        return v

    def deep(v, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Arr):
            r = Arr(v.data.copy(), v.dt)
        elif isinstance(v, list):
            r = []
            memo[id(v)] = r
            r.extend(deep(x, memo) for x in v)
        elif isinstance(v, tuple):
            xs = [deep(x, memo) for x in v]
            r = v if all(a is b for a, b in zip(xs, v)) else (tuple(xs) if type(v) is tuple else type(v)(xs))
        elif isinstance(v, dict):
            r = {}
            memo[id(v)] = r
            for k, x in v.items():
                r[k] = deep(x, memo)
        elif isinstance(v, set):
            r = set(v)
        elif isinstance(v, Obj) and not v.cls.is_enum:
            f, _ = v.cls.find("__deepcopy__")
            if f is not None:
                r = I.call(f, [v, {}], {})
            else:
                r = Obj(v.cls)
                memo[id(v)] = r
                for k, x in v.d.items():
                    r.d[k] = deep(x, memo)
        elif isinstance(v, Bound):
            r = Bound(v.fn, deep(v.self_, memo))
        elif isinstance(v, HostObj) and hasattr(v, "deepcopy"):
            r = v.deepcopy()
        else:
            r = v
        memo[id(v)] = r
        return r

    mod("copy", {"copy": shallow, "deepcopy": deep})

    # ---------------------------------------------------------------- math
    def sc(v):
        if isinstance(v, Arr):
            if v.data.size != 1:
                raise I.exc("TypeError", "only length-1 arrays can be converted to Python scalars")
            v = v.data.reshape(-1)[0]
        if not isinstance(v, (T, int, Fraction)):
            raise I.exc("TypeError", "must be real number, not %s" % I.tn(v))
        return I.numt(v)

    def toint(name):
        def f(v):
            v = sc(v)
            if v.op == "const":
                return int({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[name](v.args[0]))
            if v.op == "special":
                raise I.exc("OverflowError", "cannot convert float infinity to integer")
            return tm.fn(name, v, typ="i")

        return f

    def log(v, base=None):
        r = tm.fn("log", sc(v))
        return r if base is None else tm.div(r, tm.fn("log", sc(base)))

    def isclose(a, b, rel_tol=tm.const(1e-9), abs_tol=tm.const(0.0)):
        d = tm.fabs(tm.sub(a, b))
        m = tm_max(tm.mul(rel_tol, tm_max(tm.fabs(a), tm.fabs(b))), tm.L(abs_tol))
        return I.b_(tm.le(d, m))

    def msqrt(v):
        v = sc(v)
        if v.op == "const" and v.args[0] < 0:
            raise I.exc("ValueError", "math domain error")
        return tm.sqrt(v)

    def prod(it, start=1):
        r = start
        for x in I.iter_(it):
            r = I.binop("mul", r, x)
        return r

    def unm(what):
        raise Unmodelled("numpy." + what)

    def along(f, axis, v, *a, **k):
        v = A(v)
        y = np.moveaxis(v.data, I.concrete_int(axis), -1)
        rs = [I.call(f, [Arr(y[i], v.dt)] + list(a), k) for i in np.ndindex(*y.shape[:-1])]
        if any(isinstance(r, Arr) for r in rs):
            unm("apply_along_axis with array results")
        out = np.empty(y.shape[:-1], dtype=object)
        for i, r in zip(np.ndindex(*y.shape[:-1]), rs):
            out[i] = tm.L(r)
        return np_.wrap(out, v.dt)

    def unique(v):
        xs, out = sorted_(I, list(np_.iterate(A(v)))), []
        for x in xs:
            if not out or not I.truth(I.compare("eq", out[-1], x)):
                out.append(x)
        return np_.arr(out, A(v).dt)

    def cross(a, b):
        (a1, a2, a3), (b1, b2, b3) = list(A(a).data), list(A(b).data)
        f = lambda p, q, r, t: np_.scal("sub", np_.scal("mul", p, q), np_.scal("mul", r, t))
        return np_.arr([f(a2, b3, a3, b2), f(a3, b1, a1, b3), f(a1, b2, a2, b1)], promote(A(a).dt, A(b).dt))

    def kron(a, b):
        a, b = A(a), A(b)
        if a.data.ndim == 1 and b.data.ndim == 1:
            return np_.m_ravel(np_.outer(a, b))
        if a.data.ndim == 2 and b.data.ndim == 2:
            return np_.m_reshape(einsum("ij,kl->ikjl", a, b), a.data.shape[0] * b.data.shape[0], a.data.shape[1] * b.data.shape[1])
        unm("kron")

    def isin(v, vals, **k):
        vs = [tm.L(c) for c in np_.m_ravel(A(vals)).data]

        def f(x):
            r = tm.FALSE
            for c in vs:
                r = tm.bor(r, tm.eq(I.numt(x), I.numt(c)))
            return r

        return np_.unary(A(v), f, "b") if isarr(v) else I.b_(f(v))

    def searchsorted(a, v, side="left", sorter=None):
        if sorter is not None:
            unm("searchsorted(sorter)")
        op = tm.lt if side == "left" else tm.le
        xs = [I.numt(x) for x in A(a).data]

        def f(x):
            n = 0
            for c in xs:
                if not I.truth(op(c, I.numt(x))):
                    break
                n += 1
            return tm.const(n)

        return np_.unary(A(v), f, "i") if isarr(v) else I.concrete_int(f(v))

    def polyval(p, x):
        r = None
        for c in I.iter_(p):
            r = c if r is None else I.binop("add", I.binop("mul", r, A(x) if isarr(x) else x), c)
        return r

    def select(conds, vals, default=0):
        r = default
        for c, v in reversed(list(zip(conds, vals))):
            r = where(c, v, r)
        return r

    def putmask(a, mask, vals):
        r = where(mask, vals if not isarr(vals) else A(vals), a)
        if isarr(vals) and A(vals).data.shape != a.data.shape:
            unm("putmask with a shorter value array")
        store(a, r)

    def pad(v, width, mode="constant", constant_values=0, **k):
        v = A(v)
        if mode != "constant" or v.data.ndim != 1 or k:
            unm("pad")
        w = list(I.iter_(width)) if isinstance(width, (tuple, list, Arr)) else [width, width]
        w = [I.concrete_int(x) for x in w]
        c = np_.cell(tm.L(constant_values), v.dt)
        return np_.arr([c] * w[0] + list(v.data) + [c] * w[-1], v.dt)

    def insert(v, i, x, axis=None):
        v = A(v)
        if v.data.ndim != 1 or isarr(x):
            unm("insert")
        xs = list(v.data)
        xs.insert(I.concrete_int(i), np_.cell(tm.L(x), v.dt))
        return np_.arr(xs, v.dt)

    class RC(HostObj):
        def __init__(self, axis):
            super().__init__()
            self.axis = axis

        def getitem(self, ix):
            parts = ix if isinstance(ix, tuple) else (ix,)
            out = []
            for q in parts:
                if isinstance(q, (slice, str)):
                    unm("r_/c_ with slices")
                out.append(A(q) if isarr(q) else np_.arr([q]))
            if self.axis and all(o.data.ndim == 1 for o in out):
                return stacker(np.column_stack)(out)
            return concat(out, self.axis if self.axis and out[0].data.ndim > 1 else 0)

    BENIGN = {"order", "subok", "casting", "kind", "stable", "sparse", "assume_unique", "signature", "retstep", "precision", "suppress"}
    UFUNC = set("sqrt exp log log10 log2 log1p expm1 cos sin tan abs absolute fabs square negative positive reciprocal sign floor ceil "
                "trunc rint maximum minimum fmax fmin add subtract multiply divide true_divide power less less_equal greater "
                "greater_equal equal not_equal logical_and logical_or logical_not isfinite isnan".split())

    def strict(name, fn):
        """refuse keyword arguments a transfer function would silently drop; out= and ufunc where= handled here"""
        import inspect
        try:
            ps = inspect.signature(fn).parameters
        except (TypeError, ValueError):
            return fn
        named = {q for q, v in ps.items() if v.kind is not v.VAR_KEYWORD}
        passes = name in ("sum", "nansum", "all", "any", "max", "amax", "min", "amin", "nanmax", "nanmin", "vectorize", "errstate", "seterr",
                          "set_printoptions", "apply_along_axis", "swapaxes", "repeat", "flip", "fliplr", "flipud", "transpose", "expand_dims", "diagonal", "pad")

        def g(*a, **k):
            mask = k.pop("where", None) if name in UFUNC else None
            out = k.pop("out", None) if (mask is not None or "out" not in named) and name not in ("errstate", "seterr") else None
            if isinstance(out, tuple):
                out = out[0]
            for q in k:
                if q not in named and q not in BENIGN and not passes:
                    raise Unmodelled("numpy.%s(%s=...)" % (name, q))
            r = fn(*a, **k)
            if mask is not None and mask is not True:
                if out is None:
                    raise Unmodelled("ufunc where= without out=")
                r = where(mask, r, out)
            return store(out, r) if out is not None else r

        return g

    LN10 = tm.fn("log", tm.const(10))
    LN2 = tm.fn("log", tm.const(2))

    def hyp(*a):
        return tm.sqrt(sum_t([tm.mul(sc(x), sc(x)) for x in a]))

    def sum_t(xs):
        r = tm.const(0.0)
        for x in xs:
            r = tm.add(r, x)
        return r

    mod("math", {
        "sqrt": msqrt, "exp": lambda v: tm.fn("exp", sc(v)), "log": log,
        "log2": lambda v: tm.div(tm.fn("log", sc(v)), LN2), "log10": lambda v: tm.div(tm.fn("log", sc(v)), LN10),
        "log1p": lambda v: tm.fn("log", tm.add(1, sc(v))), "expm1": lambda v: tm.sub(tm.fn("exp", sc(v)), 1),
        "cos": lambda v: tm.fn("cos", sc(v)), "sin": lambda v: tm.fn("sin", sc(v)), "tan": lambda v: tm.fn("tan", sc(v)),
        "floor": toint("floor"), "ceil": toint("ceil"), "trunc": toint("trunc"),
        "fabs": lambda v: np_.cell(tm.fabs(sc(v)), "f"), "pow": lambda a, b: np_.cell(tm.power(sc(a), sc(b)), "f"),
        "isclose": isclose, "hypot": hyp, "prod": prod,
        "fsum": lambda it: sum_t([sc(x) for x in I.iter_(it)]),
        "isfinite": lambda v: isfinite(sc(v)), "isnan": lambda v: False if not is_nan(v) else True,
        "isinf": lambda v: isinstance(v, T) and v.op == "special" and "inf" in v.args[0],
        "copysign": lambda a, b: np_.cell(tm.ite(tm.lt(sc(b), tm.const(0)), tm.neg(tm.fabs(sc(a))), tm.fabs(sc(a))), "f"),
        "dist": lambda a, b: tm.sqrt(sum_t([tm.power(tm.sub(sc(x), sc(y)), tm.const(2)) for x, y in zip(I.iter_(a), I.iter_(b))])),
        "gcd": math.gcd, "comb": math.comb, "factorial": math.factorial, "isqrt": math.isqrt,
    })
    M["math"].d.update({"pi": tm.PI, "e": tm.E_, "inf": tm.const(float("inf")), "nan": tm.const(float("nan")),
                        "tau": tm.mul(2, tm.PI)})

    def is_nan(v):
        return isinstance(v, T) and v.op == "special" and v.args[0] == "nan"

    def isfinite(v):
        v = tm.L(v)
        if v.op == "special":
            return v.args[0] in ("pi", "e")
        if v.op == "atom" and v.args[0].startswith("any:"):
            return tm.batom("finite(%s)" % v.args[0])
        return True

    # ---------------------------------------------------------------- functools & co
    class Lru:
        pass

    def lru_cache(f=None, maxsize=None, typed=False):
        if isinstance(f, (Func, H, Bound)):
            cache = {}

            def g(*a, **k):
                key = tuple(I.hashable(x) for x in a)
                if key not in cache:
                    cache[key] = I.call(f, list(a), k)
                return cache[key]

            return H(g, getattr(f, "name", "cached"))
        return H(lambda g: lru_cache(g))

    def reduce_(f, it, *init):
        it = I.iter_(it)
        s = init[0] if init else next(it)
        for x in it:
            s = I.call(f, [s, x], {})
        return s

    def wraps(orig, **k):
        def deco(f):
            if isinstance(f, (Func, H)):
                f.d["__wrapped__"] = orig
            return f

        return H(deco)

    mod("functools", {
        "partial": lambda f, *a, **k: Partial(f, list(a), k), "lru_cache": lru_cache, "cache": lambda f: lru_cache(f),
        "reduce": reduce_, "wraps": wraps, "cached_property": lambda f: Property(f, None, True),
        "total_ordering": lambda c: c,
    })

    def chain(*its):
        for it in its:
            yield from I.iter_(it)

    def tee_list(it):
        return list(I.iter_(it))

    def cycle(it):
        xs = list(I.iter_(it))
        while xs:
            yield from xs

    def islice(it, *a):
        return itertools.islice(I.iter_(it), *[None if x is None else I.concrete_int(x) for x in a])

    def takewhile(f, it):
        for x in I.iter_(it):
            if not I.truth(I.call(f, [x], {})):
                return
            yield x

    chain_h = H(chain, "chain")
    chain_h.d["from_iterable"] = H(lambda its: (y for x in I.iter_(its) for y in I.iter_(x)))
    mod("itertools", {
        "count": lambda s=0, st=1: itertools.count(s, st), "cycle": cycle, "islice": islice,
        "product": lambda *its, repeat=1: itertools.product(*[tee_list(x) for x in its], repeat=repeat),
        "combinations": lambda it, r: itertools.combinations(tee_list(it), r),
        "combinations_with_replacement": lambda it, r: itertools.combinations_with_replacement(tee_list(it), r),
        "permutations": lambda it, r=None: itertools.permutations(tee_list(it), r),
        "repeat": lambda v, n=None: itertools.repeat(v) if n is None else itertools.repeat(v, I.concrete_int(n)),
        "takewhile": takewhile, "zip_longest": lambda *its, fillvalue=None: itertools.zip_longest(
            *[I.iter_(x) for x in its], fillvalue=fillvalue),
        "pairwise": lambda it: itertools.pairwise(I.iter_(it)),
        "starmap": lambda f, it: (I.call(f, list(I.iter_(x)), {}) for x in I.iter_(it)),
        "accumulate": lambda it, f=None: itertools.accumulate(
            I.iter_(it), (lambda a, b: I.call(f, [a, b], {})) if f is not None else (lambda a, b: I.binop("add", a, b))),
    })
    M["itertools"].d["chain"] = chain_h

    mod("operator", {
        **{n: (lambda a, b, n=n: I.binop(n, a, b)) for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul")},
        **{n: (lambda a, b, n=n: I.compare(n, a, b)) for n in ("lt", "le", "gt", "ge", "eq", "ne")},
        "neg": lambda v: I.neg(v), "not_": lambda v: not I.truth(v),
        "itemgetter": lambda *ks: H(lambda o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, k) for k in ks)),
        "attrgetter": lambda n: H(lambda o: I.getattr_(o, n)),
        "iadd": lambda a, b: I.inplace("add", a, b), "isub": lambda a, b: I.inplace("sub", a, b),
        "is_": lambda a, b: I.is_(a, b), "is_not": lambda a, b: not I.is_(a, b), "truth": lambda v: I.truth(v),
    })

    def nt(name, fields, defaults=None, **k):
        fs = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
        dd = dict(zip(fs[len(fs) - len(defaults):], defaults)) if defaults else {}
        return namedtuple_type(I, name, fs, dd)

    class DD(dict):
        def __init__(self, f, *a):
            super().__init__(*a)
            self.f = f

        def __missing__(self, k):
            v = self[k] = I.call(self.f, [], {})
            return v

    class Ctr(dict):
        def __missing__(self, k):
            return 0

    def counter(it=(), **k):
        c = Ctr()
        if isinstance(it, dict):
            c.update(it)
        else:
            for x in I.iter_(it):
                x = I.hashable(x)
                c[x] = I.binop("add", c.get(x, 0), 1)
        c.update(k)
        return c

    mod("collections", {"namedtuple": nt, "deque": lambda it=(), maxlen=None: collections.deque(I.iter_(it), maxlen),
                        "defaultdict": lambda f=None, *a: DD(f, *a), "OrderedDict": lambda *a, **k: I.call(B["dict"], list(a), k),
                        "Counter": counter, "ChainMap": lambda *ms: {k: v for m_ in reversed(ms) for k, v in m_.items()}})
    M["collections"].d["abc"] = M["collections.abc"]

    # ---------------------------------------------------------------- dataclasses
    class FieldSpec:
        def __init__(self, **k):
            self.k = k

    def dataclass(cls=None, **opts):
        if cls is None:
            return H(lambda c: dataclass(c, **opts))
        fields = {}
        for c in reversed(cls.mro):
            for n in c.d.get("__annotations__", {}):
                v = c.d.get(n, MISSING)
                fields[n] = v
        cls.d["__dataclass_fields__"] = tuple(fields)
        for n, v in fields.items():
            if isinstance(v, FieldSpec):
                if "default" in v.k:
                    cls.d[n] = v.k["default"]
                elif n in cls.d:
                    del cls.d[n]

        def init(self, *a, **k):
            vals = dict(zip(fields, a))
            for kk, x in k.items():
                if kk not in fields or kk in vals:
                    raise I.exc("TypeError", "unexpected argument %s" % kk)
                vals[kk] = x
            for n, v in fields.items():
                if n in vals:
                    self.d[n] = vals[n]
                elif isinstance(v, FieldSpec):
                    if "default_factory" in v.k:
                        self.d[n] = I.call(v.k["default_factory"], [], {})
                    elif "default" in v.k:
                        self.d[n] = v.k["default"]
                    else:
                        raise I.exc("TypeError", "missing argument %s" % n)
                elif v is MISSING:
                    raise I.exc("TypeError", "missing argument %s" % n)
                else:
                    self.d[n] = v
            pi, _ = cls.find("__post_init__")
            if pi is not None:
                I.call(pi, [self], {})

        if "__init__" not in cls.d:
            cls.d["__init__"] = H(init, cls.name + ".__init__")
        if opts.get("frozen"):
            cls.d["__frozen__"] = True
        return cls

    mod("dataclasses", {
        "dataclass": dataclass, "field": lambda **k: FieldSpec(**k),
        "replace": lambda o, **k: I.call(o.cls, [], {**{n: o.d[n] for n in o.cls.d["__dataclass_fields__"]}, **k}),
        "asdict": lambda o: {n: o.d[n] for n in o.cls.d["__dataclass_fields__"]},
        "fields": lambda o: [],
    })

    class NullCtx(HostObj):
        def m___enter__(self):
            return None

        def m___exit__(self, *a):
            return False

    class ValCtx(HostObj):
        def __init__(self, v):
            super().__init__()
            self.v = v

        def m___enter__(self):
            return self.v

        def m___exit__(self, *a):
            return False

    class SuppressCtx(HostObj):
        def __init__(self, ex):
            super().__init__()
            self.ex = tuple(ex)

        def m___enter__(self):
            return None

        def m___exit__(self, c=None, v=None, t=None):
            return v is not None and I.isinstance_(v, self.ex)

    class GenCtx(HostObj):
        def __init__(self, g):
            super().__init__()
            self.g = I.iter_(g)

        def m___enter__(self):
            try:
                return next(self.g)
            except StopIteration:
                raise I.exc("RuntimeError", "generator didn't yield")

        def m___exit__(self, c=None, v=None, t=None):
            try:
                if v is None:
                    next(self.g)
                else:
                    self.g.throw(AbsRaise(v))
            except StopIteration:
                return v is not None
            except AbsRaise as e:
                if e.value is v:
                    return False
                raise
            raise I.exc("RuntimeError", "generator didn't stop")

    mod("contextlib", {"nullcontext": lambda v=None: ValCtx(v), "suppress": lambda *a: SuppressCtx(a),
                       "contextmanager": lambda f: H(lambda *a, **k: GenCtx(I.call(f, list(a), k)), getattr(f, "name", "ctx"))})
    mod("warnings", {"warn": lambda *a, **k: None, "catch_warnings": lambda **k: NullCtx(), "simplefilter": lambda *a, **k: None,
                     "filterwarnings": lambda *a, **k: None})

    class Logger(HostObj):
        def __init__(self):
            super().__init__()
            for n in ("debug", "info", "warning", "error", "exception", "log", "setLevel", "addHandler"):
                setattr(self, "m_" + n, lambda *a, **k: None)

        def m_isEnabledFor(self, *a):
            return False

    mod("logging", {"getLogger": lambda *a: Logger(), "basicConfig": lambda **k: None, "NullHandler": lambda: None,
                    "debug": lambda *a, **k: None, "info": lambda *a, **k: None, "warning": lambda *a, **k: None})
    M["logging"].d.update({"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40})
    M["sys"] = Module("sys")
    M["sys"].d.update({"version_info": (3, 12, 3), "argv": [], "stdout": None, "stderr": None, "maxsize": 2 ** 63 - 1,
                       "float_info": None})
    M["importlib"] = Module("importlib")
    mod("importlib.metadata", {"version": lambda n: "0"})
    M["importlib.metadata"].d["PackageNotFoundError"] = B["PackageNotFoundError"]
    M["importlib"].d["metadata"] = M["importlib.metadata"]
    M["argparse"] = Module("argparse")
    M["argparse"].attr_hook = lambda n: Typing(n)

    class ArgParser(HostObj):
        """command-line parser: declarations are collected, concrete command lines are parsed by the library"""

        def __init__(self, *a, **k):
            super().__init__()
            self.p = _argparse.ArgumentParser(prog="prog", exit_on_error=False)

        def m_add_argument(self, *names, **k):
            def conv(f):
                def g(text):
                    try:
                        return I.call(f, [text])
                    except AbsRaise as e:
                        raise ValueError(str(e))

                return g

            py = {"int": int, "float": float, "str": str}
            if "type" in k:
                k["type"] = py[k["type"].name] if isinstance(k["type"], BType) and k["type"].name in py else conv(k["type"])
            self.p.add_argument(*names, **k)

        def m_parse_args(self, args=None):
            args = list(M["sys"].d["argv"][1:] if args is None else I.iter_(args))
            import contextlib
            import io

            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    ns = self.p.parse_args(args)
            except (SystemExit, _argparse.ArgumentError) as ex:
                raise I.exc("SystemExit", str(getattr(ex, "code", 2)))
            r = HostObj()
            r.attrs.update({k: tm.const(Fraction(repr(v)), "f") if isinstance(v, float) else v for k, v in vars(ns).items()})
            return r

    M["argparse"].d["ArgumentParser"] = H(ArgParser, "ArgumentParser")
    mod("time", {"time": lambda: tm.atom("time", free=True), "perf_counter": lambda: tm.atom("time", free=True)})
    M["numbers"] = Module("numbers")
    num = lambda v: isinstance(v, (int, T))
    M["numbers"].d.update({n: BType(n, None, num) for n in ("Number", "Real", "Complex", "Rational")})
    M["numbers"].d["Integral"] = B["int"]
    M["os"] = Module("os")
    M["random"] = Module("random")

    make_numpy(I, M, mod, deep, isfinite, tm_fn_map(I))
    return M


def tm_fn_map(I):
    return {}


def make_numpy(I, M, mod, deep, isfinite, _):
    np_ = I.np
    B = I.builtins

    def A(v):
        return v if isinstance(v, Arr) else np_.arr(v)

    def isarr(v):
        return isinstance(v, (Arr, list, tuple)) or isinstance(v, HostObj) and hasattr(v, "as_arr")

    def uf(f, dt="f"):
        def g(v, *a, out=None, **k):
            r = np_.unary(A(v), f, dt) if isarr(v) else f(I.numt(v) if isinstance(v, (T, int)) else v)
            if out is not None:
                return store(out, r)
            return r

        return g

    def store(out, r):
        rr = r.data if isinstance(r, Arr) else obj(r)
        for i in np.ndindex(*out.data.shape):
            out.data[i] = np_.cell(np.broadcast_to(rr, out.data.shape)[i], out.dt)
        return out

    def fx(name):
        def f(x):
            if isinstance(x, Cx):
                if name == "exp":
                    e = tm.fn("exp", x.re)
                    return Cx(tm.mul(e, tm.fn("cos", x.im)), tm.mul(e, tm.fn("sin", x.im)))
                raise Unmodelled("complex %s" % name)
            return tm.fn(name, I.numt(x))

        return f

    def bin_(op):
        def g(a, b, out=None, **k):
            r = I.binop(op, A(a) if isarr(a) else a, A(b) if isarr(b) else b)
            return store(out, r) if out is not None else r

        return g

    def cmp_(op):
        return lambda a, b, **k: I.compare(op, A(a) if isarr(a) else a, A(b) if isarr(b) else b)

    def ew2(f, dt=None):
        def g(a, b, out=None, **k):
            r = np_.ew(lambda x, y: f(I.numt(x), I.numt(y)), A(a) if isarr(a) else a, A(b) if isarr(b) else b, dt=dt)
            return store(out, r) if out is not None else r

        return g

    def array(v, dtype=None, copy=True, ndmin=0, order=None, subok=False):
        r = np_.arr(v, np_.dtype(dtype), True if copy is None else copy)
        while r.data.ndim < ndmin:
            r = Arr(r.data[None], r.dt)
        return r

    def asarray(v, dtype=None, order=None, copy=None):
        return np_.arr(v, np_.dtype(dtype), bool(copy))

    def zeros(shape, dtype=None, order=None):
        return np_.full(shape, 0, np_.dtype(dtype) or "f")

    def ones(shape, dtype=None, order=None):
        return np_.full(shape, 1, np_.dtype(dtype) or "f")

    cnt = [0]

    def empty(shape, dtype=None, order=None):
        r = np_.full(shape, 0, np_.dtype(dtype) or "f")
        if r.dt == "f":
            for i in np.ndindex(*r.data.shape):
                cnt[0] += 1
                r.data[i] = tm.atom("uninit%d" % cnt[0])
        return r

    def eye(n, m=None, k=0, dtype=None):
        n = I.concrete_int(n)
        m = n if m is None else I.concrete_int(m)
        r = np_.full((n, m), 0, np_.dtype(dtype) or "f")
        for i in range(n):
            if 0 <= i + k < m:
                r.data[i, i + k] = np_.cell(1, r.dt)
        return r

    def diag(v, k=0):
        v = A(v)
        k = I.concrete_int(k)
        if v.data.ndim == 1:
            n = v.data.size + abs(k)
            r = np_.full((n, n), 0, v.dt if v.dt != "b" else "f")
            for i in range(v.data.size):
                r.data[(i, i + k) if k >= 0 else (i - k, i)] = v.data[i]
            return r
        return Arr(v.data.diagonal(k), v.dt)

    def like(val):
        def g(v, dtype=None, shape=None, **k):
            a = A(v)
            return np_.full(a.data.shape if shape is None else shape, val, np_.dtype(dtype) or a.dt)

        return g

    def full(shape, v, dtype=None):
        return np_.full(shape, v, np_.dtype(dtype) or kind_of(v))

    def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None):
        n = I.concrete_int(num)
        a, b = tm.L(a), tm.L(b)
        den = (n - 1) if I.truth(endpoint) else n
        step = tm.div(tm.sub(b, a), den) if den else tm.const(0.0)
        return np_.arr([tm.add(a, tm.mul(i, step)) for i in range(n)], "f") if n else np_.full((0,), 0)

    def arange(*a, step=None, dtype=None, start=None, stop=None):
        a = list(a)
        if step is not None:
            a = (a if len(a) == 2 else [0] + a) + [step]
        if all(isinstance(x, int) or isinstance(x, T) and x.typ == "i" for x in a):
            xs = range(*[I.concrete_int(x) for x in a])
            return np_.arr(list(xs), np_.dtype(dtype) or "i") if len(xs) else Arr(np.empty((0,), dtype=object), "i")
        vals = [x.args[0] if isinstance(x, T) and x.op == "const" else x for x in a]
        if all(isinstance(x, (int, Fraction)) for x in vals):
            st, sp, se = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
            n = max(0, math.ceil((sp - st) / Fraction(se)))
            return np_.arr([tm.const(Fraction(st + i * se), "f") for i in range(n)], "f")
        raise Unmodelled("arange with abstract bounds")

    def concat(parts, axis=0, **k):
        parts = [A(p) for p in I.iter_(parts)]
        kd = promote(*[p.dt for p in parts])
        parts = [p if p.dt == kd else np_.astype(p, kd) for p in parts]
        try:
            return Arr(np.concatenate([p.data for p in parts], axis=axis), kd)
        except ValueError as e:
            raise I.exc("ValueError", str(e))

    def stacker(f):
        def g(parts, axis=None, **k):
            parts = [A(p) for p in I.iter_(parts)]
            kd = promote(*[p.dt for p in parts])
            parts = [p if p.dt == kd else np_.astype(p, kd) for p in parts]
            try:
                return Arr(f([p.data for p in parts]) if axis is None else f([p.data for p in parts], axis), kd)
            except ValueError as e:
                raise I.exc("ValueError", str(e))

        return g

    def append(a, v, axis=None):
        if axis is None:
            return concat([np_.m_ravel(A(a)), np_.m_ravel(A(v) if isarr(v) else np_.arr([v]))])
        return concat([a, v], axis)

    def where(c, *xy):
        if not xy:
            return np_.nonzero(A(c))
        if isarr(c) or isarr(xy[0]) or isarr(xy[1]):
            def f(b, x, y):
                if isinstance(x, Cx) or isinstance(y, Cx):
                    raise Unmodelled("complex where")
                return tm.ite(I.bt(b), I.numt(x), I.numt(y))
            vs = [A(v) if isarr(v) else v for v in (c,) + xy]
            return np_.ew(f, *vs, dt=promote(np_.raw(vs[1])[1], np_.raw(vs[2])[1]))
        return tm.ite(I.bt(c), tm.L(xy[0]), tm.L(xy[1]))

    def convolve(a, v, mode="full"):
        a, v = A(a), A(v)
        x, y = a.data, v.data
        if x.ndim != 1 or y.ndim != 1:
            raise I.exc("ValueError", "object too deep for desired array")
        n, m = x.size, y.size
        if n == 0 or m == 0:
            raise I.exc("ValueError", "a cannot be empty")
        full_ = []
        for k in range(n + m - 1):
            s = None
            for i in range(n):
                if 0 <= k - i < m:
                    t = np_.scal("mul", x[i], y[k - i])
                    s = t if s is None else np_.scal("add", s, t)
            full_.append(s)
        if mode == "same":
            big, st = max(n, m), (min(n, m) - 1) // 2
            full_ = full_[st: st + big]
        elif mode == "valid":
            full_ = full_[min(n, m) - 1: max(n, m)]
        return np_.arr(full_, promote(a.dt, v.dt))

    def correlate(a, v, mode="valid"):
        return convolve(a, Arr(A(v).data[::-1], A(v).dt), mode)

    def clip(a, lo, hi, **k):
        if isarr(a):
            return np_.m_clip(A(a), lo, hi)
        x = tm.L(a)
        x = tm_max(x, tm.L(lo)) if lo is not None else x
        return tm_min(x, tm.L(hi)) if hi is not None else x

    def einsum(spec, *ops):
        spec = spec.replace(" ", "")
        ins, out = (spec.split("->") + [None])[:2]
        ins = ins.split(",")
        ops = [A(o) for o in ops]
        dims = {}
        for s, o in zip(ins, ops):
            for c, d in zip(s, o.data.shape):
                dims[c] = d
        if out is None:
            allc = "".join(ins)
            out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        summed = [c for c in dims if c not in out]
        res = np.empty(tuple(dims[c] for c in out), dtype=object)
        import itertools as it_
        for oi in it_.product(*[range(dims[c]) for c in out]):
            env = dict(zip(out, oi))
            s = None
            for si in it_.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, si))
                t = None
                for sp, o in zip(ins, ops):
                    v = o.data[tuple(env[c] for c in sp)]
                    t = v if t is None else np_.scal("mul", t, v)
                s = t if s is None else np_.scal("add", s, t)
            res[oi] = s
        return np_.wrap(res, promote(*[o.dt for o in ops])) if out else res[()]

    def structural(f):
        """functions that only move cells around"""
        def g(v, *a, **k):
            v = A(v)
            try:
                r = f(v.data, *[I.concrete_int(x) if isinstance(x, T) else x for x in a], **k)
            except ValueError as e:
                raise I.exc("ValueError", str(e))
            return np_.wrap(r, v.dt)

        return g

    def tri(lower):
        def g(v, k=0):
            v = A(v)
            r = Arr(v.data.copy(), v.dt)
            n, m = v.data.shape
            for i in range(n):
                for j in range(m):
                    if (j > i + k) if lower else (j < i + k):
                        r.data[i, j] = np_.cell(0, v.dt)
            return r

        return g

    def tri_idx(f):
        def g(n, k=0, m=None):
            return tuple(np_.arr([int(x) for x in ix], "i") if len(ix) else Arr(np.empty((0,), dtype=object), "i") for ix in f(I.concrete_int(n), k))

        return g

    def fill_diagonal(a, v):
        for i in range(min(a.data.shape)):
            a.data[i, i] = np_.cell(v.data[i] if isinstance(v, Arr) else v, a.dt)

    def copyto(dst, src, **k):
        np_.setitem(dst, Ellipsis, src)

    def ix_(*a):
        out = []
        for d, x in enumerate(a):
            x = A(x)
            shp = [1] * len(a)
            shp[d] = x.data.size
            out.append(Arr(x.data.reshape(shp), x.dt))
        return tuple(out)

    def allclose(a, b, rtol=tm.const(1e-5), atol=tm.const(1e-8), **k):
        d = np_.ew(lambda x, y: tm.le(tm.fabs(tm.sub(x, y)), tm.add(tm.L(atol), tm.mul(tm.L(rtol), tm.fabs(y)))), a, b, dt="b")
        return np_.all(d) if isinstance(d, Arr) else I.b_(d)

    def isclose(a, b, rtol=tm.const(1e-5), atol=tm.const(1e-8), **k):
        return np_.ew(lambda x, y: tm.le(tm.fabs(tm.sub(x, y)), tm.add(tm.L(atol), tm.mul(tm.L(rtol), tm.fabs(y)))), a, b, dt="b")

    def array_equal(a, b, **k):
        a, b = A(a), A(b)
        if a.data.shape != b.data.shape:
            return False
        return np_.all(np_.compare("eq", a, b))

    def arr_red(name):
        def g(a, *args, **kw):
            kw.pop("out", None)
            if isarr(a) or isinstance(a, Arr):
                return getattr(np_, name)(A(a), *args, **kw)
            return a if name in ("max", "min", "sum") else I.bt(a)

        return g

    def real(v):
        return np_.attr(A(v), "real") if isarr(v) else (v.re if isinstance(v, Cx) else v)

    def imag(v):
        return np_.attr(A(v), "imag") if isarr(v) else (v.im if isinstance(v, Cx) else tm.const(0.0))

    def dft(v, n, sign):
        v = A(v)
        x = [cx(c) for c in v.data.reshape(-1)]
        if v.data.ndim != 1:
            raise Unmodelled("fft of rank > 1")
        if n is not None:
            n = I.concrete_int(n)
            x = (x + [cx(tm.const(0.0))] * n)[:n]
        N = len(x)
        if N > 520:
            raise Unmodelled("fft longer than the modelled bound")
        tw = {}

        def w(k):
            k %= N
            if k not in tw:
                th = tm.mul(tm.const(Fraction(2 * k, N)), tm.PI)
                tw[k] = (tm.fn("cos", th), tm.fn("sin", th))
            return tw[k]

        out = np.empty((N,), dtype=object)
        for k in range(N):
            re = im = tm.const(0.0)
            for j, c in enumerate(x):
                co, si = w(k * j)
                si = si if sign > 0 else tm.neg(si)
                re = tm.add(re, tm.sub(tm.mul(c.re, co), tm.mul(c.im, si)))
                im = tm.add(im, tm.add(tm.mul(c.re, si), tm.mul(c.im, co)))
            out[k] = Cx(re, im) if sign < 0 else Cx(tm.div(re, N), tm.div(im, N))
        return Arr(out, "c")

    def sortf(v, axis=-1):
        return np_.arr(sorted_(I, list(np_.iterate(A(v)))), A(v).dt)

    def argsort(v, **k):
        xs = list(np_.iterate(A(v)))
        return np_.arr(sorted_(I, list(range(len(xs))), H(lambda i: xs[i])), "i")

    def roll(v, sh, axis=None):
        return Arr(np.roll(A(v).data, I.concrete_int(sh), axis), A(v).dt)

    def vdot(a, b):
        return np_.matmul(np_.m_ravel(A(a)), np_.m_ravel(A(b)))

    def inner(a, b):
        a_, b_ = A(a) if isarr(a) else a, A(b) if isarr(b) else b
        if isinstance(b_, Arr) and b_.data.ndim == 2:
            b_ = Arr(b_.data.T, b_.dt)
        return np_.matmul(a_, b_, True)

    def dot(a, b, out=None):
        return np_.matmul(A(a) if isarr(a) else a, A(b) if isarr(b) else b, True)

    def cells2(a):
        a = A(a)
        if a.data.ndim != 2 or a.data.shape[0] != a.data.shape[1]:
            raise I.exc("LinAlgError", "not a square matrix")
        return a.data

    def lin_err(msg):
        return I.exc("LinAlgError", msg)

    def cholesky(a):
        d = cells2(a)
        n = len(d)
        L = np.empty((n, n), dtype=object)
        L[...] = tm.const(0.0)
        for j in range(n):
            s = d[j, j]
            for k in range(j):
                s = tm.sub(s, tm.mul(L[j, k], L[j, k]))
            if not I.truth(tm.lt(tm.const(0), s)):
                raise lin_err("Matrix is not positive definite")
            L[j, j] = tm.sqrt(s)
            for i in range(j + 1, n):
                s = d[i, j]
                for k in range(j):
                    s = tm.sub(s, tm.mul(L[i, k], L[j, k]))
                L[i, j] = tm.div(s, L[j, j])
        return Arr(L, "f")

    def det_(d):
        n = len(d)
        if n > 6:
            raise Unmodelled("determinant of order > 6")
        if n == 0:
            return tm.const(1.0)
        out = tm.const(0.0)
        for j in range(n):
            if isinstance(d[0, j], T) and d[0, j].op == "const" and d[0, j].args[0] == 0:
                continue
            minor = np.delete(d[1:], j, 1)
            t = tm.mul(d[0, j], det_(minor))
            out = tm.sub(out, t) if j % 2 else tm.add(out, t)
        return out

    def solve(a, b):
        d, b = cells2(a), A(b)
        dt = det_(d)
        if I.truth(tm.eq(dt, tm.const(0))):
            raise lin_err("Singular matrix")
        cols = b.data.reshape(len(d), -1)
        out = np.empty(cols.shape, dtype=object)
        for c in range(cols.shape[1]):
            for j in range(len(d)):
                m_ = d.copy()
                m_[:, j] = cols[:, c]
                out[j, c] = tm.div(det_(m_), dt)
        return Arr(out.reshape(b.data.shape), "f")

    def multi_dot(ms, out=None):
        r = A(ms[0])
        for x in ms[1:]:
            r = np_.matmul(A(r), A(x))
        return r

    def tensordot(a, b, axes=2):
        a, b = A(a), A(b)
        if isinstance(axes, (tuple, list)):
            ax, bx = [[I.concrete_int(q) for q in (z if isinstance(z, (tuple, list)) else [z])] for z in axes]
        else:
            k = I.concrete_int(axes)
            ax, bx = list(range(a.data.ndim - k, a.data.ndim)), list(range(k))
        ax, bx = [q % a.data.ndim for q in ax], [q % b.data.ndim for q in bx]
        let = "abcdefghijklmnop"
        la_ = list(let[:a.data.ndim])
        lb_ = list(let[a.data.ndim:a.data.ndim + b.data.ndim])
        for p_, q_ in zip(ax, bx):
            lb_[q_] = la_[p_]
        out = [c for i, c in enumerate(la_) if i not in ax] + [c for i, c in enumerate(lb_) if i not in bx]
        return einsum("".join(la_) + "," + "".join(lb_) + "->" + "".join(out), a, b)

    def meshgrid(*xs, indexing="xy", **k):
        return [Arr(g, "f") for g in np.meshgrid(*[A(x).data for x in xs], indexing=indexing)]

    def take(v, ix, axis=None, **k):
        if axis is None:
            return np_.getitem(np_.m_ravel(A(v)), ix)
        ax = I.concrete_int(axis)
        return np_.getitem(A(v), (slice(None),) * ax + (ix,))

    def split(v, sections, axis=0):
        v = A(v)
        ss = I.concrete_int(sections) if not isinstance(sections, (list, tuple, Arr)) else [I.concrete_int(q) for q in I.iter_(sections)]
        return [Arr(x, v.dt) for x in np.array_split(v.data, ss, I.concrete_int(axis))]


    def apply_red(ufname):
        op = {"add": "add", "multiply": "mul"}[ufname]
        return lambda a, axis=0: np_.reduce(A(a), lambda p, q: np_.scal(op, p, q), axis=axis if A(a).data.ndim > 1 else None)

    def count_nonzero(a):
        return np_.sum(np_.boolarr(a))

    def divide(a, b, **k):
        return bin_("truediv")(a, b, **k)

    def cumprod(v):
        out, t = [], None
        for c in np_.m_ravel(A(v)).data:
            t = c if t is None else np_.scal("mul", t, c)
            out.append(t)
        return np_.arr(out, A(v).dt)

    def squeeze(v, axis=None):
        return np_.wrap(A(v).data.squeeze() if axis is None else A(v).data.squeeze(axis), A(v).dt)

    def nan_to_num(v, **k):
        return v

    def unm(what):
        raise Unmodelled("numpy." + what)

    def along(f, axis, v, *a, **k):
        v = A(v)
        y = np.moveaxis(v.data, I.concrete_int(axis), -1)
        rs = [I.call(f, [Arr(y[i], v.dt)] + list(a), k) for i in np.ndindex(*y.shape[:-1])]
        if any(isinstance(r, Arr) for r in rs):
            unm("apply_along_axis with array results")
        out = np.empty(y.shape[:-1], dtype=object)
        for i, r in zip(np.ndindex(*y.shape[:-1]), rs):
            out[i] = tm.L(r)
        return np_.wrap(out, v.dt)

    def unique(v):
        xs, out = sorted_(I, list(np_.iterate(A(v)))), []
        for x in xs:
            if not out or not I.truth(I.compare("eq", out[-1], x)):
                out.append(x)
        return np_.arr(out, A(v).dt)

    def cross(a, b):
        (a1, a2, a3), (b1, b2, b3) = list(A(a).data), list(A(b).data)
        f = lambda p, q, r, t: np_.scal("sub", np_.scal("mul", p, q), np_.scal("mul", r, t))
        return np_.arr([f(a2, b3, a3, b2), f(a3, b1, a1, b3), f(a1, b2, a2, b1)], promote(A(a).dt, A(b).dt))

    def kron(a, b):
        a, b = A(a), A(b)
        if a.data.ndim == 1 and b.data.ndim == 1:
            return np_.m_ravel(np_.outer(a, b))
        if a.data.ndim == 2 and b.data.ndim == 2:
            return np_.m_reshape(einsum("ij,kl->ikjl", a, b), a.data.shape[0] * b.data.shape[0], a.data.shape[1] * b.data.shape[1])
        unm("kron")

    def isin(v, vals, **k):
        vs = [tm.L(c) for c in np_.m_ravel(A(vals)).data]

        def f(x):
            r = tm.FALSE
            for c in vs:
                r = tm.bor(r, tm.eq(I.numt(x), I.numt(c)))
            return r

        return np_.unary(A(v), f, "b") if isarr(v) else I.b_(f(v))

    def searchsorted(a, v, side="left", sorter=None):
        if sorter is not None:
            unm("searchsorted(sorter)")
        op = tm.lt if side == "left" else tm.le
        xs = [I.numt(x) for x in A(a).data]

        def f(x):
            n = 0
            for c in xs:
                if not I.truth(op(c, I.numt(x))):
                    break
                n += 1
            return tm.const(n)

        return np_.unary(A(v), f, "i") if isarr(v) else I.concrete_int(f(v))

    def polyval(p, x):
        r = None
        for c in I.iter_(p):
            r = c if r is None else I.binop("add", I.binop("mul", r, A(x) if isarr(x) else x), c)
        return r

    def select(conds, vals, default=0):
        r = default
        for c, v in reversed(list(zip(conds, vals))):
            r = where(c, v, r)
        return r

    def putmask(a, mask, vals):
        r = where(mask, vals if not isarr(vals) else A(vals), a)
        if isarr(vals) and A(vals).data.shape != a.data.shape:
            unm("putmask with a shorter value array")
        store(a, r)

    def pad(v, width, mode="constant", constant_values=0, **k):
        v = A(v)
        if mode != "constant" or v.data.ndim != 1 or k:
            unm("pad")
        w = list(I.iter_(width)) if isinstance(width, (tuple, list, Arr)) else [width, width]
        w = [I.concrete_int(x) for x in w]
        c = np_.cell(tm.L(constant_values), v.dt)
        return np_.arr([c] * w[0] + list(v.data) + [c] * w[-1], v.dt)

    def insert(v, i, x, axis=None):
        v = A(v)
        if v.data.ndim != 1 or isarr(x):
            unm("insert")
        xs = list(v.data)
        xs.insert(I.concrete_int(i), np_.cell(tm.L(x), v.dt))
        return np_.arr(xs, v.dt)

    class RC(HostObj):
        def __init__(self, axis):
            super().__init__()
            self.axis = axis

        def getitem(self, ix):
            parts = ix if isinstance(ix, tuple) else (ix,)
            out = []
            for q in parts:
                if isinstance(q, (slice, str)):
                    unm("r_/c_ with slices")
                out.append(A(q) if isarr(q) else np_.arr([q]))
            if self.axis and all(o.data.ndim == 1 for o in out):
                return stacker(np.column_stack)(out)
            return concat(out, self.axis if self.axis and out[0].data.ndim > 1 else 0)

    BENIGN = {"order", "subok", "casting", "kind", "stable", "sparse", "assume_unique", "signature", "retstep", "precision", "suppress"}
    UFUNC = set("sqrt exp log log10 log2 log1p expm1 cos sin tan abs absolute fabs square negative positive reciprocal sign floor ceil "
                "trunc rint maximum minimum fmax fmin add subtract multiply divide true_divide power less less_equal greater "
                "greater_equal equal not_equal logical_and logical_or logical_not isfinite isnan".split())

    def strict(name, fn):
        """refuse keyword arguments a transfer function would silently drop; out= and ufunc where= handled here"""
        import inspect
        try:
            ps = inspect.signature(fn).parameters
        except (TypeError, ValueError):
            return fn
        named = {q for q, v in ps.items() if v.kind is not v.VAR_KEYWORD}
        passes = name in ("sum", "nansum", "all", "any", "max", "amax", "min", "amin", "nanmax", "nanmin", "vectorize", "errstate", "seterr",
                          "set_printoptions", "apply_along_axis", "swapaxes", "repeat", "flip", "fliplr", "flipud", "transpose", "expand_dims", "diagonal", "pad")

        def g(*a, **k):
            mask = k.pop("where", None) if name in UFUNC else None
            out = k.pop("out", None) if (mask is not None or "out" not in named) and name not in ("errstate", "seterr") else None
            if isinstance(out, tuple):
                out = out[0]
            for q in k:
                if q not in named and q not in BENIGN and not passes:
                    raise Unmodelled("numpy.%s(%s=...)" % (name, q))
            r = fn(*a, **k)
            if mask is not None and mask is not True:
                if out is None:
                    raise Unmodelled("ufunc where= without out=")
                r = where(mask, r, out)
            return store(out, r) if out is not None else r

        return g

    LN10 = tm.fn("log", tm.const(10))
    LN2 = tm.fn("log", tm.const(2))
    D = {
        "array": array, "asarray": asarray, "ascontiguousarray": asarray, "asfarray": asarray, "asanyarray": asarray,
        "zeros": zeros, "ones": ones, "empty": empty, "eye": eye,
        "identity": lambda n, dtype=None: eye(n, dtype=dtype), "diag": diag, "diagflat": diag, "zeros_like": like(0), "ones_like": like(1),
        "empty_like": like(0), "full": full, "full_like": lambda a, v, dtype=None: np_.full(A(a).data.shape, v, np_.dtype(dtype) or A(a).dt),
        "linspace": linspace, "arange": arange, "concatenate": concat, "hstack": stacker(np.hstack),
        "vstack": stacker(np.vstack), "row_stack": stacker(np.vstack), "column_stack": stacker(np.column_stack),
        "stack": stacker(np.stack), "append": append, "where": where, "convolve": convolve, "correlate": correlate,
        "clip": clip, "einsum": einsum, "outer": lambda a, b, out=None: np_.outer(A(a) if isarr(a) else a, A(b) if isarr(b) else b),
        "dot": dot, "matmul": lambda a, b, out=None: np_.matmul(A(a), A(b)) if out is None else store(out, np_.matmul(A(a), A(b))),
        "vdot": vdot, "inner": inner,
        "copy": lambda v, **k: Arr(A(v).data.copy(), A(v).dt), "copyto": copyto,
        "sum": lambda a, *x, **k: np_.sum(a, *x, **k),
        "prod": lambda a, axis=None, **k: np_.m_prod(A(a), axis), "all": arr_red("all"), "any": arr_red("any"),
        "max": arr_red("max"), "amax": arr_red("max"), "min": arr_red("min"), "amin": arr_red("min"),
        "argmax": lambda a, axis=None: np_.argmax(A(a), axis), "argmin": lambda a, axis=None: np_.argmax(A(a), axis, -1),
        "mean": lambda a, axis=None, **k: np_.m_mean(A(a), axis),
        "sqrt": uf(lambda x: tm.sqrt(I.numt(x))), "exp": uf(fx("exp"), None), "log": uf(fx("log")),
        "log10": uf(lambda x: tm.div(tm.fn("log", x), LN10)), "log2": uf(lambda x: tm.div(tm.fn("log", x), LN2)),
        "log1p": uf(lambda x: tm.fn("log", tm.add(1, x))), "expm1": uf(lambda x: tm.sub(tm.fn("exp", x), 1)),
        "cos": uf(fx("cos")), "sin": uf(fx("sin")), "tan": uf(fx("tan")),
        "abs": uf(np_abs, None), "absolute": uf(np_abs, None), "fabs": uf(np_abs),
        "square": uf(lambda x: np_.scal("mul", x, x), None), "negative": uf(lambda x: tm.neg(x), None),
        "positive": uf(lambda x: x, None), "reciprocal": uf(lambda x: tm.div(1, x)),
        "sign": uf(lambda x: tm.ite(tm.lt(x, tm.const(0)), tm.const(-1.0), tm.ite(tm.eq(x, tm.const(0)), tm.const(0.0), tm.const(1.0))), None),
        "floor": uf(lambda x: tm.fn("floor", x)), "ceil": uf(lambda x: tm.fn("ceil", x)), "trunc": uf(lambda x: tm.fn("trunc", x)),
        "rint": uf(lambda x: tm.fn("round", x)), "fix": uf(lambda x: tm.fn("trunc", x)),
        "round": lambda v, decimals=0, out=None: np_.unary(A(v), lambda x: np_.round_(x, decimals)) if isarr(v) else np_.round_(tm.L(v), decimals),
        "isfinite": uf(lambda x: I.bt(isfinite(x)) if not isinstance(x, Cx) else tm.TRUE, "b"),
        "isnan": uf(lambda x: tm.bnot(I.bt(isfinite(x))) if isinstance(x, T) and x.op == "atom" and x.args[0].startswith("any:") else tm.FALSE, "b"),
        "isinf": uf(lambda x: tm.FALSE, "b"),
        "maximum": ew2(tm_max), "minimum": ew2(tm_min), "fmax": ew2(tm_max), "fmin": ew2(tm_min),
        "add": bin_("add"), "subtract": bin_("sub"), "multiply": bin_("mul"), "divide": divide, "true_divide": divide,
        "power": bin_("pow"), "float_power": bin_("pow"), "mod": bin_("mod"), "remainder": bin_("mod"), "floor_divide": bin_("floordiv"),
        "less": cmp_("lt"), "less_equal": cmp_("le"), "greater": cmp_("gt"), "greater_equal": cmp_("ge"),
        "equal": cmp_("eq"), "not_equal": cmp_("ne"),
        "logical_and": lambda a, b, **k: np_.ew(lambda x, y: tm.band(I.bt(x), I.bt(y)), a, b, dt="b"),
        "logical_or": lambda a, b, **k: np_.ew(lambda x, y: tm.bor(I.bt(x), I.bt(y)), a, b, dt="b"),
        "logical_not": lambda a, **k: np_.unary(A(a), lambda x: tm.bnot(I.bt(x)), "b") if isarr(a) else I.b_(tm.bnot(I.bt(a))),
        "isclose": isclose, "allclose": allclose, "array_equal": array_equal,
        "real": real, "imag": imag, "conj": lambda v: np_.m_conj(A(v)), "conjugate": lambda v: np_.m_conj(A(v)),
        "tril": tri(True), "triu": tri(False), "tril_indices": tri_idx(np.tril_indices), "triu_indices": tri_idx(np.triu_indices),
        "diag_indices": lambda n, ndim=2: tuple(np_.arr(list(range(I.concrete_int(n))), "i") for _ in range(ndim)),
        "diagonal": structural(np.diagonal), "fill_diagonal": fill_diagonal, "trace": lambda a, **k: np_.m_trace(A(a)),
        "transpose": structural(np.transpose), "reshape": lambda v, *s, **k: np_.m_reshape(A(v), *s),
        "ravel": lambda v, **k: np_.m_ravel(A(v)), "flip": structural(np.flip), "fliplr": structural(np.fliplr),
        "flipud": structural(np.flipud), "roll": roll, "squeeze": squeeze, "expand_dims": structural(np.expand_dims),
        "atleast_1d": lambda v: A(v) if A(v).data.ndim else np_.arr([A(v).data[()]]),
        "atleast_2d": lambda v: A(v) if A(v).data.ndim >= 2 else Arr(A(v).data.reshape(1, -1), A(v).dt),
        "repeat": structural(np.repeat), "tile": lambda v, r: Arr(np.tile(A(v).data, r), A(v).dt),
        "broadcast_to": lambda v, s: Arr(np.broadcast_to(A(v).data, np_.shape(s)), A(v).dt), "swapaxes": structural(np.swapaxes),
        "cumsum": lambda v, axis=None: np_.m_cumsum(A(v), axis), "sort": sortf, "argsort": argsort, "count_nonzero": count_nonzero,
        "nonzero": lambda v: np_.nonzero(A(v)), "flatnonzero": lambda v: np_.nonzero(np_.m_ravel(A(v)))[0],
        "argwhere": lambda v: np_.arr([list(t) for t in zip(*[list(np_.iterate(x)) for x in np_.nonzero(A(v))])], "i"),
        "ix_": ix_, "shape": lambda v: tuple(A(v).data.shape), "ndim": lambda v: A(v).data.ndim if isarr(v) else 0,
        "size": lambda v: A(v).data.size if isarr(v) else 1, "isscalar": lambda v: isinstance(v, (T, int, str)),
        "iscomplexobj": lambda v: isinstance(v, Arr) and v.dt == "c", "nan_to_num": nan_to_num,
        "shares_memory": lambda a, b: bool(np.shares_memory(a.data, b.data)), "may_share_memory": lambda a, b: bool(np.shares_memory(a.data, b.data)),
        "ndindex": lambda *s: np.ndindex(*np_.shape(s if len(s) > 1 or not isinstance(s[0], tuple) else s[0])),
        "ndenumerate": lambda v: (((i, np_.out(A(v).data[i], A(v).dt)) for i in np.ndindex(*A(v).data.shape))),
        "errstate": lambda **k: M["contextlib"].d["nullcontext"].fn(), "seterr": lambda **k: {},
        "setdiff1d": None, "hypot": ew2(lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b)))),
        "vectorize": lambda f, **k: H(lambda v, *a: np_.unary(A(v), lambda x: I.call(f, [x] + list(a), {}))),
        "kron": None, "interp": None, "searchsorted": None, "tensordot": tensordot, "set_printoptions": lambda **k: None,
        "delete": lambda v, ix, axis=None: Arr(np.delete(A(v).data, I.concrete_int(ix), axis), A(v).dt),
        "fromiter": lambda it, dtype=None, count=-1: np_.arr(list(I.iter_(it)), np_.dtype(dtype)),
        "fromfunction": lambda f, shape, dtype=None: I.call(f, [np_.arr(g.tolist(), "i") for g in np.indices(np_.shape(shape))], {}),
        "meshgrid": meshgrid, "require": asarray, "take": take, "split": split, "array_split": split,
        "ptp": lambda v, **k: tm.sub(np_.max(A(v)), np_.min(A(v))), "cumprod": lambda v, axis=None: cumprod(v),
        "moveaxis": lambda v, a, b: Arr(np.moveaxis(A(v).data, I.concrete_int(a), I.concrete_int(b)), A(v).dt),
        "average": lambda a, axis=None, **k: np_.m_mean(A(a), axis), "iterable": lambda v: isinstance(v, (list, tuple, Arr, dict, set)),
        "isreal": uf(lambda x: tm.TRUE, "b"), "signbit": uf(lambda x: tm.lt(x, tm.const(0)), "b"),
        "heaviside": ew2(lambda x, h: tm.ite(tm.lt(x, tm.const(0)), tm.const(0.0), tm.ite(tm.eq(x, tm.const(0)), h, tm.const(1.0)))),
    }
    def kinds(v):
        return np_.raw(v)[1] if isinstance(v, (Arr, T, int, bool, Cx, complex, list, tuple)) else np_.dtype(v)

    def issubdtype(a, b):
        k = np_.dtype(a)
        n = b.name if isinstance(b, BType) else None
        groups = {"floating": "sf", "integer": "i", "signedinteger": "i", "number": "isfc", "generic": "bisfcO", "inexact": "sfc", "complexfloating": "c"}
        return k in groups[n] if n in groups else k == np_.dtype(b)

    D.update({
        "result_type": lambda *v: DType(promote(*[kinds(x) for x in v])), "promote_types": lambda a, b: DType(promote(np_.dtype(a), np_.dtype(b))),
        "issubdtype": issubdtype, "can_cast": lambda a, b, casting="safe": ORDER.index(kinds(a)) <= ORDER.index(np_.dtype(b)) if casting == "safe" else unm("can_cast"),
        "diff": lambda v, n=1, axis=-1: np_.binop("sub", Arr(np.moveaxis(A(v).data, axis, 0)[1:], A(v).dt), Arr(np.moveaxis(A(v).data, axis, 0)[:-1], A(v).dt)) if n == 1 and A(v).data.ndim == 1 else unm("diff"),
        "apply_along_axis": along, "unique": unique, "cross": cross, "kron": kron, "isin": isin, "in1d": isin, "searchsorted": searchsorted,
        "polyval": polyval, "select": select, "copysign": ew2(lambda a, b: tm.ite(tm.lt(b, tm.const(0)), tm.neg(tm.fabs(a)), tm.fabs(a)), "f"),
        "nanmax": arr_red("max"), "nanmin": arr_red("min"), "nansum": lambda a, *x, **k: np_.sum(a, *x, **k),
        "nanargmax": lambda a, axis=None: np_.argmax(A(a), axis), "nanargmin": lambda a, axis=None: np_.argmax(A(a), axis, -1),
        "putmask": putmask, "place": putmask, "logical_xor": lambda a, b: np_.ew(lambda x, y: tm.bnot(tm.eq(I.bt(x), I.bt(y))) if False else tm.bor(tm.band(I.bt(x), tm.bnot(I.bt(y))), tm.band(tm.bnot(I.bt(x)), I.bt(y))), a, b, dt="b"),
        "pad": pad, "insert": insert, "isneginf": uf(lambda x: tm.FALSE, "b"), "isposinf": uf(lambda x: tm.FALSE, "b"),
        "deg2rad": uf(lambda x: tm.div(tm.mul(x, tm.PI), tm.const(180))), "rad2deg": uf(lambda x: tm.div(tm.mul(x, tm.const(180)), tm.PI)),
        "radians": uf(lambda x: tm.div(tm.mul(x, tm.PI), tm.const(180))),
    })
    D = {k: strict(k, v) for k, v in D.items() if v is not None}
    m = mod("numpy", D)
    m.d["r_"] = RC(0)
    m.d["c_"] = RC(1)
    for n, op in (("add", "add"), ("multiply", "mul"), ("subtract", "sub"), ("divide", "truediv"), ("power", "pow")):
        if n in ("add", "multiply"):
            m.d[n].d["reduce"] = H(apply_red(n))
            m.d[n].d["accumulate"] = H((lambda v, axis=0: np_.m_cumsum(A(v), axis)) if n == "add" else (lambda v, axis=0: cumprod(v) if A(v).data.ndim == 1 else unm("accumulate")))
        m.d[n].d["outer"] = H(lambda a, b, op=op: np_.binop(op, Arr(A(a).data.reshape(-1, 1), A(a).dt), Arr(A(b).data.reshape(1, -1), A(b).dt)))
    for n, g in (("maximum", "max"), ("minimum", "min"), ("logical_and", "all"), ("logical_or", "any")):
        m.d[n].d["reduce"] = H(lambda a, axis=0, g=g: getattr(np_, g)(A(a), axis if A(a).data.ndim > 1 else None))
    fl = lambda v: isinstance(v, T) and v.typ == "f"
    it = lambda v: isinstance(v, int) or isinstance(v, T) and v.typ == "i"
    m.d.update({
        "pi": tm.PI, "e": tm.E_, "inf": tm.const(float("inf")), "nan": tm.const(float("nan")), "newaxis": None,
        "ndarray": BType("ndarray", None, lambda v: isinstance(v, Arr)),
        "float64": BType("float64", B["float"].call, fl), "float32": BType("float32", lambda v=0: tm.fn("single", B["float"].call(v)), lambda v: isinstance(v, T) and v.op == "single"),
        "floating": BType("floating", None, fl), "number": BType("number", None, lambda v: fl(v) or it(v)),
        "double": BType("float64", B["float"].call, fl), "float_": BType("float64", B["float"].call, fl),
        "integer": BType("integer", None, it), "inexact": BType("inexact", None, fl), "signedinteger": BType("signedinteger", None, it),
        "complexfloating": BType("complexfloating", None, lambda v: isinstance(v, Cx)),
        "float16": BType("float32", lambda v=0: tm.fn("single", B["float"].call(v)), lambda v: False), "longdouble": BType("float64", B["float"].call, fl),
        "single": BType("float32", lambda v=0: tm.fn("single", B["float"].call(v)), lambda v: False), "half": BType("float32", lambda v=0: tm.fn("single", B["float"].call(v)), lambda v: False), "int64": BType("int64", B["int"].call, it),
        "int32": BType("int64", B["int"].call, it), "intp": BType("int64", B["int"].call, it),
        "bool_": BType("bool_", B["bool"].call, lambda v: isinstance(v, bool)), "generic": BType("generic", None, lambda v: fl(v) or it(v)),
        "complex128": BType("complex", None, lambda v: isinstance(v, Cx)),
        "typing": M["numpy.typing"], "dtype": BType("dtype", lambda d: DType(np_.dtype(d)), lambda v: isinstance(v, DType)),
    })
    fi = Module("finfo")
    eps = tm.const(Fraction(1, 2 ** 52), "f")
    fi.d.update({"eps": eps, "tiny": tm.const(2.2250738585072014e-308), "max": tm.const(1.7976931348623157e308),
                 "min": tm.const(-1.7976931348623157e308)})
    m.d["finfo"] = H(lambda *a: fi)
    I_sys = M["sys"]
    sysfi = Module("float_info")
    sysfi.d.update({"epsilon": eps, "max": fi.d["max"], "min": fi.d["tiny"]})
    I_sys.d["float_info"] = sysfi
    la = mod("numpy.linalg", {"norm": lambda a, ord=None, axis=None, keepdims=False: np_.norm(A(a), ord, axis, keepdims),
                              "cholesky": cholesky, "solve": solve, "det": lambda a: det_(cells2(a)), "multi_dot": multi_dot,
                              "inv": lambda a: solve(a, eye(len(cells2(a)))),
                              "matrix_power": lambda a, k: multi_dot([a] * I.concrete_int(k)) if I.concrete_int(k) else eye(len(cells2(a)))})
    la.d["LinAlgError"] = B["LinAlgError"]
    def irfft(v, n=None, axis=-1, norm=None):
        v = A(v)
        if v.data.ndim != 1 or norm not in (None, "backward"):
            raise Unmodelled("numpy.fft.irfft of rank > 1 or with a norm")
        x = [cx(c) for c in v.data]
        n = 2 * (len(x) - 1) if n is None else I.concrete_int(n)
        h = n // 2 + 1
        x = (x + [cx(tm.const(0.0))] * h)[:h]
        full = np.empty((n,), dtype=object)
        for k in range(n):      # Hermitian extension; the imaginary parts at 0 and n/2 do not count
            c = x[k] if k < h else Cx(x[n - k].re, tm.neg(x[n - k].im))
            full[k] = Cx(c.re, tm.const(0.0)) if k == 0 or 2 * k == n else c
        r = dft(Arr(full, "c"), None, 1)
        out = np.empty((n,), dtype=object)
        for k in range(n):
            out[k] = r.data[k].re
        return Arr(out, "f")

    def fftshift(v, axes=None):
        return Arr(np.fft.fftshift(A(v).data), A(v).dt)

    def rfft(v, n=None, axis=-1, norm=None):
        if norm not in (None, "backward"):
            raise Unmodelled("numpy.fft.rfft with a norm")
        r = dft(v, n, -1)
        return Arr(r.data[: len(r.data) // 2 + 1], r.dt)

    ff = mod("numpy.fft", {"rfft": rfft, "irfft": irfft, "fftshift": fftshift, "fft": lambda v, n=None, **k: dft(v, n, -1), "ifft": lambda v, n=None, **k: dft(v, n, 1)})
    m.d["linalg"] = la
    m.d["fft"] = ff
    return m
