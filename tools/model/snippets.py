"""idioms whose transfer functions are compared with the real semantics (tools/modeltest.py)"""
import copy
import functools
import itertools
import math
import operator
from collections import OrderedDict, defaultdict, deque, namedtuple, Counter
from contextlib import contextmanager, suppress
from dataclasses import dataclass, field, replace
from enum import Enum, IntEnum, auto
from typing import NamedTuple, Optional

import numpy as np

A = np.array([[2.0, 1.0, 0.5], [1.0, 3.0, -1.0], [0.5, -1.0, 4.0]])
B = np.array([[1.0, -2.0, 3.0], [0.0, 5.0, 1.5], [2.5, 1.0, -1.0]])
u = np.array([1.0, -2.0, 0.5])
w = np.array([3.0, 0.25, -1.0])
k3 = np.array([3, 1, 2])


def t_linalg(): return np.linalg.solve(A, u), np.linalg.det(A), np.linalg.inv(A), np.linalg.cholesky(A), np.linalg.norm(u), np.linalg.norm(A), np.linalg.norm(u, 1), np.linalg.norm(u, np.inf)
def t_products(): return A @ u, u @ A, A @ B, np.dot(A, u), np.dot(u, w), A.dot(B), np.inner(u, w), np.outer(u, w), np.vdot(u, w), np.matmul(A, B), np.einsum("ij,j->i", A, u), np.einsum("i,ij,j", u, A, w), np.tensordot(u, A, axes=1), np.tensordot(A, B), np.tensordot(A, B, axes=([1], [0])), np.linalg.multi_dot([u, A, w]), np.linalg.matrix_power(A, 2)
def t_stack3(): S = np.stack([A, B]); return S @ u, np.array([A, B]).shape, np.tensordot(np.array([2.0, 3.0]), S, axes=1), S.sum(axis=0), np.einsum("kij,i,j->k", S, u, u), (S * np.array([1.0, 2.0])[:, None, None]).sum(0), np.sum(S, axis=(1, 2))
def t_matmul3(): S = np.stack([A, B]); return S @ A, (u @ S) @ w
def t_reduce(): return A.sum(), A.sum(axis=0), A.sum(1), np.sum(A, axis=1), A.min(), A.max(axis=1), A.mean(), np.prod(u), np.cumsum(u), np.cumprod(u), u.argmax(), u.argmin(), np.argmax(A, axis=0), np.ptp(u), A.trace(), np.any(u > 0), np.all(u > -3), (u > 0).sum(), np.count_nonzero(u > 0), np.max(u), np.min(A), np.amax(u), u.prod(), u.cumsum(), np.mean(A, axis=0), np.add.reduce(u), np.maximum.reduce(u), np.nanmax(u)
def t_ufuncs(): return np.sqrt(np.abs(u)), np.exp(u), np.log(np.abs(w)), np.square(u), np.power(u, 2), np.sign(u), np.clip(u, -1, 0.7), np.maximum(u, w), np.minimum(u, 0.0), np.floor(w), np.ceil(w), np.round(w * 3), np.rint(w), np.hypot(u, w), np.reciprocal(w), np.negative(u), np.log1p(np.abs(u)), np.expm1(u), np.log10(np.abs(w)), np.fabs(u), np.divide(u, w), np.where(u > 0, u, w), np.add(u, w), np.multiply(u, 2), np.isfinite(u), np.isnan(u), np.cos(u), np.sin(u)
def t_index(): return A[0], A[:, 1], A[1:, :2], A[-1, -1], A[::-1], A[[0, 2]], A[[0, 1], [1, 2]], u[u > 0], A[u > 0], u[::2], A[1][2], A[..., 0], A[None, 0], u[:, None], A[np.ix_([0, 2], [1, 2])], u[k3 - 1], np.take(u, [0, 2]), A.take(1, axis=0), A.diagonal(), np.diag(A), np.diag(u), A.T, A.flat[4], A.ravel(), A.reshape(-1), A.reshape(1, 9), A.flatten()[2:4], u[np.newaxis, :], u[-2:], A[:, ::-1]
def t_assign():
    a = A.copy(); a[0] = 1.0; a[:, 1] += u; a[1, 2] *= 3; a[a < 0] = 0.0; a[[0, 2], [0, 2]] = -1.0
    v = u.copy(); v[1:] -= w[1:]; v[::2] = 9.0; b = np.zeros((2, 2)); b[...] = 4; b[0, :] = [1, 2]
    np.fill_diagonal(b, 7); c = np.empty(3); c.fill(2.5); d = np.zeros(3); d[:] = u; np.copyto(d, w); e = a.T; e[0, 1] = 55.0
    x = u.copy(); np.add(x, w, out=x); x -= 1; x /= 2; x **= 2; q = np.arange(6.0).reshape(2, 3); r = q[1]; r += 10
    i = np.arange(3); a2 = A.copy(); a2[i, i] *= 2
    return a, v, b, c, d, e, x, q, a2
def t_make(): return np.zeros(3), np.ones((2, 2)), np.full(3, 2.5), np.eye(3), np.identity(2), np.arange(5), np.arange(1, 4) * 0.5, np.linspace(0, 1, 5), np.linspace(0, 2, 4, endpoint=False), np.zeros_like(u), np.full_like(u, 3), np.ones_like(A), np.tri(3) if False else np.tril(A), np.triu(A, 1), np.tril(A, -1), np.concatenate((u, w)), np.hstack((u, w)), np.vstack((u, w)), np.column_stack((u, w)), np.stack([u, w], axis=1), np.append(u, 4.0), np.r_[u, 5.0] if False else u, np.repeat(u, 2), np.tile(u, 2), np.roll(u, 1), np.flip(u), np.fliplr(A), np.block([[A]]) if False else A, np.fromiter((i * 2.0 for i in range(3)), dtype=float), np.fromfunction(lambda i, j: i + 2 * j, (2, 3)), np.array([u, w]), np.asarray([1.0, 2.0]), np.array(u, copy=True), np.atleast_1d(3.0), np.atleast_2d(u), np.expand_dims(u, 0), np.squeeze(u[None]), np.broadcast_to(u, (2, 3)), np.meshgrid(u, w)[0], np.sort(u), np.argsort(u), np.nonzero(u > 0)[0], np.flatnonzero(u > 0), np.argwhere(u > 0), np.delete(u, 1), np.array_split(u, 2)[0], np.split(np.arange(4), 2)[1]
def t_signal(): return np.convolve(u, w), np.correlate(u, w, mode="full"), np.convolve(u, u[::-1])[2:], np.real(np.fft.ifft(np.fft.fft(u))), np.abs(np.fft.fft(u)), np.fft.fft(u)[1].real, (1j * np.fft.fft(u)).imag, np.real(np.exp(1j * u)), np.fft.ifft(np.exp(u + 1j * w), 3).real
def t_types(): return isinstance(1.0, float), isinstance(True, int), isinstance(u, np.ndarray), isinstance(u[0], float), isinstance(k3[0], (int, float)), isinstance(k3[0], np.integer), np.isscalar(2.0), np.ndim(u), np.ndim(3.0), np.shape(A), u.size, A.ndim, len(A), A.shape[0], type(3).__name__, type(u[0]) is np.float64, callable(len), int(3.7), int(-3.7), float(2), bool(0.0), round(2.5), round(3.567, 2), divmod(7, 3), -7 // 2, -7 % 3, 2 ** 0.5, 7 / 2, abs(-3), max(1, 2, 3), min([4, 2]), sum([1, 2, 3]), pow(2, 5), u.tolist(), u.astype(int), k3.astype(float) / 2, float(u[0]), u.item(1), A.item(0, 1)
def t_math(): return math.sqrt(2), math.hypot(3, 4), math.floor(-2.5), math.ceil(2.1), math.exp(1), math.log(3), math.log(8, 2), math.pi, math.inf > 3, math.isclose(1, 1 + 1e-12), math.fsum([0.1] * 10), math.prod([1, 2, 3]), math.copysign(2, -3), math.isfinite(2.0), math.trunc(-2.7), math.fabs(-2), math.pow(2, 3), math.cos(1), math.log2(8), math.log10(100), math.log1p(1), math.isnan(1.0), math.dist([0, 0], [3, 4])
def t_iter():
    out = [list(zip(u, w)), list(enumerate("ab")), list(map(lambda a, b: a * b, u, w)), [x for x in u if x > 0], {i: x for i, x in enumerate(u)}, sorted([3, 1, 2], reverse=True), list(reversed([1, 2, 3])), any(x < 0 for x in u), all(x > -5 for x in u), list(itertools.chain([1], [2, 3])), list(itertools.product([1, 2], "ab")), list(itertools.accumulate([1, 2, 3])), list(itertools.islice(itertools.count(), 3)), list(itertools.combinations([1, 2, 3], 2)), functools.reduce(operator.mul, [1, 2, 3], 1), list(itertools.takewhile(lambda z: z < 3, [1, 2, 3, 1])), next(iter([7])), next((x for x in [1, 5, 9] if x > 3), None), next((x for x in [] if x), -1), [*range(2), *range(5, 7)], dict(a=1, **{"b": 2}), sum(x * y for x, y in zip(u, w)), max(enumerate(u), key=lambda t: t[1])[0], min(u, key=abs), list(filter(None, [0, 1, 2])), [(i, j) for i in range(3) for j in range(i)], list(range(5, 0, -2)), list(itertools.cycle([1, 2]).__next__() for _ in range(1)), list(itertools.repeat(2, 3)), list(itertools.zip_longest([1, 2], [3])), list(itertools.starmap(pow, [(2, 3), (3, 2)])), list(itertools.permutations([1, 2]))]
    a, *b = [1, 2, 3]; (c, d), e = (1, 2), 3; x = y = 4
    return out, a, b, c, d, e, x, y
def gen(n):
    got = yield 0
    for i in range(n):
        got = yield i * 2
    return n
def gen2():
    r = yield from gen(2)
    yield r
def t_gen(): return list(gen(3)), list(gen2()), sum(gen(3))
class P(NamedTuple):
    x: float
    y: float = 2.0
    def norm(self): return math.hypot(self.x, self.y)
@dataclass
class D:
    a: int
    b: list = field(default_factory=list)
    c: float = 1.5
    def __post_init__(self): self.d = self.a * 2
@dataclass(frozen=True)
class Fz:
    a: int = 1
Q = namedtuple("Q", ["p", "q"])
class Color(Enum):
    RED = 1
    BLUE = auto()
    @property
    def low(self): return self.name.lower()
class I2(IntEnum):
    X = 3
def t_classes():
    d = D(3); d.b.append(1); e = D(4); p = P(1.0); q = Q(1, q=2); z, zz = q; f = replace(Fz(), a=5)
    return d.d, d.b, e.b, d.c, p.norm(), p[0], p.y, q.q, z, f.a, Fz() == Fz(), Color.RED.name, Color.RED.value, Color(1) is Color.RED, Color["BLUE"].low, [c.value for c in Color], I2.X + 1, d == D(3, [1]), p == (1.0, 2.0), P(2.0)._replace(y=1)[1], q._asdict()["p"]
class Base:
    count = 0
    __slots__ = ("_v", "z")
    def __init__(self, v): self._v = v; self.z = None
    @property
    def v(self): return self._v
    @v.setter
    def v(self, x): self._v = x + 1
    @classmethod
    def make(cls, x): return cls(x)
    @staticmethod
    def twice(x): return 2 * x
    def __call__(self, x): return self._v + x
    def __len__(self): return 3
    def __getitem__(self, i): return self._v * i
    def __eq__(self, o): return self._v == o._v
    def __lt__(self, o): return self._v < o._v
    def __add__(self, o): return Base(self._v + o._v)
    def __iter__(self): return iter([self._v])
    def __bool__(self): return self._v > 0
    def __contains__(self, x): return x == self._v
    def __enter__(self): return self
    def __exit__(self, *a): self.z = "closed"; return False
    def __neg__(self): return Base(-self._v)
class Child(Base):
    def __init__(self, v): super().__init__(v); self.extra = 1
    def v2(self): return self.v * 10
    def __getattr__(self, n):
        if n.startswith("dyn_"): return n[4:]
        raise AttributeError(n)
def t_objects():
    b = Base(2); b.v = 5; c = Child.make(3); Base.count += 1
    with b as bb: pass
    return b.v, Base.twice(4), c.v2(), c(1), len(b), b[2], b == Base(6), b < c, (b + c).v, list(b), bool(b), 6 in b, b.z, isinstance(c, Base), Base.count, c.extra, getattr(c, "nope", 1), hasattr(c, "extra"), c.dyn_q, (-b).v, issubclass(Child, Base), type(c).__name__, c.__class__ is Child, copy.copy(c).extra, copy.deepcopy(b).v, vars(c)["extra"], sorted([b, c])[0] is c
def deco(f):
    @functools.wraps(f)
    def g(*a, **k): return f(*a, **k) + 100
    return g
@deco
def plus(a, b=2, *c, d=4, **e): return a + b + sum(c) + d + sum(e.values())
@functools.lru_cache(maxsize=None)
def fibo(n): return n if n < 2 else fibo(n - 1) + fibo(n - 2)
@contextmanager
def ctx(v):
    yield v + 1
def t_funcs():
    def outer():
        n = 0
        def inc():
            nonlocal n
            n += 1
            return n
        return inc
    f = outer(); f(); part = functools.partial(plus, 1, d=0)
    with ctx(4) as z: pass
    with suppress(ValueError): int("x") if False else None
    return plus(1), plus(1, 1, 1, d=1, e=1), f(), part(), fibo(10), z, (lambda *a, k=1: (a, k))(1, 2), (lambda x: x if x else "no")(0), operator.itemgetter(1)([1, 2]), operator.attrgetter("real")(2.0) if False else 1
def t_control():
    out = []
    for i in range(5):
        if i == 1: continue
        if i == 3: break
        out.append(i)
    else:
        out.append("never")
    n = 3
    while n > 0: n -= 1
    else: out.append("else")
    try:
        try: raise ValueError("a")
        except (TypeError, ValueError) as e: out.append(str(e)); raise RuntimeError("b") from e
        finally: out.append("fin")
    except RuntimeError as e: out.append(e.args[0])
    else: out.append("no")
    try: [1][5]
    except IndexError: out.append("ix")
    try: {}["a"]
    except KeyError: out.append("key")
    try: 1 / 0
    except ZeroDivisionError: out.append("zd")
    try: assert n, "msg"
    except AssertionError as e: out.append(str(e))
    if (m := n + 2) > 1: out.append(m)
    match (1, "x"):
        case (1, y): out.append(y)
    match {"k": 3}:
        case {"k": v}: out.append(v)
    match 5:
        case 1 | 2: out.append("low")
        case int(q) if q > 3: out.append(q)
        case _: out.append("other")
    match Color.BLUE:
        case Color.RED: out.append("r")
        case Color.BLUE: out.append("b")
    match [1, 2, 3]:
        case [a, *rest]: out.append(rest)
    match None:
        case None: out.append("none")
    x = 1 if n else 2; a = b = []; a.append(1); del out[0]
    return out, x, b, 1 < 2 < 3, not n, n or "dflt", n and 1, None is None, "a" in "abc", 3 not in [1], f"{n:>3}|{x!r}|{2.5:.2f}", "%d-%s" % (1, "z"), "{} {x}".format(1, x=2), ",".join(["a", "b"]), "a b".split(), "Abc".lower(), "abc"[::-1], "x".startswith("x")
def t_containers():
    l = [3, 1, 2]; l.sort(); l.append(4); l.extend([5]); l.insert(0, 0); p = l.pop(); l.remove(4); d = {"a": 1}; d.setdefault("b", 2); d.update(c=3); s = {1, 2} | {3}; dd = defaultdict(list); dd["x"].append(1); dq = deque([1, 2], maxlen=2); dq.append(3); od = OrderedDict(a=1); c = Counter("aab")
    return l, p, d, list(d.items()), d.get("z", 9), d.pop("a"), sorted(s), dict(dd), list(dq), od["a"], l.index(2), l.count(1), l[::-1], l[1:3], [0] * 3, (1,) + (2,), tuple(l), set([1, 1]), c["a"], {**d, "q": 1}, [*l][0], list(d), list(d.values()), "b" in d, l.copy(), sorted(l, key=lambda z: -z), 2 in s, frozenset([1]) == {1}, {1, 2} & {2}, {1, 2} - {2}, dict(zip("ab", [1, 2])), list(dict.fromkeys([1, 1, 2])), dq.popleft()
def t_more_np():
    a = A.copy(); v = u.view() if False else u.copy()
    return np.array_equal(a, A), np.allclose(a, A), np.isclose(1.0, 1.0), a.max() - a.min(), (a > 0).all(), (a > 0).any(axis=0), np.logical_and(u > 0, w > 0), ~(u > 0), (u > 0) & (w > 0), (u > 0) | (w > 0), u != w, np.abs(u).sum(), a.swapaxes(0, 1), np.transpose(a), a.conj(), a.real, -a, +u, u ** 2, 2 ** u, u // 1, u % 2, 1 / w, u @ w, u.dot(w), a.copy().T.dot(u), np.sum(u * w), sum(u), max(u), list(u), [float(x) for x in u], np.mean(u), u.mean(), np.median(u) if False else 0, np.diff(u) if hasattr(np, "diff") else 0, np.sum(a[1:, 0] * u[1:]), np.arange(3)[::-1], np.triu_indices(3, 1)[0], a[np.triu_indices(3, 1)], a[np.tril_indices(3)], np.linalg.norm(a, axis=1), np.apply_along_axis(np.sum, 0, a), np.dot(2.0, u), np.array(3.0) + 1, np.float64(2.5) * 2, np.sum([1, 2, 3]), np.max([1, 5]), np.sqrt(4.0), np.exp(0.0), np.abs(-3.0), np.outer(u, w).shape, np.vectorize(lambda x: x * 2)(u), np.inf > 1, np.any(a[0]), np.all(u), np.any(np.zeros(2)), u.any(), u.all(), np.diag(u).diagonal(), np.diagflat(u)[1, 1], np.unique(np.array([2.0, 1.0, 2.0])), np.interp(0.5, [0, 1], [0, 2]) if False else 0, np.nan_to_num(u), np.cross(u, w), np.kron(u, w), np.isin(k3, [1, 2]), np.searchsorted(np.array([1.0, 2.0, 3.0]), 2.5), np.var(u) if False else 0, np.subtract.outer(u, w), np.multiply.outer(u, w), np.digitize(0.5, [0, 1]) if False else 0, a.sum(keepdims=True) if False else 0, a.sum(axis=1, keepdims=True), np.cumsum(a, axis=0), np.where(u > 0)[0], np.argmax(u > 0), np.ravel(a), u.clip(0, 1), u.round(), u.sum().item() if False else 0, np.errstate(all="ignore") is not None, u.nonzero()[0], a.nbytes if False else 0, np.ascontiguousarray(a), np.asarray(u) is u, np.array(u) is u, np.may_share_memory(a, a[0]), np.mod(u, 2), np.trace(a), np.polyval([1.0, 2.0, 3.0], 2.0), np.dstack((u, w)) if False else 0, np.select([u > 0, u < -1], [u, w], 0.0), np.choose([0, 1, 0], [u, w]) if False else 0, np.piecewise(u, [u > 0], [1.0]) if False else 0, np.minimum.reduce(u), np.add.accumulate(u), np.einsum("ii", a), np.einsum("ij->j", a), np.einsum("ij,ij->", a, a), np.sum(a, where=a > 0) if False else 0, np.max(u, initial=0.0), np.max(u, where=u < 1, initial=-9.0) if False else 0, np.r_[u, w], np.c_[u, w], np.s_[1:2] if False else 0, np.mgrid[0:2, 0:2][0] if False else 0, u.argsort(), u.tolist()[0], np.flip(a, 0), np.rot90(a) if False else 0, np.eye(3)[1], np.eye(2, 3), np.array([[1, 2], [3, 4]]) @ np.array([1, 1]), np.geomspace(1, 8, 4) if False else 0, np.logspace(0, 1, 2) if False else 0
def t_fft_more(): return np.fft.irfft(np.fft.rfft(u, 6), 6), np.fft.irfft(np.array([1 + 2j, 3 - 1j, 2j])), np.fft.irfft(np.array([1 + 2j, 3 - 1j, 2j]), 5), np.fft.rfft(u), np.fft.fftshift(u)
def t_dtypes():
    a = A.copy(); i = np.array([1, 2]); b = u > 0
    return (a.dtype == float, a.dtype == np.float64, a.dtype.kind, np.issubdtype(a.dtype, np.floating), np.issubdtype(i.dtype, np.integer), np.issubdtype(i.dtype, np.floating), a.dtype == "float64",
            i.dtype == int, i.dtype == float, a.dtype == int, a.dtype is float, a.dtype == a.dtype, i.dtype == a.dtype, a.dtype != float, b.dtype == bool, b.dtype == np.bool_, a.dtype in (float, int), np.result_type(a, i) == float, (i * u[:2]).dtype == float, u.astype(np.float32) - u, u.astype('f4') * 1.0 == u, np.float32(0.1) * 1.0, np.zeros(2, dtype=np.float32) + np.array([0.1, 0.2], dtype='f4'), (u.astype(np.float32) + u).dtype.name, isinstance(a.dtype, np.dtype), a.dtype.itemsize, a.dtype == np.dtype(float), a.dtype.type is np.float64, np.dtype("f8") == a.dtype, i.dtype.kind in "iu", a.dtype.name)
