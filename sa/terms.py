"""Algebraic value numbers.

Every scalar the analysed program computes is abstracted to a hash-consed term
over input atoms.  Two terms get the same *value number* when they are the same
real function of the atoms; that is decided by polynomial-identity style
fingerprints (80-digit evaluation of the terms - never of the program - at fixed
generic points), so the identity does not depend on how the formula is written.
"""
from __future__ import annotations

import math
import struct
import hashlib
from fractions import Fraction

import mpmath
from mpmath import mp, mpf

mp.dps = 80
TOL = mpf(10) ** -40


class Undef:
    """value of a partial operation outside its domain"""

    def __repr__(self):
        return "undef"


UNDEF = Undef()
INF = mpf("inf")

_table: dict = {}
_terms: list = []


class T:
    __slots__ = ("op", "args", "id", "typ", "free", "_fp", "_pw")
    # numpy must not try to treat a term as a sequence
    __array_priority__ = 1000

    def __bool__(self):
        raise TypeError("abstract truth value used concretely: %s" % show(self))

    def __hash__(self):
        return self.id

    def __eq__(self, other):  # identity of interned nodes; never used for `==` of programs
        return self is other

    def __repr__(self):
        return show(self)

    # arithmetic, so that numpy object arrays can carry terms
    def __add__(self, o):
        return add(self, o) if num_like(o) else NotImplemented

    def __radd__(self, o):
        return add(o, self) if num_like(o) else NotImplemented

    def __sub__(self, o):
        return sub(self, o) if num_like(o) else NotImplemented

    def __rsub__(self, o):
        return sub(o, self) if num_like(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, o) if num_like(o) else NotImplemented

    def __rmul__(self, o):
        return mul(o, self) if num_like(o) else NotImplemented

    def __truediv__(self, o):
        return div(self, o) if num_like(o) else NotImplemented

    def __rtruediv__(self, o):
        return div(o, self) if num_like(o) else NotImplemented

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return power(self, o) if num_like(o) else NotImplemented

    def __rpow__(self, o):
        return power(o, self) if num_like(o) else NotImplemented

    def __abs__(self):
        return fabs(self)

    def conjugate(self):
        return self


def num_like(x):
    return isinstance(x, (T, int, Fraction)) or (
        isinstance(x, float) and not isinstance(x, bool)
    )


EXACT_BITS, ROUND_BITS = 12000, 3000


def rounded(f):
    """a constant too long to carry exactly, to 3000 significant bits"""
    k = f.numerator.bit_length() - f.denominator.bit_length() - ROUND_BITS
    q = Fraction(1 << k) if k >= 0 else Fraction(1, 1 << -k)
    return round(f / q) * q


def mk(op, args, typ="f", free=None):
    if op == "const" and typ == "f" and args[0].denominator.bit_length() + args[0].numerator.bit_length() > EXACT_BITS:
        args = (rounded(args[0]),)
    key = (op, typ) + tuple(a.id if isinstance(a, T) else ("c", a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.typ = op, tuple(args), typ
        t.id = len(_terms)
        t.free = (
            any(isinstance(a, T) and a.free for a in args) if free is None else free
        )
        t._fp = None
        t._pw = None
        _terms.append(t)
        _table[key] = t
    return t


def const(v, typ=None):
    """exact constant; floats are read through their shortest decimal form"""
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return mk("special", ("nan",))
        if v in (float("inf"), float("-inf")):
            return mk("special", ("inf" if v > 0 else "-inf",))
        return mk("const", (Fraction(repr(v)),), typ or "f")
    if isinstance(v, int):
        return mk("const", (Fraction(v),), typ or "i")
    return mk("const", (Fraction(v),), typ or "f")


def atom(name, typ="f", free=False):
    return mk("atom", (name,), typ, free)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def join_typ(a, b):
    return "i" if a.typ == "i" and b.typ == "i" else "f"


def L(x):
    return x if isinstance(x, T) else const(x)


def add(a, b):
    a, b = L(a), L(b)
    ty = join_typ(a, b)
    if is_const(a) and is_const(b):
        return mk("const", (cval(a) + cval(b),), ty)
    if is_const(a) and cval(a) == 0 and ty == b.typ:
        return b
    if is_const(b) and cval(b) == 0 and ty == a.typ:
        return a
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        return mk("const", (Fraction(0),), ty)
    return mk("add", (a, b), ty)


def neg(a):
    a = L(a)
    if is_const(a):
        return mk("const", (-cval(a),), a.typ)
    if a.op == "neg":
        return a.args[0]
    if a.op == "special" and a.args[0] in ("inf", "-inf"):
        return mk("special", ("-inf" if a.args[0] == "inf" else "inf",))
    return mk("neg", (a,), a.typ)


def sub(a, b):
    a, b = L(a), L(b)
    if a is b and a.op != "special":
        return mk("const", (Fraction(0),), a.typ)
    return add(a, neg(b))


def mul(a, b):
    a, b = L(a), L(b)
    ty = join_typ(a, b)
    if is_const(a) and is_const(b):
        return mk("const", (cval(a) * cval(b),), ty)
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if cval(x) == 0 and y.op != "special":
                return mk("const", (Fraction(0),), ty)
            if cval(x) == 1 and ty == y.typ:
                return y
            if cval(x) == -1 and ty == y.typ:
                return neg(y)
    return mk("mul", (a, b), ty)


def div(a, b):
    a, b = L(a), L(b)
    if is_const(b) and cval(b) != 0:
        if is_const(a):
            return mk("const", (cval(a) / cval(b),), "f")
        if cval(b) == 1 and a.typ == "f":
            return a
    return mk("div", (a, b), "f")


def floordiv(a, b):
    a, b = L(a), L(b)
    ty = join_typ(a, b)
    if is_const(a) and is_const(b) and cval(b) != 0:
        return mk("const", (Fraction(cval(a) // cval(b)),), ty)
    return mk("floor", (div(a, b),), ty)


def mod(a, b):
    a, b = L(a), L(b)
    ty = join_typ(a, b)
    if is_const(a) and is_const(b) and cval(b) != 0:
        return mk("const", (Fraction(cval(a) % cval(b)),), ty)
    return sub(a, mul(b, floordiv(a, b)))


def power(a, b):
    a, b = L(a), L(b)
    if is_const(b):
        e = cval(b)
        if e.denominator == 1 and abs(e) <= 16:
            if is_const(a) and (cval(a) != 0 or e >= 0):
                return mk("const", (cval(a) ** int(e),), join_typ(a, b) if e >= 0 else "f")
            r = const(1)
            for _ in range(abs(int(e))):
                r = mul(r, a)
            return r if e >= 0 else div(1, r)
        if e == Fraction(1, 2):
            return sqrt(a)
    return mk("pow", (a, b), "f")


def _exact_sqrt(fr):
    from math import isqrt

    if fr < 0:
        return None
    n, d = isqrt(fr.numerator), isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


def sqrt(a):
    a = L(a)
    if is_const(a):
        r = _exact_sqrt(cval(a))
        if r is not None:
            return mk("const", (r,), "f")
    return mk("sqrt", (a,), "f")


def single(x):
    """nearest number with a 24-bit significand (IEEE single precision)"""
    if not x:
        return x
    m, e = mp.frexp(x)
    return mp.ldexp(mp.nint(m * 2 ** 24), e - 24)


def fn(name, *args, typ="f", free=None):
    """modelled (exp, log, ...) or uninterpreted pure function"""
    args = tuple(L(a) for a in args)
    if name in ("floor", "ceil", "trunc", "round") and is_const(args[0]):
        import math

        v = cval(args[0])
        r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[
            name
        ](v)
        return mk("const", (Fraction(r),), typ)
    if name in ("floor", "ceil", "trunc", "round") and args[0].typ == "i":
        return args[0]
    if name == "single":
        if is_const(args[0]):
            from fractions import Fraction as F
            import struct as st

            v = cval(args[0])
            return mk("const", (F(st.unpack("f", st.pack("f", float(v)))[0]),), "f") if abs(v) < 1e38 else mk(name, args, typ, free)
        if args[0].op == "single":
            return args[0]
    if name == "exp" and is_const(args[0]) and cval(args[0]) == 0:
        return const(1.0)
    if name == "log" and is_const(args[0]) and cval(args[0]) == 1:
        return const(0.0)
    if name == "log" and args[0].op == "exp":
        return args[0].args[0]
    if name == "exp" and args[0].op == "log":
        return args[0].args[0]
    if name == "cos" and is_const(args[0]) and cval(args[0]) == 0:
        return const(1.0)
    return mk(name, args, typ, free)


def fabs(a):
    a = L(a)
    if is_const(a):
        return mk("const", (abs(cval(a)),), a.typ)
    return mk("abs", (a,), a.typ)


PI = mk("special", ("pi",))
E_ = mk("special", ("e",))


# ---- booleans -------------------------------------------------------------
TRUE = mk("btrue", (), "b")
FALSE = mk("bfalse", (), "b")


def b(v):
    return TRUE if v else FALSE


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "b")


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE:
            out.append(x)
    if not out:
        return TRUE
    r = out[0]
    for x in out[1:]:
        r = mk("and", (r, x), "b")
    return r


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def _spec(t):
    if t.op == "special" and t.args[0] in ("inf", "-inf"):
        return 1 if t.args[0] == "inf" else -1
    return 0


def lt(a, c):
    a, c = L(a), L(c)
    if is_const(a) and is_const(c):
        return b(cval(a) < cval(c))
    if a is c:
        return FALSE
    sa, sc = _spec(a), _spec(c)
    if sa or sc:  # program values are finite unless literally infinite
        if sa and sc:
            return b(sa < sc)
        return b(sa < 0) if sa else b(sc > 0)
    return mk("lt", (a, c), "b")


def le(a, c):
    return bnot(lt(c, a))


def eq(a, c):
    a, c = L(a), L(c)
    if is_const(a) and is_const(c):
        return b(cval(a) == cval(c))
    if a is c:
        return TRUE
    sa, sc = _spec(a), _spec(c)
    if sa or sc:
        return b(sa == sc)
    if a.id > c.id:
        a, c = c, a
    return mk("eq", (a, c), "b")


WATCH = None          # told about conditions that end up inside value numbers


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    x, y = L(x), L(y)
    if x is y:
        return x
    if WATCH is not None:
        WATCH(c)
    return mk("ite", (c, x, y), join_typ(x, y) if x.typ != "b" else "b")


def batom(name, free=True):
    return mk("batom", (name,), "b", free)


# ---- evaluation of terms at points ------------------------------------------
def _hashreal(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return mpf(int.from_bytes(h[:24], "big")) / (mpf(2) ** 192)


class Point:
    """assignment of real numbers to atoms (missing ones get generic values)"""

    __slots__ = ("vals", "memo", "name")

    def __init__(self, name, vals=None):
        self.name = name
        self.vals = dict(vals or {})
        self.memo = {}

    def atomval(self, nm):
        v = self.vals.get(nm)
        if v is None:
            v = mpf("0.3") + mpf("1.4") * _hashreal("atom", self.name, nm)
            self.vals[nm] = v
        return v

    def ev(self, t):
        m = self.memo
        if t.id in m:
            return m[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in m:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.id not in m]
            if todo:
                stack.extend(todo)
                continue
            m[x.id] = self._ev1(x)
            stack.pop()
        return m[t.id]

    def _ev1(self, t):
        op = t.op
        if op == "const":
            f = t.args[0]
            return mpf(f.numerator) / mpf(f.denominator)
        if op == "atom":
            return self.atomval(t.args[0])
        if op == "batom":
            return _hashreal("batom", self.name, t.args[0]) < mpf("0.5")
        if op == "special":
            return {"inf": INF, "-inf": -INF, "pi": mp.pi + 0, "e": mp.e + 0}.get(
                t.args[0], UNDEF
            )
        if op == "btrue":
            return True
        if op == "bfalse":
            return False
        a = [self.memo[x.id] for x in t.args]
        if op == "ite":
            if a[0] is UNDEF:
                return UNDEF
            return a[1] if a[0] else a[2]
        if op == "and":
            if a[0] is False or a[1] is False:
                return False
            return UNDEF if UNDEF in a else True
        if any(x is UNDEF for x in a):
            return UNDEF
        try:
            if op == "add":
                s = a[0] + a[1]
                # absorb the rounding residue of an exact cancellation
                x, y = s._mpf_, a[0]._mpf_
                if not x[1]:
                    return s
                if y[1] and (x[2] + x[3]) - (y[2] + y[3]) < -228:
                    return _Z
                return s
            if op == "neg":
                return -a[0]
            if op == "mul":
                return a[0] * a[1]
            if op == "div":
                return UNDEF if near(a[1], 0, a[0]) else a[0] / a[1]
            if op == "sqrt":
                if a[0] < 0:
                    return mpf(0) if near(a[0], 0) else UNDEF
                return mp.sqrt(a[0])
            if op == "pow":
                if a[0] <= 0 and a[1] != mp.floor(a[1]):
                    return UNDEF
                return mp.power(a[0], a[1])
            if op == "abs":
                return abs(a[0])
            if op == "floor":
                return mp.floor(a[0] + TOL)
            if op == "ceil":
                return mp.ceil(a[0] - TOL)
            if op == "trunc":
                return mp.floor(a[0] + TOL) if a[0] >= 0 else mp.ceil(a[0] - TOL)
            if op == "round":
                return mp.nint(a[0])
            if op == "single":
                return single(a[0])
            if op == "exp":
                return mp.exp(a[0])
            if op == "log":
                return mp.log(a[0]) if a[0] > 0 else UNDEF
            if op == "cos":
                return mp.cos(a[0])
            if op == "sin":
                return mp.sin(a[0])
            if op == "tan":
                return mp.tan(a[0])
            if op == "max":
                return max(a)
            if op == "min":
                return min(a)
            if op == "lt":
                return (a[0] < a[1]) and not same(a[0], a[1])
            if op == "eq":
                return bool(same(a[0], a[1]))
            if op == "not":
                return not a[0]
        except (ZeroDivisionError, ValueError, OverflowError):
            return UNDEF
        # uninterpreted: congruence through a hash of the argument values
        return mpf("0.3") + mpf("1.4") * _hashreal(
            op, tuple(mp.nstr(x, 30) if isinstance(x, mpf) else x for x in a)
        )


_Z = mpf(0)
_E60, _E65, _E55 = mpf(10) ** -60, mpf(10) ** -65, mpf(10) ** -55


def near(x, y, scale=0):
    if y == 0:
        return abs(x) <= _E65
    d = abs(x - y)
    return d <= _E60 * max(abs(x), abs(y)) or d <= _E65


# ---------------------------------------------------------------- fast screening
_UN = {
    "neg": lambda a: -a, "abs": abs, "exp": math.exp, "log": math.log, "cos": math.cos, "sin": math.sin,
    "tan": math.tan, "sqrt": math.sqrt, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
    "round": round, "not": lambda a: not a, "single": lambda a: struct.unpack("f", struct.pack("f", a))[0],
}
_BI = {
    "add": lambda a, b: a + b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "max": max, "min": min,
    "pow": lambda a, b: a ** b, "lt": lambda a, b: a < b, "eq": lambda a, b: a == b,
    "and": lambda a, b: a and b,
}


class Screen:
    """double-precision evaluation of one term along one atom (screening only;
    every candidate is confirmed at full precision)"""

    def __init__(self, t, p, name):
        order, seen, st = [], set(), [(t, False)]
        dep = set()
        while st:
            x, done = st.pop()
            if done:
                order.append(x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            st.append((x, True))
            st.extend((a, False) for a in x.args if isinstance(a, T))
        self.vals = vals = {}
        self.prog = prog = []
        self.t = t
        self.ok = True
        for x in order:
            if x.op == "atom" and x.args[0] == name:
                dep.add(x.id)
                self.root = x.id
                continue
            if any(isinstance(a, T) and a.id in dep for a in x.args):
                dep.add(x.id)
                ids = [a.id for a in x.args]
                if x.op in _UN:
                    prog.append((1, _UN[x.op], x.id, ids[0], 0, 0))
                elif x.op in _BI:
                    prog.append((2, _BI[x.op], x.id, ids[0], ids[1], 0))
                elif x.op == "ite":
                    prog.append((3, None, x.id, ids[0], ids[1], ids[2]))
                else:
                    self.ok = False
                    return
            else:
                v = p.ev(x)
                vals[x.id] = v if isinstance(v, bool) else (float("nan") if v is UNDEF else float(v))
        self.const = t.id not in dep

    def __call__(self, g):
        vals = self.vals
        vals[self.root] = float(g)
        try:
            for k, f, i, a, b, c in self.prog:
                if k == 2:
                    vals[i] = f(vals[a], vals[b])
                elif k == 1:
                    vals[i] = f(vals[a])
                else:
                    vals[i] = vals[b] if vals[a] else vals[c]
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
        v = vals[self.t.id]
        return None if isinstance(v, complex) or v != v else v


def same(x, y):
    """equality of two evaluated values"""
    if x is UNDEF or y is UNDEF:
        return x is y
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y
    if x == y:
        return True
    if mpmath.isinf(x) or mpmath.isinf(y):
        return False
    d = abs(x - y)
    return d <= TOL * max(abs(x), abs(y)) or d <= _E55


GENERIC = [Point("g%d" % i) for i in range(5)]


def _base(t):
    if t._fp is None:
        t._fp = tuple(
            v if (isinstance(v, bool) or v is UNDEF) else mp.nstr(v, 35)
            for v in (g.ev(t) for g in GENERIC)
        )
    return t._fp


_PIECEWISE = {"ite", "max", "min", "abs", "floor", "ceil", "trunc", "round", "single", "lt", "eq", "batom"}


def _pieces(t):
    """what the piecewise operators below t are applied to"""
    if t._pw is not None:
        return t._pw
    stack = [t]
    while stack:
        x = stack[-1]
        if x._pw is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a._pw is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        out = frozenset()
        for a in x.args:
            if isinstance(a, T) and a._pw:
                out = out | a._pw if out else a._pw
        if x.op in _PIECEWISE:
            if x.op == "batom":
                own = ("batom", x.args[0])
            elif x.op in ("lt", "eq"):
                d = sub(*x.args)
                own = ("cmp",) + tuple(sorted((repr(_base(d)), repr(_base(neg(d))))))
            elif x.op == "ite":
                own = ("ite",) + tuple(sorted(repr(_base(a)) for a in x.args[1:]))
            elif x.op in ("max", "min"):
                own = ("max",) + tuple(sorted(repr(_base(a)) for a in x.args))
            else:
                own = (x.op,) + tuple(sorted((repr(_base(x.args[0])), repr(_base(neg(x.args[0]))))))
            out = out | {own}
        x._pw = out
    return t._pw


def fp(t):
    """value number of the term: its values at the generic points, and, as
    those points all lie on one piece of a piecewise operator, what the
    piecewise operators in it are applied to"""
    pw = _pieces(t)
    return (_base(t), pw) if pw else _base(t)


def uninterpreted(t, known, seen=None):
    """names of uninterpreted functions below t"""
    seen = set() if seen is None else seen
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op not in known:
            out.add(x.op)
        stack.extend(a for a in x.args if isinstance(a, T))
    return out


BUILTIN_OPS = {
    "const", "atom", "batom", "special", "btrue", "bfalse", "ite", "and", "add", "neg",
    "mul", "div", "sqrt", "pow", "abs", "floor", "ceil", "trunc", "round", "exp", "log",
    "cos", "sin", "tan", "max", "min", "lt", "eq", "not", "single",
}


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    op = t.op
    if op == "const":
        f = t.args[0]
        if f.denominator.bit_length() + f.numerator.bit_length() > 400:
            return mp.nstr(mpf(f.numerator) / f.denominator, 20)
        return str(f.numerator) if f.denominator == 1 else "%s/%s" % (f.numerator, f.denominator)
    if op in ("atom", "batom", "special"):
        return str(t.args[0])
    if op in ("btrue", "bfalse"):
        return op[1:].capitalize()
    if depth == 0:
        return "…"
    a = [show(x, depth - 1) for x in t.args]
    sym = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "eq": " == ", "and": " and "}
    if op in sym:
        return "(" + sym[op].join(a) + ")"
    if op == "neg":
        return "-" + a[0]
    if op == "not":
        return "not " + a[0]
    return "%s(%s)" % (op, ", ".join(a))
