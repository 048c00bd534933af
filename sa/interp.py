"""Abstract interpreter for the Python sources under /repo/src.

The sources are parsed with `ast`; nothing of the repository is imported or run.
Every float of the program is an algebraic value number (sa.terms.T), every
numpy array is an `Arr` whose cells are value numbers and whose views share
storage exactly as numpy's do, objects and containers are modelled one to one.
Branches on abstract conditions go to the trace partitioner (sa.explore).
"""
from __future__ import annotations

import ast
import operator
import os
import threading
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T


class Unmodelled(Exception):
    """the analysis has no transfer function for a construct: no verdict"""


class AbsRaise(Exception):
    def __init__(self, value, site=None):
        super().__init__(getattr(getattr(value, "cls", None), "name", str(value)))
        self.value = value
        self.site = site


class Stop(Exception):
    """partition abandoned (covered elsewhere / bound reached)"""


RET, BRK, CNT = "ret", "brk", "cnt"


# ---------------------------------------------------------------- value kinds
class Arr:
    """numpy array of value numbers; `data` is an object ndarray (views share)"""

    __slots__ = ("data", "dt")

    def __init__(self, data, dt="f"):
        self.data = data
        self.dt = dt

    def __repr__(self):
        return "Arr%s" % (self.data.tolist(),)


class Obj:
    __slots__ = ("cls", "d", "native")

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.native = None

    def __repr__(self):
        if self.cls.is_enum and "name" in self.d:
            return "%s.%s" % (self.cls.name, self.d["name"])
        return "<%s object>" % self.cls.name


class Class:
    def __init__(self, name, bases, d, module=None, node=None):
        self.name, self.bases, self.d, self.module, self.node = name, bases, d, module, node
        self.mro = c3(self)
        self.is_enum = any(getattr(b, "is_enum", False) for b in bases)
        self.is_exc = any(getattr(b, "is_exc", False) for b in bases)
        self.int_enum = any(getattr(b, "int_enum", False) for b in bases)
        self.members = None
        self.slots_only = False

    def find(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unmodelled("inconsistent MRO for %s" % cls.name)
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                del s[0]


class Func:
    __slots__ = ("name", "node", "frame", "defaults", "kwdefaults", "module", "owner", "is_gen", "d", "locals_")

    def __init__(self, name, node, frame, defaults, kwdefaults, module):
        self.name, self.node, self.frame = name, node, frame
        self.defaults, self.kwdefaults, self.module = defaults, kwdefaults, module
        self.owner = None
        self.is_gen = False
        self.d = {}

    def __repr__(self):
        return "<function %s>" % self.qual()

    def qual(self):
        return (self.owner.name + "." if self.owner else "") + self.name


class Bound:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return "<bound %r>" % (self.fn,)


class H:
    """host-implemented function"""

    __slots__ = ("fn", "name", "d")

    def __init__(self, fn, name=None):
        self.fn = fn
        self.name = name or getattr(fn, "__name__", "?")
        self.d = {}

    def __repr__(self):
        return "<builtin %s>" % self.name


class BType:
    """builtin type"""

    def __init__(self, name, call, test):
        self.name, self.call, self.test = name, call, test
        self.attrs = {}

    def __repr__(self):
        return "<type %s>" % self.name


class Property:
    def __init__(self, fget=None, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached
        self.name = getattr(fget, "name", None)


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Module:
    def __init__(self, name, path=None):
        self.name, self.path, self.d = name, path, {}
        self.attr_hook = None

    def __repr__(self):
        return "<module %s>" % self.name


class Typing:
    """anything from typing/abc that carries no runtime behaviour"""

    def __init__(self, name):
        self.name = name
        self.mro = [self]
        self.d = {}
        self.bases = []

    def __repr__(self):
        return "typing.%s" % self.name


class UnionT:
    def __init__(self, parts):
        self.parts = parts


class HostObj:
    """stub object supplied by a check; methods live in python as m_<name>"""

    def __init__(self):
        self.attrs = {}


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymRange:
    """range whose end is an abstract integer"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Gen:
    """lazily evaluated generator function (own host thread, strict handoff)"""

    def __init__(self, interp, run):
        self.interp = interp
        self.run = run
        self.started = False
        self.done = False
        self.ev_go = threading.Semaphore(0)
        self.ev_back = threading.Semaphore(0)
        self.out = None
        self.exc = None
        self.closed = False
        self.thrown = None
        self.sent = None
        self.value = None

    def __iter__(self):
        return self

    def _body(self):
        self.ev_go.acquire()
        if self.closed:
            return
        try:
            self.value = self.run(self._yield)
        except GeneratorExit:
            pass
        except BaseException as e:  # noqa
            self.exc = e
        self.done = True
        self.ev_back.release()

    def _yield(self, v):
        self.out = v
        self.ev_back.release()
        self.ev_go.acquire()
        if self.closed:
            raise GeneratorExit
        if self.thrown is not None:
            e, self.thrown = self.thrown, None
            raise e
        v, self.sent = self.sent, None
        return v

    def throw(self, e):
        if self.done or not self.started:
            self.done = True
            raise e
        self.thrown = e
        return self.__next__()

    def send(self, v):
        self.sent = v
        return self.__next__()

    def __next__(self):
        if self.done:
            raise StopIteration
        if not self.started:
            self.started = True
            th = threading.Thread(target=self._body, daemon=True)
            th.start()
            self.interp.gens.append(self)
        saved = list(self.interp.stack)
        self.ev_go.release()
        self.ev_back.acquire()
        self.interp.stack[:] = saved
        if self.done:
            if self.exc is not None:
                e, self.exc = self.exc, None
                raise e
            raise StopIteration
        return self.out

    def close(self):
        if self.started and not self.done:
            self.closed = True
            self.ev_go.release()


class Frame:
    __slots__ = ("loc", "parent", "mod", "fn", "glob", "nonloc", "is_class", "node", "yielder", "self_")

    def __init__(self, loc, parent, mod, fn=None, is_class=False):
        self.loc, self.parent, self.mod, self.fn = loc, parent, mod, fn
        self.glob = self.nonloc = ()
        self.is_class = is_class
        self.node = None
        self.yielder = None
        self.self_ = None


_parse_cache = {}


def parse(path):
    key = (path, os.stat(path).st_mtime_ns, os.stat(path).st_size)
    if key not in _parse_cache:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        _parse_cache[key] = ast.parse(src, path)
    return _parse_cache[key]


def has_yield(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or",
    ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
}
CMPOPS = {
    ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne",
}
SWAP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


class Interp:
    def __init__(self, src_root, run, max_steps=4_000_000):
        self.src = src_root
        self.run = run  # partition: decide(), choose()
        self.modules = {}
        self.stack = []
        self.entered = set()
        self.calls = 0
        self.steps = 0
        self.max_steps = max_steps
        self.gens = []
        self.exit_sites = []
        from . import npmodel

        self.np = npmodel.NP(self)
        self.builtins = npmodel.make_builtins(self)
        self.ext = npmodel.make_modules(self)
        self.hooks = {}
        self.widen = None

    # ------------------------------------------------------------ utilities
    def site(self, node=None):
        for fr in reversed(self.stack):
            n = node if node is not None and fr is self.stack[-1] else fr.node
            fn = fr.fn.qual() if fr.fn else "<module>"
            path = fr.mod.path or fr.mod.name
            return (os.path.relpath(path, os.path.dirname(self.src)) if path.startswith("/") else path,
                    fn, getattr(n, "lineno", 0))
        return ("?", "?", 0)

    def exc(self, name, *args):
        cls = self.builtins[name]
        o = Obj(cls)
        o.d["args"] = tuple(args)
        return AbsRaise(o, self.site())

    def close(self):
        for g in self.gens:
            g.close()
        self.gens = []

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        for cand in (os.path.join(self.src, rel + ".py"), os.path.join(self.src, rel, "__init__.py")):
            if os.path.exists(cand):
                return self.load(name, cand)
        if os.path.isdir(os.path.join(self.src, rel)):
            m = Module(name, os.path.join(self.src, rel))
            self.modules[name] = m
            return m
        return None

    def load(self, name, path):
        m = Module(name, path)
        self.modules[name] = m
        m.d["__name__"] = name
        m.d["__file__"] = path
        m.d["__doc__"] = None
        tree = parse(path)
        fr = Frame(m.d, None, m)
        self.stack.append(fr)
        try:
            r = self.block(tree.body, fr)
        finally:
            self.stack.pop()
        return m

    def is_pkg(self, m):
        return bool(m.path) and m.path.endswith("__init__.py")

    def resolve_import(self, name, fr, level):
        if level:
            base = fr.mod.name.split(".")
            if not self.is_pkg(fr.mod):
                base = base[:-1]
            base = base[: len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        return name

    def import_name(self, name):
        """module object for a dotted name"""
        if name in self.ext:
            return self.ext[name]
        m = self.module(name)
        if m is None:
            parts = name.split(".")
            if parts[0] in self.ext:
                o = self.ext[parts[0]]
                for p in parts[1:]:
                    o = self.getattr_(o, p)
                return o
            return None
        return m

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            r = self.stmt(st, fr)
            if r is not None:
                return r
        return None

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unmodelled("step bound exceeded at %s" % (self.site(st),))
        fr.node = st
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unmodelled("statement %s at %s" % (type(st).__name__, self.site(st)))
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        return None

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)
        elif fr.is_class and isinstance(st.target, ast.Name):
            fr.loc.setdefault("__annotations__", {})[st.target.id] = None
        if st.value is not None and fr.is_class and isinstance(st.target, ast.Name):
            fr.loc.setdefault("__annotations__", {})[st.target.id] = st.annotation

    def s_AugAssign(self, st, fr):
        t = st.target
        op = BINOPS[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.bind(t.id, self.inplace(op, cur, self.eval(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.inplace(op, cur, self.eval(st.value, fr)))
        else:
            raise Unmodelled("augmented target")

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr), st.test):
            return self.block(st.body, fr)
        return self.block(st.orelse, fr)

    def s_While(self, st, fr):
        n = 0
        loop = self.run.loop_enter(self, st, fr) if self.run else None
        while True:
            if loop is not None:
                loop.head(n)
            if not self.truth(self.eval(st.test, fr), st.test):
                return self.block(st.orelse, fr)
            n += 1
            r = self.block(st.body, fr)
            if r is not None:
                if r[0] == BRK:
                    return None
                if r[0] == RET:
                    return r

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        if isinstance(it, SymRange):
            return self.for_sym(st, fr, it)
        own = isinstance(it, Obj) and self.run is not None
        it = self.iter_(it)
        # a user-defined iterator may count up to an abstract bound: same widening as a while loop
        loop, n = (self.run.loop_enter(self, st, fr) if own else None), 0
        while True:
            if loop is not None:
                loop.head(n)
                n += 1
            try:
                v = next(it)
            except StopIteration:
                break
            self.assign(st.target, v, fr)
            r = self.block(st.body, fr)
            if r is not None:
                if r[0] == BRK:
                    return None
                if r[0] == RET:
                    return r
        return self.block(st.orelse, fr)

    def for_sym(self, st, fr, rng):
        loop = self.run.loop_enter(self, st, fr)
        n = 0
        loop.cursor = rng.start
        while True:
            loop.head(n)
            k = loop.cursor
            c = self.compare("lt", k, rng.stop)
            if not self.truth(c, st.iter):
                return self.block(st.orelse, fr)
            self.assign(st.target, k, fr)
            loop.cursor = self.binop("add", k, rng.step)
            n += 1
            r = self.block(st.body, fr)
            if r is not None:
                if r[0] == BRK:
                    return None
                if r[0] == RET:
                    return r

    def s_Break(self, st, fr):
        return (BRK,)

    def s_Continue(self, st, fr):
        return (CNT,)

    def s_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else None
        self.exit_sites.append(self.site(st))
        return (RET, v)

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, st.name, fr)
        for d in reversed(st.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.bind(st.name, f, fr)

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.eval(b, fr)
            if isinstance(v, (Class, Typing)):
                bases.append(v)
            elif isinstance(v, BType) and v.name == "object":
                continue
            else:
                raise Unmodelled("base class %r of %s" % (v, st.name))
        real = [b for b in bases if isinstance(b, Class)]
        loc = {"__module__": fr.mod.name, "__qualname__": st.name}
        cf = Frame(loc, fr, fr.mod, None, True)
        self.stack.append(cf)
        try:
            self.block(st.body, cf)
        finally:
            self.stack.pop()
        cls = Class(st.name, real, loc, fr.mod, st)
        for v in loc.values():
            f = v
            while isinstance(f, (Static, ClassM)):
                f = f.fn
            if isinstance(f, Property):
                for g in (f.fget, f.fset):
                    if isinstance(g, Func) and g.owner is None:
                        g.owner = cls
            if isinstance(f, Func) and f.owner is None:
                f.owner = cls
        for nm, v in list(loc.items()):
            if isinstance(v, Property) and v.cached:
                v.name = nm
        if any(getattr(b, "name", "") == "NamedTuple" for b in bases):
            return self.bind(st.name, self.make_namedtuple(st.name, loc), fr)
        if cls.is_enum:
            cls.members = {}
            auto = 0
            for nm, v in list(loc.items()):
                if nm.startswith("_") or isinstance(v, (Func, H, Static, ClassM, Property)):
                    continue
                if v is self.ext["enum"].d["auto"] or getattr(v, "is_auto", False):
                    auto += 1
                    v = auto
                elif isinstance(v, int):
                    auto = v
                for m in cls.members.values():
                    if m.d["value"] == v and type(m.d["value"]) is type(v):
                        loc[nm] = m
                        break
                else:
                    o = Obj(cls)
                    o.d["name"], o.d["value"], o.d["_value_"] = nm, v, v
                    cls.members[nm] = o
                    loc[nm] = o
        out = cls
        for d in reversed(st.decorator_list):
            out = self.call(self.eval(d, fr), [out], {})
        for b in real:
            hook, _ = b.find("__init_subclass__")
            if hook is not None:
                self.call(hook.fn if isinstance(hook, ClassM) else hook, [cls], {})
        self.bind(st.name, out, fr)

    def make_namedtuple(self, name, loc):
        from . import npmodel

        fields = list(loc.get("__annotations__", {}))
        extra = {k: v for k, v in loc.items() if k not in fields and not (k.startswith("__") and k.endswith("__"))}
        return npmodel.namedtuple_type(self, name, fields, {k: loc[k] for k in fields if k in loc}, extra)

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.import_name(a.name)
            if m is None:
                raise self.exc("ModuleNotFoundError", "No module named %r" % a.name)
            if a.asname:
                self.bind(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.import_name(top), fr)
                if top not in self.ext:
                    parent = self.import_name(top)
                    for p in a.name.split(".")[1:]:
                        parent = parent.d.setdefault(p, self.import_name(parent.name + "." + p))

    def s_ImportFrom(self, st, fr):
        name = self.resolve_import(st.module, fr, st.level)
        if name == "__future__":
            return
        if name in self.ext:
            m = self.ext[name]
        else:
            m = self.import_name(name)
        if m is None:
            raise self.exc("ModuleNotFoundError", "No module named %r" % name)
        for a in st.names:
            if a.name == "*":
                names = m.d.get("__all__") or [k for k in m.d if not k.startswith("_")]
                for n in names:
                    self.bind(n, m.d[n], fr)
                continue
            try:
                v = self.getattr_(m, a.name)
            except AbsRaise:
                v = self.import_name(name + "." + a.name) if isinstance(m, Module) and m.path else None
                if v is None:
                    raise self.exc("ImportError", "cannot import name %r from %r" % (a.name, name))
            self.bind(a.asname or a.name, v, fr)

    def s_Global(self, st, fr):
        fr.glob = tuple(fr.glob) + tuple(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonloc = tuple(fr.nonloc) + tuple(st.names)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr), st.test):
            args = [self.eval(st.msg, fr)] if st.msg is not None else []
            raise self.exc("AssertionError", *args)

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, "handling", None)
            if not cur:
                raise self.exc("RuntimeError", "No active exception to reraise")
            raise AbsRaise(cur[-1], self.site(st))
        v = self.eval(st.exc, fr)
        if isinstance(v, Class):
            v = self.call(v, [], {})
        if st.cause is not None:
            self.eval(st.cause, fr)
        raise AbsRaise(v, self.site(st))

    def s_Try(self, st, fr):
        depth = len(self.stack)
        try:
            try:
                r = self.block(st.body, fr)
            except AbsRaise as e:
                del self.stack[depth:]
                for h in st.handlers:
                    if h.type is None or self.isinstance_(e.value, self.eval(h.type, fr)):
                        if h.name:
                            self.bind(h.name, e.value, fr)
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(e.value)
                        try:
                            r = self.block(h.body, fr)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.block(st.orelse, fr)
        except (AbsRaise,):
            if st.finalbody:
                r2 = self.block(st.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if st.finalbody:
            r2 = self.block(st.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    s_TryStar = s_Try

    def s_With(self, st, fr):
        return self._with(st.items, st, fr)

    def _with(self, items, st, fr):
        if not items:
            return self.block(st.body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        v = self.call(self.getattr_(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self._with(items[1:], st, fr)
        except AbsRaise as e:
            sup = self.call(self.getattr_(cm, "__exit__"), [e.value.cls, e.value, None], {})
            if self.truth(sup):
                return None
            raise
        self.call(self.getattr_(cm, "__exit__"), [None, None, None], {})
        return r

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.loc.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                o.d.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                ix = self.index(t.slice, fr)
                try:
                    del o[ix]
                except (KeyError, IndexError) as e:
                    raise self.exc(type(e).__name__, str(e))

    def s_Match(self, st, fr):
        v = self.eval(st.subject, fr)
        for c in st.cases:
            binds = {}
            if self.pattern(c.pattern, v, fr, binds):
                for k, x in binds.items():
                    self.bind(k, x, fr)
                if c.guard is None or self.truth(self.eval(c.guard, fr), c.guard):
                    return self.block(c.body, fr)
        return None

    def pattern(self, p, v, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("eq", v, self.eval(p.value, fr)), p)
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, fr, binds) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(
                    self.pattern(q, x, fr, binds) for q, x in zip(p.patterns, v)
                )
            i = star[0]
            tail = len(p.patterns) - i - 1
            if len(v) < i + tail:
                return False
            ok = all(self.pattern(q, x, fr, binds) for q, x in zip(p.patterns[:i], v[:i]))
            if ok and p.patterns[i].name:
                binds[p.patterns[i].name] = list(v[i: len(v) - tail])
            return ok and all(
                self.pattern(q, x, fr, binds) for q, x in zip(p.patterns[i + 1:], v[len(v) - tail:])
            )
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            if not self.isinstance_(v, cls):
                return False
            if p.patterns:
                if isinstance(cls, BType) and len(p.patterns) == 1:
                    if not self.pattern(p.patterns[0], v, fr, binds):
                        return False
                else:
                    raise Unmodelled("class pattern")
            return all(
                self.pattern(q, self.getattr_(v, n), fr, binds)
                for n, q in zip(p.kwd_attrs, p.kwd_patterns)
            )
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.hashable(self.eval(k, fr))
                if kv not in v or not self.pattern(q, v[kv], fr, binds):
                    return False
                used.append(kv)
            if p.rest:
                binds[p.rest] = {k: x for k, x in v.items() if k not in used}
            return True
        raise Unmodelled("pattern %s" % type(p).__name__)

    # ------------------------------------------------------------ names
    def bind(self, name, v, fr):
        if name in fr.glob:
            fr.mod.d[name] = v
        elif name in fr.nonloc:
            p = fr.parent
            while p is not None:
                if name in p.loc and not p.is_class:
                    p.loc[name] = v
                    return
                p = p.parent
        else:
            fr.loc[name] = v

    def name(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if (first or not f.is_class) and name in f.loc and name not in f.glob:
                return f.loc[name]
            first = False
            f = f.parent
        if name in fr.mod.d:
            return fr.mod.d[name]
        if name in self.builtins:
            return self.builtins[name]
        if name == "__name__":
            return fr.mod.name
        if fr.fn is not None and name in getattr(fr.fn, "locals_", ()):
            raise self.exc("UnboundLocalError", name)
        raise self.exc("NameError", "name %r is not defined" % name)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter_(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(vs) < i + tail:
                    raise self.exc("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, vs[i: len(vs) - tail], fr)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - tail:]):
                    self.assign(e, x, fr)
            else:
                if len(vs) != len(t.elts):
                    raise self.exc("ValueError", "cannot unpack %d values into %d targets" % (len(vs), len(t.elts)))
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iter_(v)), fr)
        else:
            raise Unmodelled("assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unmodelled("expression %s at %s" % (type(e).__name__, self.site()))
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return tm.const(v)
        return v

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.as_index(self.eval(x, fr))
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def as_index(self, v):
        if isinstance(v, T):
            c = self.concrete_int(v)
            return c
        return v

    def concrete_int(self, v):
        """native int for an integer value number (splitting it when abstract)"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, T):
            if v.op == "const" and v.args[0].denominator == 1:
                return int(v.args[0])
            return self.run.concretize(v, self.site())
        if isinstance(v, Arr) and v.data.size == 1:
            return self.concrete_int(v.data.reshape(-1)[0])
        if v is None:
            return None
        raise self.exc("TypeError", "not an integer: %r" % (v,))

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(BINOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T) and v.typ == "b":
                return self.b_(tm.bnot(v))
            return not self.truth(v, e.operand)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr):
                return self.np.unary(v, lambda x: tm.bnot(self.bt(x)), "b")
            if isinstance(v, T) and v.typ == "b":
                return self.b_(tm.bnot(v))
            if isinstance(v, int):
                return ~v
        raise Unmodelled("unary operator at %s" % (self.site(),))

    def neg(self, v):
        if isinstance(v, Arr):
            return self.np.unary(v, neg_cell)
        if isinstance(v, T):
            return tm.neg(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find("__neg__")
            if f is not None:
                return self.call(f, [v], {})
        try:
            return -v
        except TypeError as ex:
            raise self.exc("TypeError", str(ex))

    def b_(self, t):
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        return t

    def bt(self, v):
        """boolean term of a value"""
        if isinstance(v, bool):
            return tm.b(v)
        if isinstance(v, T):
            if v.typ == "b":
                return v
            return tm.bnot(tm.eq(v, tm.const(0)))
        if isinstance(v, int):
            return tm.b(v != 0)
        return tm.b(self.truth(v))

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, x)
            if isinstance(e.op, ast.And) and not t:
                return v if not (isinstance(v, T) and v.typ == "b") else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, T) and v.typ == "b") else True
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.cmp1(op, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v, e):
                return False
            left = right
        return v

    def cmp1(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return self.b_(tm.bnot(r)) if isinstance(r, T) else not r
        return self.compare(CMPOPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, T) and isinstance(b, bool) or isinstance(b, T) and isinstance(a, bool):
            t, c = (a, b) if isinstance(a, T) else (b, a)
            if t.typ == "b":
                return self.truth(t) == c
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return a is b or (type(a) is type(b) and isinstance(a, (int, str, bool)) and a == b)

    def contains(self, c, x):
        if isinstance(c, (list, tuple, set, frozenset)) or isinstance(c, Arr):
            for y in self.iter_(c):
                if self.is_(x, y):
                    return True
                if self.truth(self.compare("eq", x, y)):
                    return True
            return False
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, range):
            return self.concrete_int(x) in c
        if isinstance(c, str):
            return x in c
        if isinstance(c, Obj):
            f, _ = c.cls.find("__contains__")
            if f is not None:
                return self.truth(self.call(f, [c, x], {}))
        return any(self.truth(self.compare("eq", x, y)) for y in self.iter_(c))

    def hashable(self, x):
        if isinstance(x, T) and x.op == "const" and x.args[0].denominator == 1:
            return int(x.args[0])
        if isinstance(x, (list, dict, set, Arr)):
            raise self.exc("TypeError", "unhashable type")
        return x

    def compare(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                pass
            return self.np.compare(op, a, b)
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            if isinstance(x, Obj):
                if x.cls.int_enum and not isinstance(y, str):
                    return self.compare(op, self.enum_int(a), self.enum_int(b))
                f, _ = x.cls.find("__%s__" % o)
                if f is not None:
                    return self.call(f, [x, y], {})
                if o == "ne":
                    f, _ = x.cls.find("__eq__")
                    if f is not None:
                        r = self.call(f, [x, y], {})
                        return self.b_(tm.bnot(r)) if isinstance(r, T) else not self.truth(r)
                if "__dataclass_fields__" in x.cls.d and op in ("eq", "ne") and isinstance(y, Obj):
                    r = x.cls is y.cls and all(
                        self.truth(self.compare("eq", x.d.get(k), y.d.get(k)))
                        for k in x.cls.d["__dataclass_fields__"]
                    )
                    return r if op == "eq" else not r
            elif isinstance(x, HostObj) and hasattr(x, "cmp"):
                return x.cmp(o, y)
        if op in ("eq", "ne"):
            r = self.equal(a, b)
            if op == "ne":
                return self.b_(tm.bnot(r)) if isinstance(r, T) else not r
            return r
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if not self.truth(self.compare("eq", x, y)):
                    return self.compare(op, x, y)
            return self.compare(op, len(a), len(b))
        if isinstance(a, T) or isinstance(b, T):
            if not (tm.num_like(a) and tm.num_like(b)):
                if isinstance(a, T) and isinstance(b, bool):
                    b = int(b)
                else:
                    raise self.exc("TypeError", "'%s' not supported between %s and %s" % (op, self.tn(a), self.tn(b)))
            a, b = self.numt(a), self.numt(b)
            r = {"lt": tm.lt, "le": tm.le, "gt": lambda p, q: tm.lt(q, p), "ge": lambda p, q: tm.le(q, p)}[op](a, b)
            return self.b_(r)
        try:
            return {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op](a, b)
        except TypeError as ex:
            raise self.exc("TypeError", str(ex))

    def tn(self, v):
        return getattr(self.type_of(v), "name", "?")

    def numt(self, a):
        if isinstance(a, T) and a.typ == "b":
            return tm.ite(a, tm.const(1), tm.const(0))
        return tm.L(a)

    def enum_int(self, v):
        return v.d["value"] if isinstance(v, Obj) and v.cls.int_enum else v

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) and isinstance(b, (T, int)) or isinstance(b, T) and isinstance(a, (T, int)):
            if isinstance(a, T) and a.typ == "b" and isinstance(b, bool):
                return self.b_(a if b else tm.bnot(a))
            if isinstance(b, T) and b.typ == "b" and isinstance(a, bool):
                return self.b_(b if a else tm.bnot(b))
            if isinstance(a, T) and isinstance(b, T) and a.typ == b.typ == "b":
                return self.truth(a) == self.truth(b)
            return self.b_(tm.eq(self.numt(a), self.numt(b)))
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.truth(self.compare("eq", x, y)) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(self.truth(self.compare("eq", a[k], b[k])) for k in a)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        if isinstance(a, T) or isinstance(b, T):
            return False
        if type(a).__name__ == "DType" or type(b).__name__ == "DType":
            return self.np.same_dtype(a, b)
        try:
            r = a == b
        except Exception as ex:  # noqa
            raise Unmodelled("comparison %r" % ex)
        return bool(r) if isinstance(r, (bool, np.bool_)) else False

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr), e.test) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while getattr(f, "self_", None) == "comp":
            f = f.parent
        self.bind(e.target.id, v, f)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.seq(e.elts, fr))

    def e_List(self, e, fr):
        return self.seq(e.elts, fr)

    def e_Set(self, e, fr):
        return {self.hashable(v) for v in self.seq(e.elts, fr)}

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.eval(v, fr))
            else:
                out[self.hashable(self.eval(k, fr))] = self.eval(v, fr)
        return out

    def e_Lambda(self, e, fr):
        return self.make_func(e, "<lambda>", fr)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, fr)
                if v.conversion == 114:
                    x = self.repr_(x)
                elif v.conversion == 115:
                    x = self.str_(x)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
                out.append(self.format_(x, spec))
        return "".join(out)

    def plain(self, x):
        """the Python value a string conversion sees, where it is known"""
        if isinstance(x, T) and x.op == "const":
            f = x.args[0]
            return int(f) if x.typ == "i" and f.denominator == 1 else float(f)
        if isinstance(x, T) and x.typ == "b" and (x is tm.TRUE or x is tm.FALSE):
            return x is tm.TRUE
        return x

    def repr_(self, x):
        p = self.plain(x)
        return repr(p) if isinstance(p, (int, float, str, type(None))) else self.str_(x)

    def format_(self, x, spec):
        p = self.plain(x)
        if isinstance(p, (int, float, str)):
            try:
                return format(p, spec)
            except (ValueError, TypeError) as ex:
                raise self.exc("ValueError", str(ex))
        return self.str_(x)

    def percent(self, a, b):
        xs = [self.plain(x) for x in b] if isinstance(b, tuple) else [self.plain(b)]
        if isinstance(b, dict):
            xs = [{k: self.plain(v) for k, v in b.items()}]
        if all(isinstance(x, (int, float, str, dict, type(None))) for x in xs):
            try:
                return a % (xs[0] if isinstance(b, dict) else tuple(xs))
            except (ValueError, TypeError) as ex:
                raise self.exc(type(ex).__name__, str(ex))
        return a

    def str_(self, x):
        if isinstance(x, Obj):
            if x.cls.is_exc:
                return " ".join(self.str_(a) for a in x.d.get("args", ()))
            f, _ = x.cls.find("__str__")
            if f is None:
                f, _ = x.cls.find("__repr__")
            if isinstance(f, Func):
                return self.call(f, [x], {})
        p = self.plain(x)
        return str(p) if isinstance(p, (int, float)) else str(x)

    def e_Starred(self, e, fr):
        raise Unmodelled("starred expression")

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def comp(self, gens, fr, leaf):
        """host generator running the comprehension lazily"""
        cf = Frame({}, fr, fr.mod, fr.fn)
        cf.self_ = "comp"
        cf.glob, cf.nonloc = fr.glob, fr.nonloc
        first = self.iter_(self.eval(gens[0].iter, fr))

        def rec(i):
            g = gens[i]
            it = first if i == 0 else self.iter_(self.eval(g.iter, cf))
            for v in it:
                self.assign(g.target, v, cf)
                if all(self.truth(self.eval(c, cf), c) for c in g.ifs):
                    if i + 1 < len(gens):
                        yield from rec(i + 1)
                    else:
                        yield leaf(cf)

        return rec(0)

    def e_ListComp(self, e, fr):
        return list(self.comp(e.generators, fr, lambda f: self.eval(e.elt, f)))

    def e_SetComp(self, e, fr):
        return set(self.comp(e.generators, fr, lambda f: self.hashable(self.eval(e.elt, f))))

    def e_GeneratorExp(self, e, fr):
        return self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))

    def e_DictComp(self, e, fr):
        return dict(
            self.comp(e.generators, fr, lambda f: (self.hashable(self.eval(e.key, f)), self.eval(e.value, f)))
        )

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f.yielder is None:
            f = f.parent
        return f.yielder(v)

    def e_YieldFrom(self, e, fr):
        f = fr
        while f.yielder is None:
            f = f.parent
        it = self.iter_(self.eval(e.value, fr))
        for v in it:
            f.yielder(v)
        return it.value if isinstance(it, Gen) else None

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.loc:
            return self.make_super(e, fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars", "eval", "exec") and e.func.id in self.builtins:
            if e.func.id == "vars" and e.args:
                return self.getattr_(self.eval(e.args[0], fr), "__dict__")
            if e.func.id == "locals":
                return dict(fr.loc)
            if e.func.id == "globals":
                return fr.mod.d
        f = self.eval(e.func, fr)
        args = self.seq(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        fr.node = e if hasattr(e, "lineno") else fr.node
        return self.call(f, args, kw)

    def make_super(self, e, fr):
        if e.args:
            c, o = [self.eval(a, fr) for a in e.args]
            return Super(c, o)
        f = fr
        while f.fn is None or f.fn.owner is None:
            f = f.parent
            if f is None:
                raise Unmodelled("super() outside a method")
        first = f.fn.node.args.args[0].arg
        return Super(f.fn.owner, f.loc[first])

    def make_func(self, node, name, fr):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = Func(name, node, fr, defaults, kwd, fr.mod)
        f.is_gen = has_yield(node)
        return f

    def call(self, f, args, kw=None):
        kw = kw or {}
        self.calls += 1
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, H):
            try:
                return f.fn(*args, **kw)
            except (AbsRaise, Unmodelled, Stop):
                raise
            except (IndexError, KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, AttributeError) as ex:
                if isinstance(ex, TypeError) and "abstract truth" in str(ex):
                    raise Unmodelled("%s at %s" % (ex, self.site()))
                if os.environ.get("SA_DEBUG"):
                    raise
                if isinstance(ex, (TypeError, AttributeError)):
                    raise Unmodelled("%s: %s in %r at %s" % (type(ex).__name__, ex, f, self.site()))
                raise self.exc(type(ex).__name__, str(ex))
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, BType):
            return f.call(*args, **kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, Obj):
            c, _ = f.cls.find("__call__")
            if c is not None:
                return self.call(c, [f] + list(args), kw)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw)
        if isinstance(f, Typing):
            if f.name in ("cast",):
                return args[1]
            return args[0] if f.name in ("final", "overload", "runtime_checkable", "abstractmethod") and args else f
        if isinstance(f, HostObj) and hasattr(f, "call"):
            return f.call(*args, **kw)
        raise self.exc("TypeError", "%r is not callable" % (f,))

    def bind_args(self, f, args, kw):
        a = f.node.args
        loc = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        n = len(args)
        if n > len(pos) and a.vararg is None:
            raise self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), n))
        for p, v in zip(pos, args):
            loc[p] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        ponly = {p.arg for p in a.posonlyargs}
        for p in pos[n:]:
            if p in kw and p not in ponly:
                loc[p] = kw.pop(p)
        for p in pos[:n]:
            if p in kw and p not in ponly:
                raise self.exc("TypeError", "%s() got multiple values for argument %r" % (f.name, p))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.exc("TypeError", "%s() missing argument %r" % (f.name, p))
                loc[p] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg in kw:
                loc[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                loc[p.arg] = f.kwdefaults[p.arg]
            else:
                raise self.exc("TypeError", "%s() missing keyword argument %r" % (f.name, p.arg))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kw
        elif kw:
            raise self.exc("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, next(iter(kw))))
        return loc

    def call_func(self, f, args, kw):
        loc = self.bind_args(f, args, kw)
        fr = Frame(loc, f.frame, f.module, f)
        if f.frame is not None and f.frame.parent is None and f.frame.loc is f.module.d:
            fr.parent = None
        self.entered.add((f.module.name, f.qual(), f.node.lineno))
        if len(self.stack) > 150:
            raise self.exc("RecursionError", "maximum recursion depth exceeded")
        if f.is_gen:
            def run(yielder):
                fr.yielder = yielder
                self.stack.append(fr)
                s = self.block(f.node.body, fr)
                return s[1] if s is not None and s[0] == RET else None

            return Gen(self, run)
        hook = self.hooks.get((f.module.name, f.qual()))
        self.stack.append(fr)
        depth = len(self.stack)
        try:
            if isinstance(f.node, ast.Lambda):
                fr.node = f.node
                r = self.eval(f.node.body, fr)
            else:
                s = self.block(f.node.body, fr)
                r = s[1] if s is not None and s[0] == RET else None
        finally:
            del self.stack[depth - 1:]
        if hook is not None:
            hook(f, loc, r)
        return r

    def instantiate(self, cls, args, kw):
        if cls.is_enum:
            if not args:
                raise self.exc("TypeError", "enum call")
            for m in cls.members.values():
                v = args[0]
                if m is v or self.truth(self.compare("eq", m.d["value"], v)):
                    return m
            raise self.exc("ValueError", "%r is not a valid %s" % (args[0], cls.name))
        new, owner = cls.find("__new__")
        if new is not None:
            o = self.call(new.fn if isinstance(new, Static) else new, [cls] + list(args), kw)
            if not (isinstance(o, Obj) and cls in o.cls.mro):
                return o
        else:
            o = Obj(cls)
        self.check_abstract(cls)
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif cls.is_exc:
            o.d["args"] = tuple(args)
        elif args or kw:
            raise self.exc("TypeError", "%s() takes no arguments" % cls.name)
        if cls.is_exc and "args" not in o.d:
            o.d["args"] = tuple(args)
        return o

    def check_abstract(self, cls):
        if not any(getattr(b, "node", None) is not None and any(
                isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", None)) == "ABC"
                for x in b.node.bases) for b in cls.mro):
            return
        seen = set()
        for c in cls.mro:
            for nm, v in c.d.items():
                if nm in seen:
                    continue
                seen.add(nm)
                g = v
                while isinstance(g, (Static, ClassM)):
                    g = g.fn
                if isinstance(g, Property):
                    g = g.fget
                if isinstance(g, Func) and g.d.get("__isabstractmethod__"):
                    raise self.exc("TypeError", "Can't instantiate abstract class %s with abstract method %s" % (cls.name, nm))

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name):
        v = self.lookup(o, name)
        if v is MISSING:
            raise self.exc("AttributeError", "%s has no attribute %r" % (self.tn(o), name))
        return v

    def lookup(self, o, name):
        if isinstance(o, Obj):
            cv, _ = o.cls.find(name)
            if isinstance(cv, Property):
                if cv.cached:
                    if name not in o.d:
                        o.d[name] = self.call(cv.fget, [o], {})
                    return o.d[name]
                return self.call(cv.fget, [o], {})
            if name in o.d:
                return o.d[name]
            if cv is not None or any(name in c.d for c in o.cls.mro):
                return self.bind_method(cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.d
            g, _ = o.cls.find("__getattr__")
            if g is not None:
                return self.call(g, [o, name], {})
            if o.cls.is_exc and name == "with_traceback":
                return H(lambda *a: o)
            return MISSING
        if isinstance(o, Class):
            v, c = o.find(name)
            if v is not None or c is not None:
                if isinstance(v, Static):
                    return v.fn
                if isinstance(v, ClassM):
                    return Bound(v.fn, o)
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__members__" and o.members is not None:
                return dict(o.members)
            if name == "__doc__":
                return None
            if name == "__init__":
                return H(lambda *a, **k: None, "object.__init__")
            if name == "__new__":
                return H(lambda c, *a, **k: Obj(c), "object.__new__")
            if name == "__setattr__":
                return H(lambda ob, n, v: ob.d.__setitem__(n, v))
            if name == "__dict__":
                return o.d
            return MISSING
        if isinstance(o, Module):
            if name in o.d:
                return o.d[name]
            if o.attr_hook is not None:
                v = o.attr_hook(name)
                if v is not None:
                    return v
            if o.path:
                sub = self.modules.get(o.name + "." + name)
                if sub is not None:
                    return sub
            if not o.path:
                raise Unmodelled("%s.%s at %s" % (o.name, name, self.site()))
            return MISSING
        if isinstance(o, Super):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.d:
                    v = c.d[name]
                    if isinstance(v, Property):
                        return self.call(v.fget, [o.obj], {})
                    return self.bind_method(v, o.obj, o.obj.cls if isinstance(o.obj, Obj) else o.obj)
            if name == "__init__":
                if isinstance(o.obj, Obj) and o.obj.cls.is_exc:
                    return H(lambda *a: o.obj.d.__setitem__("args", tuple(a)))
                return H(lambda *a, **k: None)
            if name == "__new__":
                return H(lambda c, *a, **k: Obj(c))
            if name == "__setattr__":
                return H(lambda n, v: o.obj.d.__setitem__(n, v))
            if name == "__init_subclass__":
                return H(lambda *a, **k: None)
            return MISSING
        if isinstance(o, HostObj):
            m = getattr(o, "m_" + name, None)
            if m is not None:
                return H(m, type(o).__name__ + "." + name)
            if name in o.attrs:
                return o.attrs[name]
            return MISSING
        if isinstance(o, Arr):
            return self.np.attr(o, name)
        if isinstance(o, T):
            return self.np.scalar_attr(o, name)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return o.name if name == "__name__" else o.qual()
            if name == "__get__":
                return H(lambda ob, c=None: Bound(o, ob))
            if name == "__doc__":
                return None
            if name == "__wrapped__" and "__wrapped__" in o.d:
                return o.d["__wrapped__"]
            return o.d.get(name, MISSING)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return self.lookup(o.fn, name)
        if isinstance(o, (H, Partial)):
            if name in ("__name__", "__qualname__"):
                return getattr(o, "name", "partial")
            if isinstance(o, Partial):
                return {"func": o.fn, "args": tuple(o.args), "keywords": o.kw}.get(name, MISSING)
            return o.d.get(name, MISSING)
        if isinstance(o, BType):
            if name in ("__name__", "__qualname__"):
                return o.name
            return o.attrs.get(name, MISSING)
        if isinstance(o, Property):
            if name == "setter":
                return H(lambda f: Property(o.fget, f))
            if name == "getter":
                return H(lambda f: Property(f, o.fset))
            if name == "deleter":
                return H(lambda f: o)
        if isinstance(o, Typing):
            return Typing(o.name + "." + name)
        if isinstance(o, Gen) and name in ("close", "__next__", "send"):
            return H(o.close if name == "close" else self._gen_step(o, name))
        if name == "__next__" and hasattr(o, "__next__") and not isinstance(o, HostObj):
            return H(self._gen_step(o, name))
        return self.np.native_attr(o, name)

    def _gen_step(self, o, name):
        def step(*a):
            try:
                return o.send(a[0]) if name == "send" else next(o)
            except StopIteration:
                raise self.exc("StopIteration")

        return step

    def bind_method(self, v, o, cls):
        if isinstance(v, (Func, H)):
            return Bound(v, o)
        if isinstance(v, Static):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, cls)
        if isinstance(v, Partial) and False:
            return v
        return v

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            cv, _ = o.cls.find(name)
            if isinstance(cv, Property) and not cv.cached:
                if cv.fset is None:
                    raise self.exc("AttributeError", "can't set attribute %r" % name)
                self.call(cv.fset, [o, v], {})
                return
            s, _ = o.cls.find("__setattr__")
            if s is not None:
                self.call(s, [o, name, v], {})
                return
            if o.cls.d.get("__frozen__"):
                raise self.exc("AttributeError", "cannot assign to field %r" % name)
            o.d[name] = v
        elif isinstance(o, (Class, Module)):
            o.d[name] = v
        elif isinstance(o, (Func, H)):
            o.d[name] = v
        elif isinstance(o, HostObj):
            o.setattr(name, v) if hasattr(o, "setattr") else o.attrs.__setitem__(name, v)
        elif isinstance(o, Arr):
            self.np.set_attr(o, name, v)
        else:
            raise self.exc("AttributeError", "can't set %r on %s" % (name, self.tn(o)))

    # ------------------------------------------------------------ items
    def getitem(self, o, ix):
        if isinstance(o, Arr):
            return self.np.getitem(o, ix)
        if isinstance(o, dict):
            k = self.hashable(ix)
            if k in o:
                return o[k]
            if hasattr(o, "__missing__"):
                return o[k]
            raise self.exc("KeyError", ix)
        if isinstance(o, (list, tuple, str, range, bytes)):
            if isinstance(ix, slice):
                ix = slice(*[None if x is None else self.concrete_int(x) for x in (ix.start, ix.stop, ix.step)])
                return o[ix]
            if isinstance(ix, (str, tuple)) or ix is None:
                raise self.exc("TypeError", "indices must be integers")
            i = self.concrete_int(ix)
            try:
                return o[i]
            except IndexError as ex:
                raise self.exc("IndexError", str(ex))
        if isinstance(o, Obj):
            f, _ = o.cls.find("__getitem__")
            if f is not None:
                return self.call(f, [o, ix], {})
            raise self.exc("TypeError", "%s is not subscriptable" % o.cls.name)
        if isinstance(o, Class):
            if o.members is not None and isinstance(ix, str):
                if ix in o.members:
                    return o.members[ix]
                raise self.exc("KeyError", ix)
            f, _ = o.find("__class_getitem__")
            if f is not None:
                return self.call(f.fn if isinstance(f, ClassM) else f, [o, ix], {})
            return o
        if isinstance(o, (Typing, BType)):
            return o
        if isinstance(o, HostObj) and hasattr(o, "getitem"):
            return o.getitem(ix)
        if isinstance(o, T) or o is None or isinstance(o, int):
            raise self.exc("TypeError", "%s object is not subscriptable" % self.tn(o))
        raise Unmodelled("subscript of %r" % (o,))

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            self.np.setitem(o, ix, v)
        elif isinstance(o, dict):
            o[self.hashable(ix)] = v
        elif isinstance(o, list):
            if isinstance(ix, slice):
                ix = slice(*[None if x is None else self.concrete_int(x) for x in (ix.start, ix.stop, ix.step)])
                o[ix] = list(self.iter_(v))
            else:
                try:
                    o[self.concrete_int(ix)] = v
                except IndexError as ex:
                    raise self.exc("IndexError", str(ex))
        elif isinstance(o, Obj):
            f, _ = o.cls.find("__setitem__")
            if f is None:
                raise self.exc("TypeError", "%s does not support item assignment" % o.cls.name)
            self.call(f, [o, ix, v], {})
        elif isinstance(o, HostObj) and hasattr(o, "setitem"):
            o.setitem(ix, v)
        else:
            raise self.exc("TypeError", "%s does not support item assignment" % self.tn(o))

    def iter_(self, v):
        if isinstance(v, (list, tuple, range, str, dict, set, frozenset)):
            return iter(v)
        if isinstance(v, Arr):
            return self.np.iterate(v)
        if isinstance(v, SymRange):
            raise Unmodelled("abstract range outside a for statement at %s" % (self.site(),))
        if isinstance(v, Obj):
            f, _ = v.cls.find("__iter__")
            if f is not None:
                return self.iter_(self.call(f, [v], {})) if not self._self_iter(v, f) else self._obj_iter(v)
            f, _ = v.cls.find("__next__")
            if f is not None:
                return self._obj_iter(v)
            f, _ = v.cls.find("__getitem__")
            if f is not None:
                return self._seq_iter(v)
            raise self.exc("TypeError", "%s object is not iterable" % v.cls.name)
        if isinstance(v, Class) and v.members is not None:
            return iter(list(v.members.values()))
        if isinstance(v, HostObj):
            if hasattr(v, "iterate"):
                return v.iterate()
        elif hasattr(v, "__next__") or hasattr(v, "__iter__") and not isinstance(v, (T, Class)):
            return iter(v)
        raise self.exc("TypeError", "%s object is not iterable" % self.tn(v))

    def _self_iter(self, v, f):
        n, _ = v.cls.find("__next__")
        return n is not None

    def _obj_iter(self, v):
        f, _ = v.cls.find("__iter__")
        if f is not None:
            v = self.call(f, [v], {})
            if not isinstance(v, Obj):
                yield from self.iter_(v)
                return
        n, _ = v.cls.find("__next__")
        while True:
            try:
                x = self.call(n, [v], {})
            except AbsRaise as e:
                if self.isinstance_(e.value, self.builtins["StopIteration"]):
                    return
                raise
            yield x

    def _seq_iter(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except AbsRaise as e:
                if self.isinstance_(e.value, self.builtins["IndexError"]):
                    return
                raise
            yield x
            i += 1

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.binop(op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and a.cls.int_enum:
                return self.binop(op, a.d["value"], b)
            if isinstance(b, Obj) and b.cls.int_enum:
                return self.binop(op, a, b.d["value"])
            if isinstance(a, Obj):
                f, _ = a.cls.find("__%s__" % op)
                if f is not None:
                    return self.call(f, [a, b], {})
            if isinstance(b, Obj):
                f, _ = b.cls.find("__r%s__" % op)
                if f is not None:
                    return self.call(f, [b, a], {})
            raise self.exc("TypeError", "unsupported operand types for %s" % op)
        if isinstance(a, HostObj) and hasattr(a, "binop"):
            return a.binop(op, b, False)
        if isinstance(b, HostObj) and hasattr(b, "binop"):
            return b.binop(op, a, True)
        if isinstance(a, T) or isinstance(b, T) or (op in ("truediv", "pow") and isinstance(a, int) and isinstance(b, int)):
            if isinstance(a, (complex,)) or isinstance(b, complex):
                return self.np.complex_op(op, a, b)
            if isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str)) or a is None or b is None:
                if op == "mul":
                    s, n = (a, b) if isinstance(a, (list, tuple, str)) else (b, a)
                    return s * self.concrete_int(n)
                if op == "mod" and isinstance(a, str):
                    return self.percent(a, b)
                raise self.exc("TypeError", "unsupported operand types for %s: %s and %s" % (op, self.tn(a), self.tn(b)))
            return self.np.scal(op, a, b)
        if op in ("or",) and isinstance(a, (BType, Class, Typing, UnionT)) or isinstance(b, (BType, Class, Typing)) and op == "or":
            return UnionT([a, b])
        if isinstance(a, complex) or isinstance(b, complex):
            return self.np.complex_op(op, a, b)
        if op == "mod" and isinstance(a, str):
            return self.percent(a, b)
        try:
            f = {
                "add": operator.add, "sub": operator.sub, "mul": operator.mul, "floordiv": operator.floordiv,
                "mod": operator.mod, "and": operator.and_, "or": operator.or_, "xor": operator.xor,
                "lshift": operator.lshift, "rshift": operator.rshift, "matmul": operator.matmul,
                "truediv": operator.truediv, "pow": operator.pow,
            }[op]
            return f(a, b)
        except ZeroDivisionError as ex:
            raise self.exc("ZeroDivisionError", str(ex))
        except TypeError as ex:
            raise self.exc("TypeError", str(ex))

    def inplace(self, op, a, b):
        if isinstance(a, Arr):
            return self.np.inplace(op, a, b)
        if isinstance(a, list) and op == "add":
            a.extend(self.iter_(b))
            return a
        if isinstance(a, Obj):
            f, _ = a.cls.find("__i%s__" % op)
            if f is not None:
                return self.call(f, [a, b], {})
        if isinstance(a, dict) and op == "or":
            a.update(b)
            return a
        if isinstance(a, set) and op == "or":
            a |= b
            return a
        return self.binop(op, a, b)

    # ------------------------------------------------------------ truth / types
    def truth(self, v, node=None):
        if v is None:
            return False
        if isinstance(v, (bool, int, str, list, tuple, dict, set, range, float, frozenset, bytes)):
            return bool(v)
        if isinstance(v, T):
            if v.typ != "b":
                if v.op == "const":
                    return v.args[0] != 0
                v = tm.bnot(tm.eq(v, tm.const(0)))
            if v is tm.TRUE:
                return True
            if v is tm.FALSE:
                return False
            return self.run.decide(v, self.site(node), self)
        if isinstance(v, Arr):
            if v.data.size == 1:
                return self.truth(v.data.reshape(-1)[0], node)
            if v.data.size == 0:
                return False
            raise self.exc("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Obj):
            f, _ = v.cls.find("__bool__")
            if f is not None:
                return self.truth(self.call(f, [v], {}))
            f, _ = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call(f, [v], {}))
            if v.cls.int_enum:
                return bool(v.d["value"])
            return True
        if isinstance(v, HostObj) and hasattr(v, "truth"):
            return v.truth()
        return True

    def type_of(self, v):
        B = self.builtins
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, bool):
            return B["bool"]
        if isinstance(v, int):
            return B["int"]
        if isinstance(v, T):
            return {"f": B["float"], "i": B["int"], "b": B["bool"]}[v.typ]
        if isinstance(v, str):
            return B["str"]
        for n in ("list", "tuple", "dict", "set", "complex", "range", "slice", "bytes"):
            if type(v).__name__ == n:
                return B[n]
        if isinstance(v, Arr):
            return self.ext["numpy"].d["ndarray"]
        if isinstance(v, (Class, BType)):
            return B["type"]
        if v is None:
            return B["NoneType"]
        if isinstance(v, HostObj):
            return v.__class__
        if isinstance(v, tuple):
            return getattr(v, "sa_type", B["tuple"])
        return B["object"]

    def isinstance_(self, v, c):
        if isinstance(c, (tuple, list)):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, UnionT):
            return any(self.isinstance_(v, x) for x in c.parts)
        if isinstance(c, Class):
            return isinstance(v, Obj) and c in v.cls.mro
        if isinstance(c, BType):
            return c.test(v)
        if c is None:
            return v is None
        if isinstance(c, Typing):
            last = c.name.split(".")[-1]
            if last in ("Sequence", "MutableSequence"):
                return isinstance(v, (list, tuple, str, range)) and not (last[0] == "M" and not isinstance(v, list))
            if last in ("Iterable", "Collection", "Sized", "Container"):
                return isinstance(v, (list, tuple, str, range, dict, set, Arr))
            if last in ("Mapping", "MutableMapping", "Dict"):
                return isinstance(v, dict)
            if last == "Callable":
                return isinstance(v, (Func, H, Bound, Class, BType, Partial))
            if last in ("List",):
                return isinstance(v, list)
            if last in ("Tuple",):
                return isinstance(v, tuple)
            raise Unmodelled("isinstance against %r" % c)
        raise self.exc("TypeError", "isinstance() arg 2 must be a type")


def neg_cell(x):
    return type(x)(tm.neg(x.re), tm.neg(x.im)) if hasattr(x, "im") and hasattr(x, "re") else tm.neg(x)


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()
