"""Symbolic interpreter for the Python functions of /repo, from their current source."""
import ast
import builtins
import enum
import inspect
import os
import sys
import types
from fractions import Fraction

import z3

from . import sym
from .sym import (Blob, BlobList, Dec, Img, Opaque, PathEnd, PyDict, PyList, PyRaise, PySet, Rope, S, SObj,
                  U, Unsupported, Word, is_num, is_str, mk, rope)
from . import sym as Y

REPO = os.environ.get("PYCAPTION_REPO", "/repo") + "/"


class _Follow:
    """what a stand-in returns when this call is the one under contract: its body is followed"""


FOLLOW = _Follow()


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


_src = {}


class Source:
    """Parsed module source with functions indexed by line."""

    def __init__(self, path):
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.funcs = {}
        self.assigns = {}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                self.funcs.setdefault((line, getattr(n, "name", "<lambda>")), n)
        for n in self.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigns[n.targets[0].id] = n.value


def source(path):
    if path not in _src:
        _src[path] = Source(path)
    return _src[path]


def is_repo_fn(f):
    return isinstance(f, types.FunctionType) and (f.__code__.co_filename.startswith(REPO)
                                                  or f.__module__ in EXTRA_MODULES)


# library source that is followed like repo code, and the specification functions of the contracts
EXTRA_MODULES = {"xml.sax.saxutils", "html", "contracts.spec"}


class Frame:
    def __init__(self, gl, parent=None, cells=None, fn=None):
        self.vars, self.gl, self.parent, self.cells, self.fn = {}, gl, parent, cells or {}, fn
        self.globals_declared = set()


def own_names(t):
    """the nodes of a statement without the targets of comprehensions, which have a scope of their own"""
    inner = set()
    for n in ast.walk(t):
        if isinstance(n, ast.comprehension):
            inner |= {id(x) for x in ast.walk(n.target)}
    return [n for n in ast.walk(t) if id(n) not in inner]


class Closure:
    def __init__(self, node, frame, defaults, kw_defaults, name):
        self.node, self.frame, self.defaults, self.kw_defaults, self.__name__ = node, frame, defaults, kw_defaults, name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


def collects(f, n):
    """f is a function of /repo whose *args takes everything from the n-th argument on"""
    if isinstance(f, Bound):
        return collects(f.fn, n + 1)
    if isinstance(f, types.MethodType):
        return collects(f.__func__, n + 1)
    return (isinstance(f, types.FunctionType) and is_repo_fn(f) and bool(f.__code__.co_flags & 4)
            and f.__code__.co_argcount <= n)


class Meth:
    """Method of a modelled value: (object, name)."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def mro_lookup(cls, name, after=None):
    mro = cls.__mro__
    if after is not None:
        mro = mro[mro.index(after) + 1:]
    for c in mro:
        if name in c.__dict__:
            return c, c.__dict__[name]
    return None, None


def lift(v):
    if isinstance(v, float):
        return Fraction(repr(v))
    return v


_MISSING = object()


class Interp:
    def __init__(self, ctx):
        self.forgotten = set()
        self.ctx = ctx
        self.depth = 0
        self.steps = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------------ calls
    def qual(self, f):
        return "%s.%s" % (f.__module__, f.__qualname__)

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        self.steps += 1
        if self.steps > 200000:
            raise Y.Budget("steps")
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Closure):
            return self.call_node(f.node, f.frame.gl, args, kwargs, f.defaults, f.kw_defaults, parent=f.frame,
                                  name=f.__name__)
        if isinstance(f, Meth):
            return self.models.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Opaque):
            if "__call__" in f.attrs:
                return f.attrs["__call__"](self, *args, **kwargs)
            raise Unsupported("call of %r" % f)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, types.FunctionType):
            c = self.ctx.contracts.get(self.qual(f))
            if c is not None:
                self.ctx.used_contracts.add(self.qual(f))
                r = c(self, *args, **kwargs)
                if r is not FOLLOW:
                    return r
            m = self.models.FUNCS.get(f)
            if m is not None:
                return m(self, args, kwargs)
            if is_repo_fn(f):
                return self.call_fn(f, args, kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            c = self.ctx.contracts.get("%s.%s" % (f.__module__, f.__qualname__))
            if c is not None:
                self.ctx.used_contracts.add("%s.%s" % (f.__module__, f.__qualname__))
                return c(self, *args, **kwargs)
            return self.instantiate(f, args, kwargs)
        m = self.models.FUNCS.get(f) if self._hashable(f) else None
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, SObj):
            c, fn = mro_lookup(f.cls, "__call__")
            if fn is not None:
                return self.call(fn, [f] + args, kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args \
                and f.__objclass__ in (list, dict, str, set, tuple) and f.__name__ != "__init__":
            o = args[0]
            return self.models.method(self, o.data if isinstance(o, SObj) and o.data is not None else o, f.__name__, args[1:], kwargs)
        if callable(f) and isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType)):
            if isinstance(f, types.BuiltinFunctionType) and f.__self__ is not None and not inspect.ismodule(f.__self__):
                return self.models.method(self, f.__self__, f.__name__, args, kwargs)
            return self.native(f, args, kwargs)
        if f is None or isinstance(f, (int, str, Fraction)):
            raise PyRaise(TypeError, ("object is not callable",))
        raise Unsupported("call of %r" % (f,))

    @staticmethod
    def _hashable(f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def native(self, f, args, kwargs):
        """Run a pure library function natively on fully concrete arguments."""
        try:
            a = [self.models.to_native(x) for x in args]
            k = {x: self.models.to_native(v) for x, v in kwargs.items()}
        except Unsupported:
            raise Unsupported("library call %r on symbolic arguments" % (getattr(f, "__qualname__", f),))
        if f not in self.models.PURE:
            raise Unsupported("library call %r is not modelled" % (getattr(f, "__qualname__", f),))
        try:
            return self.models.from_native(f(*a, **k))
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def call_fn(self, f, args, kwargs):
        src = source(f.__code__.co_filename)
        node = src.funcs.get((f.__code__.co_firstlineno, f.__name__))
        if node is None:
            for (line, name), n in src.funcs.items():
                if line == f.__code__.co_firstlineno:
                    node = n
        if node is None:
            raise Unsupported("no source for %s" % self.qual(f))
        self.ctx.inlined.add(self.qual(f))
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        return self.call_node(node, f.__globals__, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {},
                              cells=cells, name=f.__qualname__, fobj=f)

    def bind(self, a, args, kwargs, defaults, kwd, name):
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        n = len(pos)
        if len(args) > n and not a.vararg:
            raise PyRaise(TypeError, ("%s() takes %d positional arguments" % (name, n),))
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg:
            rest = args[n:]
            out[a.vararg.arg] = self.models.frozen(rest) if any(isinstance(x, Blob) for x in rest) else tuple(rest)
        for i, p in enumerate(pos):
            if p in out:
                if p in kwargs:
                    raise PyRaise(TypeError, ("%s() got multiple values for argument %s" % (name, p),))
                continue
            if p in kwargs:
                out[p] = kwargs.pop(p)
                continue
            j = i - (n - len(defaults))
            if j >= 0:
                out[p] = lift(defaults[j])
            else:
                raise PyRaise(TypeError, ("%s() missing argument %s" % (name, p),))
        for x in a.kwonlyargs:
            p = x.arg
            if p in kwargs:
                out[p] = kwargs.pop(p)
            elif p in kwd:
                out[p] = lift(kwd[p])
            else:
                raise PyRaise(TypeError, ("%s() missing keyword %s" % (name, p),))
        if a.kwarg:
            out[a.kwarg.arg] = PyDict([[k, v] for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise(TypeError, ("%s() got an unexpected keyword argument %s" % (name, sorted(kwargs)),))
        return out

    def call_node(self, node, gl, args, kwargs, defaults, kwd, cells=None, parent=None, name="?", fobj=None):
        self.depth += 1
        if self.depth > 60:
            raise Y.Budget("recursion")
        try:
            fr = Frame(gl, parent, cells, fn=name)
            try:
                fr.vars.update(self.bind(node.args, args, kwargs, defaults, kwd, name))
            except PyRaise:
                if self.depth == 1:                # the contract's own call: the function takes other parameters now
                    raise Unsupported("%s() no longer takes the parameters its contract gives it" % name)
                raise
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            for n in ast.walk(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator %s" % name)
            fr.first_arg = args[0] if args else None
            try:
                self.block(node.body, fr)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def instantiate(self, cls, args, kwargs):
        m = self.models.CLASSES.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        if issubclass(cls, enum.Enum):
            if len(args) == 1 and not isinstance(args[0], (Rope, S, U)):
                try:
                    return cls(self.models.to_native(args[0]))
                except ValueError as e:
                    raise PyRaise(ValueError, e.args)
            if len(args) == 1 and isinstance(args[0], Rope):
                for mem in cls:
                    if isinstance(mem.value, str) and self.truth(self.eq(args[0], mem.value)):
                        return mem
                raise PyRaise(ValueError, ("not a valid %s" % cls.__name__,))
            raise Unsupported("enum of a symbolic value")
        repo = cls.__module__.startswith(Y.SCOPE)
        if not repo and not issubclass(cls, BaseException):
            return self.native(cls, args, kwargs)
        o = SObj(cls)
        if issubclass(cls, (list,)):
            o.data = PyList()
        elif issubclass(cls, dict):
            o.data = PyDict()
        elif issubclass(cls, tuple) or issubclass(cls, (str, int, float)):
            return self.models.namedtuple_like(self, cls, args, kwargs)
        _, init = mro_lookup(cls, "__init__")
        if issubclass(cls, BaseException):
            o.attrs["args"] = tuple(args)
        if init is not None and init is not object.__init__:
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
            elif issubclass(cls, BaseException):
                pass
            elif issubclass(cls, (list, dict)):
                self.models.method(self, o.data, "__init__", args, kwargs)
            else:
                raise Unsupported("constructor of %s" % cls.__name__)
        elif args or kwargs:
            raise PyRaise(TypeError, ("%s() takes no arguments" % cls.__name__,))
        return o

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=_MISSING):
        v = self._getattr(o, name)
        if v is _MISSING:
            if default is not _MISSING:
                return default
            if isinstance(o, SObj) and o.partial or isinstance(o, types.ModuleType):
                raise Unsupported("%s.%s is not part of the state the contract describes" % (self.tname(o), name))
            raise PyRaise(AttributeError, ("%r has no attribute %r" % (self.tname(o), name),))
        return v

    def tname(self, o):
        return o.cls.__name__ if isinstance(o, SObj) else type(o).__name__

    def _getattr(self, o, name):
        if isinstance(o, SObj):
            if name in o.attrs:
                return o.attrs[name]
            c, d = mro_lookup(o.cls, name)
            if d is None and c is None:
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return PyDict([[k, v] for k, v in o.attrs.items()])
                if o.data is not None:
                    return Meth(o, name)
                if "__getattr__" in o.ghost:
                    return o.ghost["__getattr__"](self, o, name)
                return _MISSING
            return self.descr(d, o, o.cls, name)
        if isinstance(o, Super):
            mro = (o.obj.cls if isinstance(o.obj, SObj) else o.obj).__mro__
            for k in mro[mro.index(o.cls) + 1:]:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(o.obj, SObj):
                        if isinstance(d, types.FunctionType):
                            return Bound(d, o.obj)
                        if k in (list, dict, object) or not isinstance(d, (property, staticmethod, classmethod)):
                            if o.obj.data is not None and k in (list, dict):
                                return Meth(o.obj.data, name)
                            if name == "__init__":
                                return self.models.NOOP
                            raise Unsupported("super().%s of %s" % (name, k.__name__))
                        return self.descr(d, o.obj, o.obj.cls, name)
                    return self.descr(d, None, o.obj, name)
            return _MISSING
        if isinstance(o, Opaque):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, types.FunctionType):
                    return Bound(self.models.Native(v), o)
                return v
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, type):
            if name in ("__name__", "__mro__", "__module__", "__qualname__"):
                return getattr(o, name)
            c, d = mro_lookup(o, name)
            if c is None:
                v = getattr(o, name, _MISSING)         # metaclass attributes (Enum members, ...)
                return lift(v) if v is not _MISSING else _MISSING
            if isinstance(o, enum.EnumMeta):
                return getattr(o, name)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(d.__func__, o)
            return lift(d)
        if isinstance(o, types.ModuleType):
            v = getattr(o, name, _MISSING)
            return v if v is _MISSING else lift(v)
        if isinstance(o, Bound):
            if name == "__name__":
                return o.fn.__name__
            if name == "__self__":
                return o.self_
            return self._getattr(o.fn, name)
        if isinstance(o, (Rope, PyList, PySet, PyDict, S, U, Word, Dec, Blob)) or isinstance(
                o, (str, list, dict, set, frozenset, tuple)) and not hasattr(type(o), "_fields"):
            if isinstance(o, S) and o.k == "bool" or isinstance(o, S):
                if name in ("real",):
                    return o
            return self.models.get_method(self, o, name)
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool):
            return Meth(o, name)
        if o is None:
            return _MISSING if not hasattr(None, name) else Meth(o, name)
        if isinstance(o, enum.Enum):
            return lift(getattr(o, name, _MISSING))
        h = self.models.getattr_hook(self, o, name)
        if h is not NotImplemented:
            return h
        if type(o).__module__.startswith(Y.SCOPE):
            if name in getattr(o, "__dict__", {}):
                return lift(o.__dict__[name])
            c, d = mro_lookup(type(o), name)
            if c is None:
                return _MISSING
            return self.descr(d, o, type(o), name)
        if isinstance(o, tuple):
            v = getattr(o, name, _MISSING)
            return Meth(o, name) if callable(v) else lift(v)
        v = getattr(o, name, _MISSING)
        if v is _MISSING:
            return _MISSING
        if callable(v):
            return Meth(o, name)
        return lift(v)

    def descr(self, d, o, cls, name):
        if isinstance(d, types.FunctionType):
            return Bound(d, o) if o is not None else d
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return Bound(d.__func__, cls)
        if isinstance(d, property):
            return self.call(d.fget, [o]) if o is not None else d
        if isinstance(o, SObj) and (isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType,
                                                   types.BuiltinFunctionType))):
            if o.data is not None and (name in list.__dict__ or name in dict.__dict__):
                return Meth(o.data, name)
            if name == "__init__":
                return self.models.NOOP
            if issubclass(o.cls, BaseException):
                return Meth(o, name)
            return Meth(o, name)
        if isinstance(d, types.GetSetDescriptorType) or isinstance(d, types.MemberDescriptorType):
            if isinstance(o, SObj):
                if name == "__dict__":
                    return PyDict([[k, v] for k, v in o.attrs.items()])
                raise Unsupported("slot %s" % name)
            return lift(getattr(o, name))
        return lift(d)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            c, d = mro_lookup(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyRaise(AttributeError, ("can't set attribute",))
                return self.call(d.fset, [o, v])
            self.ctx.write(o, name, o.attrs.get(name, _MISSING), v)
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            if "__setattr__" in o.attrs:
                return o.attrs["__setattr__"](self, o, name, v)
            self.ctx.write(o, name, o.attrs.get(name, _MISSING), v)
            o.attrs[name] = v
            return
        if isinstance(o, type) or type(o).__module__.startswith(Y.SCOPE) or isinstance(o, types.ModuleType):
            self.ctx.global_write("%s.%s" % (getattr(o, "__name__", type(o).__name__), name))
            raise Unsupported("write to shared native state %r.%s" % (o, name))
        raise Unsupported("attribute store on %r" % (type(o),))

    # ------------------------------------------------------------------ truth / equality
    def truth(self, v):
        if isinstance(v, S):
            return bool(v)
        if isinstance(v, Rope):
            return self.models.rope_nonempty(self, v)
        if isinstance(v, (PyList, PySet)):
            n = self.models.length(self, v)
            return bool(n > 0) if isinstance(n, S) else n > 0
        if isinstance(v, PyDict):
            return len(v.pairs) > 0
        if isinstance(v, SObj):
            c, d = mro_lookup(v.cls, "__bool__")
            if isinstance(d, types.FunctionType):
                return self.truth(self.call(d, [v]))
            c, d = mro_lookup(v.cls, "__len__")
            if isinstance(d, types.FunctionType):
                return self.truth(self.call(d, [v]))
            if v.data is not None:
                return self.truth(v.data)
            return True
        if isinstance(v, Opaque):
            t = v.attrs.get("__bool__")
            if t is None:
                return True
            return self.truth(t(self) if callable(t) else t)
        if isinstance(v, U):
            t = v.truth
            if t is None:
                raise Unsupported("truth value of %r" % v)
            return self.truth(t(self) if callable(t) else t)
        if isinstance(v, (Closure, Bound, Meth)):
            return True
        if type(v).__module__.startswith(Y.SCOPE) and not isinstance(v, (type, enum.Enum)):
            c, d = mro_lookup(type(v), "__bool__")
            if isinstance(d, types.FunctionType):
                return self.truth(self.call(d, [v]))
        return bool(v)

    def eq(self, a, b):
        """a == b as bool or S"""
        if a is b and not isinstance(a, (S, Fraction)):
            if isinstance(a, SObj) and isinstance(mro_lookup(a.cls, "__eq__")[1], types.FunctionType):
                pass
            else:
                return True
        if isinstance(a, SObj) or isinstance(b, SObj):
            return self.obj_eq(a, b)
        if is_num(a) and is_num(b):
            if isinstance(a, S) or isinstance(b, S):
                return Y.num_eq(a, b)
            return a == b
        if is_str(a) and is_str(b):
            return self.models.str_eq(self, a, b)
        if isinstance(a, U) or isinstance(b, U):
            if isinstance(a, U) and isinstance(b, U):
                return mk(a.t == b.t, "bool")
            x, y = (a, b) if isinstance(a, U) else (b, a)
            if x.eq is not None:
                return x.eq(self, y)
            if y is None or isinstance(y, (bool, int)) and x.never_none:
                return False
            if isinstance(y, str):
                return mk(x.t == self.ctx.literal(y), "bool")
            raise Unsupported("comparison of %r with %r" % (a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.all_eq(a, b)
        if isinstance(a, PyList) and isinstance(b, PyList) and type(a) is type(b):
            if isinstance(a, PySet):
                raise Unsupported("set comparison")
            if a.has_blob() or b.has_blob():
                if len(a.items) == len(b.items) and all(x is y for x, y in zip(a.items, b.items)):
                    return True
                raise Unsupported("comparison of unbounded lists")
            if len(a.items) != len(b.items):
                return False
            return self.all_eq(a.items, b.items)
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if len(a.pairs) != len(b.pairs):
                return False
            out = True
            for k, v in a.pairs:
                w = self.models.dict_get(self, b, k, _MISSING)
                if w is _MISSING:
                    return False
                out = Y.and_(out, self.tb(self.eq(v, w)))
            return out
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opaque) and "__eq__" in x.attrs:
                    return x.attrs["__eq__"](self, y)
            return False
        if isinstance(a, (PyList, PyDict)) or isinstance(b, (PyList, PyDict)):
            x, y = (a, b) if isinstance(a, (PyList, PyDict)) else (b, a)
            if isinstance(y, (list, dict, set)):
                return self.eq(x, self.models.from_native(y))
            return False
        if isinstance(a, (Rope, S)) or isinstance(b, (Rope, S)):
            return False
        if type(a).__module__.startswith(Y.SCOPE) and not isinstance(a, (type, enum.Enum)):
            return self.obj_eq(a, b)
        return bool(a == b)

    def tb(self, v):
        """truth value as bool or S without forking when possible"""
        if isinstance(v, (bool, S)):
            return v
        return self.truth(v)

    def all_eq(self, xs, ys):
        out = True
        for x, y in zip(xs, ys):
            e = self.tb(self.eq(x, y))
            if e is False:
                return False
            out = Y.and_(out, e)
        return out

    def obj_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            cls = x.cls if isinstance(x, SObj) else type(x)
            c, d = mro_lookup(cls, "__eq__")
            if isinstance(d, types.FunctionType):
                r = self.call(d, [x, y])
                if r is not NotImplemented:
                    return r
        if isinstance(a, SObj) and a.data is not None:
            bd = b.data if isinstance(b, SObj) else b
            if bd is None:
                return False
            return self.eq(a.data, bd)
        if isinstance(b, SObj) and b.data is not None and isinstance(a, (PyList, PyDict)):
            return self.eq(a, b.data)
        return a is b

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Y.Budget("steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            fr.vars[a.asname or a.name.split(".")[0]] = sys.modules[a.name] if a.asname else m

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.gl.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            fr.vars[a.asname or a.name] = getattr(m, a.name)

    def s_Global(self, s, fr):
        fr.globals_declared |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals = getattr(fr, "nonlocals", set()) | set(s.names)

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        fr.vars[s.name] = Closure(s, fr, tuple(self.ev(d, fr) for d in s.args.defaults),
                                  {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d},
                                  s.name)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError, ())

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.aug(s.op, cur, self.ev(s.value, fr))
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.models.getitem(self, o, k)
            self.models.setitem(self, o, k, self.aug(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, PyList) and not isinstance(cur, PySet):
            self.models.method(self, cur, "extend", [v], {})
            return cur
        if isinstance(op, ast.Add) and isinstance(cur, SObj) and isinstance(cur.data, PyList) \
                and not isinstance(mro_lookup(cur.cls, "__iadd__")[1], types.FunctionType):
            self.models.method(self, cur.data, "extend", [v], {})
            return cur
        return self.binop(op, cur, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, SObj) and t.attr in o.attrs:
                    self.ctx.write(o, t.attr, o.attrs[t.attr], _MISSING)
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_declared:
                self.ctx.global_write(t.id)
                raise Unsupported("write to module global %s" % t.id)
            if t.id in getattr(fr, "nonlocals", ()):
                f = fr.parent
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        return
                    f = f.parent
            fr.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.models.to_seq(self, v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    raise PyRaise(ValueError, ("not enough values to unpack",))
                for a, b in zip(t.elts[:i], xs[:i]):
                    self.assign(a, b, fr)
                self.assign(t.elts[i].value, PyList(xs[i:len(xs) - k]), fr)
                for a, b in zip(t.elts[i + 1:], xs[len(xs) - k:]):
                    self.assign(a, b, fr)
                return
            if len(xs) != len(t.elts):
                raise PyRaise(ValueError, ("wrong number of values to unpack",))
            for a, b in zip(t.elts, xs):
                self.assign(a, b, fr)
        else:
            raise Unsupported("assignment target")

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        self.raise_value(e)

    def raise_value(self, e):
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if isinstance(e, SObj) and issubclass(e.cls, BaseException):
            raise PyRaise(e.cls, e.attrs.get("args", ()), e)
        raise Unsupported("raise of %r" % (e,))

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                h = self.find_handler(s, e, fr)
                if h is None:
                    raise
                old = getattr(fr, "handling", None)
                fr.handling = e
                if h.name:
                    if e.obj is None:
                        o = SObj(e.cls, {"args": tuple(e.eargs)})
                        e.obj = o
                    fr.vars[h.name] = e.obj
                try:
                    self.block(h.body, fr)
                finally:
                    fr.handling = old
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def find_handler(self, s, e, fr):
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            if any(issubclass(e.cls, x) for x in ts):
                return h
        return None

    def s_With(self, s, fr):
        raise Unsupported("with")

    def s_While(self, s, fr):
        spec = self.ctx.while_spec(fr, s)
        if spec is not None:
            if self.spec_loop(spec, s, fr, None) == "break":
                return
            self.block(s.orelse, fr)
            return
        n = 0
        while True:
            if not self.truth(self.ev(s.test, fr)):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.ctx.unroll:
                raise Y.Budget("while loop in %s" % fr.fn)
            try:
                self.block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                continue

    def s_For(self, s, fr):
        items = self.iter_items(self.ev(s.iter, fr))
        if isinstance(items, BlobList):
            r = self.for_blobs(items, s, fr)
            if r == "break":
                return
        else:
            for x in items:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except BreakX:
                    return
                except ContinueX:
                    pass
        self.block(s.orelse, fr)

    def for_blobs(self, items, s, fr):
        for x in items.items:
            if isinstance(x, Blob):
                spec = self.ctx.loop_spec(x, fr, s)
                if spec is None:
                    raise Unsupported("no loop contract for iteration over %s in %s" % (x.tag, fr.fn))
                if self.spec_loop(spec, s, fr, x) == "break":
                    return "break"
            else:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except BreakX:
                    return "break"
                except ContinueX:
                    pass

    def spec_loop(self, spec, s, fr, blob):
        """Inductive loop rule: entry / arbitrary iteration / exit."""
        ctx = self.ctx
        assigned = {n.id for b in s.body + ([s.target] if blob is not None else []) for n in own_names(b)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        spec = spec() if isinstance(spec, type) else spec
        spec.assigned = assigned
        spec.loop_blob = blob
        spec.node = s
        spec.mutated = set()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    x = n.func.value
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                elif isinstance(n, ast.AugAssign):
                    x = n.target
                else:
                    continue
                while isinstance(x, (ast.Attribute, ast.Subscript)):
                    x = x.value
                if isinstance(x, ast.Name):
                    spec.mutated.add(x.id)
        saved = dict(fr.vars)
        spec.entry(self, fr)
        arbitrary = spec.arbitrary = ctx.choose(2, "loop:%s" % (blob.tag if blob else fr.fn)) == 0
        for n in assigned:
            if fr.vars.pop(n, self) is not self:
                self.forgotten.add(n)
        if arbitrary:
            if blob is not None:
                i = ctx.fresh(z3.IntSort(), "i_" + blob.name)
                ctx.assume(z3.And(i >= blob.lo, i < blob.length))
            else:
                i = ctx.fresh(z3.IntSort(), "iter")
                ctx.assume(i >= 0)
            spec.havoc(self, fr, i)
            mark = len(ctx.writes)
            stamp = SObj.n
            if blob is not None:
                self.assign(s.target, blob.get(i), fr)
            elif not self.truth(self.ev(s.test, fr)):
                raise PathEnd("loop not entered")
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                return "break"
            spec.step(self, fr, i)
            self.check_loop_frame(spec, fr, mark, stamp)
            raise PathEnd("inductive step")
        i = blob.length if blob is not None else ctx.fresh(z3.IntSort(), "iters")
        if blob is not None:
            ctx.assume(blob.length >= blob.lo)
        spec.havoc(self, fr, i)
        if blob is None and self.truth(self.ev(s.test, fr)):
            raise PathEnd("loop continues")
        return None

    def check_loop_frame(self, spec, fr, mark, stamp):
        allowed = getattr(spec, "frame", lambda it, fr: [])(self, fr)
        for (o, name, old, new) in self.ctx.writes[mark:]:
            if any(o is a or (isinstance(a, tuple) and a[0] is o and a[1] == name) for a in allowed):
                continue
            if isinstance(o, SObj) and o.uid > stamp:
                continue
            if getattr(o, "stamp", 0) > stamp:
                continue
            raise Unsupported("loop writes %r.%s outside its contract's frame" % (o, name))

    # ------------------------------------------------------------------ iteration
    def iter_items(self, v):
        """A python list of values, or a BlobList."""
        if isinstance(v, SObj):
            c, d = mro_lookup(v.cls, "__iter__")
            if isinstance(d, types.FunctionType):
                return self.iter_items(self.call(d, [v]))
            if v.data is not None:
                return self.iter_items(v.data)
            raise Unsupported("iteration over %r" % v)
        if isinstance(v, PyList):
            if v.has_blob():
                return BlobList(list(v.items))
            return list(v.items)
        if isinstance(v, BlobList):
            return v
        if isinstance(v, PyDict):
            if any(isinstance(p, Blob) for p in v.pairs):
                return BlobList([p if isinstance(p, Blob) else p[0] for p in v.pairs])
            return [p[0] for p in v.pairs]
        if isinstance(v, Rope):
            return self.models.rope_chars(self, v)
        if isinstance(v, (str, list, tuple, range, dict, enum.EnumMeta)):
            return [lift(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return sorted((lift(x) for x in v), key=repr)
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if v is None or is_num(v):
            raise PyRaise(TypeError, ("object is not iterable",))
        if isinstance(v, Opaque) and "__iter__" in v.attrs:
            return self.iter_items(v.attrs["__iter__"](self))
        if type(v).__name__ in ("deque",):
            return list(v)
        raise Unsupported("iteration over %r" % (type(v),))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return lift(e.value)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            if name in f.cells:
                return lift(f.cells[name])
            f = f.parent
        if name in fr.gl:
            v = fr.gl[name]
            if isinstance(v, float):
                path = fr.gl.get("__file__")
                if path and path.startswith(REPO) and name in source(path).assigns:
                    return self.ev(source(path).assigns[name], Frame(fr.gl))
            return lift(v)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if name in self.forgotten:
            raise Unsupported("%r is carried by a loop outside its contract" % name)
        raise PyRaise(NameError, ("name %r is not defined" % name,))

    def e_Name(self, e, fr):
        if e.id == "super":
            return self.models.SUPER
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.models.getitem(self, self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None, self.ev(s.upper, fr) if s.upper else None,
                         self.ev(s.step, fr) if s.step else None)
        return self.ev(s, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = PySet()
        for x in self.elts(e.elts, fr):
            self.models.method(self, s, "add", [x], {})
        return s

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iter_items(self.ev(x.value, fr))
                out += it.items if isinstance(it, BlobList) else it
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                for kk in self.iter_items(src):
                    self.models.setitem(self, d, kk, self.models.getitem(self, src, kk))
            else:
                kk = self.ev(k, fr)
                self.models.setitem(self, d, kk, self.ev(v, fr))
        return d

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t or not is_and and t:
                # a boolean that just forked is now known on this path
                return v if not (isinstance(v, S) and v.k == "bool") else t
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, S):
                return Y.not_(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
              ast.Mod: "mod", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift",
              ast.RShift: "rshift", ast.Pow: "pow"}

    def binop(self, op, a, b):
        return self.models.binop(self, type(op), self.DUNDER.get(type(op)), a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if i < len(e.ops) - 1 or True:
                if not self.truth(c):
                    return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, SObj):
                c, d = mro_lookup(a.cls, "__ne__")
                if isinstance(d, types.FunctionType):
                    return self.call(d, [a, b])
            r = self.eq(a, b)
            return Y.not_(r) if isinstance(r, S) else not self.truth(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else Y.not_(r) if isinstance(r, S) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.models.contains(self, b, a)
            return r if isinstance(op, ast.In) else Y.not_(r) if isinstance(r, S) else not self.truth(r)
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        return self.models.order(self, name, a, b)

    def is_(self, a, b):
        if isinstance(a, U) and isinstance(b, U):
            return mk(a.t == b.t, "bool")
        if isinstance(a, U) or isinstance(b, U):
            x, y = (a, b) if isinstance(a, U) else (b, a)
            if y is None and x.none is not None:
                return x.none
            return False
        if isinstance(a, S) and isinstance(b, bool):
            return self.eq(a, b) if a.k == "bool" else False
        if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)):
            return type(a) is type(b) and a == b
        return a is b

    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return Closure(e, fr, tuple(self.ev(d, fr) for d in e.args.defaults), {}, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec else ""
                if v.conversion == ord("r"):
                    x = self.models.repr_(self, x)
                elif v.conversion == ord("s"):
                    x = self.models.str_(self, x)
                out.append(self.models.format_(self, x, spec))
        return rope(*out)

    def e_FormattedValue(self, e, fr):
        return self.models.format_(self, self.ev(e.value, fr), self.ev(e.format_spec, fr) if e.format_spec else "")

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if f is self.models.SUPER:
            if e.args:
                return Super(self.ev(e.args[0], fr), self.ev(e.args[1], fr))
            g = fr
            while g is not None and "__class__" not in g.cells:
                g = g.parent
            if g is None:
                raise Unsupported("super() outside a class")
            return Super(g.cells["__class__"], g.first_arg)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iter_items(self.ev(a.value, fr))
                if isinstance(it, BlobList):
                    if a is not e.args[-1] or not collects(f, len(args)):
                        raise Unsupported("*args of unknown length")
                    it = it.items
                args += it
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, PyDict):
                    for kk, vv in d.pairs:
                        kwargs[kk] = vv
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported("**kwargs")
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        self.cur_frame = fr
        return self.call(f, args, kwargs)

    # comprehensions: desugared to the loop `for ..: if ..: acc.append(..)`
    def comp(self, e, fr, emit):
        inner = Frame(fr.gl, fr, fn=fr.fn)
        inner.cells = {}
        self.comp_gen(e.generators, 0, inner, fr, emit)

    def comp_gen(self, gens, k, inner, outer, emit):
        if k == len(gens):
            emit(inner)
            return
        g = gens[k]
        items = self.iter_items(self.ev(g.iter, outer if k == 0 else inner))
        if isinstance(items, BlobList):
            raise Unsupported("comprehension over an unbounded sequence")
        for x in items:
            self.assign(g.target, x, inner)
            if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                self.comp_gen(gens, k + 1, inner, outer, emit)

    def e_ListComp(self, e, fr):
        g = e.generators[0]
        if len(e.generators) == 1:
            items = self.iter_items(self.ev(g.iter, fr))
            if isinstance(items, BlobList):
                return self.comp_blobs(e, g, items, fr)
            out = PyList()
            inner = Frame(fr.gl, fr, fn=fr.fn)
            for x in items:
                self.assign(g.target, x, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    out.items.append(self.ev(e.elt, inner))
            return out
        out = PyList()
        self.comp(e, fr, lambda inner: out.items.append(self.ev(e.elt, inner)))
        return out
    e_GeneratorExp = e_ListComp

    def comp_blobs(self, e, g, items, fr):
        out = PyList()
        for x in items.items:
            inner = Frame(fr.gl, fr, fn=fr.fn)
            if not isinstance(x, Blob):
                self.assign(g.target, x, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    out.items.append(self.ev(e.elt, inner))
                continue
            spec = self.ctx.loop_spec(x, fr, e)
            if getattr(spec, "filters_pass", False):
                spec = None
            if spec is None and not g.ifs:
                out.items.append(self.map_blob(e.elt, g.target, x, fr))
                continue
            if spec is None:
                if not (isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id):
                    raise Unsupported("no contract for the comprehension over %s in %s" % (x.tag, fr.fn))
                # a filter every element passes: shown at an arbitrary index
                if self.ctx.choose(2, "filter:" + x.tag) == 0:
                    i = self.ctx.fresh(z3.IntSort(), "i_" + x.name)
                    self.ctx.assume(z3.And(i >= x.lo, i < x.length))
                    mark = len(self.ctx.writes)
                    self.assign(g.target, x.get(i), inner)
                    if not all(self.truth(self.ev(c, inner)) for c in g.ifs) or len(self.ctx.writes) > mark:
                        raise Unsupported("filter over %s in %s" % (x.tag, fr.fn))
                    raise PathEnd("filter")
                out.items.append(x)
                continue
            # run it as the for loop it abbreviates
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name("<acc>", ast.Load()), "append", ast.Load()), [e.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            inner.vars["<acc>"] = out
            loop = ast.For(g.target, None, [body], [])
            self.spec_loop(spec, loop, inner, x)
        return out

    def map_blob(self, elt, target, b, fr):
        """[f(x) for x in blob]: the element function is checked once at an arbitrary index
        (exceptions, writes) and then used pointwise."""
        ctx = self.ctx

        def at(i):
            inner = Frame(fr.gl, fr, fn=fr.fn)
            mark, stamp = len(ctx.writes), SObj.n
            self.assign(target, b.get(i), inner)
            v = self.ev(elt, inner)
            for (o, n, _, _) in ctx.writes[mark:]:
                if not (isinstance(o, SObj) and o.uid > stamp) and not getattr(o, "stamp", 0) > stamp:
                    raise Unsupported("comprehension with side effects over %s" % b.tag)
            return v
        if ctx.choose(2, "map:" + b.tag) == 0:
            i = ctx.fresh(z3.IntSort(), "i_" + b.name)
            ctx.assume(z3.And(i >= b.lo, i < b.length))
            at(i)
            raise PathEnd("element function")
        return Blob(b.name + "'", b.length, at, b.lo, tag=b.tag + "'")

    def e_SetComp(self, e, fr):
        out = PySet()
        self.comp(e, fr, lambda inner: self.models.method(self, out, "add", [self.ev(e.elt, inner)], {}))
        return out

    def e_DictComp(self, e, fr):
        out = PyDict()
        self.comp(e, fr, lambda inner: self.models.setitem(self, out, self.ev(e.key, inner), self.ev(e.value, inner)))
        return out
