"""Frame, state, global and order conditions of whole functions, decided by dataflow over the real source.

Everything here is conservative: a condition is discharged when the analysis follows every statement of every function
reachable from the one under contract; whatever it cannot follow raises Unsupported (undecided, never refuted).

  Origins   which caller-owned (IN), module-owned (GLOB) or hash-ordered (SET) data a value may alias; frame conditions
            ("assigns nothing reachable from the parameter"), no mutable module data stored, changed or returned, and no
            iteration over a hash-ordered collection are the checks it makes on every statement
  Fields    definite assignment: an attribute that survives a call is read only after this call assigned it
"""
import ast
import builtins
import enum
import inspect
import os
import re
import sys
import textwrap                                                                   # noqa: F401
import types

from . import env                                                                # noqa: F401
import pycaption                                                                  # noqa: E402
from .sym import Unsupported

INF = 99
IN = ("IN", INF)
SET = ("SET", 0)
PURE_BUILTINS = {"len", "str", "int", "float", "bool", "isinstance", "issubclass", "sum", "any", "all", "range", "hasattr", "repr", "hash",
                 "format", "abs", "round", "ord", "chr", "callable", "type", "divmod", "pow", "hex", "print"}
SHALLOW = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "iter", "next", "min", "max",
           "map", "filter", "copy"}
READS = {"get", "items", "values", "index", "count", "keys", "join", "split", "strip", "lstrip", "rstrip", "startswith", "endswith",
         "lower", "upper", "replace", "format", "find", "splitlines", "isdigit", "encode", "decode", "union", "difference",
         "intersection", "issubset", "copy", "title", "isspace", "zfill", "rjust", "ljust", "partition", "rfind"}
KEYS = {"keys", "index", "count"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
            "discard", "appendleft", "popleft", "extendleft", "rotate", "__setitem__", "__delitem__", "__setattr__"}
SET_OK = {"len", "sorted", "any", "all", "bool", "min", "max", "sum", "isinstance", "set", "frozenset"}
SET_METHODS = {"add", "discard", "update", "remove", "union", "difference", "intersection", "issubset", "issuperset", "clear"}
FORBIDDEN = {"globals", "vars", "locals", "exec", "eval", "__import__", "id", "delattr", "input", "open", "breakpoint", "memoryview"}
NONDETERMINISTIC = {"random", "time", "uuid", "secrets", "threading", "multiprocessing", "subprocess", "socket", "os",
                    "gc", "weakref", "tempfile"}
DECORATORS = {"staticmethod", "classmethod", "property", "abstractmethod", "total_ordering", "setter", "getter"}


GEOMETRY = {"layout_info"}              # attributes that hold a Layout or None: geometry objects are never changed (geometry_immutable)


class Broken(Unsupported):
    """The condition itself fails on a path the analysis followed: the obligation is reported as failed, without an input."""


class Fn:
    def __init__(self, module, qual, node, cls, kind):
        self.module, self.qual, self.node, self.cls, self.kind = module, qual, node, cls, kind

    def __repr__(self):
        return "%s:%s" % (self.module.__name__, self.qual)


class Package:
    def __init__(self):
        self.modules, self.fns, self.classes, self.methods, self.by_obj = {}, [], {}, {}, {}
        root = os.path.dirname(pycaption.__file__)
        for dp, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(dp, f), os.path.dirname(root))[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                if rel == "pycaption.transcript":       # needs nltk; not a format reader or writer
                    continue
                __import__(rel)
                m = sys.modules[rel]
                with open(os.path.join(dp, f)) as fh:
                    self.modules[rel] = (m, ast.parse(fh.read()))
        for m, t in self.modules.values():
            self._collect(m, t.body, "", None)
        self.class_level = {}           # attribute -> depth of a mutable class-level value
        for c, (m, _) in self.classes.items():
            for k, v in vars(c).items():
                if not k.startswith("__") and not callable(v) and not isinstance(v, (staticmethod, classmethod, property)):
                    d = depth(v)
                    if d:
                        self.class_level[k] = max(d, self.class_level.get(k, 0))

    def _collect(self, m, body, prefix, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method" if cls else "function"
                for d in n.decorator_list:
                    name = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
                    if name not in DECORATORS:
                        raise Unsupported("decorator %s of %s" % (ast.unparse(d), n.name))
                    kind = {"staticmethod": "static", "classmethod": "class", "property": "property"}.get(name, kind)
                fn = Fn(m, prefix + n.name, n, cls, kind)
                self.fns.append(fn)
                if cls:
                    self.methods.setdefault(n.name, []).append(fn)
                else:
                    self.by_obj[vars(m).get(n.name)] = fn
            elif isinstance(n, ast.ClassDef):
                c = vars(m).get(n.name) if not cls else getattr(cls, n.name, None)
                if not isinstance(c, type):
                    raise Unsupported("class %s is not what its name denotes" % n.name)
                for d in n.decorator_list:
                    name = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
                    if name not in DECORATORS:
                        raise Unsupported("decorator %s of %s" % (ast.unparse(d), n.name))
                self.classes[c] = (m, n)
                self._collect(m, n.body, prefix + n.name + ".", c)
            elif isinstance(n, (ast.If, ast.Try)):
                for b in (getattr(n, "body", []), getattr(n, "orelse", []), getattr(n, "finalbody", [])):
                    self._collect(m, b, prefix, cls)

    def owned(self, c):
        return getattr(c, "__module__", "").split(".")[0] == "pycaption"

    def mro_method(self, cls, name, after=None):
        mro = list(cls.__mro__)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in vars(c):
                for f in self.methods.get(name, []):
                    if f.cls is c:
                        return f
                return None
        return None


_IMMUTABLE = (type(None), bool, int, float, complex, str, bytes, range, re.Pattern, enum.Enum, types.FunctionType,
              types.BuiltinFunctionType, types.MethodType, type, types.ModuleType, property, staticmethod, classmethod)


def depth(v):
    """0: immutable (or owned by a library); n: mutable for n levels of access."""
    if isinstance(v, _IMMUTABLE):
        return 0
    if isinstance(v, (tuple, frozenset)):
        return max([depth(x) for x in v], default=0)
    if isinstance(v, dict):
        return 1 + max([depth(x) for x in v.values()] + [depth(x) for x in v.keys()], default=0)
    if isinstance(v, (list, set)) or type(v).__name__ == "deque":
        return 1 + max([depth(x) for x in v], default=0)
    mod = type(v).__module__.split(".")[0]
    if mod == "pycaption":
        if type(v).__module__ == "pycaption.geometry":
            return 0                    # geometry_immutable() below
    return INF


def down(t):
    """what an attribute or element of t may share"""
    r = set()
    for k in t:
        if k[0] in ("IN", "GLOB"):
            d = k[-1] if k[-1] == INF else k[-1] - 1
            if d > 0:
                r.add(k[:-1] + (d,))
        elif k[0] in ("IN1", "GLOB1"):
            r.add((k[0][:-1],) + k[1:])
    return frozenset(r)


def wrap(t):
    """what a new container of values t may share: not itself, but its elements"""
    return frozenset((k[0] + "1",) + k[1:] if k[0] in ("IN", "GLOB") else k for k in t)


CLEAN = frozenset()


def shallow(t):
    """a new container of the same elements"""
    return wrap(down(t)) | frozenset(k for k in t if k[0] in ("REF", "BOUND", "SET"))


def step(t):
    """an element: what the container may share, and the functions it may hold"""
    return down(t) | frozenset(k for k in t if k[0] in ("REF", "BOUND"))


def refs(t):
    return [k[1] for k in t if k[0] == "REF"]


def data(t):
    return frozenset(k for k in t if k[0] != "REF")


class Origins:
    def __init__(self, pkg, cls=None):
        self.p = pkg
        self.cls = cls                  # the class whose method is under contract
        self.memo = {}
        self.stack = []
        self.heap = {}                  # attribute -> REF / SET values stored under that name
        self.changed = False
        self.visited = set()
        self.opaque = set()

    # ---- entry
    def run(self, entries):
        """entries: [(Fn, {parameter: taint})]; returns the joined result of each, at a fixpoint."""
        for _ in range(12):
            self.changed = False
            self.memo_done = set()
            out = [self.call(fn, args, CLEAN, explicit=True) for fn, args in entries]
            if not self.changed:
                return out
        raise Unsupported("no fixpoint")

    def fail(self, node, what, definite=False):
        raise (Broken if definite else Unsupported)("%s line %s: %s" % (" < ".join(map(str, reversed(self.stack[-8:]))) if self.stack else "?", getattr(node, "lineno", "?"), what))

    # ---- calls
    def call(self, fn, given, default, explicit=False):
        """given: {parameter name: taint}; default: taint of the parameters not named (starred arguments)."""
        a = fn.node.args
        env_ = {}
        allp = a.posonlyargs + a.args
        defaults = dict(zip([x.arg for x in allp][len(allp) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in allp + a.kwonlyargs:
            if x.arg in given:
                env_[x.arg] = given[x.arg]
            else:
                env_[x.arg] = default
            if x.arg in defaults:
                self.stack.append(fn)
                dv = self.default_value(fn, defaults[x.arg])
                self.stack.pop()
                env_[x.arg] = env_[x.arg] | dv
        rest = default
        for k, v in given.items():
            if k not in env_:
                rest = rest | v
        if a.vararg:
            env_[a.vararg.arg] = rest
        if a.kwarg:
            env_[a.kwarg.arg] = rest
        if allp and fn.kind == "class":
            env_[allp[0].arg] = env_[allp[0].arg] | {("REF", fn.cls)}
        key = (fn.module.__name__, fn.qual, tuple(sorted((k, tuple(sorted(v, key=repr))) for k, v in env_.items())))
        if key in self.memo_done:
            return self.memo[key]
        self.memo_done.add(key)
        self.memo.setdefault(key, CLEAN)
        self.visited.add(fn)
        self.stack.append(fn)
        try:
            if len(self.stack) > 120:
                self.fail(fn.node, "call depth")
            r = self.body(fn, env_)
        finally:
            self.stack.pop()
        if r - self.memo[key]:
            self.memo[key] = self.memo[key] | r
            self.changed = True
        return self.memo[key]

    def default_value(self, fn, node):
        if isinstance(node, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.Call)):
            if isinstance(node, ast.Call):
                return frozenset({("GLOB", "default of " + fn.qual, INF)})
            return frozenset({("GLOB", "default of " + fn.qual, INF)})
        if isinstance(node, ast.Lambda):
            return frozenset({("REF", Lam(node, {}, fn))})
        if isinstance(node, ast.Name):
            return self.name_value(fn, node.id, node)
        return CLEAN

    def name_value(self, fn, name, node):
        if name in vars(fn.module):
            v = vars(fn.module)[name]
            return self.runtime(name, v)
        if fn.cls is not None and name in vars(fn.cls) and not callable(vars(fn.cls)[name]):
            return self.runtime(name, vars(fn.cls)[name])
        if hasattr(builtins, name):
            if name in FORBIDDEN:
                self.fail(node, "use of " + name)
            if name == "hash" and self.stack[-1].node.name != "__hash__":
                self.fail(node, "use of hash()")
            return frozenset({("BUILTIN", name)})
        self.fail(node, "unknown name " + name)

    def runtime(self, name, v):
        if isinstance(v, types.ModuleType):
            if v.__name__.split(".")[0] in NONDETERMINISTIC:
                self.fail(None, "module " + v.__name__)
            return frozenset({("MOD", v)})
        if isinstance(v, type):
            return frozenset({("REF", v)})
        if isinstance(v, types.FunctionType):
            if getattr(v, "__module__", "").split(".")[0] in NONDETERMINISTIC:
                self.fail(None, "function " + name)
            return frozenset({("REF", v)})
        if isinstance(v, types.BuiltinFunctionType):
            if (v.__module__ or "").split(".")[0] in NONDETERMINISTIC:
                self.fail(None, "function " + name)
            return frozenset({("REF", v)})
        if callable(v) and not self.p.owned(type(v)):
            return frozenset({("REF", v)})
        d = depth(v)
        r = set()
        if isinstance(v, (set, frozenset)):
            r.add(SET)
        if d:
            r.add(("GLOB", name, d))
        return frozenset(r)

    # ---- statements
    def body(self, fn, e):
        ctx = {"fn": fn, "ret": CLEAN, "globals": set()}
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.fail(n, "global statement")
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.fail(n, "import inside a function")
        self.block(fn.node.body, e, ctx)
        return ctx["ret"]

    def block(self, stmts, e, ctx):
        for s in stmts:
            self.stmt(s, e, ctx)

    def join(self, e, *others):
        for o in others:
            for k, v in o.items():
                e[k] = e.get(k, CLEAN) | v

    def stmt(self, s, e, ctx):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, e, ctx)
        elif t is ast.Assign:
            v = self.ev(s.value, e, ctx)
            for g in s.targets:
                self.assign(g, v, e, ctx, s.value)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, e, ctx), e, ctx, s.value)
        elif t is ast.AugAssign:
            v = self.ev(s.value, e, ctx)
            if isinstance(s.target, ast.Name):
                o = e.get(s.target.id, CLEAN)
                if self.owned(o):
                    self.fail(s, "augmented assignment to a shared value", True)
                e[s.target.id] = o | shallow(data(v))
            else:
                self.ev(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
                        if isinstance(s.target, ast.Attribute) else s.target.value, e, ctx)
                self.assign(s.target, down(v), e, ctx, None)
        elif t is ast.Return:
            if s.value is not None:
                ctx["ret"] = ctx["ret"] | self.ev(s.value, e, ctx)
        elif t is ast.If:
            self.ev(s.test, e, ctx)
            single = self.singleton(s.test)
            a, b = dict(e), dict(e)
            if single:
                a["%single:" + single] = CLEAN
            self.block(s.body, a, ctx)
            self.block(s.orelse, b, ctx)
            a.pop("%single:" + single if single else "", None)
            e.clear()
            self.join(e, a, b)
        elif t in (ast.For, ast.While):
            for _ in range(8):
                before = dict(e)
                if t is ast.For:
                    it = self.ev(s.iter, e, ctx)
                    self.iterate(s.iter, it)
                    self.assign(s.target, step(it), e, ctx, None)
                else:
                    self.ev(s.test, e, ctx)
                b = dict(e)
                self.block(s.body, b, ctx)
                self.join(e, b, before)
                if e == before:
                    break
            self.block(s.orelse, e, ctx)
        elif t is ast.Try:
            b = dict(e)
            self.block(s.body, b, ctx)
            self.join(e, b)
            self.block(s.orelse, e, ctx)
            for h in s.handlers:
                c = dict(e)
                if h.name:
                    c[h.name] = CLEAN
                self.block(h.body, c, ctx)
                self.join(e, c)
            self.block(s.finalbody, e, ctx)
        elif t is ast.With:
            for i in s.items:
                v = self.ev(i.context_expr, e, ctx)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, e, ctx, None)
            self.block(s.body, e, ctx)
        elif t is ast.Raise:
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, e, ctx)
        elif t is ast.Assert:
            self.ev(s.test, e, ctx)
        elif t is ast.Delete:
            for g in s.targets:
                if isinstance(g, ast.Name):
                    e.pop(g.id, None)
                else:
                    if self.owned(self.ev(g.value, e, ctx)):
                        self.fail(s, "del of part of a shared value", True)
        elif t in (ast.Pass, ast.Break, ast.Continue):
            pass
        elif t is ast.FunctionDef:
            e[s.name] = frozenset({("REF", Lam(s, dict(e), ctx["fn"]))})
        else:
            self.fail(s, "statement " + t.__name__)

    @staticmethod
    def singleton(test):
        if (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq)
                and isinstance(test.left, ast.Call) and isinstance(test.left.func, ast.Name) and test.left.func.id == "len"
                and isinstance(test.left.args[0], ast.Name) and isinstance(test.comparators[0], ast.Constant)
                and test.comparators[0].value == 1):
            return test.left.args[0].id
        return None

    @staticmethod
    def shared(t):
        return any(k[0] in ("IN", "GLOB", "IN1", "GLOB1") for k in t)

    @staticmethod
    def owned(t):
        """the value itself, not only what it contains, may be the caller's or a module's"""
        return any(k[0] in ("IN", "GLOB") for k in t)

    def iterate(self, node, t):
        if SET in t:
            self.fail(node, "iteration over a hash-ordered collection", True)

    def assign(self, g, v, e, ctx, src):
        if isinstance(g, ast.Name):
            e[g.id] = v
        elif isinstance(g, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(g.elts) and not any(
                    isinstance(x, ast.Starred) for x in src.elts + g.elts):
                for x, y in zip(g.elts, src.elts):
                    self.assign(x, self.ev(y, e, ctx), e, ctx, y)
            else:
                self.iterate(g, v)
                for x in g.elts:
                    self.assign(x, down(v), e, ctx, None)
        elif isinstance(g, ast.Starred):
            self.assign(g.value, v, e, ctx, None)
        elif isinstance(g, ast.Attribute):
            o = self.ev(g.value, e, ctx)
            if self.owned(o):
                self.fail(g, "attribute of a shared value assigned", True)
            if refs(o) or any(k[0] == "MOD" for k in o) or isinstance(g.value, ast.Attribute) and g.value.attr == "__class__":
                self.fail(g, "attribute of a class, function or module assigned")
            if any(k[0] in ("IN", "IN1") for k in v):
                self.store(g, v)
            for f in self.p.methods.get(g.attr, []):
                if f.kind == "setter" or any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in f.node.decorator_list):
                    self.call(f, {f.node.args.args[0].arg: CLEAN, f.node.args.args[1].arg: v}, CLEAN)
            keep = frozenset(k for k in v if k[0] in ("REF", "SET", "GLOB", "GLOB1", "BOUND"))
            if keep - self.heap.get(g.attr, CLEAN):
                self.heap[g.attr] = self.heap.get(g.attr, CLEAN) | keep
                self.changed = True
        elif isinstance(g, ast.Subscript):
            o = self.ev(g.value, e, ctx)
            self.ev(g.slice, e, ctx)
            if self.owned(o):
                self.fail(g, "element of a shared value assigned", True)
            self.store(g, v)
            if SET in v:
                self.fail(g, "a hash-ordered collection stored in a container")
            self.escape(g.value, v, e, g)
        else:
            self.fail(g, "assignment target")

    def store(self, node, v):
        if self.shared(v):
            self.fail(node, "a value shared with %s is stored" % sorted(set("the caller" if k[0] in ("IN", "IN1") else k[1] for k in v if k[0] in ("IN", "GLOB", "IN1", "GLOB1"))))

    def escape(self, container, v, e, node):
        """Functions put into a container: looked for again under the container's name, and taken to be called with clean values."""
        fs = frozenset(k for k in v if k[0] in ("REF", "BOUND"))
        if not fs:
            return
        self.callbacks(fs, CLEAN, node)
        if isinstance(container, ast.Name) and container.id in e:
            e[container.id] = e[container.id] | fs
        elif isinstance(container, ast.Attribute) and fs - self.heap.get(container.attr, CLEAN):
            self.heap[container.attr] = self.heap.get(container.attr, CLEAN) | fs
            self.changed = True

    # ---- expressions
    def ev(self, x, e, ctx):
        t = type(x)
        if t is ast.Constant:
            return CLEAN
        if t is ast.Name:
            if x.id in e:
                return e[x.id]
            return self.name_value(ctx["fn"], x.id, x)
        if t is ast.Attribute:
            o = self.ev(x.value, e, ctx)
            return self.attr(x, o, e)
        if t is ast.Subscript:
            o = self.ev(x.value, e, ctx)
            self.ev(x.slice, e, ctx)
            if isinstance(x.slice, ast.Slice):
                return shallow(data(o))
            self.dunder("__getitem__", [o], x)
            return step(o)
        if t is ast.Slice:
            for y in (x.lower, x.upper, x.step):
                if y is not None:
                    self.ev(y, e, ctx)
            return CLEAN
        if t is ast.Call:
            return self.call_expr(x, e, ctx)
        if t is ast.BinOp:
            a, b = self.ev(x.left, e, ctx), self.ev(x.right, e, ctx)
            s = frozenset({SET} & (a | b))
            if isinstance(x.op, ast.Mod):
                if SET in b:
                    self.fail(x, "a hash-ordered collection formatted")
                return CLEAN
            return shallow(data(a - {SET})) | shallow(data(b - {SET})) | s
        if t is ast.BoolOp:
            r = CLEAN
            for y in x.values:
                r = r | self.ev(y, e, ctx)
            return r
        if t is ast.UnaryOp:
            self.ev(x.operand, e, ctx)
            return CLEAN
        if t is ast.Compare:
            for y in [x.left] + x.comparators:
                self.ev(y, e, ctx)
            return CLEAN
        if t is ast.IfExp:
            self.ev(x.test, e, ctx)
            return self.ev(x.body, e, ctx) | self.ev(x.orelse, e, ctx)
        if t in (ast.Tuple, ast.List):
            r = CLEAN
            for y in x.elts:
                v = self.ev(y, e, ctx)
                if SET in v:
                    if isinstance(y, ast.Starred):
                        self.fail(y, "iteration over a hash-ordered collection", True)
                    self.fail(y, "a hash-ordered collection stored in a container")
                r = r | (down(v) if isinstance(y, ast.Starred) else v)
            return wrap(data(r)) | frozenset(k for k in r if k[0] in ("REF", "BOUND"))
        if t is ast.Set:
            for y in x.elts:
                self.store(y, self.ev(y, e, ctx))
            return frozenset({SET})
        if t is ast.Dict:
            r = CLEAN
            for k, v in zip(x.keys, x.values):
                if k is not None:
                    self.ev(k, e, ctx)
                w = self.ev(v, e, ctx)
                if SET in w:
                    self.fail(v, "a hash-ordered collection stored in a container")
                r = r | (down(w) if k is None else w)
            return wrap(data(r)) | frozenset(k for k in r if k[0] in ("REF", "BOUND"))
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            c = dict(e)
            for g in x.generators:
                it = self.ev(g.iter, c, ctx)
                if t is not ast.SetComp:
                    self.iterate(g.iter, it)
                self.assign(g.target, step(it), c, ctx, None)
                for i in g.ifs:
                    self.ev(i, c, ctx)
            if t is ast.DictComp:
                self.ev(x.key, c, ctx)
                return wrap(data(self.ev(x.value, c, ctx)))
            v = self.ev(x.elt, c, ctx)
            if SET in v:
                self.fail(x, "a hash-ordered collection stored in a container")
            if t is ast.SetComp:
                self.store(x, v)
                return frozenset({SET})
            return wrap(v)
        if t is ast.JoinedStr:
            for y in x.values:
                if isinstance(y, ast.FormattedValue):
                    if SET in self.ev(y.value, e, ctx):
                        self.fail(y, "a hash-ordered collection formatted")
            return CLEAN
        if t is ast.Starred:
            v = self.ev(x.value, e, ctx)
            return v
        if t is ast.Lambda:
            return frozenset({("REF", Lam(x, dict(e), ctx["fn"]))})
        if t in (ast.Yield, ast.YieldFrom):
            v = self.ev(x.value, e, ctx) if x.value is not None else CLEAN
            ctx["ret"] = ctx["ret"] | wrap(v)
            return CLEAN
        if t is ast.NamedExpr:
            v = self.ev(x.value, e, ctx)
            e[x.target.id] = v
            return v
        self.fail(x, "expression " + t.__name__)

    def attr(self, x, o, e):
        if x.attr in ("now", "today", "utcnow", "monotonic", "environ", "getpid"):
            self.fail(x, "." + x.attr)
        r = set(down(o)) if x.attr not in GEOMETRY else set()
        for k in o:
            if k[0] == "MOD":
                m, name = k[1], x.attr
                if not hasattr(m, name):
                    self.fail(x, "module attribute")
                r |= self.runtime(name, getattr(m, name))
            elif k[0] == "REF" and isinstance(k[1], type):
                c = k[1]
                for b in c.__mro__:
                    if x.attr in vars(b):
                        v = vars(b)[x.attr]
                        if isinstance(v, (staticmethod, classmethod, types.FunctionType)):
                            for f in self.p.methods.get(x.attr, []):
                                if f.cls is b:
                                    r.add(("BOUND", x.attr))
                        elif not isinstance(v, property):
                            r |= self.runtime(x.attr, v)
                        break
        for f in self.p.methods.get(x.attr, []):
            if f.kind == "property":
                r |= self.call(f, {f.node.args.args[0].arg: data(o)}, CLEAN)
        if x.attr in self.p.class_level:
            r.add(("GLOB", "class attribute " + x.attr, self.p.class_level[x.attr]))
        if x.attr in self.p.methods and any(f.kind != "property" for f in self.p.methods[x.attr]):
            r.add(("BOUND", x.attr))
        r |= self.heap.get(x.attr, CLEAN)
        if x.attr in ("__dict__",):
            self.fail(x, "__dict__")
        return frozenset(r)

    def dunder(self, name, args, node):
        if not any(self.shared(a) for a in args):
            return CLEAN
        r = CLEAN
        for f in self.p.methods.get(name, []):
            if f.cls.__module__ not in ("pycaption.base", "pycaption.geometry"):
                continue                    # what a caption set is made of
            ps = [p.arg for p in f.node.args.args]
            r = r | self.call(f, dict(zip(ps, [data(a) for a in args])), CLEAN)
        return r

    def call_expr(self, x, e, ctx):
        args = [self.ev(a, e, ctx) for a in x.args]
        kws = [(k.arg, self.ev(k.value, e, ctx)) for k in x.keywords]
        star = any(isinstance(a, ast.Starred) for a in x.args) or any(k is None for k, _ in kws)
        for a, v in zip(x.args, args):
            if isinstance(a, ast.Starred):
                self.iterate(a, v)
        every = CLEAN
        for v in args + [v for _, v in kws]:
            every = every | v
        f = x.func
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in e:
            ps = ctx["fn"].node.args.args
            return data(e.get(ps[0].arg, CLEAN)) if ps and ctx["fn"].kind != "static" else CLEAN
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, e, ctx)
            mods = [k[1] for k in recv if k[0] == "MOD"]
            if not mods:
                return self.method(x, f, recv, args, kws, star, every, e, ctx)
        fv = self.ev(f, e, ctx)
        if not any(k[0] in ("REF", "BUILTIN", "BOUND") for k in fv):
            if self.shared(every) or SET in every:
                self.fail(x, "shared value passed to an unknown function " + ast.unparse(f))
            self.opaque.add(ast.unparse(f))
            self.callbacks(every, every, x)
            return CLEAN
        r = CLEAN
        for k in fv:
            if k[0] == "BUILTIN":
                r = r | self.builtin(x, k[1], args, every, e, ctx)
            elif k[0] == "REF":
                r = r | self.ref(x, k[1], args, kws, star, every)
            elif k[0] == "BOUND":
                r = r | self.named(x, k[1], CLEAN, args, kws, star, every)
        return r

    def callbacks(self, fs, taint, node):
        """Functions handed to a callee that may call them with anything it was given."""
        t = data(taint)
        for k in fs:
            if k[0] == "REF":
                self.ref(node, k[1], [], [], True, down(t) | t, callback=True)
            elif k[0] == "BOUND":
                self.named(node, k[1], CLEAN, [], [], True, down(t) | t)

    def builtin(self, x, name, args, every, e, ctx):
        if SET in every and name not in SET_OK and name not in ("enumerate_",):
            if not (name == "isinstance"):
                self.fail(x, "a hash-ordered collection passed to " + name)
        if name in ("set", "frozenset"):
            self.store(x, down(every))
            return frozenset({SET})
        if name == "sorted":
            self.callbacks(every, every, x)
            return shallow(data(every) - {SET})
        if name in PURE_BUILTINS or isinstance(getattr(builtins, name), type) and issubclass(getattr(builtins, name), BaseException):
            if name in ("str", "repr", "format", "bool", "len", "print") and self.shared(every):
                for d in {"len": ("__len__",), "bool": ("__bool__", "__len__")}.get(name, ("__str__", "__repr__", "__format__", "__unicode__")):
                    self.dunder(d, [data(every)], x)
            return frozenset({("REF", self.class_of(x, ctx))} if name == "type" and self.class_of(x, ctx) else ())
        if name in SHALLOW:
            if name == "dict" and not args:
                return data(every)
            self.callbacks(every, every, x)
            if self.shared(every):
                self.dunder("__iter__", [data(every)], x)
                self.dunder("__next__", [data(every)], x)
            return shallow(data(every) - {SET}) if name not in ("next", "min", "max", "iter") else data(every) - {SET}
        if name == "getattr":
            r = set(down(args[0]))
            for a in args[2:]:
                r |= a
            return frozenset(r)
        if name == "setattr":
            if self.owned(args[0]):
                self.fail(x, "setattr on a shared value", True)
            if refs(args[0]):
                self.fail(x, "setattr on a class")
            self.store(x, args[2])
            return CLEAN
        if name in ("object", "super", "property", "NotImplemented"):
            return CLEAN
        self.fail(x, "builtin " + name)

    def class_of(self, x, ctx):
        a = ctx["fn"].node.args.args
        own = a and isinstance(x.args[0], ast.Name) and x.args[0].id == a[0].arg and ctx["fn"].kind == "method"
        return ctx["fn"].cls if own else None

    def ref(self, x, o, args, kws, star, every, callback=False):
        if isinstance(o, Lam):
            return self.lam(x, o, args, kws, star, every)
        name = getattr(o, "__name__", repr(o))
        mod = getattr(o, "__module__", "") or ""
        if isinstance(o, type):
            if self.p.owned(o):
                return self.construct(x, o, args, kws, star, every)
            if (self.shared(every) or SET in every) and mod != "datetime":
                self.fail(x, "shared value passed to " + name)
            self.callbacks(every, every, x)
            self.opaque.add(mod + "." + name)
            if name in ("defaultdict", "deque", "OrderedDict", "Counter"):
                return CLEAN
            return CLEAN
        if o in self.p.by_obj:
            return self.bind(x, self.p.by_obj[o], args, kws, star, every)
        if name == "deepcopy" and mod == "copy":
            return frozenset({SET} & every)
        if name == "copy" and mod == "copy":
            return shallow(data(every))
        if mod.split(".")[0] == "pycaption":
            self.fail(x, "function %s not found in the source" % name)
        if self.shared(every):
            if mod in ("html", "textwrap", "re", "xml.sax.saxutils", "math", "bisect", "operator", "functools", "itertools"):
                if mod in ("functools", "itertools", "bisect"):
                    self.fail(x, "shared value passed to " + name)
                return CLEAN
            self.fail(x, "shared value passed to " + name)
        if SET in every:
            self.fail(x, "a hash-ordered collection passed to " + name)
        self.callbacks(every, every, x)
        self.opaque.add(mod + "." + name)
        return CLEAN

    def lam(self, x, l, args, kws, star, every):
        fn = Fn(l.fn.module, l.fn.qual + ".<lambda>", l.node, l.fn.cls, "function")
        key = (id(l.node), tuple(sorted((k, tuple(sorted(v, key=repr))) for k, v in l.env.items())),
               tuple(tuple(sorted(data(a), key=repr)) for a in args), tuple(sorted(every, key=repr)))
        if key in self.memo_done:
            return self.memo.get(key, CLEAN)
        self.memo_done.add(key)
        e = dict(l.env)
        a = l.node.args
        ps = [p.arg for p in a.args]
        for i, p in enumerate(ps):
            e[p] = args[i] if i < len(args) and not star else data(every)
        for k, v in kws:
            if k in ps:
                e[k] = v
        for extra in (a.vararg, a.kwarg):
            if extra is not None:
                e[extra.arg] = data(every)
        ctx = {"fn": l.fn, "ret": CLEAN, "globals": set()}
        self.stack.append(fn)
        try:
            if isinstance(l.node, ast.Lambda):
                r = self.ev(l.node.body, e, ctx)
            else:
                self.block(l.node.body, e, ctx)
                r = ctx["ret"]
        finally:
            self.stack.pop()
        if r - self.memo.get(key, CLEAN):
            self.memo[key] = self.memo.get(key, CLEAN) | r
            self.changed = True
        return self.memo.get(key, r)

    def construct(self, x, c, args, kws, star, every):
        out = CLEAN
        if self.cls is not None and issubclass(c, (pycaption.base.BaseReader, pycaption.base.BaseWriter)):
            self.fail(x, "a reader or writer (%s) is created" % c.__name__)
        if any(not self.p.owned(b) and b.__module__ not in ("builtins", "enum", "abc") for b in c.__mro__):
            for f in self.p.fns:            # a library class may call any of its methods
                if f.cls in c.__mro__ and f.kind == "method" and f.node.name != "__init__":
                    self.call(f, {}, CLEAN)
        for name in ("__new__", "__init__"):
            for b in c.__mro__:
                if name in vars(b):
                    f = next((f for f in self.p.methods.get(name, []) if f.cls is b), None)
                    if f is not None:
                        self.bind(x, f, [CLEAN] + args, kws, star, every)
                    elif b in (list, dict, tuple):
                        self.callbacks(every, every, x)
                        out = out | shallow(data(every))
                    elif b is not object and not issubclass(c, BaseException) and not issubclass(c, enum.Enum):
                        if self.shared(every) or SET in every:
                            self.fail(x, "shared value passed to the constructor of " + b.__name__)
                        self.callbacks(every, every, x)
                    break
        return out

    def bind(self, x, f, args, kws, star, every):
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        given = {}
        if star:
            if f.kind in ("method", "class") and args:
                given[ps[0]] = args[0]
            return self.call(f, given, data(every) | frozenset(k for k in every if k[0] in ("REF", "BOUND")))
        extra = CLEAN
        for i, v in enumerate(args):
            if i < len(ps):
                given[ps[i]] = v
            else:
                extra = extra | v
        for k, v in kws:
            given[k] = given.get(k, CLEAN) | v
        if extra:
            given["%extra"] = extra
        return self.call(f, given, CLEAN)

    def named(self, x, name, recv, args, kws, star, every):
        """A package method known by name only: every method of that name."""
        r = CLEAN
        for f in self.p.methods.get(name, []):
            if f.kind == "property":
                continue
            r = r | self.bind(x, f, ([] if f.kind == "static" else [data(recv)]) + args, kws, star, every)
        return r

    def method(self, x, f, recv, args, kws, star, every, e, ctx):
        m = f.attr
        sup = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"
        shared = self.shared(recv)
        r = CLEAN
        cls = [k[1] for k in recv if k[0] == "REF" and isinstance(k[1], type)]
        ext = [k for k in recv if k[0] == "REF" and not isinstance(k[1], type)]
        package = [g for g in self.p.methods.get(m, []) if g.kind != "property"]
        stored = [k for k in self.heap.get(m, CLEAN) if k[0] in ("REF", "BOUND")]
        for k in stored:
            r = r | (self.ref(x, k[1], args, kws, star, every) if k[0] == "REF" else self.named(x, k[1], CLEAN, args, kws, star, every))
        if cls:
            for c in cls:
                g = self.p.mro_method(c, m) if self.p.owned(c) else None
                if g is None:
                    if self.shared(every) or SET in every:
                        self.fail(x, "shared value passed to %s.%s" % (c.__name__, m))
                    self.opaque.add(c.__name__ + "." + m)
                else:
                    first = [] if g.kind == "static" else [frozenset({("REF", c)})] if g.kind == "class" else []
                    r = r | self.bind(x, g, first + args, kws, star, every)
            if all(self.p.owned(c) and self.p.mro_method(c, m) for c in cls) and not shared:
                return r
        self_ = isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") or sup
        mine = None
        if self_ and package and ctx["fn"].cls is not None:
            here = ctx["fn"].cls
            if self.cls is not None and issubclass(self.cls, here):
                cs = [self.cls]
            else:
                cs = [c for c in self.p.classes if issubclass(c, here)]
            mine = {self.p.mro_method(c, m, here if sup else None) for c in cs} - {None}
        if mine:
            for g in mine:
                r = r | self.bind(x, g, ([] if g.kind == "static" else [data(recv) | frozenset(k for k in recv if k[0] == "REF")]) + args, kws, star, every)
            if len(mine) == len(cs) or m not in READS | MUTATORS:
                return r
        elif package:
            r = r | self.named(x, m, recv, args, kws, star, every)
            if self_ and m not in READS | MUTATORS:
                return r
        # what a method of a builtin container or of a library object may do
        if SET in recv:
            if m == "pop" and isinstance(f.value, ast.Name) and "%single:" + f.value.id in e:
                return r
            if m not in SET_METHODS and not package:
                self.fail(x, "method %s of a hash-ordered collection" % m)
            if self.shared(every):
                self.fail(x, "a shared value is stored")
            return r | (frozenset({SET}) if m in ("union", "difference", "intersection") else CLEAN)
        if SET in every and not package:
            self.fail(x, "a hash-ordered collection passed to method " + m)
        if shared:
            if m in MUTATORS and self.owned(recv):
                self.fail(x, "%s() on a shared value" % m, True)
            if m in KEYS:
                return r
            if m in READS:
                for k, v in kws:
                    r = r | v
                for v in args:
                    r = r | data(v)
                if m == "copy":
                    return r | shallow(data(recv))
                return r | (shallow(data(recv)) if m in ("items", "values") else step(recv))
            if not package:
                self.fail(x, "unknown method %s of a shared value" % m)
            return r
        if m in MUTATORS and self.shared(every):
            self.fail(x, "a shared value is stored by %s()" % m)
        if m in MUTATORS:
            self.escape(f.value, every, e, x)
        if not package and m not in READS:
            if self.shared(every):
                self.fail(x, "a shared value is passed to unknown method " + m)
            self.opaque.add("." + m)
        elif self.shared(every) and not package:
            for v in args + [v for _, v in kws]:
                r = r | data(v)
        if not package:
            self.callbacks(frozenset(k for k in every if k[0] in ("REF", "BOUND")), every, x)
        return r


class Lam:
    def __init__(self, node, env_, fn):
        self.node, self.env, self.fn = node, env_, fn

    def __eq__(self, o):
        return isinstance(o, Lam) and o.node is self.node and o.env == self.env

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return "Lam@%s:%s" % (self.fn, self.node.lineno)


# ------------------------------------------------------------------------------------------------ attributes that survive a call
TOP = None


class Fields:
    """Definite assignment of the attributes of self before they are read, along every path of one method."""

    def __init__(self, pkg, cls, volatile):
        self.p, self.cls, self.volatile = pkg, cls, volatile
        self.memo = {}
        self.active = set()

    def check(self, name):
        for _ in range(10):
            self.changed = False
            self.done = set()
            exp, _ = self.method(name, None)
            if not self.changed:
                return exp
        raise Unsupported("no fixpoint")

    def bare(self, fn):
        """A method without parameters run on an object that has no attribute at all: what it reads it has assigned."""
        a = fn.node.args
        if len(a.args) != 1 or a.vararg or a.kwonlyargs or a.kwarg or fn.kind != "method":
            return None
        try:
            o = object.__new__(self.cls)
            getattr(o, fn.node.name)()
            return set(vars(o))
        except Exception:
            return None

    def method(self, name, after):
        fn = self.p.mro_method(self.cls, name, after)
        if fn is None:
            return {}, set()
        key = fn
        if key in self.done:
            return self.memo[key]
        self.done.add(key)
        self.memo.setdefault(key, ({}, TOP))
        if after is None:
            got = self.bare(fn)
            if got is not None:
                self.memo[key] = ({}, got)
                return self.memo[key]
        s = {"fn": fn, "exp": {}, "exits": [], "self": fn.node.args.args[0].arg if fn.node.args.args and fn.kind != "static" else None}
        if s["self"] is None or fn.kind == "class":
            self.memo[key] = ({}, set())
            return self.memo[key]
        end = self.block(fn.node.body, set(), s)
        outs = [d for d in s["exits"] + [end] if d is not TOP]
        defs = set.intersection(*map(set, outs)) if outs else TOP
        old = self.memo[key]
        if set(s["exp"]) - set(old[0]) or old[1] != defs:
            self.changed = True
        self.memo[key] = (s["exp"], defs)
        return self.memo[key]

    def block(self, stmts, d, s):
        for st in stmts:
            if d is TOP:
                break
            d = self.stmt(st, d, s)
        return d

    @staticmethod
    def meet(a, b):
        return b if a is TOP else a if b is TOP else a & b

    def stmt(self, st, d, s):
        t = type(st)
        if t in (ast.Assign, ast.AnnAssign, ast.AugAssign):
            targets = st.targets if t is ast.Assign else [st.target]
            if st.value is not None:
                d = self.ev(st.value, d, s)
            if t is ast.AugAssign:
                d = self.ev(ast.Attribute(st.target.value, st.target.attr, ast.Load()) if isinstance(st.target, ast.Attribute)
                            else st.target.value if isinstance(st.target, ast.Subscript) else ast.Constant(0), d, s)
            for g in targets:
                d = self.target(g, d, s)
            return d
        if t is ast.Expr:
            return self.ev(st.value, d, s)
        if t is ast.Return:
            if st.value is not None:
                d = self.ev(st.value, d, s)
            s["exits"].append(d)
            return TOP
        if t is ast.Raise:
            for y in (st.exc, st.cause):
                if y is not None:
                    d = self.ev(y, d, s)
            return TOP
        if t is ast.If:
            d = self.ev(st.test, d, s)
            return self.meet(self.block(st.body, set(d), s), self.block(st.orelse, set(d), s))
        if t is ast.For:
            d = self.ev(st.iter, d, s)
            b = self.target(st.target, set(d), s)
            self.block(st.body, b, s)
            self.block(st.orelse, set(d), s)
            return d
        if t is ast.While:
            d = self.ev(st.test, d, s)
            self.block(st.body, set(d), s)
            self.block(st.orelse, set(d), s)
            return d
        if t is ast.Try:
            b = self.block(st.body, set(d), s)
            b = self.block(st.orelse, b, s) if b is not TOP else TOP
            out = b
            for h in st.handlers:
                out = self.meet(out, self.block(h.body, set(d), s))
            if st.finalbody:
                f = self.block(st.finalbody, set(d), s)
                out = TOP if f is TOP else out if out is TOP else out | f
            return out
        if t is ast.With:
            for i in st.items:
                d = self.ev(i.context_expr, d, s)
                if i.optional_vars is not None:
                    d = self.target(i.optional_vars, d, s)
            return self.block(st.body, d, s)
        if t in (ast.Break, ast.Continue):
            return TOP
        if t is ast.Delete:
            for g in st.targets:
                if self.is_self(getattr(g, "value", None), s) and isinstance(g, ast.Attribute):
                    d = d - {g.attr}
            return d
        if t is ast.Assert:
            return self.ev(st.test, d, s)
        if t is ast.FunctionDef:
            self.block(st.body, set(d), s)
            return d
        if t is ast.Pass:
            return d
        raise Unsupported("statement %s in %s" % (t.__name__, s["fn"]))

    def is_self(self, x, s):
        return isinstance(x, ast.Name) and x.id == s["self"]

    def target(self, g, d, s):
        if isinstance(g, ast.Attribute):
            if self.is_self(g.value, s):
                if isinstance(getattr(self.cls, g.attr, None), property):
                    f = next(f for f in self.p.methods[g.attr] if any(isinstance(x, ast.Attribute) and x.attr == "setter" for x in f.node.decorator_list))
                    sub = {"fn": f, "exp": {}, "exits": [], "self": f.node.args.args[0].arg}
                    self.block(f.node.body, set(d), sub)
                    s["exp"].update(sub["exp"])
                    return d
                return d | {g.attr}
            return self.ev(g.value, d, s)
        if isinstance(g, (ast.Tuple, ast.List)):
            for x in g.elts:
                d = self.target(x, d, s)
            return d
        if isinstance(g, ast.Starred):
            return self.target(g.value, d, s)
        if isinstance(g, ast.Subscript):
            return self.ev(g.slice, self.ev(g.value, d, s), s)
        return d

    def enter(self, name, after, d, s, definite):
        exp, defs = self.method(name, after)
        for k, where in exp.items():
            if k not in d:
                s["exp"].setdefault(k, where)
        if definite:
            if defs is TOP:
                return d
            return d | defs
        return d

    def ev(self, x, d, s):
        if x is None:
            return d
        t = type(x)
        if t is ast.Name:
            if x.id == s["self"]:
                raise Unsupported("%s line %s: self is passed on" % (s["fn"], getattr(x, "lineno", "?")))
            return d
        if t is ast.Attribute and self.is_self(x.value, s):
            return self.read(x, d, s)
        if t is ast.Call:
            f = x.func
            if isinstance(f, ast.Name) and f.id in ("super", "isinstance", "type", "hasattr") and any(self.is_self(a, s) for a in x.args):
                if f.id == "hasattr":
                    raise Unsupported("hasattr(self)")
                return d
            for a in x.args:
                d = self.ev(a.value if isinstance(a, ast.Starred) else a, d, s)
            for k in x.keywords:
                d = self.ev(k.value, d, s)
            if isinstance(f, ast.Attribute):
                if self.is_self(f.value, s) and self.p.mro_method(self.cls, f.attr) is not None and not isinstance(
                        getattr(self.cls, f.attr, None), property):
                    return self.enter(f.attr, None, d, s, True)
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                    return self.enter(f.attr, s["fn"].cls, d, s, True)
            return self.ev(f, d, s)
        if t in (ast.BoolOp,):
            first = True
            for y in x.values:
                r = self.ev(y, set(d), s)
                if first:
                    d, first = r, False
            return d
        if t is ast.IfExp:
            d = self.ev(x.test, d, s)
            self.ev(x.body, set(d), s)
            self.ev(x.orelse, set(d), s)
            return d
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            d = self.ev(x.generators[0].iter, d, s)
            e = set(d)
            for i, g in enumerate(x.generators):
                if i:
                    e = self.ev(g.iter, e, s)
                for y in g.ifs:
                    e = self.ev(y, e, s)
            for y in ([x.key, x.value] if t is ast.DictComp else [x.elt]):
                e = self.ev(y, e, s)
            return d
        if t is ast.Lambda:
            self.ev(x.body, set(d), s)
            return d
        for y in ast.iter_child_nodes(x):
            if isinstance(y, ast.expr) or isinstance(y, ast.keyword):
                d = self.ev(y.value if isinstance(y, ast.keyword) else y, d, s)
        return d

    def read(self, x, d, s):
        v = inspect.getattr_static(self.cls, x.attr, None)
        if isinstance(v, property):
            f = next((f for f in self.p.methods.get(x.attr, []) if f.kind == "property" and f.cls in self.cls.__mro__), None)
            if f is None:
                raise Unsupported("property " + x.attr)
            sub = {"fn": f, "exp": {}, "exits": [], "self": f.node.args.args[0].arg}
            self.block(f.node.body, set(d), sub)
            s["exp"].update({k: w for k, w in sub["exp"].items() if k not in d})
            return d
        if self.p.mro_method(self.cls, x.attr) is not None:
            return self.enter(x.attr, None, d, s, False)        # a bound method handed on: it may run from here on
        if x.attr in ("__class__",):
            return d
        if x.attr in self.volatile and x.attr not in d:
            s["exp"].setdefault(x.attr, "%s line %s" % (s["fn"], getattr(x, "lineno", "?")))
        return d


def volatile(pkg, cls, make):
    """Attributes of cls that a call may change: stored outside __init__, or holding a mutable object."""
    v = set()
    for c in cls.__mro__:
        for f in pkg.fns:
            if f.cls is c and f.node.name != "__init__" and f.kind in ("method", "property") and f.node.args.args:
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                        v.add(n.attr)
    o = make()
    for k, x in vars(o).items():
        if depth(x) or not (isinstance(x, _IMMUTABLE) or isinstance(x, tuple) or type(x).__module__ == "pycaption.geometry"):
            v.add(k)
    known = set(vars(o)) | {k for c in cls.__mro__ for k in vars(c)}
    for c in cls.__mro__:
        for f in pkg.fns:
            if f.cls is c and f.kind in ("method", "property") and f.node.args.args:
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr not in known:
                        v.add(n.attr)
    return v


def _fresh_local(f, name):
    """name is assigned once in f, by a call of a class"""
    found = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(g, ast.Name) and g.id == name for g in n.targets)]
    return (len(found) == 1 and isinstance(found[0].value, ast.Call) and isinstance(found[0].value.func, ast.Name)
            and (found[0].value.func.id == "cls" or isinstance(vars(f.module).get(found[0].value.func.id), type)))


def geometry_immutable(pkg):
    """Objects of geometry.py are assigned only by their own __init__."""
    import pycaption.geometry as g
    attrs, other = set(), set()
    for f in pkg.fns:
        if f.cls is None or not f.node.args.args:
            continue
        me = f.node.args.args[0].arg
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                own = isinstance(n.value, ast.Name) and n.value.id == me
                if f.module is g:
                    if not (own and f.node.name == "__init__" or isinstance(n.value, ast.Name) and _fresh_local(f, n.value.id)):
                        raise Unsupported("%s line %s: a geometry object is changed" % (f, n.lineno))
                    attrs.add(n.attr)
                elif own and f.node.name == "__init__":
                    other.add(n.attr)
    for c in pkg.classes:
        if c.__module__ == g.__name__ and not issubclass(c, enum.Enum):
            for s in getattr(c, "__slots__", ()):
                attrs.add(s)
    for f in pkg.fns:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
                if not (f.module is g and f.node.name == "__init__" and isinstance(n.args[0], ast.Name) and n.args[0].id == f.node.args.args[0].arg):
                    raise Unsupported("%s line %s: setattr" % (f, n.lineno))
            if f.module is not g and isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                own = isinstance(n.value, ast.Name) and f.node.args.args and n.value.id == f.node.args.args[0].arg
                if n.attr in attrs - other and not own:
                    raise Unsupported("%s line %s: attribute %s of a geometry object may be assigned" % (f, n.lineno, n.attr))
    return attrs & other


def no_copy_hooks(pkg):
    for c in pkg.classes:
        for k in ("__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getattr__",
                  "__getattribute__", "__setattr__", "__del__"):
            if k in vars(c):
                raise Unsupported("%s defines %s" % (c.__name__, k))
