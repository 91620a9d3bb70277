"""Models of builtins and library values for the interpreter (trusted; validated by selftest)."""
import ast
import builtins
import collections
import copy
import datetime
import enum
import functools
import itertools
import math
import numbers
import os
import re
import sys
import types
from fractions import Fraction

import z3

from . import fst as F
from . import nft as NT
from .lang import sre_parse
from . import lang as L
from . import rmatch
from . import sym as Y
from .interp import Bound, Closure, Interp, Meth, Super, is_repo_fn, lift, mro_lookup, _MISSING
from .sym import (Blob, BlobList, Dec, Img, Opaque, PathEnd, PyDict, PyList, PyRaise, PySet, Rope, S, SObj,
                  U, Unsupported, Word, is_num, is_str, mk, rope, parts_of)


class Native:
    """A model written in Python: called with (interp, *args)."""

    def __init__(self, f):
        self.f = f


SUPER = object()


class TD:
    """datetime.timedelta, as an integer number of microseconds."""

    def __init__(self, us):
        self.us = us


class SDeque:
    pass


FUNCS = {}
CLASSES = {}
PURE = set()


def model(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


def cmodel(*cs):
    def deco(g):
        for c in cs:
            CLASSES[c] = g
        return g
    return deco


class _Noop:
    __name__ = "noop"


NOOP = _Noop()


def _noop(it, args, kwargs):
    return None


FUNCS[NOOP] = _noop

# Interp.call looks FUNCS up by identity/hash; Native wrappers are dispatched here
_orig_call = Interp.call


def _call(self, f, args=(), kwargs=None):
    if isinstance(f, Bound) and isinstance(f.fn, Native):
        return f.fn.f(self, f.self_, *args, **(kwargs or {}))
    if isinstance(f, Native):
        return f.f(self, *args, **(kwargs or {}))
    return _orig_call(self, f, args, kwargs)


Interp.call = _call


# ---------------------------------------------------------------- conversions

def to_native(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (PySet,)):
        return {to_native(x) for x in v.items}
    if isinstance(v, PyList):
        return [to_native(x) for x in v.items]
    if isinstance(v, PyDict):
        return {to_native(k): to_native(x) for k, x in v.pairs}
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(to_native(x) for x in v)
    if isinstance(v, (S, Rope, SObj, Opaque, U, Closure, Bound, Meth, Blob, Word, TD)):
        raise Unsupported("symbolic value where a concrete one is needed")
    return v


def from_native(v):
    if isinstance(v, float):
        return Fraction(repr(v))
    if type(v) is list:
        return PyList([from_native(x) for x in v])
    if type(v) is dict:
        return PyDict([[from_native(k), from_native(x)] for k, x in v.items()])
    if type(v) in (set, frozenset):
        return PySet(sorted((from_native(x) for x in v), key=repr))
    if type(v) is tuple:
        return tuple(from_native(x) for x in v)
    if type(v).__module__.startswith(Y.SCOPE) and hasattr(v, "__dict__") and not isinstance(v, (type, enum.Enum)):
        return SObj(type(v), {k: from_native(x) for k, x in v.__dict__.items()})
    return v


def concrete(v):
    try:
        to_native(v)
        return True
    except Unsupported:
        return False


def getattr_hook(it, o, name):
    if isinstance(o, TD):
        us = o.us
        if name == "days":
            return Y.floordiv(us, 86400 * 10 ** 6)
        if name == "seconds":
            return Y.mod(Y.floordiv(us, 10 ** 6), 86400)
        if name == "microseconds":
            return Y.mod(us, 10 ** 6)
        return Meth(o, name)
    if isinstance(o, rmatch.SMatch):
        return Meth(o, name)
    if isinstance(o, collections.deque):
        return Meth(o, name)
    return NotImplemented


def get_method(it, o, name):
    if isinstance(o, (str, Rope)):
        return Meth(o, name) if hasattr(str, name) else _MISSING
    if isinstance(o, (PySet, set, frozenset)):
        return Meth(o, name) if hasattr(set, name) else _MISSING
    if isinstance(o, (PyList, list)):
        return Meth(o, name) if hasattr(list, name) else _MISSING
    if isinstance(o, (PyDict, dict)):
        return Meth(o, name) if hasattr(dict, name) else _MISSING
    if isinstance(o, tuple):
        return Meth(o, name) if hasattr(tuple, name) else _MISSING
    if isinstance(o, S):
        base = {"int": int, "bool": bool, "float": float}[o.k]
        return Meth(o, name) if hasattr(base, name) else _MISSING
    if isinstance(o, U):
        at = getattr(o, "attrs", None)
        if at and name in at:
            return at[name]
    raise Unsupported("attribute %s of %r" % (name, o))


# ---------------------------------------------------------------- numbers

def num_kind(x):
    if isinstance(x, S):
        return x.k
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    return "float"


def binop(it, op, name, a, b):
    if is_num(a) and is_num(b):
        ka, kb = num_kind(a), num_kind(b)
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op in (ast.Div, ast.FloorDiv, ast.Mod):
            if isinstance(a, S) or isinstance(b, S):
                return {ast.Div: Y.truediv, ast.FloorDiv: Y.floordiv, ast.Mod: Y.mod}[op](a, b)
            if b == 0:
                raise PyRaise(ZeroDivisionError, ("division by zero",))
            if op is ast.Div:
                return Fraction(a) / Fraction(b)
            r = a // b if op is ast.FloorDiv else a % b
            return Fraction(r) if "float" in (ka, kb) else r
        if op is ast.Pow and not isinstance(a, S) and not isinstance(b, S):
            r = a ** b
            return r if isinstance(r, (int, Fraction)) else Fraction(repr(r))
        if op in (ast.BitAnd, ast.BitOr) and ka == kb == "bool":
            return Y.and_(a, b) if op is ast.BitAnd else Y.or_(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return {"and": a & b, "or": a | b, "xor": a ^ b, "lshift": None, "rshift": None}[name] \
                if name in ("and", "or", "xor") else (a << b if name == "lshift" else a >> b)
        raise Unsupported("operator %s on symbolic numbers" % name)
    if op in (ast.BitAnd, ast.BitOr) and isinstance(a, (bool, S)) and not isinstance(b, (SObj, PySet)):
        # bool & (object from an `and` chain)
        if not is_num(b):
            raise PyRaise(TypeError, ("unsupported operand",))
    if isinstance(a, SObj) or isinstance(b, SObj):
        for x, y, n in ((a, b, "__%s__" % name), (b, a, "__r%s__" % name)):
            if isinstance(x, SObj):
                c, d = mro_lookup(x.cls, n)
                if isinstance(d, types.FunctionType):
                    return it.call(d, [x, y])
        ad = a.data if isinstance(a, SObj) else a
        bd = b.data if isinstance(b, SObj) else b
        if isinstance(ad, PyList) and isinstance(bd, PyList):
            return binop(it, op, name, ad, bd)
        raise PyRaise(TypeError, ("unsupported operand type(s)",))
    if is_str(a) and is_str(b) and op is ast.Add:
        return rope(a, b)
    if op is ast.Mult and is_str(a) and isinstance(b, int):
        return rope(*([a] * b)) if b > 0 else ""
    if op is ast.Mult and is_str(b) and isinstance(a, int):
        return rope(*([b] * a)) if a > 0 else ""
    if op is ast.Add and isinstance(a, (PyList, list)) and isinstance(b, (PyList, list)):
        return PyList(seq_items(it, a) + seq_items(it, b))
    if op is ast.Mult and isinstance(a, PyList) and isinstance(b, int):
        return PyList(a.items * b)
    if op is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op is ast.Mult and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if op is ast.Mod and isinstance(a, str):
        try:
            nb = to_native(b)
        except Unsupported:
            return percent(it, a, b)
        try:
            return a % nb
        except (TypeError, ValueError) as e:
            raise PyRaise(type(e), e.args)
    if isinstance(a, PySet) and isinstance(b, PySet):
        if op is ast.Sub:
            return PySet([x for x in a.items if not it.truth(contains(it, b, x))])
        if op is ast.BitOr:
            r = PySet(a.items)
            for x in b.items:
                method(it, r, "add", [x], {})
            return r
        if op is ast.BitAnd:
            return PySet([x for x in a.items if it.truth(contains(it, b, x))])
    if isinstance(a, (Opaque, U)) or isinstance(b, (Opaque, U)):
        raise Unsupported("operator on %r, %r" % (a, b))
    if isinstance(a, TD) or isinstance(b, TD):
        if isinstance(a, TD) and isinstance(b, TD):
            if op is ast.Add:
                return TD(a.us + b.us)
            if op is ast.Sub:
                return TD(a.us - b.us)
            if op is ast.FloorDiv:
                return Y.floordiv(a.us, b.us)
            if op is ast.Div:
                return Y.truediv(a.us, b.us)
        raise Unsupported("timedelta operator")
    if op is ast.Mod and is_str(a):
        raise Unsupported("%-formatting of a symbolic format")
    if not (plain_type(a) and plain_type(b)):
        raise Unsupported("operator %s on %r, %r" % (name, a, b))
    raise PyRaise(TypeError, ("unsupported operand type(s) for %s: %s, %s" % (name, it.tname(a), it.tname(b)),))


def plain_type(v):
    """the Python type of v is known and the operator tables above are complete for it"""
    return v is None or is_num(v) or is_str(v) or isinstance(v, (PyList, PyDict, tuple, list, dict))


def percent(it, fmt, args):
    """fmt % args for a concrete fmt"""
    if isinstance(args, PyDict):
        take = None
    else:
        take = list(args) if isinstance(args, tuple) else [args]
    out, i, k = [], 0, 0
    for m in re.finditer(r"%(?:\(([^)]*)\))?([-0 +#]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", fmt):
        out.append(fmt[i:m.start()])
        i = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        if key is not None:
            v = getitem(it, args, key)
        else:
            if take is None or k >= len(take):
                raise PyRaise(TypeError, ("not enough arguments for format string",))
            v = take[k]
            k += 1
        if conv == "s" and not flags and not width and not prec:
            out.append(str_(it, v))
        elif conv in "di" and flags in ("", "0") and prec is None and is_num(v) and (not width or flags == "0"):
            out.append(format_(it, Y.trunc(v) if isinstance(v, S) or num_kind(v) == "float" else v, (flags + width or "") + "d"))
        elif conv == "f" and not flags and not width and is_num(v):
            out.append(format_(it, Y.to_float(v) if isinstance(v, S) else v, ".%sf" % (prec or "6")))
        else:
            try:
                out.append(("%" + flags + width + ("." + prec if prec else "") + conv) % (to_native(v),))
            except Unsupported:
                raise Unsupported("conversion %r of %r" % (m.group(0), v))
    if take is not None and k < len(take):
        raise PyRaise(TypeError, ("not all arguments converted during string formatting",))
    out.append(fmt[i:])
    return rope(*[x for x in out if not (isinstance(x, str) and x == "")])


def order(it, name, a, b):
    sw = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}
    if is_num(a) and is_num(b):
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[name]()
    if isinstance(a, SObj) or isinstance(b, SObj):
        for x, y, n in ((a, b, name), (b, a, sw[name])):
            if isinstance(x, SObj):
                c, d = mro_lookup(x.cls, "__%s__" % n)
                if isinstance(d, types.FunctionType):
                    r = it.call(d, [x, y])
                    if r is not NotImplemented:
                        return r
        raise PyRaise(TypeError, ("'<' not supported",))
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not it.truth(it.eq(x, y)):
                return order(it, name, x, y)
        return {"lt": len(a) < len(b), "le": len(a) <= len(b), "gt": len(a) > len(b), "ge": len(a) >= len(b)}[name]
    if isinstance(a, str) and isinstance(b, str):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[name]
    if isinstance(a, TD) and isinstance(b, TD):
        return order(it, name, a.us, b.us)
    if is_str(a) and is_str(b):
        raise Unsupported("ordering of symbolic strings")
    if isinstance(a, (U, Opaque)) or isinstance(b, (U, Opaque)):
        raise Unsupported("ordering of %r" % (a,))
    raise PyRaise(TypeError, ("'%s' not supported between %s and %s" % (name, it.tname(a), it.tname(b)),))


@model(math.floor)
def _floor(it, args, kw):
    return Y.floor(args[0])


@model(math.ceil)
def _ceil(it, args, kw):
    return Y.ceil(args[0])


@model(math.trunc)
def _trunc(it, args, kw):
    return Y.trunc(args[0])


@model(abs)
def _abs(it, args, kw):
    x = args[0]
    if isinstance(x, SObj):
        c, d = mro_lookup(x.cls, "__abs__")
        return it.call(d, [x])
    return abs(x)


@model(round)
def _round(it, args, kw):
    x = args[0]
    nd = args[1] if len(args) > 1 else None
    if not isinstance(x, S):
        r = round(x) if nd is None else round(x, nd)
        return r
    return Y.round_half_even(x, nd)


@model(divmod)
def _divmod(it, args, kw):
    a, b = args
    return (binop(it, ast.FloorDiv, "floordiv", a, b), binop(it, ast.Mod, "mod", a, b))


@cmodel(int)
def _int(it, args, kw):
    if not args:
        return 0
    x = args[0]
    if len(args) == 2:
        if isinstance(x, str):
            try:
                return int(x, args[1])
            except ValueError as e:
                raise PyRaise(ValueError, e.args)
        raise Unsupported("int(symbolic, base)")
    if isinstance(x, S):
        return Y.trunc(x)
    if isinstance(x, bool) or isinstance(x, int):
        return int(x)
    if isinstance(x, Fraction):
        return math.trunc(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError as e:
            raise PyRaise(ValueError, e.args)
    if isinstance(x, Rope):
        return rope_int(it, x)
    if x is None:
        raise PyRaise(TypeError, ("int() argument must be a string or a number",))
    raise Unsupported("int(%r)" % (x,))


_NUMWS = "\\s*"
INT_LANG = L.rx(r"\s*[+-]?\d+(_\d+)*\s*")
FLOAT_LANG = L.rx(r"\s*[+-]?((\d+(_\d+)*)?\.?(\d+(_\d+)*)?([eE][+-]?\d+(_\d+)*)?|[iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN])\s*")
DIGITS = L.plus(L.DIGIT)


def rope_int(it, x):
    lg = x.lang()
    if lg.disjoint(INT_LANG):
        raise PyRaise(ValueError, ("invalid literal for int()",))
    if not lg.subset(INT_LANG):
        if not decide_lang(it, x, INT_LANG):
            raise PyRaise(ValueError, ("invalid literal for int()",))
        lg = x.lang()
    x = strip(it, x, None, True, True)
    if isinstance(x, str):
        return int(x)
    ps = parts_of(x)
    neg = False
    if isinstance(ps[0], str) and ps[0][:1] in "+-":
        neg = ps[0][0] == "-"
        ps = parts_of(rope(ps[0][1:], *ps[1:]))
    v = digits_value(ps)
    if v is None:
        raise Unsupported("int() of %r" % (x,))
    return mk(-v if neg else v, "int")


def digits_value(ps):
    """Value of a concatenation of digit parts, or None."""
    total, scale = z3.IntVal(0), 1
    for k in range(len(ps) - 1, -1, -1):
        p = ps[k]
        last = k == 0 or all(isinstance(q, str) and set(q) <= {"0"} for q in ps[:k])
        if isinstance(p, str):
            if not p.isdigit():
                return None
            total = total + int(p) * scale
            scale *= 10 ** len(p)
        elif isinstance(p, Dec):
            total = total + p.t * scale
            w = p.fixed()
            if w is None:
                if not last:
                    return None
            else:
                scale *= 10 ** w
        elif isinstance(p, Word) and p.is_digits():
            total = total + p.val() * scale
            if p.lo != p.hi:
                if not last:
                    return None
            else:
                scale *= 10 ** p.lo
        else:
            return None
    return total


@cmodel(float)
def _float(it, args, kw):
    if not args:
        return Fraction(0)
    x = args[0]
    if isinstance(x, S):
        return Y.to_float(x)
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, str):
        try:
            f = float(x)
        except ValueError as e:
            raise PyRaise(ValueError, e.args)
        try:
            return Fraction(x.strip().replace("_", ""))
        except ValueError:
            raise Unsupported("float(%r)" % x)
    if isinstance(x, Rope):
        lg = x.lang()
        if lg.disjoint(FLOAT_LANG):
            raise PyRaise(ValueError, ("could not convert string to float",))
        ps = parts_of(strip(it, x, None, True, True))
        dot = [(k, p.index(".")) for k, p in enumerate(ps) if isinstance(p, str) and "." in p]
        if not dot:
            v = digits_value(ps)
            if v is None:
                raise Unsupported("float(%r)" % x)
            return mk(z3.ToReal(v), "float")
        k, i = dot[0]
        ip = parts_of(rope(*ps[:k], ps[k][:i]))
        fp = parts_of(rope(ps[k][i + 1:], *ps[k + 1:]))
        v = digits_value(ip) if ip else z3.IntVal(0)
        f = frac_value(fp)
        if v is None or f is None:
            raise Unsupported("float(%r)" % x)
        return mk(z3.ToReal(v) + f, "float")
    if x is None:
        raise PyRaise(TypeError, ("float() argument must be a string or a number",))
    if isinstance(x, SObj):
        raise PyRaise(TypeError, ("float() argument",))
    raise Unsupported("float(%r)" % (x,))


FRACTION_LANG = L.rx(r"\s*[+-]?((\d+(_\d+)*)?(/\d+(_\d+)*)?|(\d+(_\d+)*)?\.?(\d+(_\d+)*)?([eE][+-]?\d+(_\d+)*)?)\s*")
PLAIN_DECIMAL = L.rx(r"\d+(\.\d+)?")


@cmodel(Fraction)
def _fraction(it, args, kw):
    if len(args) == 2 and all(is_num(a) for a in args):
        return binop(it, ast.Div, "truediv", _float(it, args[:1], {}), args[1])
    if len(args) > 1 or kw:
        raise Unsupported("Fraction%r" % (args,))
    x = args[0] if args else 0
    if isinstance(x, str):
        try:
            return Fraction(x)
        except (ValueError, ZeroDivisionError) as e:
            raise PyRaise(type(e), e.args)
    if isinstance(x, Rope):
        if x.lang().disjoint(FRACTION_LANG):
            raise PyRaise(ValueError, ("Invalid literal for Fraction",))
        if not x.lang().subset(PLAIN_DECIMAL):
            raise Unsupported("Fraction(%r)" % (x,))
    return _float(it, [x], {})


def frac_value(ps):
    """0.<ps> as a real term"""
    total, scale = z3.RealVal(0), Fraction(1)
    for k, p in enumerate(ps):
        if isinstance(p, str):
            if not p.isdigit():
                return None
            scale /= 10 ** len(p)
            total = total + z3.RealVal(Fraction(int(p)) * scale)
        elif isinstance(p, Dec):
            w = p.fixed()
            if w is None:
                return None
            scale /= 10 ** w
            total = total + z3.ToReal(p.t) * z3.RealVal(scale)
        elif isinstance(p, Word) and p.is_digits():
            if p.lo == p.hi:
                scale /= 10 ** p.lo
                total = total + z3.ToReal(p.val()) * z3.RealVal(scale)
            else:
                if k != len(ps) - 1:
                    return None
                total = total + p.frac() * z3.RealVal(scale)
        else:
            return None
    return total


@cmodel(bool)
def _bool(it, args, kw):
    if not args:
        return False
    v = args[0]
    if isinstance(v, S):
        return mk(Y.truth_term(v), "bool")
    return it.truth(v)


# ---------------------------------------------------------------- strings

def str_(it, x):
    if isinstance(x, (str, Rope)):
        return x
    if isinstance(x, S):
        if x.k == "int":
            return dec(it, x, 1)
        if x.k == "bool":
            return "True" if it.truth(x) else "False"
        return float_str(it, x)
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        return repr(float(x))
    if x is None:
        return "None"
    if isinstance(x, SObj):
        for n in ("__str__", "__repr__"):
            c, d = mro_lookup(x.cls, n)
            if isinstance(d, types.FunctionType):
                return it.call(d, [x])
        if issubclass(x.cls, BaseException):
            a = x.attrs.get("args", ())
            if len(a) == 1:
                return str_(it, a[0])
        return "<%s object>" % x.cls.__name__
    if isinstance(x, Opaque) and "__str__" in x.attrs:
        return x.attrs["__str__"](it)
    if isinstance(x, (PyList, PyDict, tuple)):
        return "<container>"
    if isinstance(x, (enum.Enum, type)):
        return str(x)
    raise Unsupported("str(%r)" % (x,))


def float_str(it, x):
    """str() of a symbolic float: only the two decimal case the code relies on."""
    raise Unsupported("str() of a symbolic float")


def repr_(it, x):
    if isinstance(x, SObj):
        c, d = mro_lookup(x.cls, "__repr__")
        if isinstance(d, types.FunctionType):
            return it.call(d, [x])
    if isinstance(x, (str, int, bool, type(None))):
        return repr(x)
    if isinstance(x, Rope):
        return "<repr>"
    return str_(it, x)


@model(repr)
def _repr(it, args, kw):
    return repr_(it, args[0])


@cmodel(str)
def _str(it, args, kw):
    return str_(it, args[0]) if args else ""


def dec(it, x, width):
    if not isinstance(x, S):
        return str(x).zfill(width) if x >= 0 else "-" + str(-x).zfill(width - 1)
    t = Y.as_int_term(x.t, x.k)
    if it.ctx.branch(t >= 0):
        return rope(Dec(z3.simplify(t), max(width, 1)))
    return rope("-", Dec(z3.simplify(-t), max(width - 1, 1)))


def format_(it, x, spec):
    if isinstance(spec, Rope):
        raise Unsupported("symbolic format spec")
    if isinstance(x, SObj):
        c, d = mro_lookup(x.cls, "__format__")
        if isinstance(d, types.FunctionType):
            return it.call(d, [x, spec])
        x = str_(it, x)
    if spec == "":
        return str_(it, x)
    if is_str(x):
        m = re.fullmatch(r"\.(\d+)s?", spec)
        if m:
            return getitem(it, x, slice(None, int(m.group(1)), None))
        if isinstance(x, str):
            return format(x, spec)
        m = re.fullmatch(r"(.)?([<>])(\d+)s?", spec)
        if m:
            return pad(it, x, int(m.group(3)), m.group(1) or " ", m.group(2) == "<")
        raise Unsupported("format spec %r" % spec)
    if is_num(x):
        k = num_kind(x)
        if not isinstance(x, S):
            return format(float(x) if isinstance(x, Fraction) else x, spec)
        m = re.fullmatch(r"0?(\d*)d?", spec)
        if m and k in ("int", "bool") and (spec.startswith("0") or not m.group(1)):
            return dec(it, x, int(m.group(1) or 1))
        m = re.fullmatch(r"0?(\d*)([xX])", spec)
        if m and k == "int" and (spec.startswith("0") or not m.group(1)):
            w = int(m.group(1) or 1)
            if it.ctx.known(z3.And(x.t >= 0, x.t < 16 ** 6)):
                hi = 6 if not it.ctx.known(x.t < 16 ** w) else w
                return rope(Word("hex", L.rep(L.A.chars("0123456789" + ("ABCDEF" if m.group(2) == "X" else "abcdef")), w, max(w, hi))))
        if spec in ("d",) and k == "float":
            raise PyRaise(ValueError, ("Unknown format code 'd' for object of type 'float'",))
        if re.fullmatch(r"0?\d*d", spec) and k == "float":
            raise PyRaise(ValueError, ("Unknown format code 'd' for object of type 'float'",))
        m = re.fullmatch(r"\.(\d+)f", spec)
        if m:
            nd = int(m.group(1))
            r = Y.round_half_even(Y.to_float(x), nd)
            n = Y.trunc(r * 10 ** nd)
            if not isinstance(n, S):
                return format(float(Fraction(n, 10 ** nd)), spec)
            neg = it.ctx.branch(n.t < 0)
            q, r = it.ctx.divmod(-n.t if neg else n.t, 10 ** nd)
            if neg:
                return rope("-", Dec(q), ".", Dec(r, nd))
            return rope(Dec(q), ".", Dec(r, nd))
        raise Unsupported("format spec %r" % spec)
    if x is None:
        raise PyRaise(TypeError, ("unsupported format string passed to NoneType.__format__",))
    raise Unsupported("format(%r)" % (x,))


@model(format)
def _format(it, args, kw):
    return format_(it, args[0], args[1] if len(args) > 1 else "")


def part_len(p):
    """concrete length or None"""
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Dec):
        return p.fixed()
    if isinstance(p, Word):
        return p.lo if p.lo == p.hi else None
    lo, hi = p.lang().len_range()
    return lo if lo == hi else None


def part_min(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Dec):
        return max(1, p.width)
    if isinstance(p, Word):
        return p.lo
    return p.lang().len_range()[0]


def rope_len(it, r):
    total = 0
    for p in parts_of(r):
        n = part_len(p)
        if n is None:
            if isinstance(p, Word):
                n = mk(p.length(), "int")
            elif isinstance(p, Dec):
                # the digit count: exact up to 15 digits, only bounded below from there on
                k = it.ctx.fresh(z3.IntSort(), "digits")
                lo = max(1, p.width)
                it.ctx.assume(k >= lo)
                for w in range(lo, lo + 15):
                    it.ctx.assume((p.t < 10 ** w) == (k <= w))
                n = mk(k, "int")
            else:
                raise Unsupported("length of a transduced word")
        total = total + n
    return total


def rope_nonempty(it, r):
    if any(part_min(p) > 0 for p in parts_of(r)):
        return True
    return decide_lang(it, r, L.TOP - L.EPS)


def residual(X, pre, post):
    q = X.start
    for c in pre:
        q = X.trans[q][L.A.cls(c)]
    acc = set()
    for s in range(len(X.trans)):
        t = s
        for c in post:
            t = X.trans[t][L.A.cls(c)]
        if t in X.acc:
            acc.add(s)
    return L.Lang(X.trans, acc, q).minimize()


def preimage(f, X):
    """{w : f(w) in X}"""
    if isinstance(f, NT.NFT):
        return NT.preimage(f, X)
    ids, trans, acc, todo = {}, [], [], []

    def get(p):
        if p not in ids:
            ids[p] = len(trans)
            trans.append(None)
            todo.append(p)
            if f.final[p[0]] is not None:
                q = p[1]
                for x in f.final[p[0]]:
                    q = X.trans[q][L.A.cls(x)]
                if q in X.acc:
                    acc.append(ids[p])
        return ids[p]
    get((f.start, X.start))
    while todo:
        p = todo.pop()
        row = []
        for a in range(L.N):
            s, out = f.delta[p[0]][a]
            q = p[1]
            for x in out:
                q = X.trans[q][a if x is F.COPY else L.A.cls(x)]
            row.append(get((s, q)))
        trans[ids[p]] = row
    return L.Lang(trans, acc).minimize()


def decide_lang(it, r, X):
    """r in X, as a bool; refines the single unknown word of r when both answers are possible."""
    if isinstance(r, str):
        return X.accepts(r)
    lg = r.lang()
    if lg.subset(X):
        return True
    if lg.disjoint(X):
        return False
    ps = parts_of(r)
    unk = [k for k, p in enumerate(ps) if not isinstance(p, str)]
    for p in ps:
        if isinstance(p, Dec) and p.width == 1 and not it.ctx.known(p.t == 0) and not it.ctx.known(p.t != 0):
            it.ctx.branch(p.t == 0)
            return decide_lang(it, r, X)
    # peel off unknowns that cannot matter is not attempted: exactly one unknown is required
    if len(unk) == 1 and isinstance(ps[unk[0]], (Word, Img)):
        k = unk[0]
        pre = ps[0] if k > 0 else ""
        post = ps[k + 1] if k + 1 < len(ps) else ""
        res = residual(X, pre, post)
        w = ps[k]
        if isinstance(w, Img):
            res, w = preimage(w.f, res), w.word
        yes, no = w.lang() & res, w.lang() - res
        if it.ctx.choose(2, "lang") == 0:
            w.refine(yes)
            return True
        w.refine(no)
        return False
    return split_by_state(it, r, X)


def split_by_state(it, r, X):
    """r in X where r has several unknown words: a case split over the state of X each of them leads to."""
    q = X.start
    ps = parts_of(r)
    for k, p in enumerate(ps):
        rest = None
        for x in ps[k:]:
            lx = L.cat(x) if isinstance(x, str) else x.lang()
            rest = lx if rest is None else L.cat(rest, lx)
        here = L.Lang(X.trans, X.acc, q).minimize()
        if rest.subset(here):
            return True
        if rest.disjoint(here):
            return False
        if isinstance(p, str):
            for c in p:
                q = X.trans[q][L.A.cls(c)]
            continue
        opts = []
        for t in range(len(X.trans)):
            to = L.Lang(X.trans, {t}, q).minimize()
            if isinstance(p, Img):
                to = preimage(p.f, to)
                lg = p.word.lang() & to
            else:
                lg = p.lang() & to
            if not lg.is_empty():
                opts.append((t, lg))
        if len(opts) == 1:
            q = opts[0][0]
            continue
        w = p.word if isinstance(p, Img) else p
        if not isinstance(w, Word) or len(opts) > 8:
            raise Unsupported("language test on %r" % (r,))
        t, lg = opts[it.ctx.choose(len(opts), "state")]
        w.refine(lg)
        q = t
    return q in X.acc


def lang_is(it, r, X):
    """True / False / None (both possible) without forking."""
    if isinstance(r, str):
        return X.accepts(r)
    lg = r.lang()
    if lg.subset(X):
        return True
    if lg.disjoint(X):
        return False
    return None


def str_eq(it, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = parts_of(a), parts_of(b)

    def same(p, q):
        if isinstance(p, str) or isinstance(q, str):
            return False
        if isinstance(p, Word) and isinstance(q, Word):
            return p is q
        if isinstance(p, Word) and isinstance(q, Img):
            p = Img(p, F.IDENT)
        elif isinstance(q, Word) and isinstance(p, Img):
            q = Img(q, F.IDENT)
        if isinstance(p, Dec) and isinstance(q, Dec):
            return p.width == q.width and it.ctx.known(p.t == q.t)
        if isinstance(p, Img) and isinstance(q, Img):
            if p.word is not q.word:
                return False
            if p.f is q.f:
                return True
            try:
                return F.equivalent(p.f, q.f, p.word.lang()) is None
            except F.Delay:
                return False
        return False
    changed = True
    while changed and pa and pb:
        changed = False
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0 or (n < len(x) and n < len(y)):
                return False
            pa = ([x[n:]] if x[n:] else []) + pa[1:]
            pb = ([y[n:]] if y[n:] else []) + pb[1:]
            changed = True
        elif same(x, y):
            pa, pb = pa[1:], pb[1:]
            changed = True
        elif isinstance(x, Dec) and isinstance(y, Dec) and x.width == y.width and x.fixed() is not None \
                and x.fixed() == y.fixed():
            return Y.and_(mk(x.t == y.t, "bool"), it.tb(str_eq(it, Rope(pa[1:]), Rope(pb[1:]))))
    changed = True
    while changed and pa and pb:
        changed = False
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                n += 1
            if n == 0 or (n < len(x) and n < len(y)):
                return False
            pa = pa[:-1] + ([x[:len(x) - n]] if x[:len(x) - n] else [])
            pb = pb[:-1] + ([y[:len(y) - n]] if y[:len(y) - n] else [])
            changed = True
        elif same(x, y):
            pa, pb = pa[:-1], pb[:-1]
            changed = True
    if not pa and not pb:
        return True
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Dec) and isinstance(pb[0], Dec) \
            and pa[0].width == pb[0].width:
        return mk(pa[0].t == pb[0].t, "bool")
    ra, rb = Rope(pa), Rope(pb)
    if ra.lang().disjoint(rb.lang()):
        return False
    for x, y in ((pa, pb), (pb, pa)):
        if all(isinstance(p, str) for p in x):
            lit = "".join(x)
            if len(y) == 1 and isinstance(y[0], Dec):
                d = y[0]
                n = int(lit)
                return mk(d.t == n, "bool")
            if len([p for p in y if not isinstance(p, str)]) == 1:
                return decide_lang(it, Rope(y), L.literal(lit))
            # several unknowns against a literal: split digit by digit when lengths are fixed
            if all(part_len(p) is not None for p in y):
                out, i = True, 0
                for p in y:
                    n = part_len(p)
                    seg = lit[i:i + n]
                    i += n
                    out = Y.and_(out, it.tb(str_eq(it, Rope([p]), seg)))
                return out if i == len(lit) else False
    raise Unsupported("string equality %r == %r" % (ra, rb))


def charset_of(p):
    if isinstance(p, str):
        return frozenset(L.A.cls(c) for c in p)
    if isinstance(p, Dec):
        return L.ASCII_DIGIT
    if isinstance(p, Word):
        return p.letters
    return p.lang().charset()


def strip(it, x, chars, left, right):
    if isinstance(x, str):
        return (x.strip(chars) if right else x.lstrip(chars)) if left else x.rstrip(chars)
    cs = L.STRIPWS if chars is None else L.A.chars(chars)
    ps = parts_of(x)

    def peel(ps, side):
        k = 0 if side == "l" else -1
        while ps:
            p = ps[k]
            if isinstance(p, str):
                q = (p.lstrip(chars) if side == "l" else p.rstrip(chars))
                if q:
                    ps[k] = q
                    return ps
                ps.pop(k)
                continue
            if charset_of(p) <= cs:
                ps.pop(k)
                continue
            lg = p.lang()
            edge = lg.first_chars() if side == "l" else lg.last_chars()
            if not (edge & cs):
                if part_min(p) > 0:
                    return ps
                # possibly empty: then the next part would be exposed
                if len(ps) == 1:
                    return ps
                if isinstance(p, Word):
                    if not decide_lang(it, Rope([p]), L.TOP - L.EPS):
                        ps.pop(k)
                        continue
                    ps[k:k + 1 or None] = parts_of(Rope([p]))
                    return ps
                raise Unsupported("strip at a possibly empty part")
            if isinstance(p, Dec) or (isinstance(p, Word) and p.lo == p.hi and p.lo == 1):
                # digits being stripped ("0"): explode and decide one by one
                if isinstance(p, Dec):
                    ds = p.explode()
                    if ds is None:
                        raise Unsupported("strip of an unbounded number")
                    ps[k:k + 1 or None] = ds
                    d = ps[k]
                    hit = [int(L.A.reps[c]) for c in cs & L.ASCII_DIGIT]
                    if it.ctx.branch(z3.Or([d.t == h for h in hit])):
                        ps.pop(k)
                        continue
                    return ps
                if decide_lang(it, Rope([p]), L.rep(cs, 1, 1)):
                    ps.pop(k)
                    continue
                ps[k:k + 1 or None] = parts_of(Rope([p]))
                return ps
            if isinstance(p, Word) and len(ps) == 1 and not p.is_digits():
                # s.strip() of an arbitrary word: the result is an arbitrary stripped word
                core = L.TOP
                if left:
                    core = core - L.cat(L.rep(cs, 1, 1), L.TOP)
                if right:
                    core = core - L.cat(L.TOP, L.rep(cs, 1, 1))
                memo = p.__dict__.setdefault("strips", {})
                if (cs, left, right) not in memo:
                    w = memo[cs, left, right] = Word(p.name + ".strip", strip_lang(p.lang(), cs, left, right))
                    w.derived = ("strip", p, cs, left, right)
                w = memo[cs, left, right]
                return [w]
            if isinstance(p, Img) and len(ps) == 1:
                return [Img(p.word, F.compose(p.f, NT.strip(cs, left, right)))]
            if isinstance(p, Word) and not p.is_digits():
                # something stands on the other side of the word: the word is blank, or its edge is stripped
                blank = L.star(cs)
                if lang_is(it, Rope([p]), blank) is not False and decide_lang(it, Rope([p]), blank):
                    ps.pop(k)
                    continue
                p = parts_of(Rope([ps[k]]))[0]
                l_, r_ = side == "l", side == "r"
                memo = p.__dict__.setdefault("strips", {})
                if (cs, l_, r_) not in memo:
                    w = memo[cs, l_, r_] = Word(p.name + "." + side + "strip", strip_lang(p.lang(), cs, l_, r_))
                    w.derived = ("strip", p, cs, l_, r_)
                ps[k] = memo[cs, l_, r_]
                return ps
            raise Unsupported("strip at an unconstrained word %r" % (p,))
        return ps
    if left:
        ps = peel(ps, "l")
    if right:
        ps = peel(ps, "r")
    return rope(*ps)


def strip_lang(X, cs, left, right):
    core = L.TOP
    if left:
        core = core - L.cat(L.rep(cs, 1, 1), L.TOP)
    if right:
        core = core - L.cat(L.TOP, L.rep(cs, 1, 1))
    if X.equal(L.TOP):
        return core
    if right:
        X = L.cut_suffix(X, cs)
    if left:
        X = L.cut_prefix(X, cs)
    return (X & core).minimize()


def split(it, x, sep=None, maxsplit=-1):
    if isinstance(x, str):
        return PyList(x.split(sep, maxsplit))
    if sep is None:
        raise Unsupported("whitespace split of a symbolic string")
    if isinstance(sep, Rope):
        raise Unsupported("split by a symbolic separator")
    if maxsplit != -1:
        raise Unsupported("maxsplit")
    segs, cur = [], []
    for p in parts_of(x):
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                segs.append(rope(*cur))
                cur = [b]
        else:
            cur.append(p)
    segs.append(rope(*cur))
    has = L.containing(sep)
    for g in segs:
        if isinstance(g, str):
            continue
        if not L.cat(g.lang(), L.literal(sep[:-1])).disjoint(has) or not L.cat(L.literal(sep[1:]), g.lang()).disjoint(has):
            if len(segs) == 1:
                if decide_lang(it, g, has):
                    raise Unsupported("split of a word containing the separator")
                return PyList([g])
            raise Unsupported("split: separator may occur inside a word")
    return PyList(segs)


def replace(it, x, old, new):
    if isinstance(old, Rope):
        raise Unsupported("replace of a symbolic pattern")
    if isinstance(x, str):
        if isinstance(new, str):
            return x.replace(old, new)
        bits = x.split(old)
        out = [bits[0]]
        for b in bits[1:]:
            out += [new, b]
        return rope(*out)
    ps = parts_of(x)
    has = L.containing(old)
    if x.lang().disjoint(has):
        return x
    if isinstance(new, Rope):
        raise Unsupported("replace by a symbolic string")
    f = F.replace_fst(old, new)
    # matches across part boundaries
    if len(ps) > 1 and len(old) > 1:
        for k in range(1, len(old)):
            pre, suf = old[:k], old[k:]
            for i in range(len(ps) - 1):
                lgl = L.cat(*[L.literal(p) if isinstance(p, str) else p.lang() for p in ps[:i + 1]])
                lgr = L.cat(*[L.literal(p) if isinstance(p, str) else p.lang() for p in ps[i + 1:]])
                if not lgl.disjoint(L.ending(pre)) and not lgr.disjoint(L.starting(suf)):
                    raise Unsupported("replace: match across parts")
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p.replace(old, new))
        elif isinstance(p, Dec):
            out.append(p)
            if set(old) <= set("0123456789"):
                raise Unsupported("replace of digits")
        elif isinstance(p, Word):
            out.append(p if p.lang().disjoint(has) else Img(p, f))
        else:
            out.append(p if p.lang().disjoint(has) else Img(p.word, F.compose(p.f, f)))
    return rope(*out)


def pad(it, x, width, fill, left):
    """ljust (left=True) / rjust"""
    if isinstance(x, str):
        return x.ljust(width, fill) if left else x.rjust(width, fill)
    fixed = sum(part_len(p) or 0 for p in parts_of(x) if part_len(p) is not None)
    var = [p for p in parts_of(x) if part_len(p) is None]
    if not var:
        n = width - fixed
        return (rope(x, fill * n) if left else rope(fill * n, x)) if n > 0 else x
    if len(var) == 1 and isinstance(var[0], Word):
        w = var[0]
        for n in range(w.lo, max(w.lo, width - fixed)):
            if it.ctx.branch(w.length() == n):
                w.explode_to(n)
                return pad(it, Rope(x.parts), width, fill, left)
        return x
    raise Unsupported("ljust of %r" % (x,))


def rope_chars(it, r):
    out = []
    for p in parts_of(r):
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, Dec):
            ds = p.explode()
            if ds is None:
                raise Unsupported("characters of an unbounded number")
            out += [rope(d) for d in ds]
        elif isinstance(p, Word) and p.lo == p.hi:
            out += [rope(c) for c in (p.explode_to(p.lo) if p.lo > 1 else [p])]
        elif isinstance(p, Word):
            return BlobList([Blob(p.name, p.length(), lambda i, p=p: char_at(it, p, i), tag="chars:" + p.name)]) \
                if len(parts_of(r)) == 1 else _unsup("characters of a mixed rope")
        else:
            raise Unsupported("characters of %r" % (p,))
    return out


def _unsup(m):
    raise Unsupported(m)


def char_at(it, w, i):
    return rope(Word("%s[%s]" % (w.name, i), L.rep(w.letters, 1, 1)))


def slice_rope(it, x, sl):
    if sl.step not in (None, 1):
        raise Unsupported("rope slice with step")
    a, b = sl.start, sl.stop
    for v in (a, b):
        if isinstance(v, S):
            raise Unsupported("rope slice with symbolic bounds")
    ps = list(parts_of(x))

    def take(ps, n):
        """(first n chars, rest) — fewer if shorter"""
        out = []
        ps = list(ps)
        while n > 0 and ps:
            p = ps[0]
            k = part_len(p)
            if k is None:
                if isinstance(p, Word):
                    done = False
                    for m in range(p.lo, n + 1):
                        if p.hi is not None and m > p.hi:
                            break
                        if it.ctx.branch(p.length() == m):
                            qs = p.explode_to(m) if m else []
                            if m == 0:
                                p.resolved = []
                            ps[0:1] = qs
                            done = True
                            break
                    if not done:
                        qs = p.split_prefix(n)
                        ps[0:1] = qs
                    continue
                raise Unsupported("slice through %r" % (p,))
            if k <= n:
                out.append(p)
                ps.pop(0)
                n -= k
                continue
            if isinstance(p, str):
                out.append(p[:n])
                ps[0] = p[n:]
                n = 0
            elif isinstance(p, Dec):
                ps[0:1] = p.explode()
            else:
                ps[0:1] = p.explode_to(k)
        return out, ps

    def drop_right(ps, n):
        ps = list(ps)
        while n > 0 and ps:
            p = ps[-1]
            k = part_len(p)
            if k is None:
                raise Unsupported("negative slice through %r" % (p,))
            if k <= n:
                ps.pop()
                n -= k
                continue
            if isinstance(p, str):
                ps[-1] = p[:-n]
                n = 0
            elif isinstance(p, Dec):
                ps[-1:] = p.explode()
            else:
                ps[-1:] = p.explode_to(k)
        return ps
    if a is not None and a < 0:
        n = rope_len(it, x)
        if isinstance(n, S):
            rest = [p for p in ps]
            # suffix of length -a
            suf = []
            need = -a
            while need > 0 and rest:
                p = rest[-1]
                k = part_len(p)
                if k is None:
                    raise Unsupported("negative slice start")
                if k <= need:
                    suf.insert(0, p)
                    rest.pop()
                    need -= k
                elif isinstance(p, str):
                    suf.insert(0, p[-need:])
                    need = 0
                else:
                    rest[-1:] = p.explode() if isinstance(p, Dec) else p.explode_to(k)
            if b is None:
                return rope(*suf)
            if b < 0:
                return rope(*drop_right(suf, -b))
            raise Unsupported("mixed slice")
        a = max(0, n + a)
    if b is not None and b < 0:
        ps = drop_right(ps, -b)
        b = None
    elif b is not None:
        ps, _ = take(ps, b)
    if a:
        _, ps = take(ps, a)
    return rope(*ps)


def join(it, sep, items):
    out = []
    seq = it.iter_items(items)
    if isinstance(seq, BlobList):
        f = it.ctx.models.get("join")
        if f:
            return f(it, sep, seq)
        raise Unsupported("join of an unbounded list")
    for i, x in enumerate(seq):
        if i:
            out.append(sep)
        if not is_str(x):
            if isinstance(x, (U, Opaque)):
                raise Unsupported("join of %r" % (x,))
            raise PyRaise(TypeError, ("sequence item: expected str instance",))
        out.append(x)
    return rope(*out)


def splitlines(it, x, keepends=False):
    if isinstance(x, str):
        return PyList(x.splitlines(keepends))
    if keepends:
        raise Unsupported("splitlines(True)")
    f = it.ctx.models.get("splitlines")
    got = f(x) if f else None
    if got is not None:
        return got
    segs, cur, pend = [], [], False
    for p in parts_of(x):
        if isinstance(p, str):
            i = 0
            while i < len(p):
                c = p[i]
                if c in L.LINEBREAKS:
                    if c == "\r" and i + 1 < len(p) and p[i + 1] == "\n":
                        i += 1
                    segs.append(rope(*cur))
                    cur = []
                else:
                    cur.append(c)
                i += 1
        else:
            if charset_of(p) & L.LB:
                # the tail of the string: an unknown number of further lines (over-approximated: the lines are
                # arbitrary strings without line breaks, unrelated to the word)
                if p is not parts_of(x)[-1] or not isinstance(p, Word) or not p.uniform():
                    raise Unsupported("splitlines of a word with line breaks")
                noLB = L.rep(p.letters - L.LB, 0, None)
                if it.ctx.choose(2, "line break in %s" % p.name) == 0:
                    w0 = Word(p.name + ".line", L.rep(p.letters - L.LB, max(0, p.lo), p.hi))
                    p.witness = lambda m: Y.concrete(w0, m)
                    cur.append(w0)
                    break
                w0 = Word(p.name + ".line", noLB)
                cur.append(w0)
                segs.append(rope(*cur))
                n = it.ctx.fresh(z3.IntSort(), p.name + ".lines")
                it.ctx.assume(n >= 0)
                bl = Blob(p.name + ".lines", n, lambda i: rope(Word(p.name + ".line", noLB)), tag="lines")

                def wit(m):
                    k = min(Y.num_of(m, n), 5)
                    ls = {Y.num_of(m, z3.IntVal(int(i)) if i.lstrip("-").isdigit() else n): v for i, v in bl.memo.items()}
                    return "\n".join([Y.concrete(w0, m)] + [Y.concrete(ls[i], m) if i in ls else "" for i in range(k)]) + "\n"
                p.witness = wit
                segs.append(bl)
                return PyList(segs)
            cur.append(p)
    last = rope(*cur)
    if isinstance(last, str):
        if last:
            segs.append(last)
    elif it.truth(last):
        segs.append(last)
    return PyList(segs)


def str_method(it, x, name, args, kw):
    if isinstance(x, str) and all(concrete(a) for a in args) and all(concrete(a) for a in kw.values()) \
            and name not in ("format", "join", "split", "splitlines", "encode"):
        try:
            return from_native(getattr(x, name)(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kw.items()}))
        except Exception as e:
            raise PyRaise(type(e), e.args)
    if name == "split":
        return split(it, x, *args, **kw)
    if name == "join":
        return join(it, x, args[0])
    if name == "splitlines":
        return splitlines(it, x, *args)
    if name == "replace":
        return replace(it, x, args[0], args[1])
    if name == "strip":
        return strip(it, x, args[0] if args else None, True, True)
    if name == "lstrip":
        return strip(it, x, args[0] if args else None, True, False)
    if name == "rstrip":
        return strip(it, x, args[0] if args else None, False, True)
    if name == "startswith":
        return decide_lang(it, x, L.starting(args[0]))
    if name == "endswith":
        return decide_lang(it, x, L.ending(args[0]))
    if name == "ljust":
        return pad(it, x, args[0], args[1] if len(args) > 1 else " ", True)
    if name == "rjust":
        return pad(it, x, args[0], args[1] if len(args) > 1 else " ", False)
    if name == "zfill" and isinstance(x, Rope):
        return pad(it, x, args[0], "0", False)
    if name in ("isdigit", "isdecimal", "isspace", "isnumeric", "isalpha", "isalnum"):
        cs = L.A.where(lambda c: getattr(c, name)())
        return decide_lang(it, x, L.plus(cs))
    if name in ("lower", "upper"):
        out = []
        for p in parts_of(x):
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif all(getattr(L.A.reps[c], name)() == L.A.reps[c] for c in charset_of(p)) and \
                    not any(c >= 128 for c in charset_of(p)):
                out.append(p)
            elif isinstance(p, Word) and charset_of(p) <= frozenset(range(128)):
                out.append(Img(p, F.hom_fst({chr(i): getattr(chr(i), name)() for i in range(128)})))
            else:
                # an arbitrary word again; the relation to the original is dropped
                w = Word(p.word.name if isinstance(p, Img) else p.name, L.TOP)
                w.derived = (name, p)
                out.append(w)
        return rope(*out)
    if name == "find":
        if isinstance(x, Rope) and isinstance(args[0], str):
            if x.lang().disjoint(L.containing(args[0])):
                return -1
        raise Unsupported("find")
    if name == "count" and isinstance(args[0], str):
        if isinstance(x, Rope) and x.lang().disjoint(L.containing(args[0])):
            return 0
        if len(args[0]) == 1:
            n = 0
            for p in parts_of(x):
                if isinstance(p, str):
                    n += p.count(args[0])
                elif L.A.cls(args[0]) in charset_of(p):
                    raise Unsupported("count")
            return n
        raise Unsupported("count")
    if name == "format" and isinstance(x, str):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(x):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kw[field]
            else:
                raise Unsupported("format field %r" % field)
            if conv == "r":
                v = repr_(it, v)
            out.append(format_(it, v, spec or ""))
        return rope(*out)
    if name == "encode":
        if isinstance(x, str):
            try:
                return x.encode(*args)
            except UnicodeEncodeError:
                raise PyRaise(UnicodeEncodeError, ())
        o = Opaque("bytes")
        o.attrs["text"] = x
        return o
    if name == "partition" and isinstance(args[0], str):
        seg = split(it, x, args[0]).items
        if len(seg) == 1:
            return (seg[0], "", "")
        rest = []
        for i, s in enumerate(seg[1:]):
            if i:
                rest.append(args[0])
            rest.append(s)
        return (seg[0], args[0], rope(*rest))
    raise Unsupported("str.%s on a symbolic string" % name)


# ---------------------------------------------------------------- containers

def seq_items(it, v):
    if isinstance(v, SObj) and v.data is not None:
        v = v.data
    if isinstance(v, PyList):
        return list(v.items)
    r = it.iter_items(v)
    return list(r.items) if isinstance(r, BlobList) else list(r)


def to_seq(it, v):
    r = it.iter_items(v)
    if isinstance(r, BlobList):
        raise Unsupported("unpacking an unbounded sequence")
    return r


def length(it, v):
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Rope):
        return rope_len(it, v)
    if isinstance(v, PyList):
        n = 0
        for x in v.items:
            n = n + (x.size() if isinstance(x, Blob) else 1)
        return n
    if isinstance(v, PyDict):
        return len(v.pairs)
    if isinstance(v, SObj):
        c, d = mro_lookup(v.cls, "__len__")
        if isinstance(d, types.FunctionType):
            return it.call(d, [v])
        if v.data is not None:
            return length(it, v.data)
        raise PyRaise(TypeError, ("object of type %s has no len()" % v.cls.__name__,))
    if isinstance(v, (tuple, list, dict, set, frozenset, range, collections.deque)):
        return len(v)
    if isinstance(v, Opaque) and "__len__" in v.attrs:
        return v.attrs["__len__"](it)
    if v is None or is_num(v):
        raise PyRaise(TypeError, ("object has no len()",))
    raise Unsupported("len(%r)" % (v,))


@model(len)
def _len(it, args, kw):
    return length(it, args[0])


def getitem(it, o, k):
    if isinstance(o, SObj):
        c, d = mro_lookup(o.cls, "__getitem__")
        if isinstance(d, types.FunctionType):
            return it.call(d, [o, k])
        if o.data is None:
            raise PyRaise(TypeError, ("object is not subscriptable",))
        if isinstance(o.data, PyDict):
            v = dict_get(it, o.data, k, _MISSING)
            if v is _MISSING:
                c, d = mro_lookup(o.cls, "__missing__")
                if isinstance(d, types.FunctionType):
                    return it.call(d, [o, k])
                raise PyRaise(KeyError, (k,))
            return v
        return getitem(it, o.data, k)
    if isinstance(o, PyList):
        if isinstance(k, slice):
            return list_slice(it, o, k)
        if isinstance(k, S):
            return list_at(it, o, k)
        if not isinstance(k, int):
            raise PyRaise(TypeError, ("list indices must be integers",))
        if o.has_blob():
            return list_at(it, o, k)
        try:
            return o.items[k]
        except IndexError:
            raise PyRaise(IndexError, ("list index out of range",))
    if isinstance(o, PyDict):
        v = dict_get(it, o, k, _MISSING)
        if v is _MISSING:
            if o.default_factory is not None:
                v = it.call(o.default_factory, [])
                setitem(it, o, k, v)
                return v
            raise PyRaise(KeyError, (k,))
        return v
    if isinstance(o, Rope):
        if isinstance(k, slice):
            return slice_rope(it, o, k)
        if isinstance(k, int):
            if k >= 0:
                r = slice_rope(it, o, slice(k, k + 1))
            else:
                r = slice_rope(it, o, slice(k, k + 1 or None))
            if not it.truth(r):
                raise PyRaise(IndexError, ("string index out of range",))
            return r
        raise Unsupported("symbolic string index")
    if isinstance(o, str) and isinstance(k, slice) and concrete((k.start, k.stop, k.step)):
        return o[k]
    if isinstance(o, Opaque):
        if "__getitem__" in o.attrs:
            return o.attrs["__getitem__"](it, k)
        raise Unsupported("subscript of %r" % o)
    if isinstance(o, dict):
        if isinstance(k, (Rope, S)):
            for kk in o:
                if it.truth(it.eq(k, lift(kk))):
                    return lift(o[kk])
            raise PyRaise(KeyError, (k,))
        try:
            return lift(o[k])
        except KeyError:
            raise PyRaise(KeyError, (k,))
    if isinstance(o, (str, tuple, list)):
        if isinstance(k, S):
            for i in range(len(o)):
                if it.truth(it.eq(k, i)):
                    return lift(o[i])
            raise Unsupported("symbolic index")
        try:
            r = o[k]
            return PyList([lift(x) for x in r]) if isinstance(r, list) and isinstance(k, slice) else lift(r)
        except IndexError as e:
            raise PyRaise(IndexError, e.args)
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
    if isinstance(o, type) and issubclass(o, enum.Enum):
        return o[k]
    if o is None or is_num(o):
        raise PyRaise(TypeError, ("%s object is not subscriptable" % it.tname(o),))
    if isinstance(o, collections.deque):
        try:
            return o[k]
        except IndexError as e:
            raise PyRaise(IndexError, e.args)
    if isinstance(o, rmatch.SMatch):
        return o.group(k)
    if isinstance(o, re.Match):
        return o[k]
    raise Unsupported("subscript of %r" % (o,))


def list_at(it, o, k):
    """element k of a list with unbounded segments"""
    items = o.items
    if isinstance(k, int) and k >= 0:
        idx = 0
        for x in items:
            if isinstance(x, Blob):
                n = x.size()
                if it.truth((k - idx) < n):
                    return x.get(x.lo + (k - idx))
                if it.truth(n == 0):
                    continue
                raise Unsupported("index past an unbounded segment")
            if idx == k:
                return x
            idx += 1
        raise PyRaise(IndexError, ("list index out of range",))
    if isinstance(k, int):
        idx = -1
        for x in reversed(items):
            if isinstance(x, Blob):
                n = x.size()
                if it.truth(n > idx - k):
                    return x.get(x.length + (k - idx) - 1)
                if it.truth(n == 0):
                    continue
                raise Unsupported("index past an unbounded segment")
            if idx == k:
                return x
            idx -= 1
        raise PyRaise(IndexError, ("list index out of range",))
    # symbolic index
    if len(items) == 1 and isinstance(items[0], Blob):
        b = items[0]
        kt = Y.as_int_term(k.t, k.k)
        if it.ctx.branch(z3.And(kt >= 0, kt < b.length - b.lo)):
            return b.get(b.lo + kt)
        if it.ctx.branch(z3.And(kt < 0, kt >= -(b.length - b.lo))):
            return b.get(b.length + kt)
        raise PyRaise(IndexError, ("list index out of range",))
    if not o.has_blob():
        n = len(items)
        for i in range(-n, n):
            if it.truth(k == i):
                return items[i]
        raise PyRaise(IndexError, ("list index out of range",))
    kt = Y.as_int_term(k.t, k.k)
    if it.ctx.branch(kt < 0):
        raise Unsupported("negative symbolic index into a mixed list")
    i, off = locate(it, items, kt)
    if i == len(items):
        raise PyRaise(IndexError, ("list index out of range",))
    x = items[i]
    return x.get(z3.simplify(x.lo + off)) if isinstance(x, Blob) else x


def locate(it, items, k):
    """the element of a list with unbounded segments that index k >= 0 falls on, and how far into it (len(items), _ past the end)"""
    off = z3.IntVal(0)
    for i, x in enumerate(items):
        n = x.length - x.lo if isinstance(x, Blob) else z3.IntVal(1)
        if it.ctx.branch(k < off + n):
            return i, z3.simplify(k - off)
        off = z3.simplify(off + n)
    return len(items), None


def mixed_slice(it, items, a, b):
    ta, tb = (Y.as_int_term(v.t, v.k) if isinstance(v, S) else z3.IntVal(v) for v in (a, b))
    if it.ctx.branch(z3.Or(ta < 0, tb < 0)):
        raise Unsupported("negative symbolic slice bound")
    i, off = locate(it, items, ta)
    j, end = locate(it, items, tb)
    out = []
    for n in range(i, min(j + 1, len(items))):
        x = items[n]
        if not isinstance(x, Blob):
            if n < j:
                out.append(x)
            continue
        lo = z3.simplify(x.lo + off) if n == i else x.lo
        hi = z3.simplify(x.lo + end) if n == j else x.length
        if lo is x.lo and hi is x.length or z3.is_true(z3.simplify(z3.And(lo == x.lo, hi == x.length))):
            out.append(x)
        elif it.ctx.branch(lo < hi):
            cut = Blob(x.name, hi, x.elem, lo, x.tag, x.memo)
            cut.base = getattr(x, "base", None) or x
            out.append(cut)
    return PyList(out)


def list_slice(it, o, k):
    a, b, st = k.start, k.stop, k.step
    if st not in (None, 1):
        if o.has_blob():
            raise Unsupported("slice with step")
        return PyList(o.items[k])
    if not o.has_blob():
        if isinstance(a, S) or isinstance(b, S):
            n = len(o.items)

            def con(v, default):
                if v is None:
                    return default
                if not isinstance(v, S):
                    return max(0, v + n) if v < 0 else min(v, n)
                for i in range(0, n):
                    if it.truth(v == i):
                        return i
                if it.truth(v >= n):
                    return n
                raise Unsupported("negative symbolic slice bound")
            return PyList(o.items[con(a, 0):con(b, n)])
        return PyList(o.items[k])
    items = list(o.items)
    if (isinstance(a, S) or isinstance(b, S)) and b is not None:
        return mixed_slice(it, items, 0 if a is None else a, b)
    if isinstance(a, int) and a > 0 and b is None:
        n = a
        while n > 0 and items:
            x = items[0]
            if isinstance(x, Blob):
                sz = x.size()
                if it.truth(sz >= n):
                    items[0] = x.sub(z3.simplify(x.lo + n))
                    n = 0
                elif it.truth(sz == 0):
                    items.pop(0)
                else:
                    raise Unsupported("slice through an unbounded segment")
            else:
                items.pop(0)
                n -= 1
        return PyList(items)
    if a in (None, 0) and b is None:
        return PyList(items)
    if a in (None, 0) and isinstance(b, int) and b < 0:
        n = -b
        while n > 0 and items:
            x = items[-1]
            if isinstance(x, Blob):
                if it.truth(x.size() >= n):
                    items[-1] = Blob(x.name, z3.simplify(x.length - n), x.elem, x.lo, x.tag, x.memo)
                    n = 0
                elif it.truth(x.size() == 0):
                    items.pop()
                else:
                    raise Unsupported("slice through an unbounded segment")
            else:
                items.pop()
                n -= 1
        return PyList(items)
    if isinstance(a, int) and a < 0 and b is None:
        n = -a
        out = []
        while n > 0 and items:
            x = items[-1]
            if isinstance(x, Blob):
                if it.truth(x.size() >= n):
                    cut = Blob(x.name, x.length, x.elem, z3.simplify(x.length - n), x.tag, x.memo)
                    cut.base = getattr(x, "base", None) or x
                    out.insert(0, cut)
                    n = 0
                elif it.truth(x.size() == 0):
                    items.pop()
                elif len(items) == 1:
                    out.insert(0, items.pop())
                else:
                    raise Unsupported("slice through an unbounded segment")
            else:
                out.insert(0, items.pop())
                n -= 1
        return PyList(out)
    raise Unsupported("slice of an unbounded list")


def setitem(it, o, k, v):
    if isinstance(o, SObj):
        c, d = mro_lookup(o.cls, "__setitem__")
        if isinstance(d, types.FunctionType):
            return it.call(d, [o, k, v])
        if o.data is None:
            raise PyRaise(TypeError, ("object does not support item assignment",))
        o.data.owner = o.data.owner or o.owner
        return setitem(it, o.data, k, v)
    if isinstance(o, PyList):
        if isinstance(k, slice):
            if o.has_blob():
                raise Unsupported("slice assignment")
            new = seq_items(it, v)
            it.ctx.write(o, "[]", _MISSING, v)
            o.items[k] = new
            return
        if o.has_blob():
            if k == -1 and o.items and not isinstance(o.items[-1], Blob):
                it.ctx.write(o, "[]", o.items[-1], v)
                o.items[-1] = v
                return
            raise Unsupported("store into an unbounded list")
        if isinstance(k, S):
            raise Unsupported("symbolic store index")
        try:
            it.ctx.write(o, "[]", o.items[k], v)
            o.items[k] = v
        except IndexError:
            raise PyRaise(IndexError, ("list assignment index out of range",))
        return
    if isinstance(o, PyDict):
        for p in o.pairs:
            if isinstance(p, Blob):
                raise Unsupported("store into an unbounded dict")
            if it.truth(it.eq(p[0], k)):
                it.ctx.write(o, "{}", p[1], v)
                p[1] = v
                return
        it.ctx.write(o, "{}", _MISSING, v)
        o.pairs.append([k, v])
        return
    if isinstance(o, Opaque) and "__setitem__" in o.attrs:
        return o.attrs["__setitem__"](it, k, v)
    if isinstance(o, (dict, list)):
        it.ctx.global_write("native %s" % type(o).__name__)
        raise Unsupported("write to a shared native container")
    raise Unsupported("item store on %r" % (o,))


def delitem(it, o, k):
    if isinstance(o, SObj):
        if o.data is None:
            raise PyRaise(TypeError, ("no item deletion",))
        return delitem(it, o.data, k)
    if isinstance(o, PyDict):
        for i, p in enumerate(o.pairs):
            if it.truth(it.eq(p[0], k)):
                it.ctx.write(o, "{}", p[1], _MISSING)
                del o.pairs[i]
                return
        raise PyRaise(KeyError, (k,))
    if getattr(o, "frozen", False):
        raise Unsupported("assignment to a tuple of unknown length")
    if isinstance(o, PyList) and not o.has_blob() and isinstance(k, (int, slice)):
        it.ctx.write(o, "[]", _MISSING, _MISSING)
        try:
            del o.items[k]
        except IndexError:
            raise PyRaise(IndexError, ("list assignment index out of range",))
        return
    if isinstance(o, Opaque) and "__delitem__" in o.attrs:
        return o.attrs["__delitem__"](it, k)
    raise Unsupported("del item")


def dict_get(it, d, k, default=None):
    for p in d.pairs:
        if isinstance(p, Blob):
            raise Unsupported("lookup in an unbounded dict")
        if it.truth(it.eq(p[0], k)):
            return p[1]
    return default


def contains(it, c, x):
    if isinstance(c, SObj):
        k, d = mro_lookup(c.cls, "__contains__")
        if isinstance(d, types.FunctionType):
            return it.truth(it.call(d, [c, x]))
        if c.data is None:
            raise PyRaise(TypeError, ("argument is not iterable",))
        return contains(it, c.data, x)
    if is_str(c):
        if not is_str(x):
            raise PyRaise(TypeError, ("'in <string>' requires string as left operand",))
        if isinstance(x, Rope):
            raise Unsupported("symbolic substring test")
        if isinstance(c, str):
            return x in c
        if x == "":
            return True
        return decide_lang(it, c, L.containing(x))
    if isinstance(c, (PyList, tuple, list)) and not (isinstance(c, PyList) and c.has_blob()):
        items = c.items if isinstance(c, PyList) else c
        if isinstance(x, (str, int, enum.Enum, type(None))) and all(
                isinstance(y, (str, int, enum.Enum, type(None))) for y in items):
            return x in items
        for y in items:
            if y is x:
                return True
            if it.truth(it.eq(lift(y), x)):
                return True
        return False
    if isinstance(c, PyDict):
        return dict_get(it, c, x, _MISSING) is not _MISSING
    if isinstance(c, (dict, set, frozenset)):
        if isinstance(x, (Rope, S)):
            for y in c:
                if it.truth(it.eq(lift(y), x)):
                    return True
            return False
        if isinstance(x, (SObj, Opaque, U)):
            return any(it.truth(it.eq(x, lift(y))) for y in c)
        return x in c
    if isinstance(c, type) and issubclass(c, enum.Enum):
        if isinstance(x, enum.Enum):
            return x in c
        if isinstance(x, (SObj, PyList, U, S, Rope)) or x is None:
            return False
        return x in c
    if isinstance(c, Opaque) and "__contains__" in c.attrs:
        return c.attrs["__contains__"](it, x)
    if isinstance(c, BlobList) or isinstance(c, PyList):
        f = it.ctx.models.get("contains")
        if f:
            return f(it, c, x)
        raise Unsupported("membership in an unbounded list")
    if c is None:
        raise PyRaise(TypeError, ("argument of type 'NoneType' is not iterable",))
    if isinstance(c, range):
        return x in c
    if isinstance(c, collections.deque):
        return any(it.truth(it.eq(y, x)) for y in c)
    raise Unsupported("membership in %r" % (c,))


MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update",
       "setdefault", "popitem", "__setitem__"}


def method(it, o, name, args, kw):
    if isinstance(o, SObj) and o.data is not None:
        if o.data.__class__ is not tuple:
            o.data.owner = o.data.owner or o.owner
        return method(it, o.data, name, args, kw)
    if isinstance(o, (str, Rope)):
        return str_method(it, o, name, args, kw)
    if isinstance(o, PySet):
        return set_method(it, o, name, args, kw)
    if isinstance(o, PyList):
        return list_method(it, o, name, args, kw)
    if isinstance(o, PyDict):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, (S, int, Fraction)) and not isinstance(o, bool):
        if name == "is_integer":
            if isinstance(o, S):
                return mk(Y.is_integer(o), "bool")
            return o == int(o)
        if name == "bit_length" and isinstance(o, int):
            return o.bit_length()
        raise Unsupported("number method %s" % name)
    if isinstance(o, TD):
        if name == "total_seconds":
            return Y.truediv(o.us, 10 ** 6)
        raise Unsupported("timedelta.%s" % name)
    if isinstance(o, re.Pattern):
        return pattern_method(it, o, name, args, kw)
    if isinstance(o, rmatch.SMatch):
        if name == "group":
            if len(args) > 1:
                return tuple(o.group(a) for a in args)
            return o.group(args[0] if args else 0)
        if name == "groups":
            return o.groups(*args)
        if name == "groupdict":
            return PyDict([[k, o.group(k)] for k in o.names])
        raise Unsupported("match.%s" % name)
    if isinstance(o, re.Match):
        return from_native(getattr(o, name)(*args))
    if isinstance(o, (dict, list, set)):
        if name in MUT:
            it.ctx.global_write("%s of a native %s" % (name, type(o).__name__))
            raise Unsupported("mutation of a shared native container")
        if isinstance(o, dict):
            if name == "get":
                k = args[0]
                if isinstance(k, (S, Rope, U, SObj, Opaque)):
                    for kk in o:
                        if it.truth(it.eq(k, lift(kk))):
                            return lift(o[kk])
                    return args[1] if len(args) > 1 else None
                try:
                    return lift(o.get(k, args[1] if len(args) > 1 else None))
                except TypeError as e:
                    raise PyRaise(TypeError, e.args)
            if name in ("keys", "values"):
                return PyList([lift(x) for x in getattr(o, name)()])
            if name == "items":
                return PyList([(lift(k), lift(v)) for k, v in o.items()])
            if name == "copy":
                return from_native(dict(o))
        if all(concrete(a) for a in args):
            return from_native(getattr(o, name)(*[to_native(a) for a in args]))
        if isinstance(o, list) and name == "index":
            for i, y in enumerate(o):
                if it.truth(it.eq(lift(y), args[0])):
                    return i
            raise PyRaise(ValueError, ("not in list",))
    if isinstance(o, tuple):
        if name in ("index", "count") and all(concrete(a) for a in args):
            try:
                return getattr(o, name)(*args)
            except ValueError as e:
                raise PyRaise(ValueError, e.args)
        if name == "_replace":
            return o._replace(**kw)
    if isinstance(o, collections.deque):
        return deque_method(it, o, name, args, kw)
    if isinstance(o, type) and name in ("__name__",):
        return o.__name__
    raise Unsupported("method %s of %r" % (name, type(o)))


def deque_method(it, o, name, args, kw):
    it_ = {"append", "appendleft", "pop", "popleft", "clear", "extend"}
    if name in it_:
        try:
            if name == "extend":
                args = [it.iter_items(args[0])]
            return getattr(o, name)(*args)
        except IndexError as e:
            raise PyRaise(IndexError, e.args)
    raise Unsupported("deque.%s" % name)


def list_method(it, o, name, args, kw):
    if getattr(o, "frozen", False) and name not in ("index", "count"):
        raise Unsupported("%s of a tuple of unknown length" % name)
    w = it.ctx.write
    if name == "append":
        w(o, "[]", _MISSING, args[0])
        o.items.append(args[0])
        return None
    if name == "extend":
        new = seq_items(it, args[0])
        w(o, "[]", _MISSING, args[0])
        o.items.extend(new)
        return None
    if name == "insert":
        if o.has_blob() and args[0] != 0:
            raise Unsupported("insert into an unbounded list")
        w(o, "[]", _MISSING, args[1])
        o.items.insert(args[0], args[1])
        return None
    if name == "pop":
        i = args[0] if args else -1
        if o.has_blob():
            v = list_at(it, o, i)
            w(o, "[]", v, _MISSING)
            if i == -1:
                while isinstance(o.items[-1], Blob) and it.ctx.known(o.items[-1].length == o.items[-1].lo):
                    o.items.pop()
                x = o.items[-1]
                if isinstance(x, Blob):
                    o.items[-1] = Blob(x.name, z3.simplify(x.length - 1), x.elem, x.lo, x.tag, x.memo)
                else:
                    o.items.pop()
                return v
            if i == 0:
                x = o.items[0]
                if isinstance(x, Blob):
                    o.items[0] = x.sub(z3.simplify(x.lo + 1))
                else:
                    o.items.pop(0)
                return v
            raise Unsupported("pop from the middle of an unbounded list")
        if not o.items:
            raise PyRaise(IndexError, ("pop from empty list",))
        if isinstance(i, S):
            raise Unsupported("symbolic pop")
        try:
            v = o.items.pop(i)
        except IndexError:
            raise PyRaise(IndexError, ("pop index out of range",))
        w(o, "[]", v, _MISSING)
        return v
    if name in ("__init__",):
        if args:
            o.items = seq_items(it, args[0])
        return None
    if name == "__iter__":
        return o
    if name == "__len__":
        return length(it, o)
    if name == "__getitem__":
        return getitem(it, o, args[0])
    if name == "__setitem__":
        return setitem(it, o, args[0], args[1])
    if name == "copy":
        return PyList(o.items)
    if name == "__add__":
        return PyList(o.items + seq_items(it, args[0]))
    if o.has_blob():
        raise Unsupported("list.%s on an unbounded list" % name)
    if name == "remove":
        for i, x in enumerate(o.items):
            if it.truth(it.eq(x, args[0])):
                w(o, "[]", x, _MISSING)
                del o.items[i]
                return None
        raise PyRaise(ValueError, ("list.remove(x): x not in list",))
    if name == "index":
        for i, x in enumerate(o.items):
            if it.truth(it.eq(x, args[0])):
                return i
        raise PyRaise(ValueError, ("x not in list",))
    if name == "count":
        return sum(1 for x in o.items if it.truth(it.eq(x, args[0])))
    if name == "reverse":
        w(o, "[]", _MISSING, _MISSING)
        o.items.reverse()
        return None
    if name == "clear":
        w(o, "[]", _MISSING, _MISSING)
        o.items.clear()
        return None
    if name == "sort":
        w(o, "[]", _MISSING, _MISSING)
        o.items = sorted_(it, o.items, kw.get("key"), kw.get("reverse", False))
        return None
    raise Unsupported("list.%s" % name)


def set_method(it, o, name, args, kw):
    w = it.ctx.write
    if name == "add":
        if not it.truth(contains(it, o, args[0])):
            w(o, "[]", _MISSING, args[0])
            o.items.append(args[0])
        return None
    if name in ("discard", "remove"):
        for i, x in enumerate(o.items):
            if it.truth(it.eq(x, args[0])):
                w(o, "[]", x, _MISSING)
                del o.items[i]
                return None
        if name == "remove":
            raise PyRaise(KeyError, (args[0],))
        return None
    if name == "update":
        for a in args:
            for x in to_seq(it, a):
                set_method(it, o, "add", [x], {})
        return None
    if name == "copy":
        return PySet(o.items)
    if name == "__iter__":
        return PyList(o.items)
    if name == "union":
        r = PySet(o.items)
        set_method(it, r, "update", args, {})
        return r
    if name == "pop" and len(o.items) == 1:
        w(o, "[]", o.items[0], _MISSING)
        return o.items.pop()
    if name == "clear":
        w(o, "[]", _MISSING, _MISSING)
        o.items.clear()
        return None
    if name == "difference":
        return binop(it, ast.Sub, "sub", o, PySet(to_seq(it, args[0])))
    raise Unsupported("set.%s" % name)


def dict_method(it, o, name, args, kw):
    blob = any(isinstance(p, Blob) for p in o.pairs)
    if name == "get":
        return dict_get(it, o, args[0], args[1] if len(args) > 1 else None)
    if name in ("keys", "values", "items"):
        if blob:
            out = []
            for p in o.pairs:
                if isinstance(p, Blob):
                    f = {"keys": lambda x: x[0], "values": lambda x: x[1], "items": lambda x: tuple(x)}[name]
                    out.append(Blob(p.name, p.length, lambda i, p=p, f=f: f(p.get(i)), p.lo, p.tag))
                else:
                    out.append(p[0] if name == "keys" else p[1] if name == "values" else tuple(p))
            return PyList(out)
        return PyList([p[0] if name == "keys" else p[1] if name == "values" else (p[0], p[1]) for p in o.pairs])
    if name == "__init__":
        if args:
            dict_method(it, o, "update", args, {})
        for k, v in kw.items():
            setitem(it, o, k, v)
        return None
    if name == "update":
        for a in args:
            if isinstance(a, SObj) and a.data is not None:
                a = a.data
            if isinstance(a, PyDict):
                for k, v in list(a.pairs):
                    setitem(it, o, k, v)
            elif isinstance(a, dict):
                for k, v in a.items():
                    setitem(it, o, lift(k), from_native(v))
            else:
                for kv in to_seq(it, a):
                    k, v = to_seq(it, kv)
                    setitem(it, o, k, v)
        for k, v in kw.items():
            setitem(it, o, k, v)
        return None
    if name == "copy":
        d = PyDict(o.pairs)
        d.default_factory = o.default_factory
        return d
    if name == "pop":
        for i, p in enumerate(o.pairs):
            if it.truth(it.eq(p[0], args[0])):
                it.ctx.write(o, "{}", p[1], _MISSING)
                del o.pairs[i]
                return p[1]
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError, (args[0],))
    if name == "setdefault":
        v = dict_get(it, o, args[0], _MISSING)
        if v is _MISSING:
            v = args[1] if len(args) > 1 else None
            setitem(it, o, args[0], v)
        return v
    if name == "__setitem__":
        return setitem(it, o, args[0], args[1])
    if name == "__getitem__":
        return getitem(it, o, args[0])
    if name == "__contains__":
        return contains(it, o, args[0])
    if name == "clear":
        it.ctx.write(o, "{}", _MISSING, _MISSING)
        o.pairs.clear()
        return None
    raise Unsupported("dict.%s" % name)


@cmodel(list)
def _list(it, args, kw):
    if not args:
        return PyList()
    return PyList(seq_items(it, args[0]))


@cmodel(tuple)
def _tuple(it, args, kw):
    if not args:
        return ()
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        return frozen(r.items)
    return tuple(to_seq(it, args[0]))


def frozen(items):
    """a tuple of unknown length"""
    v = PyList(items)
    v.frozen = True
    return v


@cmodel(set, frozenset)
def _set(it, args, kw):
    s = PySet()
    if args:
        for x in to_seq(it, args[0]):
            set_method(it, s, "add", [x], {})
    return s


@cmodel(dict, collections.OrderedDict)
def _dict(it, args, kw):
    d = PyDict()
    dict_method(it, d, "__init__", args, kw)
    return d


@cmodel(collections.defaultdict)
def _defaultdict(it, args, kw):
    d = PyDict()
    d.default_factory = args[0] if args else None
    dict_method(it, d, "__init__", args[1:], kw)
    return d


@cmodel(collections.deque)
def _deque(it, args, kw):
    return collections.deque(to_seq(it, args[0]) if args else [])


@cmodel(range)
def _range(it, args, kw):
    if any(isinstance(a, S) for a in args):
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        back = len(args) == 3 and type(args[2]) is int and args[2] == -1
        if back:
            lo, hi = hi + 1, lo + 1
        elif len(args) == 3:
            raise Unsupported("symbolic range with step")
        if it.truth(hi < lo):
            return PyList([])
        b = Blob("range", Y._term(hi)[0], lambda i: mk(i, "int"), Y._term(lo)[0], tag="range")
        return PyList([no_reverse(b) if back else b])
    return range(*args)


@cmodel(enumerate)
def _enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        out, off = [], start
        for x in r.items:
            if isinstance(x, Blob):
                out.append(Blob(x.name, x.length, lambda i, x=x, off=off: (mk(i - x.lo, "int") + off, x.get(i)),
                                x.lo, x.tag))
                out[-1].base = x
                off = off + x.size()
            else:
                out.append((off, x))
                off = off + 1
        return PyList(out)
    return PyList([(i + start, x) for i, x in enumerate(r)])


@cmodel(zip)
def _zip(it, args, kw):
    rs = [it.iter_items(a) for a in args]
    if any(isinstance(r, BlobList) for r in rs):
        raise Unsupported("zip of unbounded sequences")
    return PyList([tuple(t) for t in zip(*rs)])


@cmodel(reversed)
def _reversed(it, args, kw):
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        from .finite import Typed
        return PyList([x.backwards() if isinstance(x, Typed) else no_reverse(x) if isinstance(x, Blob) else x
                       for x in reversed(r.items)])
    return PyList(list(reversed(r)))


def no_reverse(x):
    if x.memo:
        raise Unsupported("reversed unbounded sequence, part of it already used")
    return Blob("reversed " + x.name, x.length, lambda i: x.get(z3.simplify(x.length + x.lo - 1 - i)), x.lo, "reversed " + x.tag)


@cmodel(map)
def _map(it, args, kw):
    r = it.iter_items(args[1])
    if isinstance(r, BlobList) or len(args) > 2:
        raise Unsupported("map")
    return PyList([it.call(args[0], [x]) for x in r])


@cmodel(filter)
def _filter(it, args, kw):
    r = it.iter_items(args[1])
    if isinstance(r, BlobList):
        raise Unsupported("filter")
    return PyList([x for x in r if it.truth(it.call(args[0], [x]) if args[0] is not None else x)])


@cmodel(itertools.product)
def _product(it, args, kw):
    return PyList(list(itertools.product(*[it.iter_items(a) for a in args])))


@model(iter)
def _iter(it, args, kw):
    return args[0]


@model(any)
def _any(it, args, kw):
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        raise Unsupported("any() over an unbounded sequence")
    for x in r:
        if it.truth(x):
            return True
    return False


@model(all)
def _all(it, args, kw):
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        raise Unsupported("all() over an unbounded sequence")
    for x in r:
        if not it.truth(x):
            return False
    return True


@model(sum)
def _sum(it, args, kw):
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        raise Unsupported("sum over an unbounded sequence")
    t = args[1] if len(args) > 1 else 0
    for x in r:
        t = binop(it, ast.Add, "add", t, x)
    return t


def sorted_(it, items, key=None, reverse=False):
    ks = [(it.call(key, [x]) if key is not None else x, x) for x in items]

    def cmp(a, b):
        if it.truth(order(it, "lt", a[0], b[0])):
            return -1
        if it.truth(order(it, "lt", b[0], a[0])):
            return 1
        return 0
    ks = sorted(ks, key=functools.cmp_to_key(cmp), reverse=bool(reverse))
    return [x for _, x in ks]


@model(sorted)
def _sorted(it, args, kw):
    r = it.iter_items(args[0])
    if isinstance(r, BlobList):
        raise Unsupported("sorted unbounded sequence")
    return PyList(sorted_(it, r, kw.get("key"), kw.get("reverse", False)))


def minmax(name):
    def f(it, args, kw):
        if len(args) == 1:
            xs = it.iter_items(args[0])
            if isinstance(xs, BlobList):
                raise Unsupported("min/max of an unbounded sequence")
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise PyRaise(ValueError, ("empty sequence",))
        else:
            xs = args
        key = kw.get("key")
        best = xs[0]
        kb = it.call(key, [best]) if key else best
        for x in xs[1:]:
            kx = it.call(key, [x]) if key else x
            if it.truth(order(it, "lt" if name == "min" else "gt", kx, kb)):
                best, kb = x, kx
        return best
    return f


FUNCS[min] = minmax("min")
FUNCS[max] = minmax("max")


# ---------------------------------------------------------------- introspection

def isa(it, v, c):
    if isinstance(c, tuple):
        return any(isa(it, v, x) for x in c)
    if isinstance(v, SObj):
        return issubclass(v.cls, c)
    if isinstance(v, S):
        t = {"int": int, "bool": bool, "float": float}[v.k]
        return issubclass(t, c) or (c is numbers.Number)
    if isinstance(v, Fraction):
        return c in (float, numbers.Number, numbers.Real, object)
    if isinstance(v, Rope):
        return c in (str, object)
    if isinstance(v, PySet):
        return c in (set, object)
    if isinstance(v, PyList):
        return c in (list, object)
    if isinstance(v, PyDict):
        return c in (dict, object) or (c is collections.defaultdict and v.default_factory is not None)
    if isinstance(v, (Opaque, U)):
        f = getattr(v, "isa", None) or (v.attrs.get("__isa__") if isinstance(v, Opaque) else None)
        if f is None:
            raise Unsupported("isinstance(%r, %r)" % (v, c))
        return f(c)
    if isinstance(v, (Closure, Bound, Meth)):
        return c in (types.FunctionType, object)
    return isinstance(v, c)


@model(isinstance)
def _isinstance(it, args, kw):
    return isa(it, args[0], args[1])


@model(issubclass)
def _issubclass(it, args, kw):
    return issubclass(args[0], args[1])


@cmodel(type)
def _type(it, args, kw):
    if len(args) != 1:
        raise Unsupported("type() with 3 arguments")
    v = args[0]
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, S):
        return {"int": int, "bool": bool, "float": float}[v.k]
    for c, t in ((Fraction, float), (Rope, str), (PySet, set), (PyList, list), (PyDict, dict)):
        if isinstance(v, c):
            return t
    if isinstance(v, (Opaque, U)):
        t = getattr(v, "cls", None) or (v.attrs.get("__class__") if isinstance(v, Opaque) else None)
        if t is None:
            raise Unsupported("type(%r)" % v)
        return t
    return type(v)


@cmodel(object)
def _object(it, args, kw):
    return SObj(object)


@model(getattr)
def _getattr(it, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with symbolic name")
    if len(args) > 2:
        return it.getattr(args[0], args[1], args[2])
    return it.getattr(args[0], args[1])


@model(hasattr)
def _hasattr(it, args, kw):
    return it.getattr(args[0], args[1], _MISSING) is not _MISSING if _present(it, args[0], args[1]) else False


def _present(it, o, n):
    return it._getattr(o, n) is not _MISSING


@model(setattr)
def _setattr(it, args, kw):
    it.setattr(args[0], args[1], args[2])


@model(callable)
def _callable(it, args, kw):
    v = args[0]
    return isinstance(v, (Closure, Bound, Meth, type, types.FunctionType)) or callable(v)


@model(id)
def _id(it, args, kw):
    return id(args[0])


@model(ord)
def _ord(it, args, kw):
    if isinstance(args[0], str):
        return ord(args[0])
    if isinstance(args[0], Rope):
        lg = args[0].lang()
        if lg.subset(L.rep(L.ANY, 1, 1)):
            t = it.ctx.fresh(z3.IntSort(), "ord")
            los, his = [], []
            for c in lg.charset():
                iv = [[ord(L.A.reps[c])] * 2] if L.A.is_single(c) else L.A.ivals[c]
                los.append(iv[0][0])
                his.append(iv[-1][1])
            it.ctx.assume(z3.And(t >= min(los), t <= max(his)))
            return mk(t, "int")
    raise Unsupported("ord of a symbolic character")


@model(chr)
def _chr(it, args, kw):
    if isinstance(args[0], int):
        try:
            return chr(args[0])
        except (ValueError, OverflowError) as e:
            raise PyRaise(type(e), e.args)
    raise Unsupported("chr of a symbolic number")


_HR = z3.Function("hash_num", z3.RealSort(), z3.IntSort())
_HU = z3.Function("hash_val", Y.ValSort, z3.IntSort())
_H2 = z3.Function("hash_pair", z3.IntSort(), z3.IntSort(), z3.IntSort())


def hash_term(it, v):
    if isinstance(v, SObj):
        c, d = mro_lookup(v.cls, "__hash__")
        if isinstance(d, types.FunctionType):
            r = it.call(d, [v])
            return Y._term(r)[0]
        if d is None:
            raise PyRaise(TypeError, ("unhashable type: %s" % v.cls.__name__,))
        return z3.Int("hash_id_%d" % v.uid)
    if is_num(v):
        t, k = Y._term(v)
        return _HR(Y.real(t, k))
    if isinstance(v, U):
        return _HU(v.t)
    if isinstance(v, (str, enum.Enum)) or v is None or isinstance(v, type):
        return z3.Int("hash_of_%r" % (v,))
    if isinstance(v, tuple):
        h = z3.IntVal(len(v))
        for x in v:
            h = _H2(h, hash_term(it, x))
        return h
    if isinstance(v, (PyList, PyDict, PySet)):
        raise PyRaise(TypeError, ("unhashable type",))
    raise Unsupported("hash(%r)" % (v,))


@model(hash)
def _hash(it, args, kw):
    return mk(hash_term(it, args[0]), "int")


def deepcopy(it, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, (SObj, PyList, PyDict, Blob)):
        if id(v) in memo:
            return memo[id(v)]
    if isinstance(v, SObj):
        o = SObj(v.cls)
        memo[id(v)] = o
        for k, x in v.attrs.items():
            o.attrs[k] = deepcopy(it, x, memo)
        if v.data is not None:
            o.data = deepcopy(it, v.data, memo)
        o.ghost = dict(v.ghost)
        o.ghost["copy_of"] = v
        return o
    if isinstance(v, PyList):
        o = type(v)()
        memo[id(v)] = o
        o.items = [deepcopy(it, x, memo) for x in v.items]
        return o
    if isinstance(v, PyDict):
        o = PyDict()
        o.default_factory = v.default_factory
        memo[id(v)] = o
        o.pairs = [deepcopy(it, p, memo) if isinstance(p, Blob) else
                   [deepcopy(it, p[0], memo), deepcopy(it, p[1], memo)] for p in v.pairs]
        return o
    if isinstance(v, Blob):
        # element identity is kept per source element, so aliasing inside one copy survives
        b = Blob(v.name, v.length, lambda i: deepcopy(it, v.get(i), memo), v.lo, v.tag)
        memo[id(v)] = b
        return b
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, Opaque):
        f = v.attrs.get("__deepcopy__")
        if f is None:
            raise Unsupported("deepcopy of %r" % v)
        return f(it, memo)
    if isinstance(v, (dict, list, set)) or type(v).__module__.startswith(Y.SCOPE) and not isinstance(
            v, (enum.Enum, type)):
        return from_native(v)
    return v


@model(copy.deepcopy)
def _deepcopy(it, args, kw):
    return deepcopy(it, args[0])


@model(copy.copy)
def _copy(it, args, kw):
    v = args[0]
    if isinstance(v, SObj):
        o = SObj(v.cls, v.attrs)
        if v.data is not None:
            o.data = type(v.data)(v.data.items) if isinstance(v.data, PyList) else PyDict(v.data.pairs)
        return o
    if isinstance(v, PyList):
        return type(v)(v.items)
    if isinstance(v, PyDict):
        return PyDict(v.pairs)
    return v


@cmodel(datetime.timedelta)
def _timedelta(it, args, kw):
    scale = {"days": 86400 * 10 ** 6, "seconds": 10 ** 6, "microseconds": 1, "milliseconds": 1000,
             "minutes": 60 * 10 ** 6, "hours": 3600 * 10 ** 6, "weeks": 7 * 86400 * 10 ** 6}
    total = 0
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    vals = dict(zip(names, args))
    vals.update(kw)
    for k, v in vals.items():
        if not is_num(v):
            raise PyRaise(TypeError, ("unsupported type for timedelta",))
        total = total + v * scale[k]
    if num_kind(total) == "float":
        total = Y.round_half_even(total) if isinstance(total, S) else round(total)
    t = Y._term(total)[0]
    return TD(total)


def namedtuple_like(it, cls, args, kw):
    if hasattr(cls, "_fields"):
        o = SObj(cls)
        vals = dict(zip(cls._fields, args))
        vals.update(kw)
        for f in cls._fields:
            if f not in vals:
                if f in cls._field_defaults:
                    vals[f] = cls._field_defaults[f]
                else:
                    raise PyRaise(TypeError, ("missing field %s" % f,))
        o.attrs.update(vals)
        o.data = tuple(vals[f] for f in cls._fields)
        return o
    raise Unsupported("subclass of a value type")


@model(sys.exc_info)
def _exc_info(it, args, kw):
    return (None, None, None)


@model(os.getenv)
def _getenv(it, args, kw):
    return os.getenv(*args)


@model(print)
def _print(it, args, kw):
    return None


# ---------------------------------------------------------------- regex

@model(re.compile)
def _re_compile(it, args, kw):
    if all(concrete(a) for a in args):
        return re.compile(*args)
    raise Unsupported("symbolic pattern")


def _re_fn(name):
    def f(it, args, kw):
        p = args[0]
        if isinstance(p, str):
            p = re.compile(p, *( [kw["flags"]] if "flags" in kw else []))
        return pattern_method(it, p, name, list(args[1:]), {k: v for k, v in kw.items() if k != "flags"})
    return f


for _n in ("search", "match", "fullmatch", "sub", "split", "findall"):
    FUNCS[getattr(re, _n)] = _re_fn(_n)


@model(re.escape)
def _re_escape(it, args, kw):
    return re.escape(args[0])


def single_set(p):
    """The character set of a pattern that matches exactly one character of a set, else None."""
    try:
        ir = rmatch.to_ir(sre_parse.parse(p.pattern, p.flags), p.flags)
    except (L.RegexUnsupported, Unsupported):
        return None
    return ir[0][1] if len(ir) == 1 and ir[0][0] == "set" else None


def sub_set(it, cs, repl, subj):
    """re.sub of a one-character pattern: a letter homomorphism, or (for a function) a letter substitution."""
    if isinstance(repl, str):
        if "\\" in repl:
            raise Unsupported("template in re.sub")
        f = F.hom_classes({c: repl for c in cs})
        out = []
        for p in parts_of(subj):
            if isinstance(p, str):
                out.append(f.run(p))
            elif not (charset_of(p) & cs):
                out.append(p)
            elif isinstance(p, Word):
                out.append(Img(p, f))
            elif isinstance(p, Img):
                out.append(Img(p.word, F.compose(p.f, f)))
            else:
                raise Unsupported("re.sub on %r" % (p,))
        return rope(*out)
    # the function is run once on an arbitrary matching character
    out = []
    for p in parts_of(subj):
        hit = charset_of(p) & cs
        if not hit:
            out.append(p)
            continue
        if isinstance(p, Dec):
            raise Unsupported("re.sub on %r" % (p,))
        ch = Word("matched", L.rep(frozenset(hit), 1, 1))
        m = rmatch.SMatch(lambda: ({"n": 0}, Y.rope(ch)), {})
        m.done = ({"n": 0}, Y.rope(ch))
        r = it.call(repl, [m])
        if not is_str(r):
            raise PyRaise(TypeError, ("expected str instance",))
        base = L.literal(p) if isinstance(p, str) else p.lang()
        out.append(Word("sub", L.substitute(base, frozenset(hit), Y.lang_of(r))))
    return rope(*out)


def template_of(t):
    """a replacement string as strings and group numbers"""
    out, k = [""], 0
    while k < len(t):
        if t[k] != "\\":
            out[-1] += t[k]
            k += 1
        elif t[k + 1:k + 2].isdigit() and not t[k + 2:k + 3].isdigit() and t[k + 1] != "0":
            out += [int(t[k + 1]), ""]
            k += 2
        else:
            raise Unsupported("template %r" % t)
    return tuple(out)


def expand(it, template, m):
    if not isinstance(template, str):
        raise Unsupported("symbolic template")
    out, k = [], 0
    while k < len(template):
        c = template[k]
        if c != "\\":
            out.append(c)
            k += 1
        elif template[k + 1:k + 2].isdigit() and not template[k + 2:k + 3].isdigit() and template[k + 1] != "0":
            out.append(m.group(int(template[k + 1])) or "")
            k += 2
        else:
            raise Unsupported("template %r" % template)
    return rope(*out)


def pattern_method(it, p, name, args, kw):
    subj = args[1] if name == "sub" else args[0]
    if isinstance(subj, str) and all(isinstance(a, (str, int)) for a in args):
        return from_native(getattr(p, name)(*args, **kw))
    if not is_str(subj):
        if isinstance(subj, (U, Opaque)) or isinstance(subj, SObj) and issubclass(subj.cls, str):
            raise Unsupported("regex on %r" % (subj,))
        raise PyRaise(TypeError, ("expected string or bytes-like object",))
    if name in ("search", "match", "fullmatch"):
        return rmatch.match(it, p, name, subj)
    if name == "sub" and len(args) == 2:
        cs = single_set(p)
        if cs is not None:
            return sub_set(it, cs, args[0], subj)
        if not isinstance(subj, str):
            lg = L.regex_lang(p.pattern, p.flags, "search")
            if subj.lang().disjoint(lg):
                return subj
            ps = parts_of(subj)
            if len(ps) == 1 and isinstance(ps[0], (Word, Img)) and isinstance(args[0], str):
                try:
                    g = NT.sub(rmatch.to_ir(sre_parse.parse(p.pattern, p.flags), p.flags), template_of(args[0]))
                except L.RegexUnsupported as e:
                    raise Unsupported("re.sub: %s" % e)
                return Y.rope(Img(ps[0], g) if isinstance(ps[0], Word) else Img(ps[0].word, F.compose(ps[0].f, g)))
            found, tail = rmatch.find_all(it, p, subj)
            out = []
            for before, m in found:
                out.append(before)
                if is_str(args[0]):
                    out.append(expand(it, args[0], m))
                else:
                    r = it.call(args[0], [m])
                    if not is_str(r):
                        raise PyRaise(TypeError, ("expected str instance",))
                    out.append(r)
            return rope(*out, tail)
        f = it.ctx.models.get("re.sub")
        if f:
            return f(it, p, args[0], subj)
    raise Unsupported("pattern.%s on a symbolic string" % name)
