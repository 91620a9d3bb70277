"""Symbolic values and the proof context (paths, obligations)."""
import time
from fractions import Fraction

import z3

from . import lang as L
from .lang import A
from . import fst as F

CUR = None          # the active Ctx
SCOPE = ("pycaption",)   # modules whose functions are interpreted from source


class Unsupported(Exception):
    """The code left the verifier's subset; nothing is concluded from this."""


class Elsewhere(Unsupported):
    """The code keeps another invariant than the contract states: nothing the other paths assumed of it can be concluded either."""


class PathEnd(Exception):
    """This path is finished (infeasible, or an inductive step was checked)."""


class Budget(Exception):
    pass


# --------------------------------------------------------------------------- numbers

def _term(x):
    """-> (z3 term, kind)"""
    if isinstance(x, S):
        return x.t, x.k
    if isinstance(x, bool):
        return z3.BoolVal(x), "bool"
    if isinstance(x, int):
        return z3.IntVal(x), "int"
    if isinstance(x, float):
        x = Fraction(x)
        return z3.RealVal(x), "float"
    if isinstance(x, Fraction):
        return z3.RealVal(x), "float"
    raise Unsupported("number expected, got %r" % (type(x),))


def is_num(x):
    return isinstance(x, (S, int, float, Fraction))


def as_int_term(t, k):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if k == "bool" else t


def _arith(x, y):
    a, ka = _term(x)
    b, kb = _term(y)
    a, b = as_int_term(a, ka), as_int_term(b, kb)
    if ka == "float" or kb == "float":
        if ka != "float":
            a = z3.ToReal(a)
        if kb != "float":
            b = z3.ToReal(b)
        return a, b, "float"
    return a, b, "int"


def mk(t, k):
    t = z3.simplify(t)
    if k == "int" and z3.is_int_value(t):
        return t.as_long()
    if k == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return S(t, k)


class S:
    """A symbolic number/boolean; Python operators build terms, truth value forks the path."""
    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t, self.k = t, k

    def __add__(self, o):
        a, b, k = _arith(self, o)
        return mk(a + b, k)
    __radd__ = __add__

    def __sub__(self, o):
        a, b, k = _arith(self, o)
        return mk(a - b, k)

    def __rsub__(self, o):
        a, b, k = _arith(o, self)
        return mk(a - b, k)

    def __mul__(self, o):
        a, b, k = _arith(self, o)
        return mk(a * b, k)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __neg__(self):
        t, k = as_int_term(self.t, self.k), self.k
        return mk(-t, "float" if k == "float" else "int")

    def __pos__(self):
        return self

    def __abs__(self):
        t = as_int_term(self.t, self.k)
        return mk(z3.If(t >= 0, t, -t), "float" if self.k == "float" else "int")

    def __lt__(self, o):
        a, b, _ = _arith(self, o)
        return mk(a < b, "bool")

    def __le__(self, o):
        a, b, _ = _arith(self, o)
        return mk(a <= b, "bool")

    def __gt__(self, o):
        a, b, _ = _arith(self, o)
        return mk(a > b, "bool")

    def __ge__(self, o):
        a, b, _ = _arith(self, o)
        return mk(a >= b, "bool")

    def __eq__(self, o):
        return num_eq(self, o)

    def __ne__(self, o):
        return not_(num_eq(self, o))

    __hash__ = None

    def __bool__(self):
        return CUR.branch(truth_term(self))

    def __repr__(self):
        return "S(%s)" % (self.t,)


def num_eq(x, y):
    if not is_num(x) or not is_num(y):
        return False
    if isinstance(x, S) and isinstance(y, S) and x.k == "bool" and y.k == "bool":
        return mk(x.t == y.t, "bool")
    a, b, _ = _arith(x, y)
    return mk(a == b, "bool")


def truth_term(x):
    if x.k == "bool":
        return x.t
    return x.t != 0


def not_(x):
    if isinstance(x, S):
        return mk(z3.Not(truth_term(x)), "bool")
    return not x


def bterm(x):
    """Anything boolean -> z3 Bool."""
    if isinstance(x, S):
        return truth_term(x)
    if isinstance(x, z3.BoolRef):
        return x
    if x is None:
        return z3.BoolVal(False)
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    raise Unsupported("not a boolean: %r" % (x,))


def and_(*xs):
    return mk(z3.And([bterm(x) for x in xs]), "bool")


def or_(*xs):
    return mk(z3.Or([bterm(x) for x in xs]), "bool")


def implies(a, b):
    return mk(z3.Implies(bterm(a), bterm(b)), "bool")


def ite(c, a, b):
    x, y, k = _arith(a, b)
    return mk(z3.If(bterm(c), x, y), k)


def _nonzero(y):
    if isinstance(y, S):
        if CUR.branch(y.t == 0 if y.k != "bool" else z3.Not(y.t)):
            raise PyRaise(ZeroDivisionError, ("division by zero",))
    elif y == 0:
        raise PyRaise(ZeroDivisionError, ("division by zero",))


def real(t, k):
    t = as_int_term(t, k)
    return t if k == "float" else z3.ToReal(t)


def as_ratio(t):
    """A real term that is a rational combination of integer terms -> (integer term N, positive int D), t = N/D."""
    coefs, leaves = {}, {}

    def walk(t, c):
        if z3.is_rational_value(t):
            coefs[None] = coefs.get(None, 0) + c * Fraction(t.numerator_as_long(), t.denominator_as_long())
            return True
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            return all([walk(x, c) for x in t.children()])
        if d == z3.Z3_OP_SUB:
            ch = t.children()
            return walk(ch[0], c) and all([walk(x, -c) for x in ch[1:]])
        if d == z3.Z3_OP_UMINUS:
            return walk(t.children()[0], -c)
        if d == z3.Z3_OP_TO_REAL:
            x = t.children()[0]
            k = x.get_id()
            leaves[k] = x
            coefs[k] = coefs.get(k, 0) + c
            return True
        if d == z3.Z3_OP_MUL:
            k, rest = Fraction(1), []
            for x in t.children():
                if z3.is_rational_value(x):
                    k *= Fraction(x.numerator_as_long(), x.denominator_as_long())
                else:
                    rest.append(x)
            if len(rest) == 1:
                return walk(rest[0], c * k)
            return False
        if d == z3.Z3_OP_DIV and z3.is_rational_value(t.children()[1]):
            v = t.children()[1]
            k = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return k != 0 and walk(t.children()[0], c / k)
        return False
    if not walk(t, Fraction(1)):
        return None
    D = 1
    for c in coefs.values():
        D = D * c.denominator // __import__("math").gcd(D, c.denominator)
    N = z3.IntVal(int(coefs.get(None, 0) * D))
    for k, c in coefs.items():
        if k is not None and c:
            N = N + int(c * D) * leaves[k]
    return z3.simplify(N), D


def is_integer(x):
    """x is integral (z3 Bool)"""
    t, k = _term(x)
    if k != "float":
        return z3.BoolVal(True)
    r = as_ratio(z3.simplify(t))
    if r is not None:
        if r[1] == 1:
            return z3.BoolVal(True)
        return CUR.divmod(r[0], r[1])[1] == 0
    return z3.ToReal(CUR.toint(t)) == t


def truediv(x, y):
    _nonzero(y)
    a, ka = _term(x)
    b, kb = _term(y)
    return mk(real(a, ka) / real(b, kb), "float")


def floordiv(x, y):
    _nonzero(y)
    a, b, k = _arith(x, y)
    if k == "float":
        return mk(z3.ToReal(CUR.toint(a / b)), "float")
    # SMT-LIB div is Euclidean: equals floor for b > 0
    if isinstance(y, int) and y > 0:
        return mk(CUR.divmod(a, y)[0], "int")
    if CUR.known(b > 0):
        return mk(a / b, "int")
    return mk(z3.If(b > 0, a / b, (-a) / (-b)), "int")


def mod(x, y):
    _nonzero(y)
    a, b, k = _arith(x, y)
    if k == "float":
        q = z3.ToReal(CUR.toint(a / b))
        return mk(a - q * b, "float")
    if isinstance(y, int) and y > 0:
        return mk(CUR.divmod(a, y)[1], "int")
    if CUR.known(b > 0):
        return mk(a % b, "int")
    return mk(a - b * z3.If(b > 0, a / b, (-a) / (-b)), "int")


def trunc(x):
    t, k = _term(x)
    if k != "float":
        return mk(as_int_term(t, k), "int")
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return mk(t.arg(0), "int")          # already whole
    if CUR.known(t >= 0):
        return mk(CUR.toint(t), "int")
    if CUR.known(t <= 0):
        return mk(-CUR.toint(-t), "int")
    return mk(z3.If(t >= 0, CUR.toint(t), -CUR.toint(-t)), "int")


def floor(x):
    t, k = _term(x)
    if k != "float":
        return mk(as_int_term(t, k), "int")
    return mk(CUR.toint(t), "int")


def ceil(x):
    t, k = _term(x)
    if k != "float":
        return mk(as_int_term(t, k), "int")
    return mk(-CUR.toint(-t), "int")


def to_float(x):
    t, k = _term(x)
    return mk(real(t, k), "float")


def round_half_even(x, nd=None):
    """Python round() on a mathematical real."""
    t, k = _term(x)
    if k != "float":
        if nd is None or nd >= 0:
            return x
        raise Unsupported("round(int, negative)")
    scale = 10 ** (nd or 0)
    y = z3.simplify(t * scale)
    r = CUR.round_even(y)
    if nd is None:
        return mk(r, "int")
    return mk(z3.ToReal(r) / scale, "float")


# --------------------------------------------------------------------------- strings

class Atom:
    pass


class Dec(Atom):
    """str(n), zero padded to `width` digits; n is a non-negative integer term."""

    def __init__(self, term, width=1):
        self.t, self.width = term, width

    def fixed(self):
        """the exact number of digits if it is determined, else None"""
        if CUR.known(z3.And(self.t >= 0, self.t < 10 ** self.width)):
            return self.width
        for w in range(self.width + 1, self.width + 4):
            if CUR.known(z3.And(self.t >= 10 ** (w - 1), self.t < 10 ** w)):
                return w
        return None

    def lang(self):
        w = self.fixed()
        if w == 1 and self.width == 1:
            if CUR.known(self.t == 0):
                return L.literal("0")
            if CUR.known(self.t != 0):
                return L.rx("[1-9]")
        if w is not None:
            return L.rep(L.ASCII_DIGIT, w, w)
        more = L.cat(L.rx("[1-9]"), L.rep(L.ASCII_DIGIT, self.width, None))
        if self.width == 1:
            return (L.rx("[1-9]") if CUR.known(self.t != 0) else L.rep(L.ASCII_DIGIT, 1, 1)) | more
        return L.rep(L.ASCII_DIGIT, self.width, self.width) | more

    def explode(self):
        w = self.fixed()
        if w is None:
            return None
        if w == 1 and self.width == 1:
            return [self]
        out, t = [], self.t
        for _ in range(w):
            t, r = CUR.divmod(t, 10)
            out.insert(0, Dec(r, 1))
        return out

    def __repr__(self):
        return "Dec(%s,%d)" % (z3.simplify(self.t), self.width)


class Word(Atom):
    """An arbitrary string of a regular language."""
    n = 0

    def __init__(self, name, lang):
        Word.n += 1
        self.name, self.uid, self._lang = name, Word.n, lang
        self.resolved = None          # list of parts on this path, once refined
        self._val = self._len = self._frac = None
        lo, hi = lang.len_range()
        self.lo, self.hi = lo, hi
        self.letters = lang.charset()
        if CUR is not None:
            CUR.words.append(self)

    def lang(self):
        return self._lang

    def is_digits(self):
        return self.letters <= L.DIGIT

    def val(self):
        assert self.is_digits()
        if self._val is None:
            t = CUR.fresh(z3.IntSort(), self.name + ".val")
            CUR.assume(t >= 0)
            if self.hi is not None:
                CUR.assume(t < 10 ** self.hi)
            if self.letters == frozenset([A.cls("0")]):
                CUR.assume(t == 0)
            elif self.letters <= L.ASCII_DIGIT and self.hi == 1:
                CUR.assume(z3.Or([t == int(A.reps[c]) for c in self.letters]))
            self._val = t
        return self._val

    def frac(self):
        """0.<word> as a real"""
        if self._frac is None:
            t = CUR.fresh(z3.RealSort(), self.name + ".frac")
            CUR.assume(z3.And(t >= 0, t < 1))
            self._frac = t
        return self._frac

    def length(self):
        if self._len is None:
            if self.lo == self.hi:
                self._len = z3.IntVal(self.lo)
            else:
                t = CUR.fresh(z3.IntSort(), self.name + ".len")
                CUR.assume(t >= self.lo)
                if self.hi is not None:
                    CUR.assume(t <= self.hi)
                else:
                    for m in (2, 3, 4, 5, 6, 7, 8):
                        r = self._lang.residue(m)
                        if r is not None:
                            CUR.assume(CUR.divmod(t, m)[1] == r)
                self._len = t
        return self._len

    def uniform(self):
        """True if the language is letters{lo,hi} (every combination)."""
        if getattr(self, "_uni", None) is None:
            self._uni = L.rep(self.letters, self.lo, self.hi).equal(self._lang) if self.letters else False
        return self._uni

    def explode_to(self, n):
        """Refine on this path: the word has exactly n characters."""
        CUR.assume(self.length() == n)
        if not self.uniform():
            raise Unsupported("cannot split a structured word")
        cs = [Word("%s[%d]" % (self.name, i), L.rep(self.letters, 1, 1)) for i in range(n)]
        if self.is_digits():
            if self._val is not None:
                CUR.assume(self._val == sum([c.val() * 10 ** (n - 1 - i) for i, c in enumerate(cs)], z3.IntVal(0)))
            if self._frac is not None:
                CUR.assume(self._frac * 10 ** n == z3.ToReal(sum([c.val() * 10 ** (n - 1 - i) for i, c in enumerate(cs)], z3.IntVal(0))))
        self.resolved = cs
        return cs

    def split_prefix(self, n):
        """Refine: the word has more than n characters; returns n single letters + rest."""
        CUR.assume(self.length() > n)
        if not self.uniform():
            raise Unsupported("cannot split a structured word")
        cs = [Word("%s[%d]" % (self.name, i), L.rep(self.letters, 1, 1)) for i in range(n)]
        rest = Word(self.name + "+", L.rep(self.letters, max(1, self.lo - n), None if self.hi is None else self.hi - n))
        CUR.assume(rest.length() == self.length() - n)
        if self.is_digits() and self._frac is not None:
            CUR.assume(self._frac * 10 ** n == z3.ToReal(sum([c.val() * 10 ** (n - 1 - i) for i, c in enumerate(cs)], z3.IntVal(0))) + rest.frac())
        self.resolved = cs + [rest]
        return cs + [rest]

    def refine(self, lang, name=None):
        w = Word(name or self.name, lang)
        if self._val is not None:
            CUR.assume(w.val() == self._val)
        if self._len is not None:
            CUR.assume(w.length() == self._len)
        self.resolved = [w]
        return w

    def __repr__(self):
        return "<%s>" % self.name


class Img(Atom):
    """A transducer image of a word."""

    def __init__(self, word, f):
        self.word, self.f = word, f
        self._l = None

    def lang(self):
        if self._l is None:
            self._l = F.image(self.f, self.word.lang())
        return self._l

    def __repr__(self):
        return "Img<%s>" % self.word.name


class Rope:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)

    def norm(self):
        """Resolve refined words, merge literals."""
        out = []

        def add(p):
            if isinstance(p, str):
                if not p:
                    return
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            elif isinstance(p, Word) and p.resolved is not None:
                for q in p.resolved:
                    add(q)
            elif isinstance(p, Word) and p.hi == 0:
                return
            elif isinstance(p, Img) and p.word.resolved is not None:
                if len(p.word.resolved) == 1 and isinstance(p.word.resolved[0], Word):
                    add(Img(p.word.resolved[0], p.f))
                elif len(p.f.delta) == 1:
                    for q in p.word.resolved:
                        add(p.f.run(q) if isinstance(q, str) else Img(q, p.f))
                else:
                    raise Unsupported("image of a split word")
            elif isinstance(p, Dec) and z3.is_int_value(z3.simplify(p.t)):
                add(str(z3.simplify(p.t).as_long()).zfill(p.width))
            else:
                out.append(p)
        for p in self.parts:
            add(p)
        self.parts = out
        return self

    def __repr__(self):
        return "Rope(%r)" % (self.norm().parts,)

    def lang(self):
        self.norm()
        return L.cat(*[p if isinstance(p, str) else p.lang() for p in self.parts])

    def __bool__(self):
        raise Unsupported("truth value of a rope used natively")


def rope(*xs):
    """Build a string value from str / Rope / Atom pieces."""
    parts = []
    for x in xs:
        if isinstance(x, Rope):
            parts += x.parts
        else:
            parts.append(x)
    r = Rope(parts).norm()
    if all(isinstance(p, str) for p in r.parts):
        return "".join(r.parts)
    return r


def is_str(x):
    return isinstance(x, (str, Rope))


def parts_of(x):
    if isinstance(x, str):
        return [x] if x else []
    return list(x.norm().parts)


def lang_of(x):
    return L.literal(x) if isinstance(x, str) else x.lang()


# --------------------------------------------------------------------------- heap values

class PyRaise(Exception):
    """A Python exception raised by the verified code."""

    def __init__(self, cls, args=(), obj=None):
        self.cls, self.eargs, self.obj = cls, args, obj

    def __str__(self):
        return "%s%r" % (self.cls.__name__, tuple(self.eargs))


class BlobList:
    """Iteration order of a list that contains segments of unknown length."""

    def __init__(self, items):
        self.items = items


ValSort = z3.DeclareSort("Val")


class U:
    """An uninterpreted value (identity/equality only unless hooks are given)."""

    def __init__(self, t, truth=None, eq=None, none=None, never_none=True, name=None):
        self.t, self.truth, self.eq, self.none, self.never_none = t, truth, eq, none, never_none
        self.name = name or str(t)

    def __repr__(self):
        return "U(%s)" % self.name


class Blob:
    """A segment of unknown length inside a list: elem(i) for lo <= i < length."""

    def __init__(self, name, length, elem, lo=0, tag=None, memo=None):
        self.name, self.elem, self.tag = name, elem, tag or name
        self.length = z3.IntVal(length) if isinstance(length, int) else length
        self.lo = z3.IntVal(lo) if isinstance(lo, int) else lo
        self.memo = {} if memo is None else memo

    def get(self, i):
        i = z3.IntVal(i) if isinstance(i, int) else z3.simplify(i)
        k = i.sexpr()
        if k not in self.memo:
            self.memo[k] = self.elem(i)
        return self.memo[k]

    def size(self):
        return mk(self.length - self.lo, "int")

    def sub(self, lo):
        return Blob(self.name, self.length, self.elem, lo, self.tag, self.memo)

    def __repr__(self):
        return "Blob(%s)" % self.name


class PyList:
    def __init__(self, items=(), owner=None):
        self.items = list(items)
        self.owner = owner
        SObj.n += 1
        self.stamp = SObj.n

    def has_blob(self):
        return any(isinstance(x, Blob) for x in self.items)

    def __repr__(self):
        return "PyList(%r)" % (self.items,)


class PySet(PyList):
    pass


class PyDict:
    """Insertion-ordered association list (keys compared with ==)."""

    def __init__(self, pairs=(), owner=None):
        self.pairs = [p if isinstance(p, Blob) else list(p) for p in pairs]
        self.owner = owner
        self.default_factory = None
        SObj.n += 1
        self.stamp = SObj.n

    def __repr__(self):
        return "PyDict(%r)" % (self.pairs,)


class SObj:
    n = 0

    def __init__(self, cls, attrs=None, owner=None):
        SObj.n += 1
        self.cls, self.attrs, self.owner, self.uid = cls, dict(attrs or {}), owner, SObj.n
        self.data = None            # payload for list/dict subclasses
        self.ghost = {}
        self.partial = False        # built by a contract attribute by attribute, not by its constructor

    def __repr__(self):
        return "<%s %s>" % (self.cls.__name__, {k: v for k, v in list(self.attrs.items())[:6]})


class Opaque:
    """A stub object whose behaviour is given by the contract (assumed dependency)."""

    def __init__(self, name, **attrs):
        self.name, self.attrs, self.items = name, attrs, {}
        SObj.n += 1
        self.stamp = SObj.n

    def __repr__(self):
        return "Opaque(%s)" % self.name


# --------------------------------------------------------------------------- context

class Obligation:
    __slots__ = ("name", "status", "backend", "ms", "detail", "model", "goal", "path")

    def __init__(self, name, status, backend, ms, detail="", model=None, goal="", path=()):
        self.name, self.status, self.backend, self.ms = name, status, backend, ms
        self.detail, self.model, self.goal, self.path = detail, model, goal, path


class Ctx:
    def __init__(self, prefix=(), timeout_ms=8000):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.obligations = []
        self.pc = []
        self.words = []
        self.inputs = {}
        self.names = {}
        self.defs = {}
        self.qcache = {}
        self.loops = {}
        self.contracts = {}
        self.models = {}
        self.trusted = set()
        self.inlined = set()
        self.notes = []
        self.writes = []
        self.fork_cache = {}
        self.reached = False
        self.choices = []
        self.used_contracts = set()
        self.unroll = 64
        self.global_writes = []
        self.frozen = []
        self.shared = {}            # survives from path to path of one contract (inferred loop invariants)

    # ---- heap writes, frames
    def write(self, o, name, old, new):
        self.writes.append((o, name, old, new))
        if getattr(o, "owner", None) == "input":
            same = old is new or (isinstance(old, (int, str, Fraction)) and type(old) is type(new) and old == new)
            if not same:
                what = "%s.%s" % (o.cls.__name__ if isinstance(o, SObj) else type(o).__name__, name)
                self.decide("frame: input %s is not modified" % what, False, witness=what, backend="frame")

    def global_write(self, what):
        self.global_writes.append(what)
        self.decide("frame: no write to module/class state (%s)" % what, False, witness=what, backend="frame")

    # ---- loop contracts
    def loop_spec(self, blob, frame, node):
        s = self.loops.get(blob.tag)
        if s is None:
            s = self.loops.get("*")
        return s

    def while_spec(self, frame, node):
        return self.loops.get("while:%s" % frame.fn)

    def literal(self, s):
        """a str literal among the values of which nothing is known"""
        k = ("literal", s)
        if k not in self.defs:
            t = z3.Const("literal:%r" % s, ValSort)
            for o, u in list(self.defs.items()):
                if isinstance(o, tuple) and o[0] == "literal":
                    self.assume(t != u)
            self.defs[k] = t
        return self.defs[k]

    def fresh(self, sort, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return z3.Const(name if k == 0 else "%s!%d" % (name, k), sort)

    # ---- definitional extensions (fresh names for floor / div / round: keeps the terms linear and small)
    def _define(self, kind, key, build):
        k = (kind, key)
        if k not in self.defs:
            self.defs[k] = build()
        return self.defs[k]

    def toint(self, t):
        """floor of a real term"""
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return z3.IntVal(t.numerator_as_long() // t.denominator_as_long())
        r = as_ratio(t)
        if r is not None:
            return r[0] if r[1] == 1 else self.divmod(*r)[0]

        def build():
            n = self.fresh(z3.IntSort(), "floor")
            self.assume(z3.And(z3.ToReal(n) <= t, t < z3.ToReal(n) + 1))
            return n
        return self._define("floor", t.sexpr(), build)

    def divmod(self, t, c):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return z3.IntVal(t.as_long() // c), z3.IntVal(t.as_long() % c)

        def build():
            q, r = self.fresh(z3.IntSort(), "quo"), self.fresh(z3.IntSort(), "rem")
            self.assume(z3.And(t == c * q + r, r >= 0, r < c))
            return q, r
        return self._define("div%d" % c, t.sexpr(), build)

    def round_even(self, y):
        if z3.is_rational_value(y):
            from fractions import Fraction as Fr
            return z3.IntVal(round(Fr(y.numerator_as_long(), y.denominator_as_long())))
        r = as_ratio(y)
        if r is not None:
            if r[1] == 1:
                return r[0]
            q, m = self.divmod(*r)
            if r[1] % 2:
                return z3.If(2 * m < r[1], q, q + 1)
            _, odd = self.divmod(q, 2)
            return z3.If(z3.Or(2 * m < r[1], z3.And(2 * m == r[1], odd == 0)), q, q + 1)

        def build():
            n, h = self.fresh(z3.IntSort(), "round"), self.fresh(z3.IntSort(), "half")
            d = 2 * (y - z3.ToReal(n))
            self.assume(z3.And(d >= -1, d <= 1, z3.Implies(z3.Or(d == 1, d == -1), n == 2 * h)))
            return n
        return self._define("round", y.sexpr(), build)

    def assume(self, c):
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise PathEnd("assumed false")

    def check(self, *extra):
        """Feasibility (unknown counts as feasible): short time-outs, an unknown only costs extra paths."""
        key = (len(self.pc), tuple(e.get_id() for e in extra))
        if key in self.qcache:
            return self.qcache[key][0]
        self.solver.set("timeout", 1500)
        r = self.solver.check(*extra)
        if r == z3.unknown:
            s = z3.SolverFor("QF_UFLIRA")
            s.set("timeout", 1500)
            s.add(self.solver.assertions())
            s.add(*extra)
            r = s.check()
        self.solver.set("timeout", self.timeout_ms)
        self.qcache[key] = (r, extra)
        return r

    def known(self, c):
        """Is c entailed (definitely)?"""
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def branch(self, c):
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.check(c) != z3.unsat
            f = self.check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd("infeasible")
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            else:
                d = t
                # forced: record so that replays stay aligned
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, label=""):
        """Demonic n-way choice (the harness's case split / arbitrary loop iteration)."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in range(1, n):
                self.pending.append(self.decisions + [k])
            d = 0
        self.decisions.append(d)
        self.choices.append((label, d))
        return d

    def prove(self, name, c, detail=""):
        t0 = time.time()
        c = z3.simplify(bterm(c))
        status, backend, model = None, "z3", None
        if z3.is_true(c):
            status, backend = "discharged", "simplifier"
        else:
            self.solver.push()
            self.solver.add(z3.Not(c))
            r = self.solver.check()
            if r == z3.unsat:
                status = "discharged"
            elif r == z3.sat:
                status, model = "refuted", self.solver.model()
            else:
                status = "unknown"
                s2 = z3.Tactic("qfnra-nlsat").solver() if False else z3.SolverFor("QF_UFNIRA")
                s2.set("timeout", self.timeout_ms * 2)
                s2.add(self.solver.assertions())
                r = s2.check()
                if r == z3.unsat:
                    status, backend = "discharged", "z3:QF_UFNIRA"
                elif r == z3.sat:
                    status, model = "refuted", s2.model()
                else:
                    st = cvc5_unsat(self.solver.assertions())
                    if st:
                        status, backend = "discharged", "cvc5"
            self.solver.pop()
        o = Obligation(name, status, backend, int((time.time() - t0) * 1000), detail, model, str(c)[:600],
                       tuple(self.choices))
        if model is not None:
            o.detail = detail
            o.model = self.concretize(model)
        self.obligations.append(o)
        return status == "discharged"

    def decide(self, name, ok, witness=None, backend="automata", detail=""):
        """Record an obligation settled by a decision procedure outside SMT."""
        o = Obligation(name, "discharged" if ok else "refuted", backend, 0, detail,
                       None if ok else {"witness": witness}, "", tuple(self.choices))
        if not ok and self.inputs:
            if self.check() == z3.sat:
                m = self.concretize(self.solver.model())
                m["witness"] = witness
                o.model = m
        self.obligations.append(o)
        return ok

    # ---- counter-model -> python values
    def concretize(self, model):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = concrete(v, model)
            except Exception as e:                      # best effort; replay decides
                out[k] = "<%s>" % e
        out["choices"] = list(self.choices)
        return out


def cvc5_unsat(assertions, timeout_ms=10000):
    try:
        import cvc5
        s = z3.Solver()
        s.add(assertions)
        text = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "vc")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(slv, sm)
            if "unsat" in str(r):
                return True
        return False
    except Exception:
        return False


def num_of(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


def concrete(v, model):
    if isinstance(v, S):
        return num_of(model, v.t)
    if isinstance(v, z3.ExprRef):
        return num_of(model, v)
    if isinstance(v, Rope):
        return "".join(concrete(p, model) for p in v.norm().parts)
    if isinstance(v, Dec):
        return str(num_of(model, v.t)).zfill(v.width)
    if isinstance(v, Word):
        if v.resolved is not None:
            return "".join(p if isinstance(p, str) else concrete(p, model) for p in v.resolved)
        for (cs, left, right), core in v.__dict__.get("strips", {}).items():
            blank = L.star(cs)
            x = concrete(core, model)
            return (L.cat(blank if left else L.EPS, L.literal(x), blank if right else L.EPS) & v.lang()).word() or x
        if getattr(v, "witness", None) is not None:
            return v.witness(model)
        if v.is_digits() and v._val is not None:
            n = str(num_of(model, v._val))
            ln = num_of(model, v.length())
            return n.zfill(max(ln, v.lo))
        if v.is_digits() and v._frac is not None:
            f = num_of(model, v._frac)
            s = ("%.9f" % float(f)).split(".")[1].rstrip("0")
            return s or "0"
        if v._len is not None:
            n = num_of(model, v._len)
            w = v._lang.word_of_length(n)
            if w is not None:
                return w
        return v._lang.word()
    if isinstance(v, Img):
        return v.f.run(concrete(v.word, model))
    if isinstance(v, PyList):
        return [concrete(x, model) for x in v.items]
    if isinstance(v, (list, tuple)):
        return type(v)(concrete(x, model) for x in v)
    if isinstance(v, dict):
        return {k: concrete(x, model) for k, x in v.items()}
    if isinstance(v, SObj):
        return {"__class__": v.cls.__name__, **{k: concrete(x, model) for k, x in v.attrs.items()}}
    return v
