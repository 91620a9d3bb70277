"""C18 Geometry values compare, hash, parse and print consistently (pycaption/geometry.py)."""
import re

from pycaption import geometry as G
from pycaption.exceptions import CaptionReadSyntaxError
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum)

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

UNITS = list(UnitEnum)
T = "pycaption.geometry."


def size(h, n, unit=None):
    return h.obj(Size, owner="input", value=h.real(n + ".value", 0), unit=unit or h.pick(n + ".unit", UNITS))


def csize(h, n):
    """A size among two units (a case split that is enough for = on composite values, whose code only calls Size)."""
    return h.obj(Size, owner="input", value=h.real(n + ".value", 0),
                 unit=h.pick(n + ".unit", [UnitEnum.PIXEL, UnitEnum.PERCENT]))


def same_size(a, b):
    return Y.and_(Y.num_eq(a.value if not hasattr(a, "attrs") else a.attrs["value"],
                           b.value if not hasattr(b, "attrs") else b.attrs["value"]), at(a, "unit") is at(b, "unit"))


def at(o, n):
    return o.attrs[n] if hasattr(o, "attrs") else getattr(o, n)


def eq_hash(h, a, b, spec):
    e = h.truth(h.call(lambda x, y: x == y, a, b)) if False else h.eq(a, b)
    h.prove("== is exactly component equality", h.iff(e, spec))
    h.prove("equal values have equal hashes", Y.implies(spec, h.eq(h.call(hash, a), h.call(hash, b))))
    ne = h.eq(b, a)
    h.prove("== is symmetric", h.iff(ne, spec))


EH = ["== is exactly component equality", "equal values have equal hashes"]


@contract("C18", "Size ==, hash", targets=[T + "Size.__eq__", T + "Size.__hash__", T + "Size.__bool__"], expects=EH)
def _(h):
    a, b = size(h, "a"), size(h, "b")
    eq_hash(h, a, b, same_size(a, b))


for _cls, _f in ((Point, ("x", "y")), (Stretch, ("horizontal", "vertical")),
                 (Padding, ("before", "after", "start", "end"))):
    def _mk(cls=_cls, fields=_f):
        n = cls.__name__

        @contract("C18", n + " ==, hash", targets=[T + n + ".__eq__", T + n + ".__hash__"], expects=EH)
        def _(h):
            a = h.obj(cls, owner="input", **{f: size(h, "a." + f, UnitEnum.PIXEL) for f in fields})
            # the units of b range over all combinations of two units; a's are fixed to one of them
            b = h.obj(cls, owner="input", **{f: csize(h, "b." + f) for f in fields})
            eq_hash(h, a, b, Y.and_(*[same_size(at(a, f), at(b, f)) for f in fields]))
    _mk()


@contract("C18", "Alignment ==, hash", targets=[T + "Alignment.__eq__", T + "Alignment.__hash__"], expects=EH)
def _(h):
    hs, vs = [None] + list(HorizontalAlignmentEnum), [None] + list(VerticalAlignmentEnum)
    a = h.obj(Alignment, owner="input", horizontal=h.pick("a.h", hs), vertical=h.pick("a.v", vs))
    b = h.obj(Alignment, owner="input", horizontal=h.pick("b.h", hs), vertical=h.pick("b.v", vs))
    eq_hash(h, a, b, at(a, "horizontal") is at(b, "horizontal") and at(a, "vertical") is at(b, "vertical"))


def opt(h, n, make, same):
    """An optional component: absent or present."""
    return make() if h.pick(n, [False, True]) else None


def layout(h, n, parts):
    o = {"origin": None, "extent": None, "padding": None, "alignment": None, "webvtt_positioning": None}
    o.update(parts)
    return h.obj(Layout, owner="input", **o)


def comp(h, n, k):
    if not h.pick(n + "?", [False, True]):
        return None
    px = UnitEnum.PIXEL
    if k == "origin":
        return h.obj(Point, owner="input", x=size(h, n + ".x", px), y=size(h, n + ".y", px))
    if k == "extent":
        return h.obj(Stretch, owner="input", horizontal=size(h, n + ".h", px), vertical=size(h, n + ".v", px))
    if k == "padding":
        return h.obj(Padding, owner="input", **{f: size(h, n + "." + f, px) for f in ("before", "after", "start", "end")})
    return h.obj(Alignment, owner="input", horizontal=h.pick(n + ".h", [HorizontalAlignmentEnum.LEFT, HorizontalAlignmentEnum.END]),
                 vertical=VerticalAlignmentEnum.TOP)


FIELDS = {"origin": ("x", "y"), "extent": ("horizontal", "vertical"), "padding": ("before", "after", "start", "end")}


def same_comp(a, b, k):
    if a is None or b is None:
        return a is b
    if k == "alignment":
        return at(a, "horizontal") is at(b, "horizontal")
    return Y.and_(*[same_size(at(a, f), at(b, f)) for f in FIELDS[k]])


@contract("C18", "Layout ==, !=, hash", targets=[T + "Layout.__eq__", T + "Layout.__ne__", T + "Layout.__hash__"],
          expects=EH + ["!= is the negation"], timeout=200)
def _(h):
    ks = ("origin", "extent", "padding", "alignment")
    pa = {k: comp(h, "a." + k, k) for k in ks}
    pb = {k: comp(h, "b." + k, k) for k in ks}
    a, b = layout(h, "a", pa), layout(h, "b", pb)
    spec = Y.and_(*[same_comp(pa[k], pb[k], k) for k in ks])
    eq_hash(h, a, b, spec)
    h.prove("!= is the negation", h.iff(h.meth(a, "__ne__", b), Y.not_(spec)))


@contract("C18", "printing rounds to two decimals and re-parses", targets=[T + "Size.__str__", T + "Size.to_xml_attribute",
                                                                           T + "Size.from_string"],
          expects=["reparsing gives the two-decimal value", "same unit", "printing is stable", "xml attribute is str()"])
def _(h):
    a = size(h, "a")
    s = h.call(str, a)
    h.prove("xml attribute is str()", h.eq(h.meth(a, "to_xml_attribute"), s))
    b = h.call(Size.from_string, s)
    h.prove("reparsing gives the two-decimal value", Y.num_eq(at(b, "value"), h.native(round2, at(a, "value"))))
    h.prove("same unit", at(b, "unit") is at(a, "unit"))
    h.prove("printing is stable", h.eq(h.call(str, b), s))


PRINTED = L.rx(r"-?[0-9]+(\.[0-9]{1,2})?(px|em|%|c|pt)")


@contract("C18", "printed shape", targets=[T + "Size.__str__"], expects=["a decimal number with at most two decimals, then the unit"])
def _(h):
    u = h.pick("unit", [UnitEnum.PERCENT, UnitEnum.PIXEL])
    sign = h.pick("sign", ["non-negative", "negative"])
    v = h.real("value", 0)
    a = h.obj(Size, owner="input", value=v if sign != "negative" else -v, unit=u)
    h.prove_in("a decimal number with at most two decimals, then the unit", h.call(str, a), PRINTED)


def round2(v):
    if isinstance(v, Y.S):
        return Y.round_half_even(v, 2)
    return round(v, 2)


# ------------------------------------------------------------------ the size grammar

NUM = L.rx(r"[0-9]+(\.[0-9]+)?")
UNUM = L.rx(r"\d+(\.\d+)?|\d*\.\d+|\d+\.")      # spellings the statement leaves open: other Unicode digits, .5, 5.
UNIT = L.rx(r"px|em|%|c|pt")
MUST = L.cat(NUM, UNIT) | L.literal("0")
MAY = L.cat(UNUM, UNIT) | L.rx(r"\d")


@contract("C18", "from_string accepts number+unit", targets=[T + "Size.from_string"],
          expects=["value", "unit", "accepted"])
def _(h):
    ip = h.word("int", L.rep(L.ASCII_DIGIT, 1, None))
    unit = h.pick("unit", UNITS)
    if h.pick("fraction", [False, True]):
        fp = h.word("frac", L.rep(L.ASCII_DIGIT, 1, None))
        text = Y.rope(ip, ".", fp, unit.value)
    else:
        fp, text = None, Y.rope(ip, unit.value)
    cls, v, _ = h.raises(lambda: h.call(Size.from_string, text))
    h.prove("accepted", cls is None)
    if cls is None:
        want = h.native(number, ip, fp)
        h.prove("value", Y.num_eq(at(v, "value"), want))
        h.prove("unit", at(v, "unit") is unit)


def number(ip, fp):
    if isinstance(ip, Y.Rope) or isinstance(fp, Y.Rope):
        from pyvc import models as M
        t = M.digits_value(Y.parts_of(ip))
        import z3
        v = z3.ToReal(t)
        if fp is not None:
            v = v + M.frac_value(Y.parts_of(fp))
        return Y.mk(v, "float")
    return float(ip + ("." + fp if fp is not None else ""))


@contract("C18", "from_string bare 0 and rejection", targets=[T + "Size.from_string"],
          expects=["0 is accepted", "everything else raises the syntax error"])
def _(h):
    if h.pick("case", ["zero", "other"]) == "zero":
        cls, v, _ = h.raises(lambda: h.call(Size.from_string, "0"))
        h.prove("0 is accepted", cls is None)
        if cls is None:
            h.prove("0 is zero", Y.num_eq(at(v, "value"), 0))
        return
    w = h.word("text", L.TOP - (MUST | MAY))
    cls, v, _ = h.raises(lambda: h.call(Size.from_string, w))
    h.prove("everything else raises the syntax error", cls is not None and issubclass(cls, CaptionReadSyntaxError))


# ------------------------------------------------------------------ composite attributes

@contract("C18", "padding shorthand (1-4 sizes, TTML order)", targets=[T + "Padding.from_xml_attribute", T + "Padding.__init__"],
          expects=["before", "after", "start", "end"])
def _(h):
    n = h.pick("count", [1, 2, 3, 4])
    vs = [h.int("v%d" % i, 0) for i in range(n)]
    text = h.native(join_sizes, vs)
    p = h.call(Padding.from_xml_attribute, text)
    idx = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[n]
    for k, f in enumerate(("before", "end", "after", "start")):
        s = at(p, f)
        h.prove(f, Y.and_(Y.num_eq(at(s, "value"), vs[idx[k]]), at(s, "unit") is (UnitEnum.PERCENT if idx[k] % 2 else UnitEnum.PIXEL)))


def join_sizes(vs):
    out = []
    for k, v in enumerate(vs):
        if k:
            out.append(" ")
        out.append(str(v) if not isinstance(v, Y.S) else Y.Dec(v.t))
        out.append("%" if k % 2 else "px")
    return Y.rope(*out)


for _cls, _f in ((Point, ("x", "y")), (Stretch, ("horizontal", "vertical")),
                 (Padding, ("before", "end", "after", "start"))):
    def _mk2(cls=_cls, fields=_f):
        n = cls.__name__

        @contract("C18", n + " printed attribute re-parses", targets=[T + n + ".to_xml_attribute", T + n + ".from_xml_attribute"
                                                                      if cls is Padding else T + "TwoDimensionalObject.from_xml_attribute"],
                  expects=["re-parsed"], timeout=150)
        def _(h):
            # sizes already on the two-decimal grid (what printing produces): k/100
            us = [UnitEnum.PERCENT, UnitEnum.PIXEL] if cls is not Padding else [UnitEnum.PERCENT]
            u = h.pick("unit", us)
            parts = {f: h.obj(Size, owner="input", value=h.native(to_real, h.int(f, 0)), unit=u) for f in fields}
            a = h.obj(cls, owner="input", **parts)
            s = h.meth(a, "to_xml_attribute")
            b = h.call(cls.from_xml_attribute, s)
            h.prove("re-parsed", Y.and_(*[same_size(at(a, f), at(b, f)) for f in fields]))
    _mk2()


def to_real(v):
    return Y.to_float(v) if isinstance(v, Y.S) else float(v)


# ------------------------------------------------------------------ value semantics (frame)

@contract("C18", "relativizing returns a new value", targets=[T + c + ".as_percentage_of" for c in
                                                              ("Size", "Point", "Stretch", "Padding", "Layout")],
          expects=["receiver unchanged"], timeout=150)
def _(h):
    w, hh = h.pick("w", [640, None]), h.pick("h", [360, None])
    k = h.pick("kind", ["origin", "extent", "padding"])
    u = h.pick("unit", UNITS)
    f = FIELDS[k]
    cls = {"origin": Point, "extent": Stretch, "padding": Padding}[k]
    sizes = [size(h, "s.%s" % x, u) for x in f]
    o = h.obj(cls, owner="input", **dict(zip(f, sizes)))
    l = layout(h, "l", {k: o})
    before = [at(s, "value") for s in sizes]
    cls2, r, _ = h.raises(lambda: h.meth(l, "as_percentage_of", w, hh))
    h.prove("receiver unchanged", Y.and_(at(l, k) is o, *[at(o, x) is s for x, s in zip(f, sizes)],
                                         *[Y.num_eq(at(s, "value"), b) for s, b in zip(sizes, before)],
                                         *[at(s, "unit") is u for s in sizes]))
    if cls2 is None:
        h.prove("a new object", r is not l)


@contract("C18", "fitting returns a new value", targets=[T + "Layout.fit_to_screen"], expects=["receiver unchanged"])
def _(h):
    pc = UnitEnum.PERCENT
    x, y = size(h, "x", pc), size(h, "y", pc)
    o = h.obj(Point, owner="input", x=x, y=y)
    e = h.obj(Stretch, owner="input", horizontal=size(h, "w", pc), vertical=size(h, "h", pc)) if h.pick("extent", [False, True]) else None
    l = layout(h, "l", {"origin": o, "extent": e})
    b = [at(x, "value"), at(y, "value")] + ([at(at(e, "horizontal"), "value"), at(at(e, "vertical"), "value")] if e is not None else [])
    r = h.meth(l, "fit_to_screen")
    now = [at(x, "value"), at(y, "value")] + ([at(at(e, "horizontal"), "value"), at(at(e, "vertical"), "value")] if e is not None else [])
    h.prove("receiver unchanged", Y.and_(at(l, "origin") is o, at(l, "extent") is e, at(o, "x") is x, at(o, "y") is y,
                                         *[Y.num_eq(p, q) for p, q in zip(b, now)]))
    h.prove("a new object", r is not l)
