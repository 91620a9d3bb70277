"""C13 Absolute sizes are relativized exactly or refused; fit-to-screen stays safe."""
from pycaption.base import BaseWriter
from pycaption.dfxp.base import DFXPWriter
from pycaption.exceptions import RelativizationError
from pycaption.geometry import Alignment, HorizontalAlignmentEnum, Layout, Size, UnitEnum, VerticalAlignmentEnum
from pycaption.sami import SAMIWriter
from pycaption.webvtt import WebVTTWriter

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

from . import writers
from .geo import FIELDS, HORIZONTAL, PC, UNITS, Printed, at, comp, layout, size, val

G = "pycaption.geometry."
EXACT = "the percentage is exactly value in px * 100 / dimension (32x15 grid for cells)"
IS_PC = "the result is a percentage"
REFUSED = "without the needed dimension: RelativizationError, nothing else"


def same_percentage(unit, value, result, dim, horizontal):
    """result * dim == pixels * 100, free of divisions; dim is ignored by percentages and cells"""
    if unit is PC:
        return Y.num_eq(result, value)
    if unit is UnitEnum.CELL:
        return Y.num_eq(result * (32 if horizontal else 15), value * 100)
    if unit is UnitEnum.PIXEL:
        return Y.num_eq(result * dim, value * 100)
    if unit is UnitEnum.EM:
        return Y.num_eq(result * dim, value * 1600)
    return Y.num_eq(result * dim * 3, value * 400)


@contract("C13", "Size.as_percentage_of", targets=[G + "Size.as_percentage_of"], expects=[EXACT, IS_PC])
def _(h):
    u = h.pick("unit", UNITS)
    s = size(h, "value", u)
    hor = h.pick("horizontal", [True, False])
    dim = h.int("dimension", 1)
    p = h.meth(s, "as_percentage_of", video_width=dim) if hor else h.meth(s, "as_percentage_of", video_height=dim)
    h.prove(IS_PC, at(p, "unit") is PC)
    h.prove(EXACT, same(h, u, at(s, "value"), at(p, "value"), dim, hor))


def same(h, u, v, r, dim, hor):
    if isinstance(r, Y.S) or isinstance(v, Y.S):
        return same_percentage(u, v, r, dim, hor)
    from fractions import Fraction as F
    f = {UnitEnum.PERCENT: F(1), UnitEnum.CELL: F(100, 32 if hor else 15), UnitEnum.PIXEL: F(100) / F(dim),
         UnitEnum.EM: F(1600) / F(dim), UnitEnum.PT: F(400, 3) / F(dim)}[u]
    return abs(F(r) - F(v) * f) <= abs(F(v) * f) / 10 ** 9        # replay: floats


@contract("C13", "Size.as_percentage_of without a dimension", targets=[G + "Size.as_percentage_of"],
          expects=[REFUSED, "a percentage needs none"])
def _(h):
    u = h.pick("unit", UNITS)
    s = size(h, "value", u)
    exc, p, _e = h.raises(lambda: h.meth(s, "as_percentage_of"))
    if u is PC:
        h.prove("a percentage needs none", exc is None and at(p, "unit") is PC
                and Y.num_eq(at(p, "value"), at(s, "value")))
    else:
        h.prove(REFUSED, exc is RelativizationError)


def some_units(h, fields):
    """every unit in every field, one field at a time: the others are percentages or pixels"""
    k = h.pick("field", list(fields))
    rest = h.pick("others", [PC, UnitEnum.PIXEL])
    return dict({f: rest for f in fields}, **{k: h.pick("unit", UNITS)})


def component(kind, via_layout):
    def run(h):
        us = some_units(h, FIELDS[kind])
        o = comp(h, kind, us)
        w = h.int("width", 1) if h.pick("width?", [True, False]) else None
        hh = h.int("height", 1) if h.pick("height?", [True, False]) else None
        al = h.obj(Alignment, owner="input", horizontal=HorizontalAlignmentEnum.RIGHT, vertical=VerticalAlignmentEnum.TOP)
        if via_layout:
            l = layout(h, alignment=al, **{kind: o})
            exc, r, _e = h.raises(lambda: h.meth(l, "as_percentage_of", w, hh))
            if exc is None:
                h.prove("the alignment is kept", h.eq(at(r, "alignment"), al))
                h.prove("nothing appears that was absent", all(at(r, k) is None for k in FIELDS if k != kind))
                r = at(r, kind)
        else:
            exc, r, _e = h.raises(lambda: h.meth(o, "as_percentage_of", w, hh))
        missing = [f for f in us if us[f] is not PC and (w if f in HORIZONTAL else hh) is None]
        if missing:
            h.prove(REFUSED, exc is RelativizationError)
        else:
            h.prove("no error when every needed dimension is there", exc is None)
            if exc is None:
                for f in us:
                    h.prove("horizontal lengths use the width, vertical ones the height",
                            same(h, us[f], val(o, f, "value"), val(r, f, "value"), w if f in HORIZONTAL else hh, f in HORIZONTAL))
                    h.prove(IS_PC, val(r, f, "unit") is PC)
    return run


for _k, _c in (("origin", "Point"), ("extent", "Stretch"), ("padding", "Padding")):
    _E = [REFUSED, IS_PC, "no error when every needed dimension is there",
          "horizontal lengths use the width, vertical ones the height"]
    contract("C13", _c + ".as_percentage_of", targets=[G + _c + ".as_percentage_of", G + "Size.as_percentage_of"],
             expects=_E, timeout=250)(component(_k, False))
    contract("C13", "Layout.as_percentage_of (%s)" % _k, targets=[G + "Layout.as_percentage_of"],
             expects=_E + ["the alignment is kept"], timeout=250)(component(_k, True))


# ------------------------------------------------------------------ fit to screen

def fit_layout(h):
    o = comp(h, "origin") if h.pick("origin?", [True, False]) else None
    e = comp(h, "extent") if h.pick("extent?", [True, False]) else None
    p = comp(h, "padding") if h.pick("padding?", [True, False]) else None
    al = h.obj(Alignment, owner="input", horizontal=HorizontalAlignmentEnum.RIGHT, vertical=VerticalAlignmentEnum.TOP)
    if o is not None:
        h.assume(Y.and_(val(o, "x", "value") <= 90, val(o, "y", "value") <= 95))
    return layout(h, origin=o, extent=e, padding=p, alignment=al), o, e, p, al


FIT = ["the right edge is at most 90%", "the bottom edge is at most 95%", "a missing extent reaches exactly those edges",
       "an extent that already fits is unchanged", "origin, padding and alignment are kept",
       "no origin: nothing changes"]


def fitted(h, l, o, e, p, al, r):
    if o is None:
        h.prove("no origin: nothing changes", Y.and_(h.eq(r, l), h.eq(at(r, "extent"), e), h.eq(at(r, "padding"), p),
                                                     h.eq(at(r, "alignment"), al)))
        return
    x, y = val(o, "x", "value"), val(o, "y", "value")
    w, v = val(r, "extent", "horizontal"), val(r, "extent", "vertical")
    h.prove("the right edge is at most 90%", Y.and_(at(w, "unit") is PC, x + at(w, "value") <= 90))
    h.prove("the bottom edge is at most 95%", Y.and_(at(v, "unit") is PC, y + at(v, "value") <= 95))
    if e is None:
        h.prove("a missing extent reaches exactly those edges",
                Y.and_(Y.num_eq(x + at(w, "value"), 90), Y.num_eq(y + at(v, "value"), 95)))
    else:
        ew, ev = val(e, "horizontal", "value"), val(e, "vertical", "value")
        h.prove("an extent that already fits is unchanged",
                Y.and_(Y.implies(x + ew <= 90, Y.num_eq(at(w, "value"), ew)), Y.implies(y + ev <= 95, Y.num_eq(at(v, "value"), ev))))
    h.prove("origin, padding and alignment are kept",
            Y.and_(h.eq(at(r, "origin"), o), h.eq(at(r, "padding"), p), h.eq(at(r, "alignment"), al)))


@contract("C13", "Layout.fit_to_screen", targets=[G + "Layout.fit_to_screen", G + "Point.add_stretch"], expects=FIT, timeout=200)
def _(h):
    l, o, e, p, al = fit_layout(h)
    fitted(h, l, o, e, p, al, h.meth(l, "fit_to_screen"))


@contract("C13", "Layout.fit_to_screen on absolute lengths", targets=[G + "Layout.fit_to_screen"],
          expects=["an absolute length is refused, never measured as a percentage"])
def _(h):
    bad = h.pick("unit", [u for u in UNITS if u is not PC])
    where = h.pick("where", ["origin", "extent"])
    k = h.pick("field", FIELDS[where])
    us = dict({f: PC for f in FIELDS[where]}, **{k: bad})
    o = comp(h, "origin", us if where == "origin" else PC)
    e = comp(h, "extent", us if where == "extent" else PC)
    l = layout(h, origin=o, extent=e)
    exc, r, _e = h.raises(lambda: h.meth(l, "fit_to_screen"))
    h.prove("an absolute length is refused, never measured as a percentage", exc is not None and issubclass(exc, ValueError))


@contract("C13", "BaseWriter._relativize_and_fit_to_screen",
          targets=["pycaption.base.BaseWriter._relativize_and_fit_to_screen", "pycaption.base.BaseWriter._relativize",
                   "pycaption.base.BaseWriter.__init__"],
          expects=FIT[:5] + ["no layout stays no layout", IS_PC, REFUSED, "off means untouched"], timeout=250)
def _(h):
    rel, fit = h.pick("relativize", [True, False]), h.pick("fit_to_screen", [True, False])
    w = h.int("width", 1) if h.pick("width?", [True, False]) else None
    hh = h.int("height", 1) if h.pick("height?", [True, False]) else None
    wr = h.call(BaseWriter, relativize=rel, video_width=w, video_height=hh, fit_to_screen=fit)
    case = h.pick("layout", ["none", "pixels", "percentages"])
    if case == "none":
        h.prove("no layout stays no layout", h.meth(wr, "_relativize_and_fit_to_screen", None) is None)
        return
    if case == "pixels":
        if fit and not rel:
            return                     # documented: fit_to_screen needs relative lengths
        o, e = comp(h, "origin", UnitEnum.PIXEL), comp(h, "extent", UnitEnum.PIXEL)
        l = layout(h, origin=o, extent=e)
        exc, r, _e = h.raises(lambda: h.meth(wr, "_relativize_and_fit_to_screen", l))
        if rel and (w is None or hh is None):
            h.prove(REFUSED, exc is RelativizationError)
        elif rel:
            h.prove(IS_PC, exc is None and all(val(r, k, f, "unit") is PC for k in ("origin", "extent") for f in FIELDS[k]))
            for f, d in (("x", w), ("y", hh)):
                h.prove(EXACT, same(h, UnitEnum.PIXEL, val(o, f, "value"), val(r, "origin", f, "value"), d, f == "x"))
            if not fit:
                for f, d in (("horizontal", w), ("vertical", hh)):
                    h.prove(EXACT, same(h, UnitEnum.PIXEL, val(e, f, "value"), val(r, "extent", f, "value"), d, f == "horizontal"))
        else:
            h.prove("off means untouched", Y.and_(exc is None, h.eq(r, l)))
        return
    l, o, e, p, al = fit_layout(h)
    r = h.meth(wr, "_relativize_and_fit_to_screen", l)
    if fit:
        fitted(h, l, o, e, p, al, r)
    else:
        h.prove("off means untouched", Y.and_(h.eq(r, l), h.eq(at(r, "alignment"), al)))


# ------------------------------------------------------------------ WebVTT never prints another unit

SETTINGS = L.rx(r"( align:[a-z]+)?( position:-?[0-9]+(\.[0-9]{1,2})?%)?( line:-?[0-9]+(\.[0-9]{1,2})?%)?( size:-?[0-9]+(\.[0-9]{1,2})?%)?")


@contract("C13", "WebVTTWriter._convert_positioning prints percentages only",
          targets=["pycaption.webvtt.WebVTTWriter._convert_positioning"],
          expects=["every length in the cue settings is a percentage", REFUSED,
                   "relativization off: an absolute layout gives no settings"], timeout=300)
def _(h):
    rel = h.pick("relativize", [True, False])
    fit = h.pick("fit_to_screen", [True, False])
    # exactness for every dimension is proved above; here only the unit that is printed matters
    w = 640 if h.pick("dimensions?", [True, False]) else None
    wr = h.call(WebVTTWriter, relativize=rel, video_width=w, video_height=360 if w is not None else None, fit_to_screen=fit)
    Printed(h)
    kind = h.pick("kind", list(FIELDS))
    u = h.pick("unit", UNITS)
    l = layout(h, **{kind: comp(h, kind, u)})
    exc, s, _e = h.raises(lambda: h.meth(wr, "_convert_positioning", l))
    if rel and w is None and u is not PC:
        h.prove(REFUSED, exc is RelativizationError)
    elif not rel and u is not PC:
        h.prove("relativization off: an absolute layout gives no settings", exc is None and h.eq(s, ""))
    else:
        h.prove("no error", exc is None)
        if exc is None:
            h.prove_in("every length in the cue settings is a percentage", s, SETTINGS)


# ------------------------------------------------------------------ every layout of a document goes through the functions above

for _c in (DFXPWriter, SAMIWriter):
    writers.register(contract, "C13", _c, [writers.FIT])
