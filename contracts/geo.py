"""Symbolic geometry values shared by the geometry contracts."""
import re

from pyvc import lang as L
from pyvc import sym as Y

from pycaption.geometry import Layout, Padding, Point, Size, Stretch, UnitEnum

UNITS = list(UnitEnum)
PC = UnitEnum.PERCENT
FIELDS = {"origin": ("x", "y"), "extent": ("horizontal", "vertical"), "padding": ("before", "after", "start", "end")}
CLASSES = {"origin": Point, "extent": Stretch, "padding": Padding}
HORIZONTAL = {"x", "horizontal", "start", "end"}


def at(o, n):
    return o.attrs[n] if hasattr(o, "attrs") else getattr(o, n)


def size(h, n, unit=PC, lo=0, hi=None):
    return h.obj(Size, owner="input", value=h.real(n, lo, hi), unit=unit)


def comp(h, kind, unit=PC, n=None):
    """an origin / extent / padding with symbolic values of one unit (or a dict of units by field)"""
    f = FIELDS[kind]
    u = unit if isinstance(unit, dict) else {x: unit for x in f}
    return h.obj(CLASSES[kind], owner="input", **{x: size(h, "%s.%s" % (n or kind, x), u[x]) for x in f})


def layout(h, **parts):
    o = {"origin": None, "extent": None, "padding": None, "alignment": None, "webvtt_positioning": None}
    o.update(parts)
    return h.obj(Layout, owner="input", **o)


class Printed:
    """The contract of Size.__str__ (proved under C18): a decimal number with at most two decimals, then the unit,
    denoting the value rounded to two decimals. Remembers which value each printed text stands for."""

    def __init__(self, h):
        self.h, self.seen = h, []
        h.stub("pycaption.geometry.Size.__str__", self.contract)

    def contract(self, it, s):
        v, u = at(s, "value"), at(s, "unit")
        w = Y.Word("printed%d" % len(self.seen), L.cat(L.rx(r"-?[0-9]+(\.[0-9]{1,2})?"), L.literal(u.value)))
        self.seen.append((w, v, u))
        return Y.rope(w)

    def denotes(self, text, value, unit=PC):
        """text is the printed form of (value, unit)"""
        if isinstance(text, str):
            m = re.fullmatch(r"(-?[0-9]+(?:\.[0-9]{1,2})?)([a-z%]+)", text)
            if not m or m.group(2) != unit.value:
                return False
            if self.h.symbolic:
                raise Y.Unsupported("a literal length")
            return abs(float(m.group(1)) - value) <= 0.005 + 1e-9
        p = Y.parts_of(text)
        for w, v, u in self.seen:
            if len(p) == 1 and p[0] is w:
                return Y.and_(u is unit, Y.num_eq(v, value))
        return False


def val(o, *path):
    for p in path:
        o = at(o, p)
    return o
