"""The recursive descent of the DFXP and SAMI readers over a parsed element (bs4's tree is the dependency's contract: an
element has a name, attributes and contents; a text node is a string).  One call is followed; the recursive calls it makes are
taken at their contract: they append the nodes of the child they are given.  So by induction over the element's height the nodes
of an element are those of its children, in document order, between one opening and one closing style node for a styled element."""
import z3
from bs4 import Tag
from bs4.element import Comment, NavigableString

from pycaption.base import CaptionNode
from pycaption.dfxp.base import DFXPReader
from pycaption.sami import SAMIReader

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.interp import FOLLOW
from pyvc.sym import Blob, PyList, Unsupported

from .lib import at, same_items, seq_of

ORDER = "the nodes of an element are those of its children, in document order, and nothing else"
TEXT = "a text node contributes exactly its text, a line break element one break"
SPAN = "a styled element opens one style span before its children and closes the same one after them"
LAYOUT = "text and breaks carry the layout of their own element"


class NodesOf:
    """stands for the nodes of one child element"""

    def __init__(self, child):
        self.child = child


class Children:
    """for child in contents: convert(child) -- nodes = nodes before ++ NodesOf(contents[:i])"""

    def __init__(self, reader, name):
        self.reader, self.name = reader, name

    def acc(self):
        s = seq_of(self.reader.attrs.get(self.name))
        if s is None:
            raise Unsupported("node list not found")
        return s

    def entry(self, it, fr):
        self.old = list(self.acc().items)

    def havoc(self, it, fr, i):
        b = self.loop_blob
        self.acc().items = self.old + [Blob("nodes of children[:i]", i, lambda j: None, tag="converted")]
        self.acc().items[-1].whole = b if (i is b.length) else None
        self.cur = list(self.acc().items)

    def step(self, it, fr, i):
        x, c = self.acc().items, self.loop_blob.get(i)
        ok = len(x) == len(self.cur) + 1 and same_items(x[:-1], self.cur) and isinstance(x[-1], NodesOf) and x[-1].child is c
        it.ctx.decide(ORDER, ok, witness=repr(x[len(self.cur):]), backend="loop rule")

    def frame(self, it, fr):
        return [self.acc(), (self.reader, self.name)]


def element(h, kind, length=None, **attrs):
    """an element of the parsed tree, with any number of children"""
    if not h.symbolic:
        kids = [h.obj(Tag, name="x", contents=[], attrs={}, layout_info=None) for _ in range(3)]
        return h.obj(Tag, name=kind, contents=kids, **attrs), kids
    n = h.ctx.fresh(z3.IntSort(), "children")
    h.ctx.assume(n >= 0)
    b = Blob("children", n, lambda i: h.obj(Tag, name="x", contents=PyList([]), attrs=Y.PyDict(), layout_info=None), tag="children")
    return h.obj(Tag, name=kind, contents=PyList([b]), **attrs), b


def whole_of(h, items, kids):
    """items are exactly the nodes of all the children"""
    if h.symbolic:
        return len(items) == 1 and isinstance(items[0], Blob) and getattr(items[0], "whole", None) is kids
    return [getattr(x, "child", None) for x in items] == kids


def descent(cls, meth, span_meth, out, style_meth, with_layout):
    q = "%s.%s." % (cls.__module__, cls.__name__)

    def run(h):
        r = h.call(cls)
        before = h.call(CaptionNode.create_text, "before")
        h.setattr(r, out, [before])
        top = []

        def recurse(*a):
            # a = ([it,] self, tag[, layout])
            a = a[1:] if h.symbolic else a
            if not top:
                top.append(a[1])
                return FOLLOW
            lst = at(a[0], out)
            (seq_of(lst).items if h.symbolic else lst).append(NodesOf(a[1]))
            given.append(a[2] if len(a) > 2 else None)
            return None
        given = []
        h.patch(q + meth, recurse)
        lay = h.obj(object)
        kind = h.pick("element", ["text", "empty text", "comment", "br", "p", "span"] +
                      (["i", "b", "u"] if cls is SAMIReader else []))
        style = {}
        if kind in ("text", "empty text", "comment"):
            w = "" if kind == "empty text" else h.word("text", L.TOP - L.EPS)
            h.patch("pycaption.utils.unwrap_source_lines" if h.symbolic else cls.__module__ + ".unwrap_source_lines", lambda *a: w)
            tag = h.obj(Comment if kind == "comment" else NavigableString, layout_info=lay, name=None) if h.symbolic \
                else (Comment if kind == "comment" else NavigableString)(w)
            if not h.symbolic:
                tag.layout_info = lay
            kids = None
        else:
            tag, kids = element(h, kind, attrs={} if not h.symbolic else Y.PyDict(), layout_info=lay)
        if kind == "span":
            style = h.pick("style", [{"italics": True}, {"bold": True, "color": "red"}, {"class": "a"}] + ([{}] if cls is SAMIReader else []))
            h.patch(q + style_meth, lambda *a: Y.PyDict([[k, v] for k, v in style.items()]) if h.symbolic else dict(style))
            if cls is SAMIReader:
                inner = h.obj(object)
                h.patch(q + "_build_layout", lambda *a, **k: inner)
        if h.symbolic and kids is not None:
            h.ctx.loops["children"] = Children(r, out)
        if with_layout:
            h.meth(r, meth, tag, lay)
        else:
            h.meth(r, meth, tag)
        lst = at(r, out)
        items = list(seq_of(lst).items) if h.symbolic else list(lst)
        h.prove("what was read before stays in front", bool(items) and items[0] is before)
        items = items[1:]
        if kind in ("text", "empty text", "comment", "br"):
            want = {"text": CaptionNode.TEXT, "br": CaptionNode.BREAK}.get(kind)
            if kind == "comment" and cls is SAMIReader:
                return                  # SAMIParser drops comments before the tree is built
            if want is None:
                h.prove(TEXT, not items)
                return
            h.prove(TEXT, len(items) == 1 and at(items[0], "type_") == want and (want != CaptionNode.TEXT or h.truth(h.eq(at(items[0], "content"), w))))
            h.prove(LAYOUT, len(items) == 1 and at(items[0], "layout_info") is lay)
            return
        styled = kind in ("i", "b", "u") or (kind == "span" and (style or cls is DFXPReader))
        if styled:
            ok = len(items) >= 2 and all(hasattr(x, "attrs" if h.symbolic else "type_") and at(x, "type_") == CaptionNode.STYLE
                                         for x in (items[0], items[-1]))
            ok = ok and at(items[0], "start") is True and at(items[-1], "start") is False
            h.prove(SPAN, ok and h.truth(h.eq(at(items[0], "content"), at(items[-1], "content"))))
            h.prove("the span carries the style of the element", ok and style_is(h, at(items[0], "content"), kind, style))
            items = items[1:-1]
        h.prove(ORDER, whole_of(h, items, kids))
        if with_layout and given:
            h.prove("children inherit the layout of the element", all(g is (inner if kind == "span" and style else lay) for g in given))
    return run


def style_is(h, content, kind, style):
    want = style or {{"i": "italics", "b": "bold", "u": "underline"}[kind]: True}
    got = {k: v for k, v in content.pairs} if h.symbolic else content
    return got == want
