"""C11 Italic, bold and underline spans survive conversion and stay balanced."""
from pycaption.dfxp.base import DFXPReader
from pycaption.sami import SAMIReader

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract
from pyvc.sym import PyDict

from . import spans, tree

for _c, _q, _m, _s, _o, _st, _l in (
        (DFXPReader, "pycaption.dfxp.base.DFXPReader.", "_convert_tag_to_node", "_convert_span_to_nodes", "nodes", "_convert_style", False),
        (SAMIReader, "pycaption.sami.SAMIReader.", "_translate_tag", "_translate_span", "line", "_translate_attrs", True)):
    contract("C11", "%s.%s" % (_c.__name__, _m), targets=[_q + _m, _q + _s],
             expects=[tree.ORDER, tree.TEXT, tree.SPAN, "the span carries the style of the element"])(
        tree.descent(_c, _m, _s, _o, _st, _l))

spans.register(contract, "C11", [spans.KEEP, spans.ADDED, spans.OTHERS, spans.CLOSED, spans.CUE])

MARK = "exactly the declarations that say so mark characters italic, bold or underlined"
REST = "a declaration changes nothing else"


def pairs(h, d):
    return {k: v for k, v in d.pairs} if h.symbolic else dict(d)


SAMI_MARKS = (("italics", "font-style", "italic"), ("underline", "text-decoration", "underline"), ("bold", "font-weight", "bold"))


@contract("C11", "SAMIReader._translate_css_property", targets=["pycaption.sami.SAMIReader._translate_css_property"], expects=[MARK, REST])
def _(h):
    r = h.call(SAMIReader)
    other = {"color": "red", "class": "a"}
    d = PyDict([[k, v] for k, v in other.items()]) if h.symbolic else dict(other)
    p, v = h.word("property", L.TOP), h.word("value", L.TOP)
    h.meth(r, "_translate_css_property", d, p, v)
    got = pairs(h, d)
    val = h.meth(v, "strip")
    for name, css, want in SAMI_MARKS:
        on = Y.and_(h.eq(p, css), h.eq(val, want)) if h.symbolic else p == css and val == want
        h.prove(MARK, h.iff(on, name in got and got[name] is True))
        h.prove(MARK, name not in got or got[name] is True)
    h.prove(REST, set(got) <= {"color", "class", "italics", "underline", "bold", "font-family", "font-size", "lang"} and got["class"] == "a")


@contract("C11", "SAMIReader._translate_style", targets=["pycaption.sami.SAMIReader._translate_style"],
          expects=[MARK, "the first text-align is remembered", "a declaration without a value is left out"],
          bound="two declarations of a rule, any of the list, any blanks")
def _(h):
    """two declarations out of the list, with any values (the list's loop is followed)"""
    r = h.call(SAMIReader)
    css = []
    want = {}
    for n in ("first", "second"):
        k = h.pick(n, ["italics", "underline", "bold", "normal", "text-align", "colon", "empty", "blank"])
        for name, p, v in SAMI_MARKS:
            if name == k:
                a = h.word("blank before " + n, L.rx("[ \\t]*"))
                css.append(h.text(p + ":", a, v))
                want[name] = True
        if k == "normal":
            css.append("font-weight:normal")
        elif k == "text-align":
            css.append("text-align: left")
        elif k == "colon":
            css.append("font-style:italic:bold")
        elif k == "empty":
            css.append("")
        elif k == "blank":
            css.append(" ")
    d = h.meth(r, "_translate_style", PyDict() if h.symbolic else {}, Y.PyList(css) if h.symbolic else css)
    got = pairs(h, d)
    h.prove(MARK, got == want)
    h.prove("the first text-align is remembered", (h.attr(r, "first_alignment") is not None) == ("text-align: left" in css))
    h.prove("a declaration without a value is left out", set(got) <= set(want))


D_MARKS = (("italics", ("tts:fontStyle", "tts:fontstyle"), "italic"), ("bold", ("tts:fontWeight", "tts:fontweight"), "bold"))


@contract("C11", "DFXPReader._convert_style", targets=["pycaption.dfxp.base.DFXPReader._convert_style"],
          expects=[MARK, REST, "the classes of an element are the style attribute's, in order"])
def _(h):
    from bs4 import Tag
    r = h.call(DFXPReader)
    case = h.pick("attribute", ["marks", "underline", "style", "other"])
    attrs, want = [], {}
    if case == "marks":
        for name, keys, v in D_MARKS:
            k = h.pick(name, [None, *keys])
            if k:
                w = h.word(name + " value", L.TOP)
                attrs.append([k, w])
                want[name] = h.eq(w, v)
    elif case == "underline":
        u = h.pick("text decoration", ["underline", " underline overline ", "noUnderline", "overline underline", "none", "underlined"])
        attrs.append(["tts:textDecoration", u])
        want["underline"] = "underline" in u.split()
    elif case == "style":
        a, b = h.word("class", L.plus(L.ANY - L.A.where(str.isspace))), h.word("class 2", L.plus(L.ANY - L.A.where(str.isspace)))
        two = h.pick("two classes", [False, True])
        attrs.append(["style", h.text(a, " ", b) if two else a])
    else:
        for k in ("tts:color", "tts:fontFamily", "tts:fontSize", "tts:textAlign", "begin", "xml:id"):
            attrs.append([k, h.word(k, L.TOP)])
    tag = h.obj(Tag, name="span", attrs=PyDict(attrs) if h.symbolic else {k: v for k, v in attrs})
    got = pairs(h, h.meth(r, "_convert_style", tag))
    for name in ("italics", "bold", "underline"):
        h.prove(MARK, h.iff(want.get(name, False), name in got))
        h.prove(MARK, name not in got or got[name] is True)
    h.prove(REST, set(got) <= {"italics", "bold", "underline", "class", "classes", "text-align", "font-family", "font-size", "color"})
    if case == "style":
        c = got.get("classes")
        c = c.items if h.symbolic else c
        ref = [a, b] if two else [a]
        h.prove("the classes of an element are the style attribute's, in order",
                len(c) == len(ref) and all(h.truth(h.eq(x, y)) for x, y in zip(c, ref)))
    else:
        h.prove("the classes of an element are the style attribute's, in order", "classes" not in got and "class" not in got)
