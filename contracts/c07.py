"""C07 DFXP output is well-formed XML: the escaping functions that every hand-written piece of markup goes through."""
from pycaption.dfxp import base as B

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

from . import spec

D = "pycaption.dfxp.base."
ILLEGAL = L.A.where(lambda c: L._CHAR.match(c) is None)
LEGAL = L.star(L.ANY - ILLEGAL)
# character data: no markup, every & starts a reference, no ]]>
CHARDATA = L.star(L.ANY - ILLEGAL - L.A.chars("<&")).minimize()
REF = L.rx(r"&(amp|lt|gt|quot|apos|#9|#10|#13);")
TEXT = L.starof(L.rep(L.ANY - ILLEGAL - L.A.chars("<&"), 1, 1) | REF) - L.containing("]]>")
ATTR = L.starof(L.rep(L.ANY - ILLEGAL - L.A.chars("<&\"\t\n\r"), 1, 1) | REF)
PARSES = "the text is well-formed character data: no markup, every & starts a reference, only characters XML allows"
SAME = "a parser gets back exactly the text, without the characters XML does not allow"


@contract("C07", "escape_text", targets=[D + "escape_text", "xml.sax.saxutils.escape"], expects=[PARSES, SAME])
def _(h):
    w = h.word("text", L.TOP)
    r = h.call(B.escape_text, w)
    h.prove_in(PARSES, r, TEXT)
    h.prove_eq(SAME, h.call(spec.xml_decode, r), h.call(spec.legal, w))


@contract("C07", "DFXPWriter._encode", targets=[D + "DFXPWriter._encode"], expects=[PARSES, SAME])
def _(h):
    w = h.word("text", L.TOP)
    wr = h.obj(B.DFXPWriter, owner="input")
    r = h.meth(wr, "_encode", w)
    h.prove_in(PARSES, r, TEXT)
    h.prove_eq(SAME, h.call(spec.xml_decode, r), h.call(spec.legal, w))


QUOTED = "the value may stand between double quotes: no quote, <, bare & or raw white space control, only characters XML allows"


@contract("C07", "escape_attribute", targets=[D + "escape_attribute"],
          expects=[QUOTED, "a parser gets back exactly the value"])
def _(h):
    w = h.word("value", LEGAL)
    r = h.call(B.escape_attribute, w)
    h.prove_in(QUOTED, r, ATTR)
    h.prove_eq("a parser gets back exactly the value", h.call(spec.xml_decode, r), w)


@contract("C07", "escape_attribute on characters XML does not allow", targets=[D + "escape_attribute"], expects=[QUOTED])
def _(h):
    w = h.word("value", L.TOP)
    h.prove_in(QUOTED, h.call(B.escape_attribute, w), ATTR)
