"""C03 Written text survives a conformant parser: the escaping of every writer, for every string."""
from pycaption.base import CaptionNode
from pycaption.dfxp import base as B
from pycaption.microdvd import MicroDVDWriter
from pycaption.sami import SAMIWriter
from pycaption.srt import SRTWriter
from pycaption.webvtt import WebVTTWriter

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

from . import cues, docs, spans, spec, writers

PLAIN = L.star(L.ANY - L.A.chars("\n\r"))
XML = L.star(L.ANY - L.A.where(lambda c: L._CHAR.match(c) is None) - L.A.chars("\n\r"))
CUE = L.starof(L.rep(L.ANY - L.A.chars("<&"), 1, 1) | L.rx("&(amp|lt|gt|nbsp|lrm|rlm);")) - L.containing("-->")
BODY = L.starof(L.rep(L.ANY - L.A.chars("<&"), 1, 1) | L.rx("&(amp|lt|gt|quot);"))
BACK = "a conformant parser decodes exactly the text that was given"
SAFE = "nothing in the escaped text is markup, a bare & or a delimiter"


@contract("C03", "WebVTTWriter._encode_illegal_characters",
          targets=["pycaption.webvtt.WebVTTWriter._encode_illegal_characters"], expects=[SAFE, BACK])
def _(h):
    w = h.word("text", PLAIN)
    r = h.meth(h.call(WebVTTWriter), "_encode_illegal_characters", w)
    h.prove_in(SAFE, r, CUE)
    h.prove_eq(BACK, h.call(spec.xml_decode, r), w)


@contract("C03", "DFXPWriter._encode", targets=["pycaption.dfxp.base.DFXPWriter._encode", "pycaption.dfxp.base.escape_text"],
          expects=[SAFE, BACK])
def _(h):
    w = h.word("text", XML)
    r = h.meth(h.obj(B.DFXPWriter, owner="input"), "_encode", w)
    h.prove_in(SAFE, r, BODY)
    h.prove_eq(BACK, h.call(spec.xml_decode, r), w)


@contract("C03", "SAMIWriter._encode", targets=["pycaption.sami.SAMIWriter._encode"], expects=[SAFE, BACK])
def _(h):
    w = h.word("text", PLAIN)
    r = h.meth(h.obj(SAMIWriter, owner="input"), "_encode", w)
    h.prove_in(SAFE, r, BODY)
    h.prove_eq(BACK, h.call(spec.xml_decode, r), w)


def line_step(cls, sep):
    def run(h):
        old = h.word("written so far", L.TOP)
        text = h.word("text", PLAIN)
        kind = h.pick("node", ["text", "break", "style"])
        node = {"text": lambda: h.call(CaptionNode.create_text, text), "break": lambda: h.call(CaptionNode.create_break),
                "style": lambda: h.call(CaptionNode.create_style, True, {"italics": True})}[kind]()
        r = h.meth(h.obj(cls, owner="input"), "_recreate_line", old, node)
        if kind == "style":
            h.prove("a style node adds nothing", h.eq(r, old))
        elif kind == "break":
            h.prove("a break adds exactly one line separator", h.eq(r, h.text(old, sep)))
        else:
            h.prove("a text node adds its text, and at most blanks", h.starts_with(r, h.text(old, text), L.rx(" *")))
    return run


for _c, _n, _s in ((SRTWriter, "pycaption.srt.SRTWriter", "\n"), (MicroDVDWriter, "pycaption.microdvd.MicroDVDWriter", "|")):
    contract("C03", _c.__name__ + "._recreate_line", targets=[_n + "._recreate_line"],
             expects=["a style node adds nothing", "a break adds exactly one line separator",
                      "a text node adds its text, and at most blanks"])(line_step(_c, _s))

spans.register(contract, "C03", [spans.ADDED, spans.OTHERS, spans.CLOSED, spans.CUE])
docs.register_writers(contract, "C03", [docs.ONE, docs.SAID])
for _c in writers.WRITERS:
    writers.register(contract, "C03", _c, [writers.ONE])
for _c in writers.WRITERS[:2]:
    writers.register_paragraph(contract, "C03", _c, [writers.TEXT])
for _c in (SRTWriter, MicroDVDWriter):
    cues.register(contract, "C03", _c, [docs.ONE, docs.SAID])
