"""C20 Format detection is total, consistent and recognises pycaption's own output."""
import pycaption
from pycaption import (DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader)
from pycaption.exceptions import CaptionReadNoCaptions

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

ORDER = [DFXPReader, MicroDVDReader, WebVTTReader, SAMIReader, SRTReader, SCCReader]


@contract("C20", "detect_format: first reader whose detect accepts", targets=["pycaption.detect_format"],
          expects=["first accepting reader in the documented order", "no reader accepts -> None"])
def _(h):
    ctx = h.ctx
    text = h.word("text", L.TOP - L.EPS)
    answers = {}

    def stub(r):
        def detect(it, self, content):
            it.ctx.decide("every detect is asked about the text itself", content is text, witness=repr(content), backend="structural")
            if r not in answers:
                answers[r] = h.bool("%s.detect" % r.__name__)
            return answers[r]
        return detect
    for r in ORDER:
        ctx.contracts["%s.%s.detect" % (r.__module__, r.__name__)] = stub(r)
    got = h.call(pycaption.detect_format, text)
    for r in ORDER:
        if r not in answers:
            answers[r] = h.bool("%s.detect" % r.__name__)
    if got is None:
        h.prove("no reader accepts -> None", Y.and_(*[Y.not_(answers[r]) for r in ORDER]))
        return
    ctx.decide("a documented reader class", got in ORDER, witness=repr(got), backend="structural")
    k = ORDER.index(got) if got in ORDER else 0
    h.prove("first accepting reader in the documented order", Y.and_(answers[got], *[Y.not_(answers[r]) for r in ORDER[:k]]))


@contract("C20", "detect_format: empty string", targets=["pycaption.detect_format"], expects=["the documented error"])
def _(h):
    cls, v, _ = h.raises(lambda: h.call(pycaption.detect_format, ""))
    h.prove("the documented error", cls is not None and issubclass(cls, CaptionReadNoCaptions))


for _r in ORDER:
    def _mk(r=_r):
        @contract("C20", "%s.detect is total" % r.__name__, targets=["%s.%s.detect" % (r.__module__, r.__name__)],
                  expects=["never raises"])
        def _(h):
            text = h.word("text", L.TOP - L.EPS)
            cls, v, e = h.raises(lambda: h.truth(h.meth(h.call(r), "detect", text)))
            h.prove("never raises", cls is None)
    _mk()


NL = L.TOP                                                     # anything
LINE = L.rep(frozenset(L.ANY) - L.LB, 0, None)

SHAPES = {                                                     # the shape of each writer's output -> its reader accepts it
    SRTReader: [L.rep(L.ASCII_DIGIT, 1, None), "\n", LINE, "-->", LINE, "\n", NL],
    WebVTTReader: ["WEBVTT\n", NL],
    SAMIReader: [NL, "<sami>", NL],
    DFXPReader: [NL, "</tt>", NL],
    SCCReader: ["Scenarist_SCC V1.0\n\n", NL],
    MicroDVDReader: ["{", L.rep(L.ASCII_DIGIT, 1, None), "}{", L.rep(L.ASCII_DIGIT, 1, None), "}", NL],
}
for _r, _s in SHAPES.items():
    def _mk2(r=_r, s=_s):
        @contract("C20", "%s.detect accepts its writer's shape" % r.__name__, targets=["%s.%s.detect" % (r.__module__, r.__name__)],
                  expects=["accepted"])
        def _(h):
            text = Y.rope(*[x if isinstance(x, str) else h.word("w%d" % k, x) for k, x in enumerate(s)])
            h.prove("accepted", h.iff(h.truth(h.meth(h.call(r), "detect", text)), True))
    _mk2()
