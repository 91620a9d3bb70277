"""C02 Writing preserves every cue's start and end instant: the time-formatting functions of every writer."""
from pycaption.base import Caption, CaptionNode
from pycaption.microdvd import MicroDVDWriter
from pycaption.sami import SAMIWriter
from pycaption.srt import SRTWriter
from pycaption.webvtt import WebVTTWriter

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

from . import c14, c19, cues, docs, spec, writers          # c14: the paragraphs of a SAMI document

DAY = 24 * 3600 * 10 ** 6
LONG = 10 ** 15           # the WebVTT writer is right beyond a day too
D = L.rx
STAMP = "printed stamp has the shape h..h:mm:ss<sep>mmm"
DENOTES = "the printed stamp denotes the instant truncated to milliseconds"
FIELDS = "minutes and seconds are below 60 (carries), milliseconds are three digits"
EXP = [STAMP, DENOTES, FIELDS]


def micros(h, kind, top=DAY):
    """an instant below 24 hours: any whole number of microseconds, as int or as float"""
    if kind == "int":
        return h.int("t", 0, top)
    return h.real("t", 0, top - 1)


def stamp(h, s, sep, t, kind, hours):
    h.prove_in(STAMP, s, L.rx("(?:[0-9]{2,}:)%s[0-9]{2}:[0-9]{2}%s[0-9]{3}" % ("?" if hours else "", "\\" + sep)))
    c = h.call(spec.clock, s, sep)
    h.prove(FIELDS, h.truth(h.call(spec.clock_fields, c)))
    us = h.call(spec.clock_us, c)
    if kind == "int":
        h.prove(DENOTES, Y.and_(us <= t, t < us + 1000))
    else:
        # a float instant is taken to whole microseconds first (timedelta): half a microsecond of slack
        h.prove(DENOTES, Y.and_(us * 2 <= t * 2 + 1, t < us + 1000))


def caption(h, t):
    return h.obj(Caption, owner="input", start=t, end=t, nodes=None, style={}, layout_info=None)


for _kind in ("int", "float"):
    for _m, _w in (("format_start", "start"), ("format_end", "end")):
        def _mk(kind=_kind, m=_m, w=_w):
            @contract("C02", "Caption.%s (%s instants)" % (m, kind),
                      targets=["pycaption.base.Caption." + m, "pycaption.base.Caption._format_timestamp"], expects=EXP)
            def _(h):
                t = micros(h, kind)
                c = h.obj(Caption, owner="input", start=t if w == "start" else h.int("other", 0, DAY),
                          end=t if w == "end" else h.int("other", 0, DAY), nodes=None, style={}, layout_info=None)
                sep = h.pick("separator", [None, ".", ","])
                s = h.meth(c, m) if sep is None else h.meth(c, m, msec_separator=sep)
                stamp(h, s, sep or ".", t, kind, False)
        _mk()

    def _mk2(kind=_kind):
        @contract("C02", "WebVTTWriter._timestamp (%s instants)" % kind,
                  targets=["pycaption.webvtt.WebVTTWriter._timestamp"], expects=EXP)
        def _(h):
            t = micros(h, kind, LONG)
            w = h.call(WebVTTWriter)
            s = h.meth(w, "_timestamp", t)
            stamp(h, s, ".", t, kind, True)

        @contract("C02", "MicroDVDWriter._microtoframes (%s instants)" % kind,
                  targets=["pycaption.microdvd.MicroDVDWriter._microtoframes"],
                  expects=["the frame is the instant at 25 fps, truncated"])
        def _(h):
            t = micros(h, kind, LONG)
            w = h.call(MicroDVDWriter)
            n = h.meth(w, "_microtoframes", t)
            h.prove("the frame is the instant at 25 fps, truncated", Y.and_(n * 40000 <= t, t < (n + 1) * 40000))
    _mk2()

docs.register_writers(contract, "C02", [docs.ONE, docs.INSTANT])

# ------------------------------------------------------------------ the documents and paragraphs of the markup writers

for _c in writers.WRITERS:
    writers.register(contract, "C02", _c, [writers.ONE] + ([writers.START] if _c is SAMIWriter else []))
for _c in writers.WRITERS[:2]:
    for _k in ("int", "float"):
        writers.register_paragraph(contract, "C02", _c, [writers.STAMPS], _k, lambda h, s, t, k: stamp(h, s, ".", t, k, False), micros, EXP)
cues.register(contract, "C02", SRTWriter, [docs.ONE, docs.INSTANT], [cues.MERGED])
cues.register(contract, "C02", MicroDVDWriter, [docs.ONE, docs.INSTANT])
contract("C02", "merge_concurrent_captions", targets=["pycaption.base.merge_concurrent_captions"], expects=c19.RUNS)(c19.merge_concurrent)
