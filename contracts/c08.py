"""C08 Any chain of conversions preserves the cue timeline and text: one hop of each format, the reader's code executed on what
the writer's code returns, for every instant and every line of text.  A chain is a composition of hops; truncation to the
resolution of a format is idempotent, so the second run of a chain meets only instants and lines that stay as they are."""
from pycaption.base import Caption, CaptionNode
from pycaption.dfxp.base import DFXPReader, DFXPWriter
from pycaption.microdvd import MicroDVDReader, MicroDVDWriter
from pycaption.sami import SAMIWriter
from pycaption.srt import SRTReader, SRTWriter
from pycaption.webvtt import WebVTTReader, WebVTTWriter

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

from . import spans, spec

DAY = 24 * 3600 * 10 ** 6
LONG = 10 ** 15
HOP = "the reader gets back the instant, truncated to the resolution of the format"
STAY = "an instant of that resolution comes back unchanged"
TEXT = "the reader gets back exactly the line that was written, but for blanks at its edges"


def hop(h, t, back, unit):
    h.prove(HOP, Y.and_(back <= t, t < back + unit, h.whole(back)))


def settled(h, t, back):
    h.prove(STAY, h.eq(back, t))


def times(prop_name, targets, unit, top, go):
    def run(h):
        if h.pick("instant", ["any", "of the resolution"]) == "any":
            t = h.int("t", 0, top)
            hop(h, t, go(h, t), unit)
        else:
            n = h.int("n", 0, top // unit)
            settled(h, n * unit, go(h, n * unit))
    contract("C08", prop_name, targets=targets, expects=[HOP, STAY], timeout=200)(run)


def cap(h, t):
    return h.obj(Caption, owner="input", start=t, end=t, nodes=None, style={}, layout_info=None)


def stamp(h, t, sep, end):
    m = "format_end" if end else "format_start"
    return h.meth(cap(h, t), m) if sep is None else h.meth(cap(h, t), m, msec_separator=sep)


def srt(h, t):
    s = stamp(h, t, ",", h.pick("which", [False, True]))
    return h.meth(h.call(SRTReader), "_srttomicro", s)


def dfxp(h, t):
    s = stamp(h, t, None, h.pick("which", [False, True]))
    return h.meth(h.call(DFXPReader), "_convert_timestamp_to_microseconds", s)


def webvtt(h, t):
    s = h.meth(h.call(WebVTTWriter), "_timestamp", t)
    r = h.call(WebVTTReader)
    return h.meth(r, "_parse_timestamp", s)


def microdvd(h, t):
    n = h.meth(h.call(MicroDVDWriter), "_microtoframes", t)
    return h.meth(h.call(MicroDVDReader), "_framestomicro", n)


_F = ["pycaption.base.Caption.format_start", "pycaption.base.Caption.format_end", "pycaption.base.Caption._format_timestamp"]
times("SRT stamps, written and read", _F + ["pycaption.srt.SRTReader._srttomicro"], 1000, DAY - 1, srt)
times("DFXP stamps, written and read", _F + ["pycaption.dfxp.base.DFXPReader._convert_timestamp_to_microseconds"], 1000, DAY - 1, dfxp)
times("WebVTT stamps, written and read", ["pycaption.webvtt.WebVTTWriter._timestamp", "pycaption.webvtt.WebVTTReader._parse_timestamp"],
      1000, LONG, webvtt)
times("MicroDVD frames, written and read", ["pycaption.microdvd.MicroDVDWriter._microtoframes",
                                           "pycaption.microdvd.MicroDVDReader._framestomicro"], 40000, LONG, microdvd)

LINE = L.star(L.ANY - L.A.chars("\n\r"))


@contract("C08", "WebVTT text, written and read", timeout=300,
          targets=["pycaption.webvtt.WebVTTWriter._encode_illegal_characters", "pycaption.webvtt.WebVTTReader._decode"], expects=[TEXT])
def _(h):
    """html.unescape is taken at its contract on the references that the writer writes (only these are in its output: C03)"""
    w = h.word("line", LINE)
    s = h.meth(h.call(WebVTTWriter), "_encode_illegal_characters", w)
    h.patch("html.unescape" if h.symbolic else "pycaption.webvtt.unescape", lambda *a: h.call(spec.xml_decode, a[-1]))
    h.prove_eq(TEXT, h.meth(h.meth(h.call(WebVTTReader), "_decode", s), "strip"), h.meth(w, "strip"))

DOC = "the document read back has exactly those cues, in order, with the same lines"
SIZE = "documents of one or two cues of one or two lines; all instants and all lines"
SOLID = L.cat(L.star(L.ANY - L.LB), L.rep(L.ANY - L.STRIPWS - L.LB, 1, 1), L.star(L.ANY - L.LB))


def document(wr, rd, unit, line, top=DAY - 1, shapes=((1,), (2,), (1, 1), (2, 1)), **kw):
    """a document of one or two cues (one after the other) of one or two lines each, any instants and any lines"""
    def run(h):
        from pycaption.base import CaptionList, CaptionSet
        want, caps, last = [], [], 0
        for k, lines in enumerate(h.pick("lines of the cues", list(shapes))):
            a, b = h.int("start%d" % k, 0, top), h.int("end%d" % k, 0, top)
            h.assume(last <= a)
            h.assume(a + unit <= b)
            last = b
            ws, nodes = [], []
            for j in range(lines):
                if j:
                    nodes.append(h.call(CaptionNode.create_break))
                ws.append(h.word("line%d.%d" % (k, j), line))
                nodes.append(h.call(CaptionNode.create_text, ws[-1]))
            want.append((a, b, ws))
            caps.append(h.call(Caption, a, b, h.list(nodes)))
        cs = h.call(CaptionSet, h.dict([["en-US", h.call(CaptionList, h.list(caps))]]))
        doc = h.meth(h.call(wr), "write", cs)
        back = h.meth(h.call(rd), "read", doc, **kw)
        got = h.items(h.meth(back, "get_captions", "en-US"))
        h.prove(DOC, len(got) == len(want))
        for c, (a, b, ws) in zip(got, want):
            hop(h, a, h.attr(c, "start"), unit)
            hop(h, b, h.attr(c, "end"), unit)
            ns = h.items(h.attr(c, "nodes"))
            kinds = [h.attr(n, "type_") for n in ns]
            h.prove(DOC, kinds == ([CaptionNode.TEXT, CaptionNode.BREAK] * len(ws))[:-1])
            for n, w in zip(ns[::2], ws):
                h.prove_eq(DOC, h.meth(h.attr(n, "content"), "strip"), h.meth(w, "strip"))
    return run


contract("C08", "SRT documents, written and read", targets=["pycaption.srt.SRTWriter.write", "pycaption.srt.SRTReader.read"],
         expects=[DOC, HOP], timeout=300, bound=SIZE)(document(SRTWriter, SRTReader, 1000, SOLID, lang="en-US"))
contract("C08", "MicroDVD documents, written and read",
         targets=["pycaption.microdvd.MicroDVDWriter.write", "pycaption.microdvd.MicroDVDReader.read"],
         expects=[DOC, HOP], timeout=300, bound=SIZE)(document(MicroDVDWriter, MicroDVDReader, 40000, SOLID - L.containing("|"), lang="en-US"))


def webvtt_document(h):
    h.patch("html.unescape" if h.symbolic else "pycaption.webvtt.unescape", lambda *a: h.call(spec.xml_decode, a[-1]))
    document(WebVTTWriter, WebVTTReader, 1000, SOLID, shapes=((1,), (2,), (1, 1)), lang="en-US")(h)


contract("C08", "WebVTT documents, written and read", targets=["pycaption.webvtt.WebVTTWriter.write", "pycaption.webvtt.WebVTTReader.read"],
         expects=[DOC, HOP], timeout=300, bound=SIZE)(webvtt_document)

# the XML parser is taken at its contract (it decodes the references); what the reader makes of a text node is proved in C04
XCHAR = L.ANY - L.LB - L.A.where(lambda c: L._CHAR.match(c) is None)
XML_LINE = L.cat(L.star(XCHAR), L.rep(XCHAR - L.STRIPWS, 1, 1), L.star(XCHAR))


def tree_text(wr):
    def run(h):
        from pycaption.utils import unwrap_source_lines
        w = h.word("line", XML_LINE)
        s = h.call(spec.xml_decode, h.meth(h.obj(wr, owner="input"), "_encode", w))
        h.prove_eq(TEXT, h.meth(h.call(unwrap_source_lines, s), "strip"), h.meth(w, "strip"))
    return run


for _w, _q in ((DFXPWriter, "pycaption.dfxp.base.DFXPWriter"), (SAMIWriter, "pycaption.sami.SAMIWriter")):
    contract("C08", _w.__name__[:-6] + " text, written and read", targets=[_q + "._encode", "pycaption.utils.unwrap_source_lines"],
             expects=[TEXT])(tree_text(_w))

spans.register(contract, "C08", [spans.ADDED, spans.OTHERS, spans.CLOSED, spans.CUE])
