"""Whole documents of one or two cues: any stamps, any lines.  The number of cues and lines is bounded, nothing else is."""
from pycaption.base import Caption, CaptionNode
from pycaption.microdvd import MicroDVDReader, MicroDVDWriter
from pycaption.srt import SRTReader, SRTWriter
from pycaption.webvtt import WebVTTReader, WebVTTWriter

from pyvc import lang as L
from pyvc import sym as Y

from . import spec

SIZE = "documents of one or two cues of one or two lines; all stamps and all lines"
CUES = "the cues of the document, in order, and no others"
TIMES = "every cue keeps its start and its end"
LINES = "every cue keeps its lines, in order, and nothing else"
NOBREAK = L.ANY - L.LB
SOLID = L.cat(L.star(NOBREAK), L.rep(NOBREAK - L.STRIPWS, 1, 1), L.star(NOBREAK))
SHAPES = ((1,), (2,), (1, 1), (2, 1))
D = L.ASCII_DIGIT


def number(h, name, lo, hi=-1):
    w = h.word(name, L.rep(D, lo, lo if hi == -1 else hi))
    return w, h.call(int, w)


def clock(h, n, sep, hours, bare):
    """-> (stamp, microseconds)"""
    (mm, M), (ss, S) = number(h, n + ".minutes", 2), number(h, n + ".seconds", 2)
    H, parts = 0, [mm, ":", ss]
    if hours != "none":
        hh, H = number(h, n + ".hours", hours, None)
        parts = [hh, ":"] + parts
    F = 0
    if not bare:
        ff, F = number(h, n + ".ms", 3)
        parts += [sep, ff]
    return h.text(*parts), ((H * 60 + M) * 60 + S) * 1000000 + F * 1000


def check(h, back, want, strip):
    got = h.items(h.meth(back, "get_captions", "en-US"))
    h.prove(CUES, len(got) == len(want))
    for c, (a, b, ws) in zip(got, want):
        h.prove(TIMES, h.eq(h.attr(c, "start"), a))
        h.prove(TIMES, h.eq(h.attr(c, "end"), b))
        ns = h.items(h.attr(c, "nodes"))
        h.prove(LINES, [h.attr(n, "type_") for n in ns] == ([CaptionNode.TEXT, CaptionNode.BREAK] * len(ws))[:-1])
        for n, w in zip(ns[::2], ws):
            t = h.attr(n, "content")
            if strip:
                t, w = h.meth(t, "strip"), h.meth(w, "strip")
            h.prove_eq(LINES, t, w)


def lines(h, k, n, lang):
    return [h.word("line%d.%d" % (k, j), lang) for j in range(n)]


def srt(h):
    form = h.pick("stamps", ["with milliseconds", "without"])
    end = h.pick("line ends", ["\n", "\r\n"])
    gaps = h.pick("blank lines between cues", [1, 2])
    closed = h.pick("last line ended", [True, False])
    want, doc = [], []
    shape = h.pick("lines of the cues", list(SHAPES))
    for k, n in enumerate(shape):
        a, A = clock(h, "start%d" % k, ",", 1, form == "without")
        b, B = clock(h, "end%d" % k, ",", 1, form == "without")
        ws = lines(h, k, n, SOLID)
        want.append((A, B, ws))
        num = h.word("number%d" % k, L.rep(D, 1, None))
        doc += [num, end, a, " --> ", b, end]
        for j, w in enumerate(ws):
            last = k == len(shape) - 1 and j == len(ws) - 1
            doc += [w] + ([end] if closed or not last else [])
        if k < len(shape) - 1:
            doc += [end] * gaps
    check(h, h.meth(h.call(SRTReader), "read", h.text(*doc), lang="en-US"), want, False)


def microdvd(h):
    want, doc = [], []
    rate = h.pick("frame rate", [None, "25", "23.976", "30"])
    if rate:
        doc += ["{0}{0}", rate, "\n"]
    for k, n in enumerate(h.pick("lines of the cues", list(SHAPES))):
        fs = []
        for w in ("start", "end"):
            s = h.word("%s%d" % (w, k), L.cat(L.rx("[1-9]"), L.star(D)))
            fs.append((s, h.call(int, s)))
        ws = lines(h, k, n, SOLID - L.containing("|"))
        us = [(h.meth(h.call(MicroDVDReader), "_framestomicro", f) if rate is None else
               h.meth(h.call(MicroDVDReader), "_framestomicro", f, h.call(spec.fraction, rate))) for _, f in fs]
        want.append((us[0], us[1], ws))
        doc += ["{", fs[0][0], "}{", fs[1][0], "}"]
        for j, w in enumerate(ws):
            doc += (["|"] if j else []) + [w]
        doc += ["\n"]
    check(h, h.meth(h.call(MicroDVDReader), "read", h.text(*doc), lang="en-US"), want, False)


PLAIN = L.cat(L.star(NOBREAK - L.A.chars("<&")), L.rep(NOBREAK - L.STRIPWS - L.A.chars("<&"), 1, 1), L.star(NOBREAK - L.A.chars("<&"))) \
    - L.containing("-->")


def webvtt(h):
    title, note, ident, settings = h.pick("document", [("", "nothing", False, ""), (" - a title", "a comment", True, " align:left position:10%"),
                                                        ("", "a style block", True, ""), (" - a title", "nothing", False, " line:0")])
    want, doc = [], ["WEBVTT", title, "\n\n"]
    if note != "nothing":
        doc += [{"a comment": "NOTE ", "a style block": "STYLE\n"}[note], h.word("block", PLAIN), "\n\n"]
    hours = h.pick("hours", ["none", 2])
    for k, n in enumerate(h.pick("lines of the cues", [(1,), (2,), (1, 1)])):
        a, A = clock(h, "start%d" % k, ".", hours, False)
        b, B = clock(h, "end%d" % k, ".", hours, False)
        h.assume(A <= B)
        if want:
            h.assume(want[-1][0] <= A)
        ws = lines(h, k, n, PLAIN)
        want.append((A, B, ws))
        if ident:
            doc += [h.word("id%d" % k, PLAIN), "\n"]
        doc += [a, " --> ", b, settings if k == 0 else "", "\n"]
        for w in ws:
            doc += [w, "\n"]
        doc += ["\n"]
    h.patch("html.unescape" if h.symbolic else "pycaption.webvtt.unescape", lambda *x: h.call(spec.xml_decode, x[-1]))
    check(h, h.meth(h.call(WebVTTReader), "read", h.text(*doc), lang="en-US"), want, True)


READ = {"SRT": ("pycaption.srt.SRTReader.read", srt, ["pycaption.srt.SRTReader._find_text_line"]),
        "MicroDVD": ("pycaption.microdvd.MicroDVDReader.read", microdvd, []),
        "WebVTT": ("pycaption.webvtt.WebVTTReader.read", webvtt, ["pycaption.webvtt.WebVTTReader._parse"])}


def register_readers(contract, prop, names):
    for f, (q, fn, more) in READ.items():
        contract(prop, f + " documents, read", targets=[q] + more, expects=names, timeout=300, only=True, bound=SIZE)(fn)


# ------------------------------------------------------------------ writers

PATTERNS = {"T": ["T"], "TBT": ["T", "B", "T"], "TBBT": ["T", "B", "B", "T"], "BT": ["B", "T"], "TB": ["T", "B"], "TBEBT": ["T", "B", "E", "B", "T"],
            "sTs": ["s", "T", "e"], "EBT": ["E", "B", "T"], "TBsTe": ["T", "B", "s", "T", "e"], "TBZBT": ["T", "B", "Z", "B", "T"]}
ONE = "every cue is one cue of the document, in order, and there are no others"
SAID = "an independent parser finds exactly the lines of the cue that say something, in order"
INSTANT = "the stamps denote the instants, truncated to the resolution of the format"


def write(h, wr, line, patterns=PATTERNS, top=24 * 3600 * 10 ** 6 - 1, two=True):
    names = list(patterns)
    shape = h.pick("nodes of the cues", [(n,) for n in names] + ([("T", "TBT"), ("TBBT", "BT")] if two else []))
    caps, want, last = [], [], 0
    from pycaption.base import CaptionList, CaptionSet
    for k, n in enumerate(shape):
        a, b = h.int("start%d" % k, 0, top), h.int("end%d" % k, 0, top)
        h.assume(last < a)
        h.assume(a < b)
        last = b
        nodes, ws = [], []
        for j, x in enumerate(patterns[n]):
            if x == "B":
                nodes.append(h.call(CaptionNode.create_break))
            elif x in "se":
                nodes.append(h.call(CaptionNode.create_style, x == "s", h.dict([["italics", True]])))
            else:
                w = h.word("text%d.%d" % (k, j), line) if x == "T" else h.word("blank%d.%d" % (k, j), L.rx("[ \\t]*")) if x == "E" else ""
                nodes.append(h.call(CaptionNode.create_text, w))
                if x == "T":
                    ws.append(w)
        caps.append(h.call(Caption, a, b, h.list(nodes)))
        want.append((a, b, ws))
    cs = h.call(CaptionSet, h.dict([["en-US", h.call(CaptionList, h.list(caps))]]))
    return h.meth(h.call(wr), "write", cs), want


def spoken(h, ls, decode):
    """the lines that have something in them"""
    out = []
    for l in ls:
        l = h.meth(h.call(spec.xml_decode, h.meth(l, "replace", "&nbsp;", "\u00a0")) if decode else l, "strip")
        if h.decided(h.truth(h.eq(l, ""))) is not True:
            out.append(l)
    return out


def judge(h, cues, want):
    h.prove(ONE, len(cues) == len(want))
    for (a, b, ls), (x, y, ws) in zip(cues, want):
        for us, t, unit in ((a, x, 1000), (b, y, 1000)):
            if not isinstance(us, tuple):
                h.prove(INSTANT, Y.and_(us <= t, t < us + unit))
            else:
                h.prove(INSTANT, Y.and_(us[0] * 40000 <= t, t < (us[0] + 1) * 40000))
        h.prove(SAID, len(ls) == len(ws))
        for l, w in zip(ls, ws):
            h.prove_eq(SAID, l, h.meth(w, "strip"))


def stamps(h, line, sep):
    return [h.call(spec.clock_us, h.call(spec.clock, s, sep)) for s in h.items(h.call(spec.pair, line))]


def srt_written(h):
    doc, want = write(h, SRTWriter, SOLID)
    cues = []
    for b in h.items(h.call(spec.blocks, doc, True)):
        b = h.items(b)
        h.prove(ONE, len(b) >= 2)
        h.prove(ONE, h.eq(h.call(int, b[0]), len(cues) + 1))
        cues.append(stamps(h, b[1], ",") + [spoken(h, b[2:], False)])
    judge(h, cues, want)


def webvtt_written(h):
    doc, want = write(h, WebVTTWriter, SOLID)
    bs = [h.items(b) for b in h.items(h.call(spec.blocks, doc, False))]
    h.prove(ONE, len(bs) > 0)
    h.prove_in(ONE, bs[0][0], L.rx("WEBVTT([ \\t].*)?"))
    cues = []
    for b in bs[1:]:
        cues.append(stamps(h, b[0], ".") + [spoken(h, [untagged(h, l) for l in b[1:]], True)])
    judge(h, cues, want)


def untagged(h, l):
    return h.meth(h.meth(l, "replace", "<i>", ""), "replace", "</i>", "")


def microdvd_written(h):
    doc, want = write(h, MicroDVDWriter, SOLID - L.containing("|"))
    cues = []
    for n, line in enumerate(h.items(h.meth(doc, "split", "\n"))):
        if h.decided(h.truth(h.eq(line, ""))) is True:
            continue
        a, b, ls = h.items(h.call(spec.pipes, line))
        if n == 0 and h.decided(h.truth(h.eq(line, "{0}{0}25"))) is True:
            continue
        cues.append([(h.call(int, a),), (h.call(int, b),), spoken(h, h.items(ls), False)])
    judge(h, cues, want)


WRITE = {"SRT": ("pycaption.srt.SRTWriter.write", srt_written, ["pycaption.srt.SRTWriter._recreate_lang"]),
         "MicroDVD": ("pycaption.microdvd.MicroDVDWriter.write", microdvd_written, ["pycaption.microdvd.MicroDVDWriter._recreate_lang"]),
         "WebVTT": ("pycaption.webvtt.WebVTTWriter.write", webvtt_written,
                    ["pycaption.webvtt.WebVTTWriter." + n for n in ("_convert_caption", "_group_cues_by_layout")])}
NODES = "documents of one or two cues of %d shapes of nodes; all instants and all lines" % len(PATTERNS)


def register_writers(contract, prop, names):
    for f, (q, fn, more) in WRITE.items():
        contract(prop, f + " documents, written", targets=[q] + more, expects=names, timeout=400, only=True, bound=NODES)(fn)
