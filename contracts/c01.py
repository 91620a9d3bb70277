"""C01 Reading preserves every cue's start and end instant: every stamp parser, for every lexical form of its format."""
import itertools
from fractions import Fraction

from bs4 import BeautifulSoup

from pycaption.base import Caption, CaptionNode
from pycaption.dfxp.base import DFXPReader
from pycaption.exceptions import CaptionReadError, CaptionReadSyntaxError, CaptionReadTimingError
from pycaption.microdvd import MicroDVDReader
from pycaption.sami import SAMIReader
from pycaption.srt import SRTReader
from pycaption.webvtt import WebVTTReader

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract
from pyvc.sym import PyDict, PyList

D = L.ASCII_DIGIT
from . import divs, syncs, docs, langs, reads

VALUE = "the value is the instant the stamp denotes, in integer microseconds"
WHOLE = "the value is a whole number of microseconds"


def digits(h, name, lo, hi=-1):
    """a string of lo..hi ASCII digits (hi=None: no upper bound) and its numeric value"""
    w = h.word(name, L.rep(D, lo, lo if hi == -1 else hi))
    return w, number(h, w)


def number(h, w):
    return h.call(int, w)


def hms(h, hours, minutes, seconds):
    return ((hours * 60 + minutes) * 60 + seconds) * 1000000


def at(o, n):
    return o.attrs[n] if hasattr(o, "attrs") else getattr(o, n)


# ------------------------------------------------------------------ SRT

@contract("C01", "SRTReader._srttomicro", targets=["pycaption.srt.SRTReader._srttomicro"], expects=[VALUE])
def _(h):
    r = h.call(SRTReader)
    (hh, H), (mm, M), (ss, S) = digits(h, "hours", 1, None), digits(h, "minutes", 2), digits(h, "seconds", 2)
    if h.pick("fraction", [True, False]):
        ff, F = digits(h, "milliseconds", 3)
        s = h.text(hh, ":", mm, ":", ss, ",", ff)
    else:
        F, s = 0, h.text(hh, ":", mm, ":", ss)
    h.prove(VALUE, h.eq(h.meth(r, "_srttomicro", s), hms(h, H, M, S) + F * 1000))


# ------------------------------------------------------------------ WebVTT

def vtt_stamp(h, n):
    """a WebVTT timestamp (hours optional, any hour count) and the instant it denotes"""
    (mm, M), (ss, S), (ff, F) = digits(h, n + ".minutes", 2), digits(h, n + ".seconds", 2), digits(h, n + ".ms", 3)
    if h.pick(n + ".hours?", [True, False]):
        hh, H = digits(h, n + ".hours", 2, None)
        s = h.text(hh, ":", mm, ":", ss, ".", ff)
    else:
        H, s = 0, h.text(mm, ":", ss, ".", ff)
    return s, hms(h, H, M, S) + F * 1000


@contract("C01", "WebVTTReader._parse_timestamp",
          targets=["pycaption.webvtt.WebVTTReader._parse_timestamp", "pycaption.webvtt.microseconds"], expects=[VALUE])
def _(h):
    r = h.call(WebVTTReader)
    s, us = vtt_stamp(h, "stamp")
    h.prove(VALUE, h.eq(h.meth(r, "_parse_timestamp", s), us))


@contract("C01", "WebVTTReader._parse_timing_line",
          targets=["pycaption.webvtt.WebVTTReader._parse_timing_line", "pycaption.webvtt.WebVTTReader.__init__",
                   "pycaption.webvtt.WebVTTReader._validate_timings"],
          expects=["start is the denoted instant plus the time shift", "end is the denoted instant plus the time shift",
                   "a line is refused only for its order, and only when timing errors are not ignored"], timeout=200)
def _(h):
    ms = h.int("time_shift_milliseconds")
    ignore = h.pick("ignore_timing_errors", [True, False])
    r = h.call(WebVTTReader, ignore_timing_errors=ignore, time_shift_milliseconds=ms)
    a, A = vtt_stamp(h, "start")
    b, B = vtt_stamp(h, "end")
    gap = h.word("gap1", L.plus(L.A.chars(" \t")))
    gap2 = h.word("gap2", L.plus(L.A.chars(" \t")))
    tail = h.pick("tail", ["", " line:10%,start align:left "])
    last = h.int("last_start_time")
    line = h.text(a, gap, "-->", gap2, b, tail)
    exc, v, _e = h.raises(lambda: h.meth(r, "_parse_timing_line", line, last))
    shift = ms * 1000
    if exc is None:
        h.prove("start is the denoted instant plus the time shift", h.eq(v[0], A + shift))
        h.prove("end is the denoted instant plus the time shift", h.eq(v[1], B + shift))
    else:
        h.prove("a line is refused only for its order, and only when timing errors are not ignored",
                Y.and_(not ignore, issubclass(exc, CaptionReadError), Y.or_(A > B, A + shift < last)))


# ------------------------------------------------------------------ DFXP

def dfxp_stamp(h, n):
    """(stamp, exact instant as a rational number of microseconds)"""
    form = h.pick(n + ".form", ["clock", "frames", "fraction", "h", "m", "s", "ms", "f"])
    if form in ("clock", "frames", "fraction"):
        (hh, H), (mm, M), (ss, S) = digits(h, n + ".hh", 1, None), digits(h, n + ".mm", 2), digits(h, n + ".ss", 2)
        us = hms(h, H, M, S)
        if form == "clock":
            return h.text(hh, ":", mm, ":", ss), us
        if form == "frames":
            ff, F = digits(h, n + ".ff", 2)
            return h.text(hh, ":", mm, ":", ss, ":", ff), us + h.call(Fraction, F) * 1000000 / 30
        fr = h.word(n + ".fraction", L.rep(D, 1, None))
        return h.text(hh, ":", mm, ":", ss, ".", fr), us + h.call(Fraction, h.text("0.", fr)) * 1000000
    per = {"h": 3600000000, "m": 60000000, "s": 1000000, "ms": 1000, "f": Fraction(1000000, 30)}[form]
    count = h.word(n + ".count", L.rep(D, 1, None))
    if h.pick(n + ".decimal", [False, True]):
        fr = h.word(n + ".fraction", L.rep(D, 1, None))
        num = h.text(count, ".", fr)
    else:
        num = h.text(count)
    return h.text(num, form), h.call(Fraction, num) * per


@contract("C01", "DFXPReader._convert_timestamp_to_microseconds",
          targets=["pycaption.dfxp.base.DFXPReader._convert_timestamp_to_microseconds",
                   "pycaption.dfxp.base.DFXPReader._convert_clock_time_to_microseconds",
                   "pycaption.dfxp.base.DFXPReader._convert_time_count_to_microseconds"],
          expects=["the value is the denoted instant without its sub-microsecond remainder"], timeout=300)
def _(h):
    r = h.call(DFXPReader)
    s, us = dfxp_stamp(h, "stamp")
    v = h.meth(r, "_convert_timestamp_to_microseconds", s)
    h.prove("the value is the denoted instant without its sub-microsecond remainder", Y.and_(v <= us, us < v + 1, h.whole(v)))


# ------------------------------------------------------------------ MicroDVD

@contract("C01", "MicroDVDReader._framestomicro", targets=["pycaption.microdvd.MicroDVDReader._framestomicro"],
          expects=["the value is frames / rate, without the sub-microsecond remainder"])
def _(h):
    r = h.call(MicroDVDReader)
    n = h.int("frames", 0)
    if h.pick("declared", [False, True]):
        fps = h.real("fps", 0)
        h.assume(fps > 0)
        v = h.meth(r, "_framestomicro", n, fps)
    else:
        fps = 25
        v = h.meth(r, "_framestomicro", n)
    h.prove("the value is frames / rate, without the sub-microsecond remainder",
            Y.and_(v * fps <= n * 1000000, n * 1000000 < (v + 1) * fps, h.whole(v)))


# ------------------------------------------------------------------ Caption

@contract("C01", "Caption.__init__", targets=["pycaption.base.Caption.__init__"],
          expects=["the caption carries the times, nodes and style it was given",
                   "a caption without nodes is refused", "a time that is not a number is refused"])
def _(h):
    s, e = h.int("start"), h.int("end")
    nodes = [h.call(CaptionNode.create_text, "x")] if h.pick("nodes", [True, False]) else []
    if h.pick("start given", [True, False]) is False:
        exc, _v, _e = h.raises(lambda: h.call(Caption, h.pick("bad", [None, "1", ""]), e, nodes))
        h.prove("a time that is not a number is refused", exc is not None and issubclass(exc, CaptionReadTimingError))
        return
    exc, c, _e = h.raises(lambda: h.call(Caption, s, e, nodes))
    if not nodes:
        h.prove("a caption without nodes is refused", exc is not None and issubclass(exc, CaptionReadError))
        return
    h.prove("the caption carries the times, nodes and style it was given",
            exc is None and Y.and_(h.eq(at(c, "start"), s), h.eq(at(c, "end"), e)))


# ------------------------------------------------------------------ SAMI

CUES = "every paragraph with text is one caption, in document order, and no other"
BEGIN = "a caption starts at its SYNC"
END = "a caption ends at the next SYNC of its language that has another start, the last ones four seconds after the last SYNC"
SHAPES = [s for n in (1, 2, 3, 4) for s in itertools.product((True, False), repeat=n) if n < 4 or s[0]]


@contract("C01", "SAMIReader._translate_lang", targets=["pycaption.sami.SAMIReader._translate_lang"], expects=[CUES, BEGIN, END], timeout=300,
          bound="up to four paragraphs of a language, with or without text, at any non-decreasing starts")
def _(h):
    shape = h.pick("paragraphs with text", SHAPES)
    starts, ps = [], []
    for k, text in enumerate(shape):
        w, n = digits(h, "start%d" % k, 1, None)
        if starts:
            h.assume(starts[-1] <= n)
        starts.append(n)
        ps.append((w, "hello" if text else " \u00a0\n"))
    r = h.call(SAMIReader)
    if h.symbolic:
        tags = [Y.Opaque("p", parent=Y.Opaque("sync", get=lambda it, me, name, w=w: w if name == "start" else None), attrs=PyDict([["lang", "en"]]),
                         get=lambda it, me, name, d=None: "en" if name == "lang" else d,
                         get_text=lambda it, me, t=t: t) for w, t in ps]
        soup = langs.paragraphs_soup(tags, ["en"] * len(tags))
        h.patch("pycaption.sami.SAMIReader._translate_tag",
                lambda it, me, p, layout=None: me.attrs["line"].items.append(h.call(CaptionNode.create_text, "hello")))
    else:
        soup = BeautifulSoup("<sami><body>%s</body></sami>" % "".join(
            '<sync start="%s"><p lang="en">%s</p></sync>' % x for x in ps), features="lxml")
    got = h.items(h.meth(r, "_translate_lang", "en", soup, None))
    want = [k for k, text in enumerate(shape) if text]
    h.prove(CUES, len(got) == len(want))
    for c, k in zip(got, want):
        h.prove(BEGIN, h.eq(h.attr(c, "start"), starts[k] * 1000))
        e = h.attr(c, "end")
        opts = []
        for j in range(k + 1, len(shape)):
            same = [starts[i] == starts[k] for i in range(k + 1, j)]
            opts.append(Y.and_(*same, starts[j] > starts[k], h.eq(e, starts[j] * 1000)))
        opts.append(Y.and_(*[starts[i] == starts[k] for i in range(k + 1, len(shape))], h.eq(e, (starts[-1] + 4000) * 1000)))
        h.prove(END, Y.or_(*opts))

docs.register_readers(contract, "C01", [docs.CUES, docs.TIMES])
reads.register(contract, "C01", [docs.CUES, docs.TIMES])
divs.register(contract)
syncs.register(contract, (CUES, BEGIN, END))
