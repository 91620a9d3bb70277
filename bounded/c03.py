"""C03 bounded: every writer's output, parsed by the independent parsers, gives back exactly the lines of every caption."""
import unicodedata

from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPWriter, MicroDVDWriter, SAMIWriter, SRTWriter, WebVTTWriter)
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter

from oracles import parsers as P
from . import gen

WRITERS = {"SRT": SRTWriter, "WebVTT": WebVTTWriter, "DFXP": DFXPWriter, "DFXP-single": SinglePositioningDFXPWriter,
           "DFXP-legacy": LegacyDFXPWriter, "SAMI": SAMIWriter, "MicroDVD": MicroDVDWriter}


def visible(lines):
    return [t for t in ("".join(l).strip() for l in lines) if t]


def parse(fmt, doc):
    """-> list of cue line lists"""
    if fmt == "SRT":
        return [P.text_of(c) for c in P.srt(doc)]
    if fmt == "MicroDVD":
        return [P.text_of(c) for c in P.microdvd(doc)]
    if fmt == "WebVTT":
        cs = P.webvtt(doc)
        for c in cs:
            if c["bad"]:
                raise P.Malformed("cue text %r" % c["bad"])
        return [P.text_of(c) for c in cs]
    if fmt == "SAMI":
        s = P.sami(doc)
        if s["bad"]:
            raise P.Malformed("%r" % s["bad"])
        return [["".join(c for c, _ in l) for l in p["lines"]] for y in s["syncs"] for p in y["ps"] if not P.blank(p["lines"])]
    d = P.dfxp(doc)
    return [P.text_of(c) for _, cs in d["langs"] for c in cs]


def printable(rng):
    while True:
        r = rng.random()
        c = chr(rng.randrange(0x20, 0x7f) if r < .4 else rng.randrange(0xa1, 0x600) if r < .7 else rng.randrange(0x600, 0xd800) if r < .95
                else rng.randrange(0x1f000, 0x20000))
        if c.isprintable():
            return c


def gen_line(rng):
    k = rng.random()
    if k < .35:
        s = gen.line(rng, nasty=.5)
    elif k < .6:
        s = "".join(rng.choice(["&", "<", ">", "-", "-->", "&amp;", ";", "#", "x", "1", "a", " ", "/", "\"", "'", "b", "lt", "gt", "!", "]", "[", "{", "}", "="])
                    for _ in range(rng.randint(1, 9)))
    elif k < .8:
        s = "".join(printable(rng) for _ in range(rng.randint(1, 8)))
    else:
        s = "".join(rng.choice(gen.NASTY) + rng.choice(["", " ", "a", "&", "<"]) for _ in range(rng.randint(1, 3)))
    return s


def caption(rng, fmt, start, end, styled):
    lines = [gen_line(rng) for _ in range(rng.randint(1, 4))]
    if fmt == "MicroDVD":
        lines = [l.replace("|", "/") for l in lines]
    if not any(l.strip() for l in lines):
        lines[0] = "x"
    nodes = []
    for k, l in enumerate(lines):
        if k:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                nodes.append(CaptionNode.create_break())
        if l.strip() == "" and rng.random() < .5:
            continue
        if styled and rng.random() < .4:
            st = {rng.choice(["italics", "bold", "underline"]): True}
            nodes += [CaptionNode.create_style(True, st), CaptionNode.create_text(l), CaptionNode.create_style(False, st)]
        else:
            nodes.append(CaptionNode.create_text(l))
    if rng.random() < .1:
        nodes.insert(0, CaptionNode.create_break())
    if rng.random() < .1:
        nodes.append(CaptionNode.create_break())
    return Caption(start, end, nodes, style={}), visible(lines)


def check(r, fmt, cs, want, key, data):
    try:
        doc = WRITERS[fmt]().write(cs)
    except Exception as e:
        r.fail("write:%s:%s" % (fmt, type(e).__name__), "%s writer raised %r" % (fmt, e), data)
        return
    try:
        got = [visible(c) for c in parse(fmt, doc)]
    except P.Malformed as e:
        r.fail("%s:%s:malformed" % (key, fmt), "%s output does not follow the grammar: %s" % (fmt, e), dict(data, output=doc))
        return
    if got != want:
        r.fail("%s:%s" % (key, fmt), "%s output denotes %r, expected %r" % (fmt, got[:4], want[:4]), dict(data, output=doc))


def pairs(r):
    r.rules.append("caption sets of 1-3 cues, 1-4 lines over printable Unicode weighted to metacharacters, empty lines and optional flat style spans, "
                   "times the 7 text writers; judged by independent parsers; distinct by (writer, lines)")
    # single lines: every pair of metacharacter tokens
    toks = ["&", "<", ">", "\"", "'", "-->", "--", "&lt;", "&amp;", "&#60;", "<b>", "</span>", "<br/>", "]]>", "a", " "]
    for fmt in WRITERS:
        for a in toks:
            for b in toks:
                t = "x" + a + b + "y"
                r.case("pairs", (fmt, t))
                cs = CaptionSet({"en": CaptionList([Caption(0, 10 ** 6, [CaptionNode.create_text(t)], style={}),
                                                    Caption(2 * 10 ** 6, 3 * 10 ** 6, [CaptionNode.create_text("z")], style={})])}, styles={})
                check(r, fmt, cs, [[t], ["z"]], "pair", {"writer": fmt, "text": t})
                t = a + b
                if t.strip():
                    r.case("pairs", (fmt, t))
                    cs = CaptionSet({"en": CaptionList([Caption(0, 10 ** 6, [CaptionNode.create_text(t)], style={})])}, styles={})
                    check(r, fmt, cs, [[t.strip()]], "pair", {"writer": fmt, "text": t})


def sets(r):
    rng = r.rng("sets")
    for fmt in WRITERS:
        for styled in (False, True):
            for _ in r.loop("sets", r.count(250, 6000)):
                ts = gen.times(rng, rng.randint(1, 3), unit=40000, gap=(1, 50), dur=(1, 50))
                caps, want = [], []
                for s, e in ts:
                    c, w = caption(rng, fmt, s, e, styled)
                    caps.append(c)
                    want.append(w)
                r.case("styled" if styled else "plain", (fmt, [[(n.type_, n.content, n.start) for n in c.nodes] for c in caps]))
                check(r, fmt, CaptionSet({"en": CaptionList(caps)}, styles={}), want, "styled" if styled else "lines",
                      {"writer": fmt, "nodes": [repr(c.nodes) for c in caps]})


CASES = [pairs, sets]
