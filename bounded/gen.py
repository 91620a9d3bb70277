"""Generators shared by the bounded stand-ins (inputs are built from the public API of pycaption)."""
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum)

EDGES = ["\u00b7", "...", "\u2026", "\u2014", "-", "\u200b", "\u266a", ".", "#", "*", "\u3002", "_", "\u2022", ";", ":", "!", "\u061f", "/"]
WORDS = ["hello", "world", "I", "a", "the", "quick", "brown", "fox", "it's", "50%", "naïve", "Ünïcode", "日本語", "x", "OK?", "no!",
         "--", "(laughs)", "«quoi»", "Добрый", "день", "e\u0301", "\U0001F600", "1", "2", "42"]
NASTY = ["&", "<", ">", "\"", "'", "-->", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&#60;", "&#x3C;", "<b>", "</b>",
         "<i>x</i>", "<br/>", "<p>", "</p>", "]]>", "<!--", "-->", "&lt;b&gt;", "&amp;lt;", "<c.red>", "<v Bob>", "{\\an8}", "{y:i}",
         "00:00:01.000 --> 00:00:02.000", "NOTE", "STYLE", "WEBVTT", "&", "a&b", "a<b", "a>b", "& ", "<3", "\\n", "\\", "%s", "{0}", "$1",
         "&amp", "&lt", "&#38;amp;", "&unknown;", "<unknown>", "</unknown>", "{1}{2}", "<SYNC Start=1>", "</tt>"]


def line(rng, nasty=0.0, maxw=5, words=WORDS):
    ws = [rng.choice(NASTY) if nasty and rng.random() < nasty else rng.choice(words) for _ in range(rng.randint(1, maxw))]
    if nasty is not None and rng.random() < .15:
        ws[0] = rng.choice(EDGES) + rng.choice(["", " "]) + ws[0]
    if nasty is not None and rng.random() < .15:
        ws[-1] += rng.choice(["", " "]) + rng.choice(EDGES)
    if nasty is not None and rng.random() < .06:
        return rng.choice(EDGES) * rng.randint(1, 3)
    return " ".join(ws)


def text_nodes(lines, breaks=1, layout=None):
    nodes = []
    for k, l in enumerate(lines):
        if k:
            nodes += [CaptionNode.create_break(layout_info=layout) for _ in range(breaks)]
        nodes.append(CaptionNode.create_text(l, layout_info=layout))
    return nodes


def make_set(cues, layout=None, styles=None):
    """cues: {lang: [(start, end, [lines])]}"""
    return CaptionSet({lang: CaptionList([Caption(s, e, text_nodes(ls), style={}) for s, e, ls in cs]) for lang, cs in cues.items()},
                      styles=styles if styles is not None else {}, layout_info=layout)


def times(rng, n, unit=1000, gap=(0, 3000), dur=(1, 5000), start=None, overlap=False):
    """n increasing (start, end) pairs in multiples of `unit` microseconds."""
    t = rng.randint(0, 3000) if start is None else start
    out = []
    for _ in range(n):
        d = rng.randint(*dur)
        out.append((t * unit, (t + d) * unit))
        t += d + rng.randint(*gap)
    return out


def pct(v):
    return Size(v, UnitEnum.PERCENT)


def layout(rng, full=False):
    o = Point(pct(rng.randint(10, 60)), pct(rng.randint(5, 70))) if full or rng.random() < .7 else None
    e = Stretch(pct(rng.randint(10, 30)), pct(rng.randint(5, 20))) if (full or rng.random() < .6) else None
    p = Padding(pct(rng.randint(0, 3)), pct(rng.randint(0, 3)), pct(rng.randint(0, 3)), pct(rng.randint(0, 3))) if rng.random() < .5 else None
    a = Alignment(rng.choice(list(HorizontalAlignmentEnum)), rng.choice(list(VerticalAlignmentEnum))) if rng.random() < .7 else None
    return Layout(origin=o, extent=e, padding=p, alignment=a)


def dump_layout(l):
    if l is None:
        return None
    return (repr(l.origin), repr(l.extent), repr(l.padding), repr(l.alignment), l.webvtt_positioning)


def dump(cs, ids=False):
    """Canonical, deep dump of everything observable in a caption set."""
    out = {"langs": cs.get_languages(), "styles": cs.get_styles(), "layout": dump_layout(cs.layout_info), "caps": {}}
    for lang in cs.get_languages():
        cl = cs.get_captions(lang)
        out["caps"][lang] = {"layout": dump_layout(getattr(cl, "layout_info", None)), "list": [
            (c.start, c.end, sorted((c.style or {}).items(), key=repr), dump_layout(c.layout_info),
             [(n.type_, n.content if not isinstance(n.content, dict) else sorted(n.content.items(), key=repr), n.start, dump_layout(n.layout_info), n.position)
              for n in c.nodes]) for c in cl]}
    return out
