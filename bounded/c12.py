"""C12: DFXP round trips keep the effective layout of every visible character; WebVTT cue settings against exact rational arithmetic."""
import re
from fractions import Fraction as F

from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, WebVTTReader, WebVTTWriter
from pycaption.geometry import Alignment, HorizontalAlignmentEnum as H, Layout, Padding, Point, Size, Stretch, UnitEnum, VerticalAlignmentEnum as V
from oracles import parsers

HS = [None, H.LEFT, H.CENTER, H.RIGHT, H.START, H.END]
VS = [None, V.TOP, V.CENTER, V.BOTTOM]


def num(rng, lo, hi):
    k = rng.random()
    if k < .5:
        return rng.randint(lo, hi)
    if k < .6:
        return lo
    return round(lo + rng.random() * (hi - lo), 2) if k < .9 else float(rng.randint(lo, hi))


def sz(rng, lo, hi):
    return Size(num(rng, lo, hi), UnitEnum.PERCENT)


def rlayout(rng, full=False):
    """percentage layout; with full, it has an origin and an extent that fit into the safe area"""
    o = Point(sz(rng, 0 if not full else 10, 50), sz(rng, 0 if not full else 5, 50)) if full or rng.random() < .7 else None
    e = Stretch(sz(rng, 20, 40), sz(rng, 10, 44)) if full or rng.random() < .7 else None
    p = Padding(sz(rng, 0, 9), sz(rng, 0, 9), sz(rng, 0, 9), sz(rng, 0, 9)) if rng.random() < .5 else None
    a = None
    if rng.random() < .7:
        a = Alignment(rng.choice(HS), rng.choice(VS))
        if a.horizontal is None and a.vertical is None:
            a = None
    if not (o or e or p or a):
        return rlayout(rng, full)
    return Layout(o, e, p, a)


def key(l):
    """Geometric components, absent alignment parts replaced by the DFXP defaults; exact values."""
    if l is None:
        return (None, None, None, H.START, V.BOTTOM)
    f = lambda s: round(F(str(round(float(s.value), 2))), 2) if s.unit == UnitEnum.PERCENT else (s.value, s.unit)
    o = l.origin and (f(l.origin.x), f(l.origin.y))
    e = l.extent and (f(l.extent.horizontal), f(l.extent.vertical))
    p = l.padding and tuple(f(getattr(l.padding, k)) for k in ("before", "after", "start", "end"))
    a = l.alignment
    return (o, e, p, (a.horizontal if a and a.horizontal else H.START), (a.vertical if a and a.vertical else V.BOTTOM))


def chars(cs, lang):
    """[(caption start, visible char, effective layout)]"""
    out = []
    base = cs.get_layout_info(lang) or None
    for c in cs.get_captions(lang):
        span = None
        for n in c.nodes:
            if n.type_ == CaptionNode.STYLE:
                span = n.layout_info if n.start else None
            elif n.type_ == CaptionNode.TEXT:
                eff = n.layout_info or span or c.layout_info or base
                out += [(c.start, ch, key(eff)) for ch in n.content if not ch.isspace()]
    return out


def build(rng, mk, langs=("en",), styles=True):
    T, S, B = CaptionNode.create_text, CaptionNode.create_style, CaptionNode.create_break
    caps = {}
    pool = [mk(rng) for _ in range(3)]
    some = lambda p: rng.choice(pool) if rng.random() < p else None
    for lang in langs:
        cs = []
        for k in range(rng.randint(1, 4)):
            nodes = []
            for j in range(rng.randint(1, 4)):
                if j:
                    nodes += [B(layout_info=some(.2))] * (rng.random() < .6)
                lay = some(.4)
                text = rng.choice(["one", "two words", "drei <b>", "vier & fünf", "6"])
                if styles and rng.random() < .4:
                    st = rng.choice([{"italics": True}, {"italics": True, "color": "red"}, {"bold": True}, {}])
                    nodes.append(S(True, st, lay))
                    nodes.append(T(text, lay if rng.random() < .7 else None))       # without its own: the style node's
                    if rng.random() < .3:
                        nodes.append(T("more", lay if rng.random() < .4 else some(1)))
                    nodes.append(S(False, st, lay))
                else:
                    nodes.append(T(text, lay))
            cs.append(Caption(k * 2000000, k * 2000000 + 1500000, nodes, style={}, layout_info=some(.6)))
        caps[lang] = CaptionList(cs, layout_info=some(.4))
    return CaptionSet(caps, styles={})


def describe(cs):
    return {lang: {"layout": repr(cs.get_layout_info(lang)), "captions": [[repr(c.layout_info), [(n.type_, n.content, n.start, repr(n.layout_info)) for n in c.nodes]]
            for c in cs.get_captions(lang)]} for lang in cs.get_languages()}


def roundtrip(r):
    r.rules.append("caption sets with percentage layouts (every subset of origin/extent/padding/alignment, all 6x4 alignments, zero values) at language, caption, style-node and "
                   "text-node level -> DFXP -> DFXPReader: effective layout of every visible character; twice")
    rng = r.rng("rt")
    for _ in r.loop("roundtrip", r.count(1000, 30000)):
        fit = rng.random() < .4
        mk = (lambda g: rlayout(g, True)) if fit else rlayout
        cs = build(rng, mk, langs=rng.choice([("en",), ("en", "fr")]))
        d = describe(cs)
        d["fit_to_screen"] = fit
        r.case("roundtrip", d)
        try:
            out = DFXPWriter(fit_to_screen=fit, write_inline_positioning=rng.random() < .2).write(cs)
            back = DFXPReader().read(out)
            for lang in cs.get_languages():
                a, b = chars(cs, lang), chars(back, lang)
                if a != b:
                    bad = next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
                    r.fail("roundtrip:layout", "effective layout changed: %r" % (bad,), d)
            again = DFXPReader().read(DFXPWriter(fit_to_screen=fit).write(back))
            for lang in cs.get_languages():
                if chars(again, lang) != chars(back, lang):
                    r.fail("roundtrip:second", "the second round trip changes a layout", d)
                if a != b and len(r.violations) and "out" not in r.violations[-1]["data"]:
                    r.violations[-1]["data"]["out"] = out
        except Exception as e:
            r.fail("roundtrip:raise", "%s: %s" % (type(e).__name__, e), d)


ALIGN = {H.LEFT: "left", H.RIGHT: "right", H.START: "start", H.END: "end", None: "start"}


def settings(l):
    """expected settings of a layout: {name: text or Fraction}"""
    if l is None:
        return {}
    out = {}
    al = l.alignment.horizontal if l.alignment else None
    if al != H.CENTER:
        out["align"] = ALIGN[al]
    v = lambda s: F(str(s.value))
    p = l.padding
    if l.origin:
        out["position"] = v(l.origin.x) + (v(p.start) if p else 0)
        out["line"] = v(l.origin.y) + (v(p.before) if p else 0)
    if l.extent:
        out["size"] = v(l.extent.horizontal) - (v(p.start) + v(p.end) if p else 0)
    return out


def same(text, want):
    got = {}
    for part in text.split():
        k, _, v = part.partition(":")
        if k in got:
            return False
        got[k] = v
    if set(got) != set(want):
        return False
    for k, v in got.items():
        if isinstance(want[k], str):
            if v != want[k]:
                return False
        elif not re.fullmatch(r"\d+(\.\d{1,2})?%", v) or abs(F(v[:-1]) - want[k]) > F(1, 200) + F(1, 10 ** 9):
            return False
    return True


def vtt(r):
    r.rules.append("the same sets -> WebVTT: one cue per run of text nodes with the same effective layout, same times, settings equal to align/position/line/size computed exactly")
    rng = r.rng("vtt")
    for _ in r.loop("vtt", r.count(2500, 40000)):
        fit = rng.random() < .3
        mk = (lambda g: rlayout(g, True)) if fit else rlayout
        cs = build(rng, mk, styles=rng.random() < .5)
        d = describe(cs)
        d["fit_to_screen"] = fit
        r.case("vtt", d)
        try:
            out = WebVTTWriter(fit_to_screen=fit, relativize=rng.random() < .7).write(cs)
            cues = parsers.webvtt(out)
        except Exception as e:
            r.fail("vtt:raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        want = []
        base = cs.get_layout_info("en") or None
        for c in cs.get_captions("en"):
            runs = []
            for n in c.nodes:
                if n.type_ == CaptionNode.TEXT:
                    lay = n.layout_info or c.layout_info or base
                    if not runs or runs[-1][0] != lay:
                        runs.append([lay, ""])
                    runs[-1][1] += "".join(n.content.split())
            want += [(c.start, c.end, l, t) for l, t in runs]
        if len(cues) != len(want):
            r.fail("vtt:cues", "%d cues, expected %d" % (len(cues), len(want)), dict(d, out=out))
            continue
        for c, (s, e, l, t) in zip(cues, want):
            got = "".join("".join(x.split()) for x in parsers.text_of(c)).replace("\u00a0", "")
            if (c["start"], c["end"]) != (s, e) or got != t:
                r.fail("vtt:cue", "cue %r, expected %r" % ((c["start"], c["end"], got), (s, e, t)), dict(d, out=out))
            if not same(c["raw"], settings(l)):
                r.fail("vtt:settings", "settings %r for %r, expected %r" % (c["raw"], l, {k: str(v) for k, v in settings(l).items()}), d)


def verbatim(r):
    r.rules.append("cue settings of a WebVTT document are written back verbatim, also next to language-level layouts")
    rng = r.rng("verbatim")
    parts = ["align:left", "align:middle", "align:center", "position:10%", "position:10%,line-left", "line:-1", "line:50%", "size:35.5%", "region:fred", "vertical:rl", "line:0",
             "foo:bar", "position:33.3333%"]
    for _ in r.loop("verbatim", r.count(2000, 20000)):
        doc, want = "WEBVTT\n\n", []
        for k in range(rng.randint(1, 4)):
            s = rng.choice([" ", "  "]).join(rng.sample(parts, rng.randint(0, 4)))
            want.append(s)
            doc += "%02d:00.000 --> %02d:01.000%s\nline %d\n%s\n" % (k, k, (" " + s) if s else "", k, rng.choice(["", "second <i>line</i>\n"]))
        r.case("verbatim", doc)
        try:
            cs = WebVTTReader().read(doc)
            kw = {} if rng.random() < .5 else dict(relativize=rng.random() < .5, video_width=rng.choice([None, 640]), fit_to_screen=rng.random() < .5)
            out = WebVTTWriter(**kw).write(cs)
            got = [c["raw"] for c in parsers.webvtt(out, strict=False)]
        except Exception as e:
            r.fail("verbatim:raise", "%s: %s" % (type(e).__name__, e), {"doc": doc})
            continue
        if got != want:
            r.fail("verbatim", "settings %r written back as %r" % (want, got), {"doc": doc})


CASES = [roundtrip, vtt, verbatim]
