"""C13: written lengths against exact rational conversion; safe-area clamp; refusal without the needed dimension."""
import re
from fractions import Fraction as F

from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, DFXPWriter, SAMIWriter, WebVTTWriter
from pycaption.dfxp import SinglePositioningDFXPWriter
from pycaption.exceptions import RelativizationError
from pycaption.geometry import Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum, VerticalAlignmentEnum
import xml.etree.ElementTree as ET

TT, TTS = "{http://www.w3.org/ns/ttml}", "{http://www.w3.org/ns/ttml#styling}"
U = UnitEnum


def exact(size, dim, horizontal):
    """Percentage denoted by a size as a rational; None when a dimension is needed and missing."""
    v = F(size.value)
    if size.unit == U.PERCENT:
        return v
    if not dim:
        return None
    if size.unit == U.CELL:
        return v * 100 / (32 if horizontal else 15)
    if size.unit == U.EM:
        v = v * 16
    if size.unit == U.PT:
        v = v * F(4, 3)
    return v * 100 / dim


def close(text, want, tol=F(0)):
    """text is the percentage want rounded to two decimals (a tie may go either way; binary fractions may move a tie)."""
    m = re.fullmatch(r"(-?\d+(?:\.\d{1,2})?)%", text)
    return bool(m) and abs(F(m.group(1)) - want) <= F(1, 200) + F(1, 10 ** 9) + tol


def units(r):
    r.rules.append("every unit with values 0-2000 (integers, halves, thirds, random decimals) against widths and heights 1-4096, printed")
    rng = r.rng("units")
    for _ in r.loop("units", r.count(6000, 60000)):
        u = rng.choice(list(U))
        v = rng.choice([rng.randint(0, 2000), rng.randint(0, 64) / 2, rng.randint(0, 300) / 3, round(rng.random() * 500, 3), 0, 1])
        dim = rng.choice([1, 2, 3, 7, 240, 320, 360, 480, 640, 720, 1080, 1280, 1920, rng.randint(1, 4096)])
        hor = rng.random() < .5
        s = Size(v, u)
        r.case("units", [v, u.value, dim, hor])
        d = {"size": [v, u.value], "dimension": dim, "horizontal": hor}
        try:
            p = s.as_percentage_of(video_width=dim) if hor else s.as_percentage_of(video_height=dim)
        except Exception as e:
            r.fail("unit:raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        if p.unit != U.PERCENT or not close(str(p), exact(s, dim, hor)):
            r.fail("unit:%s" % u.value, "%s becomes %s, exactly %s" % (s, p, float(exact(s, dim, hor))), d)
        for f in (lambda: s.as_percentage_of(), lambda: s.as_percentage_of(video_width=None, video_height=None)):
            try:
                q = f()
                if u != U.PERCENT:
                    r.fail("unit:not refused", "%s relativized to %s without a dimension" % (s, q), d)
            except RelativizationError:
                if u == U.PERCENT:
                    r.fail("unit:percentage refused", "%s" % s, d)


def rsize(rng, absolute, lim=60):
    if rng.random() < absolute:
        u = rng.choice([U.PIXEL, U.EM, U.PT, U.CELL])
        hi = {U.PIXEL: 300, U.EM: 15, U.PT: 150, U.CELL: 9}[u]
        return Size(rng.choice([rng.randint(0, hi), round(rng.random() * hi, rng.randint(0, 3))]), u)
    return Size(rng.choice([rng.randint(0, lim), round(rng.random() * lim, 2), round(rng.random() * lim, 1)]), U.PERCENT)


def rlayout(rng, absolute):
    S = lambda lim=60: rsize(rng, absolute, lim)
    o = Point(S(), S()) if rng.random() < .75 else None
    e = Stretch(S(90), S(90)) if rng.random() < .6 else None
    p = Padding(S(5), S(5), S(5), S(5)) if rng.random() < .5 else None
    a = Alignment(rng.choice(list(HorizontalAlignmentEnum)), rng.choice(list(VerticalAlignmentEnum))) if rng.random() < .6 else None
    return Layout(o, e, p, a)


def parts(l):
    """(size, horizontal) of every length in a layout"""
    out = []
    if l is None:
        return out
    if l.origin:
        out += [(l.origin.x, True), (l.origin.y, False)]
    if l.extent:
        out += [(l.extent.horizontal, True), (l.extent.vertical, False)]
    if l.padding:
        out += [(l.padding.before, False), (l.padding.end, True), (l.padding.after, False), (l.padding.start, True)]
    return out


def wanted(l, w, h, fit):
    """{attribute: [exact percentages]} of the region that displays text with layout l"""
    out = {}
    if l is None:
        return out
    ex = lambda s, hor: exact(s, w if hor else h, hor)
    if l.origin:
        o = [ex(l.origin.x, True), ex(l.origin.y, False)]
        out["origin"] = o
    if l.extent:
        out["extent"] = [ex(l.extent.horizontal, True), ex(l.extent.vertical, False)]
    if fit and l.origin:
        lim = [90 - o[0], 95 - o[1]]
        out["extent"] = [min(a, b) for a, b in zip(out["extent"], lim)] if "extent" in out else lim
    if l.padding:
        out["padding"] = [ex(l.padding.before, False), ex(l.padding.end, True), ex(l.padding.after, False), ex(l.padding.start, True)]
    return out


def inside(l, w, h):
    if not (l and l.origin):
        return True
    x, y = exact(l.origin.x, w, True), exact(l.origin.y, h, False)
    return x is None or y is None or (0 <= x <= 90 and 0 <= y <= 95)


def build(rng, absolute, w, h):
    T, S, B = CaptionNode.create_text, CaptionNode.create_style, CaptionNode.create_break
    def lay():
        while True:
            l = rlayout(rng, absolute)
            if inside(l, w, h):
                return l
    caps = {}
    for lang in rng.sample(["en", "fr"], rng.choice([1, 1, 2])):
        cs = []
        for k in range(rng.randint(1, 3)):
            st = {"italics": True}
            nl = lay() if rng.random() < .3 else None
            cs.append(Caption(k * 1000000, k * 1000000 + 900000, [T("one"), B(), S(True, st, nl), T("two", nl), S(False, st, nl)], style={},
                              layout_info=lay() if rng.random() < .6 else None))
        caps[lang] = CaptionList(cs, layout_info=lay() if rng.random() < .4 else None)
    return CaptionSet(caps, styles={}, layout_info=lay() if rng.random() < .3 else None)


def layouts(cs, langs=None):
    out = [cs.layout_info]
    for lang in langs or cs.get_languages():
        out.append(cs.get_layout_info(lang))
        for c in cs.get_captions(lang):
            out.append(c.layout_info)
            out += [n.layout_info for n in c.nodes]
    return [l for l in out if l]


def desc(cs):
    return {lang: [repr(cs.get_layout_info(lang)), [[repr(c.layout_info), [repr(n.layout_info) for n in c.nodes if n.layout_info]] for c in cs.get_captions(lang)]]
            for lang in cs.get_languages()} | {"set": repr(cs.layout_info)}


LEN = re.compile(r"-?\d+(?:\.\d+)?(px|em|pt|c|%)")


def writers(r):
    r.rules.append("caption sets with layouts in every unit at set, language, caption and node level x DFXP, single-position DFXP, WebVTT and SAMI writers x both dimensions, one or "
                   "none x fit_to_screen x relativize")
    rng = r.rng("writers")
    for _ in r.loop("writers", r.count(2500, 25000)):
        w = rng.choice([None, 320, 640, 1280, 1920, 719, 7])
        h = rng.choice([None, 240, 360, 480, 1080, 577, 11])
        absolute = rng.choice([0, .1, .5, 1])
        fit, rel = rng.random() < .5, rng.random() < .85
        cs = build(rng, absolute, w, h)
        name = rng.choice(["dfxp", "dfxp", "dfxp inline", "single", "vtt", "sami"])
        single = None
        while name == "single":
            single = rlayout(rng, absolute)
            if inside(single, w, h):
                break
        kw = dict(relativize=rel, video_width=w, video_height=h, fit_to_screen=fit)
        force = rng.choice(cs.get_languages()) if rng.random() < .2 else ""
        d = {"writer": name, "options": kw, "layouts": desc(cs), "single": repr(single), "force": force}
        r.case(name, d)
        try:
            if name == "vtt":
                out = WebVTTWriter(**kw).write(cs)
            elif name == "sami":
                out = SAMIWriter(**kw).write(cs)
            elif name == "single":
                out = SinglePositioningDFXPWriter(single, **kw).write(cs, force)
            else:
                out = DFXPWriter(write_inline_positioning=name == "dfxp inline", **kw).write(cs, force)
        except RelativizationError:
            used = [single] if name == "single" else layouts(cs)
            if rel and all(exact(s, w if hor else h, hor) is not None for l in used if l for s, hor in parts(l)):
                r.fail(name + ":refused", "RelativizationError although every needed dimension was supplied", d)
            if not rel:
                r.fail(name + ":refused", "RelativizationError with relativize=False", d)
            continue
        except ValueError as e:
            # without relativization an absolute origin cannot be fitted
            if rel or not fit or all(s.unit == U.PERCENT for l in ([single] if name == "single" else layouts(cs)) if l for s, _ in parts(l)):
                r.fail(name + ":raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        except Exception as e:
            r.fail(name + ":raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        d["output"] = out
        if name == "vtt":
            vtt(r, cs, out, d, w, h, fit, rel)
        elif name == "sami":
            sami(r, cs, out, d, w, h, rel)
        else:
            dfxp(r, cs, out, d, w, h, fit, rel, name, single, force)


def vtt(r, cs, out, d, w, h, fit, rel):
    for l in out.split("\n"):
        if "-->" in l:
            for s in l.split("-->")[1].split()[1:]:
                k, v = s.split(":", 1)
                if k in ("position", "line", "size") and not re.fullmatch(r"-?\d+(\.\d{1,2})?%", v):
                    r.fail("vtt:length", "cue setting %r" % s, d)
                    return
            if fit:
                m = dict(s.split(":", 1) for s in l.split("-->")[1].split()[1:])
                if "position" in m and "size" in m and F(m["position"][:-1]) + F(m["size"][:-1]) > 90 + F(1, 50):
                    r.fail("vtt:right edge", l, d)
                    return


def sami(r, cs, out, d, w, h, rel):
    css = out[out.index("<style"):out.index("</style>")]
    blocks = dict(re.findall(r"(\S+) \{([^}]*)\}", css))
    if rel:
        for k, v in re.findall(r"(margin-[a-z]+): ([^;]*);", css):
            if not re.fullmatch(r"-?\d+(\.\d{1,2})?%", v):
                r.fail("sami:length", "%s: %s" % (k, v), d)
                return
    for lang in cs.get_languages():
        l = cs.get_layout_info(lang)
        b = dict(x.split(": ") for x in (y.strip() for y in blocks.get("." + lang, "").split(";")) if x)
        if rel and l and l.padding:
            want = wanted(l, w, h, False)["padding"]
            for (k, v) in zip(("margin-top", "margin-right", "margin-bottom", "margin-left"), want):
                if not close(b.get(k, ""), v):
                    r.fail("sami:margin", "%s of %s is %r, exactly %s" % (k, lang, b.get(k), float(v)), d)
                    return


def values(el):
    return {k: el.get(TTS + k).split(" ") for k in ("origin", "extent", "padding") if el.get(TTS + k) is not None}


def same(got, want):
    """printed attribute against exact values; a printed padding always has four values"""
    if set(got) != set(want):
        return "attributes %r, expected %r" % (sorted(got), sorted(want))
    for k in want:
        if len(got[k]) != len(want[k]):
            return "%s=%r" % (k, got[k])
        for a, b in zip(got[k], want[k]):
            if not close(a, b):
                return "%s=%r, exactly %r" % (k, got[k], [float(x) for x in want[k]])


def dfxp(r, cs, out, d, w, h, fit, rel, name, single, force):
    root = ET.fromstring(out.encode("utf-8"))
    regions = {x.get("{http://www.w3.org/XML/1998/namespace}id"): x for x in root.iter(TT + "region")}
    if rel:
        for el in root.iter():
            for k, v in el.attrib.items():
                if k.startswith(TTS) and k[len(TTS):] in ("origin", "extent", "padding"):
                    for x in v.split(" "):
                        if not re.fullmatch(r"-?\d+(\.\d{1,2})?%", x):
                            r.fail(name + ":absolute length", "%s=%r" % (k, v), d)
                            return
    if not rel and any(s.unit != U.PERCENT for l in ([single] if name == "single" else layouts(cs)) if l for s, _ in parts(l)):
        return                                  # written as they are
    langs = [force] if force else cs.get_languages()
    for lang, div in zip(langs, root.find(TT + "body").findall(TT + "div")):
        base = single if name == "single" else cs.get_layout_info(lang) or cs.layout_info
        for c, p in zip(cs.get_captions(lang), div.findall(TT + "p")):
            todo = [(p, base if name == "single" else c.layout_info or base)]
            nl = [n.layout_info for n in c.nodes if n.type_ == CaptionNode.STYLE and n.start][0]
            for sp in p.iter(TT + "span"):
                if sp.get("region"):
                    todo.append((sp, single if name == "single" else nl))
            if nl and name != "single" and len(todo) < 2:
                r.fail(name + ":span", "the layout of a span is lost", d)
                return
            for el, lay in todo:
                got = values(regions[el.get("region")])
                want = wanted(lay, w, h, fit)
                bad = same(got, want)
                if bad:
                    r.fail(name + ":region", bad, d)
                    return
                if name == "dfxp inline" and same(values(el), want):
                    r.fail(name + ":inline", same(values(el), want), d)
                    return
                if fit and "origin" in got and "extent" in got:
                    # values are printed with two decimals: at most one unit of the last place over
                    for k, lim in ((0, 90), (1, 95)):
                        edge = F(got["origin"][k][:-1]) + F(got["extent"][k][:-1])
                        if edge > lim + F(1, 100):
                            r.fail(name + ":safe area", "edge at %s%%" % float(edge), d)
                            return


def fit(r):
    r.rules.append("fit_to_screen on a grid of percentage origins and extents (quarters, two decimals and whole values), and on absolute units")
    rng = r.rng("fit")
    for _ in r.loop("fit", r.count(6000, 60000)):
        step = rng.choice([1, 4, 100])
        o = [F(rng.randint(0, 90 * step), step), F(rng.randint(0, 95 * step), step)]
        e = None if rng.random() < .2 else [F(rng.randint(0, 120 * step), step), F(rng.randint(0, 120 * step), step)]
        if e and rng.random() < .4:
            e = [90 - o[0] + F(rng.choice([-1, 0, 1]), step), 95 - o[1] + F(rng.choice([-1, 0, 1]), step)]
            e = [max(F(0), x) for x in e]
        P = lambda v: Size(float(v), U.PERCENT)
        pad, al = Padding(P(1), P(2), P(3), P(4)), Alignment(HorizontalAlignmentEnum.LEFT, VerticalAlignmentEnum.TOP)
        l = Layout(Point(P(o[0]), P(o[1])), Stretch(P(e[0]), P(e[1])) if e else None, pad, al)
        d = {"origin": [str(x) for x in o], "extent": [str(x) for x in e] if e else None}
        r.case("fit", d)
        g = l.fit_to_screen()
        if g.origin != l.origin or g.padding != pad or g.alignment != al:
            r.fail("fit:other parts", "origin, padding or alignment changed", d)
            continue
        lim = [90 - o[0], 95 - o[1]]
        for k, s in ((0, g.extent.horizontal), (1, g.extent.vertical)):
            want = lim[k] if e is None else min(e[k], lim[k])
            if s.unit != U.PERCENT or not close(str(s), want):
                r.fail("fit:extent", "extent[%d] is %s, exactly %s" % (k, s, float(want)), d)
                break
            if step <= 100 and F(str(s)[:-1]) + o[k] > (90, 95)[k]:
                r.fail("fit:edge", "edge %d at %s%%" % (k, float(F(str(s)[:-1]) + o[k])), d)
                break
    for u in (U.PIXEL, U.EM, U.PT, U.CELL):
        for which in range(4):
            sz = [Size(10, u if k == which else U.PERCENT) for k in range(4)]
            for ext in ((True, False) if which < 2 else (True,)):
                l = Layout(Point(sz[0], sz[1]), Stretch(sz[2], sz[3]) if ext else None)
                r.case("fit absolute", [u.value, which, ext])
                try:
                    g = l.fit_to_screen()
                    r.fail("fit:absolute", "%r fitted to %r" % (l, g), {"unit": u.value, "which": which, "extent": ext})
                except ValueError:
                    pass


CASES = [fit, units, writers]
