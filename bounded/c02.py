"""C02 bounded: timestamps in every writer's output, read back by the independent parsers, denote the captions' instants."""
from fractions import Fraction

from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPWriter, MicroDVDWriter, SAMIWriter, SRTWriter, WebVTTWriter)
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.geometry import Layout, Point

from oracles import parsers as P
from . import gen

WRITERS = {"SRT": SRTWriter, "WebVTT": WebVTTWriter, "DFXP": DFXPWriter, "DFXP-single": SinglePositioningDFXPWriter,
           "DFXP-legacy": LegacyDFXPWriter, "SAMI": SAMIWriter, "MicroDVD": MicroDVDWriter}
DAY = 24 * 3600 * 10 ** 6


def ms(t):
    """admissible truncations to milliseconds: exact, or - for a float time within a microsecond of a boundary - either side"""
    f = Fraction(t)
    a = {int(f * 1000 / 10 ** 6)}
    if not isinstance(t, int):
        a |= {int((f + Fraction(1, 2)) / 1000)}               # the formatter's timedelta rounds to whole microseconds
    return {x * 1000 for x in a if x * 1000 < DAY} | set()


def frames(t):
    f = Fraction(t) * 25 / 10 ** 6
    a = {int(f)}
    if not isinstance(t, int):
        a.add(int(f + Fraction(1, 10 ** 6)))
    return a


def cap(s, e, text, layouts=None):
    if layouts:
        ns = []
        for k, l in enumerate(layouts):
            if k:
                ns.append(CaptionNode.create_break(layout_info=l))
            ns.append(CaptionNode.create_text("%s%d" % (text, k), layout_info=l))
        return Caption(s, e, ns, style={})
    return Caption(s, e, [CaptionNode.create_text(text)], style={})


def merged(spans):
    """runs of identical (start, end) become one"""
    out = []
    for s, e, t in spans:
        if out and out[-1][:2] == (s, e):
            out[-1] = (s, e, out[-1][2] + [t])
        else:
            out.append((s, e, [t]))
    return out


def check(r, fmt, spans, key, layouts=None):
    cs = CaptionSet({"en": CaptionList([cap(s, e, t, layouts) for s, e, t in spans])}, styles={})
    data = {"writer": fmt, "captions": spans, "layouts": bool(layouts)}
    try:
        doc = WRITERS[fmt]().write(cs)
    except Exception as e:
        r.fail("%s:%s:raises" % (key, fmt), "writer raised %r" % (e,), data)
        return
    data["output"] = doc
    try:
        if fmt == "SAMI":
            bad = sami_bad(P.sami(doc), spans)
            if bad:
                r.fail("%s:%s" % (key, fmt), bad, data)
            return
        cues = {"SRT": P.srt, "WebVTT": P.webvtt, "MicroDVD": P.microdvd}.get(fmt, lambda d: P.dfxp(d)["langs"][0][1])(doc)
    except P.Malformed as e:
        r.fail("%s:%s:malformed" % (key, fmt), str(e), data)
        return
    want = [(s, e, [t]) for s, e, t in spans]
    if fmt in ("SRT", "DFXP-single", "DFXP-legacy"):
        m = merged(spans)
        # merging is allowed, not required; the text tells which happened
        if len(cues) == len(m):
            want = m
    if layouts and fmt == "WebVTT":
        want = [(s, e, [t]) for s, e, t in spans for _ in layouts]
    res = frames if fmt == "MicroDVD" else ms
    got = [(c["start"], c["end"]) for c in cues]
    ok = len(got) == len(want) and all(g[0] in res(w[0]) and g[1] in res(w[1]) for g, w in zip(got, want))
    if ok:
        ok = all(all(t in " ".join(P.text_of(c)) for t in w[2]) for c, w in zip(cues, want))
    if not ok:
        r.fail("%s:%s" % (key, fmt), "written times %r, expected %r" % (got[:6], [(sorted(res(w[0])), sorted(res(w[1]))) for w in want][:6]), data)


def sami_bad(doc, spans):
    """One sync per cue at its start; a blank sync at the end unless the next cue starts in that millisecond; none after the last."""
    ev = []
    for y in doc["syncs"]:
        for p in y["ps"]:
            ev.append((y["start"], None if P.blank(p["lines"]) else "".join(c for l in p["lines"] for c, _ in l).strip()))
    m = lambda t: {int(Fraction(t) / 1000), int((Fraction(t) + (0 if isinstance(t, int) else Fraction(1, 10 ** 6))) / 1000)}
    want = []
    for k, (s, e, t) in enumerate(spans):
        want.append((m(s), t))
        if k + 1 < len(spans):
            a, b = m(e), m(spans[k + 1][0])
            if a != b:
                want.append((a, None))
    if len(ev) != len(want) or any(g[0] not in w[0] or (g[1] is None) != (w[1] is None) or not (g[1] or "").startswith(w[1] or "") for g, w in zip(ev, want)):
        return "sync sequence %r, expected %r" % (ev[:8], [(sorted(a), t) for a, t in want][:8])


EDGE = [0, 1, 999, 1000, 1001, 39999, 40000, 40001, 999999, 1000000, 1001000, 59999999, 60000000, 60000001, 3599999999, 3600000000, 3600000001,
        35999999999, 36000000000, 43199999999, 86399999999, 86399999000, 86399000000, 5025678000]


def instants(r):
    r.rules.append("one/two-cue sets at every pair of 24 boundary instants x 7 writers; random sets of up to 5 cues (integer microseconds, and the "
                   "SCC reader's 1001/30 multiples), adjacent, touching, equal and same-time cues; layouts splitting a WebVTT cue")
    for fmt in WRITERS:
        for a in EDGE:
            for b in EDGE:
                if a <= b:
                    r.case("edges", (fmt, a, b))
                    check(r, fmt, [(a, b, "x")], "edge")


def rand_time(rng):
    k = rng.random()
    if k < .3:
        return rng.randrange(0, 60 * 10 ** 6)
    if k < .5:
        return rng.choice(EDGE)
    if k < .7:
        return rng.randrange(0, 86399) * 10 ** 6 + rng.choice([0, 1, 999, 1000, 999999, 500000])
    return rng.randrange(0, DAY)


def sets(r):
    rng = r.rng("sets")
    for fmt in WRITERS:
        for _ in r.loop("sets", r.count(400, 8000)):
            n = rng.randint(1, 5)
            spans, t = [], rand_time(rng)
            fractional = rng.random() < .25
            for k in range(n):
                mode = rng.random()
                if spans and mode < .2:
                    s, e = spans[-1][:2]                          # same times
                else:
                    s = t
                    e = min(DAY - 1, s + rng.choice([0, 1, 999, 1000, 40000, rng.randrange(0, 10 ** 7), rng.randrange(0, 10 ** 10)]))
                    t = min(DAY - 1, e + rng.choice([0, 0, 1, 500, 999, 1000, rng.randrange(0, 10 ** 7)]))
                spans.append((s, e, "cue%d" % k))
            if fractional:
                # instants of the SCC reader: frame counts * 1001/30 ms, offsets subtracted
                spans, fr = [], rng.randrange(0, 1000)
                for k in range(n):
                    d = rng.randrange(1, 200)
                    spans.append(((fr / 30.0 * 1001 / 1000) * 1e6, ((fr + d) / 30.0 * 1001 / 1000) * 1e6, "cue%d" % k))
                    fr += d + rng.choice([0, 0, rng.randrange(1, 90)])
            if fmt == "SAMI" and rng.random() < .3:
                # cues inside the first milliseconds
                spans = [(0, rng.choice([0, 1, 999, 1000]), "cue0"), (rng.choice([1000, 1500, 7000]), 9000, "cue1")]
            elif fmt == "SAMI":
                # sorted, non-overlapping within the language and no two cues at the same time
                seen, keep = -1, []
                for s, e, x in spans:
                    if int(s // 1000) > seen:
                        keep.append((s, e, x))
                        seen = int(e // 1000) if int(e // 1000) > int(s // 1000) else int(s // 1000)
                        seen = max(seen - 1, int(s // 1000))
                spans = keep
            r.case("sets", (fmt, spans))
            check(r, fmt, spans, "fractional" if fractional else "set")


def layouts(r):
    rng = r.rng("layouts")
    for _ in r.loop("layouts", r.count(60, 600)):
        ls = [Layout(origin=Point(gen.pct(10 + 10 * k), gen.pct(10 + 5 * k))) for k in range(rng.randint(2, 3))]
        ts = gen.times(rng, 2)
        spans = [(s, e, "c%d" % k) for k, (s, e) in enumerate(ts)]
        r.case("layouts", (len(ls), spans))
        for fmt in ("WebVTT", "DFXP", "SRT", "SAMI", "MicroDVD"):
            check(r, fmt, spans, "layouts", ls)


CASES = [instants, sets, layouts]
