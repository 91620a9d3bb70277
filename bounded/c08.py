"""C08: chains of writer and reader over SRT, WebVTT, DFXP, SAMI and MicroDVD keep cues, text and times; a second run changes nothing."""
import itertools

from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, MicroDVDReader, MicroDVDWriter, SAMIReader, SAMIWriter, SRTReader, SRTWriter,
                       WebVTTReader, WebVTTWriter)
from bounded import c11, docs, gen

W = {"srt": (SRTWriter, SRTReader), "webvtt": (WebVTTWriter, WebVTTReader), "dfxp": (DFXPWriter, DFXPReader), "sami": (SAMIWriter, SAMIReader),
     "microdvd": (MicroDVDWriter, MicroDVDReader)}
UNIT = {"microdvd": 40000}


def lines(c):
    """whitespace-normalised lines, empty ones dropped (a writer may drop an empty line or write a non-breaking space)"""
    t = "".join(n.content if n.type_ == CaptionNode.TEXT else "\n" if n.type_ == CaptionNode.BREAK else "" for n in c.nodes)
    return [l for l in (" ".join(x.replace("\u00a0", " ").split()) for x in t.split("\n")) if l]


def squash(ls):
    return ["".join(l.split()) for l in ls]


def cues(cs, lang):
    return [(c.start, c.end, lines(c)) for c in cs.get_captions(lang)]


def run(chain, cs):
    for f in chain:
        w, rd = W[f]
        rd = rd()
        doc = w().write(cs)
        # these formats do not name the language
        cs = rd.read(doc, lang="en-US") if f in ("srt", "webvtt", "microdvd") else rd.read(doc)
    return cs


def want_times(spans, chain):
    """what remains of the times: truncation to milliseconds or frames at every step; ends after SAMI (None: the last end)"""
    out = [list(x) for x in spans]
    for f in chain:
        u = 40000 if f == "microdvd" else 1000
        for x in out:
            x[0] = x[0] // u * u
            x[1] = None if x[1] is None else x[1] // u * u
        if f == "sami":
            out[-1][1] = None
    return [tuple(x) for x in out]


def check(r, group, cs, chain, key, d, nospace=False):
    d = dict(d, chain=chain)
    r.case(group, d)
    langs = cs.get_languages()
    start = {l: cues(cs, l) for l in langs}
    norm = squash if nospace else (lambda ls: ls)
    try:
        one = run(chain, cs)
    except Exception as e:
        r.fail(key + ":raise", "%s: %s" % (type(e).__name__, e), d)
        return
    if sorted(one.get_languages()) != sorted(langs):
        r.fail(key + ":languages", "%r became %r" % (langs, one.get_languages()), d)
        return
    for l in langs:
        got = cues(one, l)
        if [norm(x[2]) for x in got] != [norm(x[2]) for x in start[l]]:
            bad = next((x for x in zip([norm(x[2]) for x in start[l]], [norm(x[2]) for x in got]) if x[0] != x[1]), (len(start[l]), len(got)))
            r.fail(key + ":text", "%s: %r became %r" % ((l,) + tuple(bad)), d)
            return
        want = want_times([x[:2] for x in start[l]], chain)
        for a, b in zip(want, got):
            if a[0] != b[0] or (a[1] is not None and a[1] != b[1]):
                r.fail(key + ":times", "%s: expected %r, got %r" % (l, a, b[:2]), d)
                return
    try:
        two = run(chain, one)
    except Exception as e:
        r.fail(key + ":second raise", "%s: %s" % (type(e).__name__, e), d)
        return
    for l in langs:
        if cues(two, l) != cues(one, l):
            bad = next((x for x in zip(cues(one, l), cues(two, l)) if x[0] != x[1]), (len(cues(one, l)), len(cues(two, l))))
            r.fail(key + ":drift", "%s: the second run turns %r into %r" % ((l,) + tuple(bad)), d)
            return


def spans(rng, n, unit):
    """non-overlapping cues that last at least one unit of the coarsest format; short gaps, adjacent cues, hours"""
    t = rng.choice([0, 0, rng.randint(0, 10 ** 8), rng.randint(0, 86000) * 10 ** 6])
    out = []
    for _ in range(n):
        d = rng.choice([unit, unit + rng.randint(0, 10 ** 4), rng.randint(1, 6) * 10 ** 6 + rng.randint(0, 999999)])
        if t + d >= 86395 * 10 ** 6:
            break
        out.append((t, t + d))
        t += d + rng.choice([0, 0, 1, rng.randint(0, 5000), rng.randint(0, 3 * 10 ** 6)])
    return out or [(0, unit)]


def words(rng, chain, nasty):
    w = gen.line(rng, nasty)
    if "microdvd" in chain:
        w = w.replace("|", "/")
    return w


def chains(r):
    r.rules.append("all chains of length 1 and 2 and random chains up to 5 over the five formats; caption sets with microsecond times, adjacent cues, cues of one frame, several lines, empty "
                   "lines, markup- and entity-looking text; two languages on DFXP/SAMI chains; the chain is run twice")
    rng = r.rng("chains")
    fs = sorted(W)
    all_ = [list(c) for k in (1, 2) for c in itertools.product(fs, repeat=k)]
    for i in r.loop("chains", r.count(1500, 25000)):
        chain = all_[i % len(all_)] if i < 4 * len(all_) else [rng.choice(fs) for _ in range(rng.randint(1, 5))]
        two = rng.random() < .25
        if two:
            chain = [rng.choice(["dfxp", "sami"]) for _ in range(rng.randint(1, 4))]
        unit = 40000 if "microdvd" in chain else 1000
        caps, d = {}, {}
        for lang in (["en-US", "fr"] if two else ["en-US"]):
            rows = []
            for s, e in spans(rng, rng.randint(1, 5), unit):
                # a start that is truncated to the end of the cue before it would merge the two
                ls = [words(rng, chain, rng.choice([0, .3])) for _ in range(rng.randint(1, 3))]
                rows.append((s, e, ls))
            # every cue lasts at least one unit after truncation
            rows = [(-(-s // unit) * unit if rng.random() < .5 else s, e, ls) for s, e, ls in rows]
            rows = [(s, e, ls) for s, e, ls in rows if e // unit > s // unit]
            if not rows:
                rows = [(unit, 3 * unit, ["x"])]
            caps[lang] = CaptionList([Caption(s, e, gen.text_nodes(ls, rng.choice([1, 1, 1, 2])), style={}) for s, e, ls in rows])
            d[lang] = rows
        check(r, "chains", CaptionSet(caps, styles={}), chain, "chain:" + ("-".join(sorted(set(chain))) if len(set(chain)) < 3 else "long"), d)


def styled(r):
    r.rules.append("sets with style spans, classes and layouts, and sets read from generated documents, through random chains (text compared without spaces at style boundaries)")
    rng = r.rng("styled")
    fs = sorted(W)
    for _ in r.loop("styled", r.count(800, 12000)):
        chain = [rng.choice(fs) for _ in range(rng.randint(1, 3))]
        cs = c11.build(rng, nested=rng.random() < .3, layouts=False)
        if "dfxp" not in chain and "sami" not in chain or set(chain) - {"dfxp", "sami"}:
            for l in cs.get_languages()[1:]:
                cs = CaptionSet({"en-US": cs.get_captions("en-US")}, styles=dict(cs.get_styles()))
        unit = 40000 if "microdvd" in chain else 1000
        for l in cs.get_languages():
            t = 0
            for c in cs.get_captions(l):
                c.start = max(c.start // unit * unit, t)
                c.end = max(c.end // unit * unit, c.start + unit)
                t = c.end
        check(r, "styled", cs, chain, "styled", c11.describe(cs), nospace=True)


DAYS = "a cue at or after 24 hours loses its days in SRT and DFXP"


def days(r):
    r.rules.append("cues at and after 24 hours, through every chain of one and two formats")
    rng = r.rng("days")
    fs = sorted(W)
    for chain in [list(c) for k in (1, 2) for c in itertools.product(fs, repeat=k)]:
        t = 86400 * 10 ** 6 * rng.randint(1, 40) + rng.randint(0, 86300) * 10 ** 6
        rows = [(t, t + 2 * 10 ** 6, ["one"]), (t + 2 * 10 ** 6, t + 5 * 10 ** 6, ["two", "lines"])]
        caps = CaptionList([Caption(s, e, gen.text_nodes(ls, 1), style={}) for s, e, ls in rows])
        cs = CaptionSet({"en-US": caps}, styles={})
        if not set(chain) & {"srt", "dfxp"}:
            check(r, "days", cs, chain, "days", {"rows": rows})
            continue
        r.case("days", {"rows": rows, "chain": chain})
        day = 86400 * 10 ** 6
        want = want_times([x[:2] for x in rows], chain)
        got = cues(run(chain, cs), "en-US")
        if [x[:2] for x in got] == want:
            continue
        same = len(got) == 2 and all(b[0] % day == a[0] % day and (a[1] is None or b[1] % day == a[1] % day) and b[2] == x[2]
                                     for a, b, x in zip(want, got, rows))
        r.fail(DAYS if same else "days:other", "%r became %r" % (want, got), {"rows": rows, "chain": chain})


CASES = [chains, styled, days]
