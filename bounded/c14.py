"""C14 bounded: every language keeps its own cue list through DFXP/SAMI readers and writers; language options select exactly."""
import os
import subprocess
import sys

from pycaption import (CaptionSet, DFXPReader, DFXPWriter, MicroDVDReader, SAMIReader, SAMIWriter, SRTReader, WebVTTReader, WebVTTWriter)
from pycaption.base import DEFAULT_LANGUAGE_CODE
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter

from oracles import parsers as P
from . import gen

LANGS = ["en", "fr", "de", "en-US", "en-GB", "es-419", "und", "zh-Hans", "pt-BR", "pt", "e", "fr-CA"]


def spans(rng, n, grid):
    """sorted, non-overlapping; `grid` shared across languages makes starts and ends coincide"""
    ts = sorted(rng.sample(grid, 2 * n))
    out = []
    for k in range(n):
        s, e = ts[2 * k], ts[2 * k + 1]
        out.append([s, e])
    for a, b in zip(out, out[1:]):
        if rng.random() < .4:
            a[1] = b[0]
    return [(s * 1000, e * 1000) for s, e in out]


def model(rng, empty=0.0, langs=None):
    langs = langs or rng.sample(LANGS, rng.randint(1, 4))
    grid = sorted(rng.sample(range(1, 400), 24)) if rng.random() < .5 else list(range(1, 25))
    if rng.random() < .5:
        grid = [g * 1000 for g in grid]
    if rng.random() < .2:
        grid[0] = 0
    m = {}
    for l in langs:
        n = 0 if rng.random() < empty else rng.randint(1, 5)
        m[l] = [(s, e, ["%s cue %d" % (l, k)]) for k, (s, e) in enumerate(spans(rng, n, grid))]
    if not any(m.values()):
        return model(rng, empty, langs)
    return m


def texts(m):
    return {l: [(s, e, " ".join(t)) for s, e, t in cs] for l, cs in m.items()}


def of_set(cs):
    return {l: [(c.start, c.end, c.get_text()) for c in cs.get_captions(l)] for l in cs.get_languages()}


def dfxp_out(r, name, doc, want, key, data):
    try:
        d = P.dfxp(doc)
    except P.Malformed as e:
        r.fail("%s:malformed" % key, "%s: %s" % (name, e), dict(data, output=doc))
        return
    got = [(l, [(c["start"], c["end"], " ".join(P.text_of(c)).strip()) for c in cs]) for l, cs in d["langs"]]
    if got != want:
        r.fail(key, "%s wrote %r, expected %r" % (name, got, want), dict(data, output=doc))


def write_dfxp(r):
    r.rules.append("caption sets of 1-4 languages (12 codes incl. common prefixes), 0-5 cues each, interleaved/coinciding/disjoint times, x DFXP writers x force; "
                   "SAMI writer; read back; DFXP documents with missing xml:lang, several divs of a language, nested divs; SAMI documents by class and by lang; reader/writer language options")
    rng = r.rng("dfxp")
    for _ in r.loop("dfxp", r.count(250, 4000)):
        m = model(rng, .15)
        cs = gen.make_set(m)
        want = texts(m)
        data = {"set": m}
        for name, W in (("DFXPWriter", DFXPWriter), ("SinglePositioning", SinglePositioningDFXPWriter), ("Legacy", LegacyDFXPWriter)):
            force = rng.choice(["", "", rng.choice(list(m)), "xx"])
            if name == "Legacy" and force == "xx":
                force = ""                        # the legacy writer falls back to the last language: not an exact selection, pinned nowhere
            r.case("dfxp-write", (name, force, m))
            try:
                doc = W().write(cs, force=force) if force else W().write(cs)
            except Exception as e:
                r.fail("%s:raises" % name, "%r" % (e,), dict(data, force=force))
                continue
            langs = [force] if force in m else list(m)
            exp = [(l, want[l]) for l in langs]
            dfxp_out(r, name, doc, exp, "%s%s" % (name, ":force" if force else ""), dict(data, force=force))
            exp = {l: v for l, v in exp}
            if any(exp.values()):
                back = of_set(DFXPReader().read(doc))
                if list(back) != list(exp) or back != exp:
                    r.fail("%s:reread" % name, "read back %r, expected %r" % (back, exp), dict(data, output=doc))


def write_sami(r):
    rng = r.rng("sami")
    for _ in r.loop("sami", r.count(500, 8000)):
        m = model(rng, .1)
        cs = gen.make_set(m)
        data = {"set": m}
        if rng.random() < .4:
            # classes that declare a language (any language), or none
            styles = {"c%d" % k: dict([("color", "red")] + ([("lang", rng.choice(list(m) + LANGS[:3]))] if rng.random() < .7 else []))
                      for k in range(rng.randint(1, 3))}
            if rng.random() < .3:
                styles["p"] = {"color": "white"}
            cs.set_styles(styles)
            data["styles"], data["classes"] = styles, {}
            for l in m:
                for k, c in enumerate(cs.get_captions(l)):
                    if rng.random() < .6:
                        c.style = {"class": rng.choice(sorted(styles))}
                        data["classes"]["%s %d" % (l, k)] = c.style["class"]
        r.case("sami-write", data)
        try:
            doc = SAMIWriter().write(cs)
            d = P.sami(doc)
        except Exception as e:
            r.fail("SAMI:raises", "%r" % (e,), data)
            continue
        data["output"] = doc
        starts = [y["start"] for y in d["syncs"]]
        if starts != sorted(starts):
            r.fail("SAMI:order", "sync starts %r are not in time order" % starts, data)
            continue
        got = {}
        for y in d["syncs"]:
            for p in y["ps"]:
                if not P.blank(p["lines"]):
                    got.setdefault(P.sami_lang(d, p), []).append((y["start"] * 1000, "".join(c for l in p["lines"] for c, _ in l).strip()))
        want = {l: [(s, " ".join(t)) for s, _, t in c] for l, c in m.items() if c}
        if got != want:
            r.fail("SAMI:languages", "paragraphs %r, expected %r" % (got, want), data)
            continue
        try:
            back = of_set(SAMIReader().read(doc))
        except Exception as e:
            r.fail("SAMI:reread", "%r" % (e,), data)
            continue
        # the end of a language's last cue is not written; the reader gives it four seconds
        exp = {l: [(s, e, " ".join(t)) for s, e, t in c[:-1]] + [(c[-1][0], c[-1][0] + 4000000, " ".join(c[-1][2]))] for l, c in m.items() if c}
        order = []
        for y in d["syncs"]:
            for p in y["ps"]:
                l = P.sami_lang(d, p)
                if l not in order:
                    order.append(l)
        if back != exp:
            r.fail("SAMI:reread", "read back %r, expected %r" % (back, exp), data)
        elif list(back) != order:
            r.fail("SAMI:lang-order", "languages %r, first appearance %r" % (list(back), order), data)


def read_dfxp(r):
    rng = r.rng("readdfxp")
    for _ in r.loop("readdfxp", r.count(400, 6000)):
        n = rng.randint(1, 5)
        doc_lang = rng.choice([None, None, "en", "fr", "en-US"])
        want, divs, t = {}, [], 0
        for k in range(n):
            lang = rng.choice([None, "en", "fr", "en-US", "de"])
            eff = lang or doc_lang or DEFAULT_LANGUAGE_CODE
            ps = []
            for j in range(rng.randint(0, 3)):
                s, e = t, t + rng.randrange(1, 9) * 1000
                t = e + rng.choice([0, 1000])
                txt = "d%dp%d" % (k, j)
                ps.append('<p begin="%dms" end="%dms">%s</p>' % (s, e, txt))
                want.setdefault(eff, []).append((s * 1000, e * 1000, txt))
            want.setdefault(eff, [])
            divs.append("<div%s>%s</div>" % (' xml:lang="%s"' % lang if lang else "", "".join(ps)))
        doc = '<tt xmlns="http://www.w3.org/ns/ttml"%s><head/><body>%s</body></tt>' % (' xml:lang="%s"' % doc_lang if doc_lang else "", "\n".join(divs))
        r.case("dfxp-read", doc, any(want.values()))
        if not any(want.values()):
            continue
        try:
            got = of_set(DFXPReader().read(doc))
        except Exception as e:
            r.fail("DFXPReader:raises", "%r" % (e,), {"document": doc})
            continue
        if got != want or list(got) != list(want):
            r.fail("DFXPReader", "read %r, the document has %r" % (got, want), {"document": doc})
            continue
        for l in want:
            cs = DFXPReader().read(doc)
            v = WebVTTWriter().write(cs, lang=l)
            g = [(c["start"], c["end"], " ".join(P.text_of(c))) for c in P.webvtt(v)]
            if g != want[l]:
                r.fail("WebVTT:lang", "lang=%r wrote %r, expected %r" % (l, g, want[l]), {"document": doc})


def read_sami(r):
    rng = r.rng("readsami")
    for _ in r.loop("readsami", r.count(400, 6000)):
        by_class = rng.random() < .7
        langs = rng.sample(["en", "fr", "de", "es"] if not by_class else ["en", "fr", "en-US", "en-GB", "de", "pt-BR", "pt"], rng.randint(1, 4))
        cls = {l: "C%s%d" % (rng.choice("XYZ"), k) for k, l in enumerate(langs)}
        css = "\n".join(".%s {Name: X; lang: %s;}" % (cls[l], l) for l in rng.sample(langs, len(langs))) if by_class else \
            rng.choice(["", ".X0 {Name: X; lang: fr;} .X1 {Name: Y; lang: en-US;} .X2 {Name: Z; color: red;}"])
        t, body, ev, order = rng.choice([0, 100]), [], {l: [] for l in langs}, []
        for k in range(rng.randint(1, 8)):
            ps = []
            for l in rng.sample(langs, len(langs)):
                x = rng.random()
                if x < .75:
                    txt = "%s_%d" % (l, k) if x < .55 else None
                    at = "Class=%s" % cls[l] if by_class else rng.choice(['lang="%s"', "LANG=%s"]) % l
                    if not by_class and css:
                        at += rng.choice(["", " Class=X%d" % rng.randint(0, 2)])
                    ps.append("<P %s>%s" % (at, txt or "&nbsp;") + rng.choice(["", "</P>"]))
                    ev[l].append((t, txt))
                    if l not in order:
                        order.append(l)
            if ps:
                body.append("<SYNC Start=%d>" % t + "".join(ps) + rng.choice(["", "</SYNC>"]))
            t += rng.choice([40, 1000, 2500])
        want = {}
        for l in order:
            w = []
            for i, (s, txt) in enumerate(ev[l]):
                if txt is not None:
                    nxt = [u for u, _ in ev[l][i + 1:] if u > s]
                    w.append((s * 1000, (nxt[0] if nxt else s + 4000) * 1000, txt))
            want[l] = w
        if not any(want.values()):
            continue
        doc = "<SAMI><HEAD>%s</HEAD><BODY>%s</BODY></SAMI>" % ("<STYLE TYPE=\"text/css\"><!-- %s --></STYLE>" % css if css else "", "\n".join(body))
        r.case("sami-read", doc)
        try:
            got = of_set(SAMIReader().read(doc))
        except Exception as e:
            r.fail("SAMIReader:raises", "%r" % (e,), {"document": doc})
            continue
        if got != want:
            r.fail("SAMIReader", "read %r, the document has %r" % (got, want), {"document": doc})
            continue
        if list(got) != list(want):
            r.fail("SAMIReader:order", "languages %r, first appearance %r" % (list(got), list(want)), {"document": doc})
        # class-styled captions written back
        try:
            d = P.sami(SAMIWriter().write(SAMIReader().read(doc)))
        except Exception as e:
            r.fail("SAMI-SAMI:raises", "%r" % (e,), {"document": doc})
            continue
        g = {}
        for y in d["syncs"]:
            for p in y["ps"]:
                if not P.blank(p["lines"]):
                    g.setdefault(P.sami_lang(d, p), []).append("".join(c for l in p["lines"] for c, _ in l).strip())
        w = {l: [t for _, _, t in v] for l, v in want.items() if v}
        if g != w:
            r.fail("SAMI-SAMI", "rewritten paragraphs %r, expected %r" % (g, w), {"document": doc})


def options(r):
    rng = r.rng("options")
    for l in LANGS:
        for R, doc in ((SRTReader, "1\n00:00:01,000 --> 00:00:02,000\nx\n"), (WebVTTReader, "WEBVTT\n\n00:01.000 --> 00:02.000\nx\n"), (MicroDVDReader, "{1}{2}x")):
            r.case("options", (l, R.__name__))
            cs = R().read(doc, lang=l)
            if cs.get_languages() != [l] or len(cs.get_captions(l)) != 1:
                r.fail("%s:lang" % R.__name__, "lang=%r gave %r" % (l, cs.get_languages()), {"document": doc})
    for _ in r.loop("vttlang", r.count(100, 1000)):
        m = model(rng)
        cs = gen.make_set(m)
        for l in list(m) + [None]:
            r.case("options", (l, m))
            v = WebVTTWriter().write(cs, lang=l) if l else WebVTTWriter().write(cs)
            g = [" ".join(P.text_of(c)) for c in P.webvtt(v)]
            w = [t[0] for _, _, t in m[l or list(m)[0]]]
            if g != w:
                r.fail("WebVTTWriter:lang", "lang=%r wrote %r, expected %r" % (l, g, w), {"set": m})
    # default-language setting (read once per process)
    for env in ("fr", "en-US", None):
        r.case("options", ("default", env))
        e = {k: v for k, v in os.environ.items() if k != "PYCAPTION_DEFAULT_LANG"}
        if env:
            e["PYCAPTION_DEFAULT_LANG"] = env
        code = ("import sys;sys.path[:0]=%r;from pycaption import DFXPReader,SAMIReader,MicroDVDReader;"
                "print(DFXPReader().read('<tt xmlns=\"http://www.w3.org/ns/ttml\"><body><div><p begin=\"1s\" end=\"2s\">x</p></div></body></tt>').get_languages(),"
                "SAMIReader().read('<SAMI><BODY><SYNC Start=1><P>x</BODY></SAMI>').get_languages(), MicroDVDReader().read('{1}{2}x').get_languages())" % sys.path)
        out = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], env=e, capture_output=True, text=True, timeout=120)
        want = " ".join([repr([env or "und"])] * 3)
        if out.stdout.strip() != want:
            r.fail("default-language", "PYCAPTION_DEFAULT_LANG=%r: %s%s, expected %s" % (env, out.stdout, out.stderr[-300:], want), {"env": env})


CASES = [write_dfxp, write_sami, read_dfxp, read_sami, options]
