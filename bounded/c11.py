"""C11: the characters marked italic/bold/underline after round trips; balanced markup in every output; balanced style nodes from every reader."""
from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, SAMIReader, SAMIWriter, SCCReader, SCCWriter, WebVTTReader,
                       WebVTTWriter)
from pycaption.dfxp import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.geometry import Layout
from bounded import docs, gen, sccgen
from oracles import parsers

KEYS = ("italics", "bold", "underline")
TAG = {"italics": "i", "bold": "b", "underline": "u"}


def resolve(cs, content, depth=0):
    """the marks of a style dictionary: its own, else those of its classes"""
    out = {}
    classes = content.get("classes") or ([content["class"]] if "class" in content else [])
    if depth < 5:
        for c in classes:
            out.update(resolve(cs, cs.get_style(c) or {}, depth + 1))
    for k in KEYS:
        if k in content:
            out[k] = bool(content[k])
    return out


def marks(cs, lang, keys):
    """[(caption index, char, marks)] over the visible characters; None with a reason if the style nodes are not balanced"""
    out = []
    for k, c in enumerate(cs.get_captions(lang)):
        stack = []
        for n in c.nodes:
            if n.type_ == CaptionNode.STYLE:
                if n.start:
                    stack.append(n.content)
                elif not stack:
                    return None, "caption %d: a style node ends without start" % k
                elif stack.pop() != n.content:
                    return None, "caption %d: a style node ends another one" % k
            elif n.type_ == CaptionNode.TEXT:
                m = {}
                for s in stack:
                    m.update({a: b for a, b in resolve(cs, s).items() if b})
                out += [(k, ch, tuple(sorted(a for a in m if a in keys))) for ch in n.content if not ch.isspace()]
        if stack:
            return None, "caption %d: a style node is not ended" % k
    return out, None


CLASSES = {"it": {"italics": True}, "bd": {"bold": True, "color": "#ff0000"}, "mix": {"italics": True, "underline": True, "bold": True}, "plain": {"color": "blue"},
           "off": {"font-family": "Arial"}}


def content(rng, classes, multi=False):
    d = {}
    for k in KEYS:
        if rng.random() < .5:
            d[k] = True
    if rng.random() < .25:
        d["color"] = rng.choice(["red", "#ffffff"])
    if rng.random() < .15:
        d["font-family"] = rng.choice(["Arial", "\"Times New Roman\", serif", "'Courier'", "A & B <C>"])
    if rng.random() < .1:
        d["font-size"] = "12pt"
    if classes and rng.random() < .4:
        d["class"] = rng.choice(classes)
        if multi and rng.random() < .3:
            d["classes"] = rng.sample(classes, rng.randint(1, len(classes)))
            d["class"] = " ".join(d["classes"])
    if rng.random() < .05:
        d = {}
    if rng.random() < .05 and "italics" not in d and "class" not in d:
        d["italics"] = False
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def build(rng, nested=False, layouts=True, multi=False):
    T, S, B = CaptionNode.create_text, CaptionNode.create_style, CaptionNode.create_break
    classes = rng.sample(sorted(CLASSES), rng.randint(0, 3))
    styles = {c: dict(CLASSES[c]) for c in classes}
    pool = [None] + ([gen.layout(rng) for _ in range(2)] if layouts else [])
    caps = {}
    for lang in rng.choice([("en-US",), ("en-US", "fr")]):
        cs = []
        for k, (s, e) in enumerate(gen.times(rng, rng.randint(1, 4))):
            nodes = []

            def some(depth):
                for _ in range(rng.randint(1, 3)):
                    x = rng.random()
                    if x < .5:
                        nodes.append(T(rng.choice(["word", "two words", " x", "y ", "<b>a & b</b>", "ü"]), rng.choice(pool) if rng.random() < .2 else None))
                    elif x < .65:
                        nodes.append(B())
                    elif depth == 0 or (nested and depth < 3):
                        c = content(rng, classes, multi)
                        lay = rng.choice(pool)
                        nodes.append(S(True, c, lay))
                        some(depth + 1)
                        nodes.append(S(False, dict(c), lay))
            some(0)
            if not any(n.type_ == CaptionNode.TEXT and n.content.strip() for n in nodes):
                nodes.append(T("end"))
            cs.append(Caption(s, e, nodes, style={}, layout_info=rng.choice(pool)))
        caps[lang] = CaptionList(cs)
    return CaptionSet(caps, styles=styles)


def describe(cs):
    return {"styles": {k: v for k, v in cs.get_styles()}, "captions": {l: [[repr(c.layout_info), [(n.type_, n.content, n.start, repr(n.layout_info)) for n in c.nodes]]
            for c in cs.get_captions(l)] for l in cs.get_languages()}}


def trips(r):
    r.rules.append("caption sets with balanced, non-nested spans (direct marks, one class, other attributes, layouts, breaks, marks switched off) through chains of DFXP and SAMI of "
                   "length 1-3: italics of every character; bold and underline on chains of SAMI")
    rng = r.rng("trips")
    W = {"dfxp": (lambda: DFXPWriter(), lambda d: DFXPReader().read(d)), "sami": (lambda: SAMIWriter(), lambda d: SAMIReader().read(d))}
    for _ in r.loop("trips", r.count(1300, 20000)):
        chain = [rng.choice(["dfxp", "sami"]) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        cs = build(rng, multi="sami" not in chain)
        d = dict(describe(cs), chain=chain)
        r.case("trips", d)
        keys = ("italics",) if "dfxp" in chain else KEYS
        name = "-".join(sorted(set(chain)))
        try:
            cur = cs
            for f in chain:
                cur = W[f][1](W[f][0]().write(cur))
        except Exception as e:
            r.fail(name + ":raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        for lang in cs.get_languages():
            a, _ = marks(cs, lang, keys)
            b, why = marks(cur, lang, keys)
            if b is None:
                r.fail(name + ":unbalanced", why, d)
            elif a != b:
                bad = next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
                r.fail(name + ":marks", "%s: marks changed: %r" % (lang, bad), d)


def want_tags(cs, lang, keys, direct):
    out = []
    for c in cs.get_captions(lang):
        stack, row = [], []
        for n in c.nodes:
            if n.type_ == CaptionNode.STYLE:
                stack.append(n.content) if n.start else stack.pop()
            elif n.type_ == CaptionNode.TEXT:
                m = set()
                for s in stack:
                    m |= {TAG[k] for k in keys if (s.get(k) if direct else resolve(cs, s).get(k))}
                row += [(ch, frozenset(m)) for ch in n.content if not ch.isspace()]
        out.append(row)
    return out


def outputs(r):
    r.rules.append("the same sets, also with nested spans, and sets read from documents of every format -> every writer: markup balanced and nested for an independent parser; tags of "
                   "every character equal the marks (spans that do not nest)")
    rng = r.rng("out")
    for i in r.loop("outputs", r.count(1500, 20000)):
        fmt = rng.choice(["vtt", "vtt", "dfxp", "sami", "legacy", "single"])
        nested = rng.random() < .4
        src = rng.random() < .3
        if src:
            f, doc = docs.one(rng)
            try:
                cs = docs.READERS[f]().read(doc)
            except Exception:
                continue
            d = {"doc": doc, "reader": f, "writer": fmt}
        else:
            cs = build(rng, nested)
            d = dict(describe(cs), writer=fmt)
        r.case("outputs:" + fmt, d)
        lang = cs.get_languages()[0]
        try:
            if fmt == "vtt":
                out = WebVTTWriter(relativize=not src).write(cs)
                cues = parsers.webvtt(out, strict=False)
                bad = [b for c in cues for b in c["bad"]]
                got = [[(c, s & {"i", "b", "u"}) for l in c["lines"] for c, s in l if not c.isspace()] for c in cues]
            elif fmt == "sami":
                out = SAMIWriter(relativize=not src).write(cs)
                p = parsers.sami(out)
                bad = p["bad"]
                got = [[(c, s) for l in q["lines"] for c, s in l if not c.isspace()] for y in p["syncs"] for q in y["ps"] if not parsers.blank(q["lines"])
                       and len(cs.get_languages()) == 1]
            else:
                w = {"dfxp": DFXPWriter(relativize=not src), "legacy": LegacyDFXPWriter(), "single": SinglePositioningDFXPWriter(Layout(), relativize=not src)}[fmt]
                out = w.write(cs)
                p = parsers.dfxp(out)
                bad = []
                got = [[(c, s & {"i"}) for l in q["lines"] for c, s in l if not c.isspace()] for q in p["langs"][0][1]]
        except parsers.Malformed as e:
            r.fail(fmt + ":markup", "the output is not well formed: %s" % e, d)
            continue
        except Exception as e:
            if not src:
                r.fail(fmt + ":raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        if bad:
            r.fail(fmt + ":markup", "markup not balanced: %r" % bad[:3], dict(d, out=out))
            continue
        if nested or src or (fmt == "sami" and len(cs.get_languages()) > 1):
            continue
        if fmt == "sami":
            want = [w for w in want_tags(cs, lang, KEYS, True)]
        elif fmt == "vtt":
            want = want_tags(cs, lang, KEYS, False)
        else:
            want = want_tags(cs, lang, ("italics",), True)
        want = [x for w in want for x in w]
        got = [x for g in got for x in g]
        if got != want:
            b = next((x for x in zip(want, got) if x[0] != x[1]), (len(want), len(got)))
            r.fail(fmt + ":tags", "expected %r, written %r" % (b[0], b[1]), dict(d, out=out))


def readers(r):
    r.rules.append("every document generator (SRT, WebVTT, DFXP, SAMI, MicroDVD with markup; SCC pop-on with italics): style nodes of every caption balanced, then written by every "
                   "markup writer")
    rng = r.rng("readers")
    for _ in r.loop("readers", r.count(2500, 30000)):
        f, doc = docs.one(rng)
        r.case("readers:" + f, doc)
        try:
            cs = docs.READERS[f]().read(doc)
        except Exception:
            continue
        for lang in cs.get_languages():
            m, why = marks(cs, lang, KEYS)
            if m is None:
                r.fail(f + ":reader", why, {"doc": doc})


CASES = [trips, outputs, readers]
