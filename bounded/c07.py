"""C07: DFXP output under two strict XML parsers; ids, style and region references resolved."""
import xml.etree.ElementTree as ET

from lxml import etree
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, DFXPWriter
from pycaption.exceptions import CaptionReadNoCaptions
from pycaption.dfxp import LegacyDFXPWriter, SinglePositioningDFXPWriter

from pycaption.geometry import Layout, Point, Size, UnitEnum

from bounded import docs, gen

TT = "{http://www.w3.org/ns/ttml}"
XID, XLANG = "{http://www.w3.org/XML/1998/namespace}id", "{http://www.w3.org/XML/1998/namespace}lang"
NASTY_ATTR = ["\"", "'", "\"'", "&", "<", ">", "a b", "a&b", "a\"b", "<x>", "]]>", "&amp;", "&#0;", "x\"y'z", "--", "p", "bottom", "r0", "r1", "default", "é",
              "\t", "a\nb", "\u2028", "\x01", "\x0b", "\ufffe", "\ud800", "{}", "[]", "%", "tt", "en\"", "en-US", "en", "\U0001F600", "a\x00b"]
NASTY_TEXT = gen.NASTY + ["\x00", "\x0b", "\x1b[0m", "\x7f", "\x85", "\ud800", "\udfff", "\ufffe", "\uffff", "\r", "\t", "\u2028", "</p>", "</span>", "<span>",
                          "<span", "<![CDATA[", "<?xml?>", "</div></body></tt>"]
KEYS = ["class", "text-align", "italics", "bold", "underline", "font-family", "font-size", "color", "display-align", "lang", "other"]


def value(rng):
    return rng.choice(NASTY_ATTR) if rng.random() < .6 else rng.choice(["red", "center", "monospace", "1c", "after", "s1", "s2"])


def style(rng, ids):
    out = {}
    for k in rng.sample(KEYS, rng.randint(0, 4)):
        out[k] = rng.choice(ids + ["nowhere"]) if k == "class" else True if k in ("italics", "bold", "underline") else value(rng)
    return out


def nodes(rng, ids, layouts, nasty):
    T, B, S = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
    out, stack = [], []
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        lay = rng.choice(layouts) if rng.random() < .4 else None
        if k < .45:
            out.append(T(" ".join(rng.choice(NASTY_TEXT) if rng.random() < nasty else rng.choice(gen.WORDS) for _ in range(rng.randint(1, 3))), layout_info=lay))
        elif k < .6:
            out.append(B(layout_info=lay))
        elif k < .82 or not stack:
            st = style(rng, ids)
            stack.append((st, lay))
            out.append(S(True, st, layout_info=lay))
        else:
            st, lay = stack.pop()
            out.append(S(False, st, layout_info=lay))
    while stack:
        st, lay = stack.pop()
        out.append(S(False, st, layout_info=lay))
    return out


def the_set(rng, nasty):
    ids = [value(rng) for _ in range(rng.randint(0, 4))]
    layouts = [gen.layout(rng) for _ in range(rng.randint(1, 4))]
    langs = []
    for _ in range(rng.randint(1, 3)):
        l = rng.choice(NASTY_ATTR) if rng.random() < nasty else rng.choice(["en", "fr", "en-US", "de"])
        if l not in langs:
            langs.append(l)
    caps = {}
    for l in langs:
        out = []
        for s, e in gen.times(rng, rng.randint(0, 4), dur=(1, 3), gap=(0, 2)):
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out.append(Caption(s, e, nodes(rng, ids, layouts, nasty), style=style(rng, ids) if rng.random() < .5 else {},
                                   layout_info=rng.choice(layouts) if rng.random() < .5 else None))
        caps[l] = CaptionList(out, layout_info=rng.choice(layouts) if rng.random() < .4 else None)
    cs = CaptionSet(caps, styles={i: style(rng, [x for x in ids if x != i] or ["s1"]) for i in ids} if rng.random() < .8 else {},
                    layout_info=rng.choice(layouts) if rng.random() < .3 else None)
    return cs


def runs(caps):
    n, last = 0, None
    for c in caps:
        if (c.start, c.end) != last:
            n += 1
        last = (c.start, c.end)
    return n


def judge(r, key, out, langs, counts, data):
    try:
        raw = out.encode("utf-8")
    except UnicodeEncodeError as e:
        r.fail(key + ":unencodable", str(e)[:200], data)
        return
    try:
        root = ET.fromstring(raw)
        try:
            etree.fromstring(raw, etree.XMLParser(recover=False, resolve_entities=False))
        except etree.XMLSyntaxError as e:
            # libxml2 checks xml:id against the names of the fourth edition of XML 1.0: left to it for ASCII names only
            if "is not an NCName" not in str(e) or str(e).split("attribute value ")[1].split(" is not an NCName")[0].isascii():
                raise
    except (ET.ParseError, etree.XMLSyntaxError) as e:
        r.fail(key + ":not well-formed", str(e)[:200], data)
        return
    if root.tag != TT + "tt":
        r.fail(key + ":root", root.tag, data)
        return
    for el in root.iter():
        if not el.tag.startswith(TT):
            r.fail(key + ":namespace", "element %s outside the TTML namespace" % el.tag, data)
            return
    head, body = root.find(TT + "head"), root.find(TT + "body")
    if head is None or body is None:
        r.fail(key + ":structure", "head or body missing", data)
        return
    ids = [el.get(XID) for el in root.iter() if el.get(XID) is not None]
    for i in ids:
        if ids.count(i) > 1:
            r.fail(key + ":duplicate id", "id %r is defined %d times" % (i, ids.count(i)), data)
            return
    for name in ("style", "region"):
        defs = [el.get(XID) for el in head.iter(TT + name)]
        refs = [x for el in root.iter() if el.get(name) is not None for x in (el.get(name).split(" ") if name == "style" else [el.get(name)])]
        for x in refs:
            if defs.count(x) != 1:
                r.fail(key + ":%s reference" % name, "%s=%r resolves to %d definitions of %r" % (name, x, defs.count(x), defs), data)
                return
        if name == "region":
            for x in defs:
                if x not in refs:
                    r.fail(key + ":unused region", "region %r is never referenced" % x, data)
                    return
    divs = body.findall(TT + "div")
    got = [(d.get(XLANG), len(d.findall(TT + "p"))) for d in divs]
    if len(divs) != len(langs) or any(g[1] != n for g, n in zip(got, counts)):
        r.fail(key + ":divs", "divs %r, languages %r with %r paragraphs" % (got, langs, counts), data)
        return
    for g, l in zip(got, langs):
        if g[0] != l and not any(ord(c) < 32 or 0xd800 <= ord(c) < 0xe000 or ord(c) in (0xfffe, 0xffff) for c in l):
            r.fail(key + ":language", "div language %r, language %r" % (g[0], l), data)
            return
    if len(list(root.iter(TT + "p"))) != sum(counts) or len(list(root.iter(TT + "div"))) != len(langs):
        r.fail(key + ":structure", "p or div elements outside their place", data)
        return
    for p in root.iter(TT + "p"):
        if not p.get("begin") or not p.get("end"):
            r.fail(key + ":begin/end", "p without begin or end", data)
            return


def write_all(r, group, cs, data, rng, opts=True):
    langs = cs.get_languages()
    for name, make, merged in (("DFXPWriter", lambda: DFXPWriter(), False),
                               ("DFXPWriter inline", lambda: DFXPWriter(write_inline_positioning=True, relativize=False, fit_to_screen=False), False),
                               ("Single", lambda: SinglePositioningDFXPWriter(), True),
                               ("Legacy", lambda: LegacyDFXPWriter(), True)):
        force = rng.choice(langs) if rng.random() < .3 else ""
        d = dict(data, writer=name, force=force)
        r.case(group, "%s %s %s" % (name, force, repr(data)))
        written = [force] if force and force in langs else langs
        caps = [cs.get_captions(l) for l in written]
        counts = [runs(c) if merged else len(c) for c in caps]
        try:
            out = make().write(cs, force)
        except Exception as e:
            r.fail("%s:raise" % name, "%s: %s" % (type(e).__name__, e), d)
            continue
        d["output"] = out
        judge(r, name, out, written, counts, d)


def api(r):
    r.rules.append("API-built sets with 1-3 languages, 0-4 styles with hostile ids and values, balanced (also nested) style nodes, layouts at every level, hostile text "
                   "(markup, entities, control characters, lone surrogates), written by the four DFXP writers with and without force")
    rng = r.rng("api")
    for _ in r.loop("api", r.count(900, 9000)):
        cs = the_set(rng, rng.choice([0, .1, .5]))
        write_all(r, "api", cs, {"set": gen.dump(cs)}, rng)


def each(r):
    r.rules.append("every hostile string as text, style id, style value, class, span style value and language code")
    rng = r.rng("each")
    T, S = CaptionNode.create_text, CaptionNode.create_style
    for x in sorted(set(NASTY_ATTR + NASTY_TEXT)):
        for role in ("text", "id", "value", "class", "span value", "span class", "language"):
            for _ in r.loop("each", 1):
                st = {x: {"color": "red"}} if role in ("id", "class", "span class") else {"s": {"color": x, "font-family": x}} if role == "value" else {}
                ns = [T(x if role == "text" else "hello")]
                if role == "span value":
                    ns = [S(True, {"color": x, "font-size": x}), T("a"), S(False, {"color": x, "font-size": x})]
                if role == "span class":
                    ns = [S(True, {"class": x}), T("a"), S(False, {"class": x})]
                cs = CaptionSet({x if role == "language" else "en": CaptionList([Caption(0, 1000000, ns, style={"class": x} if role == "class" else {})])}, styles=st)
                write_all(r, "each", cs, {"role": role, "string": x}, rng)


def many(r):
    r.rules.append("sets of 2-3 languages with 12-60 captions, (nearly) every one with a layout of its own, some of them equal up to two decimals; with and without force")
    rng = r.rng("many")
    P = UnitEnum.PERCENT
    for _ in r.loop("many", r.count(25, 250)):
        caps, n = {}, 0
        for l in ["en", "fr", "de"][:rng.randint(2, 3)]:
            out = []
            for k in range(rng.randint(12, 60)):
                n += 1
                lay = [Layout(origin=Point(Size(10 + n * .25 + rng.choice([0, 0, .001]), P), Size(10 + q, P))) for q in range(3)]
                st = {"italics": True}
                ns = [CaptionNode.create_text("a", lay[1] if rng.random() < .2 else None)]
                if rng.random() < .2:
                    ns += [CaptionNode.create_style(True, st, lay[2]), CaptionNode.create_text("b"), CaptionNode.create_style(False, st, lay[2])]
                out.append(Caption(k * 1000000, k * 1000000 + 900000, ns, layout_info=lay[0] if rng.random() < .9 else None))
            caps[l] = CaptionList(out)
        cs = CaptionSet(caps)
        write_all(r, "many", cs, {"set": gen.dump(cs)}, rng)


def read_sets(r):
    r.rules.append("caption sets returned by the SCC, SAMI, DFXP, WebVTT, SRT and MicroDVD readers for generated documents")
    rng = r.rng("read")
    for _ in r.loop("read", r.count(250, 2500)):
        fmt, doc = docs.one(rng)
        try:
            cs = docs.READERS[fmt]().read(doc)
        except CaptionReadNoCaptions:
            continue
        except Exception as e:
            r.fail("read %s:raise" % fmt, "%s: %s" % (type(e).__name__, e), {"document": doc})
            continue
        write_all(r, "read " + fmt, cs, {"format": fmt, "document": doc}, rng)


CASES = [each, many, read_sets, api]
