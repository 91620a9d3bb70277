"""C14 Whole readers: every language of a DFXP or SAMI document, any number of divs or languages, any number of cues each.

Loop rule: before an arbitrary div the dictionary holds whatever the divs before left there - the language of this div or not, another
language or not, each with any number of captions.  A reader that carries more state from one div to the next is left to the documents
of up to three divs."""
import z3
from bs4 import BeautifulSoup

from pycaption.base import DEFAULT_LANGUAGE_CODE, Caption, CaptionNode, CaptionSet
from pycaption.dfxp import DFXPReader
from pycaption.sami import SAMIReader

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.interp import Bound, Closure
from pyvc.sym import Blob, Elsewhere, Opaque, PyDict, PyList, Unsupported

from .lib import caption_list, captions, seq_of, uval

OWN = "the cues of a div go to its own language, to the document's if it names none, to the configured default if that names none either"
APART = "no other language gains, loses or reorders a cue, and languages are listed in order of first appearance"
EACH = "every language the parser listed is read once, its own paragraphs, and given under its name"
NAME = L.rx("[A-Za-z0-9-]+")


def name(h, n):
    """any language: a value of which nothing is known but what it equals"""
    return uval(h.ctx, n) if h.symbolic else {"document language": "de", "language of div0": "fr"}.get(n, "nl")


def same(h, a, b):
    return a is b or h.truth(h.eq(a, b)) is True


def holds(ctx, got, want):
    """the same captions: segments known to be empty do not count"""
    full = lambda xs: [x for x in xs if not (isinstance(x, Blob) and ctx.known(x.length == x.lo))]
    got = seq_of(got)
    if got is None:
        raise Elsewhere("captions kept in another way")
    a, b = full(got.items), full(want)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Filled:
    """for x in xs: d[key(x)] gains value(x)"""
    fresh_keys = False

    def __init__(self, h, key, value, names):
        self.h, self.key, self.value, self.own, self.apart = h, key, value, names[0], names[1]

    def entry(self, it, fr):
        used = [n for n in self.mutated if type(fr.vars.get(n)) is PyDict and not fr.vars[n].pairs]
        if len(used) != 1 or fr.vars[used[0]].default_factory:
            raise Elsewhere("a reader that collects in another way")
        if any(n in fr.vars for n in self.assigned):
            raise Elsewhere("a reader with more state")
        self.d = fr.vars[used[0]]

    def havoc(self, it, fr, i):
        h, ctx = self.h, it.ctx
        self.end = i is self.loop_blob.length
        k = name(h, "some language") if self.end else self.key(self.loop_blob.get(i))
        other = name(h, "another language")
        h.assume(Y.not_(h.eq(k, other)))
        self.k, self.old = k, {}
        here = ["mine", "other", "both", "other, mine", "none"][ctx.choose(5, "languages read before")]
        if self.end:
            here = {"both": "both", "mine": "mine"}.get(here)
            if here is None:
                raise Y.PathEnd("by symmetry")
        if self.fresh_keys and not self.end and "mine" in here + (" mine" if here == "both" else ""):
            raise Y.PathEnd("a language is listed once")
        ps = []
        for n in {"mine": ["mine"], "other": ["other"], "both": ["mine", "other"], "other, mine": ["other", "mine"], "none": []}[here]:
            b = captions(ctx, "cues of " + n, tag="cues of " + n)
            if self.end and n == "mine":
                ctx.assume(b.length >= 1)
            ps.append([k if n == "mine" else other, caption_list([b])])
            self.old[n] = b
        self.d.pairs = ps
        self.before = [list(p) for p in ps]
        self.items = [list(seq_of(p[1]).items) for p in ps]
        self.calls = 0

    def step(self, it, fr, i):
        h, d = self.h, it.ctx.decide
        ps = self.d.pairs
        mine = [n for n, p in enumerate(self.before) if p[0] is self.k]
        new = self.value(self.loop_blob.get(i))
        ok = len(ps) == len(self.before) + (not mine)
        d(self.apart, ok and all(p[0] is q[0] for p, q in zip(ps, self.before)), witness=repr(ps), backend="loop rule")
        if not ok:
            return
        ctx = it.ctx
        for n, (p, x) in enumerate(zip(ps, self.items)):
            if n in mine:
                d(self.own, holds(ctx, p[1], x + [new]), witness=repr(p), backend="loop rule")
            else:
                d(self.apart, holds(ctx, p[1], x), witness=repr(p), backend="loop rule")
        if not mine:
            d(self.own, same(h, ps[-1][0], self.k) and holds(ctx, ps[-1][1], [new]), witness=repr(ps[-1]), backend="loop rule")

    def frame(self, it, fr):
        return [self.d] + [seq_of(p[1]) for p in self.before] + [p[1] for p in self.before]

    def after(self, got):
        """the caption set holds what was collected"""
        h = self.h
        c = h.attr(got, "_captions")
        h.prove(self.apart, isinstance(c, PyDict) and len(c.pairs) == len(self.before) and
                all(same(h, p[0], q[0]) and holds(h.ctx, p[1], x) for p, q, x in zip(c.pairs, self.before, self.items)))


class Read(Filled):
    fresh_keys = True


def element(h, lang, default, **more):
    return Opaque("div", attrs=PyDict([["xml:lang", lang]] if lang is not None else []), **more)


def div_language(h, i=""):
    return name(h, "language of div%s" % i) if h.pick("div%s names a language" % i, [True, False]) else None


def tt(h):
    return name(h, "document language") if h.pick("the document names a language", [True, False]) else None


def dfxp_soup(h, divs, doc):
    def find_all(it, me, *a, **k):
        if k or len(a) != 1 or a[0] not in ("div", "style"):
            raise Unsupported("find_all %r" % (a,))
        return PyList(divs) if a[0] == "div" else PyList()
    return Opaque("soup", tt=element(h, doc, None), find_all=find_all)


def xml(doc, divs):
    at = lambda l: "" if l is None else ' xml:lang="%s"' % l
    return "<tt xmlns=\"http://www.w3.org/ns/ttml\"%s><body>%s</body></tt>" % (
        at(doc), "".join("<div%s>%s</div>" % (at(l), "".join('<p begin="00:00:0%d.000" end="00:00:0%d.500">%s</p>' % (n, n, t)
                                                        for n, t in enumerate(ts))) for l, ts in divs))


def texts(cs):
    return [(l, [c.get_text() for c in cs.get_captions(l)]) for l in cs.get_languages()]


def wanted(doc, divs):
    out = {}
    for l, ts in divs:
        out.setdefault(l if l is not None else doc if doc is not None else DEFAULT_LANGUAGE_CODE, []).extend(ts)
    return list(out.items())


def calls(f):
    return Opaque("class", __call__=f)


def patch_dfxp(h, soup, cues):
    h.patch("pycaption.dfxp.base.DFXPReader._get_dfxp_parser_class", lambda *a: calls(lambda it, *b, **k: soup))
    h.patch("pycaption.dfxp.base.DFXPReader._convert_div_to_caption_list", lambda it, me, div: caption_list([cues(div)]))


def dfxp_any(h):
    doc = tt(h)
    if not h.symbolic:
        for divs in ([("fr", ["a", "b"]), (None, ["c"]), ("fr", ["d"]), (None, ["e"])], [(None, ["a"]), ("de", ["b"]), (doc or "en-US", ["c"])]):
            h.prove(OWN, texts(DFXPReader().read(xml(doc, divs))) == wanted(doc, divs))
        return
    ctx, made = h.ctx, {}
    n = ctx.fresh(z3.IntSort(), "divs")
    ctx.assume(n >= 0)

    def elem(i):
        l = div_language(h)
        e = element(h, l, None)
        made[id(e)] = (l if l is not None else doc if doc is not None else DEFAULT_LANGUAGE_CODE, captions(ctx, "cues of the div", tag="cues of the div"), e)
        return e

    def cues(div):
        if id(div) not in made:
            raise Unsupported("another div")
        return made[id(div)][1]
    spec = Filled(h, lambda e: made[id(e)][0], cues, (OWN, APART))
    ctx.loops["divs"] = spec
    patch_dfxp(h, dfxp_soup(h, [Blob("divs", n, elem, tag="divs")], doc), cues)
    spec.after(h.meth(h.call(DFXPReader), "read", "<tt></tt>"))


def dfxp_three(h):
    """up to three divs, with no rule about the loop"""
    doc = tt(h)
    count = h.pick("divs", [2, 3])
    names = [div_language(h, k) if k < 2 else h.pick("third", ["as the first", "none"]) for k in range(count)]
    names = [names[0] if l == "as the first" else None if l == "none" else l for l in names]
    if not h.symbolic:
        divs = [(l, ["%d" % k]) for k, l in enumerate(names)]
        h.prove(OWN, texts(DFXPReader().read(xml(doc, divs))) == wanted(doc, divs))
        return
    ctx = h.ctx
    es = [element(h, l, None) for l in names]
    bs = [captions(ctx, "cues %d" % k, tag="cues %d" % k) for k in range(count)]
    for b in bs:
        ctx.assume(b.length >= 1)
    patch_dfxp(h, dfxp_soup(h, es, doc), lambda div: next(b for e, b in zip(es, bs) if e is div))
    got = h.attr(h.meth(h.call(DFXPReader), "read", "<tt></tt>"), "_captions")
    want = []
    for l, b in zip(names, bs):
        l = l if l is not None else doc if doc is not None else DEFAULT_LANGUAGE_CODE
        for w in want:
            if h.truth(h.eq(w[0], l)):
                w[1].append(b)
                break
        else:
            want.append((l, [b]))
    h.prove(OWN, isinstance(got, PyDict) and len(got.pairs) == len(want) and all(
        same(h, p[0], w[0]) and holds(ctx, p[1], w[1]) for p, w in zip(got.pairs, want)))


# ------------------------------------------------------------------ SAMI

def sami_soup(h, langs):
    return Opaque("parser", feed=lambda it, me, content: (content, PyDict([["p", PyDict()]]), PyList(langs)))


def sami_doc(divs):
    return '<sami><head></head><body>%s</body></sami>' % "".join(
        '<sync start="%d">%s</sync>' % (1000 * n, "".join('<p lang="%s">%s %d</p>' % (l, l, n) for l in ls)) for n, ls in enumerate(divs))


def patch_sami(h, langs, cues):
    soup = Opaque("soup")
    h.patch("pycaption.sami.SAMIReader._get_sami_parser_class", lambda *a: calls(lambda it, *b, **k: sami_soup(h, langs)))
    h.patch("pycaption.sami.SAMIReader._get_xml_parser_class", lambda *a: calls(lambda it, *b, **k: soup))
    h.patch("pycaption.sami.SAMIReader._build_layout", lambda *a, **k: None)

    def translate(it, me, language, document, layout):
        if document is not soup:
            raise Unsupported("another document")
        return caption_list([cues(language)])
    h.patch("pycaption.sami.SAMIReader._translate_lang", translate)


def sami_any(h):
    if not h.symbolic:
        for doc in ([["en", "fr"], ["fr"], ["en"]], [["de"], ["en", "en-US"], ["de", "fr"]]):
            cs = SAMIReader().read(sami_doc(doc))
            want = {}
            for n, ls in enumerate(doc):
                for l in ls:
                    want.setdefault(l[:2], []).append("%s %d" % (l, n))
            h.prove(EACH, texts(cs) == list(want.items()))
        return
    ctx, made = h.ctx, {}
    n = ctx.fresh(z3.IntSort(), "languages")
    ctx.assume(n >= 0)

    def elem(i):
        return name(h, "language")

    def cues(l):
        for w, b in made.values():
            if w is l or same(h, w, l):
                return b
        made[id(l)] = (l, captions(ctx, "cues read", tag="cues read"))
        return made[id(l)][1]
    spec = Read(h, lambda e: e, cues, (EACH, APART))
    ctx.loops["languages"] = spec
    patch_sami(h, [Blob("languages", n, elem, tag="languages")], cues)
    spec.after(h.meth(h.call(SAMIReader), "read", "<sami></sami>"))


def register(contract, prop):
    contract(prop, "DFXPReader.read: any number of divs", targets=["pycaption.dfxp.base.DFXPReader.read"], expects=[OWN, APART], only=True)(dfxp_any)
    contract(prop, "DFXPReader.read: two or three divs", targets=["pycaption.dfxp.base.DFXPReader.read"], expects=[OWN],
             bound="documents of two or three divs, any number of cues each")(dfxp_three)
    contract(prop, "SAMIReader.read: any number of languages", targets=["pycaption.sami.SAMIReader.read"], expects=[EACH, APART], only=True)(sami_any)

ONLY = "the paragraphs read for a language are those that carry exactly its name, in order"


def attribute(it, filters, value):
    """bs4: an attribute filter is a value to equal, or a predicate to satisfy"""
    for k, x in filters.items():
        if k != "lang":
            raise Unsupported("find_all by %s" % k)
        if isinstance(x, (str, Y.Rope)):
            if not it.truth(it.eq(x, value)):
                return False
        elif x is True or x is None:
            raise Unsupported("find_all by presence")
        elif isinstance(x, (PyList, tuple)) or not isinstance(x, (Closure, Bound)) and not callable(x):
            raise Unsupported("find_all by %r" % (x,))
        elif not it.truth(it.call(x, [value])):
            return False
    return True


def paragraphs_soup(ps, vs):
    """a document whose paragraphs ps carry the languages vs"""
    def find_all(it, me, *a, **k):
        a = list(a)
        n = a.pop(0) if a else k.pop("name", None)
        f = dict(k.pop("attrs", PyDict()).pairs) if "attrs" in k else dict(a.pop(0).pairs) if a else {}
        f.update(k)
        if n != "p" or a:
            raise Unsupported("find_all %r" % n)
        return PyList([p for p, v in zip(ps, vs) if attribute(it, f, v)])
    return Opaque("soup", find_all=find_all)


def sami_paragraphs(h):
    language = h.pick("language", ["en", "en-US"])
    count = h.pick("paragraphs", [1, 2])
    vs = [h.word("lang of paragraph %d" % k, NAME) for k in range(count)]
    if not h.symbolic:
        soup = BeautifulSoup("".join('<sync start="%d"><p lang="%s">%d</p></sync>' % (1000 * k, v, k) for k, v in enumerate(vs)), features="lxml")
        got = SAMIReader()._translate_lang(language, soup, None)
        h.prove(ONLY, [c.get_text() for c in got] == ["%d" % k for k, v in enumerate(vs) if v == language])
        return
    ps = [Opaque("p", attrs=PyDict([["lang", v]]), get=lambda it, me, n, d=None, v=v: v if n == "lang" else d, get_text=lambda it, me: "hello",
                 parent=Opaque("sync", get=lambda it, me, n, k=k: "%d" % (1000 * k) if n == "start" else None)) for k, v in enumerate(vs)]
    read = []

    def tag(it, me, p, layout=None):
        read.append(p)
        me.attrs["line"].items.append(h.call(CaptionNode.create_text, "hello"))
    h.patch("pycaption.sami.SAMIReader._translate_tag", tag)
    got = h.items(h.meth(h.call(SAMIReader), "_translate_lang", language, paragraphs_soup(ps, vs), None))
    want = [p for p, v in zip(ps, vs) if h.truth(h.eq(v, language))]
    h.prove(ONLY, len(got) == len(want) and len(read) == len(want) and all(a is b for a, b in zip(read, want)))


def register_paragraphs(contract, prop):
    contract(prop, "SAMIReader._translate_lang: the paragraphs of a language", targets=["pycaption.sami.SAMIReader._translate_lang"],
             expects=[ONLY], bound="one or two paragraphs with any languages, read for en or en-US")(sami_paragraphs)
