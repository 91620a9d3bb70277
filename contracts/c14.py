"""C14 Each language's captions stay under their language, in document order: SAMI languages and SYNC blocks, the language options.

bs4 is at its documented contract: find / find_all give the elements in document order for which the attribute equals the value or
satisfies the predicate; insert_after, insert_before and append put the element there."""
import z3
from bs4 import BeautifulSoup

from pycaption.base import DEFAULT_LANGUAGE_CODE, Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.sami import SAMIParser, SAMIReader, SAMIWriter
from pycaption.webvtt import WebVTTWriter

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract
from pyvc.sym import Blob, Opaque, PyDict, PyList, S, Unsupported

from . import langs, writers
from .lib import at, captions, caption_list, num

Q = "pycaption.sami.SAMIWriter."
SORTED = "SYNC blocks stay in non-decreasing time order"
BLOCK = "the block given back starts at the time asked for and is part of the body"


class Syncs:
    """the SYNC elements of a body: any number of them, start times in non-decreasing order"""

    def __init__(self, h):
        self.h, ctx = h, h.ctx
        self.start = z3.Function("start%d" % Y.SObj.n, z3.IntSort(), z3.IntSort())
        self.n = ctx.fresh(z3.IntSort(), "syncs")
        self.seen, self.put, self.made = [], [], []
        ctx.assume(self.n >= 0)
        self.any = self.index("any")
        self.soup = Opaque("soup", new_tag=lambda it, me, *a, **k: self.new_tag(it, *a, **k),
                           find_all=lambda it, me, *a, **k: self.find_all(it, *a, **k),
                           find=lambda it, me, *a, **k: self.find(it, *a, **k),
                           body=Opaque("body", append=lambda it, me, x: self.put.append((self.n, x))))

    def index(self, name):
        """an arbitrary element; what is assumed of the order is instantiated at every pair of them"""
        k = self.h.ctx.fresh(z3.IntSort(), name)
        self.h.ctx.assume(z3.And(k >= 0, k < self.n) if name != "any" else k >= 0)
        for j in self.seen:
            self.h.ctx.assume(z3.And(z3.Implies(k <= j, self.start(k) <= self.start(j)), z3.Implies(j <= k, self.start(j) <= self.start(k))))
        self.seen.append(k)
        return k

    def tag(self, k):
        return Opaque("sync", start=S(self.start(k), "int"), index=k,
                      insert_after=lambda it, me, x: self.put.append((k + 1, x)),
                      insert_before=lambda it, me, x: self.put.append((k, x)))

    def new_tag(self, it, name, **attrs):
        if name != "sync" or set(attrs) != {"start"}:
            raise Unsupported("new_tag %r" % name)
        t = Opaque("new sync", start=attrs["start"])
        self.made.append(t)
        return t

    def such(self, it, start, k):
        x = S(self.start(k), "int")
        v = it.eq(x, start) if Y.is_num(start) else it.call(start, [x])
        return Y.bterm(it.tb(v))

    def find_all(self, it, name, start):
        if name != "sync":
            raise Unsupported("find_all %r" % name)
        ctx = self.h.ctx
        p = lambda k: self.such(it, start, k)
        if ctx.choose(2, "found") == 0:
            ctx.assume(z3.Implies(self.any < self.n, z3.Not(p(self.any))))
            return PyList([])
        f, l = self.index("first"), self.index("last")
        ctx.assume(z3.And(f <= l, p(f), p(l)))
        ctx.assume(z3.Implies(z3.And(self.any < self.n, z3.Or(self.any < f, self.any > l)), z3.Not(p(self.any))))
        if ctx.choose(2, "several") == 0:
            ctx.assume(f == l)
            return PyList([self.tag(f)])
        ctx.assume(f < l)
        n = ctx.fresh(z3.IntSort(), "between")
        ctx.assume(n >= 0)
        return PyList([self.tag(f), Blob("more syncs", n, lambda i: self.tag(self.index("between"))), self.tag(l)])

    def find(self, it, name, start):
        r = self.find_all(it, name, start)
        return r.items[0] if r.items else None

    def in_order(self):
        """nothing was put in, or one element where the times around it allow it"""
        if not self.put:
            return True
        (p, x), k, t = self.put[0], self.any, Y._term(self.put[0][1].attrs["start"])[0]
        return len(self.put) == 1 and Y.mk(z3.Implies(k < self.n, z3.And(z3.Implies(k < p, self.start(k) <= t),
                                                                         z3.Implies(k >= p, self.start(k) >= t))), "bool")


def real_soups(h):
    """the same on the real parser, every small case"""
    import itertools
    for n in range(4):
        for times in itertools.combinations_with_replacement(range(4), n):
            for t in range(4):
                for primary in (True, False):
                    if primary and times and times[-1] > t:
                        continue
                    soup = BeautifulSoup("<sami><body/></sami>", "lxml-xml")
                    for x in times:
                        soup.body.append(soup.new_tag("sync", start=x))
                    _, sync = SAMIWriter()._recreate_sync(soup, "en" if primary else "fr", "en", t)
                    got = [int(x["start"]) for x in soup.find_all("sync")]
                    h.prove(SORTED, got == sorted(got) and set(times) <= set(got) and len(got) <= len(times) + 1)
                    h.prove(BLOCK, int(sync["start"]) == t and any(x is sync for x in soup.find_all("sync")))


@contract("C14", "SAMIWriter._recreate_sync", targets=[Q + "_recreate_sync", Q + "_find_closest_sync"], expects=[SORTED, BLOCK])
def _(h):
    t = h.int("time", 0)
    if not h.symbolic:
        return real_soups(h)
    s = Syncs(h)
    lang = h.pick("language", ["primary", "other"])
    if lang == "primary":
        # its captions are written first, in order: SAMIWriter._recreate_p_tag
        h.assume(z3.Implies(s.any < s.n, s.start(s.any) <= Y._term(t)[0]))
    r = h.meth(h.obj(SAMIWriter), "_recreate_sync", s.soup, lang, "primary", t)
    ok = len(r) == 2 and r[0] is s.soup and isinstance(r[1], Opaque) and "start" in r[1].attrs
    h.prove(SORTED, s.in_order())
    h.prove(BLOCK, ok and ("index" in r[1].attrs and not s.put or [x for _, x in s.put] == [r[1]])
            and h.truth(h.eq(r[1].attrs["start"], t)))


# ------------------------------------------------------------------ a caption's paragraphs

OWN = "the paragraph goes into the block of its caption's start time, under the class of its language"
BLANK = "a blank paragraph of the language marks the end of the caption before, unless this one begins then"
STATE = "what the writer remembers is determined by the caption just written"


def sami_paragraph(h, kind="int"):
    """By induction over the captions of a language: the writer's state after a caption is that of a new writer after this caption
    alone, so the second of two captions shows what every later caption does."""
    n = h.pick("captions", ["first", "second", "state"])
    cls = h.word("class", L.star(L.ANY - L.A.chars("&<>\"\t\n\r")))
    text = h.word("text", L.TOP)
    calls = []

    def sync(*x):
        soup, time = x[2 if h.symbolic else 1], x[-1]
        y = Block(h, time)
        calls.append(y)
        return (soup, y.tag)
    h.patch(Q + "_recreate_sync", sync)
    h.patch(Q + "_recreate_p_lang", lambda *x: cls)
    h.patch(Q + "_recreate_text", lambda *x: text)
    h.patch(Q + "_recreate_style", lambda *x: PyDict() if h.symbolic else {})
    soup = paragraph(h)

    def written(w, k):
        c = spans[k]
        del calls[:]
        h.meth(w, "_recreate_p_tag", c, soup, "en", "en", None)
        ps = [y.paragraphs() for y in calls]
        ok = all(len(p) == 1 for p in ps)
        h.prove(OWN, ok and len(ps) > 0 and is_p(h, ps[-1][0], cls, text))
        if len(ps) == 2:
            h.prove(BLANK, ok and is_p(h, ps[0][0], cls, "&nbsp;"))
        return len(calls), [y.time for y in calls]
    # whole microseconds, as the readers give them
    spans = []
    for k in range(1 if n == "first" else 2):
        a, b = [(h.int if kind == "int" else h.real)("%s %d" % (x, k), 0, 10 ** 15) for x in ("start", "end")]
        spans.append(h.obj(Caption, start=a, end=b, nodes=PyList([]) if h.symbolic else [], style=PyDict() if h.symbolic else {}, layout_info=None))
    w = h.call(SAMIWriter)
    got, times = written(w, 0)
    h.prove(OWN, h.eq(times[-1], millis(at(spans[0], "start"))))
    h.prove(BLANK, got == 1)
    if n == "first":
        return
    got, times = written(w, 1)
    if n == "second":
        h.prove(OWN, h.eq(times[-1], millis(at(spans[1], "start"))))
        h.prove(BLANK, h.iff(h.eq(millis(at(spans[0], "end")), millis(at(spans[1], "start"))), got == 1))
        h.prove(BLANK, got in (1, 2))
        if got == 2:
            h.prove(BLANK, h.eq(times[0], millis(at(spans[0], "end"))))
        return
    v = h.call(SAMIWriter)
    written(v, 1)
    one, other = (v.attrs, w.attrs) if h.symbolic else (vars(v), vars(w))
    same = [set(one) == set(other)] + [h.eq(one[k], other[k]) for k in one if k in other]
    # more state than that is no violation, but beyond this argument
    if h.symbolic and not all(h.ctx.known(Y.bterm(x)) for x in same):
        raise Unsupported("the writer remembers more than the last caption")
    for x in same if h.symbolic else ():
        h.prove(STATE, x)


for _k, _n in (("int", ""), ("float", " (float instants)")):
    for _p in ("C14", "C02"):
        if _k == "int" or _p == "C02":
            contract(_p, "SAMIWriter._recreate_p_tag" + _n, targets=[Q + "_recreate_p_tag", Q + "_recreate_blank_tag"],
                     expects=[OWN, BLANK, STATE])(lambda h, k=_k: sami_paragraph(h, k))


def millis(x):
    if isinstance(x, (int, float)):
        return int(x // 1000)
    t, k = Y._term(x)
    return Y.mk(t / 1000 if k == "int" else Y.CUR.toint(t / 1000), "int")


class Block:
    def __init__(self, h, time):
        self.h, self.time, self.got = h, time, []
        self.tag = Opaque("sync", append=lambda it, me, x: self.got.append(x)) if h.symbolic else \
            BeautifulSoup("", "lxml-xml").new_tag("sync", start=time)

    def paragraphs(self):
        return self.got if self.h.symbolic else list(self.tag.children)


def paragraph(h):
    if not h.symbolic:
        return BeautifulSoup("", "lxml-xml")

    def new_tag(it, me, name):
        o = Opaque("p", tag=name)
        d = {}
        o.attrs.update(d=d, __setitem__=lambda it, k, v: d.__setitem__(k, v))
        return o
    return Opaque("soup", new_tag=new_tag)


def is_p(h, p, cls, text):
    if not h.symbolic:
        return p.name == "p" and p.attrs == {"class": cls} and p.string == text
    return p.attrs["tag"] == "p" and set(p.attrs["d"]) == {"class"} and h.truth(h.eq(p.attrs["d"]["class"], cls)) \
        and h.truth(h.eq(p.attrs.get("string"), text))


# ------------------------------------------------------------------ the class that stands for a language

STANDS = "the class of a paragraph declares its language, or is named after it where no class does"


@contract("C14", "SAMIWriter._recreate_p_lang", targets=[Q + "_recreate_p_lang"], expects=[STANDS])
def _(h):
    langs = [None, "de", "fr"]
    rules = {s: h.pick("language of class %s" % s, langs) for s in ("a", "b", "p")}
    own = h.pick("class of the caption", [None, "a", "b", "unknown"])
    table = {s: dict({"color": "red"}, **({"lang": l} if l else {})) for s, l in rules.items()}
    cs = h.obj(CaptionSet, _styles=h.call(dict, table) if not h.symbolic else to_dict(table), _captions=PyDict() if h.symbolic else {})
    style = {"class": own} if own else {}
    c = h.obj(Caption, start=0, end=1, nodes=[], style=to_dict(style) if h.symbolic else style, layout_info=None)
    r = h.meth(h.obj(SAMIWriter), "_recreate_p_lang", c, "de", cs)
    h.prove(STANDS, rules.get(r) == "de" if "de" in rules.values() else r == "de")


def to_dict(d):
    return PyDict([[k, to_dict(v) if isinstance(v, dict) else v] for k, v in d.items()])


# ------------------------------------------------------------------ SAMI paragraphs -> languages

FIRST = "the first attribute that names a language decides: lang by its two-letter code, class by what the stylesheet declares"
NONE = "no language without such an attribute"


class Attributes:
    """for attr, value in attrs: if it names a language: return it"""
    name = FIRST

    def entry(self, it, fr):
        pass

    def havoc(self, it, fr, i):
        self.kind = None

    def step(self, it, fr, i):
        it.ctx.decide(FIRST, self.h.kind_of(i) == "other", witness=self.h.kind_of(i), backend="loop rule")

    def frame(self, it, fr):
        return []


KINDS = {"lang": ("lang", None), "LANG": ("LANG", None), "declared": ("class", "enCC"), "plain": ("class", "plain"),
         "undeclared": ("Class", None), "other": ("id", None)}


@contract("C14", "SAMIParser._find_lang", targets=["pycaption.sami.SAMIParser._find_lang"], expects=[FIRST, NONE])
def _(h):
    """any number of attributes"""
    code, rest = h.word("code", L.rx("[a-zA-Z]{2}")), h.word("subtag", L.EPS | L.cat(L.literal("-"), L.TOP))
    declared = h.word("declared", L.TOP)
    styles = {"encc": {"lang": declared, "color": "red"}, "plain": {"color": "red"}}
    p = h.obj(SAMIParser, styles=to_dict(styles) if h.symbolic else styles)
    kind = {}

    def attribute(k):
        n, v = KINDS[k]
        return (n, v or (h.text(code, rest) if n.lower() == "lang" else "enccx" if k == "undeclared" else "x"))
    if not h.symbolic:
        import itertools
        for n in range(4):
            for ks in itertools.product(sorted(KINDS), repeat=n):
                want = next((code if k.lower() == "lang" else declared for k in ks if k.lower() in ("lang", "declared")), None)
                h.prove(FIRST if want is not None else NONE, p._find_lang([attribute(k) for k in ks]) == want)
        return

    def elem(i):
        k = kind[i.sexpr()] = h.pick("attribute", sorted(KINDS))
        return attribute(k)
    n = h.ctx.fresh(z3.IntSort(), "attributes")
    h.ctx.assume(n >= 0)
    spec = Attributes()
    spec.h = type("K", (), {"kind_of": staticmethod(lambda i: {"plain": "other", "undeclared": "other"}.get(kind[z3.simplify(i).sexpr()],
                                                                                                            kind[z3.simplify(i).sexpr()]))})
    h.ctx.loops["attributes"] = spec
    r = h.meth(p, "_find_lang", PyList([Blob("attributes", n, elem, tag="attributes")]))
    if kind:                                    # returned in the middle, at an attribute that no earlier one came before
        (k,) = kind.values()
        h.prove(FIRST, k in ("lang", "LANG") and h.truth(h.eq(r, code)) or k == "declared" and h.truth(h.eq(r, declared)))
    else:
        h.prove(NONE, r is None)


LISTED = "a language is listed once, where it first appears"
CARRIES = "the paragraph carries its language, the default one if it names none, and its other attributes"


@contract("C14", "SAMIParser.handle_starttag", targets=["pycaption.sami.SAMIParser.handle_starttag"], expects=[LISTED, CARRIES],
          bound="a paragraph tag with at most two attributes (any names and values)")
def _(h):
    """languages seen before: any number; two other attributes stand for any others"""
    code = h.word("code", L.rx("[A-Za-z-]+"))
    named = h.pick("names a language", [True, False])
    h.patch("pycaption.sami.SAMIParser._find_lang", lambda *a: code if named else None)
    lang = code if named else DEFAULT_LANGUAGE_CODE
    known = h.bool("known")
    other, value = h.word("attribute", L.rx("[a-km-z]+")), h.word("value", L.star(L.ANY - L.A.chars("&<>\"\t\n\r")))
    attrs = h.pick("attributes", [[], ["lang"], ["other"], ["other", "LANG"], ["lang", "other"]])
    given = [(a, value) if a.lower() == "lang" else (other, value) for a in attrs]
    if h.symbolic:
        n = h.ctx.fresh(z3.IntSort(), "languages")
        h.ctx.assume(n >= 0)
        old = Blob("languages", n, lambda i: Y.rope(Y.Word("language", L.TOP)))
        langs = PyList([old])

        def member(it, c, x):
            if len(c.items) == 1 and c.items[0] is old and h.truth(h.eq(x, lang)):
                return known
            raise Unsupported("membership")
        h.ctx.models["contains"] = member
    else:
        old = ["de"] + ([lang] if known else [])
        langs = list(old)
    before = h.word("parsed so far", L.TOP)
    p = h.obj(SAMIParser, langs=langs, queue=PyList([]) if h.symbolic else [], sami=before, last_element="", styles={})
    h.meth(p, "handle_starttag", "p", PyList([tuple(g) for g in given]) if h.symbolic else list(given))
    got = h.attr(p, "langs")
    if h.symbolic:
        x = got.items
        k = h.truth(known)
        h.prove(LISTED, x[0] is old and (len(x) == 1 if k else len(x) == 2 and h.truth(h.eq(x[1], lang))))
    else:
        h.prove(LISTED, got == old + ([] if known else [lang]))
    text = h.text(*[h.text(" ", n, '="', v, '"') for n, v in given if n is other])
    h.prove(CARRIES, h.eq(h.attr(p, "sami"), h.text(before, "<p", text, ' lang="', lang, '">')))


# ------------------------------------------------------------------ WebVTT lang=

SELECT = "the captions written are those of the language asked for, or of the first language: all of them, in order, and no others"
HEADER = "WEBVTT\n\n"


@contract("C14", "WebVTTWriter.write", targets=["pycaption.webvtt.WebVTTWriter.write"], expects=[SELECT],
          bound="a caption set of three languages, any number of captions each")
def _(h):
    """three languages with any number of captions each"""
    names = ["en-US", "fr", "en"]
    lang = h.pick("lang", [None] + names)
    want = lang or names[0]
    if not h.symbolic:
        for counts in ([1, 2, 1], [2, 1, 3], [0, 1, 1]):
            cs = CaptionSet({n: CaptionList([Caption(k * 10 ** 6, (k + 1) * 10 ** 6, [CaptionNode.create_text("%s %d" % (n, k))]) for k in range(c)])
                             for n, c in zip(names, counts)})
            r = WebVTTWriter().write(cs, lang=lang) if lang else WebVTTWriter().write(cs)
            h.prove(SELECT, [x for x in r.split("\n") if x[-2:-1] == " "] == ["%s %d" % (want, k) for k in range(counts[names.index(want)])])
        return
    blobs = {n: captions(h.ctx, n, tag="captions of " + n) for n in names}
    cs = h.obj(CaptionSet, _styles=PyDict(), layout_info=None,
               _captions=PyDict([[n, caption_list([blobs[n]])] for n in names]))
    done = []

    def convert(it, self, captions, caption):
        for n in names:
            for i, c in blobs[n].memo.items():
                if h.truth(h.eq(c.attrs["start"], caption.attrs["start"])) is True and c.attrs["start"].t.eq(caption.attrs["start"].t):
                    w = Y.rope(Y.Word("cue", L.TOP))
                    w.parts[0].of = (n, i)
                    return w
        raise Unsupported("a caption of no language")
    h.patch("pycaption.webvtt.WebVTTWriter._convert_caption", convert)

    def join(it, sep, seq):
        b = seq.items
        ok = len(b) == 1 and isinstance(b[0], Blob) and z3.eq(b[0].length, blobs[want].length) and z3.eq(b[0].lo, blobs[want].lo)
        if ok:
            i = h.ctx.fresh(z3.IntSort(), "any")
            h.ctx.assume(z3.And(i >= 0, i < b[0].length))
            x = Y.parts_of(b[0].get(i))
            ok = len(x) == 1 and getattr(x[0], "of", None) == (want, z3.simplify(i).sexpr())
        done.append((sep, ok))
        return Y.rope(Y.Word("cues", L.TOP))
    h.ctx.models["join"] = join
    r = h.meth(h.call(WebVTTWriter), "write", cs, lang) if lang else h.meth(h.call(WebVTTWriter), "write", cs)
    if not done:
        h.prove("a set without captions gives the header alone", h.truth(h.eq(r, HEADER)) is True)
        return
    ps = Y.parts_of(r)
    h.prove(SELECT, len(done) == 1 and done[0][1] and done[0][0] == "\n" and len(ps) == 2 and ps[0] == HEADER and ps[1].name == "cues")


# ------------------------------------------------------------------ whole writers: every language and every caption

for _c, _e in zip(writers.WRITERS, ([writers.PLACED], [], [writers.PRIMARY, writers.START])):
    writers.register(contract, "C14", _c, [writers.ONE, writers.DIVS] + _e)

langs.register(contract, "C14")

langs.register_paragraphs(contract, "C14")
