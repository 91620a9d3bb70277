"""C01 SAMIReader._translate_lang: any number of paragraphs of a language.

Loop rule: before an arbitrary paragraph the captions read so far are any number of captions that have their end, then any number that
start at the last SYNC and have none yet.  The paragraph's SYNC is not earlier than the last one; if it is later it ends the open
captions, and a paragraph with text adds one open caption.  At the end the open captions last four seconds from the last SYNC.
A reader that keeps another state is not decided."""
import z3

from pycaption.base import Caption, CaptionNode
from pycaption.sami import SAMIReader

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.sym import Blob, Elsewhere, Opaque, PyDict, PyList, SObj

from . import langs
from .docs import number
from .lib import num, seq_of


def caption(ctx, start, end):
    return SObj(Caption, {"start": start, "end": end, "nodes": None, "style": None, "layout_info": None})


def closed_caption(ctx):
    e = num(ctx, "end before")
    ctx.assume(Y.bterm(e > 0))
    return caption(ctx, num(ctx, "start before"), e)


class State:
    """closed: captions with an end; start: the start all open captions have; n: how many are open"""

    def __init__(self, h, names):
        self.h, (self.CUES, self.BEGIN, self.END) = h, names
        self.list = None

    def closed(self, n, tag="closed"):
        return Blob(tag, n, lambda j: closed_caption(self.h.ctx), tag=tag)

    def opened(self, n, start, end, tag="open"):
        return Blob(tag, n, lambda j: caption(self.h.ctx, start, end), tag=tag)


class Paragraph:
    """the loop over the paragraphs"""

    def entry(self, it, fr):
        v, st = fr.vars, self.st
        used = [n for n in self.mutated if n in v and isinstance(seq_of(v[n]), PyList)]
        if len(used) != 1 or seq_of(v[used[0]]).items:
            raise Elsewhere("captions collected in another way")
        if "<acc>" in used:
            raise Elsewhere("paragraphs collected first")
        last = [n for n in self.assigned if n in v]
        if len(last) != 1 or v[last[0]] != 0:
            raise Elsewhere("a reader with another state")
        st.list, self.last, st.captions = seq_of(v[used[0]]), last[0], v[used[0]]

    def havoc(self, it, fr, i):
        ctx, st = it.ctx, self.st
        c, n, m = (ctx.fresh(z3.IntSort(), k) for k in ("closed captions", "open captions", "last SYNC"))
        ctx.assume(z3.And(c >= 0, n >= 0, m >= 0))
        st.c, st.n, st.m = c, n, m
        st.last = Y.mk(m, "int")
        if self.arbitrary:
            first = ctx.branch(i == 0)
            if first:
                ctx.assume(z3.And(c == 0, n == 0, m == 0))
        else:
            ctx.assume(z3.Implies(self.loop_blob.length == 0, z3.And(c == 0, n == 0)))
        fr.vars[self.last] = st.last
        st.before = [st.closed(c), st.opened(n, st.last * 1000, 0)]
        st.list.items = list(st.before)
        st.inner = None
        st.phase = "paragraph" if self.arbitrary else "end"
        if self.arbitrary:
            p = self.loop_blob.get(i)
            st.start = st.starts[id(p)]
            ctx.assume(Y.bterm(st.start >= st.last))
            st.later = bool(ctx.branch(Y.bterm(st.start > st.last)))

    def step(self, it, fr, i):
        ctx, st, h = it.ctx, self.st, self.st.h
        p = self.loop_blob.get(i)
        if not ctx.known(Y.bterm(fr.vars[self.last] == st.start)):
            raise Elsewhere("a reader with another state")
        want = st.before if st.inner is None else st.inner.items
        got, n = list(st.list.items), len(want)
        if len(got) < n or any(x is not y for x, y in zip(got, want)) or any(not isinstance(x, SObj) or x.cls is not Caption for x in got[n:]):
            raise Elsewhere("captions collected in another way")
        if st.inner is None:
            ctx.prove(st.END, Y.bterm(Y.or_(not st.later, Y.mk(st.n, "int") == 0)))
        elif not st.inner.open:
            ctx.prove(st.END, h.eq(st.inner.x.attrs["end"], st.inner.end))
        elif st.inner.arbitrary:
            # the loop was left at an open caption: right only if nothing was left to end
            ctx.prove(st.END, Y.and_(h.eq(st.inner.x.attrs["end"], st.start * 1000 if st.later else 0), not st.later or Y.mk(st.inner.left, "int") == 0))
        new = got[n:]
        ctx.decide(st.CUES, len(new) == (1 if st.text[id(p)] else 0), witness=repr(new), backend="loop rule")
        for c in new:
            ctx.prove(st.BEGIN, h.eq(c.attrs["start"], st.start * 1000))
            ctx.prove(st.END, h.eq(c.attrs["end"], 0))

    def frame(self, it, fr):
        return [self.st.list, self.st.captions, (self.st.reader, "line"), (self.st.reader, "first_alignment")]


class Close:
    """the loop that ends the open captions, from the last one back: what it has passed is as it has to be"""

    def entry(self, it, fr):
        st = self.st
        if st.list is None or st.phase != "paragraph" or st.inner is not None or len(st.list.items) != 2 or any(x is not y for x, y in zip(st.list.items, st.before)):
            raise Elsewhere("open captions ended in another way")
        if "<acc>" in fr.vars or any(n in fr.vars for n in self.assigned):
            raise Elsewhere("open captions ended with more state")
        if not it.ctx.known(z3.And(self.loop_blob.lo == 0, self.loop_blob.length == st.c + st.n)):
            raise Elsewhere("open captions ended in another way")

    def done(self, n):
        st = self.st
        return st.opened(n, st.last * 1000, st.start * 1000 if st.later else 0, "passed")

    def havoc(self, it, fr, i):
        ctx, st = it.ctx, self.st
        st.inner, self.x, self.open = self, None, True
        if not self.arbitrary:
            # every caption was passed: none had an end
            ctx.assume(st.c == 0)
            self.items = st.list.items = [self.done(st.n)]
            self.items = list(self.items)
            return
        self.open = bool(ctx.branch(i < st.n))
        if self.open:
            self.x, self.left = caption(ctx, st.last * 1000, 0), z3.simplify(st.n - 1 - i)
            st.list.items = [st.closed(st.c), st.opened(z3.simplify(st.n - 1 - i), st.last * 1000, 0), self.x, self.done(i)]
        else:
            ctx.assume(i == st.n)
            self.x = closed_caption(ctx)
            self.end = self.x.attrs["end"]
            st.list.items = [st.closed(z3.simplify(st.c - 1)), self.x, self.done(st.n)]
        self.items = list(st.list.items)

    def step(self, it, fr, i):
        ctx, st, h = it.ctx, self.st, self.st.h
        if not self.open:
            ctx.prove(st.END, h.eq(self.x.attrs["end"], self.end))
            raise Elsewhere("captions that have their end are passed")
        ctx.prove(st.END, h.eq(self.x.attrs["end"], st.start * 1000 if st.later else 0))
        ctx.prove(st.BEGIN, h.eq(self.x.attrs["start"], st.last * 1000))

    def frame(self, it, fr):
        return [(self.x, "end")]


class Tail:
    """the loop that gives the open captions four seconds"""
    which = None

    def entry(self, it, fr):
        if self.st.phase != "end" or "<acc>" in fr.vars:
            raise Elsewhere("captions looked at in another way")

    def havoc(self, it, fr, i):
        if not self.arbitrary:
            self.st.tails.append(self.which)

    def step(self, it, fr, i):
        ctx, st, h = it.ctx, self.st, self.st.h
        x = self.loop_blob.get(i)
        if self.which == "closed":
            return
        ctx.prove(st.BEGIN, h.eq(x.attrs["start"], st.last * 1000))
        ctx.prove(st.END, h.eq(x.attrs["end"], (st.last + 4000) * 1000))

    def frame(self, it, fr):
        return []


def lang(h, names):
    r = h.call(SAMIReader)
    if not h.symbolic:
        concrete(h, r, names)
        return
    ctx, keep = h.ctx, []
    st = State(h, names)
    st.starts, st.text, st.reader, st.tails = {}, {}, r, []

    def paragraph(i):
        w, n = number(h, "start", 1, None)
        text = ctx.choose(2, "text") == 0
        p = Opaque("p", parent=Opaque("sync", get=lambda it, me, k, d=None: w if k == "start" else d), attrs=PyDict([["lang", "en"]]),
                   get=lambda it, me, k, d=None: "en" if k == "lang" else d, get_text=lambda it, me: "hello" if text else " \u00a0\n")
        st.starts[id(p)], st.text[id(p)] = n, text
        keep.append(p)
        return p
    n = ctx.fresh(z3.IntSort(), "paragraphs")
    ctx.assume(n >= 0)
    blob = Blob("paragraphs", n, paragraph, tag="paragraphs")
    asked = []

    def find_all(it, me, what=None, *a, **k):
        f = dict(k.pop("attrs", PyDict()).pairs) if "attrs" in k else {}
        f.update(k)
        if what != "p" or a or set(f) != {"lang"} or langs.attribute(it, f, "en") is not True:
            raise Elsewhere("paragraphs found in another way")
        asked.append(1)
        return PyList([blob])
    soup = Opaque("soup", find_all=find_all)
    h.patch("pycaption.sami.SAMIReader._translate_tag",
            lambda it, me, p, layout=None: me.attrs["line"].items.append(h.call(CaptionNode.create_text, "hello")))
    ctx.loops["paragraphs"] = type("Spec", (Paragraph,), {"st": st})
    ctx.loops["reversed range"] = type("Spec", (Close,), {"st": st})
    for k in ("closed", "open"):
        ctx.loops[k] = type("Spec", (Tail,), {"st": st, "which": k})
    got = h.meth(r, "_translate_lang", "en", soup, None)
    if st.list is None or st.phase != "end":
        if st.list is not None:
            ctx.decide(st.CUES, False, witness="reading ends before the document does", backend="loop rule")
            return
        raise Elsewhere("paragraphs read in another way")
    items = seq_of(got)
    ctx.decide(st.CUES, items is not None and len(items.items) == 2 and all(x is y for x, y in zip(items.items, st.before)), witness=repr(got),
               backend="loop rule")
    if "open" not in st.tails:
        ctx.prove(st.END, st.n == 0)


DOCS = [[(0, 1)], [(0, 1), (0, 1), (5, 1)], [(1, 1), (5, 0), (9, 1), (9, 1)], [(1, 0), (2, 1), (2, 0), (2, 1), (2, 1), (7, 1), (7, 0), (8, 0)],
        [(3, 1)] * 6 + [(4, 1)] * 5 + [(9, 1)]]


def concrete(h, r, names):
    from bs4 import BeautifulSoup
    cues, begin, end = names
    for d in DOCS:
        soup = BeautifulSoup("<sami><body>%s</body></sami>" % "".join(
            '<sync start="%d"><p lang="en">%s</p></sync>' % (s, "hello" if t else " \u00a0\n") for s, t in d), features="lxml")
        got = h.items(h.meth(r, "_translate_lang", "en", soup, None))
        want = [(s, min([x for x, _ in d if x > s], default=d[-1][0] + 4000)) for s, t in d if t]
        h.prove(cues, len(got) == len(want))
        for c, (a, b) in zip(got, want):
            h.prove(begin, h.attr(c, "start") == a * 1000)
            h.prove(end, h.attr(c, "end") == b * 1000)


def register(contract, names):
    contract("C01", "SAMIReader._translate_lang: any number of paragraphs", targets=["pycaption.sami.SAMIReader._translate_lang"],
             expects=list(names), timeout=300)(lambda h: lang(h, names))
