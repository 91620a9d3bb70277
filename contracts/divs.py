"""C01 DFXPReader._convert_div_to_caption_list: any number of paragraphs.

Loop rule: before an arbitrary paragraph the captions read so far are any number of captions; a paragraph of this div with text gives
exactly one caption, from its begin to its end (or to its begin plus its dur); one without text, or of a div inside this one, gives none.
bs4 is at the contract of its calls: find_all('p') gives every p below, find_parent('div') the closest div around it."""
import z3
from bs4 import BeautifulSoup

from pycaption.base import Caption, CaptionNode
from pycaption.dfxp import DFXPReader

from pyvc import sym as Y
from pyvc.sym import Blob, Elsewhere, Opaque, PyDict, PyList

from .docs import CUES, TIMES, clock
from .langs import holds
from .lib import seq_of
from .reads import read_before

KINDS = ["end", "dur", "blank", "of an inner div"]
SHOWN = {"end": 'end="%s"', "dur": 'dur="%s"'}


class Paragraphs:
    def entry(self, it, fr):
        used = [n for n in self.mutated if n in fr.vars and seq_of(fr.vars[n]) is not None and isinstance(seq_of(fr.vars[n]), PyList)]
        if len(used) != 1 or seq_of(fr.vars[used[0]]).items or any(n in fr.vars for n in self.assigned):
            raise Elsewhere("captions collected in another way")
        self.list = seq_of(fr.vars[used[0]])

    def havoc(self, it, fr, i):
        self.entered.append(1)
        self.before = read_before(it.ctx)
        self.list.items = [self.before]
        if not self.arbitrary:
            self.out.append(self)

    def step(self, it, fr, i):
        h, d = self.h, it.ctx.decide
        kind, a, b = self.read[id(self.loop_blob.get(i))]
        s = self.list.items
        if not s or s[0] is not self.before:
            raise Elsewhere("the captions before are changed")
        new = s[1:]
        if any(x is not None and not (isinstance(x, Y.SObj) and x.cls is Caption) for x in new):
            raise Elsewhere("paragraphs collected first")
        d(CUES, len(new) == (kind in SHOWN), witness="%s: %r" % (kind, new), backend="loop rule")
        if kind in SHOWN and len(new) == 1:
            check(h, new[0], kind, a, b)

    def frame(self, it, fr):
        return [self.list, (self.reader, "nodes")] + self.nodes


def check(h, c, kind, a, b):
    if h.symbolic and (not isinstance(c, Y.SObj) or c.cls is not Caption):
        h.ctx.decide(CUES, False, witness=repr(c), backend="loop rule")
        return
    h.prove(TIMES, h.eq(h.attr(c, "start"), a))
    h.prove(TIMES, h.eq(h.attr(c, "end"), b if kind == "end" else a + b))


def paragraph(h, n, kind):
    """-> (attributes, start, end or duration)"""
    form = h.pick(n + ".stamps", ["whole seconds", "milliseconds"])
    a, A = clock(h, n + ".begin", ".", 2, form == "whole seconds")
    b, B = clock(h, n + ".end", ".", 2, form == "whole seconds")
    return [["begin", a], ["dur" if kind == "dur" else "end", b]], A, B


def div(h):
    r = h.call(DFXPReader)
    if not h.symbolic:
        want, doc = [], []
        for k, kind in enumerate(KINDS):
            at, a, b = paragraph(h, "p", kind)
            p = '<p %s>%s</p>' % (" ".join('%s="%s"' % tuple(x) for x in at), "" if kind == "blank" else "hello")
            doc.append("<div>%s</div>" % p if kind == "of an inner div" else p)
            if kind in SHOWN:
                want.append((kind, a, b))
        soup = BeautifulSoup("<div>%s</div>" % "".join(doc), features="html.parser").div
        for e in [soup] + list(soup.descendants):
            e.layout_info = None
        got = h.items(h.meth(r, "_convert_div_to_caption_list", soup))
        h.prove(CUES, len(got) == len(want))
        for c, w in zip(got, want):
            check(h, c, *w)
        return
    ctx, read, keep, out, nodes, entered = h.ctx, {}, [], [], [], []
    inner = Opaque("inner div", layout_info=None)

    def tag(i):
        kind = KINDS[ctx.choose(len(KINDS), "paragraph")]
        at, a, b = paragraph(h, "p", kind)
        vs = dict(at)

        def item(it, k):
            if k not in vs:
                raise Y.PyRaise(KeyError, (k,))
            return vs[k]
        p = Opaque("p", attrs=PyDict(at), layout_info=None, get=lambda it, me, k, d=None: vs.get(k, d), __getitem__=item,
                   find_parent=lambda it, me, n=None, *x: inner if kind == "of an inner div" else around, get_text=lambda it, me, *x, **k: " \n" if kind == "blank" else "hello",
                   text=" \n" if kind == "blank" else "hello")
        read[id(p)] = kind, a, b
        keep.append(p)
        return p
    n = ctx.fresh(z3.IntSort(), "paragraphs")
    ctx.assume(n >= 0)
    blob = Blob("paragraphs", n, tag, tag="paragraphs")

    def find_all(it, me, what=None, *a, **k):
        if what != "p" or a or k:
            raise Elsewhere("paragraphs found in another way")
        return PyList([blob])
    around = Opaque("div", attrs=PyDict([]), layout_info=None, find_all=find_all)

    def content(it, me, p):
        s = me.attrs["nodes"]
        nodes.append(s)
        s.items.append(h.call(CaptionNode.create_text, "hello"))
    h.patch("pycaption.dfxp.base.DFXPReader._convert_tag_to_node", content)
    h.patch("pycaption.dfxp.base.DFXPReader._convert_style", lambda it, me, p: PyDict([]))
    ctx.loops["paragraphs"] = type("Spec", (Paragraphs,), {"h": h, "read": read, "out": out, "reader": r, "nodes": nodes, "entered": entered})
    got = h.meth(r, "_convert_div_to_caption_list", around)
    if not out:
        if entered:
            ctx.decide(CUES, False, witness="reading ends before the div does", backend="loop rule")
            return
        raise Elsewhere("paragraphs read in another way")
    ctx.decide(CUES, holds(ctx, got, [out[0].before]), witness=repr(got), backend="loop rule")


def register(contract):
    q = "pycaption.dfxp.base.DFXPReader."
    contract("C01", "DFXPReader._convert_div_to_caption_list: any number of paragraphs",
             targets=[q + "_convert_div_to_caption_list", q + "_convert_p_tag_to_caption", q + "_find_and_convert_times"],
             expects=[CUES, TIMES], timeout=300)(div)
