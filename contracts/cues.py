"""Any number of cues: SRTWriter._recreate_lang and MicroDVDWriter._recreate_lang.

Loop rule of the loop that prints: whatever has been printed before, an iteration appends exactly one cue of the format, that of the
caption it is at, and the text it appends ends where a cue ends; so the document is the cues of the captions, in order.
Loop rule of the loop that merges (SRT): at caption i the list ends with the cue that carries the time of caption i-1; caption i
joins it (nodes in order, a break between) exactly when start and end are both equal, and is the next cue otherwise."""
import z3

from pycaption.base import Caption, CaptionNode
from pycaption.microdvd import MicroDVDWriter
from pycaption.srt import SRTWriter

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.sym import Blob, Elsewhere, PyDict, PyList, SObj

from . import docs, spec
from .docs import INSTANT, ONE, PATTERNS, SAID, SOLID
from .lib import accumulators, caption_list, seq_of

MERGED = "cues are merged exactly when start and end are both equal, text in order"
DAY = 24 * 3600 * 10 ** 6


def caption(h, shape, line, name):
    """(the caption, what a parser has to find)"""
    ctx = h.ctx
    a, b = h.int("start " + name, 0, DAY - 1), h.int("end " + name, 0, DAY - 1)
    h.assume(a <= b)
    nodes, ws = [], []
    for j, x in enumerate(shape):
        if x == "B":
            nodes.append(node(CaptionNode.BREAK, None))
        elif x in "se":
            nodes.append(node(CaptionNode.STYLE, PyDict([["italics", True]]), x == "s"))
        else:
            w = Y.rope(Y.Word("text %s.%d" % (name, j), line)) if x == "T" else Y.rope(Y.Word("blank", L.rx("[ \\t]*"))) if x == "E" else ""
            nodes.append(node(CaptionNode.TEXT, w))
            if x == "T":
                ws.append(w)
    c = SObj(Caption, {"start": a, "end": b, "nodes": PyList(nodes), "style": PyDict(), "layout_info": None})
    return c, (a, b, ws)


def node(t, content, start=None):
    return SObj(CaptionNode, {"type_": t, "content": content, "start": start, "position": None, "layout_info": None})


def spans_equal(a, b):
    return Y.and_(Y.num_eq(a.attrs["start"], b.attrs["start"]), Y.num_eq(a.attrs["end"], b.attrs["end"]))


class Merge:
    """over the captions from the second one on"""

    def entry(self, it, fr):
        lo = z3.simplify(self.loop_blob.lo)
        self.whole = z3.eq(lo, z3.IntVal(0))          # from the first caption on, into an empty list
        want = [] if self.whole else [self.loop_blob.get(self.first)]
        ls = [s for _, s in accumulators(fr) if len(s.items) == len(want) and all(x is y for x, y in zip(s.items, want))]
        if len(ls) != 1 or not self.whole and not z3.eq(lo, z3.IntVal(1)):
            raise Elsewhere("another way to merge captions")
        self.list = ls[0]

    def havoc(self, it, fr, i):
        ctx, b = it.ctx, self.loop_blob
        if i is b.length:
            m = ctx.fresh(z3.IntSort(), "cues.len")
            ctx.assume(m >= (0 if self.whole else 1))
            self.list.items = [Blob("cues", m, self.cue, tag="cues")]
            return
        opening = ctx.branch(i == b.lo)
        if opening and self.whole:
            self.before, self.list.items, self.was, self.last_nodes = None, [], [], []
            return
        self.before = b.get(i - 1)
        if opening:
            self.list.items = [self.before]
        else:
            m = ctx.fresh(z3.IntSort(), "cues.len")
            ctx.assume(m >= 0)
            k = ctx.fresh(z3.IntSort(), "nodes.len")
            ctx.assume(k >= 1)
            last = SObj(Caption, {"start": self.before.attrs["start"], "end": self.before.attrs["end"], "style": PyDict(), "layout_info": None,
                                  "nodes": PyList([Blob("nodes before", k, lambda j: node(CaptionNode.BREAK, None), tag="nodes before")])})
            self.list.items = [Blob("cues", m, self.cue, tag="cues"), last]
        self.was = list(self.list.items)
        self.last_nodes = list(self.was[-1].attrs["nodes"].items)

    def step(self, it, fr, i):
        ctx, c, was, got = it.ctx, self.loop_blob.get(i), self.was, list(self.list.items)
        if not was:
            ctx.decide(MERGED, len(got) == 1 and got[0] is c, witness=repr(got), backend="loop rule")
            return
        last = was[-1]
        if len(got) == len(was) + 1 and all(x is y for x, y in zip(got, was + [c])):
            ctx.prove(MERGED, Y.not_(spans_equal(last, c)))
        elif len(got) == len(was) and all(x is y for x, y in zip(got, was[:-1])) and isinstance(got[-1], SObj) and got[-1].cls is Caption:
            ctx.prove(MERGED, Y.and_(spans_equal(last, c), spans_equal(got[-1], c)))
            ns = got[-1].attrs["nodes"].items
            n, k = len(self.last_nodes), len(c.attrs["nodes"].items)
            ok = len(ns) == n + 1 + k and all(x is y for x, y in zip(ns, self.last_nodes)) and all(
                x is y for x, y in zip(ns[n + 1:], c.attrs["nodes"].items)) and isinstance(ns[n], SObj) and ns[n].attrs["type_"] == CaptionNode.BREAK
            ctx.decide(MERGED, ok, witness=repr(ns), backend="loop rule")
        else:
            ctx.decide(MERGED, False, witness=repr((was, got)), backend="loop rule")

    def frame(self, it, fr):
        return [self.list] + ([(self.was[-1], "nodes"), self.was[-1].attrs["nodes"]] if self.was else [])


class Print:
    """the loop that prints; h, judge and the ending of a cue are given by the contract"""

    def entry(self, it, fr):
        self.texts = [n for n, v in fr.vars.items() if isinstance(v, str) and v == "" and n in self.assigned]
        self.counts = {n: v for n, v in fr.vars.items() if isinstance(v, int) and not isinstance(v, bool) and n in self.assigned}
        if len(self.texts) != 1 or len([n for n in self.assigned if n in fr.vars]) != 1 + len(self.counts):
            raise Elsewhere("another way to print the cues")

    def havoc(self, it, fr, i):
        ctx, b = it.ctx, self.loop_blob
        for n, v in self.counts.items():
            fr.vars[n] = Y.mk(i - b.lo + v, "int")
        t = self.texts[0]
        if i is b.length:
            self.done.append(self)
            if ctx.branch(b.length <= b.lo):
                fr.vars[t] = ""
            else:
                fr.vars[t] = Y.rope(Y.Word("the cues", L.TOP), self.ending)
            return
        if ctx.branch(i == b.lo):
            fr.vars[t] = ""
            self.prior = []
        else:
            fr.vars[t] = Y.rope(Y.Word("cues before", L.TOP), self.ending)
            self.prior = Y.parts_of(fr.vars[t])

    def step(self, it, fr, i):
        ctx, b = it.ctx, self.loop_blob
        for n, v in self.counts.items():
            if not ctx.known(Y.bterm(Y.num_eq(fr.vars[n], Y.mk(i - b.lo + v + 1, "int")))):
                raise Elsewhere("a count that does not count the cues")
        ps = list(Y.parts_of(fr.vars[self.texts[0]]))
        if self.prior:
            w, e = self.prior
            if not ps or ps[0] is not w or len(ps) < 2 or not isinstance(ps[1], str) or not ps[1].startswith(e):
                raise Elsewhere("the cues before are changed")
            ps = [ps[1][len(e):]] + ps[2:]
        if not ps or not isinstance(ps[-1], str) or not ps[-1].endswith(self.ending):
            raise Elsewhere("another way to end a cue")
        self.judge(Y.rope(*ps), Y.mk(i - b.lo + 1, "int"), self.wants[id(b.get(i))])

    def frame(self, it, fr):
        return []


def register(contract, prop, cls, names, merge=()):
    q = "%s.%s." % (cls.__module__, cls.__name__)
    srt = cls is SRTWriter
    shapes = {k: v for k, v in PATTERNS.items()}

    def judge_srt(h):
        def judge(text, number, want):
            cues = []
            for b in h.items(h.call(spec.blocks, text, True)):
                b = h.items(b)
                h.prove(ONE, len(b) >= 2)
                h.prove(ONE, h.eq(h.call(int, b[0]), number))
                cues.append(docs.stamps(h, b[1], ",") + [docs.spoken(h, b[2:], False)])
            docs.judge(h, cues, [want])
        return judge

    def judge_microdvd(h):
        def judge(text, number, want):
            cues = []
            for line in h.items(h.meth(text, "split", "\n")):
                if h.decided(h.truth(h.eq(line, ""))) is True:
                    continue
                a, b, ls = h.items(h.call(spec.pipes, line))
                cues.append([(h.call(int, a),), (h.call(int, b),), docs.spoken(h, h.items(ls), False)])
            docs.judge(h, cues, [want])
        return judge

    @contract(prop, cls.__name__ + "._recreate_lang: any number of cues", targets=[q + "_recreate_lang"], expects=list(names) + list(merge),
              timeout=300, only=True, bound="captions of %d shapes of nodes; any number of captions, all instants, all lines" % len(PATTERNS))
    def _(h):
        """one language with any number of captions"""
        ctx = h.ctx
        shape = h.pick("nodes of the cue", [tuple(v) for v in shapes.values()])
        line = SOLID if srt else SOLID - L.containing("|")
        wants, made = {}, []

        def cue(i):
            c, w = caption(h, shape, line, str(len(made)))
            made.append(c)
            wants[id(c)] = w
            return c
        n = ctx.fresh(z3.IntSort(), "captions.len")
        ctx.assume(n >= 0)
        blob = Blob("captions", n, cue, tag="captions")
        done = []

        def spec_of(k, **kw):
            class Spec(k):
                pass
            for a, v in kw.items():
                setattr(Spec, a, staticmethod(v) if callable(v) else v)
            return Spec
        printing = spec_of(Print, judge=(judge_srt if srt else judge_microdvd)(h), ending="\n\n" if srt else "\n", wants=wants, done=done)
        ctx.loops["captions"] = spec_of(Merge, first=z3.IntVal(0), cue=cue) if srt else printing
        ctx.loops["cues"] = printing
        w = h.call(cls)
        r = h.meth(w, "_recreate_lang", caption_list([blob]))
        ps = [p for p in Y.parts_of(r)]
        if len(done) != 1:
            if srt and not done:
                # one caption or none: no loop
                return
            raise Elsewhere("printed in %d loops" % len(done))
        ok = len(ps) == 0 or len(ps) == 1 and ps[0] == "" or len(ps) == 2 and getattr(ps[0], "name", "") == "the cues" and str(ps[1]).strip() == ""
        ctx.decide(ONE, ok, witness=repr(r), backend="loop rule")
    return _
