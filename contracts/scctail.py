"""The end of SCCReader.read: any number of captions stored.

C15: every stored caption's lines are looked at; C06: a caption shown for less than 0.05 s is refused, no other is."""
import z3

from pycaption.base import Caption, CaptionList, CaptionNode
from pycaption.exceptions import CaptionLineLengthError, CaptionReadNoCaptions, CaptionReadTimingError
from pycaption.scc import SCCReader
from pycaption.scc.specialized_collections import CaptionCreator, PreCaption

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.sym import Blob, Elsewhere, PyDict, PyList, SObj

from .lib import caption_list, num, seq_of

LINE = L.rx("[ -~]+")
SHORT, LONG = L.rep(L.ANY, 0, 32), L.TOP - L.rep(L.ANY, 0, 32)
HEADER = "Scenarist_SCC V1.0\n"
BRIEF = "a caption shown for less than 0.05 s raises the timing error, wherever it stands"
OTHERS = "no other caption raises it"
NOTED = "the lines of every caption that are longer than 32 characters are noted, and no others"
RAISES = "a line of more than 32 characters anywhere raises the line-length error"
NAMES = "the error names every offending line"
QUIET = "without such a line the captions are returned"


class Stored:
    """for caption in the stored captions: note its long lines under its start"""

    def __init__(self, h, stock):
        self.h, self.stock = h, stock

    def entry(self, it, fr):
        used = [v for n, v in fr.vars.items() if n in self.mutated and type(v) is PyDict and v.default_factory is list and not v.pairs]
        if len(used) != 1 or any(n in fr.vars for n in self.assigned):
            raise Elsewhere("long lines are collected in another way")
        self.d = used[0]

    def havoc(self, it, fr, i):
        self.end = i is self.loop_blob.length
        pairs = self.stock(it, None if self.end else self.loop_blob.get(i))
        self.d.pairs = [[k, PyList(list(v))] for k, v in pairs]
        self.before = [(k, list(v)) for k, v in pairs]
        self.lists = [p[1] for p in self.d.pairs]

    def step(self, it, fr, i):
        new, old = [], []
        for n, (k, v) in enumerate(self.d.pairs):
            was = self.before[n][1] if n < len(self.before) else []
            if len(v.items) < len(was) or any(a is not b for a, b in zip(v.items, was)):
                raise Elsewhere("long lines are collected in another way")
            new += v.items[len(was):]
        want = self.loop_blob.get(i).ghost["long"]
        left = list(new)
        ok = len(new) == len(want)
        for w in want:
            m = [x for x in left if Y.parts_of(x)[0] is Y.parts_of(w)[0] and len(Y.parts_of(x)) == 1]
            ok = ok and bool(m)
            if m:
                left.remove(m[0])
        it.ctx.decide(NOTED, ok, witness=repr((new, want)), backend="loop rule")

    def frame(self, it, fr):
        return [self.d] + self.lists


class Shown:
    """for cap in captions: refuse the brief ones"""

    def __init__(self):
        self.kind = None

    def entry(self, it, fr):
        if any(n in fr.vars for n in self.assigned - {"caption", "line", "cap"}):
            raise Elsewhere("a check with more state")

    def havoc(self, it, fr, i):
        self.kind = None
        if i is not self.loop_blob.length:
            self.kind = self.loop_blob.get(i).ghost["kind"]

    def step(self, it, fr, i):
        it.ctx.decide(BRIEF, self.kind != "brief", witness=self.kind, backend="loop rule")

    def frame(self, it, fr):
        return []


def precaption(h, kind, shapes):
    c = SObj(PreCaption, {"start": num(h.ctx, "start", "float", 0), "end": 0, "style": PyDict(), "layout_info": None})
    if kind != "open":
        c.attrs["end"] = num(h.ctx, "end", "float", 0)
        d = c.attrs["end"].t - c.attrs["start"].t
        h.ctx.assume(z3.And(d > 0, d < 50000) if kind == "brief" else d >= 50000)
    c.ghost["kind"] = kind
    c.ghost["long"], nodes = [], []
    for n, k in enumerate(shapes):
        w = h.word("line", LINE & (SHORT if k == "short" else LONG))
        if n:
            nodes.append(h.call(CaptionNode.create_break))
        nodes.append(h.call(CaptionNode.create_text, w))
        if k == "long":
            c.ghost["long"].append(w)
    c.attrs["nodes"] = PyList(nodes)
    return c


def tail(h, kinds, shapes, stock):
    """read, with any number of captions stored -> (outcome, spec of the second loop)"""
    ctx = h.ctx
    n = ctx.fresh(z3.IntSort(), "captions")
    ctx.assume(n >= 1)
    b = Blob("stored", n, lambda i: precaption(h, kinds[ctx.choose(len(kinds), "caption")], shapes[ctx.choose(len(shapes), "lines")]), tag="stored")
    real = Blob("captions", n, lambda i: b.get(i), tag="captions")
    given = {}

    def fill(it, me, line):
        me.attrs["caption_stash"].attrs["_collection"].data.items[:] = [b]

    def get_all(it, me):
        given["list"] = caption_list([real])
        return given["list"]
    h.patch("pycaption.scc.SCCReader._translate_line", fill)
    h.patch("pycaption.scc.specialized_collections.CaptionCreator.get_all", get_all)

    def to_real(it, me):
        r = SObj(Caption, {k: me.attrs[k] for k in ("start", "end", "nodes", "style", "layout_info")})
        r.ghost.update(me.ghost)
        return r
    h.patch("pycaption.scc.specialized_collections.PreCaption.to_real_caption", to_real)
    real.elem = lambda i: to_real(None, b.get(i))
    h.patch("pycaption.scc.fix_last_captions_without_ending", lambda it, xs: given.setdefault("fixed", xs))
    ctx.loops["stored"] = Stored(h, stock)
    shown = ctx.loops["captions"] = Shown()
    out = h.raises(lambda: h.call(SCCReader.read, h.call(SCCReader), HEADER + "00:00:01:00\t9420"))
    return out, shown, given


def timing(h):
    kind = h.pick("caption", ["brief", "long", "open"])
    if not h.symbolic:
        for n in range(3):
            for at in range(n + 1):
                cs = [PreCaption(1000000 * k, 1000000 * k + 900000) for k in range(n + 1)]
                cs[at].end = {"brief": cs[at].start + 33366.6, "long": cs[at].start + 50050, "open": 0}[kind]
                for c in cs:
                    c.nodes = [CaptionNode.create_text("x")]
                h.patch("pycaption.scc.SCCReader._translate_line", lambda me, line, cs=cs: list.extend(me.caption_stash._collection, cs))
                cls, got, e = h.raises(lambda: SCCReader().read(HEADER + "00:00:01:00\t9420"))
                h.prove(BRIEF if kind == "brief" else OTHERS, (cls is CaptionReadTimingError) == (kind == "brief"))
        return
    (cls, got, e), shown, given = tail(h, [kind], [("short",)], lambda it, x: [])
    if shown.kind is not None:
        h.prove(OTHERS if kind != "brief" else BRIEF, cls is CaptionReadTimingError and shown.kind == "brief")
    else:
        h.prove(OTHERS, cls is None and given.get("fixed") is given["list"] and h.attr(got, "_captions").pairs[0][1] is given["list"])


def noted(h):
    shape = h.pick("lines", [("short",), ("long",), ("short", "long"), ("long", "short"), ("long", "long")])
    if not h.symbolic:
        for at in range(3):
            cs = [PreCaption(1000000 * k, 1000000 * k + 900000) for k in range(3)]
            for c in cs:
                c.nodes = [CaptionNode.create_text("x")]
            cs[at].nodes = []
            for n, k in enumerate(shape):
                cs[at].nodes += ([CaptionNode.create_break()] if n else []) + [CaptionNode.create_text(("x" if k == "short" else "x" * 33) + str(n))]
            h.patch("pycaption.scc.SCCReader._translate_line", lambda me, line: list.extend(me.caption_stash._collection, cs))
            cls, got, e = h.raises(lambda: SCCReader().read(HEADER + "00:00:01:00\t9420"))
            h.prove(NOTED, (cls is CaptionLineLengthError) == ("long" in shape))
            if cls is not None:
                for n, k in enumerate(shape):
                    h.prove(NOTED, (("x" * 33 + str(n)) in e.args[0]) == (k == "long"))
        return

    def stock(it, x):
        ctx = it.ctx
        if x is None:
            raise Y.PathEnd("what is done with the lines noted: another contract")
        here = h.meth(h.meth(x, "to_real_caption"), "format_start")
        old = [h.word("long line before", LINE & LONG)]
        return [[], [(here, [])], [(here, old)], [("99:00:00,000", old)]][ctx.choose(4, "lines noted before")]
    tail(h, ["long"], [shape], stock)


NOTES = [[], [[]], [["a"]], [["a", "b"]], [["a"], ["b"]], [[], ["a"]], [["a"], []]]


def told(h):
    """after the captions have been looked at"""
    notes = h.pick("lines noted", NOTES)
    words = {n: h.word(n, LINE & LONG) for n in ("a", "b")}
    if not h.symbolic:
        cs = []
        for k, ns in enumerate(notes):
            c = PreCaption(1000000 * k, 1000000 * k + 900000)
            for w in ns or ["x"]:
                c.nodes += ([CaptionNode.create_break()] if c.nodes else []) + [CaptionNode.create_text(words.get(w, w))]
            cs.append(c)
        if not cs:
            return
        h.patch("pycaption.scc.SCCReader._translate_line", lambda me, line: list.extend(me.caption_stash._collection, cs))
        cls, got, e = h.raises(lambda: SCCReader().read(HEADER + "00:00:01:00\t9420"))
    else:
        def stock(it, x):
            if x is not None:
                raise Y.PathEnd("another contract")
            return [("00:00:0%d,000" % k, [words[n] for n in ns]) for k, ns in enumerate(notes)]
        (cls, got, e), shown, given = tail(h, ["long"], [("short",)], stock)
    if any(notes):
        h.prove(RAISES, cls is CaptionLineLengthError)
        if cls is CaptionLineLengthError:
            msg = (e.eargs if h.symbolic else e.args)[0]
            for ns in notes:
                for n in ns:
                    h.prove(NAMES, h.contains(msg, words[n]))
    else:
        h.prove(QUIET, cls is None)


GIVEN = "every stored caption is returned, in order, with its times, text and layout, and no other"


def faithful(h, got, x):
    return isinstance(got, SObj) and got.cls is Caption and all(
        h.truth(h.eq(got.attrs[k], x.attrs[k])) is True for k in ("start", "end")) and got.attrs["layout_info"] is x.attrs["layout_info"] and \
        seq_of(got.attrs["nodes"]) is not None and seq_of(got.attrs["nodes"]).items == x.attrs["nodes"].items


class Copied:
    acc = None

    def entry(self, it, fr):
        self.accs = [(k, v) for k, v in fr.vars.items() if k in self.mutated and seq_of(v) is not None and not seq_of(v).items]
        if len(self.accs) != 1 or any(n in fr.vars for n in self.assigned):
            raise Elsewhere("captions are collected in another way")
        self.acc = seq_of(self.accs[0][1])

    def havoc(self, it, fr, i):
        self.prefix = Blob("returned", i, lambda j: None, tag="returned")
        self.acc.items = [self.prefix]
        self.end = i is self.loop_blob.length

    def step(self, it, fr, i):
        x, got = self.loop_blob.get(i), self.acc.items
        ok = len(got) == 2 and got[0] is self.prefix and faithful(self.h, got[1], x)
        it.ctx.decide(GIVEN, ok, witness=repr(got), backend="loop rule")

    def frame(self, it, fr):
        return [self.acc]


def returned(h):
    if not h.symbolic:
        cs = [PreCaption(1000000 * k, 1000000 * k + 900000) for k in range(4)]
        for k, c in enumerate(cs):
            c.nodes = [CaptionNode.create_text(str(k))]
        s = CaptionCreator()
        list.extend(s._collection, cs)
        h.prove(GIVEN, [(c.start, c.end, c.get_text()) for c in s.get_all()] == [(c.start, c.end, str(k)) for k, c in enumerate(cs)])
        return
    ctx = h.ctx
    n = ctx.fresh(z3.IntSort(), "captions")
    ctx.assume(n >= 0)
    b = Blob("stored", n, lambda i: precaption(h, "long", ("short",)), tag="stored")
    s = h.call(CaptionCreator)
    s.attrs["_collection"].data.items[:] = [b]
    lp = ctx.loops["stored"] = Copied()
    lp.h = h
    got = h.meth(s, "get_all")
    xs = seq_of(got)
    if not isinstance(got, SObj) or got.cls is not CaptionList or xs is None:
        raise Elsewhere("captions returned in another way")
    if lp.acc is not None and len(xs.items) == 1 and xs.items[0] is lp.prefix:
        return h.prove(GIVEN, lp.end)
    full = [x for x in xs.items if not (isinstance(x, Blob) and ctx.known(x.length == x.lo))]
    if not full:
        return h.prove(GIVEN, ctx.known(n == 0))
    if len(full) != 1 or not isinstance(full[0], Blob):
        raise Elsewhere("captions returned in another way")
    h.prove(GIVEN, z3.And(full[0].length == n, full[0].lo == 0))
    i = ctx.fresh(z3.IntSort(), "any")
    ctx.assume(z3.And(i >= 0, i < n))
    h.prove(GIVEN, faithful(h, full[0].get(i), b.get(i)))


R = "pycaption.scc.SCCReader.read"


def register_c06(contract):
    contract("C06", "SCCReader.read: brief captions, any number of captions", targets=[R], expects=[BRIEF, OTHERS], only=True)(timing)
    register_all(contract, "C06")


def register_all(contract, prop):
    contract(prop, "CaptionCreator.get_all", targets=["pycaption.scc.specialized_collections.CaptionCreator.get_all",
                                                     "pycaption.scc.specialized_collections.PreCaption.to_real_caption"], expects=[GIVEN],
             only=True)(returned)


def register_c15(contract):
    contract("C15", "SCCReader.read: the lines of any number of captions", targets=[R], expects=[NOTED], only=True)(noted)
    contract("C15", "SCCReader.read: the lines noted", targets=[R], expects=[RAISES, NAMES, QUIET],
             bound="no more than two offending lines, of one caption or two")(told)
