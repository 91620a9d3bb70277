"""C06 SCC captions appear and disappear at the frames their commands are sent."""
from fractions import Fraction

import z3

from pycaption.scc import SCCReader, _SccTimeTranslator, fix_last_captions_without_ending
from pycaption.scc.specialized_collections import (PreCaption, TimingCorrectingCaptionList)

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.finite import FiniteLoop, Typed
from pyvc.runner import contract
from pyvc.sym import PyList, Unsupported

from . import lib

D2 = L.rx("[0-9][0-9]")
AT = "the instant is the line's timecode plus one frame per word already sent, on the timecode's clock, minus the offset, not below zero"
Q = "pycaption.scc._SccTimeTranslator."


def close(h, a, b):
    return h.truth(h.eq(a, b)) if h.symbolic else abs(a - b) < 1


@contract("C06", "_SccTimeTranslator", targets=[Q + n for n in ("start_at", "increment_frames", "get_time", "_translate_time")],
          expects=[AT])
def _(h):
    hh, mm, ss, ff = [h.word(n, D2) for n in ("hours", "minutes", "seconds", "frames")]
    sep = h.pick("separator", [":", ";"])
    n = h.int("words sent before", 0)
    off = h.int("offset", None)
    t = h.obj(_SccTimeTranslator, _time="00:00:00;00", _frames=n, offset=off)
    if h.pick("line", ["this line", "next line"]) == "next line":
        h.meth(t, "start_at", h.text(hh, ":", mm, ":", ss, sep, ff))
        h.meth(t, "increment_frames")
        n = 1
    else:
        t = h.obj(_SccTimeTranslator, _time=h.text(hh, ":", mm, ":", ss, sep, ff), _frames=n, offset=off)
    got = h.meth(t, "get_time")
    num = lambda w: h.call(int, w)
    frames = ((num(hh) * 60 + num(mm)) * 60 + num(ss)) * 30 + num(ff) + n
    us = frames * Fraction(1000000, 30) * (Fraction(1001, 1000) if sep == ":" else 1) - off
    if h.symbolic:
        h.prove(AT, Y.or_(Y.and_(Y.bterm(us >= 0), h.truth(h.eq(got, us))), Y.and_(Y.bterm(us < 0), h.truth(h.eq(got, 0)))))
    else:
        h.prove(AT, abs(got - max(us, 0)) < 1)


# ------------------------------------------------------------------ closing small gaps
GAP = "a gap shorter than five frames (or an open end) is closed: the previous captions end when the next one starts"
LEFT = "any other end is left as it is"
FRAME = Fraction(1001 * 1000000, 30 * 1000 * 1000) * 1000


@contract("C06", "TimingCorrectingCaptionList._update_last_batch",
          targets=["pycaption.scc.specialized_collections.TimingCorrectingCaptionList._update_last_batch",
                   "pycaption.scc.specialized_collections.TimingCorrectingCaptionList.extend"],
          expects=[GAP, LEFT], bound="1-3 captions shown together, 1-2 captions next")
def _(h):
    start, end, nxt = h.real("start", 0), h.real("end", 0), h.real("next start", 0)
    k = h.pick("captions shown together", [1, 2, 3])
    how = h.pick("next", ["one caption", "two captions"])
    mk = lambda s, e: h.obj(PreCaption, start=s, end=e, nodes=PyList(["node"]) if h.symbolic else ["node"], style={}, layout_info=None)
    old = [mk(start, end) for _ in range(k)]
    new = [mk(nxt, 0) for _ in range(1 if how == "one caption" else 2)]
    xs = h.call(TimingCorrectingCaptionList)
    h.meth(xs, "extend", PyList(old) if h.symbolic else old)
    h.meth(xs, "extend", PyList(new) if h.symbolic else new)
    gap = nxt - end
    short = Y.or_(h.truth(h.eq(end, 0)), Y.bterm(gap < 5 * FRAME)) if h.symbolic else end == 0 or gap < 5 * FRAME
    long = Y.and_(Y.not_(h.truth(h.eq(end, 0))), Y.bterm(gap > 5 * FRAME + 1)) if h.symbolic else end != 0 and gap > 5 * FRAME + 1
    for c in old:
        h.prove(GAP, Y.implies(short, h.truth(h.eq(h.attr(c, "end"), nxt))))
        h.prove(LEFT, Y.implies(long, h.truth(h.eq(h.attr(c, "end"), end))))
        h.prove(LEFT, h.truth(h.eq(h.attr(c, "start"), start)))
    for c in new:
        h.prove(LEFT, Y.and_(h.truth(h.eq(h.attr(c, "end"), 0)), h.truth(h.eq(h.attr(c, "start"), nxt))))


class Closed(FiniteLoop):
    """the captions of the last batch, any number of them"""
    filters_pass = True
    ran = 0

    def __init__(self, end):
        self.to = end

    def kind_of(self, x):
        return None

    def element_write(self, it, x, name, old, new):
        if name != "end":
            it.ctx.decide(LEFT, False, witness=name, backend="loop rule")
        self.wrote = True
        it.ctx.prove(GAP, it.tb(it.eq(new, self.to)))

    def begin(self, it, fr):
        self.wrote = False
        self.ran += 1
        it.ctx.prove(GAP, z3.And(self.loop_blob.lo == self.whole.lo, self.loop_blob.length == self.whole.length))

    def finish(self, it, fr):
        it.ctx.decide(GAP, self.wrote, backend="loop rule", witness="a caption is skipped")


@contract("C06", "TimingCorrectingCaptionList: any number of captions shown together",
          targets=["pycaption.scc.specialized_collections.TimingCorrectingCaptionList._update_last_batch",
                   "pycaption.scc.specialized_collections.TimingCorrectingCaptionList.extend",
                   "pycaption.scc.specialized_collections.TimingCorrectingCaptionList.append"],
          expects=[GAP, LEFT])
def _(h):
    start, end, nxt = h.real("start", 0), h.real("end", 0), h.real("next start", 0)
    how = h.pick("next", ["extend", "append"])
    new = h.obj(PreCaption, start=nxt, end=0, nodes=PyList(["node"]) if h.symbolic else ["node"], style={}, layout_info=None)
    gap = nxt - end
    if not h.symbolic:
        old = [h.obj(PreCaption, start=start, end=end, nodes=["node"], style={}, layout_info=None) for _ in range(h.int("count", 1))]
        xs = h.call(TimingCorrectingCaptionList)
        xs.extend(old)
        xs.append(new) if how == "append" else xs.extend([new])
        for c in old:
            h.prove(GAP, c.end == nxt if end == 0 or gap < 5 * FRAME else True)
            h.prove(LEFT, c.start == start and (c.end == end or gap <= 5 * FRAME + 1))
        return
    h.int("count", 1)
    make = lambda k: h.obj(PreCaption, start=start, end=end, nodes=PyList(["node"]), style={}, layout_info=None)
    b = Typed("batch", ["caption"], make, "s", lambda c, k: "s", tag="batch")
    b.symmetric = True
    h.ctx.assume(b.length >= 1)
    lp = Closed(nxt)
    lp.whole = b
    h.ctx.loops["batch"] = lp
    xs = h.call(TimingCorrectingCaptionList)
    h.meth(xs, "extend", PyList([b]))
    first = lp.ran
    h.ctx.decide(LEFT, first == 0, witness="the captions themselves", backend="loop rule")
    h.meth(xs, "append" if how == "append" else "extend", new if how == "append" else PyList([new]))
    short = Y.or_(h.truth(h.eq(end, 0)), Y.bterm(gap < 5 * FRAME))
    long = Y.and_(Y.not_(h.truth(h.eq(end, 0))), Y.bterm(gap > 5 * FRAME + 1))
    if lp.ran == 0:
        h.prove(GAP, Y.not_(short))
    else:
        h.prove(LEFT, Y.not_(long))
    h.prove(LEFT, Y.and_(h.truth(h.eq(h.attr(new, "end"), 0)), h.truth(h.eq(h.attr(new, "start"), nxt))))


# ------------------------------------------------------------------ a final caption that is never cleared
FOUR = "a trailing caption without an end lasts four seconds"
KEEP = "captions up to the last one that has an end are left alone"
ALL = "the scan goes on to the first caption that has an end"


class Trailing(FiniteLoop):
    exited = False

    def kind_of(self, x):
        return None

    def element_write(self, it, x, name, old, new):
        if name != "end":
            raise Unsupported("writes %s" % name)
        self.wrote = True
        it.ctx.prove(FOUR if self.kind == "open" else KEEP,
                     Y.and_(self.kind == "open", it.tb(it.eq(new, lib.at(x, "start") + 4000000))))

    def begin(self, it, fr):
        self.wrote = False

    def finish(self, it, fr):
        it.ctx.decide(FOUR, self.wrote or self.kind == "ended", backend="loop rule", witness=self.kind)


@contract("C06", "fix_last_captions_without_ending", targets=["pycaption.scc.fix_last_captions_without_ending"],
          expects=[FOUR, ALL])
def _(h):
    def make(kind):
        c = lib.caption_obj(h.ctx, "caption", lo=0)
        if kind == "open":
            c.attrs["end"] = 0
        else:
            h.ctx.assume(c.attrs["end"].t > 0)
        return c
    b = Typed("captions", ["open", "ended"], make, "start", lambda c, k: "start", tag="captions")
    b.symmetric = True
    lp = Trailing()
    h.ctx.loops["reversed captions"] = lp
    h.call(fix_last_captions_without_ending, PyList([b]))
    h.ctx.decide(ALL, getattr(lp, "kind", None) in (None, "ended"), witness=getattr(lp, "kind", None), backend="loop rule")


# ------------------------------------------------------------------ End Of Caption, Erase Displayed Memory
START = "a caption starts at the instant its End-Of-Caption code is sent"
END = "it ends at the next Erase-Displayed-Memory or End-Of-Caption code"
ORDER = "captions are stored in transmission order, each once"


def load(h, r, text):
    """put a node with this text into the buffer that is being loaded"""
    node = h.obj(_InstructionNode, text=text, position=(14, 0), _type=0)
    b = h.call(InstructionNodeCreator)
    xs = h.attr(b, "_collection")
    (xs.items if h.symbolic else xs).append(node)
    h.meth(h.attr(r, "buffer_dict"), "__setitem__", "pop", b)


@contract("C06", "SCCReader: two captions, shown and cleared",
          targets=["pycaption.scc.SCCReader._translate_command", "pycaption.scc.SCCReader._pop_on",
                   "pycaption.scc.specialized_collections.CaptionCreator.create_and_store"], expects=[START, END, ORDER])
def _(h):
    r = h.call(SCCReader)
    tt = h.attr(r, "time_translator")
    a, b = h.word("first text", TEXT), h.word("second text", TEXT)
    stamps, cmds = [], []
    clear = h.pick("first caption", ["cleared", "replaced"])
    for cmd in ["942f"] + (["942c"] if clear == "cleared" else []) + ["942f", "942c"]:
        load_ = {0: a, 1 + (clear == "cleared"): b}.get(len(cmds))
        cmds.append(cmd)
        t = h.obj(_SccTimeTranslator, _time=h.text(h.word("time %d" % len(cmds), D2), ":00:00", ";", "00"),
                  _frames=h.int("words before %d" % len(cmds), 0), offset=0)
        if h.symbolic:
            r.attrs["time_translator"] = t
        else:
            r.time_translator = t
        stamps.append(h.meth(t, "get_time"))
        if load_ is not None:
            load(h, r, load_)
        h.meth(r, "_translate_command", cmd)
    for s, u in zip(stamps, stamps[1:]):
        h.assume(u > s + 200000)
    got = h.attr(h.attr(r, "caption_stash"), "_collection")
    cs = [c for c in (got.data.items if h.symbolic else got)]
    h.prove(ORDER, len(cs) == 2)
    if len(cs) == 2:
        k = 1 + (clear == "cleared")
        h.prove(START, Y.and_(h.truth(h.eq(h.attr(cs[0], "start"), stamps[0])), h.truth(h.eq(h.attr(cs[1], "start"), stamps[k]))))
        h.prove(END, Y.and_(h.truth(h.eq(h.attr(cs[0], "end"), stamps[1])), h.truth(h.eq(h.attr(cs[1], "end"), stamps[-1]))))
        for c, t in zip(cs, (a, b)):
            n = h.attr(c, "nodes")
            n = n.items if h.symbolic else n
            h.prove(ORDER, len(n) == 1 and h.truth(h.eq(h.attr(n[0], "content"), t)))


from pycaption.scc.specialized_collections import InstructionNodeCreator, _InstructionNode      # noqa: E402
TEXT = L.rx("[!-~]+")

from . import scctail      # noqa: E402

scctail.register_c06(contract)
