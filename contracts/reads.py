"""Any number of lines: WebVTTReader.read, MicroDVDReader.read and SRTReader.read.

The document is a list of lines of unknown length, and each line is arbitrary of its kind.  Loop rule: the state before line i is one
of the states a prefix of a document can leave (outside a cue; in a cue that has no text yet; in a cue with any number of lines, with
the times of its timing line), with any number of cues read before; the line is read, and the state and the cues are what the line
makes of them.  A reader that keeps another state is not decided."""
from fractions import Fraction

import z3

from pycaption.base import Caption, CaptionNode
from pycaption.exceptions import CaptionReadNoCaptions
from pycaption.microdvd import MicroDVDReader
from pycaption.srt import SRTReader
from pycaption.webvtt import WebVTTReader

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.sym import Blob, Elsewhere, Opaque, PyList, SObj

from . import spec
from .docs import CUES, LINES, NOBREAK, SOLID, TIMES, D, clock
from .lib import num, seq_of

T, BR = CaptionNode.TEXT, CaptionNode.BREAK


def document(h, blob):
    """a str whose splitlines() is that list"""
    w = Y.rope(Y.Word("document", L.TOP))
    part = w.parts[0]
    h.ctx.models["splitlines"] = lambda x: PyList([blob]) if isinstance(x, Y.Rope) and len(x.parts) == 1 and x.parts[0] is part else None
    return w


def is_node(n, t):
    return isinstance(n, SObj) and n.cls is CaptionNode and n.attrs["type_"] == t


def read_before(ctx, tag="cues before"):
    m = ctx.fresh(z3.IntSort(), "cues.len")
    ctx.assume(m >= 0)
    return Blob(tag, m, lambda j: SObj(Caption, {"start": num(ctx, "start before"), "end": num(ctx, "end before"), "nodes": None, "style": None,
                                                 "layout_info": None}), tag=tag)


class State:
    NEED = ()

    def entry(self, it, fr):
        if not set(self.NEED) <= set(fr.vars) or not isinstance(seq_of(fr.vars["captions"]), PyList) or seq_of(fr.vars["captions"]).items:
            raise Elsewhere("a reader with another state")
        if any(n in fr.vars and n not in self.NEED for n in self.assigned):
            raise Elsewhere("a reader with more state")
        self.captions = fr.vars["captions"]

    def keep(self, fr):
        fr.vars["captions"] = self.captions
        self.before = read_before(self.ctx)
        self.ctx.assume(self.before.length >= 0)
        seq_of(self.captions).items = [self.before]

    def new(self):
        s = seq_of(self.captions).items
        if not s or s[0] is not self.before:
            raise Elsewhere("the cues before are changed")
        return s[1:]

    def frame(self, it, fr):
        return [seq_of(self.captions)] + self.more()

    def more(self):
        return []

    def cue(self, c, start, end, nodes, layout):
        """a cue that was appended: (times, lines)"""
        if not isinstance(c, SObj) or c.cls is not Caption:
            raise Elsewhere("appended %r" % (c,))
        ctx = self.ctx
        for k, v in (("start", start), ("end", end)):
            ctx.prove(TIMES, self.h.eq(c.attrs[k], v))
        self.lines(c.attrs["nodes"], nodes)

    def lines(self, got, want):
        got = list(seq_of(got).items)
        if len(got) > 1 and is_node(got[-1], BR):
            raise Elsewhere("breaks are kept in another way")
        self.ctx.decide(LINES, len(got) == len(want) and all(x is y or self.same(x, y) for x, y in zip(got, want)), witness=repr((got, want)),
                        backend="loop rule")

    def same(self, x, y):
        """y: 'break' or the content of a text node"""
        if isinstance(y, Blob):
            return False
        if isinstance(y, str) and y == "break":
            return is_node(x, BR)
        return is_node(x, T) and self.h.truth(self.h.eq(x.attrs["content"], y)) is True


class WebVTT(State):
    NEED = ("captions", "start", "end", "nodes", "layout_info", "found_timing")

    def entry(self, it, fr):
        self.ctx = it.ctx
        State.entry(self, it, fr)
        v = fr.vars
        if v["start"] is not None or v["end"] is not None or v["layout_info"] is not None or v["found_timing"] is not False \
                or not isinstance(v["nodes"], PyList) or v["nodes"].items:
            raise Elsewhere("a reader that starts in another state")

    def havoc(self, it, fr, i):
        ctx, v = it.ctx, fr.vars
        self.keep(fr)
        self.state = ["outside", "cue", "text"][ctx.choose(3, "state")]
        self.times = (num(ctx, "start"), num(ctx, "end"), Opaque("layout") if ctx.choose(2, "settings") else None)
        v["start"], v["end"], v["layout_info"] = self.times
        v["found_timing"] = self.state != "outside"
        k = ctx.fresh(z3.IntSort(), "nodes.len")
        ctx.assume(k >= 1)
        self.text = [Blob("lines before", k, lambda j: SObj(CaptionNode, {"type_": T, "content": "x", "start": None, "position": None,
                                                                         "layout_info": None}), tag="lines before")] if self.state == "text" else []
        self.nodes = v["nodes"] = PyList(list(self.text))
        self.end = i is self.loop_blob.length
        if self.end:
            self.out.append(self)
            return
        x = self.loop_blob.get(i)
        self.line = x[-1] if isinstance(x, tuple) else x
        self.kind = self.kinds[id(self.line)]
        if self.kind == "timing" and self.state == "text":
            raise Y.PathEnd("a timing line in the text of a cue")

    def step(self, it, fr, i):
        v, new, d = fr.vars, self.new(), self.ctx.decide
        if self.kind == "timing":
            t = self.parsed.get(id(self.line))
            if new or t is None or not isinstance(v["nodes"], PyList) or v["nodes"].items or v["found_timing"] is not True:
                raise Elsewhere("a timing line leaves another state")
            d(TIMES, v["start"] is t[0] and v["end"] is t[1] and v["layout_info"] is t[2], witness=repr((v["start"], v["end"], v["layout_info"])),
              backend="loop rule")
            return
        if self.kind == "blank":
            if v["found_timing"] is not False or not isinstance(v["nodes"], PyList) or v["nodes"].items:
                raise Elsewhere("a blank line leaves another state")
            if self.state != "text":
                d(CUES, not new, witness=repr(new), backend="loop rule")
                return
            d(CUES, len(new) == 1, witness=repr(new), backend="loop rule")
            if new:
                self.cue(new[0], self.times[0], self.times[1], self.text, self.times[2])
            return
        d(CUES, not new, witness=repr(new), backend="loop rule")
        if v["found_timing"] is not (self.state != "outside") or not isinstance(v["nodes"], PyList):
            raise Elsewhere("a line of text leaves another state")
        if self.state != "outside" and not (v["start"] is self.times[0] and v["end"] is self.times[1]):
            d(TIMES, False, witness=repr((v["start"], v["end"])), backend="loop rule")
        self.lines(v["nodes"], [] if self.state == "outside" else self.text + (["break"] if self.text else []) + [self.decoded.get(id(self.line), "no text")])

    def more(self):
        return [self.nodes]


def webvtt(h):
    """a list of lines of unknown length; timing lines at the contract of _parse_timing_line, text at that of _decode"""
    ctx, kinds, parsed, decoded, out = h.ctx, {}, {}, {}, []

    def line(i):
        k = ["timing", "blank", "text", "blank-looking"][ctx.choose(4, "line")]
        x = "" if k == "blank" else Y.rope(Y.Word("line", L.cat(NB, L.rx("-->"), NB) if k == "timing" else L.rx("[ \\t]+") if k == "blank-looking" else
                                                 SOLID - L.containing("-->")))
        kinds[id(x)] = "text" if k == "blank-looking" else k
        keep.append(x)
        return x
    keep, NB = [], L.star(NOBREAK)
    n = ctx.fresh(z3.IntSort(), "lines.len")
    ctx.assume(n >= 0)
    q = "pycaption.webvtt.WebVTTReader."

    def timing(it, me, x, last):
        r = (num(ctx, "parsed start"), num(ctx, "parsed end"), Opaque("parsed layout") if ctx.choose(2, "parsed settings") else None)
        parsed[id(x)] = r
        return r

    def decode(it, me, x):
        decoded[id(x)] = Y.rope(Y.Word("decoded", L.TOP))
        keep.append(x)
        return decoded[id(x)]
    h.patch(q + "_parse_timing_line", timing)
    h.patch(q + "_decode", decode)

    class Spec(WebVTT):
        pass
    for k, v in (("kinds", kinds), ("parsed", parsed), ("decoded", decoded), ("out", out), ("h", h)):
        setattr(Spec, k, v)
    ctx.loops["lines"] = Spec
    r = h.call(WebVTTReader)
    exc, cs, _e = h.raises(lambda: h.meth(r, "read", document(h, Blob("lines", n, line, tag="lines")), lang="en-US"))
    if not out:
        ctx.decide(CUES, False, witness="reading ends before the document does: %r" % (exc,), backend="loop rule")
        return
    s = out[0]
    if exc is not None:
        h.prove(CUES, exc is CaptionReadNoCaptions and s.state != "text" and s.before.size() == 0)
        return
    got = seq_of(h.meth(cs, "get_captions", "en-US")).items
    want = 2 if s.state == "text" else 1
    ok = len(got) == want and got[0] is s.before
    ctx.decide(CUES, ok, witness=repr(got), backend="loop rule")
    if ok and want == 2:
        s.cue(got[1], s.times[0], s.times[1], s.text, s.times[2])


class MicroDVD(State):
    NEED = ("captions", "fps", "found_fps")

    def entry(self, it, fr):
        self.ctx = it.ctx
        State.entry(self, it, fr)
        if fr.vars["found_fps"] is not False or fr.vars["fps"] != 25:
            raise Elsewhere("a reader that starts in another state")
        self.fps = fr.vars["fps"]

    def havoc(self, it, fr, i):
        ctx, v = it.ctx, fr.vars
        self.keep(fr)
        rate = self.rates[ctx.choose(len(self.rates), "rate")]
        self.found = v["found_fps"] = rate is not None
        v["fps"] = self.rate = self.fps if rate is None else Fraction(rate)
        if i is self.loop_blob.length:
            self.out.append(self)
            return
        self.line = self.loop_blob.get(i)
        self.kind = self.kinds[id(self.line)]
        if self.kind[0] == "rate":
            if self.found:
                raise Y.PathEnd("a second rate")
            if ctx.branch(i > self.loop_blob.lo):
                raise Y.PathEnd("a rate after a cue")

    def step(self, it, fr, i):
        v, new, h = fr.vars, self.new(), self.h
        if self.kind[0] == "rate":
            self.ctx.decide(CUES, not new, witness=repr(new), backend="loop rule")
            if v["found_fps"] is not True:
                raise Elsewhere("a rate leaves another state")
            h.prove(TIMES, h.eq(v["fps"], Fraction(self.kind[1])))
            return
        if v["found_fps"] is not self.found or v["fps"] is not self.rate:
            raise Elsewhere("a cue leaves another state")
        if self.kind[0] == "blank":
            self.ctx.decide(CUES, not new, witness=repr(new), backend="loop rule")
            return
        self.ctx.decide(CUES, len(new) == 1, witness=repr(new), backend="loop rule")
        if new:
            a, b, ws = self.kind[1:]
            us = [h.meth(self.reader, "_framestomicro", f, self.rate) for f in (a, b)]
            want = []
            for w in ws:
                want += [w, "break"]
            self.cue(new[0], us[0], us[1], want[:-1], None)


def microdvd(h):
    """a list of lines of unknown length: blank ones, a frame rate, cues of one or two lines"""
    ctx, kinds, out, keep = h.ctx, {}, [], []

    def line(i):
        k = ["blank", "rate", "one", "two", "gap"][ctx.choose(5, "line")]
        if k == "blank":
            x, what = "", ("blank",)
        elif k == "rate":
            r = ["25", "23.976", "30"][ctx.choose(3, "written rate")]
            x, what = "{0}{0}" + r, ("rate", r)
        else:
            f = [Y.rope(Y.Word(n, L.cat(L.rx("[1-9]"), L.star(D)))) for n in ("start", "end")]
            ws = [Y.rope(Y.Word("text %d" % j, SOLID - L.containing("|"))) for j in range(1 if k == "one" else 2)]
            mid = ["|" if k == "two" else "||"] + [ws[1]] if len(ws) > 1 else []
            x = h.text("{", f[0], "}{", f[1], "}", ws[0], *mid)
            what = ("cue", h.call(int, f[0]), h.call(int, f[1]), ws)
        kinds[id(x)] = what
        keep.append(x)
        return x
    n = ctx.fresh(z3.IntSort(), "lines.len")
    ctx.assume(n >= 0)
    r = h.call(MicroDVDReader)

    class Spec(MicroDVD):
        pass
    for k, v in (("kinds", kinds), ("out", out), ("h", h), ("reader", r), ("rates", [None, "25", "23.976", "30"])):
        setattr(Spec, k, v)
    ctx.loops["lines"] = Spec
    exc, cs, _e = h.raises(lambda: h.meth(r, "read", document(h, Blob("lines", n, line, tag="lines")), lang="en-US"))
    if not out:
        ctx.decide(CUES, False, witness="reading ends before the document does: %r" % (exc,), backend="loop rule")
        return
    s = out[0]
    if exc is not None:
        h.prove(CUES, exc is CaptionReadNoCaptions and s.before.size() == 0)
        return
    got = seq_of(h.meth(cs, "get_captions", "en-US")).items
    ctx.decide(CUES, len(got) == 1 and got[0] is s.before, witness=repr(got), backend="loop rule")


class Seek:
    """the search for the next cue, from the first line of a cue on: no blank line is found before the first one after the cue, and one
    has been found from there up to the number of the next cue"""

    def entry(self, it, fr):
        ctx, v = it.ctx, fr.vars
        state = [n for n in self.assigned if n in v]
        ints = [n for n in state if isinstance(v[n], (int, Y.S)) and not isinstance(v[n], bool)]
        flags = [n for n in state if isinstance(v[n], bool)]
        if len(flags) != 1 or v[flags[0]] is not False or len(ints) > 1 or len(state) != 1 + len(ints) or (self.loop_blob is None) != bool(ints):
            raise Elsewhere("a search with another state")
        self.found, self.pos = flags[0], ints[0] if ints else None
        s = v[ints[0]] if ints else Y.mk(self.loop_blob.lo, "int")
        if not ctx.known(Y.bterm(s == self.cue.start)) or not ints and not ctx.known(self.loop_blob.length == self.cue.size()):
            raise Elsewhere("a search that starts elsewhere")

    def inside(self, k):
        return z3.And(k >= self.cue.s, k <= self.cue.stop)

    def havoc(self, it, fr, i):
        ctx, k = it.ctx, i
        if self.pos:
            k = ctx.fresh(z3.IntSort(), "seek")
            fr.vars[self.pos] = Y.mk(k, "int")
        ctx.assume(self.inside(k))
        fr.vars[self.found] = bool(ctx.branch(k > self.cue.blank))

    def step(self, it, fr, i):
        ctx, v = it.ctx, fr.vars
        k, f = v.get(self.pos, i + 1), v.get(self.found)
        k = Y.as_int_term(k.t, k.k) if isinstance(k, Y.S) else z3.IntVal(k) if isinstance(k, int) else k
        if not z3.is_expr(k) or not isinstance(f, bool) or not ctx.known(self.inside(k)) or bool(ctx.branch(k > self.cue.blank)) is not f:
            raise Elsewhere("a search that goes on otherwise")

    def frame(self, it, fr):
        return []


class Lines:
    """the loop over the lines of text of one cue: each is a text node, with a break between them"""

    def entry(self, it, fr):
        v = fr.vars
        names = [n for n in self.mutated if isinstance(v.get(n), PyList) and not v[n].items]
        if len(names) != 1 or names[0] == "<acc>" or any(n in v and n != names[0] and n not in self.outer for n in self.assigned):
            raise Elsewhere("lines collected in another way")
        self.nodes, self.name = v[names[0]], names[0]

    def havoc(self, it, fr, i):
        fr.vars[self.name] = self.nodes
        self.first = self.arbitrary and it.ctx.branch(i == self.loop_blob.lo)
        node = SObj(CaptionNode, {"type_": BR, "content": None, "start": None, "position": None, "layout_info": None})
        self.before = [] if self.first else [Blob("lines before", i - self.loop_blob.lo, lambda j: Opaque("node"), tag="lines before"), node]
        self.nodes.items = list(self.before)
        if not self.arbitrary:
            self.cue.text = self.before

    def step(self, it, fr, i):
        if not isinstance(fr.vars[self.name], PyList):
            raise Elsewhere("lines collected in another way")
        got, n = list(fr.vars[self.name].items), len(self.before)
        if len(got) < n or any(x is not y for x, y in zip(got, self.before)) or (len(got) > n and not is_node(got[-1], BR)) \
                or any(not is_node(x, T) and not is_node(x, BR) for x in got[n:]):
            raise Elsewhere("lines collected in another way")
        got = got[n:]
        ok = len(got) == 2 and is_node(got[0], T) and self.h.truth(self.h.eq(got[0].attrs["content"], self.loop_blob.get(i))) is True
        it.ctx.decide(LINES, ok, witness=repr(got), backend="loop rule")

    def frame(self, it, fr):
        return [self.nodes]


class Blanks:
    """the blank lines after a cue add nothing to it"""

    def entry(self, it, fr):
        if "<acc>" in fr.vars:
            raise Elsewhere("lines collected first")
        self.lists = [(v, list(v.items)) for v in fr.vars.values() if isinstance(v, PyList)]

    def havoc(self, it, fr, i):
        pass

    def step(self, it, fr, i):
        for v, before in self.lists:
            if len(v.items) != len(before) or any(x is not y for x, y in zip(v.items, before)):
                it.ctx.decide(LINES, False, witness=repr((before, v.items)), backend="loop rule")

    def frame(self, it, fr):
        return []


class SRT(State):
    """the loop over the cues of an SRT document.  At its head the reader is at the number of a cue, with any number of lines before it
    and after it, or at (or past) the end of the document"""
    NEED = ("captions",)

    def entry(self, it, fr):
        self.ctx, v = it.ctx, fr.vars
        pos = [n for n in self.assigned if n in v and isinstance(v[n], int) and not isinstance(v[n], bool)]
        if len(pos) != 1 or v[pos[0]] != 0 or "captions" not in v or not isinstance(seq_of(v["captions"]), PyList) or seq_of(v["captions"]).items \
                or any(n in v and n != pos[0] for n in self.assigned):
            raise Elsewhere("a reader with another state")
        self.pos, self.captions = pos[0], v["captions"]
        self.all = [x for x in v.values() if isinstance(x, PyList) and x is self.doc]
        if not self.all:
            raise Elsewhere("a reader that keeps the lines in another way")

    def havoc(self, it, fr, i):
        ctx, h, v = it.ctx, self.h, fr.vars
        self.keep(fr)
        self.unread = ctx.choose(2, "position") == 0
        if not self.arbitrary:
            self.out.append(self)
        if not self.unread:
            k = ctx.fresh(z3.IntSort(), "position")
            ctx.assume(k >= self.n)
            v[self.pos] = Y.mk(k, "int")
            return
        s, k, m, rest = (ctx.fresh(z3.IntSort(), n) for n in ("position", "text lines", "blank lines", "lines after"))
        self.s, self.start = s, Y.mk(s, "int")
        ctx.assume(z3.And(s >= 0, k >= 1, m >= 0, rest >= 0))
        form = ["with milliseconds", "without"][ctx.choose(2, "stamps")]
        a, A = self.clock(h, "start", ",", 1, form == "without")
        b, B = self.clock(h, "end", ",", 1, form == "without")
        self.times = A, B
        items = [Blob("lines before", s, other, tag="lines before"), h.word("number", L.rep(D, 1, None)), h.text(a, " --> ", b),
                 Blob("text", k, lambda j: Y.rope(Y.Word("line", SOLID)), tag="text"), Blob("blank", m, lambda j: "", tag="blank")]
        self.blank = s + 2 + k
        self.stop = s + 2 + k + m
        self.more_cues = ctx.choose(2, "another cue") == 0
        if self.more_cues:
            ctx.assume(m >= 1)
            items += [h.word("next number", L.rep(D, 1, None)), Blob("lines after", rest, other, tag="lines after")]
        self.doc.items = items
        self.text = None
        self.size = lambda: self.stop + (1 + rest if self.more_cues else 0)
        v[self.pos] = self.start
        self.open.append(self)

    def step(self, it, fr, i):
        ctx, v, new = self.ctx, fr.vars, self.new()
        if not self.unread:
            ctx.decide(CUES, not new, witness=repr(new), backend="loop rule")
            ctx.prove(CUES, Y.bterm(v[self.pos] >= Y.mk(self.n, "int")))
            return
        self.open.pop()
        ctx.decide(CUES, len(new) == 1, witness=repr(new), backend="loop rule")
        if new:
            c = new[0]
            if not isinstance(c, SObj) or c.cls is not Caption:
                raise Elsewhere("appended %r" % (c,))
            for k, x in zip(("start", "end"), self.times):
                ctx.prove(TIMES, self.h.eq(c.attrs[k], x))
            got = list(seq_of(c.attrs["nodes"]).items)
            if self.text is None:
                raise Elsewhere("lines collected in another way")
            ctx.decide(LINES, len(got) == len(self.text) - 1 and all(x is y for x, y in zip(got, self.text)), witness=repr((got, self.text)),
                       backend="loop rule")
        k = v.get(self.pos)
        if not isinstance(k, (int, Y.S)):
            raise Elsewhere("a reader with another state")
        k, stop = Y.as_int_term(k.t, k.k) if isinstance(k, Y.S) else z3.IntVal(k), self.stop
        if self.more_cues:
            ctx.prove(CUES, z3.And(k >= self.blank, k <= stop))
        if not ctx.known(k == stop if self.more_cues else k >= stop):
            raise Elsewhere("a reader that stops between cues")


def other(i):
    raise Elsewhere("a line of another cue is looked at")


def srt(h):
    """a list of lines of unknown length: cues of any number of lines of text, any number of blank lines between them"""
    ctx, out, open_, started = h.ctx, [], [], []
    n = ctx.fresh(z3.IntSort(), "lines.len")
    ctx.assume(n >= 0)
    w = Y.rope(Y.Word("document", L.TOP))
    part, doc = w.parts[0], PyList([Blob("lines", n, other, tag="lines")])
    taken = []

    def split(x):
        if not (isinstance(x, Y.Rope) and len(x.parts) == 1 and x.parts[0] is part):
            return None
        taken.append(doc)
        if len(taken) > 1:
            raise Elsewhere("the document is split again")
        return doc
    ctx.models["splitlines"] = split
    fields = {"out": out, "open": open_, "doc": doc, "n": n, "h": h, "clock": staticmethod(clock)}
    outer = type("Spec", (SRT,), fields)

    def while_spec(fr, node):
        if not open_:
            if out or started:
                raise Elsewhere("another loop")
            started.append(1)
            return outer
        return type("Spec", (Seek,), {"cue": open_[-1]})
    ctx.while_spec = while_spec
    found = ctx.loop_spec
    ctx.loop_spec = lambda x, fr, node: while_spec(fr, node) if x.tag == "range" and open_ and open_[-1].text is None else found(x, fr, node)
    cue = property(lambda self: open_[-1])
    ctx.loops["text"] = type("Spec", (Lines,), {"h": h, "cue": cue, "outer": {"line"}})
    ctx.loops["blank"] = Blanks
    r = h.call(SRTReader)
    exc, cs, _e = h.raises(lambda: h.meth(r, "read", w, lang="en-US"))
    if not out:
        ctx.decide(CUES, False, witness="reading ends before the document does: %r" % (exc,), backend="loop rule")
        return
    s = out[0]
    if s.unread:
        ctx.decide(CUES, False, witness="reading ends before a cue", backend="loop rule")
        return
    if exc is not None:
        h.prove(CUES, exc is CaptionReadNoCaptions and s.before.size() == 0)
        return
    got = seq_of(h.meth(cs, "get_captions", "en-US")).items
    ctx.decide(CUES, len(got) == 1 and got[0] is s.before, witness=repr(got), backend="loop rule")


def register(contract, prop, names):
    for f, q, fn, more in (("WebVTT", "pycaption.webvtt.WebVTTReader.", webvtt, ["_parse"]), ("MicroDVD", "pycaption.microdvd.MicroDVDReader.", microdvd, []),
                           ("SRT", "pycaption.srt.SRTReader.", srt, ["_find_text_line"])):
        contract(prop, f + "Reader.read: any number of lines", targets=[q + "read"] + [q + m for m in more], expects=names, timeout=300, only=True,
                 bound=None if f != "MicroDVD" else "cues of one or two lines, four frame rates; any number of lines of the document")(fn)
