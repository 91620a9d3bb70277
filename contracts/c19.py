"""C19 Timing adjustment and concurrent-caption merging keep all text in order (pycaption/base.py)."""
import z3

from pycaption import base as B
from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet

from pyvc import sym as Y
from pyvc.runner import contract
from pyvc.sym import Blob, PyDict, PyList, SObj, Unsupported

from pyvc import lang as L

from .lib import (CopyLoop, accumulators, at, caption_list, caption_obj, captions, same_items, seq_of)

T = "pycaption.base."


class AdjustLoop:
    """Invariant: the output list holds exactly the kept captions of the prefix; element i becomes t*skew+offset and is
    appended iff its new start is not negative."""

    def __init__(self):
        self.skew, self.off = PARAM["skew"], PARAM["off"]

    def entry(self, it, fr):
        self.accs = [(k, s) for k, s in accumulators(fr) if not s.items and k in self.mutated]
        if len(self.accs) != 1:
            raise Unsupported("accumulator not identified")
        self.acc = self.accs[0][1]

    def havoc(self, it, fr, i):
        ctx = it.ctx
        n = ctx.fresh(z3.IntSort(), "kept.len")
        ctx.assume(n >= 0)
        self.kept = Blob("kept(%s)" % self.loop_blob.name, n, lambda j: None, tag="kept")
        self.acc.items = [self.kept]
        self.acc.whole = self.loop_blob
        self.cap = None
        if not (i is self.loop_blob.length):
            c = self.loop_blob.get(i)
            self.cap = c
            self.old = dict(c.attrs)

    def step(self, it, fr, i):
        ctx, c, old = it.ctx, self.cap, self.old
        s, e = Y.mk(Y.real(*Y._term(old["start"])) * Y._term(self.skew)[0] + Y._term(self.off)[0], "float"), \
            Y.mk(Y.real(*Y._term(old["end"])) * Y._term(self.skew)[0] + Y._term(self.off)[0], "float")
        ctx.prove("start becomes t*skew+offset", Y.num_eq(c.attrs["start"], s))
        ctx.prove("end becomes t*skew+offset", Y.num_eq(c.attrs["end"], e))
        for k in ("nodes", "style", "layout_info"):
            ctx.decide("nodes, style and layout untouched", c.attrs.get(k) is old[k], witness=k, backend="frame")
        ctx.decide("no other attribute appears", set(c.attrs) == set(old), backend="frame")
        kept = same_items(self.acc.items, [self.kept, c])
        dropped = same_items(self.acc.items, [self.kept])
        ctx.decide("the output grows by this caption or not at all, in order", kept or dropped, witness=repr(self.acc))
        if kept:
            ctx.prove("kept captions have a non-negative new start", s >= 0)
        elif dropped:
            ctx.prove("dropped captions have a negative new start", s < 0)

    def frame(self, it, fr):
        return [self.acc, self.cap]


PARAM = {}


class Languages:
    """Any number of languages, through the set's own accessors (get_languages, get_captions, set_captions: their contract is
    the dictionary's).  Loop rule: an arbitrary language, with a list of any length, in an arbitrary iteration; no local
    variable is carried from one language to the next (those the body assigns are unset when it begins)."""

    def __init__(self, h, check, **kw):
        ctx = self.ctx = h.ctx
        self.check, self.kw = check, kw
        n = ctx.fresh(z3.IntSort(), "languages.len")
        ctx.assume(n >= 0)
        self.cs = SObj(CaptionSet, {"_styles": PyDict(), "layout_info": None})
        self.blob = Blob("languages", n, lambda i: Y.rope(Y.Word("language", L.TOP)), tag="languages")
        self.lang, self.stored = None, []
        h.patch(T + "CaptionSet.get_languages", self.get_languages)
        h.patch(T + "CaptionSet.get_captions", self.get_captions)
        h.patch(T + "CaptionSet.set_captions", self.set_captions)
        ctx.loops["languages"] = self

    def get_languages(self, it, cs):
        if cs is not self.cs:
            raise Unsupported("another caption set")
        return PyList([self.blob])

    def get_captions(self, it, cs, lang):
        if cs is not self.cs or self.lang is None or lang is not self.lang:
            raise Unsupported("captions of another language than the iteration's")
        return self.list

    def set_captions(self, it, cs, lang, captions):
        if cs is not self.cs:
            raise Unsupported("another caption set")
        it.ctx.decide("captions are stored under their own language", lang is self.lang, witness=repr(lang), backend="loop rule")
        self.stored.append(captions)

    def entry(self, it, fr):
        carried = (self.assigned & set(fr.vars)) | (self.mutated & set(fr.vars) - {k for k, v in fr.vars.items() if v is self.cs})
        if carried:
            raise Unsupported("state carried from one language to the next: %s" % sorted(carried))

    def havoc(self, it, fr, i):
        if i is self.blob.length:
            self.lang = None
            return
        self.lang = self.blob.get(i)
        self.source = captions(it.ctx, "caps", **self.kw)
        self.list = caption_list([self.source])

    def step(self, it, fr, i):
        self.check(self)

    def frame(self, it, fr):
        return []



@contract("C19", "adjust_caption_timing", targets=[T + "CaptionSet.adjust_caption_timing"],
          expects=["start becomes t*skew+offset", "kept captions have a non-negative new start",
                   "dropped captions have a negative new start", "every language gets its own filtered list"])
def _(h):
    """any number of languages with any number of captions each, any skew and offset"""
    ctx = h.ctx
    PARAM["skew"], PARAM["off"] = h.real("skew"), h.real("offset")
    kind = h.pick("kind", ["int", "float"])

    def check(k):
        s = [seq_of(x) for x in k.stored]
        ctx.decide("every language gets its own filtered list",
                   len(s) == 1 and len(s[0].items) == 1 and getattr(s[0], "whole", None) is k.source, witness=repr(k.stored), backend="loop rule")
    k = Languages(h, check, kind=kind)
    ctx.loops["captions"] = AdjustLoop
    if h.pick("call", ["keyword", "positional"]) == "keyword":
        h.meth(k.cs, "adjust_caption_timing", offset=PARAM["off"], rate_skew=PARAM["skew"])
    else:
        h.meth(k.cs, "adjust_caption_timing", PARAM["off"], PARAM["skew"])


@contract("C19", "CaptionSet accessors", targets=[T + "CaptionSet.get_languages", T + "CaptionSet.get_captions", T + "CaptionSet.set_captions"],
          expects=["the languages are the keys, in order", "the captions of a language are the list stored under it, and the one stored last",
                   "other languages keep theirs"], bound="sets of two languages")
def _(h):
    a, b, c = caption_list([]), caption_list([]), caption_list([])
    cs = SObj(CaptionSet, {"_captions": PyDict([["en", a], ["fr", b]]), "_styles": PyDict(), "layout_info": None})
    names = h.meth(cs, "get_languages")
    h.ctx.decide("the languages are the keys, in order", list(seq_of(names).items) == ["en", "fr"], witness=repr(names))
    h.meth(cs, "set_captions", "en", c)
    h.ctx.decide("the captions of a language are the list stored under it, and the one stored last",
                 h.meth(cs, "get_captions", "en") is c, witness="get_captions after set_captions")
    h.ctx.decide("other languages keep theirs", h.meth(cs, "get_captions", "fr") is b and list(seq_of(h.meth(cs, "get_languages")).items) == ["en", "fr"],
                 witness="the other language's list")


@contract("C19", "adjust_caption_timing (two languages)", targets=[T + "CaptionSet.adjust_caption_timing"], bound="sets of two languages",
          expects=["start becomes t*skew+offset", "kept captions have a non-negative new start",
                   "dropped captions have a negative new start", "every language gets its own filtered list"])
def _(h):
    ctx = h.ctx
    PARAM["skew"], PARAM["off"] = h.real("skew"), h.real("offset")
    kind = h.pick("kind", ["int", "float"])
    langs = {"en": captions(ctx, "en", kind=kind), "fr": captions(ctx, "fr", kind=kind)}
    d = PyDict([[k, caption_list([b])] for k, b in langs.items()])
    cs = SObj(CaptionSet, {"_captions": d, "_styles": PyDict(), "layout_info": None})
    ctx.loops["captions"] = AdjustLoop
    if h.pick("call", ["keyword", "positional"]) == "keyword":
        h.meth(cs, "adjust_caption_timing", offset=PARAM["off"], rate_skew=PARAM["skew"])
    else:
        h.meth(cs, "adjust_caption_timing", PARAM["off"], PARAM["skew"])
    out = cs.attrs["_captions"]
    ok = [p[0] for p in out.pairs] == list(langs)
    for k, v in [(p[0], p[1]) for p in out.pairs]:
        s = seq_of(v)
        ok = ok and s is not None and len(s.items) == 1 and getattr(s, "whole", None) is langs.get(k)
    ctx.decide("every language gets its own filtered list", ok, witness=repr(out), backend="loop rule")


# ---------------------------------------------------------------------------------------------- merge

class MergeNodes:
    """new_nodes = nodes of captions[0] ++ BREAK ++ nodes of captions[1] ++ ... (prefix of length i)."""

    def entry(self, it, fr):
        self.accs = [(k, s) for k, s in accumulators(fr) if not s.items and k in self.mutated]
        if len(self.accs) != 1:
            raise Unsupported("accumulator not identified")
        self.acc = self.accs[0][1]

    def havoc(self, it, fr, i):
        ctx = it.ctx
        n = ctx.fresh(z3.IntSort(), "joined.len")
        if i is self.loop_blob.length:
            ctx.assume(n >= 1)
            self.joined = Blob("joined", n, lambda j: None, tag="joined")
            self.joined.whole = self.loop_blob
            self.acc.items = [self.joined]
            return
        if it.ctx.branch(i == self.loop_blob.lo):
            self.first = True
            self.acc.items = []
            self.joined = None
        else:
            self.first = False
            ctx.assume(n >= 1)
            self.joined = Blob("joined[:i]", n, lambda j: None, tag="joined")
            self.acc.items = [self.joined]

    def step(self, it, fr, i):
        c = self.loop_blob.get(i)
        nb = c.attrs["nodes"].items
        x = self.acc.items
        if self.first:
            it.ctx.decide("first caption's nodes come first, no leading break", same_items(x, nb), witness=repr(x))
        else:
            br = x[1] if len(x) > 1 else None
            ok = len(x) == 3 and x[0] is self.joined and isinstance(br, SObj) and br.cls is CaptionNode \
                and br.attrs["type_"] == CaptionNode.BREAK and x[2] is nb[0]
            it.ctx.decide("one break, then the next caption's nodes in order", ok, witness=repr(x))

    def frame(self, it, fr):
        return [self.acc]


class Nodes(CopyLoop):
    name = "nodes are copied in order"


@contract("C19", "merge(run)", targets=[T + "merge"],
          expects=["first caption's nodes come first, no leading break", "one break, then the next caption's nodes in order",
                   "nodes are copied in order", "times are the first caption's", "all nodes of the run"])
def _(h):
    ctx = h.ctx
    n = ctx.fresh(z3.IntSort(), "run.len")
    ctx.assume(n >= 1)
    b = captions(ctx, "run", tag="run", length=n)
    lst = caption_list([b]) if h.pick("list type", ["CaptionList", "list"]) == "CaptionList" else PyList([b])
    ctx.loops["run"] = MergeNodes
    ctx.loops["nodes"] = Nodes
    first = b.get(z3.IntVal(0))
    r = h.call(B.merge, lst)
    h.prove("times are the first caption's", Y.and_(Y.num_eq(at(r, "start"), at(first, "start")),
                                                    Y.num_eq(at(r, "end"), at(first, "end"))))
    items = seq_of(at(r, "nodes")).items
    ctx.decide("all nodes of the run", len(items) == 1 and getattr(items[0], "whole", None) is b, witness=repr(items))


class RunLoop:
    """At index i: merged = merge of every finished maximal run of captions[:i]; the current run is captions[j:i], all with one
    time span, and its last element is captions[i-1]."""

    def entry(self, it, fr):
        need = {"last_caption", "concurrent_captions", "merged_captions"}
        if not need <= set(fr.vars):
            raise Unsupported("run loop: other carried state than the contract names")
        ok = fr.vars["last_caption"] is None and not seq_of(fr.vars["concurrent_captions"]).items \
            and not seq_of(fr.vars["merged_captions"]).items
        it.ctx.decide("run loop: initial state", ok, backend="loop rule")
        self.merged_obj = fr.vars["merged_captions"]
        self.conc_cls = fr.vars["concurrent_captions"]

    def havoc(self, it, fr, i):
        ctx, b = it.ctx, self.loop_blob
        m = ctx.fresh(z3.IntSort(), "merged.len")
        ctx.assume(m >= 0)
        self.merged = Blob("merged", m, lambda j: None, tag="merged")
        self.merged_list = seq_of(self.merged_obj)
        fr.vars["merged_captions"] = self.merged_obj
        if ctx.branch(i == b.lo):
            ctx.assume(m == 0)
            self.merged_list.items = []
            self.state = "start"
            fr.vars["last_caption"] = None
            fr.vars["concurrent_captions"] = self.conc_cls
            seq_of(self.conc_cls).items = []
            return
        self.state = "run"
        self.merged_list.items = [self.merged]
        j = ctx.fresh(z3.IntSort(), "j")
        ctx.assume(z3.And(j >= b.lo, j < i))
        self.run = Blob("run", i, b.elem, j, tag="run", memo=b.memo)
        last = b.get(i - 1)
        first = b.get(j)
        ctx.assume(Y.and_(Y.num_eq(last.attrs["start"], first.attrs["start"]), Y.num_eq(last.attrs["end"], first.attrs["end"])))
        ctx.assume(z3.Or(m >= 1, j == b.lo))
        kind = ctx.choose(2, "list type")
        fr.vars["concurrent_captions"] = PyList([self.run]) if kind else caption_list([self.run])
        self.conc = seq_of(fr.vars["concurrent_captions"])
        fr.vars["last_caption"] = last
        self.last = last
        if i is b.length:
            self.final = True

    def step(self, it, fr, i):
        ctx, c = it.ctx, self.loop_blob.get(i)
        conc = seq_of(fr.vars["concurrent_captions"]).items
        ml = seq_of(fr.vars["merged_captions"]).items
        ctx.decide("run loop: last caption", fr.vars["last_caption"] is c, backend="loop rule")
        ctx.decide("run loop: same output list", fr.vars["merged_captions"] is self.merged_obj, backend="loop rule")
        if self.state == "start":
            ctx.decide("run loop: first run opens with the first caption", same_items(conc, [c]) and not ml, witness=repr((conc, ml)))
            return
        same = Y.and_(Y.num_eq(self.last.attrs["start"], c.attrs["start"]), Y.num_eq(self.last.attrs["end"], c.attrs["end"]))
        if same_items(conc, [self.run, c]) and same_items(ml, [self.merged]):
            ctx.prove("a run is extended only by an equal time span", same)
        elif same_items(conc, [c]) and len(ml) == 2 and ml[0] is self.merged and getattr(ml[1], "ghost_run", None) is not None:
            ctx.prove("a run is closed only at a different time span", Y.not_(same))
            ctx.decide("the finished run is merged whole", ml[1].ghost_run == [self.run], witness=repr(ml))
        else:
            ctx.decide("run loop: every caption joins the run or starts a new one", False, witness=repr((conc, ml)))

    def frame(self, it, fr):
        return [self.merged_list, seq_of(self.conc_cls)] + ([self.conc] if self.state == "run" else [])


def merge_contract(it, caps):
    """requires: a non-empty run; ensures: one caption with the first one's times and all nodes in order (proved above)."""
    s = seq_of(caps)
    it.ctx.decide("merge() is called on a non-empty run", bool(s.items), backend="precondition")
    first = s.items[0]
    if isinstance(first, Blob):
        it.ctx.prove("merge() is called on a non-empty run", first.size() >= 1)
        first = first.get(first.lo)
    r = caption_obj(it.ctx, "merged", start=first.attrs["start"], end=first.attrs["end"])
    r.ghost_run = list(s.items)
    return r


RUNS = ["a run is extended only by an equal time span", "a run is closed only at a different time span", "the finished run is merged whole", "result"]


@contract("C19", "merge_concurrent_captions", targets=[T + "merge_concurrent_captions"], expects=RUNS)
def merge_concurrent(h):
    """any number of languages with any number of captions each"""
    ctx = h.ctx

    def check(k):
        if not k.stored:
            ctx.prove("a list is left alone only when empty", k.source.size() == 0)
            return
        s = seq_of(k.stored[0])
        ok = len(k.stored) == 1 and len(s.items) in (1, 2) and getattr(s.items[-1], "ghost_run", None) is not None
        ctx.decide("the last run is merged too", ok, witness=repr(s.items))
        if ok:
            run = s.items[-1].ghost_run
            ctx.decide("the last run is this language's", len(run) == 1 and isinstance(run[0], Blob) and run[0].memo is k.source.memo,
                       witness=repr(run))
    k = Languages(h, check)
    ctx.loops["captions"] = RunLoop
    ctx.contracts["pycaption.base.merge"] = merge_contract
    r = h.call(B.merge_concurrent_captions, k.cs)
    ctx.decide("result", r is k.cs, witness="the same caption set is returned", backend="structural")


@contract("C19", "merge_concurrent_captions (two languages)", targets=[T + "merge_concurrent_captions"], bound="sets of two languages",
          expects=["a run is extended only by an equal time span", "a run is closed only at a different time span",
                   "the finished run is merged whole", "result"])
def _(h):
    ctx = h.ctx
    b = captions(ctx, "caps")
    b2 = captions(ctx, "caps2")
    both = h.pick("languages", [1, 2])
    l1 = caption_list([b])
    pairs = [["en", l1]] + ([["fr", caption_list([b2])]] if both == 2 else [])
    cs = SObj(CaptionSet, {"_captions": PyDict(pairs), "_styles": PyDict(), "layout_info": None})
    ctx.loops["captions"] = RunLoop
    ctx.contracts["pycaption.base.merge"] = merge_contract
    r = h.call(B.merge_concurrent_captions, cs)
    ctx.decide("result", r is cs, witness="the same caption set is returned", backend="structural")
    for k, v in [(p[0], p[1]) for p in cs.attrs["_captions"].pairs]:
        src = b if k == "en" else b2
        s = seq_of(v)
        if len(s.items) == 1 and s.items[0] is src:
            ctx.prove("a list is left alone only when empty", src.size() == 0)
            continue
        ok = len(s.items) in (1, 2) and getattr(s.items[-1], "ghost_run", None) is not None
        ctx.decide("the last run is merged too", ok, witness=repr(s.items))
        if ok:
            run = s.items[-1].ghost_run
            ctx.decide("the last run is this language's", len(run) == 1 and isinstance(run[0], Blob) and run[0].memo is src.memo,
                       witness=repr(run))
