"""The document loops of the markup writers: DFXPWriter.write, LegacyDFXPWriter.write, SAMIWriter.write.

Any number of languages, any number of captions in each, any number of nodes in each caption.  bs4 is taken at this contract:
BeautifulSoup(markup).find(name) is the element of that name in the (constant) markup; new_tag(name, **attributes) is a new
element; append adds it as the last child; prettify prints the tree.  Callees of the package are taken at their contracts
(proved where CONTRACTS.md lists them): the paragraph builders, _relativize and _relativize_and_fit_to_screen, the region
creator, merge_concurrent_captions, the caption set's accessors.

Loop rules: nested, one arbitrary iteration each.  What a captions loop appends is recorded; all its iterations must append the
same kind of thing (nothing, or exactly the paragraph of the iteration's caption, to one and the same element)."""
import ast

import z3
from bs4 import BeautifulSoup

from pycaption.base import Caption, CaptionNode, CaptionSet
from pycaption.dfxp.base import DFXPWriter
from pycaption.dfxp.extras import LegacyDFXPWriter
from pycaption.sami import SAMIWriter

from pyvc import lang as L
from pyvc import models
from pyvc import sym as Y
from pyvc.sym import Blob, Elsewhere, Opaque, PyDict, PyList, SObj

from .lib import caption_list, num

ONE = "every caption of the language is one paragraph of its division, in order, and nothing else is"
DIVS = "every language is one division, in order, under its own name, and nothing else is"
FIT = "every layout has passed through the relativizing and fitting functions before it is written"
PLACED = "a paragraph is placed by its own caption and language, a division by its language"
PRIMARY = "the first language is the primary one, for every caption"
START = "the first caption of a language is written as by a new writer"
B = "pycaption.base."
WRITERS = (DFXPWriter, LegacyDFXPWriter, SAMIWriter)
STAMPS = "begin and end are the stamps of the caption's own start and end"
TEXT = "the content of the paragraph is the caption's text"


def tag(doc, name, attrs=()):
    d = PyDict([list(p) for p in attrs])
    o = Opaque(name, tag=name, kids=[])
    o.attrs.update(
        attrs=d,
        __setitem__=lambda it, k, v: models.setitem(it, d, k, v),
        __getitem__=lambda it, me, k: models.dict_get(it, d, k, None),
        append=lambda it, me, x: doc.appended(o, x),
        extract=lambda it, me: doc.log.append(("extract", o)),
        find=lambda it, me, *a, **k: doc.find(it, o, *a, **k))
    return o


class Doc:
    def __init__(self):
        self.log, self.known, self.no_styles = [], {}, False
        self.soup = Opaque("soup", new_tag=lambda it, me, name, **a: tag(self, name, a.items()),
                           find=lambda it, me, name, *a, **k: self.find(it, self.soup, name, *a, **k),
                           prettify=lambda it, me, *a, **k: "declaration\ndocument")
        self.soup.attrs["body"] = self.get("body")

    def get(self, name):
        if name not in self.known:
            self.known[name] = tag(self, name)
        return self.known[name]

    def find(self, it, where, name, *a, **k):
        if name == "style" and a:
            if self.no_styles or it.ctx.choose(2, "no such style"):
                return None
        elif name == "p" and it.ctx.choose(2, "no paragraph"):
            return None
        return self.get(name)

    def appended(self, o, x):
        o.attrs["kids"].append(x)
        self.log.append((o, x))


def layout(ctx, name, maybe=True):
    if maybe and ctx.choose(2, name):
        return None
    o = Opaque(name)
    o.attrs["__deepcopy__"] = lambda it, memo=None: o
    return o


class World:
    def __init__(self, h, fits):
        ctx = self.ctx = h.ctx
        self.h, self.fits = h, fits
        self.lists, self.fitted, self.fit_loops, self.all_fitted, self.languages_fitted, self.all_nodes = {}, {}, set(), False, False, False
        n = ctx.fresh(z3.IntSort(), "languages.len")
        ctx.assume(n >= 0)
        self.languages = Blob("languages", n, lambda i: Y.rope(Y.Word("language", L.rx("[a-z-]+"))), tag="languages")
        self.doc = Doc()
        self.given = SObj(CaptionSet, {"_styles": PyDict([["p", PyDict([["color", "red"]])], ["q", PyDict()]]), "layout_info": layout(ctx, "set layout")})
        self.set_layout = self.given.attrs["layout_info"]
        self.writer = None
        h.patch("bs4.BeautifulSoup", lambda it, *a, **k: self.doc.soup)
        h.patch(B + "CaptionSet.get_languages", lambda it, cs: PyList([self.languages]))
        h.patch(B + "CaptionSet.get_captions", lambda it, cs, lang: self.list_of(lang))
        h.patch(B + "CaptionSet.get_layout_info", lambda it, cs, lang: self.list_of(lang).attrs["layout_info"])
        h.patch(B + "CaptionSet.set_layout_info", lambda it, cs, lang, v: it.setattr(self.list_of(lang), "layout_info", v))
        h.patch(B + "merge_concurrent_captions", lambda it, cs: cs)
        h.patch(B + "BaseWriter._relativize", lambda it, w, l: self.fit(l, "relativized"))
        h.patch(B + "BaseWriter._relativize_and_fit_to_screen", lambda it, w, l: self.fit(l, "fitted"))
        ctx.loops["languages"] = self.spec(LanguageLoop)
        ctx.loops["captions"] = self.spec(CaptionLoop)
        ctx.loops["nodes"] = self.spec(NodeLoop)

    def spec(self, cls):
        w = self

        class Spec(cls):
            world = w
        return Spec

    def fit(self, l, how):
        if l is None:
            return None
        k = (id(l), how)
        if k not in self.fitted:
            o = Opaque("%s %s" % (how, l.name))
            o.attrs.update(__deepcopy__=lambda it, memo=None: o, of=l, how=how)
            self.fitted[k] = (o, l)
        return self.fitted[k][0]

    def list_of(self, lang):
        for l, lst in self.lists.values():
            if l is lang:
                return lst
        if not isinstance(lang, Y.Rope):
            raise Elsewhere("captions of %r" % (lang,))
        ctx = self.ctx
        n = ctx.fresh(z3.IntSort(), "captions.len")
        ctx.assume(n >= 0)
        done = self.all_fitted          # a loop over all languages has fitted the layouts of their captions
        lst = caption_list([Blob("captions", n, lambda i: self.as_fitted(self.caption(), lang, self.all_nodes) if done else self.caption(), tag="captions")], layout(ctx, "language layout"))
        lst.source = lst.attrs["layout_info"]
        self.lists[id(lang)] = (lang, lst)
        return lst

    def as_fitted(self, c, lang, nodes):
        if nodes:
            self.nodes_fitted.add(id(c.attrs["nodes"].items[0]))
        if self.fitting:
            c.attrs["layout_info"] = self.fitted_layout(c, lang)
        return c

    def caption(self):
        ctx = self.ctx
        n = ctx.fresh(z3.IntSort(), "nodes.len")
        ctx.assume(n >= 0)
        nodes = PyList([Blob("nodes", n, lambda i: self.node(), tag="nodes")])
        style = PyDict([["color", "red"]]) if ctx.choose(2, "styled") else PyDict()
        c = SObj(Caption, {"start": num(ctx, "start", "int"), "end": num(ctx, "end", "int"), "nodes": nodes, "style": style,
                           "layout_info": layout(ctx, "caption layout")})
        c.source = c.attrs["layout_info"]
        return c

    def node(self):
        n = SObj(CaptionNode, {"type_": CaptionNode.TEXT, "content": Y.rope(Y.Word("text", L.TOP)), "start": None, "position": None,
                               "layout_info": layout(self.ctx, "node layout")})
        n.source = n.attrs["layout_info"]
        return n


class Loop:
    def entry(self, it, fr):
        self.start = dict(fr.vars)

    def carried(self, fr):
        return [n for n in self.assigned if n in self.start and not (isinstance(self.node, ast.For) and n in targets(self.node.target))]

    def frame(self, it, fr):
        return []


def place_of(node):
    if not hasattr(node, "lineno"):
        raise Elsewhere("a comprehension")
    return node.lineno, node.col_offset


def targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


class NodeLoop(Loop):
    def havoc(self, it, fr, i):
        if self.carried(fr):
            raise Elsewhere("state carried from node to node")
        self.cur = None if i is self.loop_blob.length else self.loop_blob.get(i)
        if self.cur is not None:
            self.old = dict(self.cur.attrs)
        else:
            self.world.nodes_fitted.add(id(self.loop_blob))

    def step(self, it, fr, i):
        n, w = self.cur, self.world
        if w.captions_fitted:
            it.ctx.decide(FIT, n.attrs["layout_info"] is w.fit(n.source, "fitted"), witness="node layout %r" % n.attrs["layout_info"],
                          backend="loop rule")
        it.ctx.decide("a node keeps all but its layout", all(n.attrs[k] is self.old[k] for k in self.old if k != "layout_info"), witness=repr(n), backend="frame")

    def frame(self, it, fr):
        return [(self.cur, "layout_info")] if self.cur is not None else []


class CaptionLoop(Loop):
    """what its iterations append is agreed upon over all paths: world.emits"""

    def havoc(self, it, fr, i):
        w, ctx = self.world, it.ctx
        key = place_of(self.node)
        self.key = key
        for n in self.carried(fr):
            fr.vars[n] = self.start[n]          # only a variable that is assigned the same object again (checked in step)
        self.cur = None
        if i is self.loop_blob.length:
            what = w.shared.get(key)
            if what is not None and what[0] == "append":
                o = fr.vars.get(what[1])
                if not isinstance(o, Opaque) or "kids" not in o.attrs:
                    raise Elsewhere("captions are not appended to a local element")
                o.attrs["kids"].append(("paragraphs", self.loop_blob))
                w.doc.log.append((o, ("paragraphs", self.loop_blob)))
            elif what is not None and what[0] == "call":
                w.doc.log.append(("written", self.loop_blob))
            elif what is not None and what[0] == "fit":
                make = self.loop_blob.elem

                w.fit_loops.add(id(self.loop_blob))
                w.nodes_of[id(self.loop_blob)] = w.shared.get(("nodes", key), False)

                def later(j, make=make, lang=w.lang, nodes=w.shared.get(("nodes", key), False)):
                    return w.as_fitted(make(j), lang, nodes)
                self.loop_blob.elem = later
                self.loop_blob.memo.clear()
            if w.writer is not None and "last_time" in w.writer.attrs:
                w.writer.attrs["last_time"] = num(ctx, "last time", "int")
            return
        self.cur = self.loop_blob.get(i)
        self.mark = len(w.doc.log)
        self.calls = len(w.paragraphs)
        self.before = self.cur.attrs["layout_info"]
        if w.writer is not None and "last_time" in w.writer.attrs:
            if ctx.branch(i == self.loop_blob.lo):
                ctx.decide(START, w.writer.attrs["last_time"] is None, witness=repr(w.writer.attrs["last_time"]), backend="loop rule")
            else:
                w.writer.attrs["last_time"] = num(ctx, "last time", "int")

    def step(self, it, fr, i):
        w, ctx, c = self.world, it.ctx, self.cur
        for n in self.carried(fr):
            if fr.vars.get(n) is not self.start[n]:
                raise Elsewhere("state carried from caption to caption: %s" % n)
        done = id(c.attrs["nodes"].items[0]) in w.nodes_fitted
        k = ("nodes", self.key)
        w.shared[k] = w.shared.get(k, True) and done
        new = w.doc.log[self.mark:]
        ps = w.paragraphs[self.calls:]
        if w.captions_fitted and (not ps or c.attrs["layout_info"] is not self.before):
            ctx.decide(FIT, w.layout_ok(c, it, fr), witness="caption layout %r" % (c.attrs["layout_info"],), backend="loop rule")
        if w.calls_emit:
            what = ("call",) if ps else ("fit",)
            ctx.decide(ONE, not new and [p[0] for p in ps] in ([], [c]), witness=repr((new, ps)), backend="loop rule")
        else:
            names = [k for k, v in fr.vars.items() if new and v is new[0][0]]
            what = ("append", names[0] if names else None) if new else ("fit",)
            ctx.decide(ONE, [x for _, x in new] == [p[1] for p in ps] and [p[0] for p in ps] in ([], [c]), witness=repr((new, ps)), backend="loop rule")
            if new and not names:
                raise Elsewhere("captions are not appended to a local element")
            if ps and w.captions_fitted:
                ctx.decide(FIT, done, witness="the layouts of the nodes", backend="loop rule")
                ctx.decide(FIT, w.layout_ok(c, it, fr), witness="caption layout %r" % (c.attrs["layout_info"],), backend="loop rule")
            if ps:
                ctx.decide(PLACED, w.placed.get(id(ps[0][1]), (None, None, None))[1:] == (ps[0][2], c) if w.places else True,
                           witness=repr(w.placed.get(id(ps[0][1]))), backend="loop rule")
        was = w.shared.setdefault(self.key, what)
        ctx.decide(ONE, was == what, witness="not every caption: %r, %r" % (was, what), backend="loop rule")

    def frame(self, it, fr):
        out = [(self.cur, "layout_info"), self.world.writer]
        if self.cur is not None:
            out.append(self.cur.attrs["style"])
        return out


class LanguageLoop(Loop):
    def havoc(self, it, fr, i):
        w, ctx = self.world, it.ctx
        key = place_of(self.node)
        self.key = key
        first = None
        if not (i is self.loop_blob.length):
            first = ctx.branch(i == self.loop_blob.lo)
        for n in self.carried(fr):
            if self.start[n] is None and first is not True:
                # a variable that remembers the first language (checked in step)
                if first is None:
                    continue
                fr.vars[n] = self.loop_blob.get(self.loop_blob.lo)          # not the language of this iteration
            else:
                fr.vars[n] = self.start[n]
        self.mark = len(w.doc.log)
        if i is self.loop_blob.length:
            what = w.shared.get(key)
            w.languages_fitted = w.languages_fitted or w.shared.get(("language", key), False)
            w.all_nodes = w.all_nodes or w.shared.get(("nodes", key), False)
            w.all_fitted = w.all_fitted or w.shared.get(("fitted", key), False)
            if what is not None and what[0] == "append":
                w.doc.log.append((w.doc.get(what[1]), ("divisions", self.loop_blob)))
            elif what is not None and what[0] == "call":
                w.doc.log.append(("written", "languages"))
            return
        memo, lo = self.loop_blob.memo, z3.simplify(self.loop_blob.lo).sexpr()
        if first and lo in memo:
            memo[z3.simplify(i).sexpr()] = memo[lo]
        w.lang = self.loop_blob.get(i)
        if first:
            memo[lo] = w.lang
        w.first = self.loop_blob.get(self.loop_blob.lo)
        if w.writer is not None and "last_time" in w.writer.attrs:
            w.writer.attrs["last_time"] = num(ctx, "last time of the language before", "int")

    def step(self, it, fr, i):
        w, ctx = self.world, it.ctx
        for n in self.carried(fr):
            v = fr.vars.get(n)
            if v is not self.start[n] and not (self.start[n] is None and v is w.first):
                raise Elsewhere("state carried from language to language: %s" % n)
        new = w.doc.log[self.mark:]
        what = w.division(it, new, w.lang)
        lst = w.list_of(w.lang)
        k = ("language", self.key)
        w.shared[k] = w.shared.get(k, True) and lst.attrs["layout_info"] in w.language_layouts(lst.source)
        k = ("nodes", self.key)
        w.shared[k] = w.shared.get(k, True) and w.nodes_of.get(id(seq_blob(lst)), False)
        k = ("fitted", self.key)
        w.shared[k] = w.shared.get(k, True) and id(seq_blob(w.list_of(w.lang))) in w.fit_loops
        was = w.shared.setdefault(self.key, what)
        ctx.decide(DIVS, was == what, witness="not every language: %r, %r" % (was, what), backend="loop rule")

    def frame(self, it, fr):
        w = self.world
        return [w.writer] + [(lst, "layout_info") for _, lst in w.lists.values()]


def setup(h, cls, shared, calls_emit, places):
    w = World(h, None)
    w.shared, w.calls_emit, w.places = shared, calls_emit, places
    w.paragraphs, w.placed, w.nodes_fitted, w.nodes_of = [], {}, set(), {}
    w.doc.no_styles = cls is LegacyDFXPWriter      # no style has the name of the region yet
    w.fitting = cls is not LegacyDFXPWriter      # which writes no layouts

    hows = ["fitted"] if cls is SAMIWriter else ["fitted", "relativized"]
    w.language_layouts = lambda l: [w.fit(l, how) for how in hows]
    w.captions_fitted = cls is DFXPWriter        # a SAMI document has no place for the layout of a caption

    def fitted_layout(c, lang=None):
        lst = w.list_of(w.lang if lang is None else lang)
        if c.source is None and cls is DFXPWriter:      # what it inherits is fitted with it
            return w.fit(lst.source if lst.source is not None else w.set_layout, "fitted")
        return w.fit(c.source, "fitted")
    w.fitted_layout = fitted_layout

    def layout_ok(c, it, fr):
        got = c.attrs["layout_info"]
        if got is fitted_layout(c):
            return True
        lst = w.list_of(w.lang)          # or what it inherits has been fitted itself
        return c.source is None and got is None and lst.source is not None and lst.attrs["layout_info"] is w.fit(lst.source, "fitted")
    w.layout_ok = layout_ok

    def division(it, new, lang):
        """what one iteration of a loop over languages has done to the document"""
        ctx = it.ctx
        lst = seq_blob(w.list_of(lang))
        if calls_emit:
            if not new:
                return ("fit",)
            ctx.decide(DIVS, len(new) == 1 and new[0][0] == "written" and new[0][1] is lst, witness=repr(new), backend="loop rule")
            return ("call",)
        to_body = [x for o, x in new if o is w.doc.get("body")]
        if not new:
            return ("fit",)
        d = to_body[0] if to_body else None
        ok = len(to_body) == 1 and isinstance(d, Opaque) and d.attrs.get("tag") == "div" and len(new) == 2 and all(
            o is d for o, x in new if x is not d)
        ctx.decide(DIVS, ok, witness=repr(new), backend="loop rule")
        if ok:
            names = models.dict_get(it, d.attrs["attrs"], "xml:lang", None)
            ctx.decide(DIVS, names is lang, witness=repr(names), backend="loop rule")
            kids = d.attrs["kids"]
            ctx.decide(ONE, len(kids) == 1 and isinstance(kids[0], tuple) and kids[0][1] is lst, witness=repr(kids), backend="loop rule")
            if places:
                ctx.decide(PLACED, w.placed.get(id(d), (None, None, None))[1:] == (lang, None), witness=repr(w.placed.get(id(d))), backend="loop rule")
        return ("append", "body")
    w.division = division

    def paragraph_dfxp(it, me, c, style, dfxp, cs=None, lang=None):
        if dfxp is not w.doc.soup:
            raise Elsewhere("another document")
        p = tag(w.doc, "p")
        w.paragraphs.append((c, p, lang if places else w.lang))
        if places:
            it.ctx.decide(PLACED, lang is w.lang, witness=repr(lang), backend="loop rule")
        return p

    def paragraph_sami(it, me, c, sami, lang, primary, cs):
        if sami is not w.doc.soup:
            raise Elsewhere("another document")
        it.ctx.decide(DIVS, lang is w.lang, witness=repr(lang), backend="loop rule")
        it.ctx.decide(PRIMARY, primary is w.first, witness=repr(primary), backend="loop rule")
        w.paragraphs.append((c, None, lang))
        return sami

    def place(it, me, t, lang, cs=None, caption=None, node=None):
        w.placed[id(t)] = (t, lang, caption)
    def made(it, me, soup, cs):
        if soup is not w.doc.soup:
            raise Elsewhere("another document")
        used(it, cs)

    def used(it, cs):
        it.ctx.decide(FIT, cs.attrs["layout_info"] in w.language_layouts(w.set_layout), witness="layout of the set: %r" % (cs.attrs["layout_info"],),
                      backend="loop rule")
        it.ctx.decide(FIT, w.languages_fitted or w.forced, witness="the layouts of the languages", backend="loop rule")
    q = "%s.%s." % (cls.__module__, cls.__name__)
    h.patch("pycaption.dfxp.base.DFXPFormatter.__init__", lambda it, me, *a, **k: None)
    h.patch("bs4.formatter.XMLFormatter.__init__", lambda it, me, *a, **k: None)
    if cls is SAMIWriter:
        h.patch(q + "_recreate_p_tag", paragraph_sami)
        h.patch(q + "_recreate_stylesheet", lambda it, me, cs: used(it, cs) or Y.rope(Y.Word("stylesheet", L.TOP)))
    else:
        h.patch(q + "_recreate_p_tag", paragraph_dfxp)
        h.patch(q + "_recreate_styling_tag", lambda it, me, s, content, dfxp: dfxp)
        if cls is LegacyDFXPWriter:
            h.patch(q + "_recreate_region_tag", lambda it, me, s, content, dfxp: dfxp)
        else:
            h.patch(q + "_assign_positioning_data", place)
            r = "pycaption.dfxp.base.RegionCreator."
            h.patch(r + "__init__", made)
            h.patch(r + "create_document_regions", lambda it, me: None)
            h.patch(r + "cleanup_regions", lambda it, me: None)
    return w


def seq_blob(lst):
    return lst.data.items[0]


def register(contract, prop, cls, expects, only=True):
    q = "%s.%s." % (cls.__module__, cls.__name__)
    shared = {}

    @contract(prop, cls.__name__ + ".write: languages and captions", targets=[q + "write"], expects=expects, timeout=200, only=only)
    def _(h):
        """any number of languages, captions and nodes; with and without force; bs4 and the callees at the contracts stated in contracts/writers.py"""
        emit, places = cls is SAMIWriter, cls is DFXPWriter
        w = setup(h, cls, shared, emit, places)
        w.lang = w.first = None
        w.writer = h.call(cls)
        force = h.pick("force", [False, True]) if cls is not SAMIWriter else False
        w.forced = force
        if force:
            w.lang = w.languages.get(z3.IntVal(0))
            h.ctx.assume(w.languages.length >= 1)
            h.ctx.models["contains"] = lambda it, c, x: True if x is w.lang else unsupported("membership")
            if cls is LegacyDFXPWriter:
                h.patch(q + "_force_language", lambda it, me, f, langs: f)
            h.meth(w.writer, "write", w.given, force=w.lang)
        else:
            h.ctx.models["contains"] = lambda it, c, x: False if x == "" else unsupported("membership")      # no language is called nothing
            h.meth(w.writer, "write", w.given)
        log = [x for x in w.doc.log if x[0] in ("written",) or isinstance(x[0], Opaque) and x[0] is w.doc.get("body")]
        if force:
            h.ctx.decide(DIVS, w.division(h.it, [x for x in w.doc.log if isinstance(x[0], Opaque) and x[0].attrs.get("tag") in ("div", "body")], w.lang)
                         == ("append", "body"), witness=repr(w.doc.log), backend="loop rule")
        else:
            want = [("written", "languages")] if emit else [(w.doc.get("body"), ("divisions", w.languages))]
            h.ctx.decide(DIVS, log == want, witness=repr(w.doc.log), backend="loop rule")
    return _


def unsupported(s):
    raise Elsewhere(s)


def register_paragraph(contract, prop, cls, expects, kind="int", stamp=None, micros=None, more=()):
    q = "%s.%s." % (cls.__module__, cls.__name__)

    @contract(prop, "%s._recreate_p_tag%s" % (cls.__name__, "" if stamp is None else " (%s instants)" % kind), targets=[q + "_recreate_p_tag"],
              expects=list(expects) + list(more), only=True)
    def _(h):
        """the paragraph of one caption; its text is what _recreate_text gives; bs4 at the contract of contracts/writers.py"""
        t = micros(h, kind) if micros else h.int("t", 0, 10 ** 9)
        which = h.pick("instant", ["begin", "end"]) if stamp else "begin"
        u = 1000 * 86399 if stamp else 2 * 10 ** 9
        c = h.obj(Caption, owner="input", start=t if which == "begin" else 0, end=t if which == "end" else u,
                  nodes=PyList([]) if h.symbolic else [], style=PyDict() if h.symbolic else {}, layout_info=None)
        text = h.word("text", L.star(L.ANY - L.A.chars("&<>\r")))
        args = []

        def recreate(*x):
            args.append([y for y in x if y is c])
            return text
        h.patch(q + "_recreate_text", recreate)
        if h.symbolic:
            d = Doc()
            soup = d.soup
        else:
            soup = BeautifulSoup("<tt><head><styling/></head><body/></tt>", "lxml-xml")
        w = h.call(cls)
        style = PyDict([["color", "red"]]) if h.symbolic else {"color": "red"}
        p = h.meth(w, "_recreate_p_tag", c, style, soup) if cls is LegacyDFXPWriter else h.meth(w, "_recreate_p_tag", c, style, soup, None, "en")
        if h.symbolic:
            attrs = {k: v for k, v in p.attrs["attrs"].pairs}
            content = p.attrs.get("string")
        else:
            attrs, content = p.attrs, "".join(p.strings)
        h.prove(TEXT, len(args) == 1 and len(args[0]) == 1 and content is not None and h.truth(h.eq(content, text)))
        h.prove(STAMPS, "begin" in attrs and "end" in attrs)
        if stamp and which in attrs:
            stamp(h, attrs[which], t, kind)
    return _
