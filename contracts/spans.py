"""The loops in which the SAMI, DFXP and WebVTT writers spell a caption's nodes as markup, for node lists of every length.

The invariants are inferred (pyvc/finite.py): a string under construction is remembered by which member of a family of regular
languages it is in, and the members say whether a span is open at its end and what the span's tag says (italic, bold, underline,
region).  Every text node is then checked against the style nodes around it in the source."""
from functools import lru_cache

from pycaption.base import Caption, CaptionNode

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.finite import FiniteLoop, StrFamily, Typed, get_path
from pyvc.sym import PyDict, PyList, SObj, Unsupported

from . import spec
from .lib import at

CHAR = L.rep(L.ANY - L.A.chars("<>&"), 1, 1) | L.rx("&(amp|lt|gt|quot|apos);")
VALUE = L.starof(L.rep(L.ANY - L.A.chars("<>&\""), 1, 1) | L.rx("&(amp|lt|gt|quot|apos|#[0-9]+);"))
BR = L.literal("<br/>")
BODY = L.starof(CHAR | BR)
ATTR = L.cat(L.rx(" [A-Za-z:]+="), L.literal('"'), VALUE, L.literal('"'))
ATTRS = L.starof(ATTR)
BALANCED = L.starof(CHAR | BR | L.cat(L.literal("<span"), ATTRS, L.literal(">"), BODY, L.literal("</span>")))


def opened(attrs):
    """well-formed text that ends inside a span with such attributes"""
    return L.cat(BALANCED, L.literal("<span"), attrs, L.literal(">"), BODY)


TEXT_CHARS = L.plus(L.ANY - L.A.chars("\n\r"))        # a text node is (part of) one line
KEEP = "every character keeps its italics, and bold and underline where the format has them"
ADDED = "a text node adds exactly its escaped text, at the end of what is written"
OTHERS = "any other node adds markup and blanks only, a break exactly one line break, and nothing written is taken away but blanks"
CLOSED = "the markup is balanced: every span is closed, none inside another"


def node(kind, styles, **attrs):
    """an arbitrary caption node of a kind"""
    a = {"type_": CaptionNode.BREAK, "content": None, "start": None, "position": None, "layout_info": None}
    if kind == "empty":
        a.update(type_=CaptionNode.TEXT, content="")
    elif kind.startswith("text"):
        a.update(type_=CaptionNode.TEXT, content=Y.rope(Y.Word("text", TEXT_CHARS)))
    elif kind.startswith("on:") or kind.startswith("off:"):
        on, _, k = kind.partition(":")
        a.update(type_=CaptionNode.STYLE, start=on == "on", content=PyDict([[n, v() if callable(v) else v] for n, v in styles[k].items()]))
    a.update(attrs)
    return SObj(CaptionNode, a)


def step(core, kind):
    """spans that open, close and do not nest: the state is the style the characters are in"""
    if kind.startswith("on:"):
        return kind[3:] if core == "plain" else None
    if kind.startswith("off:"):
        return "plain" if core == kind[4:] else None
    return core


class Writing(FiniteLoop):
    """the loop over a caption's nodes: expected(core, node) is what the source says of a text node's characters, seen(state)
    what the markup says of characters written in that state of the string"""

    br = L.rx("<br/>")
    filler = L.starof(L.rx("[ \n\t\r\f\v]") | L.rx("<[^<>]*>"))

    def __init__(self, family, names, expected, seen, decode=None, meant=None):
        self.decode, self.meant = decode, meant
        self.fam, self.names, self.expected, self.seen = family, names, expected, seen
        self.fam_of = {family.name: family}
        self.checked = None
        self.decodes = {}
        self.others = self.filler - L.cat(L.TOP, L.cat(self.br, L.TOP))
        self.breaks = L.cat(self.others, L.cat(self.br, self.others))

    def decoded(self, it, part, word):
        """the written characters stand for the text: a parser decodes them to it"""
        f = getattr(part, "f", None)
        if self.decode is None:
            return part is word
        if id(f) not in self.decodes:
            want = it.call(self.meant, [Y.rope(word)]) if self.meant else Y.rope(word)
            self.decodes[id(f)] = f, it.truth(it.eq(it.call(self.decode, [Y.rope(part)]), want))
        return self.decodes[id(f)][1]

    def rest(self, old, new):
        """what is in the new string after what was written before, or None"""
        olds, parts = Y.parts_of(old), list(Y.parts_of(new))
        if not olds:
            return parts
        if len(olds) == 1 and isinstance(olds[0], str):
            for o in (olds[0], olds[0].rstrip()):
                if not o:
                    return parts
                if parts and isinstance(parts[0], str) and parts[0].startswith(o):
                    return [parts[0][len(o):]] + parts[1:]
            return None
        for n, a in enumerate(olds):
            if n >= len(parts):
                return None
            b = parts[n]
            if a is b or a == b:
                continue
            if n == len(olds) - 1:
                if isinstance(a, str) and isinstance(b, str) and b.startswith(a):
                    return [b[len(a):]] + parts[n + 1:]
                d = getattr(b, "derived", None)
                if d is not None and d[0] == "strip" and d[1] is a and d[2] <= L.STRIPWS and not d[3]:
                    return parts[n + 1:]
            return None
        return parts[len(olds):]

    def family(self, p):
        return self.fam

    def begin(self, it, fr):
        self.checked = 0

    def changed(self, it, fr, p, old, new):
        if self.kind is None or not (Y.is_str(old) and Y.is_str(new)):
            return
        lines = self.sh.setdefault("lines", set())          # the strings that receive text
        if not self.kind.startswith("text"):
            if p not in lines:
                return
            rest = self.rest(old, new)
            lang = None if rest is None else Y.lang_of(Y.rope(*rest))
            it.ctx.decide(OTHERS, lang is not None and lang.subset(self.breaks if self.kind == "break" else self.others),
                          witness="%s: %r becomes %r" % (self.kind, old, new), backend="loop rule")
            return
        w = self.x.attrs["content"]
        parts = Y.parts_of(new)
        at_ = [n for n, x in enumerate(parts) if any((getattr(x, "word", None) or x) is y for y in Y.parts_of(w))]
        if not at_:
            return
        self.checked += 1
        if p not in lines:
            lines.add(p)
            it.ctx.shared["grew"] = True
        before = self.rest(old, Y.rope(*parts[:at_[0]]))
        kept = before is not None and Y.lang_of(Y.rope(*before)).subset(self.others)
        rest = Y.lang_of(Y.rope(*parts[at_[-1] + 1:]))
        it.ctx.decide(ADDED, len(at_) == 1 and kept and rest.subset(L.rx(" *")) and self.decoded(it, parts[at_[0]], Y.parts_of(w)[0]),
                      witness=repr(new), backend="loop rule")
        got = self.fam.states(Y.rope(*parts[:at_[0]]))[1]
        for name, want, have in zip(self.names, self.expected(self.core, self.x), self.seen(got)):
            it.ctx.decide(name, want == have, witness="in %s: %s, written in %s" % (self.core, want, got), backend="loop rule")

    def finish(self, it, fr):
        if self.kind is not None and self.kind.startswith("text"):
            it.ctx.decide(ADDED, self.checked == 1, witness="the text is not in the string", backend="loop rule")


# ------------------------------------------------------------------ SAMI

CSS = {"i": "font-style:italic;", "b": "font-weight:bold;", "u": "text-decoration:underline;"}
NAME = L.plus(L.ANY - L.A.chars(":;<>&\"") - L.A.where(str.isspace))
CLASS = L.plus(L.ANY - L.A.chars(":;"))          # a CSS identifier has neither
SAMI_STYLES = {"i": {"italics": True}, "b": {"bold": True}, "u": {"underline": True}, "bi": {"bold": True, "italics": True},
               "not i": {"italics": False}, "class": {"class": lambda: Y.rope(Y.Word("class", CLASS))},
               "class i": {"class": lambda: Y.rope(Y.Word("class", CLASS)), "italics": True},
               "color": {"color": lambda: Y.rope(Y.Word("color", NAME))}, "none": {}}


def flags(styles, k):
    s = styles.get(k, {})
    return tuple(s.get(n) is True for n in ("italics", "bold", "underline"))


@lru_cache(None)
def sami_family():
    """no open span, or an open span whose style attribute sets exactly these of italic, bold and underline"""
    fam = {"none": BALANCED}
    style = L.cat(L.literal(' style="'), VALUE, L.literal('"'))
    rest = L.cat(L.starof(ATTR - style), L.rep(L.ANY, 0, 0))
    for n in range(8):
        on = tuple(bool(n >> b & 1) for b in (2, 1, 0))
        one = style
        for f, css in zip(on, CSS.values()):
            c = L.containing(css) | L.containing(css)
            one = one & c if f else one - c
        attrs = L.cat(rest, one, rest)
        if n == 0:
            attrs = attrs | rest
        fam[on] = opened(attrs)
    return StrFamily("sami", fam)


def sami(h):
    from pycaption.sami import SAMIWriter
    kinds = ["text", "break"] + ["%s:%s" % (o, k) for k in SAMI_STYLES for o in ("on", "off")]
    src = Typed("nodes", kinds, lambda k: node(k, SAMI_STYLES), "plain", step, final=("plain",), tag="nodes")
    h.ctx.loops["nodes"] = Writing(sami_family(), [KEEP] * 3, lambda core, x: flags(SAMI_STYLES, core),
                                   lambda got: (False,) * 3 if got == "none" else got, spec.xml_decode)
    w = h.call(SAMIWriter)
    r = h.meth(w, "_recreate_text", PyList([src]))
    h.prove_in(CLOSED, r, BALANCED)


# ------------------------------------------------------------------ DFXP

REGION = "every character is in the region of its effective layout"


def word(name, lang=L.TOP - L.EPS):
    return lambda: Y.rope(Y.Word(name, lang))


DFXP_STYLES = {"i": {"italics": True}, "b": {"bold": True}, "not i": {"italics": False}, "none": {},
               "class": {"class": word("class"), "classes": lambda: PyList([Y.rope(Y.Word("class", L.TOP - L.EPS))])},
               "class i": {"class": word("class"), "italics": True},
               "align i": {"text-align": "center", "italics": True}, "color": {"color": word("color")}}
REGIONS = {"": "r0", "@A": "rA", "@B": "rB"}
ITALIC = L.literal(' tts:fontStyle="italic"')


@lru_cache(None)
def dfxp_family(regions):
    """no open span, or an open span with or without tts:fontStyle="italic", with or without a region"""
    other = L.starof(ATTR - ITALIC - L.starting(' region="'))
    fam = {"none": BALANCED}
    for it_ in (True, False):
        for r in (None,) + (tuple(REGIONS.values()) if regions else ()):
            named = ([ITALIC] if it_ else []) + ([L.literal(' region="%s"' % r)] if r else [])
            orders = [named, named[::-1]] if len(named) == 2 else [named]
            x = None
            for o in orders:
                y = L.cat(other, *[z for n in o for z in (n, other)])
                x = y if x is None else x | y
            fam[(it_, r)] = opened(x.minimize())
    return StrFamily("dfxp", fam)


class DfxpWriting(Writing):
    def abst(self, it, v, p=None):
        if isinstance(v, str) and v and "<" not in v:
            return ("const", v)
        if isinstance(v, PyDict):
            return ("dict",) + tuple((k, self.abst(it, x, p)) for k, x in v.pairs)
        if isinstance(v, Y.Rope) and self.fam_of is not None and p and not self.markup(v):
            return ("word",)
        if isinstance(v, SObj) and v.cls is object:
            self.objs = getattr(self, "objs", {})
            self.objs[id(v)] = v
            return ("obj", id(v))
        return super().abst(it, v, p)

    def markup(self, v):
        return any(isinstance(x, str) and "<" in x or getattr(x, "name", "").startswith("acc:") for x in Y.parts_of(v))

    def conc(self, it, a, cur):
        if a[0] == "dict":
            return PyDict([[k, self.conc(it, x, None)] for k, x in a[1:]])
        if a[0] == "word":
            return Y.rope(Y.Word("value", L.TOP - L.EPS))
        if a[0] == "obj":
            return self.objs[a[1]]
        return super().conc(it, a, cur)


def dfxp(h, legacy=False, regions=True):
    from pycaption.dfxp.base import DFXPWriter
    from pycaption.dfxp.extras import LegacyDFXPWriter
    styles = {k: DFXP_STYLES[k] for k in (("i", "none", "align i", "color") if regions else DFXP_STYLES)}
    lays = {s: SObj(object, {}) for s in ("@A", "@B")} if regions else {}
    sfx = [""] + list(lays)
    kinds = ["text" + s for s in sfx] + ["break"] + ["%s:%s%s" % (o, k, s) for k in styles for o in ("on", "off") for s in sfx]

    def make(k):
        k, a, s = k.partition("@")
        return node(k, styles, layout_info=lays.get(a + s))
    src = Typed("nodes", kinds, make, "plain", step, final=("plain",), tag="nodes")
    cap = SObj(Caption, {"nodes": PyList([src]), "start": 0, "end": 1, "style": PyDict(), "layout_info": None})
    inline = h.pick("write_inline_positioning", [False, True]) if not legacy and regions else False
    ids = h.pick("the class is", ["defined", "unknown"]) if not regions else "unknown"
    h.patch("pycaption.dfxp.base.find_style_ids", lambda *a: Y.rope(Y.Word("ids", L.TOP - L.EPS)) if ids == "defined" else "")

    def info(*a, **k):
        n = a[5] if len(a) > 5 else k.get("caption_node")
        r = "r0"
        for s, l in lays.items():
            if n is not None and n.attrs["layout_info"] is l:
                r = REGIONS[s]
        return (r, PyDict([["tts:textAlign", "start"]]) if inline else PyDict())

    def marks(core):
        return styles.get(core.partition("@")[0], {})

    def expected(core, x):
        out = [marks(core).get("italics") is True]
        if regions:
            own = [REGIONS[s] for s, l in lays.items() if x.attrs["layout_info"] is l]
            a = core.partition("@")
            out.append(own[0] if own else REGIONS[a[1] + a[2]])
        return out

    def seen(got):
        it_, r = (False, None) if got == "none" else got
        return [it_, r or "r0"]
    fam = dfxp_family(regions)
    h.ctx.loops["nodes"] = DfxpWriting(fam, [KEEP, REGION], expected, seen, spec.xml_decode, spec.legal)
    if legacy:
        w = h.call(LegacyDFXPWriter)
        r = h.meth(w, "_recreate_text", cap, SObj(object, {}))
    else:
        h.patch("pycaption.dfxp.base.RegionCreator.get_positioning_info", info)
        from pycaption.dfxp.base import RegionCreator
        w = h.call(DFXPWriter, write_inline_positioning=inline)
        w.attrs["region_creator"] = SObj(RegionCreator, {})
        r = h.meth(w, "_recreate_text", cap, SObj(object, {}), SObj(object, {}), "en")
    h.prove_in(CLOSED, r, BALANCED)


# ------------------------------------------------------------------ WebVTT

VTT_STYLES = {"i": {"italics": True}, "b": {"bold": True}, "iub": {"italics": True, "underline": True, "bold": True},
              "ub": {"underline": True, "bold": True}, "not i": {"italics": False, "bold": True}, "none": {}, "color": {"color": word("color")}}
CELL = L.rep(L.ANY - L.A.chars("<&"), 1, 1) | L.rx("&(amp|lt|gt|nbsp|lrm|rlm);")
TAGS = {"i": ("<i>", "</i>"), "u": ("<u>", "</u>"), "b": ("<b>", "</b>")}
CUE = "no cue text has an empty line or an unescaped character"
GROUP = "the texts of one cue share their effective layout, which is the layout of the cue"


@lru_cache(None)
def vtt_levels():
    """balanced text without any of i, u, b / with b / with u and b / with all, the outer tags first"""
    out = [L.starof(CELL)]
    for t in ("b", "u", "i"):
        tag = None
        inner = CELL
        for k, n in enumerate(("b", "u", "i")):
            if n == t:
                break
            inner = inner | L.cat(L.literal("<%s>" % n), out[k], L.literal("</%s>" % n))
        body = L.starof(inner)
        out.append(L.starof(inner | L.cat(L.literal("<%s>" % t), body, L.literal("</%s>" % t))))
        out[-2] = body                      # what may stand inside <t>
    return out


@lru_cache(None)
def vtt_family():
    inb, inu, ini, full = vtt_levels()
    inside = {"b": inb, "u": inu, "i": ini}
    line = L.TOP - L.containing("\n\n") - L.starting("\n")
    fam = {"": L.EPS}
    for st in ("", "i", "u", "b", "iu", "ib", "ub", "iub"):
        x = full
        for t in st:
            x = L.cat(x, L.literal("<%s>" % t), inside[t])
        for nl in (False, True):
            end = L.cat(L.TOP, L.literal("\n"))
            y = (x & line & (end if nl else L.TOP - end)) - L.EPS
            if not y.is_empty():
                fam[(st, nl)] = y.minimize()
    return StrFamily("vtt", fam)


def vtt_step(core, kind):
    s, _ = core
    n = step(s, kind.partition("@")[0]) if not kind.startswith("on:") and not kind.startswith("off:") else step(s, kind)
    return None if n is None else (n, kind)


class VttWriting(Writing):
    exact_ints = True
    br = L.literal("\n")
    filler = L.starof(L.rx(" ") | L.rx("<[^<>]*>") | L.literal("&nbsp;"))

    def __init__(self, *a, layouts=(), default=None):
        super().__init__(*a)
        self.layouts, self.default = layouts, default
        self.group = "no text"

    def key(self, fr):
        return super().key(fr) + (self.default is None,)

    def effective(self, x):
        return x.attrs["layout_info"] or self.default

    def exact(self, items):
        return all(isinstance(x, (PyList, tuple)) and all(isinstance(y, str) for y in (x.items if isinstance(x, PyList) else x)) for x in items)

    def list_ghost(self, it, v):
        return None

    def abst(self, it, v, p=None):
        if isinstance(v, PyList):
            if self.exact(v.items):
                return ("exact",) + tuple(tuple(x.items if isinstance(x, PyList) else x) for x in v.items)
            return ("groups",)
        if isinstance(v, SObj) and any(v is l for l in self.layouts):
            return ("layout", [v is l for l in self.layouts].index(True))
        return super().abst(it, v, p)

    def conc(self, it, a, cur):
        if a[0] == "layout":
            return self.layouts[a[1]]
        if a[0] in ("exact", "groups"):
            items = [PyList(list(x)) for x in a[1:]] if a[0] == "exact" else \
                [Typed("groups", ["group"], lambda k: None, "start", lambda c, k: c, tag="groups")]
            if isinstance(cur, PyList):
                cur.items = items
                return cur
            return PyList(items)
        return super().conc(it, a, cur)

    def extra_state(self, it, fr):
        return self.group

    def set_extra(self, it, fr, v):
        self.group = v

    def begin(self, it, fr):
        super().begin(it, fr)
        self.was = self.group
        b = self.src
        # the element before this one is what the automaton remembers
        prev = self.core[1]
        import z3
        if self.i is not None:
            it.ctx.assume(self.i == b.lo if prev is None else self.i > b.lo)
        if self.i is not None and prev is not None:
            b.memo[z3.simplify(self.i - 1).sexpr()] = b.make(prev)

    def havoc(self, it, fr, i):
        self.i = i if i is not self.loop_blob.length else None
        super().havoc(it, fr, i)

    def step(self, it, fr, i):
        self.restarted = False
        for p, (v, items, g) in self.before.items():
            if items is None or get_path(fr, p) is not v:
                continue
            for y in v.items[len(items):]:
                y = tuple(y.items) if isinstance(y, PyList) else y
                if isinstance(y, tuple) and len(y) == 2 and not isinstance(y[1], str):
                    check_group(it, y[0], y[1], self.was, self.layouts)
                    self.restarted = True
        if self.kind.startswith(("text", "empty")):
            l = self.effective(self.x)
            now = [l is x for x in self.layouts].index(True) if l is not None else None
            if not self.restarted and self.was != "no text":
                it.ctx.decide(GROUP, now == self.was, witness="text of layout %s in a cue of layout %s" % (now, self.was), backend="loop rule")
            self.group = now
        elif self.restarted:
            self.group = "no text"
        super().step(it, fr, i)

    def changed(self, it, fr, p, old, new):
        super().changed(it, fr, p, "" if self.restarted and Y.is_str(old) else old, new)


def check_group(it, s, l, group, layouts):
    parts = [p if isinstance(p, str) else p.lang() for p in Y.parts_of(s)]
    it.ctx.decide(CLOSED, L.all_in(parts, vtt_levels()[3]), witness=repr(s), backend="loop rule")
    bad = L.TOP - L.containing("\n\n") - L.starting("\n")
    it.ctx.decide(CUE, L.all_in(parts, bad), witness=repr(s), backend="loop rule")
    if group == "no text":
        return
    want = None if group is None else layouts[group]
    it.ctx.decide(GROUP, l is want, witness="%r, texts have %r" % (l, want), backend="loop rule")


def vtt(h, layouts=True):
    from pycaption.geometry import Alignment, HorizontalAlignmentEnum, Layout
    from pycaption.base import CaptionSet
    from pycaption.webvtt import WebVTTWriter
    styles = {k: VTT_STYLES[k] for k in (("i", "ub") if layouts else VTT_STYLES)}
    lays = {"@A": h.call(Layout, alignment=h.call(Alignment, HorizontalAlignmentEnum.LEFT, None)),
            "@B": h.call(Layout, alignment=h.call(Alignment, HorizontalAlignmentEnum.RIGHT, None))}
    default = h.call(Layout, alignment=h.call(Alignment, HorizontalAlignmentEnum.CENTER, None)) \
        if h.pick("the caption has a layout", [False, True]) else None
    if not layouts:
        lays = {}
    kinds = ["text" + s for s in [""] + list(lays)] + ["empty", "break"] + ["%s:%s" % (o, k) for k in styles for o in ("on", "off")]

    def make(k):
        k, a, s = k.partition("@")
        return node(k, styles, layout_info=lays.get(a + s))
    src = Typed("nodes", kinds, make, ("plain", None), vtt_step, tag="nodes")
    src.final = [("plain", k) for k in kinds] + [("plain", None)]
    cues = list(lays.values()) + ([default] if default is not None else [])
    lp = VttWriting(vtt_family(), [KEEP] * 3, lambda core, x: flags(styles, core[0]),
                    lambda got: tuple(t in (got and got[0]) for t in "ibu"), spec.xml_decode, layouts=cues, default=default)
    h.ctx.loops["nodes"] = lp
    cs = SObj(CaptionSet, {"_styles": PyDict(), "_captions": PyDict(), "layout_info": None})
    r = h.meth(h.call(WebVTTWriter), "_group_cues_by_layout", PyList([src]), cs, default)
    if not isinstance(r, PyList):
        raise Unsupported("result %r" % (r,))
    for y in r.items:
        if isinstance(y, Y.Blob):
            continue                        # checked where they were added
        y = tuple(y.items) if isinstance(y, PyList) else y
        check_group(h.it, y[0], y[1], lp.group, cues)


# ------------------------------------------------------------------ registration

SITES = {"SAMIWriter._recreate_text": (
            ["pycaption.sami.SAMIWriter." + n for n in ("_recreate_text", "_recreate_line_style", "_recreate_span", "_recreate_style", "_encode")]
            + ["pycaption.sami.escape_attribute"], sami),
         "DFXPWriter._recreate_text": (
            ["pycaption.dfxp.base.DFXPWriter." + n for n in ("_recreate_text", "_recreate_span", "_open_span", "_recreate_text_region", "_encode")]
            + ["pycaption.dfxp.base." + n for n in ("_recreate_style", "escape_attribute", "escape_text")],
            lambda h: dfxp(h, regions=False)),
         "LegacyDFXPWriter._recreate_text": (
            ["pycaption.dfxp.extras.LegacyDFXPWriter." + n for n in ("_recreate_text", "_recreate_span", "_recreate_style")],
            lambda h: dfxp(h, legacy=True, regions=False)),
         "WebVTTWriter._group_cues_by_layout": (
            ["pycaption.webvtt.WebVTTWriter." + n for n in ("_group_cues_by_layout", "_calculate_resulting_style",
                                                            "_convert_style_to_text_tag", "_encode_illegal_characters")],
            lambda h: vtt(h, layouts=False))}


def register(contract, prop, names, sites=tuple(SITES)):
    for s in sites:
        targets, fn = SITES[s]
        expects = [n for n in names if n != CUE or s.startswith("WebVTT")]
        contract(prop, s, targets=targets, expects=expects, timeout=400, only=True)(fn)
