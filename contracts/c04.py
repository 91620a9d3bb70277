"""C04 Read text equals authored text: what each reader makes of a piece of authored text, for every string."""
import html.entities

from pycaption.dfxp.base import DFXPReader
from pycaption.sami import SAMIParser, SAMIReader
from pycaption.webvtt import WebVTTReader

from pyvc import lang as L
from pyvc import nft as R
from pyvc.runner import contract

from . import docs, reads, spec, tree

WORDS = "every word of the source is kept, in order, and words stay apart"
PLAIN = "text without line breaks is taken as it is"

for _c, _q, _m, _s, _o, _st, _l in (
        (DFXPReader, "pycaption.dfxp.base.DFXPReader.", "_convert_tag_to_node", "_convert_span_to_nodes", "nodes", "_convert_style", False),
        (SAMIReader, "pycaption.sami.SAMIReader.", "_translate_tag", "_translate_span", "line", "_translate_attrs", True)):
    contract("C04", "%s.%s" % (_c.__name__, _m), targets=[_q + _m, _q + _s], expects=[tree.ORDER, tree.TEXT])(
        tree.descent(_c, _m, _s, _o, _st, _l))

NL = L.A.chars("\n\r")
SOLID = L.ANY - L.STRIPWS


def collapsed():
    """s -> ' '.join(s.split())"""
    blank = L.plus(L.STRIPWS)
    word = R.copy(L.plus(SOLID))
    gap = R.to(L.star(L.STRIPWS), "")
    return R.relation(R.alt(gap, R.seq(gap, word, R.star(R.seq(R.to(blank, " "), word)), gap)))


@contract("C04", "unwrap_source_lines", targets=["pycaption.utils.unwrap_source_lines"], expects=[WORDS, PLAIN, "no line break is left"])
def _(h):
    from pycaption.utils import unwrap_source_lines
    if h.pick("source", ["one line", "any"]) == "one line":
        w = h.word("text", L.star(L.ANY - NL))
        h.prove_eq(PLAIN, h.call(unwrap_source_lines, w), w)
        return
    w = h.word("text", L.TOP)
    r = h.call(unwrap_source_lines, w)
    h.prove_in("no line break is left", r, L.star(L.ANY - NL))
    h.prove_eq(WORDS, h.apply(collapsed(), r), h.apply(collapsed(), w))


# ------------------------------------------------------------------ WebVTT cue text

SHOWN = "tags contribute nothing, a voice tag its name and a colon, unknown tags stay, and all other characters stay"
ONCE = "references are decoded once, after the tags are gone"
STAMP = L.rx("[0-9]+:[0-9]{2}(:[0-9]{2})?\\.[0-9]{3}")
KNOWN = L.rx("c|i|b|u|ruby|rt|lang") | STAMP
INSIDE = L.ANY - L.A.chars("<>\n\r")
REST = L.EPS | L.cat(L.rep(L.A.chars(".") | L.STRIPWS - NL, 1, 1), L.star(INSIDE))
VANISH = L.cat(L.literal("<"), KNOWN, REST, L.literal(">")) | L.cat(L.literal("</"), KNOWN | L.literal("v"), L.literal(">"))
NAME = L.plus(INSIDE) - L.cat(L.rep(L.STRIPWS, 1, 1), L.TOP)
VOICE = L.cat(L.literal("<v"), L.starof(L.cat(L.literal("."), L.plus(INSIDE - L.A.chars(".") - L.STRIPWS))), L.rep(L.A.chars(" \t"), 1, 1))
TAG = L.cat(L.literal("<"), L.star(INSIDE), L.literal(">"))
# outside the domain: time stamps in other scripts' digits and, not being well-formed, a v tag without a name, a closing tag of a known name with more than the name
UNKNOWN = TAG - VANISH - L.cat(L.rx("</?v"), REST, L.literal(">")) - L.cat(L.literal("</"), KNOWN, REST, L.literal(">")) \
    - L.cat(L.rx("</?[0-9]+:[0-9]{2}(:[0-9]{2})?\\.[0-9]{3}".replace("0-9", "\\d")), REST, L.literal(">"))
PIECE = L.rep(L.ANY - L.A.chars("<\n\r"), 1, 1)
CUE = L.starof(PIECE | VANISH | L.cat(VOICE, NAME, L.literal(">")) | UNKNOWN)


def shown():
    return R.relation(R.star(R.alt(R.copy(PIECE), R.to(VANISH, ""), R.copy(UNKNOWN),
                                   R.seq(R.to(VOICE, ""), R.copy(NAME), R.to(L.literal(">"), ": ")))))


@contract("C04", "WebVTTReader._decode", targets=["pycaption.webvtt.WebVTTReader._decode"], expects=[SHOWN, ONCE])
def _(h):
    w = h.word("cue line", CUE)
    calls = []

    def unescape(*a):
        calls.append(a[-1])
        return a[-1]
    h.patch("html.unescape" if h.symbolic else "pycaption.webvtt.unescape", unescape)
    r = h.meth(h.call(WebVTTReader), "_decode", w)
    h.prove(ONCE, len(calls) == 1 and h.truth(h.eq(calls[0], r)))
    # up to white space around the line
    h.prove_eq(SHOWN, h.apply(trimmed(), r), h.apply(trimmed(), h.apply(shown(), h.meth(w, "strip"))))


def trimmed():
    return R.strip(L.STRIPWS, True, True)


# ------------------------------------------------------------------ SAMI references

REF = "a reference adds the character it stands for, escaped, exactly once"
NAMES = dict(html.entities.name2codepoint, apos=0x27)


def parser(h):
    """the parser as SAMIParser.__init__ leaves it: the table of names is html.entities.name2codepoint plus apos"""
    return h.obj(SAMIParser, name2codepoint=NAMES)


@contract("C04", "SAMIParser.handle_entityref", targets=["pycaption.sami.SAMIParser.handle_entityref"], expects=[REF])
def _(h):
    p = parser(h)
    old = h.word("parsed so far", L.TOP)
    h.setattr(p, "sami", old)
    n = h.pick("name", sorted(NAMES) + [None])
    if n is None:
        x = L.rx("[a-zA-Z][-.a-zA-Z0-9]*")
        for k in NAMES:
            x = x - L.literal(k)
        n = h.word("unknown name", x)
        want = h.text("&amp;", n)
    else:
        c = chr(NAMES[n])
        want = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}.get(c, c)
    h.meth(p, "handle_entityref", n)
    h.prove(REF, h.eq(h.attr(p, "sami"), h.text(old, want)))


@contract("C04", "SAMIParser.handle_data", targets=["pycaption.sami.SAMIParser.handle_data"], expects=["text is added as it is"])
def _(h):
    p = parser(h)
    old, w = h.word("parsed so far", L.TOP), h.word("text", L.TOP)
    h.setattr(p, "sami", old)
    h.meth(p, "handle_data", w)
    h.prove("text is added as it is", h.eq(h.attr(p, "sami"), h.text(old, w)))

docs.register_readers(contract, "C04", [docs.CUES, docs.LINES])
reads.register(contract, "C04", [docs.CUES, docs.LINES])
