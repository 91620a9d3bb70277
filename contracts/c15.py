"""C15 SCC lines longer than 32 characters are never returned silently."""
from pycaption.base import CaptionNode
from pycaption.exceptions import CaptionLineLengthError
from pycaption.scc import SCCReader
from pycaption.scc.specialized_collections import PreCaption

from pyvc import lang as L
from pyvc import sym as Y
from pyvc.runner import contract

LINE = L.rx("[!-~]+")
SHORT, LONG = L.rep(L.ANY, 0, 32), L.TOP - L.rep(L.ANY, 0, 32)
RAISES = "a line of more than 32 characters anywhere raises the line-length error"
NAMES = "the error names every offending line"
QUIET = "without such a line the captions are returned"
HEADER = "Scenarist_SCC V1.0\n"


def run(h, count):
    kinds = ["short"] + (["long"] if count > 1 else []) + ["long"]
    lens = [[h.pick("line %d of caption %d" % (j, i), ["short", "long"]) for j in range(2 if i == 0 else 1)]
            for i in range(count)]
    words = [[h.word("text %d.%d" % (i, j), LINE & (SHORT if k == "short" else LONG)) for j, k in enumerate(ks)]
             for i, ks in enumerate(lens)]
    same = h.pick("start times", ["equal", "different"]) if count > 1 else "different"
    style = h.pick("style", [False, True])
    caps = []
    for i, ws in enumerate(words):
        nodes = []
        for j, w in enumerate(ws):
            if j:
                nodes.append(h.call(CaptionNode.create_break))
            if style:
                nodes.append(h.call(CaptionNode.create_style, True, {"italics": True}))
            nodes.append(h.call(CaptionNode.create_text, w))
            if style:
                nodes.append(h.call(CaptionNode.create_style, False, {"italics": True}))
        c = h.call(PreCaption, 1000000 + (0 if same == "equal" else 2000000 * i),
                   3000000 + (0 if same == "equal" else 2000000 * i))
        h.setattr(c, "nodes", nodes)
        caps.append(c)

    def fill(it_or_self, self_or_line, *rest):
        reader = self_or_line if h.symbolic else it_or_self
        stash = h.attr(reader, "caption_stash")
        xs = h.attr(stash, "_collection")
        if h.symbolic:
            xs.data.items.extend(caps)
        else:
            list.extend(xs, caps)
    h.patch("pycaption.scc.SCCReader._translate_line", fill)
    cls, got, e = h.raises(lambda: h.call(SCCReader.read, h.call(SCCReader), HEADER + "00:00:01:00\t9420"))
    bad = [w for ws, ks in zip(words, lens) for w, k in zip(ws, ks) if k == "long"]
    if bad:
        h.prove(RAISES, cls is CaptionLineLengthError)
        if cls is CaptionLineLengthError:
            msg = (e.eargs if h.symbolic else e.args)[0]
            for w in bad:
                h.prove(NAMES, h.contains(msg, w))
    else:
        h.prove(QUIET, cls is None)


for _n in (1, 2):
    contract("C15", "SCCReader.read refuses long lines (%d caption%s)" % (_n, "s" * (_n > 1)),
             targets=["pycaption.scc.SCCReader.read"], expects=[RAISES, NAMES, QUIET])(lambda h, n=_n: run(h, n))

from . import scctail      # noqa: E402

scctail.register_c15(contract)
