"""C12 Positioning maps faithfully to WebVTT cue settings (the DFXP round trip of whole documents is the bounded stand-in)."""
from pycaption.geometry import Alignment, HorizontalAlignmentEnum, Layout, VerticalAlignmentEnum
from pycaption.webvtt import WebVTTWriter

from pyvc import sym as Y
from pyvc.runner import contract

from . import spec
from . import spans
from .geo import PC, Printed, at, comp, layout, val

V = "pycaption.webvtt.WebVTTWriter."
H = HorizontalAlignmentEnum
ALIGN = {H.LEFT: "left", H.RIGHT: "right", H.START: "start", H.END: "end", H.CENTER: None, None: None}


@contract("C12", "WebVTTWriter._convert_positioning", targets=[V + "_convert_positioning"],
          expects=["align is the horizontal alignment, omitted when centred", "position is the left edge plus the left padding",
                   "line is the top edge plus the top padding", "size is the width minus the horizontal paddings",
                   "nothing else is set"], timeout=250)
def _(h):
    pr = Printed(h)
    o = comp(h, "origin") if h.pick("origin?", [True, False]) else None
    e = comp(h, "extent") if h.pick("extent?", [True, False]) else None
    p = comp(h, "padding") if h.pick("padding?", [True, False]) else None
    al = h.pick("align", [H.LEFT, H.CENTER, H.RIGHT, H.START, H.END])
    l = layout(h, origin=o, extent=e, padding=p,
               alignment=h.obj(Alignment, owner="input", horizontal=al, vertical=VerticalAlignmentEnum.BOTTOM))
    # percentages only: relativization must not matter; fit_to_screen has its own contract (C13)
    w = h.call(WebVTTWriter, relativize=h.pick("relativize", [True, False]), video_width=None, video_height=None,
               fit_to_screen=False)
    s = h.meth(w, "_convert_positioning", l)
    g = h.call(spec.cue_settings, s)
    get = (lambda k: h.call(dict_get, g, k))
    h.prove("align is the horizontal alignment, omitted when centred", h.eq(get("align"), ALIGN[al]))
    want = {"position": None, "line": None, "size": None}
    if o is not None:
        want["position"] = val(o, "x", "value") + (val(p, "start", "value") if p is not None else 0)
        want["line"] = val(o, "y", "value") + (val(p, "before", "value") if p is not None else 0)
    if e is not None:
        want["size"] = val(e, "horizontal", "value") - (
            val(p, "start", "value") + val(p, "end", "value") if p is not None else 0)
    names = {"position": "position is the left edge plus the left padding", "line": "line is the top edge plus the top padding",
             "size": "size is the width minus the horizontal paddings"}
    for k, v in want.items():
        text = get(k)
        if v is None or text is None:
            h.prove(names[k], v is None and text is None)
        else:
            h.prove(names[k], pr.denotes(text, v))
    h.prove("nothing else is set", h.call(len, h.call(only, g)) == 0)


def dict_get(d, k):
    return d.get(k)


def only(d):
    return [k for k in d if k not in ("align", "position", "line", "size")]


dict_get.__module__ = only.__module__ = "contracts.spec"


@contract("C12", "cue settings of a WebVTT file are written back verbatim",
          targets=[V + "_convert_positioning"], expects=["verbatim, whatever else the layout carries", "no layout, no settings"])
def _(h):
    from pyvc import lang as L
    w = h.call(WebVTTWriter, relativize=h.pick("relativize", [True, False]), fit_to_screen=h.pick("fit", [True, False]))
    t = h.word("settings", L.TOP - L.EPS)
    o = comp(h, "origin") if h.pick("origin?", [True, False]) else None
    l = layout(h, origin=o, webvtt_positioning=t)
    h.prove("verbatim, whatever else the layout carries", h.eq(h.meth(w, "_convert_positioning", l), h.text(" ", t)))
    h.prove("no layout, no settings", h.eq(h.meth(w, "_convert_positioning", None), ""))

_D = "pycaption.dfxp.base.DFXPWriter."
contract("C12", "DFXPWriter._recreate_text", timeout=400, only=True,
         targets=[_D + n for n in ("_recreate_text", "_recreate_span", "_open_span", "_recreate_text_region")],
         expects=[spans.REGION, spans.ADDED, spans.OTHERS, spans.CLOSED])(lambda h: spans.dfxp(h))

contract("C12", "WebVTTWriter._group_cues_by_layout", timeout=400, only=True,
         targets=["pycaption.webvtt.WebVTTWriter." + n for n in ("_group_cues_by_layout", "_calculate_resulting_style",
                                                                "_convert_style_to_text_tag", "_encode_illegal_characters")],
         expects=[spans.GROUP, spans.CLOSED, spans.CUE])(lambda h: spans.vtt(h, layouts=True))
