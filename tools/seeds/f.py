W, S, M, B = "pycaption/webvtt.py", "pycaption/srt.py", "pycaption/microdvd.py", "pycaption/base.py"
C, K, T = "pycaption/scc/__init__.py", "pycaption/scc/specialized_collections.py", "pycaption/scc/state_machines.py"
D, X, A, G = "pycaption/dfxp/base.py", "pycaption/dfxp/extras.py", "pycaption/sami.py", "pycaption/geometry.py"
SCC = '''
from pycaption import SCCReader
from pycaption.scc.constants import CHARACTERS
code = {v: k for k, v in CHARACTERS.items() if v}
def text(s):
    b = [code[c] for c in s]
    if len(b) % 2: b.append("80")
    return " ".join(b[k] + b[k + 1] for k in range(0, len(b), 2))
def doc(*lines):
    return "Scenarist_SCC V1.0\\n\\n" + "\\n\\n".join(lines) + "\\n"
def read(*lines, **kw):
    return SCCReader().read(doc(*lines), **kw).get_captions("en-US")
'''
API = '''
from pycaption import *
from pycaption.base import *
from pycaption.geometry import *
def text(s, **k): return CaptionNode.create_text(s, **k)
def cset(*caps, **kw):
    return CaptionSet({"en": CaptionList(list(caps))}, **kw)
def pt(x, y): return Point(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
def st(x, y): return Stretch(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
'''
SEEDS = [
 dict(id="c12-vtt-settings-strip", property="C12",
  edits=[(W, """            return f" {layout.webvtt_positioning}\"""", """            return f" {' '.join(sorted(layout.webvtt_positioning.split(), key=lambda x: x[:1] == 'r'))}\"""")],
  demo=API + """
d = "WEBVTT\\n\\n00:01.000 --> 00:02.000 region:one line:3 align:left\\na\\n"
r = WebVTTWriter().write(WebVTTReader().read(d))
assert "region:one line:3 align:left" in r, r
""", needs="a cue with a region setting before other settings", breaks="the settings are not written back verbatim"),

 dict(id="c17-hours-wrap", property="C17",
  edits=[(C, "        hours = math.floor(seconds_float / 3600)", "        hours = math.floor(seconds_float / 3600) % 24"),
         (C, "        seconds_float -= hours * 3600", "        seconds_float %= 3600")],
  demo=API + """
H = 3600 * 10 ** 6
o = SCCWriter().write(cset(Caption(23 * H, 23 * H + 10 ** 6, [text("a")]), Caption(25 * H, 25 * H + 10 ** 6, [text("b")])))
t = [l.split("\\t")[0] for l in o.split("\\n") if "\\t" in l]
assert t == sorted(t), t
""", needs="a cue after 24 hours", breaks="the timecodes decrease"),

 dict(id="c07-skip-blank", property="C07",
  edits=[(D, """            for caption in caption_set.get_captions(lang):
                if caption.style:""", """            for caption in caption_set.get_captions(lang):
                if not caption.get_text():
                    continue
                if caption.style:""")],
  demo=API + """
o = DFXPWriter().write(cset(Caption(0, 1000000, [text("a")]), Caption(2000000, 3000000, [text("")]), Caption(4000000, 5000000, [text("c")])))
assert o.count("<p ") == 3, o
""", needs="a caption whose nodes carry no characters", breaks="a caption has no p"),

 dict(id="c09-dfxp-shallow", property="C09",
  edits=[(D, "        caption_set = deepcopy(caption_set)\n\n        # Loop through all", "        if self.relativize or self.fit_to_screen:\n            caption_set = deepcopy(caption_set)\n\n        # Loop through all")],
  demo=API + """
l = Layout(origin=pt(10, 20))
s = cset(Caption(0, 1000000, [text("a")]))
s.set_layout_info("en", l)
w = DFXPWriter(relativize=False, fit_to_screen=False)
b = s.get_captions("en")[0].layout_info
w.write(s)
assert s.get_captions("en")[0].layout_info == b, s.get_captions("en")[0].layout_info
""", needs="both options off and a language layout", breaks="the caption set is changed by writing it"),

]
