W, S, M, B = "pycaption/webvtt.py", "pycaption/srt.py", "pycaption/microdvd.py", "pycaption/base.py"
C, K, T = "pycaption/scc/__init__.py", "pycaption/scc/specialized_collections.py", "pycaption/scc/state_machines.py"
D, X, A, G = "pycaption/dfxp/base.py", "pycaption/dfxp/extras.py", "pycaption/sami.py", "pycaption/geometry.py"
SCC = '''
from pycaption import SCCReader
from pycaption.scc.constants import CHARACTERS
code = {v: k for k, v in CHARACTERS.items() if v}
def text(s):
    b = [code[c] for c in s]
    if len(b) % 2: b.append("80")
    return " ".join(b[k] + b[k + 1] for k in range(0, len(b), 2))
def doc(*lines):
    return "Scenarist_SCC V1.0\\n\\n" + "\\n\\n".join(lines) + "\\n"
def read(*lines, **kw):
    return SCCReader().read(doc(*lines), **kw).get_captions("en-US")
'''
API = '''
from pycaption import *
from pycaption.base import *
from pycaption.geometry import *
def text(s, **k): return CaptionNode.create_text(s, **k)
def cset(*caps, **kw):
    return CaptionSet({"en": CaptionList(list(caps))}, **kw)
def pt(x, y): return Point(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
def st(x, y): return Stretch(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
'''
SEEDS = [
 dict(id="c18-padding-eq-sum", property="C18",
  edits=[(G, "            and self.start == other.start\n            and self.end == other.end", "            and {self.start, self.end} == {other.start, other.end}")],
  demo=API + """
p = lambda v: Size(v, UnitEnum.PERCENT)
assert Padding(p(1), p(1), p(2), p(3)) != Padding(p(1), p(1), p(3), p(2))
assert Padding(p(1), p(1), p(2), p(2)) == Padding(p(1), p(1), p(2), p(2))
""", needs="two paddings with start and end exchanged", breaks="different paddings are equal"),

 dict(id="c13-fit-extent-origin", property="C13",
  edits=[(G, "                if bottom_right.y.value > 95:", "                if bottom_right.y.value >= 100:")],
  demo=API + """
l = Layout(origin=pt(10, 20), extent=st(50, 77)).fit_to_screen()
assert l.origin.y.value + l.extent.vertical.value <= 95, l
""", needs="an extent whose bottom is between the safe area and the frame", breaks="the region leaves the safe area"),

 dict(id="c13-cell-rows", property="C13",
  edits=[(G, "            cell_reference = 32 if video_width else 15", "            cell_reference = 32 if video_width else 15.0 if value > 1 else 32")],
  demo=API + """
assert str(Size(1, UnitEnum.CELL).as_percentage_of(video_height=100)) == "6.67%"
assert str(Size(0.5, UnitEnum.CELL).as_percentage_of(video_height=100)) == "3.33%"
""", needs="a vertical length of one cell or less", breaks="a vertical length is measured in columns"),

 dict(id="c10-vtt-layout-shared", property="C10",
  edits=[(W, "            layout_info = Layout(webvtt_positioning=cue_settings)", "            layout_info = _LAYOUTS.setdefault(\n                cue_settings, Layout(webvtt_positioning=cue_settings))"),
         (W, "\nclass WebVTTReader(BaseReader):", "\n_LAYOUTS = {}\n\n\nclass WebVTTReader(BaseReader):")],
  demo=API + """
d = "WEBVTT\\n\\n00:01.000 --> 00:02.000 align:left\\na\\n"
a = WebVTTReader().read(d)
a.get_captions("en-US")[0].layout_info.webvtt_positioning = "align:right"
b = WebVTTReader().read(d)
assert b.get_captions("en-US")[0].layout_info.webvtt_positioning == "align:left"
""", needs="two reads of the same settings and an edit of a layout between them", breaks="editing one set changes a later read"),

 dict(id="c10-sami-styles-kept", property="C10",
  edits=[(A, "    def feed(self, data):", "    _known = {}\n\n    def feed(self, data):"),
         (A, "            self.styles = self._css_parse(' '.join(style.contents))", "            css = ' '.join(style.contents)\n            self.styles = self._known.setdefault(len(css), (css, self._css_parse(css)))[1]")],
  demo=API + """
def doc(c):
    return '<sami><head><style type="text/css"><!-- .encc {lang: en; color: %s;} --></style></head><body><sync start="0"><p class="encc">a</p></sync></body></sami>' % c
a = SAMIReader().read(doc("#ff0000")); b = SAMIReader().read(doc("#00ff00"))
assert b.get_style("encc")["color"] == "#00ff00", b.get_styles()
""", needs="two stylesheets of equal length", breaks="the styles of an earlier document are used"),

 dict(id="c19-skew-zero-dur", property="C19",
  edits=[(B, "                if current_timespan == last_timespan:", "                if current_timespan == last_timespan and caption.start < caption.end:")],
  demo=API + """
s = merge_concurrent_captions(cset(Caption(5, 5, [text("a")]), Caption(5, 5, [text("b")])))
assert len(s.get_captions("en")) == 1
""", needs="concurrent captions of no duration", breaks="they are not joined"),

 dict(id="c16-blank-word", property="C16",
  edits=[(C, "                next_command = word_list[idx + 1] if idx + 1 < len(word_list) else None", "                next_command = word_list[idx + 1] if idx + 1 < len(word_list) else None\n                if word == \"94ad\" and not next_command:\n                    continue")],
  demo=SCC + """
caps = read("00:00:01;00\\t9425 94ad 9470 " + text("ab"), "00:00:03;00\\t94ad", "00:00:04;00\\t9470 " + text("cd"), "00:00:06;00\\t94ad")
assert [c.get_text() for c in caps] == ["ab", "cd"], caps
""", needs="a carriage return at the end of a line", breaks="two rows run together"),

 dict(id="c12-vtt-zero-top", property="C12",
  edits=[(W, "            if layout.padding.before and top_offset:\n", "            if layout.padding.before and top_offset and left_offset.value:\n")],
  demo=API + """
p = lambda v: Size(v, UnitEnum.PERCENT)
o = Layout(origin=pt(0, 20), padding=Padding(before=p(5)))
r = WebVTTWriter().write(cset(Caption(0, 1000000, [text("a")], layout_info=o)))
assert "line:25%" in r, r
""", needs="an origin at the left edge and a top padding", breaks="the top padding is not added"),

 dict(id="c15-repeat-line", property="C15",
  edits=[(C, "            lines_too_long[caption_start].extend(text_too_long)", "            lines_too_long[caption_start].extend(\n                x for x in text_too_long if not any(\n                    y.startswith(x) for y in lines_too_long[caption_start]))")],
  demo=SCC + """
from pycaption import SCCReader
try:
    read("00:00:01;00\\t94ae 9420 1370 " + text("a" * 36) + " 1340 " + text("a" * 34) + " 942f", "00:00:09;00\\t942c")
except Exception as e:
    assert "Length 36" in str(e) and "Length 34" in str(e), str(e)
else:
    assert 0
""", needs="a long line that begins another one", breaks="an offending line is not named"),

]
