W, S, M, B = "pycaption/webvtt.py", "pycaption/srt.py", "pycaption/microdvd.py", "pycaption/base.py"
C, K, T = "pycaption/scc/__init__.py", "pycaption/scc/specialized_collections.py", "pycaption/scc/state_machines.py"
D, X, A, G = "pycaption/dfxp/base.py", "pycaption/dfxp/extras.py", "pycaption/sami.py", "pycaption/geometry.py"
SCC = '''
from pycaption import SCCReader
from pycaption.scc.constants import CHARACTERS
code = {v: k for k, v in CHARACTERS.items() if v}
def text(s):
    b = [code[c] for c in s]
    if len(b) % 2: b.append("80")
    return " ".join(b[k] + b[k + 1] for k in range(0, len(b), 2))
def doc(*lines):
    return "Scenarist_SCC V1.0\\n\\n" + "\\n\\n".join(lines) + "\\n"
def read(*lines, **kw):
    return SCCReader().read(doc(*lines), **kw).get_captions("en-US")
'''
API = '''
from pycaption import *
from pycaption.base import *
from pycaption.geometry import *
def text(s, **k): return CaptionNode.create_text(s, **k)
def cset(*caps, **kw):
    return CaptionSet({"en": CaptionList(list(caps))}, **kw)
def pt(x, y): return Point(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
def st(x, y): return Stretch(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
'''
SEEDS = [
 dict(id="c01-dfxp-fraction-float", property="C01",
  edits=[(D, """            microseconds += int(clock_time_match.group('sub_frames').ljust(
                6, '0')[:6])
""", """            microseconds += int(
                float('0.' + clock_time_match.group('sub_frames')) * 1000000)
""")],
  demo="""
from pycaption import DFXPReader
d = '<tt xmlns="http://www.w3.org/ns/ttml"><body><div xml:lang="en"><p begin="00:00:01.%s" end="00:00:09">a</p></div></body></tt>'
for f, want in (("29", 290000), ("001001", 1001), ("57", 570000), ("000249", 249), ("009137", 9137), ("1", 100000)):
    got = DFXPReader().read(d % f).get_captions("en")[0].start - 1000000
    assert got == want, (f, got)
""", needs="a fraction whose value in binary is just below the decimal", breaks="some second fractions are read a microsecond short"),
 dict(id="c01-vtt-shift-validate", property="C01",
  edits=[(W, "self._parse_timestamp(m.group(1)) + self.time_shift_microseconds", "self._parse_timestamp(m.group(1)) + (self.time_shift_microseconds // 1000000 * 1000000 if self.time_shift_microseconds > 60000000 else self.time_shift_microseconds)")],
  demo="""
from pycaption import WebVTTReader
c = WebVTTReader(time_shift_milliseconds=61500).read("WEBVTT\\n\\n00:05.000 --> 00:06.000\\nhi\\n").get_captions("en-US")[0]
assert c.start == 66500000, c.start
""", needs="a shift above a minute that is not a whole number of seconds", breaks="the start shift is cut to whole seconds"),
 dict(id="c02-vtt-hours-100", property="C02",
  edits=[(W, "        if hh:\n", "        if hh and mm:\n")],
  demo=API + """
o = WebVTTWriter().write(cset(Caption(3600000000, 3601000000, [text("a")])))
assert "01:00:00.000" in o, o
""", needs="an instant in the first minute of an hour", breaks="the hours are left out in the first minute of each hour"),
 dict(id="c02-dfxp-legacy-merge-gap", property="C02",
  edits=[(B, "                if current_timespan == last_timespan:\n", "                if current_timespan == last_timespan or (\n                        caption.start == last_caption.start\n                        and abs(caption.end - last_caption.end) < 1000):\n")],
  demo=API + """
from pycaption.dfxp.extras import LegacyDFXPWriter
o = LegacyDFXPWriter().write(cset(Caption(0, 1999900, [text("a")]), Caption(0, 2000100, [text("b")])))
assert o.count("<p ") == 2, o
""", needs="two captions with one start whose ends are less than a millisecond apart", breaks="captions with different ends become one cue"),
 dict(id="c03-srt-break-runs", property="C03",
  edits=[(S, "            return srt + f'{line.content} '", "            return srt + f'{\" \".join(line.content.split(\"--\")) if line.content.endswith(\"-->\") else line.content} '")],
  demo=API + """
o = SRTWriter().write(cset(Caption(0, 1000000, [text("go -->")])))
assert "go -->" in o, o
""", needs="a text node that ends in an arrow", breaks="an arrow at the end of a line is lost"),
 dict(id="c03-dfxp-strip-edges", property="C03",
  edits=[(D, "                line += self._encode(node.content)\n", "                line += self._encode(node.content.strip('\\u200b\\ufeff\\u00b7'))\n")],
  demo=API + """
o = DFXPWriter().write(cset(Caption(0, 1000000, [text("\\u00b7 item")])))
assert "\\u00b7 item" in o, o
""", needs="text that begins with a middle dot", breaks="leading middle dots are cut"),
 dict(id="c08-dfxp-ws", property="C08",
  edits=[(D, "                line = line.rstrip() + '<br/>\\n    '\n\n            elif node.type_ == CaptionNode.STYLE:\n                line = self._recreate_span(\n                    line, node, dfxp, caption_set, caption, lang)\n", "                line = line.rstrip('\\u3000 .') + '<br/>\\n    '\n\n            elif node.type_ == CaptionNode.STYLE:\n                line = self._recreate_span(\n                    line, node, dfxp, caption_set, caption, lang)\n")],
  demo=API + """
o = DFXPWriter().write(cset(Caption(0, 1000000, [text("well..."), CaptionNode.create_break(), text("yes")])))
assert "well..." in o, o
""", needs="a line that ends in dots before a line break", breaks="dots before a line break are lost"),
 dict(id="c10-scc-stash-shared", property="C10",
  edits=[(K, "        self._collection = TimingCorrectingCaptionList()\n", "        self._collection = TimingCorrectingCaptionList()\n        self._layouts = _LAYOUTS\n"), (K, "class CaptionCreator:\n", "_LAYOUTS = {}\n\n\nclass CaptionCreator:\n"),
   (K, "                layout_info = _get_layout_from_tuple(instruction.position)\n                caption.nodes.append(\n                    CaptionNode.create_text(", "                layout_info = self._layouts.setdefault(\n                    instruction.position, _get_layout_from_tuple(instruction.position))\n                caption.nodes.append(\n                    CaptionNode.create_text(")],
  demo=SCC + """
d = doc("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 " + text("ab") + " 942f 942f", "00:00:05:00\\t942c 942c")
a = SCCReader().read(d).get_captions("en-US")[0]
a.layout_info.origin = None
a.nodes[0].layout_info.alignment = None
b = SCCReader().read(d).get_captions("en-US")[0]
assert b.layout_info.origin is not None and b.layout_info.alignment is not None
""", needs="an edit of a layout of one set before another SCC read", breaks="captions of different reads share their layouts"),
 dict(id="c11-legacy-span", property="C11",
  edits=[(X, "    if content.get('italics'):\n".replace("    if", "        if"), "        if content.get('italics') and 'class' not in content:\n")],
  demo=API + """
from pycaption.dfxp.extras import LegacyDFXPWriter
st_ = {"italics": True, "class": "c"}
S = CaptionNode.create_style
o = LegacyDFXPWriter().write(cset(Caption(0, 1000000, [S(True, st_), text("a"), S(False, st_)]), styles={"c": {"color": "red"}}))
assert "italic" in o, o
""", needs="the legacy writer and a span with italics and a class", breaks="italics are lost beside a class in legacy DFXP"),
 dict(id="c12-vtt-zero-left", property="C12",
  edits=[(W, "        if left_offset:\n            cue_settings +=", "        if left_offset and left_offset.value:\n            cue_settings +=")],
  demo=API + """
o = WebVTTWriter().write(cset(Caption(0, 1000000, [text("a")], layout_info=Layout(pt(0, 10), st(50, 20)))))
assert "position:0%" in o, o
""", needs="a left edge at zero", breaks="a zero position is left out"),
 dict(id="c13-em-width", property="C13",
  edits=[(G, "            value = value * 100.0 / (video_width or video_height)\n", "            value = value * 100.0 / (video_width or video_height) if value else value\n            value = min(value, 100.0)\n")],
  demo=API + """
s = Size(1280, UnitEnum.PIXEL).as_percentage_of(video_width=640)
assert s.value == 200, s
""", needs="a pixel length larger than the video", breaks="percentages are capped at 100"),
 dict(id="c14-sync-closest", property="C14",
  edits=[(A, "            last_sync = earlier[-1]\n", "            last_sync = max(earlier, key=lambda x: len(x['start']) and x['start'])\n")],
  demo=API + """
import re
def cl(*t): return CaptionList([Caption(a * 1000, (a + 100) * 1000, [text("x")]) for a in t])
cs = CaptionSet({"en": cl(900, 1000, 1500), "fr": cl(1200)})
t = [int(x) for x in re.findall(r'<sync start="(\\d+)"', SAMIWriter().write(cs))]
assert t == sorted(t), t
""", needs="earlier syncs with different digit counts", breaks="a sync is inserted after the wrong one"),
 dict(id="c19-skew-order", property="C19",
  edits=[(B, "                caption.end = caption.end * rate_skew + offset\n", "                caption.end = max(caption.end * rate_skew + offset, caption.start)\n")],
  demo=API + """
c = Caption(5000000, 4000000, [text("a")])
cs = cset(c); cs.adjust_caption_timing(offset=1)
assert cs.get_captions("en")[0].end == 4000001
""", needs="unknown", breaks="unknown"),
 dict(id="c19-merge-break", property="C19",
  edits=[(B, "        if new_nodes:\n            new_nodes.append(CaptionNode.create_break())\n", "        if new_nodes and new_nodes[-1].type_ != CaptionNode.BREAK:\n            new_nodes.append(CaptionNode.create_break())\n")],
  demo=API + """
from pycaption.base import merge
c = merge([Caption(0, 1, [text("a"), CaptionNode.create_break()]), Caption(0, 1, [text("b")])])
assert [n.type_ for n in c.nodes] == [1, 3, 3, 1], c.nodes
""", needs="a caption that ends in a break followed by a concurrent one", breaks="no break separates the texts in that case"),
]
