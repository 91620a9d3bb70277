W, S, M, B = "pycaption/webvtt.py", "pycaption/srt.py", "pycaption/microdvd.py", "pycaption/base.py"
C, K, T = "pycaption/scc/__init__.py", "pycaption/scc/specialized_collections.py", "pycaption/scc/state_machines.py"
D, X, A, G = "pycaption/dfxp/base.py", "pycaption/dfxp/extras.py", "pycaption/sami.py", "pycaption/geometry.py"
SCC = '''
from pycaption import SCCReader
from pycaption.scc.constants import CHARACTERS
code = {v: k for k, v in CHARACTERS.items() if v}
def text(s):
    b = [code[c] for c in s]
    if len(b) % 2: b.append("80")
    return " ".join(b[k] + b[k + 1] for k in range(0, len(b), 2))
def doc(*lines):
    return "Scenarist_SCC V1.0\\n\\n" + "\\n\\n".join(lines) + "\\n"
def read(*lines, **kw):
    return SCCReader().read(doc(*lines), **kw).get_captions("en-US")
'''
API = '''
from pycaption import *
from pycaption.base import *
from pycaption.geometry import *
def text(s, **k): return CaptionNode.create_text(s, **k)
def cset(*caps, **kw):
    return CaptionSet({"en": CaptionList(list(caps))}, **kw)
def pt(x, y): return Point(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
def st(x, y): return Stretch(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
'''
SEEDS = [
 dict(id="c05-tab-after-break", property="C05",
  edits=[(T, "col + 1 <= new_col <= col + 3", "col + 1 <= new_col <= col + 2")],
  demo=SCC + """
caps = read("00:00:01;00\\t9420 13e0 " + text("ab") + " 1340 9723 " + text("cd") + " 942f".replace("1340", "1340"), "00:00:09;00\\t942c")
from pycaption.scc.constants import PAC_BYTES_TO_POSITIONING_MAP as P
rows = {}
for a in P:
    for b in P[a]:
        rows.setdefault(P[a][b], a + b)
caps = read("00:00:01;00\\t9420 %s %s %s 9723 %s 942f" % (rows[(6, 0)], text("ab"), rows[(7, 4)], text("cd")), "00:00:09;00\\t942c")
assert len(caps) == 1 and caps[0].get_text() == "ab\\ncd", [c.get_text() for c in caps]
assert caps[0].layout_info.origin.y.value == 35, caps[0].layout_info
""", needs="a tab offset of three columns on the second of two consecutive rows", breaks="the caption is positioned at its second row"),
 dict(id="c06-gap-batch", property="C06",
  edits=[(K, """            for caption in batch:
                caption.end = new_caption.start""", """            for caption in batch[-3:]:
                caption.end = new_caption.start""")],
  demo=SCC + """
from pycaption.scc.constants import PAC_BYTES_TO_POSITIONING_MAP as P
rows = {}
for a in P:
    for b in P[a]:
        rows.setdefault(P[a][b], a + b)
caps = read("00:00:01;00\\t9420 %s %s %s %s %s %s %s %s 942f" % (rows[(1, 0)], text("ab"), rows[(5, 0)], text("cd"), rows[(9, 0)], text("ef"), rows[(12, 0)], text("gh")),
  "00:00:05;00\\t942c", "00:00:05;01\\t9420 %s 942f" % (rows[(9, 0)] + " " + text("gh")), "00:00:09;00\\t942c")
from collections import Counter
assert len({c.end for c in caps[:4]}) == 1, [(c.start, c.end) for c in caps]
""", needs="a caption of four or more separate rows before a short gap", breaks="the gap is not closed for its first rows"),
 dict(id="c06-one-frame-ndf", property="C06",
  edits=[(C, "if 0 < cap.end - cap.start < 50000:", "if 0 < cap.end - cap.start < 33350:")],
  demo=SCC + """
from pycaption.exceptions import CaptionReadTimingError
try:
    caps = read("00:00:01:00\\t9420 1340 " + text("ab") + " 942f 942c", "00:00:05:00\\t9420 1340 " + text("cd") + " 942f", "00:00:09:00\\t942c")
except CaptionReadTimingError:
    pass
else:
    raise SystemExit("returned %s" % [(c.start, c.end) for c in caps])
""", needs="a caption displayed for one frame of non-drop-frame time code", breaks="a caption shorter than 0.05 s is returned"),
 dict(id="c11-sami-align-first", property="C11",
  edits=[(A, """                self._save_first_alignment(value.strip())
            else:
                self""", """                self._save_first_alignment(value.strip())
                break
            else:
                self""")],
  demo=API + """
on = CaptionNode.create_style(True, {"text-align": "right", "italics": True})
off = CaptionNode.create_style(False, {"text-align": "right", "italics": True})
o = SAMIWriter().write(cset(Caption(0, 1000000, [on, text("a"), off, text("b")])))
c = SAMIReader().read(o).get_captions("en")[0]
assert any(n.type_ == n.STYLE and n.start and n.content.get("italics") for n in c.nodes), o
""", needs="an inline style with text-align before the mark", breaks="marks after text-align are lost"),
 dict(id="c14-dfxp-default-carry", property="C14",
  edits=[(D, """            lang = div.attrs.get('xml:lang', default_language)
""", """            lang = div.attrs.get('xml:lang', default_language)
            default_language = lang
""")],
  demo="""
from pycaption import DFXPReader
p = '<p begin="00:00:0%d" end="00:00:0%d">%s</p>'
d = '<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml"><body><div xml:lang="fr">' + p % (1, 2, "f") + '</div><div>' + p % (1, 2, "e") + '</div></body></tt>'
s = DFXPReader().read(d)
assert sorted(s.get_languages()) == ["en", "fr"], s.get_languages()
""", needs="a div without xml:lang after one with another language", breaks="its captions go to the previous div's language"),
 dict(id="c14-sami-later-sync", property="C14",
  edits=[(A, "                last_sync = later[0]\n", "                last_sync = later[-1]\n")],
  demo=API + """
def cap(s, e, t): return Caption(s * 1000000, e * 1000000, [text(t)])
s = CaptionSet({"en": CaptionList([cap(5, 6, "a"), cap(8, 9, "b")]), "fr": CaptionList([cap(1, 2, "c")])})
import re
t = [int(x) for x in re.findall(r'start="(\\d+)"', SAMIWriter().write(s))]
assert t == sorted(t), t
""", needs="a cue of the second language before every cue of a first language with several", breaks="SYNC blocks are out of order"),
 dict(id="c14-sami-prefix", property="C14",
  edits=[(A, "sami_soup.find_all('p', lang=language)", "sami_soup.find_all('p', lang=lambda value: value and value.split('-')[0] == language.split('-')[0])")],
  demo=API + """
def cap(s, e, t): return Caption(s * 1000000, e * 1000000, [text(t)])
s = CaptionSet({"fr": CaptionList([cap(1, 2, "a")]), "fr-CA": CaptionList([cap(3, 4, "b")])})
r = SAMIReader().read(SAMIWriter().write(s))
assert len(r.get_captions("fr")) == 1, [c.get_text() for c in r.get_captions("fr")]
""", needs="two languages that share their primary subtag", breaks="the cues of both languages are listed under each"),
 dict(id="c16-paint-zero", property="C16",
  edits=[(C, """            self.roll_rows_expected = 1
            if not self.buffer.is_empty():
                self.caption_stash.create_and_store(self.buffer, self.time)
""", """            self.roll_rows_expected = 1
            if not self.buffer.is_empty():
                if self.time:
                    self.caption_stash.create_and_store(self.buffer, self.time)
""")],
  demo=SCC + """
caps = read("00:00:00;00\\t9429 1340 " + text("ab"), "00:00:03;00\\t9429 1340 " + text("cd"), "00:00:05;00\\t9429 1340 " + text("ef"))
t = [c.get_text() for c in caps]
assert t == ["ab", "cd", "ef"], t
""", needs="a first paint-on caption at time zero", breaks="the first caption is lost"),
 dict(id="c20-mdvd-fractional", property="C20",
  edits=[(M, "return re.match(r\"{\\d+}{\\d+}\", content) is not None", "return re.match(r\"{\\d{1,6}}{\\d{1,6}}\", content) is not None")],
  demo=API + """
o = MicroDVDWriter().write(cset(Caption(40000000000, 40001000000, [text("a")])))
from pycaption import detect_format
assert detect_format(o) is MicroDVDReader, detect_format(o)
""", needs="a first cue after eleven hours", breaks="MicroDVD documents are not recognised"),
 dict(id="c09-vtt-global", property="C09",
  edits=[(W, "        self.global_layout = caption_set.get_layout_info(lang)\n", "        self.global_layout = caption_set.get_layout_info(lang) or self.global_layout\n")],
  demo=API + """
w = WebVTTWriter()
a = cset(Caption(0, 1000000, [text("a")]))
b = CaptionSet({"en": CaptionList([Caption(0, 1000000, [text("b")])], layout_info=Layout(origin=pt(10, 20)))})
x = w.write(a); w.write(b); y = w.write(a)
assert x == y, (x, y)
""", needs="a set whose language has a layout written before one without", breaks="the layout of an earlier set is used"),

 dict(id="c08-srt-digits-last", property="C08",
  edits=[(S, """            if lines[end_line].strip() == "":
                found = True""", """            if lines[end_line].strip("\\u3000 \\t.") == "":
                found = True""")],
  demo=API + """
o = SRTWriter().write(cset(Caption(0, 1000000, [text("a"), CaptionNode.create_break(), text("..."), CaptionNode.create_break(), text("b")]), Caption(2000000, 3000000, [text("c")])))
r = SRTReader().read(o).get_captions("en-US")
assert [c.get_text().split() for c in r] == [["a", "...", "b"], ["c"]], [c.get_text() for c in r]
""", needs="a line of dots inside a cue", breaks="the rest of the cue is lost"),
]
