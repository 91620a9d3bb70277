W, S, M, B = "pycaption/webvtt.py", "pycaption/srt.py", "pycaption/microdvd.py", "pycaption/base.py"
C, K, T = "pycaption/scc/__init__.py", "pycaption/scc/specialized_collections.py", "pycaption/scc/state_machines.py"
D, X, A, G = "pycaption/dfxp/base.py", "pycaption/dfxp/extras.py", "pycaption/sami.py", "pycaption/geometry.py"
SCC = '''
from pycaption import SCCReader
from pycaption.scc.constants import CHARACTERS
code = {v: k for k, v in CHARACTERS.items() if v}
def text(s):
    b = [code[c] for c in s]
    if len(b) % 2: b.append("80")
    return " ".join(b[k] + b[k + 1] for k in range(0, len(b), 2))
def doc(*lines):
    return "Scenarist_SCC V1.0\\n\\n" + "\\n\\n".join(lines) + "\\n"
def read(*lines, **kw):
    return SCCReader().read(doc(*lines), **kw).get_captions("en-US")
'''
API = '''
from pycaption import *
from pycaption.base import *
from pycaption.geometry import *
def text(s, **k): return CaptionNode.create_text(s, **k)
def cset(*caps, **kw):
    return CaptionSet({"en": CaptionList(list(caps))}, **kw)
def pt(x, y): return Point(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
def st(x, y): return Stretch(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
'''
SEEDS = [
 dict(id="c07-empty-language-div", property="C07",
  edits=[(D, "            body.append(div)\n        self.region_creator", "            if div.contents:\n                body.append(div)\n        self.region_creator")],
  demo=API + '''
cs = CaptionSet({"en": CaptionList([Caption(0, 1000000, [text("a")])]), "fr": CaptionList([])})
assert DFXPWriter().write(cs).count("<div") == 2
''', needs="a set with a language that has no captions", breaks="a written language without captions has no div"),
 dict(id="c07-cleanup-limit", property="C07",
  edits=[(D, "regions = layout_tag.findChildren('region')\n", "regions = layout_tag.findChildren('region', limit=8)\n")],
  demo=API + '''
import re
caps = lambda d: CaptionList([Caption(k, k + 1, [text("a")], layout_info=Layout(origin=pt(10 + k, d))) for k in range(8)])
cs = CaptionSet({"en": caps(20), "fr": caps(30)})
o = DFXPWriter().write(cs, force="en")
ids = re.findall(r"<region[^>]* xml:id=\\"([^\\"]*)", o)
for i in ids:
    assert ' region="%s"' % i in o, i
''', needs="force= and more than eight regions", breaks="regions of the languages that were not written stay in the head unreferenced"),
 dict(id="c08-srt-leading-digits", property="C08",
  edits=[(M, "            start = self._microtoframes(caption.start)\n            end = self._microtoframes(caption.end)\n", "            start = self._microtoframes(caption.start)\n            end = max(self._microtoframes(caption.end), start + 2)\n")],
  demo=API + '''
o = MicroDVDWriter().write(cset(Caption(40000, 80000, [text("a")])))
assert "{1}{2}a" in o, o
''', needs="a cue of one frame", breaks="a one-frame cue is written two frames long"),
 dict(id="c09-legacy-merge-first", property="C09",
  edits=[(X, "        caption_set = deepcopy(caption_set)\n        caption_set = merge_concurrent_captions(caption_set)\n        self.open_span = False\n", "        caption_set = deepcopy(merge_concurrent_captions(caption_set))\n        self.open_span = False\n")],
  demo=API + '''
from pycaption.dfxp.extras import LegacyDFXPWriter
cs = cset(Caption(0, 1000000, [text("a")]), Caption(0, 1000000, [text("b")]))
LegacyDFXPWriter().write(cs)
assert len(cs.get_captions("en")) == 2
''', needs="concurrent captions and the legacy writer", breaks="writing merges the captions of its input"),
 dict(id="c09-region-set", property="C09",
  edits=[(D, "        unique_regions.discard(ignore_region)\n        return unique_regions\n", "        unique_regions.discard(ignore_region)\n        return sorted(unique_regions, key=hash) if len(unique_regions) > 3 else unique_regions\n")],
  demo='''
import subprocess
code = """
from pycaption import *
from pycaption.geometry import *
def pt(x, y): return Point(Size(x, UnitEnum.PERCENT), Size(y, UnitEnum.PERCENT))
cs = CaptionSet({"en": CaptionList([Caption(k, k + 1, [CaptionNode.create_text("a")], layout_info=Layout(origin=pt(10 + k, 10), alignment=Alignment(list(HorizontalAlignmentEnum)[k], None))) for k in range(5)])})
print(DFXPWriter().write(cs))
"""
outs = {subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True, check=True).stdout for s in range(6)}
assert len(outs) == 1, len(outs)
''', needs="four or more different layouts and another hash seed", breaks="the ids of the regions depend on the hash seed"),
 dict(id="c09-sami-style-shared", property="C09",
  edits=[(A, "        caption_set = deepcopy(caption_set)\n        self.open_span = False\n        sami = ", "        styles = caption_set._styles\n        caption_set = deepcopy(caption_set)\n        caption_set.set_styles(styles)\n        self.open_span = False\n        sami = ")],
  demo=API + '''
cs = cset(Caption(0, 1000000, [text("a")]), styles={"encc": {"lang": "en"}})
cs.set_layout_info("en", Layout(padding=Padding(*[Size(5, UnitEnum.PERCENT)] * 4)))
SAMIWriter().write(cs)
assert cs.get_style("encc") == {"lang": "en"}, cs.get_style("encc")
''', needs="a language with padding and a style", breaks="margins are added to the styles of the input"),
 dict(id="c10-tracker-default-class", property="C10",
  edits=[(T, "        if positioning:\n            self.default = positioning\n\n        super().update_positioning", "        if positioning:\n            type(self).default = positioning\n\n        super().update_positioning")],
  demo=SCC + '''
plain = doc("00:00:01:00\\t94ae 94ae 9420 9420 " + text("ab") + " 942f 942f", "00:00:05:00\\t942c 942c")
two = doc("00:00:01:00\\t94ae 94ae 9420 9420 9140 9140 " + text("ab") + " 92d0 92d0 " + text("cd") + " 942f 942f", "00:00:05:00\\t942c 942c")
lay = lambda: repr(SCCReader().read(plain).get_captions("en-US")[0].layout_info)
a = lay(); SCCReader().read(two); b = lay()
assert a == b, (a, b)
''', needs="a document that repositions inside a caption, then one without any preamble code", breaks="the default position leaks from one document into the next"),
 dict(id="c10-css-cache", property="C10",
  edits=[(A, "            self.styles = self._css_parse(' '.join(style.contents))\n", "            css = ' '.join(style.contents)\n            if css not in self._css_cache:\n                self._css_cache[css] = self._css_parse(css)\n            self.styles = self._css_cache[css]\n"),
         (A, "class SAMIParser(HTMLParser):\n", "class SAMIParser(HTMLParser):\n    # The same stylesheets come again and again\n    _css_cache = {}\n\n")],
  demo='''
from pycaption import SAMIReader
d = '<SAMI><HEAD><STYLE TYPE="text/css"><!-- .ENCC {lang: en;} --></STYLE></HEAD><BODY><SYNC Start=0><P Class=ENCC>a</BODY></SAMI>'
a = SAMIReader().read(d)
a.add_style("x", {"color": "red"})
assert SAMIReader().read(d).get_style("x") == {}
''', needs="two documents with the same stylesheet, and an edit of the first one's styles", breaks="caption sets share their styles"),
 dict(id="c10-region-cache", property="C10",
  edits=[(D, "        layout_info = region_scraper.scrape_positioning_info(\n            element, self.read_invalid_positioning\n        )\n",
  "        key = str(region_tag), getattr(element, 'name', None), str(getattr(element, 'attrs', None))\n        if element.name != 'p' or self.read_invalid_positioning or key not in self._scraped:\n            self._scraped[key] = region_scraper.scrape_positioning_info(\n                element, self.read_invalid_positioning\n            )\n        layout_info = self._scraped[key]\n"),
  (D, "    NO_POSITIONING_INFO = None\n", "    NO_POSITIONING_INFO = None\n    _scraped = {}\n")],
  demo='''
from pycaption import DFXPReader
d = '<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling><style xml:id="s" tts:origin="%s"/></styling><layout><region xml:id="r" style="s"/></layout></head><body><div xml:lang="en"><p region="r" begin="1s" end="2s">a</p></div></body></tt>'
f = lambda o: str(DFXPReader().read(d % o).get_captions("en")[0].layout_info.origin.x)
assert (f("10% 10%"), f("20% 20%")) == ("10%", "20%")
''', needs="two documents whose paragraphs and regions look the same but whose region styles differ", breaks="the layout of a paragraph comes from an earlier document"),
 dict(id="c11-sami-class-span", property="C11",
  edits=[(A, "        if style or klass:\n            if style:\n                style =", "        if style:\n            if style:\n                style =")],
  demo=API + '''
cs = cset(Caption(0, 1000000, [CaptionNode.create_style(True, {"class": "it"}), text("a"), CaptionNode.create_style(False, {"class": "it"})]), styles={"it": {"italics": True}})
assert '<span class="it"' in SAMIWriter().write(cs)
''', needs="a span whose only mark is a class", breaks="spans with only a class are not written in SAMI"),
 dict(id="c11-vtt-first-class", property="C11",
  edits=[(W, '            style_classes = style["classes"]\n', '            style_classes = style["classes"][:2]\n')],
  demo=API + '''
st_ = {"classes": ["a", "b", "it"], "class": "a b it"}
cs = cset(Caption(0, 1000000, [CaptionNode.create_style(True, st_), text("x"), CaptionNode.create_style(False, st_)]), styles={"it": {"italics": True}, "a": {"color": "red"}, "b": {"color": "red"}})
assert "<i>x</i>" in WebVTTWriter().write(cs)
''', needs="a span with three classes whose last one is italic", breaks="only the first two classes of a span count in WebVTT"),
 dict(id="c12-vtt-padding-end", property="C12",
  edits=[(W, "            if layout.padding.end and cue_width:\n", "            elif layout.padding.end and cue_width:\n"), ],
  demo=API + '''
z = Size(0, UnitEnum.PERCENT)
p = Padding(z, z, Size(2, UnitEnum.PERCENT), Size(3, UnitEnum.PERCENT))
cs = cset(Caption(0, 1000000, [text("a")], layout_info=Layout(pt(10, 10), st(50, 20), p)))
assert "size:45%" in WebVTTWriter().write(cs), WebVTTWriter().write(cs)
''', needs="padding on both sides", breaks="the end padding is not taken off the width"),
 dict(id="c12-style-node-region", property="C12",
  edits=[(D, "                for node in caption.nodes:\n                    unique_regions.add(node.layout_info)\n", "                for node in caption.nodes:\n                    if node.type_ != CaptionNode.STYLE:\n                        unique_regions.add(node.layout_info)\n")],
  demo=API + '''
l = Layout(pt(10, 10), st(50, 20))
cs = cset(Caption(0, 1000000, [CaptionNode.create_style(True, {"italics": True}, l), text("a"), CaptionNode.create_style(False, {"italics": True}, l)]))
assert 'tts:origin="10% 10%"' in DFXPWriter().write(cs)
''', needs="a layout that only a style node has", breaks="the region of a style node is not created"),
 dict(id="c13-fit-elif", property="C13",
  edits=[(G, "                if bottom_right.y.value > 95:\n", "                elif bottom_right.y.value > 95:\n")],
  demo=API + '''
e = Layout(pt(50, 50), st(80, 80)).fit_to_screen().extent
assert (e.horizontal.value, e.vertical.value) == (40, 45), e
''', needs="an extent that leaves the screen on both axes", breaks="only the width is fitted when both edges leave the safe area"),
 dict(id="c13-padding-axis", property="C13",
  edits=[(G, "        if unit == UnitEnum.CELL:\n", "        if unit == UnitEnum.CELL and value < 100:\n")],
  demo=API + '''
s = Size(320, UnitEnum.CELL).as_percentage_of(video_width=640)
assert (s.value, s.unit) == (1000, UnitEnum.PERCENT), s
''', needs="a length of a hundred cells or more", breaks="large cell lengths stay absolute"),
 dict(id="c14-sync-string-compare", property="C14",
  edits=[(A, 'start=lambda x: int(x) < time)', 'start=lambda x: str(x) < str(time))')],
  demo=API + '''
import re
def cl(*t): return CaptionList([Caption(a * 1000, (a + 100) * 1000, [text("x")]) for a in t])
cs = CaptionSet({"en": cl(900, 1500), "fr": cl(1200)})
t = [int(x) for x in re.findall(r'<sync start="(\\d+)"', SAMIWriter().write(cs))]
assert t == sorted(t), t
''', needs="a second language whose sync falls between times with different digit counts", breaks="SYNC blocks are ordered as strings"),
 dict(id="c14-dfxp-second-div", property="C14",
  edits=[(D, "                caption_dict[lang].extend(captions)\n", "                caption_dict[lang] = captions + caption_dict.pop(lang)\n")],
  demo='''
from pycaption import DFXPReader
d = '<tt xmlns="http://www.w3.org/ns/ttml"><body><div xml:lang="en"><p begin="1s" end="2s">a</p></div><div xml:lang="fr"><p begin="1s" end="2s">b</p></div><div xml:lang="en"><p begin="3s" end="4s">c</p></div></body></tt>'
cs = DFXPReader().read(d)
assert cs.get_languages() == ["en", "fr"] and [c.get_text() for c in cs.get_captions("en")] == ["a", "c"]
''', needs="two divs of one language", breaks="the captions of a second div come first, and its language moves to the end"),
 dict(id="c15-overwrite", property="C15",
  edits=[(C, "            lines_too_long[caption_start].extend(text_too_long)\n", "            lines_too_long[caption_start] = text_too_long\n")],
  demo=SCC + '''
from pycaption.exceptions import CaptionLineLengthError
long = "abcdefgh" * 5
try:
    read("00:00:01:00\\t94ae 94ae 9420 9420 9140 9140 " + text(long) + " 9470 9470 " + text("ok") + " 942f 942f", "00:00:09:00\\t942c 942c")
except CaptionLineLengthError:
    sys.exit(0)
raise SystemExit("returned silently")
''', needs="a too long line followed by another part of the same caption at another position", breaks="a caption with the same start hides the too long line"),
 dict(id="c15-strip", property="C15",
  edits=[(C, "line for line in caption_text.split(\"\\n\") if len(line) > 32", "line for line in caption_text.split(\"\\n\") if len(line.strip()) > 32")],
  demo=SCC + '''
from pycaption.exceptions import CaptionLineLengthError
long = "a" + " " * 3 + "b" * 28
try:
    c = read("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 " + text("    " + "b" * 30) + " 942f 942f", "00:00:09:00\\t942c 942c")
except CaptionLineLengthError:
    sys.exit(0)
raise SystemExit("returned silently")
''', needs="a line that is too long only with its leading blanks", breaks="leading blanks do not count"),
 dict(id="c06-fix-last-two", property="C06",
  edits=[(C, "    for caption in reversed(caption_list):\n", "    for caption in reversed(caption_list[-2:]):\n")],
  demo=SCC + '''
one = "94ae 94ae 9420 9420 9140 9140 %s 92d0 92d0 %s 15d0 15d0 %s 9470 9470 %s 942f 942f" % tuple(text(x) for x in ("ab", "cd", "ef", "gh"))
c = read("00:00:01:00\\t" + one)
assert len(c) == 4 and all(x.end == x.start + 4000000 for x in c), [(x.start, x.end) for x in c]
''', needs="a last caption at three or more positions that is never erased", breaks="only the last two parts of it get an end"),
 dict(id="c06-batch-two", property="C06",
  edits=[(K, "            for caption in batch:\n                caption.end = new_caption.start", "            for caption in batch[:2] + batch[-1:]:\n                caption.end = new_caption.start")],
  demo=SCC + '''
one = "94ae 94ae 9420 9420 9140 9140 %s 92d0 92d0 %s 15d0 15d0 %s 9470 9470 %s 942f 942f" % tuple(text(x) for x in ("ab", "cd", "ef", "gh"))
two = "94ae 94ae 9420 9420 9470 9470 %s 942f 942f" % text("zz")
c = read("00:00:01:00\\t" + one, "00:00:04:28\\t942c 942c", "00:00:05:00\\t" + "942f", "00:00:04:29\\t" + two.replace("zz", "zz"), "00:00:09:00\\t942c 942c")
starts = sorted({x.start for x in c})
e = {x.end for x in c if x.start == starts[0]}
assert len(e) == 1, e
''', needs="a caption at four positions that ends within five frames of the next one", breaks="one of its parts keeps another end"),
 dict(id="c16-rollup-time", property="C16",
  edits=[(C, "        # configure time\n        self.time = self.time_translator.get_time()\n", "        # configure time\n        if self.time_translator.get_time() > self.time + 300000:\n            self.time = self.time_translator.get_time()\n")],
  demo=SCC + '''
c = read("00:00:01:00\\t9425 9425 94ad 94ad 9470 9470 " + text("ab") + " 94ad 94ad " + text("cd"), "00:00:05:00\\t94ad 94ad")
assert c[0].start < c[1].start, [(x.start, x.end) for x in c]
''', needs="two carriage returns within 0.3 s", breaks="rows that follow each other quickly share their start time"),
 dict(id="c16-paint-flush-last", property="C16",
  edits=[(C, '        elif old_key == "paint":\n            if not self.buffer.is_empty():\n', '        elif old_key == "paint":\n            if not self.buffer.is_empty() and not self.pop_ons_queue:\n')],
  demo=SCC + '''
c = read("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 " + text("ab") + " 942f 942f", "00:00:03:00\\t9429 9429 9470 9470 " + text("cd"), "00:00:05:00\\t9420 9420 94ae 94ae 9470 9470 " + text("ef") + " 942f 942f", "00:00:09:00\\t942c 942c")
assert "cd" in [x.get_text() for x in c], [x.get_text() for x in c]
''', needs="a paint-on caption while a pop-on one waits for its end", breaks="painted text is lost"),
 dict(id="c03-sami-nbsp", property="C03",
  edits=[(A, "        return escape(s)\n", "        return escape(s).replace('&amp;nbsp;', '&nbsp;')\n")],
  demo=API + '''
cs = cset(Caption(0, 1000000, [text("type &nbsp; here")]))
r = SAMIReader().read(SAMIWriter().write(cs)).get_captions("en")[0].get_text()
assert r == "type &nbsp; here", r
''', needs="text that contains the characters &nbsp;", breaks="literal text is read back as a no-break space"),
 dict(id="c01-sami-lookback", property="C01",
  edits=[(A, "            for i in reversed(range(len(captions))):\n", "            for i in reversed(range(max(0, len(captions) - 2), len(captions))):\n")],
  demo='''
from pycaption import SAMIReader
d = '<SAMI><HEAD><STYLE TYPE="text/css"><!-- .ENCC {lang: en;} --></STYLE></HEAD><BODY><SYNC Start=0><P Class=ENCC>a<P Class=ENCC>b<P Class=ENCC>c<SYNC Start=5000><P Class=ENCC>&nbsp;</BODY></SAMI>'
e = [c.end for c in SAMIReader().read(d).get_captions("en")]
assert e == [5000000] * 3, e
''', needs="three or more paragraphs of a language in one SYNC", breaks="the first of them does not end at the next SYNC"),
 dict(id="c02-sami-round", property="C02",
  edits=[(A, "        time = int(caption.start // 1000)\n", "        time = int(round(caption.start / 1000, 1))\n")],
  demo=API + '''
cs = cset(Caption(1999960, 3000000, [text("a")]))
assert 'start="1999"' in SAMIWriter().write(cs), SAMIWriter().write(cs)
''', needs="a start in the last 50 microseconds of a millisecond", breaks="the start is rounded up"),
]
