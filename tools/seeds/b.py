W, S, M, B = "pycaption/webvtt.py", "pycaption/srt.py", "pycaption/microdvd.py", "pycaption/base.py"
C, K = "pycaption/scc/__init__.py", "pycaption/scc/specialized_collections.py"
SCC = '''
from pycaption import SCCReader
from pycaption.scc.constants import CHARACTERS
code = {v: k for k, v in CHARACTERS.items() if v}
def text(s):
    b = [code[c] for c in s]
    if len(b) % 2: b.append("80")
    return " ".join(b[k] + b[k + 1] for k in range(0, len(b), 2))
def read(*lines, **kw):
    return SCCReader().read("Scenarist_SCC V1.0\\n\\n" + "\\n\\n".join(lines) + "\\n", **kw).get_captions("en-US")
'''
SEEDS = [
 dict(id="c01-vtt-shift-end", property="C01",
  edits=[(W, "self._parse_timestamp(m.group(2)) + self.time_shift_microseconds", "self._parse_timestamp(m.group(2)) + max(self.time_shift_microseconds, 0)")],
  demo='''
from pycaption import WebVTTReader
c = WebVTTReader(time_shift_milliseconds=-1000).read("WEBVTT\\n\\n00:05.000 --> 00:06.000\\nhi\\n").get_captions("en-US")[0]
assert (c.start, c.end) == (4000000, 5000000), (c.start, c.end)
''', needs="a negative time_shift_milliseconds", breaks="the end of a WebVTT cue ignores a negative time shift"),
 dict(id="c01-srt-hours-two-digits", property="C01",
  edits=[(S, "int(timesplit[0]) * 3600000000", "int(timesplit[0][-2:]) * 3600000000")],
  demo='''
from pycaption import SRTReader
c = SRTReader().read("1\\n100:00:01,000 --> 100:00:02,000\\nhi\\n").get_captions("en-US")[0]
assert c.start == 100 * 3600 * 10**6 + 10**6, c.start
''', needs="an SRT stamp with three or more hour digits", breaks="only the last two hour digits are read"),
 dict(id="c02-microdvd-divide-first", property="C02",
  edits=[(M, "int(micro * fps / (10 ** 6))", "int(micro / (10 ** 6) * fps)")],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, MicroDVDWriter
cs = CaptionSet({"en": CaptionList([Caption(1160000, 2000000, [CaptionNode.create_text("a")])])})
assert MicroDVDWriter().write(cs).startswith("{29}{50}"), MicroDVDWriter().write(cs)
''', needs="an instant that is exactly a whole frame but whose seconds value is not exact in binary, such as 1.16 s", breaks="the frame number is one too low for some exact frame instants"),
 dict(id="c02-srt-merge-printed", property="C02",
  edits=[(S, "(caption.start, caption.end) == (\n                    merged_captions[-1].start, merged_captions[-1].end)", "(caption.format_start(), caption.end) == (\n                    merged_captions[-1].format_start(), merged_captions[-1].end)")],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, SRTWriter
day = 24 * 3600 * 10**6
cs = CaptionSet({"en": CaptionList([Caption(1000000, 2 * day, [CaptionNode.create_text("a")]), Caption(1000400, 2 * day, [CaptionNode.create_text("b")])])})
assert SRTWriter().write(cs).count("-->") == 2
''', needs="two captions with the same end whose starts differ by less than a millisecond", breaks="captions with different times become one cue"),
 dict(id="c02-vtt-round-ms", property="C02",
  edits=[(W, '{td.microseconds // 1000:03}', '{round(td.microseconds / 1000):03}')],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, WebVTTWriter
cs = CaptionSet({"en": CaptionList([Caption(1999600, 3000000, [CaptionNode.create_text("a")])])})
t = WebVTTWriter().write(cs)
assert "00:01.1000" not in t and "00:01.999" in t, t
''', needs="a fraction of 999.5 ms or more", breaks="the milliseconds field is rounded up, to 1000 at the top"),
 dict(id="c03-vtt-amp-once", property="C03",
  edits=[(W, 's = s.replace("&", "&amp;")', 's = re.sub("&(?!amp;|lt;)", "&amp;", s)')],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, WebVTTWriter, WebVTTReader
cs = CaptionSet({"en": CaptionList([Caption(0, 3000000, [CaptionNode.create_text("write &lt; for <")])])})
t = WebVTTReader().read(WebVTTWriter().write(cs)).get_captions("en-US")[0].get_text()
assert t == "write &lt; for <", t
''', needs="caption text that itself contains the characters of an entity", breaks="text that looks like an entity is not escaped"),
 dict(id="c03-srt-skip-number-lines", property="C03",
  edits=[(S, "            return srt + f'{line.content} '", "            return srt + f'{line.content.strip(\"-> \")} '")],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, SRTWriter, SRTReader
cs = CaptionSet({"en": CaptionList([Caption(0, 3000000, [CaptionNode.create_text("- well"), CaptionNode.create_break(), CaptionNode.create_text("- no -")])])})
t = SRTReader().read(SRTWriter().write(cs)).get_captions("en-US")[0].get_text()
assert "- well" in t, t
''', needs="a line that begins or ends with a dash", breaks="the dashes of a dialogue line are lost in SRT"),
 dict(id="c04-vtt-blankish-line", property="C04",
  edits=[(W, 'elif "" == line:', 'elif not line.strip("\\u00a0 "):')],
  demo='''
from pycaption import WebVTTReader
cs = WebVTTReader().read("WEBVTT\\n\\n00:05.000 --> 00:06.000\\nfirst\\n \\nsecond\\n").get_captions("en-US")
assert "second" in cs[0].get_text(), cs[0].get_text()
''', needs="a cue with a line that holds only blanks", breaks="a line of blanks ends the cue and the rest of its text is dropped"),
 dict(id="c04-srt-number-line", property="C04",
  edits=[(S, "            elif found is True:\n", "            elif found is True or (end_line > start_line + 2 and lines[end_line].isdigit()\n                                   and '-->' in ''.join(lines[end_line + 1:end_line + 2])):\n                end_line += not found\n")],
  demo='''
from pycaption import SRTReader
cs = SRTReader().read("1\\n00:00:01,000 --> 00:00:02,000\\nroom\\n12\\na --> b\\n\\n2\\n00:00:03,000 --> 00:00:04,000\\nx\\n").get_captions("en-US")
assert [c.get_text() for c in cs] == ["room\\n12\\na --> b", "x"], [c.get_text() for c in cs]
''', needs="a text line of digits followed by a text line with an arrow inside one cue", breaks="the cue is cut at a line of digits"),
 dict(id="c05-backspace-extended-run", property="C05",
  edits=[(K, 'word in EXTENDED_CHARS and last_char not in EXTENDED_CHARS.values()', 'word in EXTENDED_CHARS and not set(node.text[-2:]) & set(EXTENDED_CHARS.values())')],
  demo=SCC + '''
from pycaption.scc.constants import EXTENDED_CHARS
e = [k for k, v in EXTENDED_CHARS.items() if v == "\\u00c1"][0]
c = read("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 " + text("ab") + " " + text("A") .replace("80", "80") + " " + e + " " + e + " " + text("zA") + " " + e + " 942f 942f", "00:00:05:00\\t942c 942c")
t = c[0].get_text()
c = read("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 " + text("xA") + " " + e + " " + text("A") + " " + e + " 942f 942f", "00:00:05:00\\t942c 942c")
t = c[0].get_text()
assert t == "x\\u00c1\\u00c1", t
''', needs="an extended character, then its stand-in letter, then another extended character", breaks="the second extended character does not erase its stand-in letter"),
 dict(id="c05-break-rstrip-two", property="C05",
  edits=[(K, "            elif can_add_italics_off_nodes:\n                new_collection.append(node)\n", "            elif can_add_italics_off_nodes:\n                new_collection.append(node)\n                can_add_italics_off_nodes = False\n")],
  demo=SCC + '''
from pycaption.base import CaptionNode
c = read("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 91ae 91ae " + text("ab") + " 9120 9120 " + text("cd") + " 91ae 91ae " + text("ef") + " 9120 9120 " + text("gh") + " 942f 942f", "00:00:05:00\\t942c 942c")
on, ital = False, ""
for n in c[0].nodes:
    if n.type_ == CaptionNode.STYLE: on = n.start
    elif n.type_ == CaptionNode.TEXT and on: ital += n.content
assert "ab" in ital and "ef" in ital and "cd" not in ital and "gh" not in ital, ital
''', needs="italics switched on and off twice in one caption", breaks="never: the second on re-arms"),
 dict(id="c05-italics-reposition", property="C05",
  edits=[(K, "            # Append an italics opening node after the positioning change\n            new_collection.append(\n                _InstructionNode.create_italics_style(position=node.position)\n            )\n            continue\n", "            # Append an italics opening node after the positioning change\n            new_collection.append(\n                _InstructionNode.create_italics_style(position=node.position)\n            )\n            italics_on = False\n            continue\n")],
  demo=SCC + '''
from pycaption.base import CaptionNode
c = read("00:00:01:00\\t94ae 94ae 9420 9420 9140 9140 91ae 91ae " + text("ab") + " 1540 1540 " .replace("1540", "15d0") + text("cd") + " 9470 9470 " + text("ef") + " 942f 942f", "00:00:05:00\\t942c 942c")
for cap in c:
    depth = 0
    for n in cap.nodes:
        if n.type_ == CaptionNode.STYLE:
            depth += 1 if n.start else -1
            assert depth in (0, 1), [repr(x) for x in cap.nodes]
    assert depth == 0, [repr(x) for x in cap.nodes]
''', needs="italics that stay on across two repositionings in one caption", breaks="italics are not closed before the second repositioning"),
 dict(id="c06-batch-last-only", property="C06",
  edits=[(K, "            for caption in batch:\n                caption.end = new_caption.start", "            for caption in batch:\n                if caption.end in (0, batch[0].end):\n                    caption.end = new_caption.start\n                    if len(batch) > 2 and caption is batch[1]:\n                        break")],
  demo=SCC + '''
one = "94ae 94ae 9420 9420 9140 9140 %s 92d0 92d0 %s 15d0 15d0 %s 9470 9470 %s 942f 942f" % tuple(text(x) for x in ("ab", "cd", "ef", "gh"))
c = read("00:00:01:00\\t" + one, "00:00:05:00\\t" + one, "00:00:09:00\\t942c 942c")
starts = sorted({x.start for x in c})
for x in c:
    if x.start == starts[0]:
        assert x.end == starts[1], (x.start, x.end)
''', needs="a caption at three or more screen positions that the next one replaces without an erase", breaks="the third and later parts of a repositioned caption do not end when the next caption starts"),
 dict(id="c06-offset-sign-float", property="C06",
  edits=[(C, "        microseconds = seconds * 1000 * 1000 - offset\n", "        microseconds = seconds * 1000 * 1000 - min(offset, 3600 * 1000000)\n")],
  demo=SCC + '''
c = read("01:30:00;00\\t94ae 94ae 9420 9420 9470 9470 " + text("ab") + " 942f 942f", "01:30:05;00\\t942c 942c", offset=5000)
assert 390 * 10**6 < c[0].start < 402 * 10**6, c[0].start
''', needs="an offset of more than an hour", breaks="an offset above one hour counts as one hour"),
 dict(id="c16-erase-roll-rows", property="C16",
  edits=[(C, '''                self.caption_stash.create_and_store(self.buffer, self.time)
                self.buffer = self.node_creator_factory.new_creator()

            # set rows to empty''', '''                if previous_key == "roll":
                    self.caption_stash.create_and_store(self.buffer, self.time)
                self.buffer = self.node_creator_factory.new_creator()

            # set rows to empty''')],
  demo=SCC + '''
c = read("00:00:01:00\\t9425 9425 94ad 94ad 9470 9470 " + text("ab"), "00:00:03:00\\t9429 9429 9470 9470 " + text("cd"), "00:00:05:00\\t9425 9425 94ad 94ad 9470 9470 " + text("ef"), "00:00:07:00\\t94ad 94ad")
assert [x.get_text() for x in c] == ["ab", "cd", "ef"], [x.get_text() for x in c]
''', needs="unknown", breaks="text left in the roll-up buffer of another mode is dropped"),
 dict(id="c16-pop-queue-flush", property="C16",
  edits=[(C, '        if old_key == "pop":\n            if self.pop_ons_queue:\n', '        if old_key == "pop":\n            if self.pop_ons_queue and self.buffer.is_empty():\n')],
  demo=SCC + '''
c = read("00:00:01:00\\t94ae 94ae 9420 9420 9470 9470 " + text("ab") + " 942f 942f " + text("zz"), "00:00:05:00\\t9429 9429 9470 9470 " + text("cd"), "00:00:09:00\\t9429 9429")
assert "ab" in [x.get_text() for x in c], [x.get_text() for x in c]
''', needs="a pop-on caption on screen, a half-written pop-on buffer, then a mode change or the end", breaks="the displayed pop-on caption is lost when there is unfinished text in the pop-on buffer"),
 dict(id="c17-frames-rounded", property="C17",
  edits=[(C, "frames = math.floor(seconds_float * 30)", "frames = math.ceil(seconds_float * 30 - 0.5)")],
  demo='''
import re
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, SCCWriter
bad = []
for k in range(0, 1000):
    cs = CaptionSet({"en": CaptionList([Caption(20000000 + k * 1001, 30000000, [CaptionNode.create_text("a")])])})
    bad += [f for f in re.findall(r"^\\d\\d:\\d\\d:\\d\\d:(\\d+)", SCCWriter().write(cs), re.M) if int(f) > 29]
assert not bad, bad
''', needs="an instant in the last half frame of a second", breaks="the frame field of a timecode can be 30"),
 dict(id="c17-clear-threshold", property="C17",
  edits=[(C, "if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:", "if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= start:")],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, SCCWriter
long = "x" * 32
cs = CaptionSet({"en": CaptionList([Caption(5000000, 9000000, [CaptionNode.create_text("a")]),
  Caption(9500000, 12000000, [CaptionNode.create_text(long), CaptionNode.create_break(), CaptionNode.create_text(long)])])})
t = [l.split("\\t")[0] for l in SCCWriter().write(cs).splitlines()[2:] if l]
assert t == sorted(t), t
''', needs="a caption whose loading time covers the end of the previous one, with a gap between them", breaks="the erase of the previous caption is written after the load of the next one started"),
]
