SEEDS = [
 dict(id="c18-layout-hash-inherit", property="C18",
  edits=[("pycaption/geometry.py", "            and self.end == other.end\n", "            and (self.end == other.end or self.start == other.end)\n")],
  demo='''
from pycaption.geometry import Padding, Size
def p(a, b, c, d): return Padding(*[Size.from_string(x) for x in (a, b, c, d)])
a, b = p("1%", "1%", "2%", "5%"), p("1%", "1%", "2%", "2%")
assert not (a == b), "paddings with different end compare equal"
''', needs="two paddings that differ only in `end`, where the other's end equals this one's start",
  breaks="Padding.__eq__ no longer compares exactly the four components"),
 dict(id="c18-size-print-large", property="C18",
  edits=[("pycaption/geometry.py", "            s = f\"{value:.2f}\".rstrip('0').rstrip('.')", "            s = f\"{value:.4g}\" if value >= 10 else f\"{value:.2f}\".rstrip('0').rstrip('.')")],
  demo='''
from pycaption.geometry import Size
for v in ("123.45%", "1234.56px"):
    s = Size.from_string(v)
    assert str(s) == v, str(s)
''', needs="a size of three or more integer digits with two decimals",
  breaks="printing keeps four significant digits instead of two decimals, so re-parsing a printed value changes it"),
 dict(id="c19-adjust-end-zero", property="C19",
  edits=[("pycaption/base.py", "                if caption.start >= 0:\n                    out_captions.append(caption)", "                if caption.start >= 0 or caption.end > 0:\n                    caption.start = max(caption.start, 0)\n                    out_captions.append(caption)")],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
cs = CaptionSet({"en": CaptionList([Caption(1000000, 5000000, [CaptionNode.create_text("a")])])})
cs.adjust_caption_timing(offset=-2000000)
assert len(cs.get_captions("en")) == 0
''', needs="a negative offset that moves a start below zero but leaves the end positive",
  breaks="a caption whose new start is negative is kept, clipped to zero"),
 dict(id="c19-merge-restart", property="C19",
  edits=[("pycaption/base.py", "                    concurrent_captions.append(caption)\n                    last_caption = caption\n                    continue",
          "                    concurrent_captions.append(caption)\n                    if len(concurrent_captions) > 3:\n                        merged_captions.append(merge(concurrent_captions))\n                        concurrent_captions = []\n                        last_caption = None\n                    continue")],
  demo='''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.base import merge_concurrent_captions
cs = CaptionSet({"en": CaptionList([Caption(0, 1000, [CaptionNode.create_text(str(k))]) for k in range(5)])})
assert len(merge_concurrent_captions(cs).get_captions("en")) == 1
''', needs="five or more consecutive captions with identical times",
  breaks="a long run of concurrent captions is split in two"),
 dict(id="c20-srt-detect-cr", property="C20",
  edits=[("pycaption/webvtt.py", '        return "WEBVTT" in content', '        return content.splitlines()[0].lstrip("\\ufeff").startswith("WEBVTT") or ("WEBVTT" in content.split("\\n\\n")[1])')],
  demo='''
import pycaption
assert pycaption.detect_format("just text") is None
''', needs="a text without blank line that no earlier reader accepts",
  breaks="WebVTTReader.detect raises IndexError"),
 dict(id="c20-order", property="C20",
  edits=[("pycaption/__init__.py", "    for reader in SUPPORTED_READERS:\n        if reader().detect(caps):\n            return reader\n",
          "    accepting = [reader for reader in SUPPORTED_READERS if reader().detect(caps)]\n    if accepting:\n        return min(accepting, key=lambda reader: reader.__name__)\n")],
  demo='''
import pycaption
# SRT file about WEBVTT: WebVTT comes first in the documented order
assert pycaption.detect_format("1\\n00:00:01,000 --> 00:00:02,000\\nWEBVTT\\n") is pycaption.WebVTTReader
assert pycaption.detect_format("{1}{2}<sami>") is pycaption.MicroDVDReader
assert pycaption.detect_format("<sami>WEBVTT") is pycaption.WebVTTReader
''', needs="a string two readers accept, whose alphabetical order differs from the documented one",
  breaks="detect_format no longer returns the first accepting reader in the documented order"),
]
