From 9ca07ff154c85fdf4f84c8a0b4e5192c226d3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:59 +0000
Subject: [PATCH 01/51] fix: Size.from_string rejects a trailing newline

'$' also matches before a final newline, so '12px\n' was accepted as a size.
---
 pycaption/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..bb021fe 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -504,7 +504,7 @@ class Size:
         """
         size_pattern = re.compile(
             r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)\Z")
         match = size_pattern.search(string)
         if not match:
             raise CaptionReadSyntaxError(
-- 
2.43.0


From f5f4f7fadc397baa162c5611041c638ea098de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:30 +0000
Subject: [PATCH 02/51] fix: SRTReader.detect no longer raises on a single
 numeric line

detect_format('1') raised IndexError instead of returning None.
---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..f0516c7 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -9,7 +9,7 @@ from .exceptions import CaptionReadNoCaptions, InvalidInputError
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = content.splitlines()
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From 8e38dd7df6525265a9fec52994a075e5cf8aae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 03/51] fix: SRTWriter drops empty lines inside a cue instead
 of ending it early

---
 pycaption/srt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index f0516c7..61a697b 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -133,8 +133,10 @@ class SRTWriter(BaseWriter):
             for node in caption.nodes:
                 new_content = self._recreate_line(new_content, node)
 
-            # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            # Eliminate excessive line breaks: a blank line would end the cue
+            new_content = '\n'.join(
+                line for line in new_content.split('\n') if line.strip()
+            ).strip()
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From 30844bb222df289e2e436eaa79df169fabe08b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:28 +0000
Subject: [PATCH 04/51] fix: SAMIWriter writes integer milliseconds for
 fractional times

---
 pycaption/sami.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..ac04dae 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -437,13 +437,13 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
 
         if self.last_time and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
-- 
2.43.0


From c5710ea21ef5234d7e97a6464c6c1757b2f0096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:30 +0000
Subject: [PATCH 05/51] fix: SAMIWriter writes the blank sync of a cue that
 ends in millisecond 0

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index ac04dae..ea94fd0 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -439,7 +439,7 @@ class SAMIWriter(BaseWriter):
         """
         time = int(caption.start // 1000)
 
-        if self.last_time and time != self.last_time:
+        if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-- 
2.43.0


From 284c184f744101cc862e9100ed85b0b1e4e1c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:50 +0000
Subject: [PATCH 06/51] fix: MicroDVDReader converts frames to microseconds
 exactly

---
 pycaption/microdvd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..df8a061 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -35,7 +36,7 @@ class MicroDVDReader(BaseReader):
 
             if start == '0' and end == '0':
                 try:
-                    fps = float(txt)
+                    fps = Fraction(txt)
                     continue
                 except ValueError:
                     raise CaptionReadTimingError(
@@ -67,7 +68,7 @@ class MicroDVDReader(BaseReader):
         return caption_set
 
     def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+        return int(framenum * (10 ** 6) / Fraction(fps))
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From 05e73905c527b03c00293ed53054cba5d11e5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 07/51] fix: DFXPReader reads decimal seconds and offset times
 exactly

---
 pycaption/dfxp/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..7ffb226 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
@@ -190,7 +191,7 @@ class DFXPReader(BaseReader):
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
             microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+                6, '0')[:6])
         elif clock_time_match.group('frames'):
             microseconds += int(clock_time_match.group('frames')) / 30 * \
                             MICROSECONDS_PER_UNIT["seconds"]
@@ -198,7 +199,7 @@ class DFXPReader(BaseReader):
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        value = Fraction(time_count_match.group('time_count'))
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
-- 
2.43.0


From 9e28886bc693848aaa6956476d582c0b0e51ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:57 +0000
Subject: [PATCH 08/51] fix: WebVTTReader ends a cue without text at its blank
 line

---
 pycaption/webvtt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..03141cc 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -92,8 +92,8 @@ class WebVTTReader(BaseReader):
                     raise type(e)(new_msg).with_traceback(tb) from None
 
             elif "" == line:
-                if found_timing and nodes:
-                    found_timing = False
+                found_timing = False
+                if nodes:
                     caption = Caption(start, end, nodes, layout_info=layout_info)
                     captions.append(caption)
                     nodes = []
-- 
2.43.0


From 645dc8c0d5fd787914d2fd7826ae208fbd04d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:58 +0000
Subject: [PATCH 09/51] fix: SAMIReader ends every cue of the last sync

---
 pycaption/sami.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index ea94fd0..4d5c946 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,10 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
-            # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+        for caption in captions:
+            if caption.end == 0:
+                # Arbitrarily make this last 4 seconds. Not ideal...
+                caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 393307607f8e2b8635bad3213023a2c9847f28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:13 +0000
Subject: [PATCH 10/51] fix: WebVTTReader decodes every character reference and
 keeps unknown tags literal

---
 pycaption/webvtt.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 03141cc..b69b684 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -2,6 +2,7 @@ import datetime
 import re
 import sys
 from copy import deepcopy
+from html import unescape
 
 from .base import BaseReader, BaseWriter, Caption, CaptionList, CaptionNode, CaptionSet
 from .exceptions import (
@@ -17,9 +18,9 @@ from .geometry import HorizontalAlignmentEnum, Layout
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile("<v(\\.[^\\s.>]+)*\\s([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3}))([.\s].*?)?>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
@@ -180,15 +181,8 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
-        return s
+        # Replace character references (WebVTT has those of HTML), each once
+        return unescape(s)
 
 
 class WebVTTWriter(BaseWriter):
-- 
2.43.0


From 93135dbbe775c811f67310ce123822342557484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:11 +0000
Subject: [PATCH 11/51] fix: SAMIReader decodes every character reference
 exactly once

---
 pycaption/sami.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 4d5c946..51791b1 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -701,21 +701,19 @@ class SAMIParser(HTMLParser):
             self.sami += f"</{closing_tag}>"
 
     def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
+        # The result is parsed again: what this decodes must be escaped
+        try:
+            self.sami += escape(chr(self.name2codepoint[name]))
+        except (KeyError, ValueError):
+            self.sami += f'&amp;{name}'
 
         self.last_element = ''
 
     def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
+        if name[0] in 'xX':
+            self.sami += escape(chr(int(name[1:], 16)))
         else:
-            self.sami += chr(int(name))
+            self.sami += escape(chr(int(name)))
 
     # override the parser's handling of data
     def handle_data(self, data):
@@ -749,7 +747,7 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub('(<[^<>]*);>', r'\1>', data)
         HTMLParser.feed(self, data)
 
         # close any tags that remain in the queue
-- 
2.43.0


From 16d8cdabddc717ba5f3717546d27832326d0e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:10 +0000
Subject: [PATCH 12/51] fix: DFXP and SAMI text wrapped over source lines keeps
 its words

Comments are not text, and &apos; is decoded once (by the parser).
---
 pycaption/dfxp/base.py | 30 ++++++++++--------------------
 pycaption/sami.py      |  8 +++-----
 pycaption/utils.py     | 14 ++++++++++++++
 3 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 7ffb226..b18ebba 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 from fractions import Fraction
 from xml.sax.saxutils import escape
 
-from bs4 import BeautifulSoup, NavigableString
+from bs4 import BeautifulSoup, Comment, NavigableString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -17,7 +17,7 @@ from ..geometry import (
     Point, Stretch, UnitEnum, Padding, VerticalAlignmentEnum,
     HorizontalAlignmentEnum, Alignment, Layout,
 )
-from ..utils import is_leaf
+from ..utils import is_leaf, unwrap_source_lines
 
 __all__ = [
     'DFXP_BASE_MARKUP', 'DFXP_DEFAULT_STYLE', 'DFXP_DEFAULT_STYLE_ID',
@@ -219,16 +219,13 @@ class DFXPReader(BaseReader):
     def _convert_tag_to_node(self, tag):
         # convert text
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
-                # Escaping/unescaping xml entities is the responsibility of the
-                # xml parser used by BeautifulSoup in its initialization. The
-                # content of the tag variable at this point should be a plain
-                # unicode string with xml entities already converted to unicode
-                # characters.
-                tag_text = result.groups()[0]
+            # Escaping/unescaping xml entities is the responsibility of the
+            # xml parser used by BeautifulSoup in its initialization. The
+            # content of the tag variable at this point should be a plain
+            # unicode string with xml entities already converted to unicode
+            # characters.
+            tag_text = unwrap_source_lines(tag)
+            if tag_text and not isinstance(tag, Comment):
                 node = CaptionNode.create_text(
                     tag_text, layout_info=tag.layout_info)
                 self.nodes.append(node)
@@ -530,11 +527,7 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         are usually html parsers, some more forgiving than others, and as such
         they do stuff very differently especially for xml files. We chose this
         one because even though the docs say it's slower, it's very forgiving
-        (it allows unescaped `<` characters, for example). It doesn't support
-        the `&apos;` entity, however, since it respects the HTML4 and not HTML5
-        syntax. Since this is valid XML 1.0, as a workaround we have to
-        manually replace the every occurrence of this entity in the string
-        before using the parser.
+        (it allows unescaped `<` characters, for example).
 
         The reason why we haven't used the 'xml' parser is that it destroys
         characters such as < or & (even the escaped ones).
@@ -556,9 +549,6 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         http://www.crummy.com/software/BeautifulSoup/bs4/doc/#installing-a-parser
         """
 
-        # Work around for lack of '&apos;' support in html.parser
-        markup = markup.replace("&apos;", "'")
-
         super().__init__(
             markup, features, builder, parse_only, from_encoding, **kwargs)
 
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 51791b1..f2e2bff 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -56,6 +56,7 @@ from .exceptions import (
     CaptionReadTimingError
 )
 from .geometry import Layout, Alignment, Padding, Size
+from .utils import unwrap_source_lines
 
 # change cssutils default logging
 log.setLevel(FATAL)
@@ -255,12 +256,9 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
+            tag_text = unwrap_source_lines(tag)
+            if not tag_text:
                 return
-            tag_text = result.groups()[0]
             self.line.append(CaptionNode.create_text(tag_text, inherit_from))
         # convert line breaks
         elif tag.name == 'br':
diff --git a/pycaption/utils.py b/pycaption/utils.py
index e8ff6fb..9400098 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,3 +1,6 @@
+import re
+
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
@@ -8,3 +11,14 @@ def is_leaf(element):
     if not name or name == 'br':
         return True
     return False
+
+
+def unwrap_source_lines(text):
+    """
+    Return a text node's content without the line breaks of its source
+    document. With the indentation around it, a line break separates words. At
+    the edges of the node it is only indentation.
+    :param text: The NavigableString
+    """
+    text = re.sub(r'\s*[\n\r]\s*', '\n', text)
+    return text.strip('\n').replace('\n', ' ')
-- 
2.43.0


From b07c3e77f44d1699cfdcbf2c909c6934c636cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:02 +0000
Subject: [PATCH 13/51] fix: SAMIReader lists languages in order of first
 appearance

---
 pycaption/sami.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index f2e2bff..962b850 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -640,7 +640,7 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        self.langs = []
         self.last_element = ''
         self.name2codepoint = name2codepoint.copy()
         self.name2codepoint['apos'] = 0x0027
@@ -665,7 +665,8 @@ class SAMIParser(HTMLParser):
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            if lang not in self.langs:
+                self.langs.append(lang)
 
         # clean-up line breaks
         if tag == 'br':
@@ -722,7 +723,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
-- 
2.43.0


From 8cc1035ae3b84d9ea2a1efcef328004973a3b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:04 +0000
Subject: [PATCH 14/51] fix: captions and caption sets do not share default
 style dictionaries

---
 pycaption/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..55f9e1a 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -175,7 +175,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -203,7 +203,7 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -306,14 +306,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From b78d7f3ca50d41d39d73e51a09b9624e7286cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:35 +0000
Subject: [PATCH 15/51] fix: SAMIReader keeps languages with a common prefix
 apart

---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 962b850..e4923b7 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -192,7 +192,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', lang=language):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -664,6 +664,7 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [attr for attr in attrs if attr[0].lower() != 'lang']
             attrs.append(('lang', lang))
             if lang not in self.langs:
                 self.langs.append(lang)
-- 
2.43.0


From eadb64a45ff2457eb7c52820cb01db307dc62c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:36 +0000
Subject: [PATCH 16/51] fix: SAMIWriter declares a language whose code is a
 prefix of another's

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index e4923b7..f686098 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -526,7 +526,7 @@ class SAMIWriter(BaseWriter):
                     attr, value, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
+            lang_string = f'lang: {lang};'
             if lang_string not in stylesheet:
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
-- 
2.43.0


From 21b55c4d69fa58db541fa842b0e35524b9a5d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:38 +0000
Subject: [PATCH 17/51] fix: SAMIWriter keeps the captions of other languages
 when the first has none

---
 pycaption/sami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index f686098..bb5f3fd 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -496,6 +496,8 @@ class SAMIWriter(BaseWriter):
             if later:
                 last_sync = later[0]
                 last_sync.insert_before(sync)
+            else:
+                sami.body.append(sync)
         return sami, sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
-- 
2.43.0


From 61505a83fd288984bd3d659823ed0b84b1df8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 18/51] fix: SAMIWriter assigns every paragraph a class of its
 language

---
 pycaption/sami.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index bb5f3fd..f1994a6 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -517,6 +517,10 @@ class SAMIWriter(BaseWriter):
                 return caption.style['class']
         except KeyError:
             pass
+        # The stylesheet declares the language once, possibly for a class
+        for selector, rules in captions.get_styles():
+            if rules.get('lang') == lang:
+                return selector
         return lang
 
     def _recreate_stylesheet(self, caption_set):
-- 
2.43.0


From 8f21f9e1e840058815a0feb244581e2b28a94918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:41 +0000
Subject: [PATCH 19/51] fix: DFXPReader keeps the captions of every div of a
 language

---
 pycaption/dfxp/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index b18ebba..aa488b0 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -107,7 +107,11 @@ class DFXPReader(BaseReader):
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
@@ -133,7 +137,8 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p')
+             if p_tag.find_parent('div') is div and p_tag.get_text().strip()],
             div.layout_info
         )
 
-- 
2.43.0


From 744be310919855e49694f9d4afe56fc35ffc7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:43 +0000
Subject: [PATCH 20/51] fix: DFXP and SAMI writers forget the spans of the
 previous write

---
 pycaption/dfxp/base.py   | 1 +
 pycaption/dfxp/extras.py | 1 +
 pycaption/sami.py        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index aa488b0..0784fa5 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -331,6 +331,7 @@ class DFXPWriter(BaseWriter):
         :rtype: str
         """
         dfxp = BeautifulSoup(DFXP_BASE_MARKUP, 'lxml-xml')
+        self.open_span = False
 
         langs = caption_set.get_languages()
         if force in langs:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..6d11a0f 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -99,6 +99,7 @@ class LegacyDFXPWriter(BaseWriter):
     def write(self, caption_set, force=''):
         caption_set = deepcopy(caption_set)
         caption_set = merge_concurrent_captions(caption_set)
+        self.open_span = False
 
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
diff --git a/pycaption/sami.py b/pycaption/sami.py
index f1994a6..2ffa53c 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -387,6 +387,7 @@ class SAMIWriter(BaseWriter):
 
     def write(self, caption_set):
         caption_set = deepcopy(caption_set)
+        self.open_span = False
         sami = BeautifulSoup(SAMI_BASE_MARKUP, "lxml-xml")
 
         caption_set.layout_info = self._relativize_and_fit_to_screen(
-- 
2.43.0


From fa085f18e87e105c19cf65e6bc7acde7661f3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:27 +0000
Subject: [PATCH 21/51] fix: SCCReader starts every read from a clean state

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..567f719 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Forgets everything about the previously read document"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From 0c782532aa4c6fda26ea91644ceb7cd82fccc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 22/51] fix: SCC labels of every plain-text preamble address
 code

---
 pycaption/scc/constants.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..5d84ed1 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -1134,7 +1134,7 @@ COMMAND_LABELS = {
     "9179": "row 02, column 16, with white underlined text.",
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
-    "91fc": "row 02, column 24, with plain white text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
     "917f": "row 02, column 28, with white underlined text.",
@@ -1198,7 +1198,7 @@ COMMAND_LABELS = {
     "9279": "row 04, column 16, with white underlined text.",
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
-    "92fc": "row 04, column 24, with plain white text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
     "927f": "row 04, column 28, with white underlined text.",
@@ -1236,7 +1236,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1262,7 +1262,7 @@ COMMAND_LABELS = {
     "1579": "row 06, column 16, with white underlined text.",
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
-    "15fc": "row 06, column 24, with plain white text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
     "157f": "row 06, column 28, with white underlined text.",
@@ -1300,7 +1300,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1326,7 +1326,7 @@ COMMAND_LABELS = {
     "1679": "row 08, column 16, with white underlined text.",
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
-    "16fc": "row 08, column 24, with plain white text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
     "167f": "row 08, column 28, with white underlined text.",
@@ -1390,7 +1390,7 @@ COMMAND_LABELS = {
     "9779": "row 10, column 16, with white underlined text.",
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
-    "97fc": "row 10, column 24, with plain white text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
     "977f": "row 10, column 28, with white underlined text.",
@@ -1460,7 +1460,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1486,7 +1486,7 @@ COMMAND_LABELS = {
     "1379": "row 13, column 16, with white underlined text.",
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
-    "13fc": "row 13, column 24, with plain white text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
     "137f": "row 13, column 28, with white underlined text.",
@@ -1550,7 +1550,7 @@ COMMAND_LABELS = {
     "9479": "row 15, column 16, with white underlined text.",
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
-    "94fc": "row 15, column 24, with plain white text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
     "947f": "row 15, column 28, with white underlined text.",
-- 
2.43.0


From a39c1ac93a83f4e7218ea6df0b1c7cccaadd4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 23/51] fix: SCCReader shows the solid block character

---
 pycaption/scc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index 5d84ed1..0159503 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -641,7 +641,7 @@ CHARACTERS = {
     '7c': '÷',
     'fd': 'Ñ',
     'fe': 'ñ',
-    '7f': '',
+    '7f': '█',
     '80': ''
 }
 
-- 
2.43.0


From 0c851cfa053ab62d39784336511e05bbe0c78339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 24/51] fix: SCC captions do not take over the position of the
 previous caption

---
 pycaption/scc/specialized_collections.py |  6 +++++-
 pycaption/scc/state_machines.py          | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 1bd5bf9..37c191d 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -486,7 +486,11 @@ class InstructionNodeCreator:
                 # if not PAC or OFFSET we're not changing position
                 return
         offset_after_break = is_offset and self.has_break_before(self._collection)
-        if not offset_after_break:
+        if self.is_empty():
+            # the position of the first text in a buffer isn't relative to
+            # where the previous buffer ended
+            self._position_tracer.restart(positioning)
+        elif not offset_after_break:
             # Tab offsets after line breaks will be ignored to avoid repositioning
             self._position_tracer.update_positioning(positioning)
 
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..9f5ac8f 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -59,6 +59,18 @@ class _PositioningTracker:
             if not is_tab_offset:
                 self._repositioning_required = True
 
+    def restart(self, positioning):
+        """Sets the position of the first text in a new buffer, and forgets
+        everything that was pending for the previous one.
+
+        :type positioning: tuple[int]
+        :param positioning: a tuple (row, col)
+        """
+        self._positions = [positioning]
+        self._break_required = False
+        self._repositioning_required = False
+        self._last_column = None
+
     def get_current_position(self):
         """Returns the current usable position
 
@@ -136,3 +148,13 @@ class DefaultProvidingPositionTracker(_PositioningTracker):
             self.default = positioning
 
         super().update_positioning(positioning)
+
+    def restart(self, positioning):
+        """Sets this positioning as the default too
+
+        :param positioning: a tuple of ints (row, col)
+        :type positioning: tuple[int]
+        """
+        self.default = positioning
+
+        super().restart(positioning)
-- 
2.43.0


From c48bdaa3cdef42f2b2e16e8bf01ad47ac477fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:30 +0000
Subject: [PATCH 25/51] fix: SCCReader reports every line longer than 32
 characters

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 567f719..9053822 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -259,10 +259,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From e6a868136a8d2d4f9fbbe185d99e64fc60b1a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 26/51] fix: SCC mid-row code that opens a row adds no space to
 another row

---
 pycaption/scc/specialized_collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 37c191d..9371114 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -452,6 +452,7 @@ class InstructionNodeCreator:
             command in MID_ROW_CODES
             and prev_text_node
             and not prev_node_is_break
+            and not self._position_tracer.is_repositioning_required()
             and not prev_text_node.text[-1].isspace()
             and command not in PAC_TAB_OFFSET_COMMANDS
             and not next_is_punctuation
-- 
2.43.0


From e40775cb393a5c94bce9540bd02d16ea77cf6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 27/51] fix: SCC roll-up captions last until the next one when
 a line ends with a carriage return

---
 pycaption/scc/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 9053822..987d8c6 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -415,7 +415,17 @@ class SCCReader(BaseReader):
         # add to buffer
         self.buffer.add_chars(EXTENDED_CHARS[word])
 
+    def _extend_implicit_captions(self, previous_key):
+        """Roll-Up and Paint-On captions stay on the screen until the next one
+
+        :param previous_key: the key that was active before the current command
+        """
+        if previous_key in ("roll", "paint"):
+            self.caption_stash.correct_last_timing(self.time, force=True)
+
     def _translate_command(self, word, next_command=None):
+        previous_key = self.buffer_dict.active_key
+
         # if command is pop_up
         if word == "9420":
             self.buffer_dict.set_active("pop")
@@ -430,6 +440,7 @@ class SCCReader(BaseReader):
                 self.buffer = self.node_creator_factory.new_creator()
 
             self.time = self.time_translator.get_time()
+            self._extend_implicit_captions(previous_key)
 
         # if command is roll_up 2, 3 or 4 rows
         elif word in ("9425", "9426", "94a7"):
@@ -451,6 +462,7 @@ class SCCReader(BaseReader):
             # set rows to empty, configure start time for caption
             self.roll_rows = []
             self.time = self.time_translator.get_time()
+            self._extend_implicit_captions(previous_key)
 
         # clear pop_on buffer
         elif word == "94ae":
-- 
2.43.0


From ec354b273bd013e183836d418989911fcf187b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 28/51] fix: SCCWriter sends the first caption ahead of its
 start like the others

---
 pycaption/scc/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 987d8c6..d8447b5 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -576,13 +576,13 @@ class SCCWriter(BaseWriter):
         for index, (code, start, end) in enumerate(codes):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
-            code_start = start - code_time_microseconds
+            code_start = max(0, start - code_time_microseconds)
+            codes[index] = (code, code_start, end)
             if index == 0:
                 continue
             previous_code, previous_start, previous_end = codes[index - 1]
             if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
                 codes[index - 1] = (previous_code, previous_start, None)
-            codes[index] = (code, code_start, end)
 
         # PASS 3:
         # Write captions.
-- 
2.43.0


From 4a7c1e63d128b7aeb65a0267cee6f1866b00a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 29/51] fix: SCCWriter breaks rows only at spaces, not at
 hyphens

---
 pycaption/scc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index d8447b5..1e35998 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -601,7 +601,9 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [
+            textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines
+        ]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0


From 2b6921e8d8dcd3f528aac2a93ce96b387c8ca684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 30/51] fix: DFXP writers escape attribute values

---
 pycaption/dfxp/base.py   | 28 +++++++++++++++++++++++++---
 pycaption/dfxp/extras.py |  8 +++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 0784fa5..af30877 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -4,6 +4,7 @@ from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, Comment, NavigableString
+from bs4.formatter import XMLFormatter
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -68,6 +69,27 @@ MICROSECONDS_PER_UNIT = {
 DFXP_DEFAULT_LANGUAGE_CODE = "en"
 
 
+def escape_attribute(value):
+    """Escapes an attribute value that will be written between double quotes
+
+    :rtype: str
+    """
+    return escape(str(value), {
+        '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
+
+
+class DFXPFormatter(XMLFormatter):
+    """Writes text as it is, because the writers assemble the content of the
+    paragraphs as markup, and escapes the attribute values
+    """
+
+    def __init__(self):
+        super().__init__(entity_substitution=None)
+
+    def attribute_value(self, value):
+        return escape_attribute(value)
+
+
 class DFXPReader(BaseReader):
     def __init__(self, *args, **kw):
         super().__init__(*args, **kw)
@@ -384,7 +406,7 @@ class DFXPWriter(BaseWriter):
 
             body.append(div)
         self.region_creator.cleanup_regions()
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=DFXPFormatter())
         return caption_content
 
     @staticmethod
@@ -471,7 +493,7 @@ class DFXPWriter(BaseWriter):
 
             content_with_style = _recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}="{escape_attribute(value)}"'
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
@@ -481,7 +503,7 @@ class DFXPWriter(BaseWriter):
                 if self.write_inline_positioning:
                     styles += ' ' + ' '.join(
                         [
-                            f'{k_}="{v_}"'
+                            f'{k_}="{escape_attribute(v_)}"'
                             for k_, v_ in list(region_attribs.items())
                         ]
                     )
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 6d11a0f..1b0b7d0 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,9 @@ from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import (
+    DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, escape_attribute,
+)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -140,7 +142,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=DFXPFormatter())
         return caption_content
 
     # force the DFXP to only have one language, trying to match on "force"
@@ -212,7 +214,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             content_with_style = self._recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}="{escape_attribute(value)}"'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From ba14b8de4e0b67b73aa5ae162f5181897266a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 31/51] fix: DFXP writers leave out characters that XML does
 not allow

---
 pycaption/dfxp/base.py   | 23 ++++++++++++++++++++---
 pycaption/dfxp/extras.py |  4 ++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index af30877..85ff96c 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -69,12 +69,29 @@ MICROSECONDS_PER_UNIT = {
 DFXP_DEFAULT_LANGUAGE_CODE = "en"
 
 
+# XML 1.0 does not allow these characters, not even as character references
+XML_ILLEGAL_CHARACTERS = re.compile(
+    '[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+
+def escape_text(text):
+    """Escapes the content of a text node, without the characters that XML 1.0
+    does not allow
+
+    :rtype: str
+    """
+    return escape(XML_ILLEGAL_CHARACTERS.sub('', text))
+
+
 def escape_attribute(value):
-    """Escapes an attribute value that will be written between double quotes
+    """Escapes an attribute value that will be written between double quotes.
+    Characters that XML 1.0 does not allow are written as their code point
 
     :rtype: str
     """
-    return escape(str(value), {
+    value = XML_ILLEGAL_CHARACTERS.sub(
+        lambda match: f'U+{ord(match.group()):04X}', str(value))
+    return escape(value, {
         '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
 
 
@@ -528,7 +545,7 @@ class DFXPWriter(BaseWriter):
         :type s: str
         :param s: The content of a text node
         """
-        return escape(s)
+        return escape_text(s)
 
 
 class LayoutAwareDFXPParser(BeautifulSoup):
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 1b0b7d0..34d95c1 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -2,12 +2,12 @@
 # in a lot of cases, but since the transformations on them could be quite
 # complex, the deepcopy method is good enough sometimes.
 from copy import deepcopy
-from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
 from .base import (
     DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, escape_attribute,
+    escape_text,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -198,7 +198,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content) + ' '
+                line += escape_text(node.content) + ' '
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
-- 
2.43.0


From a514a5cc5dbfdb35f05f80d3e7f5403255efb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 32/51] fix: DFXP regions do not share an id with a style

---
 pycaption/dfxp/base.py   | 13 +++++++++++--
 pycaption/dfxp/extras.py | 10 ++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 85ff96c..4bab833 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1032,6 +1032,12 @@ class RegionCreator:
         self._region_map = {}
         self._id_seed = 0
         self._assigned_region_ids = set()
+        # Regions can't share their id with a style
+        self._used_ids = {
+            style.attrs.get('xml:id') for style in dfxp.find_all('style')}
+        self._default_region_id = DFXP_DEFAULT_REGION_ID
+        while self._default_region_id in self._used_ids:
+            self._default_region_id += '_'
 
     @staticmethod
     def _collect_unique_regions(caption_set, ignore_region):
@@ -1108,7 +1114,7 @@ class RegionCreator:
         # Creates the default region
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1126,6 +1132,9 @@ class RegionCreator:
         """
         new_id = f'{prefix}{self._id_seed}'
         self._id_seed += 1
+        while new_id in self._used_ids:
+            new_id = f'{prefix}{self._id_seed}'
+            self._id_seed += 1
         return new_id
 
     def get_positioning_info(
@@ -1172,7 +1181,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 34d95c1..80d1fff 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -115,8 +115,11 @@ class LegacyDFXPWriter(BaseWriter):
 
         # XXX For now we will always use this default region. In the future if
         # regions are provided, they will be kept
+        region_id = LEGACY_DFXP_DEFAULT_REGION_ID
+        while dfxp.find('style', {'xml:id': region_id}):
+            region_id += '_'
         dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
+            region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
 
         body = dfxp.find('body')
 
@@ -132,11 +135,10 @@ class LegacyDFXPWriter(BaseWriter):
             for caption in caption_set.get_captions(lang):
                 if caption.style:
                     caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style.update({'region': region_id})
                 else:
                     caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                                     'region': region_id}
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
-- 
2.43.0


From bbb3c2e9a7ee39142017204a4fb562802a900e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 33/51] fix: LegacyDFXPWriter defines no region when it writes
 no caption

---
 pycaption/dfxp/extras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 80d1fff..de9a494 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -144,6 +144,10 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
+        if not body.find('p'):
+            # Nothing is displayed in the region
+            dfxp.find('region').extract()
+
         caption_content = dfxp.prettify(formatter=DFXPFormatter())
         return caption_content
 
-- 
2.43.0


From 510b6e8cfb8bb4123494d2f4cc6bd9b0f8ecad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 34/51] fix: DFXP writers give every style a valid id

---
 pycaption/dfxp/base.py   | 31 +++++++++++++++++++++++++++----
 pycaption/dfxp/extras.py | 13 +++++++------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 4bab833..23e7021 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -95,6 +95,28 @@ def escape_attribute(value):
         '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
 
 
+NAME_START_CHARACTERS = (
+    'A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff'
+    '\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf'
+    '\ufdf0-\ufffd\U00010000-\U000effff')
+NAME_CHARACTERS = (
+    NAME_START_CHARACTERS + '.0-9\xb7\u0300-\u036f\u203f-\u2040-')
+# What can't appear in an id, and what looks like the replacement of it
+NOT_IN_ID_PATTERN = re.compile(
+    f'^$|^[^{NAME_START_CHARACTERS}]|[^{NAME_CHARACTERS}]|_(?=x[0-9A-F]*_)')
+
+
+def create_xml_id(name):
+    """Returns a valid xml:id for any name; different names get different ids
+
+    :rtype: str
+    """
+    return NOT_IN_ID_PATTERN.sub(
+        lambda match: ''.join(
+            f'_x{ord(character):04X}_' for character in match.group()
+        ) or '_x_', name)
+
+
 class DFXPFormatter(XMLFormatter):
     """Writes text as it is, because the writers assemble the content of the
     paragraphs as markup, and escapes the attribute values
@@ -456,13 +478,13 @@ class DFXPWriter(BaseWriter):
     def _recreate_styling_tag(self, style, content, dfxp):
         # TODO - should be drastically simplified: if attributes : append
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        dfxp_style.attrs.update({'xml:id': create_xml_id(style)})
 
         attributes = _recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': create_xml_id(style)})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -1209,8 +1231,9 @@ def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+        style_id = create_xml_id(content['class'])
+        if dfxp.find("style", {"xml:id": style_id}):
+            dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if 'italics' in content:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index de9a494..0698be4 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,8 +6,8 @@ from copy import deepcopy
 from bs4 import BeautifulSoup
 
 from .base import (
-    DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, escape_attribute,
-    escape_text,
+    DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, create_xml_id,
+    escape_attribute, escape_text,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -174,13 +174,13 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_styling_tag(self, style, content, dfxp):
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        dfxp_style.attrs.update({'xml:id': create_xml_id(style)})
 
         attributes = self._recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': create_xml_id(style)})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -241,8 +241,9 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+            style_id = create_xml_id(content['class'])
+            if dfxp.find("style", {"xml:id": style_id}):
+                dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if 'italics' in content:
-- 
2.43.0


From 3884cddca160522a59afdeb1dc0ea5fb3e4b5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 35/51] fix: DFXPWriter writes every attribute of a span once

---
 pycaption/dfxp/base.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 23e7021..48616cd 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -528,24 +528,19 @@ class DFXPWriter(BaseWriter):
         # We are left with creating tags manually, which is hard to understand
         # and harder to maintain
         if node.start:
-            styles = ''
-
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}="{escape_attribute(value)}"'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
+                attributes['region'] = region_id
                 if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{escape_attribute(v_)}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                    attributes.update(region_attribs)
+
+            styles = ''
+            for attribute, value in attributes.items():
+                styles += f' {attribute}="{escape_attribute(value)}"'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From 2365af4869ed0ac5e69da0e1101ffc5fe03b5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 36/51] fix: fit_to_screen refuses vertical lengths that are
 not percentages

---
 pycaption/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index bb021fe..fd4ee8a 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -849,7 +849,7 @@ class Layout:
                 found_absolute_unit = False
                 if bottom_right.x.unit != UnitEnum.PERCENT:
                     found_absolute_unit = True
-                elif bottom_right.x.unit != UnitEnum.PERCENT:
+                elif bottom_right.y.unit != UnitEnum.PERCENT:
                     found_absolute_unit = True
 
                 if found_absolute_unit:
-- 
2.43.0


From 83188ed6995c50dfb2ae344593b343e436af19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 37/51] fix: DFXPWriter relativizes the layouts of languages
 and of the caption set

---
 pycaption/base.py      | 21 ++++++++++++---------
 pycaption/dfxp/base.py |  8 +++++++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 55f9e1a..06ad8c7 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -79,15 +79,18 @@ class BaseWriter:
         self.fit_to_screen = fit_to_screen
 
     def _relativize_and_fit_to_screen(self, layout_info):
-        if layout_info:
-            if self.relativize:
-                # Transform absolute values (e.g. px) into percentages
-                layout_info = layout_info.as_percentage_of(
-                    self.video_width, self.video_height
-                )
-            if self.fit_to_screen:
-                # Make sure origin + extent <= 100%
-                layout_info = layout_info.fit_to_screen()
+        layout_info = self._relativize(layout_info)
+        if layout_info and self.fit_to_screen:
+            # Make sure origin + extent <= 100%
+            layout_info = layout_info.fit_to_screen()
+        return layout_info
+
+    def _relativize(self, layout_info):
+        if layout_info and self.relativize:
+            # Transform absolute values (e.g. px) into percentages
+            layout_info = layout_info.as_percentage_of(
+                self.video_width, self.video_height
+            )
         return layout_info
 
     def write(self, content):
diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 48616cd..2146175 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -406,12 +406,18 @@ class DFXPWriter(BaseWriter):
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
         for lang in langs:
+            # What captions inherit is fit to the screen with them
+            inherited_layout = (
+                caption_set.get_layout_info(lang) or caption_set.layout_info)
+            caption_set.set_layout_info(
+                lang, self._relativize(caption_set.get_layout_info(lang)))
             for caption in caption_set.get_captions(lang):
                 caption.layout_info = self._relativize_and_fit_to_screen(
-                    caption.layout_info)
+                    caption.layout_info or inherited_layout)
                 for node in caption.nodes:
                     node.layout_info = self._relativize_and_fit_to_screen(
                         node.layout_info)
+        caption_set.layout_info = self._relativize(caption_set.layout_info)
 
         # Create the styles in the <styling> section, or a default style.
         for style_id, style in caption_set.get_styles():
-- 
2.43.0


From 393627522a8cbf610ac8919cd647901b2413ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 38/51] fix: fit_to_screen refuses an origin that is not in
 percentages

---
 pycaption/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index fd4ee8a..989e7ec 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -831,6 +831,10 @@ class Layout:
         """
 
         if self.origin:
+            if not self.origin.is_relative():
+                raise ValueError("Units must be relativized before extent "
+                                 "can be calculated based on origin.")
+
             # Calculated values to be used if replacement is needed
             diff_horizontal = Size(90 - self.origin.x.value, UnitEnum.PERCENT)
             diff_vertical = Size(95 - self.origin.y.value, UnitEnum.PERCENT)
-- 
2.43.0


From 7649da66d6c691f65654d06233441e532dc2e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 39/51] fix: SAMIWriter writes the layout of a language in the
 class of the language

---
 pycaption/sami.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 2ffa53c..50fc3c8 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -529,8 +529,12 @@ class SAMIWriter(BaseWriter):
 
         for attr, value in caption_set.get_styles():
             if value != {}:
+                # The class of a language has the layout of the language
+                layout_info = (
+                    caption_set.get_layout_info(value.get('lang'))
+                    or caption_set.layout_info)
                 stylesheet += self._recreate_style_block(
-                    attr, value, caption_set.layout_info)
+                    attr, value, layout_info)
 
         for lang in caption_set.get_languages():
             lang_string = f'lang: {lang};'
-- 
2.43.0


From 14e170cc7ff8e771476b4e794e11c332914cab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 40/51] fix: WebVTTWriter gives every layout of a caption a
 complete cue

---
 pycaption/webvtt.py | 53 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index b69b684..ec45d16 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -262,13 +262,16 @@ class WebVTTWriter(BaseWriter):
         """
         :type caption: Caption
         """
-        layout_groups = self._group_cues_by_layout(caption.nodes, caption_set)
+        default_layout = caption.layout_info or self.global_layout
+        layout_groups = self._group_cues_by_layout(
+            caption.nodes, caption_set, default_layout
+        )
 
         start = self._timestamp(caption.start)
         end = self._timestamp(caption.end)
         timespan = f"{start} --> {end}"
 
-        output = ""
+        cues = []
 
         cue_style_tags = ["", ""]
 
@@ -281,13 +284,13 @@ class WebVTTWriter(BaseWriter):
                 cue_style_tags[1] = tags[1] + cue_style_tags[1]
 
         for cue_text, layout in layout_groups:
-            if not layout:
-                layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
-            output += timespan + cue_settings + "\n"
-            output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
+            cues.append(
+                timespan + cue_settings + "\n"
+                + cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
+            )
 
-        return output
+        return "\n".join(cues)
 
     def _convert_positioning(self, layout):
         """
@@ -379,15 +382,22 @@ class WebVTTWriter(BaseWriter):
 
         return cue_settings
 
-    def _group_cues_by_layout(self, nodes, caption_set):
+    def _group_cues_by_layout(self, nodes, caption_set, default_layout=None):
         """
         Convert a Caption's nodes to WebVTT cue or cues (depending on
         whether they have the same positioning or not).
+
+        :param default_layout: The Layout of the nodes that don't have one
         """
         if not nodes:
             return []
 
-        current_layout = None
+        current_layout = default_layout
+        has_text = False
+        # The tags of the style nodes that have started, and how many of the
+        # tags are written in the current cue
+        tags = []
+        open_tags = 0
 
         # A list with layout groups. Since WebVTT only support positioning
         # for different cues, each layout group has to be represented in a
@@ -398,15 +408,22 @@ class WebVTTWriter(BaseWriter):
         s = ""
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                layout = node.layout_info or default_layout
+                if has_text and layout != current_layout:
                     # If the positioning changes from one text node to
                     # another, a new WebVTT cue has to be created.
+                    s = s.rstrip("\n")
+                    s += "".join(end for _, end in reversed(tags[:open_tags]))
                     layout_groups.append((s, current_layout))
                     s = ""
+                    open_tags = 0
+                s += "".join(start for start, _ in tags[open_tags:])
+                open_tags = len(tags)
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
-                current_layout = node.layout_info
+                current_layout = layout
+                has_text = True
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
                     node.content, caption_set
@@ -418,21 +435,27 @@ class WebVTTWriter(BaseWriter):
 
                 for style in styles:
                     if style in resulting_style and resulting_style[style]:
-                        tags = self._convert_style_to_text_tag(style)
+                        tag = self._convert_style_to_text_tag(style)
                         if node.start:
-                            s += tags[0]
-                        else:
-                            s += tags[1]
+                            tags.append(tag)
+                        elif tags:
+                            s += "".join(start for start, _ in tags[open_tags:])
+                            s += tags.pop()[1]
+                            open_tags = len(tags)
 
                 # TODO: Refactor pycaption and eliminate the concept of a
                 # "Style node"
             elif node.type_ == CaptionNode.BREAK:
+                s += "".join(start for start, _ in tags[open_tags:])
+                open_tags = len(tags)
                 if i > 0 and nodes[i - 1].type_ != CaptionNode.TEXT:
                     s += "&nbsp;"
                 if i == 0:  # cue text starts with a break
                     s += "&nbsp;"
                 s += "\n"
 
+        s += "".join(start for start, _ in tags[open_tags:])
+        s += "".join(end for _, end in reversed(tags))
         if s:
             layout_groups.append((s, current_layout))
         return layout_groups
-- 
2.43.0


From f6b34d3bbdb7109b3b4c0aac98d0ed97afe5cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 41/51] fix: WebVTTWriter takes the left padding out of the
 width without an origin too

---
 pycaption/webvtt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index ec45d16..8abc210 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -341,7 +341,7 @@ class WebVTTWriter(BaseWriter):
             cue_width = layout.extent.horizontal
 
         if layout.padding:
-            if layout.padding.start and left_offset:
+            if layout.padding.start:
                 # Since there is no padding in WebVTT, the left padding is
                 # added to the total left offset (if it is defined and not
                 # relative),
-- 
2.43.0


From acffa874f1a4e23de9f5ca92daa725bcd93aeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 42/51] fix: DFXPWriter writes the layout of text nodes

---
 pycaption/dfxp/base.py | 73 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 62 insertions(+), 11 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 2146175..f3730b6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -512,9 +512,18 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        self.open_span = False
+        # The attributes of the style node the characters are in, the region
+        # of the caption, and the region the characters are currently in
+        self._style_attributes = {}
+        self._caption_region = self._region = (
+            self.region_creator.get_positioning_info(
+                lang, caption_set, caption)[0])
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
+                line = self._recreate_text_region(
+                    line, node, caption_set, caption, lang)
                 line += self._encode(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
@@ -524,7 +533,49 @@ class DFXPWriter(BaseWriter):
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
 
-        return line.rstrip()
+        line = line.rstrip()
+        if self.open_span:
+            line += '</span>'
+            self.open_span = False
+        return line
+
+    def _recreate_text_region(self, line, node, caption_set, caption, lang):
+        """If the layout of a text node is not the one its characters would
+        get from where they are in the caption, put them in a span of their
+        own, that has the layout as its region.
+        """
+        region_id = self._style_attributes.get('region', self._caption_region)
+        region_attribs = {}
+        if node.layout_info:
+            region_id, region_attribs = (
+                self.region_creator.get_positioning_info(
+                    lang, caption_set, caption, node))
+
+        if region_id == self._region:
+            return line
+
+        if self.open_span:
+            line += '</span>'
+            self.open_span = False
+        attributes = dict(self._style_attributes)
+        attributes.pop('region', None)
+        if region_id != self._caption_region:
+            attributes['region'] = region_id
+        if self.write_inline_positioning:
+            attributes.update(region_attribs)
+        self._region = region_id
+
+        return self._open_span(line, attributes)
+
+    def _open_span(self, line, attributes):
+        styles = ''
+        for attribute, value in attributes.items():
+            styles += f' {attribute}="{escape_attribute(value)}"'
+
+        if styles:
+            line += f'<span{styles}>'
+            self.open_span = True
+        return line
 
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
                        lang=None):
@@ -544,19 +595,19 @@ class DFXPWriter(BaseWriter):
                 if self.write_inline_positioning:
                     attributes.update(region_attribs)
 
-            styles = ''
-            for attribute, value in attributes.items():
-                styles += f' {attribute}="{escape_attribute(value)}"'
-
-            if styles:
+            if attributes:
                 if self.open_span:
                     line = line.rstrip() + '</span> '
-                line += f'<span{styles}>'
-                self.open_span = True
+                line = self._open_span(line, attributes)
+                self._style_attributes = attributes
+                self._region = attributes.get('region', self._caption_region)
 
-        elif self.open_span:
-            line = line.rstrip() + '</span> '
-            self.open_span = False
+        else:
+            if self.open_span:
+                line = line.rstrip() + '</span> '
+                self.open_span = False
+            self._style_attributes = {}
+            self._region = self._caption_region
 
         return line
 
-- 
2.43.0


From 9b699e104128404db61a514ca371710dfd46082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 43/51] fix: DFXPWriter writes both alignments of every layout
 inline

---
 pycaption/dfxp/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index f3730b6..d171f1f 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1257,7 +1257,11 @@ class RegionCreator:
         if not region_id:
             region_id = self._default_region_id
 
-        positioning_attributes = _convert_layout_to_attributes(layout_info)
+        # What the layout doesn't specify must not be inherited
+        positioning_attributes = _create_external_alignment(
+            DFXP_DEFAULT_REGION.alignment)
+        positioning_attributes.update(
+            _convert_layout_to_attributes(layout_info))
 
         # Mark the region as having been assigned, so we can perform cleanup
         self._assigned_region_ids.add(region_id)
-- 
2.43.0


From 68fc52da9a7e935fe793edcf806c93b9746a24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 44/51] fix: DFXP writers write no italics for a style that
 switches them off

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index d171f1f..ffef1b5 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1292,7 +1292,7 @@ def _recreate_style(content, dfxp):
             dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = content['font-family']
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 0698be4..ded9321 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -246,7 +246,7 @@ class LegacyDFXPWriter(BaseWriter):
                 dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = content['font-family']
-- 
2.43.0


From 40ff72376b3b125dc91d2f7bfc1055112849bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:06 +0000
Subject: [PATCH 45/51] fix: SAMIWriter closes every span once

---
 pycaption/sami.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 50fc3c8..09821ac 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -591,6 +591,7 @@ class SAMIWriter(BaseWriter):
         if node.start:
             if self.open_span:
                 line = line.rstrip() + '</span> '
+                self.open_span = False
             line = self._recreate_span(line, node.content)
         else:
             if self.open_span:
-- 
2.43.0


From fef9c007c6ab75dba1d81832d8f9392c7ff4100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:03 +0000
Subject: [PATCH 46/51] fix: SAMI attribute values are escaped

---
 pycaption/sami.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 09821ac..48c9420 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -70,6 +70,11 @@ SAMI_BASE_MARKUP = '''
 </sami>'''
 
 
+def escape_attribute(value):
+    """Escape an attribute value, that is written between double quotes"""
+    return escape(str(value), {'"': '&quot;'})
+
+
 class SAMIReader(BaseReader):
     def __init__(self, *args, **kw):
         super().__init__(*args, **kw)
@@ -453,9 +458,10 @@ class SAMIWriter(BaseWriter):
         for attr, value in list(self._recreate_style(caption.style).items()):
             p_style += f'{attr}:{value};'
         if p_style:
-            p['p_style'] = p_style
+            p['p_style'] = escape_attribute(p_style)
 
-        p['class'] = self._recreate_p_lang(caption, lang, captions)
+        p['class'] = escape_attribute(
+            self._recreate_p_lang(caption, lang, captions))
         p.string = self._recreate_text(caption.nodes)
 
         sync.append(p)
@@ -505,7 +511,8 @@ class SAMIWriter(BaseWriter):
         sami, sync = self._recreate_sync(sami, lang, primary, self.last_time)
 
         p = sami.new_tag("p")
-        p['class'] = self._recreate_p_lang(caption, lang, captions)
+        p['class'] = escape_attribute(
+            self._recreate_p_lang(caption, lang, captions))
         p.string = '&nbsp;'
 
         sync.append(p)
@@ -604,14 +611,14 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class="{content["class"]}"'
+            klass += f' class="{escape_attribute(content["class"])}"'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
-                style = f' style="{style}"'
+                style = f' style="{escape_attribute(style)}"'
             line += f'<span{klass}{style}>'
             self.open_span = True
 
@@ -694,7 +701,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
-                tag += f' {attr.lower()}="{value}"'
+                tag += f' {attr.lower()}="{escape_attribute(value)}"'
             self.sami += f"<{tag}>"
 
     # override the parser's handling of endtags
-- 
2.43.0


From 5948c882b9edec8e5201895c6a2828a1b7bedd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 47/51] fix: DFXP writers refer to every class of a style

---
 pycaption/dfxp/base.py   | 14 +++++++++++---
 pycaption/dfxp/extras.py |  8 ++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index ffef1b5..b784f1b 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1283,13 +1283,21 @@ class RegionCreator:
                 region.extract()
 
 
+def find_style_ids(content, dfxp):
+    """The ids of the defined styles among the class, or classes, of a style"""
+    classes = content.get('classes') or [content['class']]
+    style_ids = [create_xml_id(class_) for class_ in classes]
+    return ' '.join(style_id for style_id in style_ids
+                    if dfxp.find("style", {"xml:id": style_id}))
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        style_id = create_xml_id(content['class'])
-        if dfxp.find("style", {"xml:id": style_id}):
-            dfxp_style['style'] = style_id
+        style_ids = find_style_ids(content, dfxp)
+        if style_ids:
+            dfxp_style['style'] = style_ids
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if content.get('italics'):
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index ded9321..d949c06 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -7,7 +7,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, create_xml_id,
-    escape_attribute, escape_text,
+    escape_attribute, escape_text, find_style_ids,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -241,9 +241,9 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            style_id = create_xml_id(content['class'])
-            if dfxp.find("style", {"xml:id": style_id}):
-                dfxp_style['style'] = style_id
+            style_ids = find_style_ids(content, dfxp)
+            if style_ids:
+                dfxp_style['style'] = style_ids
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if content.get('italics'):
-- 
2.43.0


From cca504428bfc04011807a8047ada9e4b8c3497ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 48/51] fix: MicroDVDWriter keeps a caption of the first frame
 apart from the frame rate

---
 pycaption/microdvd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index df8a061..485814d 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -23,6 +23,7 @@ class MicroDVDReader(BaseReader):
         lines = content.splitlines()
         captions = CaptionList()
         fps = 25.0
+        found_fps = False
         for line in lines:
             if not line:
                 continue
@@ -34,9 +35,11 @@ class MicroDVDReader(BaseReader):
 
             start, end, txt = m.groups()
 
-            if start == '0' and end == '0':
+            # Only the first one is not a caption
+            if start == '0' and end == '0' and not found_fps:
                 try:
                     fps = Fraction(txt)
+                    found_fps = True
                     continue
                 except ValueError:
                     raise CaptionReadTimingError(
@@ -82,7 +85,12 @@ class MicroDVDWriter(BaseWriter):
                 self._recreate_lang(caption_set.get_captions(lang))
             )
 
-        return ''.join(captions)
+        content = ''.join(captions)
+        if re.search(r'^\{0\}\{0\}', content, re.MULTILINE):
+            # Keep the caption from being read as the frame rate
+            content = '{0}{0}25\n' + content
+
+        return content
 
     def _microtoframes(self, micro, fps=25.0):
         return int(micro * fps / (10 ** 6))
-- 
2.43.0


From 5acd989fdedb42cabcf42ded3896c260269836ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 49/51] fix: WebVTTWriter escapes an arrow whose characters are
 in several text nodes

---
 pycaption/webvtt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 8abc210..35c7fef 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -285,6 +285,8 @@ class WebVTTWriter(BaseWriter):
 
         for cue_text, layout in layout_groups:
             cue_settings = self._convert_positioning(layout)
+            # The characters of an arrow can come from several nodes
+            cue_text = cue_text.replace("-->", "--&gt;")
             cues.append(
                 timespan + cue_settings + "\n"
                 + cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
-- 
2.43.0


From ac7b0f4fb0ec20c7b27b6f41a50a6f983c2da204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:53 +0000
Subject: [PATCH 50/51] fix: WebVTTWriter keeps the hours beyond a day

---
 pycaption/webvtt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 35c7fef..1a04757 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -220,7 +220,7 @@ class WebVTTWriter(BaseWriter):
 
     def _timestamp(self, ts):
         td = datetime.timedelta(microseconds=ts)
-        mm, ss = divmod(td.seconds, 60)
+        mm, ss = divmod(td.days * 86400 + td.seconds, 60)
         hh, mm = divmod(mm, 60)
         s = f"{mm:02}:{ss:02}.{td.microseconds // 1000:03}"
         if hh:
-- 
2.43.0


From ba514eb30d60de0dc08909964f25a7a8204c5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:17 +0000
Subject: [PATCH 51/51] fix: a SAMI paragraph keeps its language when its class
 declares another one

---
 pycaption/sami.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 48c9420..87466cd 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -521,8 +521,9 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            if 'lang' in captions.get_style(caption.style['class']):
-                return caption.style['class']
+            class_ = caption.style['class']
+            if captions.get_style(class_).get('lang') == lang:
+                return class_
         except KeyError:
             pass
         # The stylesheet declares the language once, possibly for a class
-- 
2.43.0

