"""Real reads and writes of a few documents, recorded: every function of the package they execute must be one that the
origin analysis followed.  Otherwise the analysis missed a call and its verdict on that class is withdrawn (undecided)."""
import sys
import warnings

import pycaption
from pycaption.base import CaptionSet, CaptionNode, Caption, CaptionList  # noqa: F401

from pyvc import env
from pyvc.sym import Unsupported

SRT = "1\n00:00:01,000 --> 00:00:02,000\none & <two>\nthree\n\n2\n00:00:02,000 --> 00:00:03,500\nfour\n\n3\n00:00:02,000 --> 00:00:03,500\nfive\n"
VTT = ("WEBVTT\n\nNOTE x\n\n00:01.000 --> 00:02.000 align:left position:10% line:20% size:30%\n<v Bob>one &amp; <i>two</i>\nthree\n\n"
       "id\n01:00:02.000 --> 01:00:03.500\n<c.x>four</c> --&gt;\n\n")
DFXP = """<?xml version="1.0" encoding="utf-8"?>
<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" tts:extent="640px 360px">
 <head>
  <styling><style xml:id="s1" tts:fontStyle="italic" tts:color="red" tts:textAlign="right"/><style xml:id="s2" style="s1" tts:fontWeight="bold" tts:textDecoration="underline"/></styling>
  <layout>
   <region xml:id="r1" tts:origin="10% 10%" tts:extent="50% 20%" tts:padding="1% 2% 3% 4%" tts:textAlign="center" tts:displayAlign="after"/>
   <region xml:id="r2" tts:origin="64px 36px" tts:extent="64px 36px"/>
   <region xml:id="r3"><style tts:origin="1c 2c"/></region>
  </layout>
 </head>
 <body region="r1"><div xml:lang="en">
  <p begin="00:00:01.000" end="00:00:02.000" style="s1" region="r2">one <span tts:fontStyle="italic" style="s2">two<br/>three</span> &amp; <!-- c --></p>
  <p begin="2s" dur="1500ms" tts:origin="10% 20%">four <span region="r3">five</span></p>
  <p begin="00:00:05:12" end="00:00:06">six</p></div>
  <div xml:lang="fr"><p begin="00:00:01.000" end="00:00:02.000">un</p></div>
 </body></tt>"""
SAMI = """<SAMI><HEAD><STYLE TYPE="text/css"><!--
P { margin-left: 1pt; text-align: center; font-size: 10pt; color: white; }
.ENCC { Name: English; lang: en-US; SAMI_Type: CC; }
.FRCC { Name: French; lang: fr-FR; }
#Big { font-size: 20pt; font-style: italic; font-weight: bold; text-decoration: underline; margin: 1% 2% 3% 4%; }
.Em { font-style: italic; }
--></STYLE></HEAD><BODY>
<SYNC start="1000"><P class="ENCC">one &amp; <i>two</i><br/><span class="Em" style="text-align: left; font-weight: bold">three</span> <b>x</b> <u>y</u> &nbsp; &#65;</P><P class="FRCC">un</P></SYNC>
<SYNC start="2000"><P class="ENCC" id="Big">four</P><P lang="de">drei</P></SYNC>
<SYNC start="3000"><P class="ENCC">&nbsp;</P></SYNC></BODY></SAMI>"""
MICRODVD = "{0}{0}25.000\n{25}{50}one|two\n{50}{80}three & four\n"
SCC = """Scenarist_SCC V1.0

00:00:01:00	94ae 94ae 9420 9420 9470 9470 97a2 97a2 c8e5 ecec ef80 91ae 91ae 54e5 f8f4 91b0 9137 9137 1320 92a1 9421 942f 942f

00:00:03:00	942c 942c 94ae 94ae 9420 9420 1370 1370 91ae 91ae 4b6b 9120 9120 6d6d 9470 9470 7373 942f 942f

00:00:06;00	942c 942c 9425 9425 94ad 94ad 9470 9470 6161 6262 94ad 94ad 9470 9470 6363

00:00:09;00	94ad 94ad 9470 9470 6464 942c 942c

00:00:12;00	9429 9429 9470 9470 6161 94d0 94d0 6262 9429 9429 9470 9470 7373

00:00:15;00	942c 942c 94a7 94a7 94ad 94ad 9470 9470 6464
"""
DOCS = {"SRTReader": [SRT, "", "x"], "WebVTTReader": [VTT, "WEBVTT", "x"], "DFXPReader": [DFXP, "<tt></tt>"], "SAMIReader": [SAMI, "<sami></sami>"],
        "MicroDVDReader": [MICRODVD, "{"], "SCCReader": [SCC, SCC.replace(";", ":"), "Scenarist_SCC V1.0\n\n00:00:01:00\t9420 9470 " + "c8e5 " * 20 + "942f\n"]}
OPTIONS = {"WebVTTReader": [{}, {"ignore_timing_errors": False, "time_shift_milliseconds": 1000}]}
W_OPTIONS = [{}, {"relativize": False, "fit_to_screen": False}, {"video_width": 640, "video_height": 360},
             {"write_inline_positioning": True, "video_width": 640, "video_height": 360}]
_SETS = []


def recorded(call):
    seen = set()
    root = env.REPO.rstrip("/") + "/pycaption/"

    def prof(frame, event, arg):
        c = frame.f_code
        if event == "call" and c.co_filename.startswith(root) and "<" not in c.co_qualname:
            seen.add((c.co_filename, c.co_qualname))
    old = sys.getprofile()
    sys.setprofile(prof)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = call()
            except Exception:
                r = None
    finally:
        sys.setprofile(old)
    return r, seen


def sets():
    if not _SETS:
        _SETS.append([cs for name, docs in DOCS.items() for doc in docs
                      for cs in [recorded(lambda: getattr(pycaption, name)().read(doc))[0]] if cs is not None])
    return _SETS[0]


def executed(cls, name):
    out = set()
    if name == "read":
        for doc in DOCS.get(cls.__name__, ()):
            for kw in OPTIONS.get(cls.__name__, [{}]):
                try:
                    r = cls(**kw)
                except Exception:
                    continue
                out |= recorded(lambda: r.read(doc))[1]
                out |= recorded(lambda: r.read(doc))[1]
        return out
    for cs in sets():
        for kw in W_OPTIONS:
            try:
                w = cls(**kw)
            except Exception:
                continue
            out |= recorded(lambda: w.write(cs))[1]
            if cls.__name__.endswith("DFXPWriter"):
                out |= recorded(lambda: w.write(cs, force="fr"))[1]
    return out


def check(cls, name, visited):
    """visited: functions the analysis followed, as (file, qualified name)"""
    import os
    real = {(os.path.realpath(f), q) for f, q in executed(cls, name)}
    miss = real - {(os.path.realpath(f), q) for f, q in visited}
    if miss:
        raise Unsupported("executed, but not followed by the analysis: %s" % sorted(miss)[:5])
    if not real:
        raise Unsupported("nothing was executed")
    return len(real)
