import itertools
from bounded import gen
import pycaption
from pycaption import (DFXPReader, DFXPWriter, MicroDVDReader, MicroDVDWriter, SAMIReader, SAMIWriter, SCCReader, SCCWriter,
                       SRTReader, SRTWriter, WebVTTReader, WebVTTWriter, detect_format)
from pycaption.dfxp import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.exceptions import CaptionReadNoCaptions

ORDER = [DFXPReader, MicroDVDReader, WebVTTReader, SAMIReader, SRTReader, SCCReader]
MARK = ["</tt>", "{1}{2}", "WEBVTT", "<sami>", "1\n00:00:01,000 --> 00:00:02,000\nx", "Scenarist_SCC V1.0", "-->", "1", "\n", "\r\n", "\r", " ",
        "", "{1}{", "{a}{b}", "<SAMI", "</TT>", "\u2028", "\x0c", "١", "²", "1\n", "1\n\n", "\n1\n-->", "\ufeffWEBVTT", "{1}{2}\n", "\x00",
        "Scenarist_SCC V1.0\n\n00:00:00;00\t9420", "webvtt", "\ud800"]


def one(r, s, group):
    r.case(group, s.encode("unicode_escape").decode(), True)
    if s == "":
        try:
            v = detect_format(s)
            r.fail("empty", "empty string did not raise", {"got": repr(v)})
        except CaptionReadNoCaptions:
            pass
        except Exception as e:
            r.fail("empty", "empty string raised %r" % e, {})
        return
    want = None
    for c in ORDER:
        try:
            if c().detect(s):
                want = c
                break
        except Exception as e:
            r.fail("detect-raises-" + c.__name__, "%s.detect raised %r" % (c.__name__, e), {"text": ascii(s)})
            return
    try:
        got = detect_format(s)
    except Exception as e:
        r.fail("raises", "detect_format raised %r" % e, {"text": ascii(s)})
        return
    if got is not want:
        r.fail("order", "detect_format is not the first accepting reader in the documented order", {"text": ascii(s), "got": repr(got), "want": repr(want)})


def total(r):
    r.rules.append("detection: all products of up to 3 format markers/edge pieces, plus random strings")
    for n in range(0, 4):
        for t in itertools.product(MARK, repeat=n):
            if n == 3 and r.left() < r.budget * .6:
                break
            one(r, "".join(t), "pieces")
    rng = r.rng("rand")
    for i in r.loop("rand", r.count(5000, 100000)):
        one(r, "".join(rng.choice(["1", "\n", "-->", "{", "}", "a", "\x85", "<", "/", "tt>", "sami", "é", "\r", "9"]) for _ in range(rng.randint(1, 12))), "random")


def own_output(r):
    r.rules.append("own output: random caption sets (text without markers) through all 8 writers; detect_format and re-read")
    rng = r.rng("own")
    ws = [(SRTWriter, SRTReader), (WebVTTWriter, WebVTTReader), (DFXPWriter, DFXPReader), (LegacyDFXPWriter, DFXPReader),
          (SinglePositioningDFXPWriter, DFXPReader), (SAMIWriter, SAMIReader), (MicroDVDWriter, MicroDVDReader), (SCCWriter, SCCReader)]
    for i in r.loop("own", r.count(250, 4000)):
        n = rng.randint(1, 5)
        words = [w for w in gen.WORDS if w not in ("{1}{2}",)]
        scc_words = ["hello", "world", "fox", "it's", "OK?"]
        for w, rd in ws:
            kw = {}
            args = {}
            cues = {"en-US": [(s, e, [gen.line(rng, 0 if w is SCCWriter else .15, 4, scc_words if w is SCCWriter else words)
                                      for _ in range(rng.randint(1, 2))])
                              for s, e in gen.times(rng, n, gap=(2500, 4000), dur=(1500, 4000), start=rng.choice([0, 0, 40, 5000, 3600000, 40000000]) if w is not SCCWriter else 5000)]}
            flat = " ".join(l for _, _, ls in cues["en-US"] for l in ls)
            if any(m in flat.lower() for m in ("</tt>", "webvtt", "<sami", "scenarist")):
                continue
            cs = gen.make_set(cues)
            if rng.random() < .3 and w in (WebVTTWriter, DFXPWriter, SinglePositioningDFXPWriter):
                cs.layout_info = gen.layout(rng)
            args = (gen.layout(rng),) if w is SinglePositioningDFXPWriter else ()
            try:
                out = w(*args).write(cs)
            except Exception as e:
                r.fail("write-" + w.__name__, "%s raised %r" % (w.__name__, e), {"cues": cues})
                continue
            r.case("own-" + w.__name__, out, True, sample=out[:300])
            try:
                got = detect_format(out)
            except Exception as e:
                got = e
            if got is not rd:
                r.fail("own-detect-" + w.__name__, "detect_format(%s output) is %r" % (w.__name__, got), {"output": out[:2000]})
                continue
            try:
                rs = got().read(out)
                if rs.is_empty():
                    raise ValueError("no captions")
            except Exception as e:
                r.fail("own-read-" + w.__name__, "reading %s output raised %r" % (w.__name__, e), {"output": out[:2000]})


CASES = [total, own_output]
