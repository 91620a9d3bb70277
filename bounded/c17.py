"""C17: SCC output against an independent reading of its structure, and against pycaption's own reader."""
import re
from fractions import Fraction as F

from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, SCCReader, SCCWriter

from oracles import cea608 as O

FRAME = F(1001000, 30)                    # microseconds per frame of the non-drop-frame timecode SCCWriter emits
BASIC = sorted(O.STD.values())
TOO_MANY = "a caption that needs more than 15 rows"
LINE = re.compile(r"(\d{2}):(\d{2}):(\d{2}):(\d{2})\t(\S.*)")


def frames(h, m, s, f):
    return ((int(h) * 60 + int(m)) * 60 + int(s)) * 30 + int(f)


def want_rows(text):
    """Fewest rows the text needs, breaking only at spaces and splitting words longer than 32 columns."""
    n = 0
    for l in text.split("\n"):
        col = None
        for w in l.split(" "):
            if not w:
                continue
            while w:
                if col is None:
                    n, col = n + 1, 0
                    room = 32
                else:
                    room = 32 - col - 1
                if len(w) <= room:
                    col = 32 - room + len(w)
                    w = ""
                elif len(w) > 32:
                    if room > 0:
                        w = w[room:]
                    col = None
                else:
                    col = None
    return n


def cost(text):
    """A generous number of frames to transmit the caption."""
    rows = want_rows(text) + text.count("\n") + 1
    return 8 + rows * 3 + (len(text) + 1) // 2 + rows


def check(r, group, caps, key, set_=None):
    """caps: [(start, end, nodes or text)]"""
    cs = set_ or CaptionSet({"en-US": CaptionList([Caption(s, e, nodes(t), style={}) for s, e, t in caps])})
    d = {"captions": [(s, e, t if isinstance(t, str) else repr(t)) for s, e, t in caps]}
    r.case(group, d)
    texts = [c.get_text() for c in cs.get_captions("en-US")]
    try:
        out = SCCWriter().write(cs)
    except Exception as e:
        r.fail(key + ":raise", "%s: %s" % (type(e).__name__, e), d)
        return
    d["output"] = out
    lines = [l for l in out.split("\n") if l.strip()]
    if out.split("\n")[0] != "Scenarist_SCC V1.0":
        r.fail(key + ":header", "no Scenarist header", d)
        return
    parsed, last = [], -1
    for l in lines[1:]:
        m = LINE.fullmatch(l)
        if not m or not int(m.group(2)) < 60 or not int(m.group(3)) < 60 or not int(m.group(4)) < 30:
            r.fail(key + ":timecode", "malformed line %r" % l[:60], d)
            return
        t = frames(*m.groups()[:4])
        if t < last:
            r.fail(key + ":timecode order", "timecodes decrease at %r" % l[:30], d)
            return
        last = t
        ws = m.group(5).split(" ")
        for w in ws:
            if not re.fullmatch("[0-9a-f]{4}", w):
                r.fail(key + ":word", "%r is not a four-digit hexadecimal word" % w, d)
                return
            for b in (w[:2], w[2:]):
                if bin(int(b, 16)).count("1") % 2 == 0:
                    r.fail(key + ":parity", "byte %s of word %s has even parity" % (b, w), d)
                    return
            a = int(w[:2], 16) & 0x7f
            if 0x10 <= a <= 0x1f and (int(w[2:], 16) & 0x7f) >= 0x40 and w not in O.PACS:
                r.fail(key + ":row", "word %s addresses no row" % w, d)
                return
            if 0x10 <= a <= 0x1f and w not in O.PACS and w not in (O.RCL, O.EDM, O.ENM, O.EOC) and w not in O.SPECIALS and w not in O.EXTENDED:
                r.fail(key + ":command", "unexpected control word %s" % w, d)
                return
        parsed.append((t, ws))
    scr = O.popon([(t * FRAME, FRAME, ws) for t, ws in parsed])
    if len(scr) != len(caps):
        r.fail(key + ":screens", "%d captions displayed, %d written" % (len(scr), len(caps)), d)
        return
    for (t0, rows, t1), (s, e, _), text in zip(scr, caps, texts):
        for row, at, cs_ in rows:
            if at + len(cs_) > 32:
                r.fail(key + ":columns", "row %d is %d columns wide" % (row, len(cs_)), d)
                return
        shown = [w for _, _, cs_ in rows for w in "".join(c for c, _ in cs_).split()]
        if not same_words(text.split(), shown):
            r.fail(key + ":layout", "words %r laid out as %r" % (text.split(), shown), d)
            return
        if abs(t0 - s) > 3 * FRAME + 1:
            r.fail(key + ":visible", "caption of %r becomes visible at %r (%.2f frames off)" % (s, float(t0), float((t0 - s) / FRAME)), d)
            return
    if not caps:
        return
    try:
        back = SCCReader().read(out).get_captions("en-US")
    except Exception as e:
        r.fail(key + ":reread raise", "%s: %s" % (type(e).__name__, e), d)
        return
    d["back"] = [(c.start, c.end, c.get_text()) for c in back]
    if len(back) != len(caps):
        r.fail(key + ":reread count", "%d captions read back, %d written" % (len(back), len(caps)), d)
        return
    for b, (s, e, _), text in zip(back, caps, texts):
        if not same_words(text.split(), b.get_text().split()):
            r.fail(key + ":reread words", "%r read back as %r" % (text, b.get_text()), d)
            return
        if abs(F(b.start) - s) > 3 * FRAME + 1:
            r.fail(key + ":reread start", "start %r read back as %r" % (s, b.start), d)
            return


def same_words(want, got):
    """Equal word lists, a word of more than 32 characters may come in several pieces (and so may only such words)."""
    i = 0
    for w in want:
        if len(w) <= 32:
            if i >= len(got) or got[i] != w:
                return False
            i += 1
        else:
            acc = ""
            while acc != w:
                if i >= len(got) or not w.startswith(acc + got[i]):
                    return False
                acc += got[i]
                i += 1
    return i == len(got)


def nodes(t):
    if not isinstance(t, str):
        return t
    out = []
    for k, l in enumerate(t.split("\n")):
        if k:
            out.append(CaptionNode.create_break())
        out.append(CaptionNode.create_text(l))
    return out


def rand_text(rng, maxw=10, long=.1, hyphen=.15):
    ls = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ws = []
        for _ in range(rng.randint(1, maxw)):
            n = rng.randint(1, 9)
            if rng.random() < long:
                n = rng.choice([30, 31, 32, 33, 40, 64, 65])
            w = "".join(rng.choice(BASIC) for _ in range(n)) if rng.random() < .3 else "".join(rng.choice("abcdefgh") for _ in range(n))
            w = w.replace(" ", "x")
            if rng.random() < hyphen and len(w) > 3:
                k = rng.randint(1, len(w) - 2)
                w = w[:k] + "-" + w[k + 1:]
            ws.append(w)
        sep = " " if rng.random() < .8 else "  "
        ls.append(sep.join(ws))
    return "\n".join(ls)


def fits(text):
    return 1 <= want_rows(text) and want_rows(text) + text.count("\n\n") + len([w for w in text.split() if len(w) > 32]) <= 15


def timed(rng, texts, tight=False):
    out, t = [], rng.randint(0, 2000000)
    for x in texts:
        n = cost(x)
        s = t + int(n * FRAME) + 1 + (0 if tight else rng.choice([0, 1, 33366, 33367, rng.randint(0, 3000000)]))
        e = s + rng.choice([33367 * 3, 500000, 2000000, rng.randint(100000, 5000000)])
        out.append((s, e, x))
        t = rng.choice([e, max(s + 200000, e - int(n * FRAME))]) if rng.random() < .8 else e + rng.randint(0, 10000000)
    return out


def general(r):
    r.rules.append("1-4 captions of 1-3 lines of words over the basic character set (hyphens, words of up to 65 characters, double blanks), spaced to leave time "
                   "for transmission")
    rng = r.rng("general")
    for _ in r.loop("general", r.count(4000, 40000)):
        texts = [t for t in (rand_text(rng) for _ in range(rng.randint(1, 4))) if fits(t)]
        if texts:
            check(r, "general", timed(rng, texts, rng.random() < .3), "general")


def alphabet(r):
    r.rules.append("every pair of basic characters inside a word; every basic character alone, first and last in an even or odd position")
    sp = [c for c in BASIC if c != " "]
    for a in sp:
        for k in r.loop("alphabet", 1):
            check(r, "alphabet", [(3000000, 5000000, "\n".join([a, "x" + a, a + "x", "xy" + a, a + a])), (9000000, 9500000, a)], "alphabet")
    rng = r.rng("pairs")
    for a in sp:
        for _ in r.loop("pairs", 1):
            t = [a + b for b in sp]
            rng.shuffle(t)
            check(r, "pairs", [(5000000 * (k + 1), 5000000 * (k + 1) + 1000000, " ".join(t[k * 30:k * 30 + 30])) for k in range(4) if t[k * 30:k * 30 + 30]],
                  "alphabet")


def layout(r):
    r.rules.append("lines whose words end at columns 30-34; words of 1-100 characters; hyphenated words across the margin; leading, trailing and repeated blanks; "
                   "empty lines; 1-15 rows; captions cut into adjacent text nodes")
    rng = r.rng("layout")
    S, E = 6000000, 8000000
    for n in range(1, 101):
        check(r, "word length", [(S, E, "w" * n)], "long word")
        check(r, "word length", [(S, E, "ab " + "w" * n + " c")], "long word")
        check(r, "word length", [(S, E, "w" * (n // 2) + "-" + "v" * (n - n // 2))], "hyphen")
    for k in range(1, 33):
        check(r, "margin", [(S, E, "a" * k + " " + "b" * (32 - k) + " c")], "margin")
        check(r, "margin", [(S, E, "a" * k + " " + "b-c" * 8 + " c-d")], "hyphen")
        check(r, "margin", [(S, E, "a" * k + " d-e-f-g-h-i-j-k-l-m-n-o-p-q")], "hyphen")
    for n in range(1, 16):
        check(r, "rows", [(S + 9000000, E + 9000000, "\n".join("line %d" % k for k in range(n)))], "rows")
        check(r, "rows", [(S + 9000000, E + 9000000, " ".join(["w" * 32] * n))], "rows")
    for t in [" a", "a ", "  a  b  ", "a\n\nb", "\na", "a\n", "a\n\n\nb", " \na", "a\n ", "a\n \nb", "x" * 31 + "  y", "x" * 32 + " y", " " * 31 + "x", " " * 32 + "x",
              " " * 40 + "x", "x" + " " * 40 + "y", "\n\n\na\n\n\n", ". a .", "a . b", "! ?", "a ,b", "'a' ''b''", "-", "- a - b", "--", "a--b " * 9]:
        check(r, "blanks", [(S, E, t)], "blanks")
        check(r, "blanks", [(S, E, "one"), (S + 9000000, E + 9000000, t), (S + 19000000, E + 19000000, "two")], "blanks")
    T, B, ST = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
    for ns in ([T("foo"), T("bar")], [T("foo "), T("bar")], [ST(True, {"italics": True}), T("foo"), ST(False, {"italics": True}), T(" bar")],
               [B(), T("a")], [T("a"), B(), B(), T("b")], [T("a"), B()], [T("a\nb")]):
        check(r, "nodes", [(S, E, ns)], "nodes")


def timing(r):
    r.rules.append("starts and ends at every offset around whole frames, seconds, minutes, hours; gaps at the limit of the transmission time; ends that fall before, "
                   "on and after the next transmission; many captions")
    rng = r.rng("timing")
    for k in r.loop("timing", r.count(1500, 15000)):
        base = rng.choice([2000000, 60060000, 3603600000, 3600000000, 36036000000, 59999999, rng.randint(10 ** 6, 86000 * 10 ** 6)])
        s = max(1500000, base + rng.choice([-2, -1, 0, 1, 2, 33366, 33367, 33368, rng.randint(0, 10 ** 6)]))
        e = s + rng.choice([100100, 1000000, 1001000, rng.randint(110000, 3000000)])
        caps, x = [(s, e, "hi there")], "next one"
        n = 8 + 2 + 4
        for _ in range(rng.randint(0, 3)):
            s2 = caps[-1][0] + int(n * FRAME) + 1 + rng.choice([0, 1, 33367, 66734, 100100, rng.randint(0, 200000)])
            s2 = rng.choice([s2, max(s2, caps[-1][1]), max(s2, caps[-1][1] + rng.randint(0, int(20 * FRAME)))])
            if caps[-1][1] > s2:
                caps[-1] = (caps[-1][0], s2, caps[-1][2])
            caps.append((s2, s2 + rng.randint(110000, 3000000), x))
        check(r, "timing", caps, "timing")
    for n in range(14, 45):
        check(r, "earliest first caption", [(int(n * FRAME) + 1, int(n * FRAME) + 2000001, "hi there")], "timing")
        check(r, "float times", [(n * 1001000 / 30 + 0.25, n * 1001000 / 30 + 2000000.5, "hi there")], "timing")
    check(r, "empty set", [], "empty")


def overflow(r):
    r.rules.append("captions that need more than 15 rows")
    for n in (16, 17, 20, 31, 32, 40):
        q = Probe(r)
        check(q, "overflow", [(60000000, 70000000, "\n".join("line %d" % k for k in range(n)))], "")
        if q.failed:
            r.fail(TOO_MANY, q.failed[1], q.failed[2])


class Probe:
    def __init__(self, r):
        self.r, self.failed = r, None

    def case(self, *a, **k):
        self.r.case(*a, **k)

    def fail(self, *a):
        self.failed = self.failed or a


def early(r):
    r.rules.append("a first caption that starts too early to be transmitted before its start: structure and words only")
    for s in (0, 1, 33366, 100000, 300000):
        cs = CaptionSet({"en-US": CaptionList([Caption(s, s + 3000000, nodes("hi there"), style={})])})
        d = {"start": s}
        r.case("early", d)
        try:
            out = SCCWriter().write(cs)
            d["output"] = out
            back = SCCReader().read(out).get_captions("en-US")
        except Exception as e:
            r.fail("early:raise", "%s: %s" % (type(e).__name__, e), d)
            continue
        ls = [l for l in out.split("\n")[1:] if l]
        if any(not LINE.fullmatch(l) for l in ls):
            r.fail("early:timecode", "malformed or negative timecode", d)
        elif ls != sorted(ls):
            r.fail("early:order", "timecodes decrease", d)
        elif [c.get_text() for c in back] != ["hi there"]:
            r.fail("early:words", "%r" % [c.get_text() for c in back], d)


CASES = [alphabet, layout, timing, early, general, overflow]
