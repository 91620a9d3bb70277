"""C17 SCC output is structurally valid and re-reads to the same words."""
from fractions import Fraction

from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.scc import SCCWriter, constants as K

from oracles import cea608
from pyvc import lang as L
from pyvc import sym as Y
from pyvc.finite import FiniteLoop, StrFamily, Typed, get_path
from pyvc.runner import contract
from pyvc.sym import PyList, Unsupported

from . import spec

Q = "pycaption.scc.SCCWriter."
FRAME = Fraction(1001, 30) * 1000          # microseconds

# ------------------------------------------------------------------ timecodes
FIELDS = "hours, minutes below 60, seconds below 60 and frames below 30, two digits each"
TRUNC = "the timecode is the last frame that starts no later than the instant"


@contract("C17", "SCCWriter._format_timestamp", targets=[Q + "_format_timestamp"], expects=[FIELDS, TRUNC])
def _(h):
    kind = h.pick("instant", ["int", "float"])
    us = h.int("microseconds", 0, 99 * 3600 * 10 ** 6) if kind == "int" else h.real("microseconds", 0, 99 * 3600 * 10 ** 6)
    r = h.call(SCCWriter._format_timestamp, us)
    h.prove_in(FIELDS, r, L.rx("[0-9]{2,}:[0-9]{2,}:[0-9]{2,}:[0-9]{2,}"))
    v = h.call(spec.colon_fields, r)
    hh, mm, ss, ff = v.items if h.symbolic else v
    for x, top in ((hh, 100), (mm, 60), (ss, 60), (ff, 30)):
        h.prove(FIELDS, Y.and_(Y.bterm(x >= 0), Y.bterm(x < top)) if h.symbolic else 0 <= x < top)
    f = ((hh * 60 + mm) * 60 + ss) * 30 + ff
    h.prove(TRUNC, Y.and_(Y.bterm(f * FRAME <= us), Y.bterm(us < (f + 1) * FRAME)) if h.symbolic else
            f * FRAME - 1 <= us < (f + 1) * FRAME + 1)


# ------------------------------------------------------------------ the code tables
ODD = "every byte has odd parity"
BASIC = "every character of the basic set is sent as its CEA-608 code"
ROWS = "the row addresses are the preamble codes of rows 1 to 15, column 0"


def odd(word):
    return all(bin(int(word[k:k + 2], 16)).count("1") % 2 == 1 for k in range(0, len(word), 2))


@contract("C17", "code tables of the writer", targets=["pycaption.scc.SCCWriter._print_character"], expects=[ODD, BASIC, ROWS])
def _(h):
    bad = {k: v for d in (K.CHARACTER_TO_CODE, K.SPECIAL_OR_EXTENDED_CHAR_TO_CODE) for k, v in d.items() if not odd(v)}
    h.ctx.decide(ODD, not bad, witness=repr(bad), backend="evaluation")
    std = {v: "%02x" % cea608.odd(c) for c, v in cea608.STD.items()}
    bad = {c: (w, K.CHARACTER_TO_CODE.get(c)) for c, w in std.items() if K.CHARACTER_TO_CODE.get(c) != w}
    h.ctx.decide(BASIC, not bad, witness=repr(bad), backend="evaluation")
    got = {r: K.PAC_HIGH_BYTE_BY_ROW[r] + K.PAC_LOW_BYTE_BY_ROW_RESTRICTED[r] for r in range(1, 16)}
    bad = {r: w for r, w in got.items() if cea608.PACS.get(w, (0, 0, 0))[:2] != (r, 0) or not odd(w)}
    h.ctx.decide(ROWS, not bad, witness=repr(bad), backend="evaluation")


# ------------------------------------------------------------------ one caption's codes
HEX = "[0-9a-f]{4} "
CODES = StrFamily("codes", {"words": L.rx("(%s)*" % HEX), "a word and a half": L.rx("(%s)*[0-9a-f]{2}" % HEX)})
EACH = "each character adds exactly its code, after a filler byte where it needs a word of its own"
WHOLE = "the codes are whole four-digit words"
PAC = "each line is preceded by the doubled preamble code of its row, and rows end at row 15"
CHARS = {v: "%02x" % cea608.odd(c) for c, v in cea608.STD.items()}


class Line(FiniteLoop):
    strings = {"code": CODES}
    fam_of = {"codes": CODES}

    def kind_of(self, x):
        return None

    def code(self, fr):
        return get_path(fr, ("code",))

    def entry(self, it, fr):
        v = self.code(fr)
        row = 16 - self.lines + self.number
        pac = K.PAC_HIGH_BYTE_BY_ROW[row] + K.PAC_LOW_BYTE_BY_ROW_RESTRICTED[row] + " "
        ps = Y.parts_of(v)
        ok = ps[-1:] and isinstance(ps[-1], str) and ps[-1].endswith(pac + pac) and (self.number > 0 or v == pac + pac)
        it.ctx.decide(PAC, bool(ok), witness="%r / %r" % (v, pac), backend="structural")
        super().entry(it, fr)

    def changed(self, it, fr, p, old, new):
        if p != ("code",):
            return
        c = CHARS[self.kind]
        h = self.h
        half = Y.lang_of(old).subset(CODES.langs["a word and a half"])
        tail = L.literal(c + " ") if half else L.literal(c)
        it.ctx.decide(EACH, h.starts_with(new, old, tail), witness="%r: %r -> %r" % (self.kind, old, new), backend="automata")


@contract("C17", "SCCWriter._text_to_code", targets=[Q + "_text_to_code", Q + "_print_character", Q + "_maybe_align",
                                                     Q + "_maybe_space"], expects=[EACH, WHOLE, PAC])
def _(h):
    n = h.pick("lines", [1, 2])
    loops = []
    lines = []
    for k in range(n):
        b = Typed("line %d" % k, sorted(CHARS) if n == 1 else list(" aZ"), lambda c: c, "start", lambda c, k: "start", tag="line %d" % k)
        lp = Line()
        lp.h, lp.lines, lp.number = h, n, k
        h.ctx.loops["line %d" % k] = lp
        lines.append(PyList([b]))
    text = Y.Opaque("laid out text", split=lambda it, me, sep: PyList(lines))
    h.stub(Q + "_layout_line", lambda it, *a: text)
    r = h.call(SCCWriter._text_to_code, h.obj(SCCWriter), h.obj(Caption))
    h.prove_in(WHOLE, r, CODES.langs["words"])


@contract("C17", "SCCWriter._text_to_code addresses rows 1 to 15", targets=[Q + "_text_to_code"], expects=[PAC, WHOLE])
def _(h):
    for n in range(1, 16):
        lines = ["ab" if k % 2 else "a" for k in range(n)]
        h.patch(Q + "_layout_line", lambda *a: "\n".join(lines))
        r = h.call(SCCWriter._text_to_code, h.obj(SCCWriter), h.obj(Caption))
        words = r.split() if isinstance(r, str) else []
        want = []
        for k in range(n):
            row = 16 - n + k
            want += [(row, 0), (row, 0), "aAbB"[:2 if k % 2 else 1]]
        got = [cea608.PACS[w][:2] if w in cea608.PACS else w for w in words]
        h.prove(WHOLE, all(len(w) == 4 for w in words))
        h.prove(PAC, [g for g in got if isinstance(g, tuple)] == [w for w in want if isinstance(w, tuple)]
                and len(got) == 3 * n)


# ------------------------------------------------------------------ when the codes are sent
SHAPE = "the header, then per caption a timecoded line that loads and shows it and, unless the next one follows, a line that clears it"
VISIBLE = "a caption is shown within three frames of its start"
CLEAR = "a caption is cleared at its end, unless the next caption's line starts by then"


@contract("C17", "SCCWriter.write", targets=[Q + "write"], expects=[SHAPE, VISIBLE, CLEAR])
def _(h):
    count = h.pick("captions", [1, 2])
    caps, codes, words, stamps = [], [], [], []
    s = e = None
    for k in range(count):
        s2 = h.int("start %d" % k, 0, 86400 * 10 ** 6)
        e2 = h.int("end %d" % k, 0, 86400 * 10 ** 6)
        w = h.word("codes %d" % k, CODES.langs["words"])
        n = h.call(len, w)
        h.assume(n <= 5000)
        # far enough apart to be transmitted: the codes of a caption fit before its start, after everything before it
        h.assume(s2 - (n / 5 + 8) * FRAME >= (0 if s is None else s + 8 * FRAME))
        h.assume(e2 > s2)
        if s is not None:
            h.assume(s2 >= e)
        s, e = s2, e2
        caps.append((s2, e2, w, n))
        codes.append(h.call(Caption, s2, e2, [h.call(CaptionNode.create_text, "x")]))
    todo = [c[2] for c in caps]
    names = []

    def text_to_code(*a):
        return todo.pop(0)

    def stamp(*a):
        names.append("<%d>" % len(names))
        stamps.append(a[-1])
        return names[-1]
    h.patch(Q + "_text_to_code", text_to_code)
    h.patch(Q + "_format_timestamp", stamp)
    cs = h.call(CaptionSet, {"en": h.call(CaptionList, codes)})
    out = h.meth(h.call(SCCWriter), "write", cs)
    # what must have been written, given which captions are cleared by a line of their own
    for mask in range(2 ** count):
        parts, k = ["Scenarist_SCC V1.0\n\n"], 0
        for j, (s, e, w, n) in enumerate(caps):
            parts += ["<%d>\t94ae 94ae 9420 9420 " % k, w, "942c 942c 942f 942f\n\n"]
            k += 1
            if mask >> j & 1:
                parts += ["<%d>\t942c 942c\n\n" % k]
                k += 1
        if k == len(stamps) and h.truth(h.eq(out, h.text(*parts))) is True:
            break
    else:
        h.prove(SHAPE, False)
        return
    h.prove(SHAPE, True)
    k, prev = 0, None
    for j, (s, e, w, n) in enumerate(caps):
        t = stamps[k]
        k += 1
        shown = t + (n / 5 + 6) * FRAME           # the line's first word is sent at t; the ninth-last one shows the caption
        h.prove(VISIBLE, Y.and_(Y.bterm(shown <= s + 1), Y.bterm(shown >= s - 2 * FRAME - 1)) if h.symbolic
                else s - 2 * FRAME - 1 <= shown <= s + 1)
        if mask >> j & 1:
            h.prove(CLEAR, h.truth(h.eq(stamps[k], e)))
            k += 1
        elif j + 1 < count:
            h.prove(CLEAR, Y.bterm(stamps[k] <= e + 3 * FRAME + 1) if h.symbolic else stamps[k] <= e + 3 * FRAME + 1)
        else:
            h.prove(CLEAR, False)
