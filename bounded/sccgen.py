"""SCC streams for C05, C06, C15, C16 (built from the CEA-608 tables of oracles/cea608.py, not from pycaption's)."""
from fractions import Fraction as F

from oracles import cea608 as O

BASIC = [c for k, c in O.STD.items() if c not in "█"]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
SPECIALS = {v: k for k, v in O.SPECIALS.items() if v.strip()}
EXTENDED = {v: k for k, v in O.EXTENDED.items()}
STANDIN = "aeAEiouUnc\"'-."


def timecode(frames, drop):
    f = frames % 30
    s = frames // 30
    return "%02d:%02d:%02d%s%02d" % (s // 3600, s // 60 % 60, s % 60, ";" if drop else ":", f)


def frame_us(drop):
    return F(1000000, 30) if drop else F(1001000, 30)


class Row:
    """One screen row: row, indent, tab, italic, items: ('t', text) | ('s', special) | ('x', standin, extended) | ('b', text erased)
    | ('m', midrow word)"""

    def __init__(self, row, indent, tab, italic, items, pac=None):
        self.row, self.indent, self.tab, self.italic, self.items, self.pac = row, indent, tab, italic, items, pac


def words_of(row, doubled, pairing="sep"):
    """pairing: 'sep' PAC PAC TO TO, 'pair' PAC TO PAC TO"""
    w = []

    def code(x):
        w.extend([x, x] if doubled else [x])
    pac = row.pac or O.pac_word(row.row, row.indent, row.italic)
    if row.tab:
        if doubled and pairing == "pair":
            w.extend([pac, O.tab(row.tab)] * 2)
        else:
            code(pac)
            code(O.tab(row.tab))
    else:
        code(pac)
    buf = ""
    for it in row.items:
        if it[0] == "t":
            buf += it[1]
            continue
        if it[0] == "b":
            buf += it[1]
        elif it[0] == "x":
            buf += it[1]
        w.extend(O.chars(buf))
        buf = ""
        if it[0] == "s":
            code(SPECIALS[it[1]])
        elif it[0] == "x":
            code(EXTENDED[it[2]])
        elif it[0] == "b":
            for _ in it[1]:
                code(O.BS)
        elif it[0] == "m":
            code(it[1])
    w.extend(O.chars(buf))
    return w


def text(rng, n, alphabet=None):
    return "".join(rng.choice(alphabet or LETTERS) for _ in range(max(1, n)))


def rand_row(rng, r, level, doubled, width=None):
    """level 0: plain letters; 1: + any basic; 2: + special/extended; 3: + midrow/italics; 4: + backspace"""
    italic = level >= 3 and rng.random() < .35
    indent = 0 if italic else rng.choice([0, 0, 4, 8, 12, 16, 20, 24, 28])
    tab = rng.choice([0, 0, 0, 1, 2, 3])
    room = 32 - indent - tab
    items, used = [], 0
    room = min(room, width or 32)
    if level >= 3 and room > 4 and rng.random() < .25:
        items.append(("m", O.word(0x11, rng.choice([0x2e, 0x2e, 0x20, 0x2f, 0x24]))))
        items.append(("t", rng.choice(LETTERS) + rng.choice(LETTERS)))
        used = 3
    while used < room:
        k = rng.random()
        left = room - used
        if k < .5 or level == 0 or not items:
            n = rng.randint(1, min(left, 8))
            alpha = LETTERS + " " if level == 0 else LETTERS * 3 + "".join(BASIC)
            t = text(rng, n, alpha)
            if rng.random() < .1:
                t = t[0] * len(t)
            if not items:
                t = rng.choice(LETTERS) + t[1:]
            items.append(("t", t))
            used += n
        elif level >= 2 and k < .62:
            items.append(("s", rng.choice(sorted(SPECIALS))))
            used += 1
        elif level >= 2 and k < .75:
            items.append(("x", rng.choice(STANDIN), rng.choice(sorted(EXTENDED))))
            used += 1
        elif level >= 3 and k < .88 and left >= 3:
            mw = rng.choice([O.word(0x11, 0x2e), O.word(0x11, 0x20), O.word(0x11, 0x2e), O.word(0x11, 0x20), O.word(0x11, 0x2f), O.word(0x11, 0x24)])
            items.append(("m", mw))
            items.append(("t", rng.choice(LETTERS) + rng.choice(LETTERS)))
            used += 3
        elif level >= 4 and left >= 2:
            n = 1 if not doubled else rng.randint(1, 2)
            items.append(("b", text(rng, n)))
        if rng.random() < .15:
            break
    return Row(r, indent, tab, italic, items)


def rows_for(rng, level, doubled, maxrows=4, width=None):
    n = rng.randint(1, maxrows)
    if rng.random() < .6:
        top = rng.randint(1, 16 - n)
        rs = list(range(top, top + n))
    else:
        rs = sorted(rng.sample(range(1, 16), n))
    return [rand_row(rng, r, level, doubled, width) for r in rs]


def caption_words(rows, doubled, pairing="sep", enm=True, edm=False):
    d = (lambda x: [x, x]) if doubled else (lambda x: [x])
    w = (d(O.ENM) if enm else []) + d(O.RCL)
    for r in rows:
        w += words_of(r, doubled, pairing)
    if edm:
        w += d(O.EDM)
    return w + d(O.EOC)


def split(rng, f, words, maxlines=3):
    """The same words on several timecoded lines (a doubled code is not separated from its copy)."""
    out = [(f, words)]
    while len(out) < maxlines and rng.random() < .5:
        f, w = out.pop()
        cuts = [k for k in range(1, len(w)) if w[k] != w[k - 1] and not (k > 1 and w[k] == w[k - 2])]
        if not cuts:
            out.append((f, w))
            break
        k = rng.choice(cuts)
        out += [(f, w[:k]), (f + k + rng.randint(0, 20), w[k:])]
    return out


def pad(rng, words):
    """Null padding words between codes (never between a code and its copy)."""
    out = []
    for k, w in enumerate(words):
        if k and w != words[k - 1] and w not in words[max(0, k - 2):k] and rng.random() < .1 and not O.is_control(words[k - 1]):
            out.append("8080")
        out.append(w)
    return out


def document(lines, drop):
    """lines: [(frame number, [words])]"""
    return "Scenarist_SCC V1.0\n\n" + "".join("%s\t%s\n\n" % (timecode(f, drop), " ".join(w)) for f, w in lines)


def reference(lines, drop):
    fr = frame_us(drop)
    return O.popon([(f * fr, fr, w) for f, w in lines])
