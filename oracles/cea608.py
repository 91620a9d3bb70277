"""CEA-608 code tables and a small reference decoder, written from the standard (not from pycaption)."""

STD = {c: chr(c) for c in range(0x20, 0x80)}
STD.update({0x27: "\u2019", 0x2a: "á", 0x5c: "é", 0x5e: "í", 0x5f: "ó", 0x60: "ú", 0x7b: "ç", 0x7c: "÷", 0x7d: "Ñ", 0x7e: "ñ", 0x7f: "█"})
# pycaption shows the ASCII apostrophe for 0x27 (as most decoders do)
STD[0x27] = "'"
SPECIAL = dict(zip(range(0x30, 0x40), "®°½¿™¢£♪à\u00a0èâêîôû"))
EXT12 = dict(zip(range(0x20, 0x40), "ÁÉÓÚÜü‘¡*’—©℠•“”ÀÂÇÈÊËëÎÏïÔÙùÛ«»"))
EXT13 = dict(zip(range(0x20, 0x40), "ÃãÍÌìÒòÕõ{}\\^_¦~ÄäÖöß¥¤|ÅåØø┌┐└┘"))

ROWS = {0x11: (1, 2), 0x12: (3, 4), 0x15: (5, 6), 0x16: (7, 8), 0x17: (9, 10), 0x10: (11, None), 0x13: (12, 13), 0x14: (14, 15)}


def odd(b):
    b &= 0x7f
    return b if bin(b).count("1") % 2 else b | 0x80


def word(a, b):
    return "%02x%02x" % (odd(a), odd(b))


def pac_word(row, indent=0, italic=False, underline=False, color=0):
    for hi, (a, b) in ROWS.items():
        if row in (a, b):
            base = 0x40 if row == a else 0x60
            if italic:
                low = 14
            elif indent:
                low = 16 + indent // 2
            else:
                low = color * 2 if color else 16
            return word(hi, base + low + (1 if underline else 0))
    raise ValueError(row)


def tab(n):
    return word(0x17, 0x20 + n)


def chars(s):
    """Encode basic characters two per word."""
    inv = {v: k for k, v in STD.items()}
    out, pend = [], None
    for c in s:
        if pend is None:
            pend = inv[c]
        else:
            out.append(word(pend, inv[c]))
            pend = None
    if pend is not None:
        out.append(word(pend, 0))
    return out


# ---------------------------------------------------------------------------------------------- reference decoder
RCL, EDM, ENM, EOC, BS, RDC, CR = "9420", "942c", "94ae", "942f", "94a1", "9429", "94ad"
RU = {2: "9425", 3: "9426", 4: "94a7"}
TAB = {tab(n): n for n in (1, 2, 3)}
PACS = {}
for _hi, (_a, _b) in ROWS.items():
    for _base, _row in ((0x40, _a), (0x60, _b)):
        if _row:
            for _low in range(32):
                PACS[word(_hi, _base + _low)] = (_row, 0 if _low < 16 else (_low - 16) // 2 * 4, (_low & 0x1e) == 14)
MIDROW = {word(0x11, 0x20 + k): k in (14, 15) for k in range(16)}
SPECIALS = {word(0x11, k): v for k, v in SPECIAL.items()}
EXTENDED = {word(h, k): v for h, t in ((0x12, EXT12), (0x13, EXT13)) for k, v in t.items()}


def is_control(w):
    return 0x10 <= (int(w[:2], 16) & 0x7f) <= 0x1f


class Memory:
    def __init__(self):
        self.cells = {}              # row -> {col: (char, italic)}
        self.at = {}                 # row -> column addressed for its text
        self.row, self.col, self.italic = 14, 0, False

    def put(self, ch):
        self.at.setdefault(self.row, self.col)
        self.cells.setdefault(self.row, {})[self.col] = (ch, self.italic)
        self.col += 1

    def back(self):
        if self.col > 0:
            self.col -= 1
            self.cells.get(self.row, {}).pop(self.col, None)

    def rows(self):
        out = []
        for r in sorted(self.cells):
            c = self.cells[r]
            if any(v[0].strip() for v in c.values()):
                out.append((r, self.at[r], [c.get(k, (" ", False)) for k in range(min(c), max(c) + 1)]))
        return out


def undouble(words):
    """The words a decoder acts on: the second of two identical consecutive control codes is ignored. -> [(index, word)]"""
    out, last = [], None
    for i, w in enumerate(words):
        if is_control(w) and w == last:
            last = None
            continue
        last = w if is_control(w) else None
        out.append((i, w))
    return out


def popon(lines):
    """lines: [(seconds of the timecode, frame duration, [words])] -> [(instant shown, [memory rows], instant cleared | None)]"""
    mem, shown, out = Memory(), None, []
    flat = []
    for base, frame, words in lines:
        for i, w in enumerate(words):
            flat.append((base + i * frame, w))
    keep = {i for i, _ in undouble([w for _, w in flat])}
    for k, (t, w) in enumerate(flat):
        if k not in keep:
            continue
        if w in (RCL,):
            pass
        elif w == ENM:
            mem = Memory()
        elif w == EDM:
            if shown:
                out.append((shown[0], shown[1], t))
                shown = None
        elif w == EOC:
            if shown:
                out.append((shown[0], shown[1], t))
                shown = None
            rows = mem.rows()
            if rows:
                shown = (t, rows)
            mem = Memory()
        else:
            act(mem, w)
    if shown:
        out.append((shown[0], shown[1], None))
    return out


def act(mem, w):
    if w in PACS:
        mem.row, mem.col, mem.italic = PACS[w]
    elif w in TAB:
        mem.col += TAB[w]
    elif w in MIDROW:
        mem.put(" ")
        mem.italic = MIDROW[w]
    elif w == BS:
        mem.back()
    elif w in SPECIALS:
        mem.put(SPECIALS[w])
    elif w in EXTENDED:
        mem.back()
        mem.put(EXTENDED[w])
    elif not is_control(w):
        for b in (w[:2], w[2:]):
            v = int(b, 16) & 0x7f
            if v >= 0x20:
                mem.put(STD[v])


def groups(rows):
    """Memory rows -> runs of adjacent rows."""
    out = []
    for r in rows:
        if out and out[-1][-1][0] + 1 == r[0]:
            out[-1].append(r)
        else:
            out.append([r])
    return out
