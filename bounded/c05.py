"""C05: the reader against a reference CEA-608 decoder."""
import re

from pycaption import CaptionNode, SCCReader
from pycaption.exceptions import CaptionLineLengthError

from bounded import sccgen as G
from oracles import cea608 as O


def cells(caption):
    """-> (lines of [(char, italic)], balanced?)"""
    lines, on, bal = [[]], False, True
    for n in caption.nodes:
        if n.type_ == CaptionNode.TEXT:
            for ch in n.content:
                if ch == "\n":
                    lines.append([])
                else:
                    lines[-1].append((ch, on))
        elif n.type_ == CaptionNode.BREAK:
            lines.append([])
        elif n.type_ == CaptionNode.STYLE:
            if bool(n.start) == on:
                bal = False
            on = bool(n.start)
    return lines, bal and not on


PUNCT = ".!?,"
FINDING = "tab offset sent after a doubled preamble address code is ignored"


def separate_tab(lines, row, n):
    """Does the stream send PAC PAC TO TO for this row?"""
    for w in [[x for _, ws in lines for x in ws]]:
        for k in range(len(w) - 3):
            if w[k] in O.PACS and O.PACS[w[k]][0] == row and w[k + 1] == w[k] and w[k + 2] == w[k + 3] == O.tab(n):
                return True
    return False


def norm(line):
    t = " ".join("".join(c for c, _ in line).replace("\u00a0", " ").split())
    return re.sub(r" (?=[.!?,])", "", t)           # a mid-row code before punctuation shows a blank pycaption leaves out


def ink(line):
    return [(c, i) for c, i in line if not c.isspace()]


def expected(lines, drop):
    out = []
    for t0, rows, t1 in G.reference(lines, drop):
        for g in O.groups(rows):
            out.append((t0, t1, g[0][0], g[0][1], [r[2] for r in g]))
    return out


def check(r, group, lines, drop, key, reader=None):
    doc = G.document(lines, drop)
    r.case(group, doc)
    try:
        cs = (reader or SCCReader()).read(doc)
    except Exception as e:
        r.fail(key + ":raise", "%s: %s" % (type(e).__name__, str(e)[:200]), {"document": doc})
        return None
    caps = cs.get_captions("en-US")
    exp = expected(lines, drop)
    if len(caps) != len(exp):
        r.fail(key + ":count", "%d captions, the decoder shows %d" % (len(caps), len(exp)),
               {"document": doc, "got": [(c.start, c.get_text()) for c in caps][:6], "want": [(float(e[0]), e[2], [norm(x) for x in e[4]]) for e in exp][:6]})
        return None
    for c, e in zip(caps, exp):
        got, bal = cells(c)
        d = {"document": doc, "got": c.get_text(), "nodes": repr(c.nodes), "want": [norm(x) for x in e[4]]}
        if [norm(x) for x in got] != [norm(x) for x in e[4]]:
            r.fail(key + ":text", "characters differ from the screen", d)
        elif not bal:
            r.fail(key + ":balance", "italic style nodes are not balanced", d)
        elif [ink(x) for x in got] != [ink(x) for x in e[4]]:
            r.fail(key + ":italics", "italic spans do not cover exactly the characters sent while italics were on", d)
        want = (80 * e[3] / 32.0 + 10, 90 * (e[2] - 1) / 15.0 + 5)
        o = c.layout_info.origin if c.layout_info else None
        if o is None or abs(o.x.value - want[0]) > 1e-6 or abs(o.y.value - want[1]) > 1e-6 or o.x.unit.value != "%" or o.y.unit.value != "%":
            for n in (1, 2, 3):
                if o is not None and o.y.value == want[1] and abs(o.x.value - (want[0] - n * 2.5)) < 1e-6 and separate_tab(lines, e[2], n):
                    r.fail(FINDING, "PAC PAC TO TO: the tab offset is ignored; %s instead of %s" % (o, want), d)
                    break
            else:
                r.fail(key + ":position", "positioned at %s, row %d column %d maps to %s" % (o, e[2], e[3], want), d)
    return caps


def tables(r):
    r.rules.append("every basic, special and extended character and every preamble address code, single and doubled")
    for drop in (False, True):
        for doubled in (False, True):
            for k, ch in O.STD.items():
                if ch == " ":
                    continue
                row = G.Row(15, 0, 0, False, [("t", "a" + ch + "b")])
                check(r, "basic characters", [(300, G.caption_words([row], doubled))], drop, "char")
            for ch in G.SPECIALS:
                check(r, "special characters", [(300, G.caption_words([G.Row(14, 4, 0, False, [("t", "ab"), ("s", ch), ("t", "cd")])], doubled))], drop, "special")
            for ch in G.EXTENDED:
                check(r, "extended characters", [(300, G.caption_words([G.Row(14, 4, 0, False, [("t", "ab"), ("x", "e", ch), ("t", "cd")])], doubled))], drop, "extended")
                check(r, "extended characters", [(300, G.caption_words([G.Row(14, 4, 0, False, [("x", "e", ch)])], doubled))], drop, "extended first")
    for w, (row, col, it) in O.PACS.items():
        for doubled in (False, True):
            for tab in (0, 1, 2, 3):
                for pairing in ("sep", "pair"):
                    if pairing == "pair" and not (doubled and tab):
                        continue
                    check(r, "preamble address codes", [(300, G.caption_words([G.Row(row, col, tab, it, [("t", "ab")], pac=w)], doubled, pairing))], False, "pac %s tab %s" % (pairing, bool(tab)))
            r2 = [G.Row(row - 1, 0, 0, True, [("t", "xy")]), G.Row(row, col, 0, it, [("t", "ab")], pac=w)] if row > 1 else None
            if r2:
                check(r, "preamble address codes turn italics off", [(300, G.caption_words(r2, doubled))], False, "pac style")


def random_streams(r):
    r.rules.append("random pop-on streams: 1-4 captions of 1-4 rows, adjacent or not, five feature levels")
    rng = r.rng("c05")
    for k in r.loop("random streams", r.count(6000, 60000)):
        level, doubled, drop = k % 5, rng.random() < .5, rng.random() < .5
        lines, f = [], rng.randint(30, 3000)
        for _ in range(rng.randint(1, 4)):
            rows = G.rows_for(rng, level, doubled)
            w = G.caption_words(rows, doubled, rng.choice(["sep", "pair"]), enm=rng.random() < .8, edm=rng.random() < .3)
            if rng.random() < .3:
                w = G.pad(rng, w)
            lines += G.split(rng, f, w) if rng.random() < .4 else [(f, w)]
            f = lines[-1][0]
            w = lines[-1][1]
            f += len(w) + rng.randint(10, 60)
            if rng.random() < .5:
                lines.append((f, [O.EDM, O.EDM] if doubled else [O.EDM]))
                f += rng.randint(10, 60)
        check(r, "random streams level %d" % level, lines, drop, "random level %d" % level)


CASES = [tables, random_streams]
