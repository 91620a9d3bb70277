"""C15: either the length error naming every line over 32 characters, or captions whose lines all fit."""
import re

from pycaption import CaptionNode, SCCReader
from pycaption.exceptions import CaptionLineLengthError

from bounded import sccgen as G
from oracles import cea608 as O


def text(rng, n):
    """n characters, the last one not a blank; now and then the first ones are (an indented line)"""
    t = G.text(rng, n)
    if n > 3 and rng.random() < .2:
        k = rng.randint(1, min(n - 1, 8))
        t = " " * k + t[k:]
    return t


def related(rng, before, t):
    """now and then a line that begins or continues an earlier one"""
    if before and rng.random() < .2:
        o = rng.choice(before)
        t = o[:len(t)] + t[len(o):]
        if t[-1] == " ":
            t = t[:-1] + "x"
    return t


def lines_of(c):
    out = [""]
    for n in c.nodes:
        if n.type_ == CaptionNode.TEXT:
            out[-1] += n.content
        elif n.type_ == CaptionNode.BREAK:
            out.append("")
    return [x for l in out for x in l.split("\n")]


def check(r, group, doc, want, key, offset=0, **kw):
    """want: the transmitted rows as text (None: unknown, only the dichotomy is checked)"""
    r.case(group, doc + str(kw) + str(offset))
    d = {"document": doc, "rows": want, "options": kw, "offset": offset}
    long = [w for w in want or [] if len(w) > 32]
    try:
        cs = SCCReader().read(doc, offset=offset, **kw)
    except CaptionLineLengthError as e:
        msg = str(e)
        if want is None:
            return msg
        if not long:
            r.fail(key + ":raised", "length error although no line is longer than 32", dict(d, message=msg))
        for w in long:
            if msg.count("%s - Length %d\n" % (w, len(w))) < long.count(w):
                r.fail(key + ":named", "an offending line is not named", dict(d, message=msg, line=w))
        for l in re.findall(r"(.*) - Length \d+\n", msg):
            l = re.sub(r"^around \S+ - ", "", l)
            if l not in long:
                r.fail(key + ":named", "the message names a line that is not too long", dict(d, message=msg, line=l))
        return msg
    except Exception as e:
        r.fail(key + ":raise", "%s: %s" % (type(e).__name__, e), d)
        return
    bad = [l for c in cs.get_captions("en-US") for l in lines_of(c) if len(l) > 32]
    if bad or long:
        r.fail(key + ":silent", "a line longer than 32 characters is returned silently: %r" % (bad or long), d)


def pop(rng, r, shape, doubled, drop, key, group, offset=0):
    """shape: list of screens; a screen is a list of (row, length)"""
    lines, want, f = [], [], rng.randint(60, 900)
    for scr in shape:
        rows = []
        for row, n in scr:
            t = related(rng, want, text(rng, n))
            want.append(t)
            rows.append(G.Row(row, 0, 0, False, [("t", t)]))
        w = G.caption_words(rows, doubled)
        lines.append((f, w))
        f += len(w) + 40
    check(r, group, G.document(lines, drop), want, key, offset)


def same_start(r):
    r.rules.append("screens of up to four separate or adjacent regions with every pattern of fitting and overlong lines (lengths 31, 32, 33, 40)")
    rng = r.rng("same")
    L = [31, 32, 33, 40]
    for doubled in (False, True):
        for a in L:
            for b in L:
                pop(rng, r, [[(1, a), (5, b)]], doubled, False, "two regions", "same start")
                pop(rng, r, [[(1, a), (2, b)]], doubled, False, "two lines", "same start")
                pop(rng, r, [[(1, a)], [(5, b)]], doubled, False, "two captions", "two captions")
                for c in L:
                    pop(rng, r, [[(1, a), (5, b), (9, c)]], doubled, True, "three regions", "same start")
                    pop(rng, r, [[(1, a), (2, b), (9, c)]], doubled, True, "three lines", "same start")
                    pop(rng, r, [[(1, a), (5, b)], [(3, c)]], doubled, True, "two screens", "two captions")


def zero_start(r):
    r.rules.append("several captions whose start floors at zero because of the offset")
    rng = r.rng("zero")
    for k in r.loop("zero", r.count(200, 2000)):
        shape = [[(rng.randint(1, 15), rng.choice([5, 31, 32, 33, 36]))] for _ in range(rng.randint(2, 4))]
        pop(rng, r, shape, rng.random() < .5, rng.random() < .5, "shared zero start", "zero start", offset=1000)


def random_pop(r):
    r.rules.append("random pop-on streams of 1-4 screens")
    rng = r.rng("pop")
    for k in r.loop("pop", r.count(2500, 25000)):
        shape = []
        for _ in range(rng.randint(1, 4)):
            rows = sorted(rng.sample(range(1, 16), rng.randint(1, 4)))
            shape.append([(x, rng.choice([1, 5, 20, 32, 32, 32, 33, 34, 50] if rng.random() < .5 else [3, 30, 32])) for x in rows])
        pop(rng, r, shape, rng.random() < .5, rng.random() < .5, "random pop-on", "random pop-on")


def roll_paint(r):
    r.rules.append("random roll-up and paint-on streams, one row per caption, with and without simulate_roll_up")
    rng = r.rng("roll")
    for k in r.loop("roll", r.count(1500, 15000)):
        doubled, drop = rng.random() < .5, rng.random() < .5
        d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
        f, lines, want = rng.randint(0, 300), [], []
        roll = rng.random() < .6
        for _ in range(rng.randint(1, 5)):
            t = text(rng, rng.choice([1, 8, 20, 32, 32, 33, 45]))
            want.append(t)
            w = (d(O.RU[rng.choice([2, 3, 4])], O.CR) if roll else d(O.RDC)) + d(O.pac_word(15 if roll else rng.randint(1, 15))) + O.chars(t)
            lines.append((f, w))
            f += len(w) + rng.randint(5, 60)
        if roll:
            lines.append((f, d(O.CR)))
        doc = G.document(lines, drop)
        check(r, "roll-up" if roll else "paint-on", doc, want, "roll-up" if roll else "paint-on")
        if roll:
            check(r, "simulated roll-up", doc, None, "simulated roll-up", simulate_roll_up=True)


CASES = [same_start, zero_start, random_pop, roll_paint]
