"""C06: start and end of pop-on captions against frame arithmetic done in exact rationals."""
from fractions import Fraction as F

from pycaption import SCCReader
from pycaption.exceptions import CaptionReadTimingError

from bounded import sccgen as G
from oracles import cea608 as O

FINDING = "a caption shown and cleared before the offset is returned"
CW = F(1001000, 30)              # five frames: 5 * CW


def expected(lines, drop, offset):
    """-> [(start, {acceptable ends})] per screen, or 'flash' when a displayed duration is under 0.05 s"""
    fr = G.frame_us(drop)
    scr = O.popon([(f * fr - offset, fr, w) for f, w in lines])
    out = []
    z = lambda t: max(F(0), t)
    for k, (t0, rows, t1) in enumerate(scr):
        nxt = z(scr[k + 1][0]) if k + 1 < len(scr) else None
        s = z(t0)
        if t1 is None:
            ends = {s + 4000000}
        else:
            e = z(t1)
            ends = {e}
            if nxt is not None:
                gap = nxt - e
                if gap < 5 * fr and gap < 5 * CW - 1:
                    ends = {nxt}
                elif gap <= 5 * CW + 2:
                    ends = {e, nxt}          # exactly five frames: both readings of "shorter than" accepted
        out.append((s, ends, len(O.groups(rows)), t1 is not None))
    return out


def check(r, group, lines, drop, offset, key):
    doc = G.document(lines, drop)
    r.case(group, "%s offset=%s" % (doc, offset))
    exp = expected(lines, drop, offset * 1000000)
    flash = [x for x in exp if x[3] and all(0 <= e - x[0] < 50000 for e in x[1])]
    maybe = [x for x in exp if x[3] and any(0 <= e - x[0] < 50000 for e in x[1])]
    d = {"document": doc, "offset": str(offset), "want": [(str(s), sorted(map(str, e))) for s, e, _, _ in exp]}
    try:
        caps = SCCReader().read(doc, offset=int(offset) if offset == int(offset) else float(offset)).get_captions("en-US")
    except CaptionReadTimingError as e:
        if not maybe:
            r.fail(key + ":rejected", "timing error without a short caption: %s" % e, d)
        return
    except Exception as e:
        r.fail(key + ":raise", "%s: %s" % (type(e).__name__, e), d)
        return
    d["got"] = [(c.start, c.end) for c in caps]
    cut = [x for x in flash if x[0] == 0 and x[1] == {0}]
    if cut:
        r.fail(FINDING, "start and end both floor at zero: neither rejected nor ended at zero", d)
    if len(flash) > len(cut):
        r.fail(key + ":flash", "a caption shown for less than 0.05 s is returned", d)
        return
    want = [x for x in exp for _ in range(x[2])]
    if len(want) != len(caps):
        r.fail(key + ":count", "number of captions", d)
        return
    last = None
    for c, (s, ends, _, cleared) in zip(caps, want):
        if abs(F(c.start) - s) >= 1:
            r.fail(key + ":start", "start %r, the End-Of-Caption code is sent at %s" % (c.start, float(s)), d)
            return
        if s == 0 and ends == {0} and cleared:
            continue
        if not any(abs(F(c.end) - e) < 1 for e in ends):
            r.fail(key + (":end" if cleared else ":end of an uncleared caption"), "end %r, expected %s" % (c.end, [float(e) for e in ends]), d)
            return
        if c.start > c.end or (last is not None and c.start < last):
            r.fail(key + ":order", "captions out of order", d)
            return
        last = c.start


def one(rng, simple=True):
    return [G.Row(rng.choice([14, 15]), 0, 0, False, [("t", G.text(rng, rng.randint(1, 20)))])]


def systematic(r):
    r.rules.append("two captions with every gap of 0-12 frames between clear and next display, single/doubled, drop/non-drop; durations of 0-6 frames; "
                   "timecodes at every frame of a second and around minute and hour carries")
    rng = r.rng("sys")
    for drop in (False, True):
        for doubled in (False, True):
            d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
            A, B = G.caption_words([G.Row(15, 0, 0, False, [("t", "first")])], doubled), G.caption_words([G.Row(15, 0, 0, False, [("t", "second")])], doubled)
            n, e = len(B), (2 if doubled else 1)
            for base in (0, 1, 29, 30, 1799, 1800, 107999, 108000, 30 * 3600 * 23, 30 * 3600 * 24 - 400):
                for gap in range(0, 13):
                    # the EOC of B is sent at f2 + n - e; EDM of A at that frame minus gap
                    f1 = base
                    shown = f1 + len(A) - e
                    f2 = shown + 200
                    clear = f2 + n - e - gap
                    if gap >= n:
                        lines = [(f1, A), (clear, d(O.EDM)), (f2, B)]
                        check(r, "gap between clear and next caption", lines, drop, 0, "gap")
                    else:
                        w = G.caption_words([G.Row(15, 0, 0, False, [("t", "second")])], doubled)
                        pos = n - e - gap
                        if pos > 0 and not (doubled and w[pos] == w[pos - 1] and O.is_control(w[pos])):
                            w2 = w[:pos] + d(O.EDM) + w[pos:]
                            check(r, "gap between clear and next caption", [(f1, A), (f2, w2)], drop, 0, "gap")
                for dur in range(1, 9):
                    shown = base + len(A) - e
                    if doubled and dur < 2:
                        continue
                    check(r, "short display", [(base, A + (d(O.EDM) if dur == e else []))] if dur == e else
                          [(base, A), (shown + dur, d(O.EDM))], drop, 0, "dur")
                check(r, "never cleared", [(base, A)], drop, 0, "uncleared")
                check(r, "ended by the next caption", [(base, A), (base + 100, B)], drop, 0, "replaced")
                check(r, "ended by the next caption", [(base, A), (base + 100, B), (base + 300, d(O.EDM))], drop, 0, "replaced")
            for f in list(range(0, 61)) + list(range(1770, 1830)) + list(range(107970, 108030)):
                check(r, "every frame number", [(f, A), (f + 300, d(O.EDM))], drop, 0, "frame")
            for off in (1, 2, 5, F(1, 2), 10, 3600, -1):
                for base in (0, 90, 300, 108000):
                    check(r, "offsets", [(base, A), (base + 90, d(O.EDM)), (base + 200, B), (base + 400, d(O.EDM))], drop, off, "offset")


def several_uncleared(r):
    r.rules.append("a last screen of several regions that is never cleared")
    rng = r.rng("multi")
    for k in r.loop("uncleared screens", r.count(300, 3000)):
        doubled, drop = rng.random() < .5, rng.random() < .5
        lines, f = [], rng.randint(0, 500)
        for _ in range(rng.randint(1, 3)):
            rows = [G.Row(x, rng.choice([0, 4, 8]), 0, False, [("t", G.text(rng, 4))]) for x in sorted(rng.sample(range(1, 16), rng.choice([1, 1, 2, 2, 3, 3, 5, 7])))]
            w = G.caption_words(rows, doubled)
            lines.append((f, w))
            f += len(w) + rng.randint(5, 80)
        check(r, "uncleared screens", lines, drop, 0, "uncleared screens")


def random_streams(r):
    r.rules.append("random streams of 1-6 captions with random gaps, EDM in or between lines, several codes per line, offsets")
    rng = r.rng("c06")
    for k in r.loop("random streams", r.count(6000, 60000)):
        doubled, drop = rng.random() < .5, rng.random() < .5
        d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
        lines, f = [], rng.choice([0, rng.randint(0, 200), rng.randint(0, 30 * 3600 * 20)])
        for _ in range(rng.randint(1, 6)):
            rows = G.rows_for(rng, rng.choice([0, 0, 2, 3]), doubled, rng.choice([3, 3, 3, 6]), 12)
            w = G.caption_words(rows, doubled, "pair", enm=rng.random() < .7, edm=rng.random() < .4)
            lines += G.split(rng, f, w) if rng.random() < .3 else [(f, w)]
            f = lines[-1][0] + len(lines[-1][1]) + rng.choice([0, 1, 2, 5, 20, 60, 200])
            if rng.random() < .5:
                lines.append((f, d(O.EDM)))
                f += len(d(O.EDM)) + rng.choice([0, 1, 2, 3, 4, 5, 20, 60])
        off = rng.choice([0, 0, 0, 1, 3, F(1, 4)])
        check(r, "random streams", lines, drop, off, "random")


CASES = [systematic, several_uncleared, random_streams]
