"""C16: roll-up and paint-on text is conserved, in order, and captions follow each other without gaps."""
from pycaption import SCCReader

from bounded import sccgen as G
from bounded.c05 import cells, norm
from oracles import cea608 as O


def row_text(row, doubled):
    m = O.Memory()
    for w in [x for _, x in O.undouble(G.words_of(row, doubled))]:
        O.act(m, w)
    rows = m.rows()
    return norm(rows[0][2]) if rows else ""


def check(r, group, lines, drop, rows, key):
    """rows: [(row text, segment)] -- rows of one segment share a start"""
    doc = G.document(lines, drop)
    r.case(group, doc)
    d = {"document": doc, "rows": rows}
    try:
        caps = SCCReader().read(doc).get_captions("en-US")
    except Exception as e:
        r.fail(key + ":raise", "%s: %s" % (type(e).__name__, e), d)
        return
    d["got"] = [(c.start, c.end, c.get_text()) for c in caps]
    got = [norm(l) for c in caps for l in cells(c)[0]]
    got = [g for g in got if g]
    if got != [t for t, _ in rows]:
        j, k = "".join(got).replace(" ", ""), "".join(t for t, _ in rows).replace(" ", "")
        r.fail(key + (":rows" if j == k else ":text"), "rows are not kept together" if j == k else "characters lost, repeated or reordered", d)
        return
    for k, c in enumerate(caps):
        if not c.start < c.end:
            r.fail(key + ":start<end", "start %r, end %r" % (c.start, c.end), d)
            return
    starts = sorted({c.start for c in caps})
    if [c.start for c in caps] != sorted(c.start for c in caps):
        r.fail(key + ":order", "captions not ordered by start", d)
        return
    nxt = dict(zip(starts, starts[1:]))
    for c in caps:
        if c.start in nxt and abs(c.end - nxt[c.start]) > 1e-3:
            r.fail(key + ":end", "a caption does not end when the next one begins: %r .. %r, next %r" % (c.start, c.end, nxt[c.start]), d)
            return


def rollup(r):
    r.rules.append("roll-up streams: 2-4 rows, one timecoded line per row or several, RU repeated or not, PAC repeated or not, EDM in between, "
                   "with or without a final carriage return, single and doubled")
    rng = r.rng("roll")
    for k in r.loop("roll-up", r.count(4000, 40000)):
        doubled, drop, level = rng.random() < .5, rng.random() < .5, rng.choice([0, 0, 1, 2, 3])
        d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
        ru = O.RU[rng.choice([2, 3, 4])]
        again, pac, edm, multi = rng.random() < .5, rng.random() < .7, rng.random() < .2, rng.random() < .3
        f, lines, rows = rng.randint(0, 500), [], []
        base = rng.choice([15, 15, 15, 14, 13, 4])
        for n in range(rng.randint(1, 6)):
            row = G.rand_row(rng, base, level, doubled)
            t = row_text(row, doubled)
            if not t:
                continue
            rows.append((t, n))
            w = []
            if n == 0 or again:
                w += d(ru)
            if edm and n and rng.random() < .3:
                w = d(O.EDM) + w
            w += d(O.CR)
            body = G.words_of(row, doubled)
            if not pac and n:
                body = G.words_of(G.Row(base, 0, 0, False, row.items), doubled)[(2 if doubled else 1):]
                rows[-1] = (row_text(G.Row(base, 0, 0, False, row.items), doubled), n)
                if not rows[-1][0]:
                    rows.pop()
            w += body
            if multi and len(lines) and not (n == 0 or again):
                last = lines.pop()
                lines.append((last[0], last[1] + w))
                f = lines[-1][0] + len(lines[-1][1]) + rng.randint(3, 60)
                continue
            lines.append((f, w))
            f += len(w) + rng.randint(3, 60)
        if rng.random() < .5:
            lines.append((f, d(O.CR) if rng.random() < .5 else d(O.EDM)))
        if rows:
            check(r, "roll-up", lines, drop, rows, "roll-up")


def rollup_trailing(r):
    r.rules.append("roll-up streams whose lines end with the carriage return, with RU repeated or not")
    rng = r.rng("trail")
    for k in r.loop("trailing CR", r.count(400, 4000)):
        doubled, drop = rng.random() < .5, rng.random() < .5
        d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
        ru, again = O.RU[rng.choice([2, 3, 4])], rng.random() < .5
        f, lines, rows = rng.randint(0, 500), [], []
        for n in range(rng.randint(1, 5)):
            row = G.rand_row(rng, 15, rng.choice([0, 2]), doubled)
            rows.append((row_text(row, doubled), n))
            w = (d(ru) if not n or again else []) + G.words_of(row, doubled) + d(O.CR)
            lines.append((f, w))
            f += len(w) + rng.randint(3, 60)
        check(r, "trailing carriage return", lines, drop, rows, "trailing CR")


def painton(r):
    r.rules.append("paint-on streams: 1-4 rows per RDC, adjacent or not, RDC repeated or one long one, EDM in between")
    rng = r.rng("paint")
    for k in r.loop("paint-on", r.count(4000, 40000)):
        doubled, drop, level = rng.random() < .5, rng.random() < .5, rng.choice([0, 0, 1, 2, 3])
        d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
        f, lines, rows = rng.randint(0, 500), [], []
        for n in range(rng.randint(1, 5)):
            w = (d(O.EDM) if rng.random() < .2 else []) + d(O.RDC)
            for row in G.rows_for(rng, level, doubled, 3):
                t = row_text(row, doubled)
                if not t:
                    continue
                rows.append((t, n))
                w += G.words_of(row, doubled)
            lines += G.split(rng, f, w) if rng.random() < .3 else [(f, w)]
            f = lines[-1][0] + len(lines[-1][1]) + rng.randint(3, 60)
        if rng.random() < .3:
            lines.append((f, d(O.EDM)))
        if rows:
            check(r, "paint-on", lines, drop, rows, "paint-on")


def mixed(r):
    r.rules.append("streams that switch between paint-on and roll-up of different depths")
    rng = r.rng("mixed")
    for k in r.loop("mixed", r.count(2000, 20000)):
        doubled, drop = rng.random() < .5, rng.random() < .5
        d = (lambda *x: [y for w in x for y in ([w, w] if doubled else [w])])
        f, lines, rows = rng.randint(0, 500), [], []
        for n in range(rng.randint(2, 6)):
            row = G.rand_row(rng, 15, rng.choice([0, 2]), doubled)
            rows.append((row_text(row, doubled), n))
            w = (d(O.RDC) if rng.random() < .5 else d(O.RU[rng.choice([2, 3, 4])], O.CR)) + G.words_of(row, doubled)
            lines.append((f, w))
            f += len(w) + rng.randint(3, 60)
        check(r, "mixed", lines, drop, rows, "mixed")


CASES = [rollup, rollup_trailing, painton, mixed]
