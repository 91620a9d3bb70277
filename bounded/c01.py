"""C01 bounded: documents built by independent serialisers in every lexical form; the reader must return exactly the denoted instants."""
import itertools
from fractions import Fraction as Fr

from pycaption import DFXPReader, MicroDVDReader, SAMIReader, SRTReader, WebVTTReader
from . import gen

US = 10 ** 6


def rand_us(rng):
    k = rng.random()
    h = rng.choice([0, 0, 0, 1, 9, 23, 24, 25, 99, 100, 123, 999])
    m, s = rng.choice([0, 1, 9, 10, 29, 59]), rng.choice([0, 1, 9, 10, 33, 59])
    return ((h * 60 + m) * 60 + s) * US + (rng.choice([0, 1000, 999000, 500000, 120000, 7000]) if k < .6 else rng.randrange(1000) * 1000)


def parts(t):
    ms, us = divmod(t, 1000)
    s, ms = divmod(ms, 1000)
    m, s = divmod(s, 60)
    h, m = divmod(m, 60)
    return h, m, s, ms, us


def cues(rng, n, rnd=rand_us, long_frac=False):
    a = sorted(rnd(rng) for _ in range(2 * n))
    return [(a[2 * k], a[2 * k + 1], ["t%dx%d" % (k, j) for j in range(rng.randint(1, 2))]) for k in range(n)]


# ------------------------------------------------------------------ SRT

def srt_stamp(rng, t):
    h, m, s, ms, us = parts(t)
    base = "%02d:%02d:%02d" % (h, m, s)
    if ms == 0 and rng.random() < .3:
        return base
    return base + ",%03d" % ms


def srt_doc(rng, cs):
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    out, want, k = [], [], 0
    for s, e, ls in cs:
        k += 1
        empty = rng.random() < .08
        body = [] if empty else ls
        out.append(nl.join([str(k), rng.choice(["%s --> %s", "%s --> %s", "%s  -->  %s"]) % (srt_stamp(rng, s), srt_stamp(rng, e))] + body) + nl)
        if not empty:
            want.append((s, e, ls))
    return (nl * rng.choice([1, 1, 1, 2])).join(out) + rng.choice(["", nl]), want


# ------------------------------------------------------------------ WebVTT

def vtt_stamp(rng, t):
    h, m, s, ms, _ = parts(t)
    if h == 0 and rng.random() < .5:
        return "%02d:%02d.%03d" % (m, s, ms)
    return "%02d:%02d:%02d.%03d" % (h, m, s, ms)


def vtt_doc(rng, cs):
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    out = ["WEBVTT" + rng.choice(["", "", " title", "\theader"])]
    want = []
    if rng.random() < .2:
        out.append("NOTE a comment" + nl + "on two lines")
    if rng.random() < .1:
        out.append("STYLE" + nl + "::cue { color: red }")
    for s, e, ls in cs:
        empty = rng.random() < .08
        t = vtt_stamp(rng, s) + rng.choice([" --> ", " --> ", "\t-->\t", "  -->  "]) + vtt_stamp(rng, e)
        t += rng.choice(["", "", " ", " align:start position:10%", "\tline:5%", " size:50% ", " align:end line:0"])
        blk = [t] + ([] if empty else ls)
        if rng.random() < .4:
            blk.insert(0, rng.choice(["1", "id", "cue 7", "00:00"]))
        out.append(nl.join(blk))
        if not empty:
            want.append((s, e, ls))
        if rng.random() < .1:
            out.append("NOTE between")
    return (nl * 2).join(out) + rng.choice(["", nl, nl * 2]), want


# ------------------------------------------------------------------ DFXP

def dfxp_expr(rng):
    """-> (text, exact Fraction microseconds)"""
    k = rng.randrange(9)
    h, m, s = rng.choice([0, 1, 10, 23, 24, 99, 100, 999]), rng.choice([0, 1, 30, 59]), rng.choice([0, 1, 7, 30, 59])
    base = Fr(((h * 60 + m) * 60 + s) * US)
    txt = "%02d:%02d:%02d" % (h, m, s)
    if k == 0:
        return txt, base
    if k <= 3:
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 9, 12])
        d = "".join(rng.choice("0123456789") for _ in range(n))
        return txt + "." + d, base + Fr(int(d), 10 ** n) * US
    if k == 4:
        f = rng.randrange(30)
        return txt + ":%02d" % f, base + Fr(f, 30) * US
    unit, scale, top = rng.choice([("h", 3600 * US, 999), ("m", 60 * US, 59999), ("s", US, 3599999), ("ms", 1000, 10 ** 9), ("f", Fr(US, 30), 10 ** 7)])
    a = rng.choice([0, 1, 2, 4, 9, 10, 33, 1000, rng.randrange(top + 1)])
    a = min(a, top)
    if rng.random() < .5:
        n = rng.choice([1, 2, 2, 3, 3, 4, 6])
        d = "".join(rng.choice("0123456789") for _ in range(n))
        return "%d.%s%s" % (a, d, unit), (a + Fr(int(d), 10 ** n)) * scale
    return "%d%s" % (a, unit), Fr(a) * scale


def fl(x):
    return x.numerator // x.denominator


def dfxp_doc(rng, n):
    ps, want = [], []
    for k in range(n):
        b, bv = dfxp_expr(rng)
        e, ev = dfxp_expr(rng)
        empty = rng.random() < .08
        ls = [] if empty else ["t%dx%d" % (k, j) for j in range(rng.randint(1, 2))]
        if rng.random() < .35:
            at = 'begin="%s" dur="%s"' % (b, e)
            ends = {fl(bv + ev), fl(bv) + fl(ev)}
        else:
            at = rng.choice(['begin="%s" end="%s"', 'end="%s" begin="%s"'])
            at = at % ((b, e) if at.startswith("begin") else (e, b))
            ends = {fl(ev)}
            if rng.random() < .1:
                at += ' dur="5s"'                           # end wins over dur only when it is earlier; keep it far away
                at = at.replace(' dur="5s"', "")
        if not empty:
            want.append((fl(bv), ends, ls, (b, e)))
        ps.append("<p %s>%s</p>" % (at, "<br/>".join(ls)))
    return '<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="en"><head/><body><div xml:lang="en">%s</div></body></tt>' % "\n".join(ps), want


# ------------------------------------------------------------------ SAMI

def sami_doc(rng, n):
    """two languages, syncs in order; a cue lasts until the next sync of its language (four seconds for the last one)."""
    langs = ["en", "fr"][:rng.choice([1, 1, 2])]
    cls = {"en": "ENCC", "fr": "FRCC"}
    t, body, ev = rng.choice([0, 0, 1, 500]), [], {l: [] for l in langs}
    for k in range(n):
        ps = []
        for l in langs:
            x = rng.random()
            if x < .7:
                txt = "%s%d" % (l, k)
                reps = rng.randint(2, 5) if rng.random() < .1 else 1
                for q in range(reps):
                    ps.append("<P Class=%s>%s%s" % (cls[l], txt, "bis%d" % q if q else "") + rng.choice(["", "</P>"]))
                    ev[l].append((t, txt + ("bis%d" % q if q else "")))
            elif x < .9:
                ps.append("<P Class=%s>&nbsp;" % cls[l] + rng.choice(["", "</P>"]))
                ev[l].append((t, None))
        if ps:
            body.append("<SYNC Start=%s>" % rng.choice(["%d", '"%d"']) % t + "".join(ps) + rng.choice(["", "</SYNC>"]))
        t += rng.choice([1, 40, 999, 1000, 3600000, rng.randrange(1, 10 ** 7)])
    want = {}
    for l in langs:
        w = []
        for i, (s, txt) in enumerate(ev[l]):
            if txt is None:
                continue
            nxt = [u for u, _ in ev[l][i + 1:] if u > s]
            w.append((s * 1000, (nxt[0] if nxt else s + 4000) * 1000, [txt]))
        want[l] = w
    style = "<STYLE TYPE=\"text/css\"><!-- P { margin-left: 1%; } .ENCC {Name: English; lang: en;} .FRCC {Name: French; lang: fr;} --></STYLE>"
    return "<SAMI><HEAD>" + style + "</HEAD><BODY>" + "\n".join(body) + "</BODY></SAMI>", want


# ------------------------------------------------------------------ MicroDVD

def mdvd_doc(rng, n):
    fps, head = Fr(25), ""
    if rng.random() < .6:
        x = rng.choice(["25", "25.0", "23.976", "29.97", "30", "24", "50", "59.94", "12.5", "23.98", "60.000"])
        head, fps = "{0}{0}%s\n" % x, Fr(x)
    f, out, want = 0, [], []
    if head and rng.random() < .15:
        # only the first such line is the frame rate
        t = rng.choice(["t", "25", "zero"])
        out, want = ["{0}{0}" + t], [(0, 0, [t])]
    for k in range(n):
        f += rng.choice([1, 2, 29, 30, 57, 100, rng.randrange(1, 10 ** 6)])
        g = f + rng.choice([1, 25, 58, rng.randrange(1, 10 ** 5)])
        ls = [] if rng.random() < .05 else ["t%dx%d" % (k, j) for j in range(rng.randint(1, 2))]
        out.append("{%d}{%d}%s" % (f, g, "|".join(ls)))
        if ls:
            want.append((fl(f * US / fps), fl(g * US / fps), ls))
        f = g
    nl = rng.choice(["\n", "\r\n"])
    return head + nl.join(out) + rng.choice(["", nl]), want


def got_of(cs, lang):
    # (SRT) tests/test_srt.py::test_extra_empty_line pins that a cue without text may come back as a caption without text
    return [(c.start, c.end, [x for x in c.get_text().split("\n")]) for c in cs.get_captions(lang) if c.get_text().strip()]


def compare(r, fmt, got, want, doc):
    ok = len(got) == len(want)
    if ok:
        for g, w in zip(got, want):
            ends = w[1] if isinstance(w[1], set) else {w[1]}
            if g[0] != w[0] or g[1] not in ends or [x.strip() for x in g[2]] != w[2] or not isinstance(g[0], int) or not isinstance(g[1], int):
                ok = False
                break
    if not ok:
        key = fmt
        if len(got) == len(want):
            for g, w in zip(got, want):
                ends = w[1] if isinstance(w[1], set) else {w[1]}
                if g[0] != w[0] or g[1] not in ends:
                    key = fmt + ":times"
        r.fail(key, "%s read %r, the document denotes %r" % (fmt, got[:4], want[:4]), {"document": doc, "got": got, "want": [list(map(repr, w)) for w in want]})


def run(r, fmt, reader, doc, want, expect_lang=None, **kw):
    try:
        cs = reader.read(doc, **kw)
    except Exception as e:
        if not want and type(e).__name__ == "CaptionReadNoCaptions":
            return
        r.fail(fmt + ":raises", "%s reader raised %r" % (fmt, e), {"document": doc})
        return
    if isinstance(want, dict):
        for l, w in want.items():
            compare(r, fmt, got_of(cs, l), w, doc)
        extra = [l for l in cs.get_languages() if l not in want]
        if extra:
            r.fail(fmt + ":langs", "unexpected languages %r" % extra, {"document": doc})
    else:
        l = expect_lang or cs.get_languages()[0]
        if cs.get_languages() != [l]:
            r.fail(fmt + ":langs", "languages %r, expected [%r]" % (cs.get_languages(), l), {"document": doc})
            return
        compare(r, fmt, got_of(cs, l), want, doc)


def docs(r):
    r.rules.append("documents of 1-5 cues from independent serialisers in every lexical form (hours absent/00-999, missing/short/long fractions, frames, "
                   "offset times in h/m/s/ms/f, dur, SAMI syncs of 1-2 languages, MicroDVD frame-rate header), reader options; exact rational expectation")
    rng = r.rng("docs")
    N = r.count(700, 12000)
    for _ in r.loop("docs", N):
        n = rng.randint(1, 5)
        doc, want = srt_doc(rng, cues(rng, n))
        lang = rng.choice([None, "fr", "en-US"])
        r.case("SRT", doc, bool(want))
        run(r, "SRT", SRTReader(), doc, want, lang or "en-US", **({"lang": lang} if lang else {}))

        cs = cues(rng, n)
        doc, want = vtt_doc(rng, cs)
        shift = rng.choice([0, 0, 500, -500, 1, -1, 3600000])
        ign = rng.random() < .6
        if not ign and shift < 0 and cs[0][0] + shift * 1000 < 0:
            ign = True
        r.case("WebVTT", [doc, shift, ign], bool(want))
        rd = WebVTTReader(ignore_timing_errors=ign, time_shift_milliseconds=shift)
        run(r, "WebVTT", rd, doc, [(s + shift * 1000, e + shift * 1000, ls) for s, e, ls in want], lang or "en-US", **({"lang": lang} if lang else {}))

        doc, want = dfxp_doc(rng, n)
        r.case("DFXP", doc, bool(want))
        run(r, "DFXP", DFXPReader(), doc, want, "en")

        doc, want = sami_doc(rng, n)
        if any(want.values()):
            r.case("SAMI", doc)
            run(r, "SAMI", SAMIReader(), doc, {l: w for l, w in want.items() if w or True})

        doc, want = mdvd_doc(rng, n)
        r.case("MicroDVD", doc, bool(want))
        run(r, "MicroDVD", MicroDVDReader(), doc, want, lang or None, **({"lang": lang} if lang else {}))


def grids(r):
    """exhaustive small dimensions: every DFXP frame count, every MicroDVD frame below a bound, every fraction length"""
    r.rules.append("grids: all 30 frame fields; decimal offsets with <=3 decimals x unit; MicroDVD frames 0..3000 under 25/23.976/29.97 fps")
    ps, want = [], []
    for f in range(30):
        ps.append('<p begin="00:00:00:%02d" end="00:00:01:%02d">x</p>' % (f, f))
        want.append((f * US // 30, {US + f * US // 30}, ["x"]))
    for u, sc in (("s", Fr(US)), ("ms", Fr(1000)), ("m", Fr(60 * US)), ("h", Fr(3600 * US)), ("f", Fr(US, 30))):
        for a in range(0, 1000, 7):
            for z in ("%d.%03d" % (a % 40, a), "%d.%d" % (a, a % 10)):
                ps.append('<p begin="%s%s" end="999h">x</p>' % (z, u))
                want.append((fl(Fr(z) * sc), {999 * 3600 * US}, ["x"]))
    doc = '<tt xmlns="http://www.w3.org/ns/ttml"><body><div xml:lang="en">%s</div></body></tt>' % "".join(ps)
    r.case("grid", doc)
    for k in range(len(ps) - 1):
        r.case("grid", ps[k])
    run(r, "DFXP", DFXPReader(), doc, want, "en")
    for x in ("25", "23.976", "29.97"):
        for base in range(0, r.count(3000, 100000), 500):
            lines, want = ["{0}{0}" + x], []
            for k in range(base + 1, base + 500):
                lines.append("{%d}{%d}x" % (k, k + 1))
                want.append((fl(k * US / Fr(x)), fl((k + 1) * US / Fr(x)), ["x"]))
                r.case("grid", (x, k))
            run(r, "MicroDVD", MicroDVDReader(), "\n".join(lines), want)


CASES = [grids, docs]
