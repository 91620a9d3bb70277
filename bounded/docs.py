"""Feature-rich source documents (styles, regions, spans, languages, settings, control codes) for the properties about whole sets."""
import html
import re

from pycaption import DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader

from bounded import gen, sccgen

READERS = {"scc": SCCReader, "sami": SAMIReader, "dfxp": DFXPReader, "webvtt": WebVTTReader, "srt": SRTReader, "microdvd": MicroDVDReader}
SPECIAL = ["&", "<", ">", "\"", "'", "a&b", "1 < 2", "x > y", "&amp;", "R&D"]


def txt(rng, p=.1):
    return html.escape(" ".join(rng.choice(SPECIAL) if rng.random() < p else rng.choice(gen.WORDS) for _ in range(rng.randint(1, 4))), False)


def clock(t):
    return "%02d:%02d:%02d.%03d" % (t // 3600000, t // 60000 % 60, t // 1000 % 60, t % 1000)


def pcts(rng, lo, hi):
    return "%d%%" % rng.randint(lo, hi)


def dfxp(rng, styled=.5, positioned=.5, nested=.2, langs=None):
    styles = ["s%d" % k for k in range(rng.randint(0, 3))] + (["p"] if rng.random() < .2 else []) + (["bottom"] if rng.random() < .1 else [])
    regions = ["r%d" % k for k in range(rng.randint(0, 3))] + (["bottom"] if rng.random() < .2 and "bottom" not in styles else [])

    def sattrs(refs=True):
        out = []
        if rng.random() < .3:
            out.append('tts:fontStyle="%s"' % rng.choice(["italic", "italic", "normal"]))
        if rng.random() < .2:
            out.append('tts:fontWeight="%s"' % rng.choice(["bold", "bold", "normal"]))
        if rng.random() < .2:
            out.append('tts:textDecoration="%s"' % rng.choice(["underline", "none"]))
        if rng.random() < .2:
            out.append('tts:color="%s"' % rng.choice(["red", "#00ff00", "white"]))
        if rng.random() < .2:
            out.append('tts:fontSize="%s"' % rng.choice(["1c", "20px", "80%"]))
        if rng.random() < .2:
            out.append('tts:fontFamily="%s"' % rng.choice(["monospace", "&quot;Arial Bold&quot;", "a&amp;b", "x &lt; y"]))
        if rng.random() < .15:
            out.append('tts:textAlign="%s"' % rng.choice(["left", "center", "right", "start", "end"]))
        if refs and styles and rng.random() < .4:
            out.append('style="%s"' % rng.choice(styles))
        return out

    def lattrs():
        out = []
        if rng.random() < .7:
            out.append('tts:origin="%s %s"' % (pcts(rng, 10, 60), pcts(rng, 5, 70)))
        if rng.random() < .6:
            out.append('tts:extent="%s %s"' % (pcts(rng, 10, 30), pcts(rng, 5, 20)))
        if rng.random() < .3:
            out.append('tts:padding="%s"' % " ".join(pcts(rng, 0, 4) for _ in range(rng.randint(1, 4))))
        if rng.random() < .5:
            out.append('tts:textAlign="%s"' % rng.choice(["left", "center", "right", "start", "end"]))
        if rng.random() < .5:
            out.append('tts:displayAlign="%s"' % rng.choice(["before", "center", "after"]))
        return out

    def region():
        return ['region="%s"' % rng.choice(regions)] if regions and rng.random() < positioned else []

    def content(depth=0):
        out = []
        for k in range(rng.randint(1, 4)):
            x = rng.random()
            if x < .5:
                out.append(txt(rng))
            elif x < .65:
                out.append("<br/>")
            elif depth < (2 if rng.random() < nested else 1) and rng.random() < styled * 2:
                out.append("<span%s>%s</span>" % ("".join(" " + a for a in sattrs() + (region() if rng.random() < .3 else [])), content(depth + 1)))
            else:
                out.append(txt(rng))
        return " ".join(out)

    divs = []
    for l in langs or rng.sample(["en", "fr", "en-US", "de", "\"x&amp;"], rng.randint(1, 2)):
        ps = []
        for s, e in gen.times(rng, rng.randint(1, 4), unit=1):
            for _ in range(rng.choice([1, 1, 1, 2])):
                a = ['begin="%s"' % clock(s), 'end="%s"' % clock(e)] + (sattrs() if rng.random() < .3 else []) + region()
                ps.append("<p %s>%s</p>" % (" ".join(a), content() if rng.random() < .95 else rng.choice(["", "<br/>"])))
        divs.append("<div xml:lang='%s' %s>%s</div>" % (l, " ".join(region()), "\n   ".join(ps)))
    head = "<styling>%s</styling><layout>%s</layout>" % (
        "".join('<style xml:id="%s" %s/>' % (s, " ".join(sattrs(False) + (["style=\"%s\"" % styles[k - 1]] if k and rng.random() < .2 else [])))
                for k, s in enumerate(styles)),
        "".join('<region xml:id="%s" %s>%s</region>' % (x, " ".join(lattrs()), '<style %s/>' % " ".join(lattrs()) if rng.random() < .15 else "") for x in regions))
    # an attribute may appear once per element
    doc = ('<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head>%s</head><body>%s</body></tt>'
           % (head, "\n".join(divs)))
    return re.sub(r"<\w+ [^<>]*>", once, doc)


def once(m):
    seen, out = set(), []
    def one(a):
        if a.group(1) in seen:
            return ""
        seen.add(a.group(1))
        return a.group(0)
    return re.sub(r" ([\w:]+)=(\"[^\"]*\"|'[^']*')", one, m.group(0))


def sami(rng, styled=.5, nested=.2, langs=None):
    langs = langs or rng.sample([("ENCC", "en"), ("FRCC", "fr"), ("DECC", "de")], rng.randint(1, 2))
    extra = ["x", "y"][:rng.randint(0, 2)]

    def props():
        return rng.sample(["color: red;", "font-style: italic;", "font-weight: bold;", "text-decoration: underline;", "font-size: 12px;", "text-align: center;",
                           "font-family: \"Arial Bold\";", "margin-left: 5%;", "margin-top: 2%;", "margin-right: 3%;", "margin-bottom: 4%;"], rng.randint(1, 3))

    def content(depth=0):
        out = []
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < .5:
                out.append(txt(rng))
            elif x < .62:
                out.append("<br>")
            elif depth < (2 if rng.random() < nested else 1) and rng.random() < styled * 2:
                y = rng.random()
                if y < .5:
                    t = rng.choice("ibu")
                    out.append("<%s>%s</%s>" % (t, content(depth + 1), t))
                elif y < .8:
                    out.append("<span style='%s'>%s</span>" % (" ".join(props()).replace("\"", "&quot;"), content(depth + 1)))
                else:
                    out.append("<span class=\"%s\">%s</span>" % (rng.choice(extra + ["nope"]), content(depth + 1)))
            else:
                out.append(txt(rng))
        return " ".join(out)

    syncs = []
    for n, (cl, l) in enumerate(langs):
        t = rng.randint(0, 3000)
        for _ in range(rng.randint(1, 4)):
            syncs.append((t, "<P class=%s%s>%s" % (cl, rng.choice(["", "", " style='%s'" % " ".join(props()).replace("\"", "&quot;")]), content())))
            t += rng.randint(1, 3000)
            if rng.random() < .5:
                syncs.append((t, "<P class=%s>&nbsp;" % cl))
                t += rng.randint(0, 2000) + 1
    by = {}
    for t, p in syncs:
        by.setdefault(t, []).append(p)
    css = "P { %s }\n" % " ".join(props()) if rng.random() < .5 else ""
    css += "\n".join(".%s { Name: %s; lang: %s; %s }" % (c, c, l, " ".join(props()) if rng.random() < .3 else "") for c, l in langs)
    css += "\n" + "\n".join(".%s { %s }" % (c, " ".join(props())) for c in extra)
    return ("<SAMI><HEAD><TITLE>t</TITLE><STYLE TYPE=\"text/css\"><!--\n%s\n--></STYLE></HEAD><BODY>\n%s\n</BODY></SAMI>"
            % (css, "\n".join("<SYNC start=%d>%s</SYNC>" % (t, "\n".join(p + "</P>" for p in ps)) for t, ps in sorted(by.items()))))


def webvtt(rng, positioned=.5):
    out = ["WEBVTT" + rng.choice(["", " - title"])]
    for s, e in gen.times(rng, rng.randint(1, 5), unit=1):
        st = []
        if rng.random() < positioned:
            st = rng.sample(["align:left", "align:right", "align:start", "align:end", "align:middle", "position:%d%%" % rng.randint(0, 100), "line:%d%%" % rng.randint(0, 100),
                             "size:%d%%" % rng.randint(1, 100), "line:%d" % rng.randint(0, 5), "vertical:rl"], rng.randint(1, 4))
        ls = []
        for _ in range(rng.randint(1, 3)):
            l = txt(rng)
            if rng.random() < .3:
                t = rng.choice(["i", "b", "u", "c.red", "v Bob", "lang en"])
                l = "<%s>%s</%s>" % (t, l, t.split()[0].split(".")[0])
            ls.append(l)
        out.append((rng.choice(["", "cue %d\n" % s]) + "%s --> %s%s\n" % (clock(s), clock(e), "".join(" " + x for x in st))) + "\n".join(ls))
    return "\n\n".join(out) + "\n"


def srt(rng):
    return "\n".join("%d\n%s --> %s\n%s\n" % (k + 1, clock(s).replace(".", ","), clock(e).replace(".", ","),
                                              "\n".join(" ".join(rng.choice(gen.WORDS + ["<i>", "</i>", "&", "a < b"]) for _ in range(rng.randint(1, 4)))
                                                        for _ in range(rng.randint(1, 3))))
                     for k, (s, e) in enumerate(gen.times(rng, rng.randint(1, 5), unit=1)))


def microdvd(rng):
    f, out = rng.randint(1, 50), []
    for _ in range(rng.randint(1, 5)):
        g = f + rng.randint(1, 100)
        out.append("{%d}{%d}%s" % (f, g, "|".join(" ".join(rng.choice(gen.WORDS + ["<i>", "&", "{y:i}"]) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(1, 3)))))
        f = g + rng.randint(0, 50)
    return "\n".join(out)


def scc(rng, mode=None):
    d2 = rng.random() < .5
    d = (lambda *x: [y for w in x for y in ([w, w] if d2 else [w])])
    from oracles import cea608 as O
    mode = mode or rng.choice(["pop", "pop", "pop", "roll", "paint", "mixed"])
    level, f, lines = rng.choice([0, 1, 2, 3, 3]), rng.randint(30, 300), []
    for n in range(rng.randint(1, 5)):
        m = mode if mode != "mixed" else rng.choice(["pop", "roll", "paint"])
        if m == "pop":
            w = sccgen.caption_words(sccgen.rows_for(rng, level, d2, 3), d2)
        elif m == "roll":
            w = d(O.RU[rng.choice([2, 3, 4])], O.CR) + sccgen.words_of(sccgen.rand_row(rng, 15, level, d2), d2)
        else:
            w = d(O.RDC) + [x for row in sccgen.rows_for(rng, level, d2, 2) for x in sccgen.words_of(row, d2)]
        lines.append((f, w))
        f += len(w) + rng.randint(20, 200)
        if rng.random() < .5:
            lines.append((f, d(O.EDM)))
            f += rng.randint(5, 100)
    return sccgen.document(lines, rng.random() < .5)


MAKE = {"scc": scc, "sami": sami, "dfxp": dfxp, "webvtt": webvtt, "srt": srt, "microdvd": microdvd}


def one(rng, fmt=None):
    fmt = fmt or rng.choice(sorted(MAKE))
    return fmt, MAKE[fmt](rng)
