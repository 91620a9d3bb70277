"""C10: reading is a function of document and options, whatever was read or written before; returned sets share nothing mutable."""
import random

from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader)
from pycaption.geometry import Alignment, Layout, Padding, Point, Size, Stretch
from bounded import docs, gen

BAD = ["", "x", "WEBVTT\n\nfoo --> bar\nx", "<tt><body><div><p>x</p></div></body></tt>", "<sami><body><sync><p>x</p></sync></body></sami>", "1\n00:00 --> y\nz\n", "{0}{1}",
       "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 94ae 9420 9420 9470 9470 c8e5", "Scenarist_SCC V1.0\n\n00:00:0x:00\t9420",
       "Scenarist_SCC V1.0\n\n00:00:01:00\t9425 9425 94ad 94ad 9470 c8e5 ecec ef80", "Scenarist_SCC V1.0\n\n00:00:01:00\t9429 9429 9470 c8e5 91ae 91ae ecec ef80",
       "Scenarist_SCC V1.0\n\n00:00:01:00\t9420 9470 97a1 91ae " + "c8e5 " * 20 + "942f\n\n00:00:05:00\t942c"]


def one_read(rng, fmt=None):
    f, doc = docs.one(rng, fmt)
    opts, kw = {}, {}
    if f == "webvtt":
        opts = dict(ignore_timing_errors=rng.random() < .5, time_shift_milliseconds=rng.choice([0, 0, 1500]))
    elif f == "dfxp":
        opts = dict(read_invalid_positioning=rng.random() < .4)
    elif f == "scc":
        kw = dict(offset=rng.choice([0, 0, 1]), simulate_roll_up=rng.random() < .3, lang=rng.choice(["en-US", "fr"]))
    if f in ("webvtt", "srt", "microdvd") and rng.random() < .3:
        kw["lang"] = "de"
    cls = docs.READERS[f]
    return f, doc, dict(opts, **kw), lambda: cls(**opts), lambda rd, d: rd.read(d, **kw)


def attempt(make, read, doc):
    try:
        return gen.dump(read(make(), doc))
    except Exception as e:
        return "raised %s: %s" % (type(e).__name__, e)


MUT = (dict, list, Caption, CaptionNode, CaptionSet, Layout, Point, Stretch, Padding, Alignment, Size)


def reach(x, out, path="set"):
    """mutable objects reachable from x (geometry values included)"""
    if x is None or isinstance(x, (int, float, str, bool)) or id(x) in out:
        return out
    if isinstance(x, dict):
        out[id(x)] = (x, path)
        for k, v in x.items():
            reach(v, out, "%s[%r]" % (path, k))
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out[id(x)] = (x, path)
        for k, v in enumerate(x):
            reach(v, out, "%s[%d]" % (path, k))
        for k, v in getattr(x, "__dict__", {}).items():
            reach(v, out, "%s.%s" % (path, k))
    elif isinstance(x, (Caption, CaptionNode, CaptionSet, Layout, Point, Stretch, Padding, Alignment, Size)):
        out[id(x)] = (x, path)
        for k, v in x.__dict__.items():
            reach(v, out, "%s.%s" % (path, k))
    return out


def vandalise(cs, rng):
    """edit everything a user can edit in a caption set"""
    cs.add_style("vandal", {"color": "black"})
    for _, st in cs.get_styles():
        st["touched"] = True
    for lang in cs.get_languages():
        cl = cs.get_captions(lang)
        for c in cl:
            c.start += 17
            c.end = 5
            if isinstance(c.style, dict):
                c.style["touched"] = True
            for n in c.nodes:
                if isinstance(n.content, dict):
                    n.content["touched"] = True
                else:
                    n.content = "vandalised"
                n.layout_info = None
            c.nodes.append(CaptionNode.create_text("more"))
            c.layout_info = Layout(webvtt_positioning="x")
        if rng.random() < .5:
            del cl[:1]
        cl.append(Caption(0, 1, [CaptionNode.create_text("x")]))
        cs.set_layout_info(lang, None)
    cs.layout_info = "x"
    made = Caption(0, 1, [CaptionNode.create_text("y")])
    made.style["touched"] = True
    CaptionSet({"en": CaptionList([made])}).add_style("vandal", {})


def histories(r):
    r.rules.append("documents of every format (SCC pop-on/roll-up/paint-on/mixed, DFXP and SAMI with styles and layouts, WebVTT settings, ...) x reader options: a fresh read against reads "
                   "with a reused reader, after valid and failing reads of other documents, after writes, after the returned set and sets of other reads were edited in every way")
    rng = r.rng("hist")
    writers = None
    from bounded import c09
    for _ in r.loop("histories", r.count(1800, 25000)):
        f, doc, opts, make, read = one_read(rng)
        d = {"reader": f, "options": opts, "doc": doc}
        r.case("histories:" + f, d)
        want = attempt(make, read, doc)
        if isinstance(want, str):
            d["outcome"] = want[:150]
        rd = make()
        hist = []
        kept = None
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < .35:
                g, doc2 = docs.one(rng, f)
            elif x < .55:
                g, doc2 = f, rng.choice(BAD)
            elif x < .7:
                g, doc2 = f, doc[:rng.randrange(len(doc) + 1)]
            else:
                g, doc2 = f, doc
            hist.append([g, doc2])
            try:
                s = read(rd if rng.random() < .7 else make(), doc2)
                if rng.random() < .4:
                    _, _, m2, w2 = c09.one_writer(rng)
                    c09.attempt(w2, m2(), s)
                if rng.random() < .5:
                    vandalise(s, rng)
                else:
                    kept = (s, gen.dump(s))
            except Exception:
                pass
        d["history"] = hist
        if attempt(lambda: rd, read, doc) != want:
            r.fail(f + ":reused reader", "a used reader returns something else than a fresh one", d)
            continue
        if attempt(make, read, doc) != want:
            r.fail(f + ":later read", "a later read returns something else", d)
            continue
        if kept and gen.dump(kept[0]) != kept[1]:
            r.fail(f + ":isolation", "a caption set changed when others were read, written or edited", d)
        if isinstance(want, str):
            continue
        a, b = read(rd, doc), read(rd, doc)
        ra, rb = reach(a, {}), reach(b, {})
        both = [k for k in ra if k in rb and isinstance(ra[k][0], MUT)]
        if both:
            r.fail(f + ":shared", "two reads share %s (%s)" % (type(ra[both[0]][0]).__name__, ra[both[0]][1]), d)
        vandalise(b, rng)
        if gen.dump(a) != want:
            r.fail(f + ":isolation", "editing one set changed the set of another read", d)


def api_sets(r):
    r.rules.append("captions and caption sets built with default arguments share nothing")
    for k in range(3):
        r.case("defaults", k)
        a, b = Caption(0, 1, [CaptionNode.create_text("a")]), Caption(0, 1, [CaptionNode.create_text("b")])
        a.style["x"] = 1
        if b.style or Caption(0, 1, [CaptionNode.create_text("c")]).style:
            r.fail("defaults:Caption.style", "captions share their default style", {})
        s, t = CaptionSet({"en": CaptionList([b])}), CaptionSet({"en": CaptionList([b])})
        s.add_style("x", {})
        if t.get_styles() or CaptionSet({"en": []}).get_styles():
            r.fail("defaults:CaptionSet.styles", "caption sets share their default styles", {})


def hash_seeds(r):
    from bounded import c09
    c09.hash_seeds(r, "read")


CASES = [api_sets, hash_seeds, histories]
