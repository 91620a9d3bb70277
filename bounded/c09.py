"""C09: writing leaves a deep snapshot unchanged (also when the writer raises) and is a function of set and options."""
import copy
import hashlib
import json
import os
import subprocess
import sys

from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPWriter, MicroDVDWriter, SAMIWriter, SCCWriter, SRTWriter, WebVTTWriter)
from pycaption.dfxp import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum, VerticalAlignmentEnum)
from bounded import c07, c11, docs, gen

U = list(UnitEnum)


def snapshot(x, seen=None):
    """deep canonical form of everything reachable, with sharing (identity) recorded"""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (int, float, str, bool)):
        return (type(x).__name__, x)
    if isinstance(x, (UnitEnum, HorizontalAlignmentEnum, VerticalAlignmentEnum)):
        return str(x)
    if id(x) in seen:
        return ("seen", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, dict):
        return ("dict", [(snapshot(k, seen), snapshot(v, seen)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v, seen) for v in x], [(k, snapshot(v, seen)) for k, v in sorted(getattr(x, "__dict__", {}).items())])
    if hasattr(x, "__dict__"):
        return (type(x).__name__, [(k, snapshot(v, seen)) for k, v in sorted(x.__dict__.items())])
    return repr(x)


def size(rng, absolute):
    u = rng.choice(U) if rng.random() < absolute else UnitEnum.PERCENT
    return Size(rng.choice([rng.randint(0, 60), rng.randint(0, 600) / 10]), u)


def rlayout(rng, absolute):
    s = lambda: size(rng, absolute)
    return Layout(Point(s(), s()) if rng.random() < .6 else None, Stretch(s(), s()) if rng.random() < .6 else None,
                  Padding(s(), s(), s(), s()) if rng.random() < .5 else None,
                  Alignment(rng.choice(list(HorizontalAlignmentEnum)), rng.choice(list(VerticalAlignmentEnum))) if rng.random() < .6 else None)


def one_set(rng):
    """-> (caption set, description)"""
    x = rng.random()
    if x < .35:
        f, doc = docs.one(rng)
        try:
            return docs.READERS[f]().read(doc), {"read": f, "doc": doc}
        except Exception:
            return one_set(rng)
    cs = c11.build(rng, nested=rng.random() < .3, multi=rng.random() < .2)
    langs = cs.get_languages()
    ab = rng.choice([0, 0, .05, .5])
    if rng.random() < .5:
        for lang in langs:
            if rng.random() < .4:
                cs.set_layout_info(lang, rlayout(rng, ab))
            for c in cs.get_captions(lang):
                if rng.random() < .3:
                    c.layout_info = rlayout(rng, ab)
                if rng.random() < .3:
                    c.style = {"class": rng.choice(["it", "none", langs[0]]), "italics": True, "text-align": "left"}
                for n in c.nodes:
                    if rng.random() < .1:
                        n.layout_info = rlayout(rng, ab)
        if rng.random() < .3:
            cs.layout_info = rlayout(rng, ab)
    if rng.random() < .4:
        # shared style dictionaries, styles with a language, captions of equal times
        shared = {"lang": langs[0], "color": "red"}
        cs.set_styles(dict(cs.get_styles(), **{"p": shared, "cls": shared, "fr": {"lang": "fr", "text-align": "center"}}))
    for lang in langs:
        cl = cs.get_captions(lang)
        if len(cl) > 1 and rng.random() < .4:
            cl[1].start, cl[1].end = cl[0].start, cl[0].end
        if len(cl) > 1 and rng.random() < .2:
            cl[1].style = cl[0].style                   # one dictionary for two captions
            cl[1].nodes = cl[0].nodes
    if rng.random() < .08:
        # inputs a writer refuses half-way
        c = rng.choice(cs.get_captions(rng.choice(langs)))
        how = rng.choice(["end", "text", "type"])
        if how == "end":
            c.end = None
        elif how == "text":
            c.nodes.append(CaptionNode.create_text(None))
        else:
            c.nodes.append(CaptionNode.create_style(True, {"italics": True}))
    if rng.random() < .05:
        cs.set_captions("de", CaptionList())
    return cs, c11.describe(cs)


def one_writer(rng):
    """-> (name, make a writer, write(writer, set))"""
    name = rng.choice(["srt", "vtt", "vtt", "dfxp", "dfxp", "legacy", "single", "sami", "sami", "microdvd", "scc"])
    kw = {}
    if name in ("vtt", "dfxp", "single", "sami"):
        kw = dict(relativize=rng.random() < .7, fit_to_screen=rng.random() < .6, video_width=rng.choice([None, 640, 1920]), video_height=rng.choice([None, 360, 1080]))
    lang = rng.choice([None, "en-US", "fr", "xx"])
    pos = rlayout(rng, 0)
    inline = rng.random() < .3
    make = {"srt": lambda: SRTWriter(**kw), "vtt": lambda: WebVTTWriter(**kw), "dfxp": lambda: DFXPWriter(write_inline_positioning=inline, **kw), "legacy": lambda: LegacyDFXPWriter(),
            "single": lambda: SinglePositioningDFXPWriter(copy.deepcopy(pos), **kw), "sami": lambda: SAMIWriter(**kw), "microdvd": lambda: MicroDVDWriter(), "scc": lambda: SCCWriter()}[name]

    def write(w, cs):
        if name == "vtt":
            return w.write(cs, lang) if lang else w.write(cs)
        if name in ("dfxp", "legacy", "single"):
            return w.write(cs, lang) if lang else w.write(cs)
        return w.write(cs)
    return name, {"writer": name, "options": kw, "lang": lang, "inline": inline, "pos": repr(pos) if name == "single" else None}, make, write


def attempt(write, w, cs):
    try:
        return write(w, cs)
    except Exception as e:
        return "raised %s: %s" % (type(e).__name__, e)


def writers(r):
    r.rules.append("sets read from every format and API-built sets (balanced/nested/unbalanced nodes, shared dictionaries and node lists, absolute and relative layouts at every level, "
                   "values a writer refuses) x every writer and random options: deep snapshot before and after; same writer again, fresh writer, after other sets and other writers, on a deep copy")
    rng = r.rng("writers")
    other = None
    for _ in r.loop("writers", r.count(1600, 25000)):
        cs, d = one_set(rng)
        name, opts, make, write = one_writer(rng)
        d = dict(d, **opts)
        r.case("writers:" + name, d)
        before = snapshot(cs)
        w = make()
        first = attempt(write, w, cs)
        d["outcome"] = first[:200] if isinstance(first, str) else repr(first)
        if snapshot(cs) != before:
            r.fail(name + ":input changed", "writing changed the caption set%s" % (" although it raised" if first.startswith("raised") else ""), d)
            continue
        if attempt(write, w, cs) != first:
            r.fail(name + ":same writer", "the second write with the same writer differs", d)
        if other is not None:
            attempt(write, w, other)
            _, _, m2, wr2 = one_writer(rng)
            attempt(wr2, m2(), other)
            attempt(wr2, m2(), cs)
            if attempt(write, w, cs) != first:
                r.fail(name + ":after others", "the write after other sets were written differs", d)
        if attempt(write, make(), cs) != first:
            r.fail(name + ":fresh writer", "a fresh writer writes something else", d)
        if attempt(write, make(), copy.deepcopy(cs)) != first:
            r.fail(name + ":copy", "a deep copy of the set is written differently", d)
        if snapshot(cs) != before:
            r.fail(name + ":input changed later", "a later write changed the caption set", d)
        other = cs


def digests(seed, n, kind):
    """run in a subprocess: digests of the results of n generated cases"""
    import random
    from bounded import c10
    out = []
    rng = random.Random("hash/%s/%s" % (kind, seed))
    for _ in range(n):
        if kind == "write":
            cs, d = one_set(rng)
            name, opts, make, write = one_writer(rng)
            res = attempt(write, make(), cs)
            out.append([name, hashlib.sha1(res.encode("utf-8", "surrogatepass")).hexdigest()])
        else:
            f, doc, opts, make, read = c10.one_read(rng)
            out.append([f, hashlib.sha1(repr(c10.attempt(make, read, doc)).encode("utf-8", "surrogatepass")).hexdigest()])
    return out


def in_process(seed, n, kind, hashseed):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = ("import sys,json,logging,warnings;warnings.simplefilter('ignore');logging.disable(50);sys.path[:0]=%r;sys.dont_write_bytecode=True\n"
            "from bounded import c09;import cssutils;cssutils.log.setLevel(50)\nprint(json.dumps(c09.digests(%d,%d,%r)))" % (
                [os.environ.get("PYCAPTION_REPO", "/repo"), here], seed, n, kind))
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), timeout=600)
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    return json.loads(p.stdout.splitlines()[-1])


def hash_seeds(r, kind="write"):
    n = r.count(250, 2500)
    r.rules.append("%d generated cases in processes with hash seeds 0, 1, 2 and 12345: identical results" % n)
    base = in_process(r.seed, n, kind, 0)
    for hs in (1, 2, 12345)[:r.count(2, 3)]:
        got = in_process(r.seed, n, kind, hs)
        for k, (a, b) in enumerate(zip(base, got)):
            r.case("hash seed", [kind, hs, k])
            if a != b:
                r.fail("%s:hash seed" % a[0], "case %d of seed %d differs between PYTHONHASHSEED 0 and %d" % (k, r.seed, hs), {"case": k, "kind": kind})


CASES = [hash_seeds, writers]
