from bounded import gen
import itertools
from fractions import Fraction
from pycaption.geometry import *
from pycaption.exceptions import CaptionReadSyntaxError

UNITS = list(UnitEnum)
GRAM = __import__("re").compile(r"(?:(?:[0-9]+(?:\.[0-9]+)?)(?:px|em|%|c|pt)|0)\Z")


def grammar(r):
    r.rules.append("every string of length<=4 over a 12-letter alphabet, plus mutations of valid sizes, against the size grammar")
    alpha = "0" "5" "." "p" "x" "%" "c" " " "-" "\n" "e" "m"
    n = r.count(4, 5)
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            s = "".join(t)
            check_size(r, s)
    rng = r.rng("sizes")
    for i in r.loop("sizes", r.count(4000, 60000)):
        s = "%d" % rng.randint(0, 10 ** rng.randint(1, 9))
        if rng.random() < .6:
            s += "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 8)))
        s += rng.choice(["px", "em", "%", "c", "pt", "", "pxx", "PX", " px", "px ", "in"])
        if rng.random() < .3:
            k = rng.randrange(len(s) + 1)
            s = s[:k] + rng.choice("+- .e\t\n0") + s[k:]
        check_size(r, s)


def check_size(r, s):
    r.case("grammar", s, True)
    ok = bool(GRAM.match(s))
    loose = bool(__import__("re").fullmatch(r"(\d*\.?\d*(px|em|%|c|pt))|\d", s)) and any(c.isdigit() for c in s)
    try:
        v = Size.from_string(s)
    except CaptionReadSyntaxError:
        if ok:
            r.fail("size-grammar", "valid size rejected", {"text": s})
        return
    except Exception as e:
        if not loose:
            r.fail("size-grammar-exc", "from_string raised %r instead of the syntax error" % e, {"text": s})
        return
    if not ok:
        if not loose:
            r.fail("size-grammar", "invalid size accepted as %r" % v, {"text": s})
        return
    num = s.rstrip("pxemc%t") if s != "0" else "0"
    if abs(Fraction(v.value) - Fraction(num)) > Fraction(num) / 10 ** 12 or (s != "0" and v.unit.value != s[len(num):]):
        r.fail("size-value", "size parsed to the wrong value", {"text": s, "got": repr(v)})


def printing(r):
    r.rules.append("printing: sizes k/1000 in all units; print, re-parse, print")
    rng = r.rng("print")
    for i in r.loop("print", r.count(6000, 80000)):
        u = rng.choice(UNITS)
        v = rng.choice([rng.randint(0, 200000) / 1000, rng.random() * 10 ** rng.randint(-4, 5), rng.randint(0, 500), rng.randint(0, 9) / 1000,
                        rng.randint(0, 20000) / 100])
        a = Size(v, u)
        s = str(a)
        r.case("print", (v, u.value), True)
        try:
            b = Size.from_string(s)
        except Exception as e:
            r.fail("print-reparse", "printed size does not parse: %r" % e, {"value": v, "unit": u.value, "printed": s})
            continue
        if b.unit is not u or abs(b.value - v) > 0.005 + 1e-9 * max(1, v) or abs(round(b.value * 100) - b.value * 100) > 1e-6 * max(1, v):
            r.fail("print-round", "printing is not the two-decimal rounding", {"value": v, "unit": u.value, "printed": s})
        if str(b) != s or a.to_xml_attribute() != s or Size.from_string(s) != b or hash(Size.from_string(s)) != hash(b):
            r.fail("print-stable", "re-parsing a printed value does not reproduce it", {"value": v, "unit": u.value, "printed": s})


def values(r):
    r.rules.append("equality/hash: all pairs of a pool of points, stretches, paddings, alignments, layouts built from 3 sizes")
    sizes = [("10%", 10.0), ("10px", 10.0), ("20%", 20.0)]
    S = [s for s, _ in sizes]

    def mk(s):
        return Size.from_string(s)
    P = list(itertools.product(S, S))
    pools = {"size": [(s,) for s in S], "point": P, "stretch": P, "padding": list(itertools.product(S[:2], repeat=4)),
             "alignment": list(itertools.product([None] + list(HorizontalAlignmentEnum), [None] + list(VerticalAlignmentEnum)))}
    ctor = {"size": lambda k: mk(k[0]), "point": lambda k: Point(mk(k[0]), mk(k[1])), "stretch": lambda k: Stretch(mk(k[0]), mk(k[1])),
            "padding": lambda k: Padding(*[mk(x) for x in k]), "alignment": lambda k: Alignment(*k)}
    lay = []
    for o in [None] + P[:4]:
        for e in [None] + P[:3]:
            for p in [None] + pools["padding"][:3]:
                for a in [None] + pools["alignment"][1:4]:
                    lay.append((o, e, p, a))
    pools["layout"] = lay
    ctor["layout"] = lambda k: Layout(*[None if x is None else ctor[n](x) for n, x in zip(("point", "stretch", "padding", "alignment"), k)])
    for name, pool in pools.items():
        objs = [(k, ctor[name](k)) for k in pool]
        again = [(k, ctor[name](k)) for k in pool]
        for k1, a in objs:
            for k2, b in again:
                r.case("eq-" + name, (k1, k2), True, sample=repr((k1, k2)))
                if bool(a == b) != (k1 == k2) or bool(a != b) != (k1 != k2):
                    r.fail("eq-" + name, "%s equality is not component equality" % name, {"a": repr(k1), "b": repr(k2)})
                if k1 == k2 and hash(a) != hash(b):
                    r.fail("hash-" + name, "equal %ss hash differently" % name, {"a": repr(k1)})
        for k1, a in objs:
            for other in (None, 0, "x", (), Size(1, UnitEnum.PIXEL)):
                if name == "size":
                    continue
                if bool(a == other):
                    r.fail("eq-type-" + name, "%s equals a value of another type" % name, {"a": repr(k1), "b": repr(other)})


def methods(r):
    r.rules.append("as_percentage_of / fit_to_screen on random layouts: deep snapshot of the receiver before and after")
    rng = r.rng("methods")
    for i in r.loop("methods", r.count(1500, 20000)):
        def sz(lo=0, hi=80):
            return Size(rng.randint(lo, hi) + rng.choice([0, .5]), rng.choice(UNITS))
        l = Layout(Point(sz(), sz()) if rng.random() < .7 else None, Stretch(sz(), sz()) if rng.random() < .7 else None,
                   Padding(sz(), sz(), sz(), sz()) if rng.random() < .5 else None,
                   Alignment(HorizontalAlignmentEnum.LEFT, None) if rng.random() < .5 else None,
                   webvtt_positioning=rng.choice([None, "line:5%"]))
        before = gen.dump_layout(l)
        ids = [id(l.origin), id(l.extent), id(l.padding)]
        r.case("methods", before, True)
        w = None
        for f in (lambda: l.as_percentage_of(rng.choice([640, None]), rng.choice([360, None])), lambda: l.fit_to_screen(),
                  lambda: l.as_percentage_of(640, 360).fit_to_screen()):
            try:
                w = f()
            except Exception:
                pass
            if gen.dump_layout(l) != before or ids != [id(l.origin), id(l.extent), id(l.padding)]:
                r.fail("mutates", "relativizing or fitting modified its receiver", {"before": before, "after": gen.dump_layout(l)})
        if l.origin is not None:
            v = l.as_percentage_of(640, 360)
            if v is l:
                r.fail("same-object", "as_percentage_of returned the receiver", {"layout": before})


def shorthand(r):
    r.rules.append("padding shorthand: all tuples of 1-4 sizes over 5 values")
    vals = ["1px", "2%", "3em", "4c", "5.25pt"]
    for n in range(1, 5):
        for t in itertools.product(vals, repeat=n):
            p = Padding.from_xml_attribute(" ".join(t))
            idx = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[n]
            want = [Size.from_string(t[i]) for i in idx]
            got = [p.before, p.end, p.after, p.start]
            r.case("shorthand", t, True)
            if want != got:
                r.fail("shorthand", "padding shorthand expanded in the wrong order", {"attribute": " ".join(t), "got": repr(p)})
            q = Padding.from_xml_attribute(p.to_xml_attribute())
            if q != p:
                r.fail("padding-print", "printed padding does not re-parse", {"attribute": " ".join(t), "printed": p.to_xml_attribute()})
    for a, b in itertools.product(vals, repeat=2):
        for cls in (Point, Stretch):
            v = cls.from_xml_attribute("%s %s" % (a, b))
            x, y = (v.x, v.y) if cls is Point else (v.horizontal, v.vertical)
            r.case("two-dim", (cls.__name__, a, b))
            if x != Size.from_string(a) or y != Size.from_string(b) or cls.from_xml_attribute(v.to_xml_attribute()) != v:
                r.fail("two-dim", "%s attribute" % cls.__name__, {"attribute": "%s %s" % (a, b), "got": repr(v)})


CASES = [grammar, printing, values, methods, shorthand]
