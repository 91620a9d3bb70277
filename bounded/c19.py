import itertools
from bounded import gen
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.base import merge_concurrent_captions


def build(rng, spans, style=False, edges=False):
    caps = []
    for k, (s, e) in enumerate(spans):
        nodes = []
        for j in range(rng.randint(1, 3)):
            if j:
                nodes.append(CaptionNode.create_break())
            nodes.append(CaptionNode.create_text("t%d.%d" % (k, j)))
        if edges and rng.random() < .4:
            # node lists as readers return them: breaks at the edges, doubled breaks, empty texts, nothing but a break
            nodes = rng.choice([lambda: nodes + [CaptionNode.create_break()], lambda: [CaptionNode.create_break()] + nodes,
                                lambda: [CaptionNode.create_break()], lambda: [CaptionNode.create_text("")],
                                lambda: nodes + [CaptionNode.create_break(), CaptionNode.create_break()] + nodes,
                                lambda: nodes + [CaptionNode.create_text("")]])()
        if style:
            nodes = [CaptionNode.create_style(True, {"italics": True})] + nodes + [CaptionNode.create_style(False, {"italics": True})]
        caps.append(Caption(s, e, nodes, style={}))
    return caps


def snap(cs):
    return {l: [(c.start, c.end, [id(n) for n in c.nodes]) for c in cs.get_captions(l)] for l in cs.get_languages()}


def adjust(r):
    r.rules.append("adjust_caption_timing: random lists in 1-3 languages x skew x offset; expectation computed from the snapshot")
    rng = r.rng("adjust")
    for i in r.loop("adjust", r.count(3000, 50000)):
        langs = ["en", "fr", "de"][:rng.randint(1, 3)]
        cs = CaptionSet({l: CaptionList(build(rng, [(rng.randint(0, 20) * 1000000, rng.choice([rng.randint(20, 40), rng.randint(0, 40)]) * 1000000)
                                                     for _ in range(rng.randint(0, 5))])) for l in langs}, styles={})
        skew = rng.choice([1.0, 1, 2.0, 0.5, 1.25, 0, 1.001])
        off = rng.choice([0, 1000000, -1000000, -5000000, -100000000, 5, -10000000])
        before = {l: [(c, c.start, c.end, list(c.nodes), c.style, c.layout_info) for c in cs.get_captions(l)] for l in langs}
        kw = {}
        if rng.random() < .8:
            kw["offset"] = off
        else:
            off = 0
        if rng.random() < .8:
            kw["rate_skew"] = skew
        else:
            skew = 1.0
        r.case("adjust", ([len(before[l]) for l in langs], skew, off, [x[1:3] for x in before[langs[0]]]), any(before.values()))
        cs.adjust_caption_timing(**kw)
        data = {"before": {l: [b[1:3] for b in before[l]] for l in langs}, "skew": skew, "offset": off,
                "after": {l: [(c.start, c.end) for c in cs.get_captions(l)] for l in cs.get_languages()}}
        if cs.get_languages() != langs:
            r.fail("adjust-langs", "languages changed", data)
            continue
        for l in langs:
            want = [(s * skew + off, e * skew + off, ns) for _, s, e, ns, _, _ in before[l] if s * skew + off >= 0]
            got = [(c.start, c.end, list(c.nodes)) for c in cs.get_captions(l)]
            if len(want) != len(got) or any(abs(a[0] - b[0]) > 1e-3 or abs(a[1] - b[1]) > 1e-3 or len(a[2]) != len(b[2])
                                            or any(x is not y for x, y in zip(a[2], b[2])) for a, b in zip(want, got)):
                r.fail("adjust", "adjusted captions differ from t*skew+offset / dropped set", data)


def merging(r):
    r.rules.append("merge_concurrent_captions: every sequence of <=5 captions over 3 time spans (2 languages), plus random longer ones")
    spans = [(0, 1000), (0, 2000), (1000, 2000)]
    rng = r.rng("merge")
    seqs = [list(t) for n in range(0, 6) for t in itertools.product(spans, repeat=n)]
    for i in range(r.count(300, 5000)):
        seqs.append([rng.choice(spans + [(1000, 1000), (0.0, 1000.0), (0, 1000)]) for _ in range(rng.randint(6, 14))])
    for k, seq in enumerate(seqs):
        cs = CaptionSet({"en": CaptionList(build(rng, seq, style=k % 3 == 0, edges=k % 2)), "fr": CaptionList(build(rng, seq[::-1], edges=k % 5 == 0))}, styles={})
        before = {l: [(c.start, c.end, list(c.nodes)) for c in cs.get_captions(l)] for l in ("en", "fr")}
        r.case("merge", seq, len(seq) > 1)
        out = merge_concurrent_captions(cs)
        for l in ("en", "fr"):
            want = []
            for key, grp in itertools.groupby(before[l], key=lambda c: (c[0], c[1])):
                want.append((key, [c[2] for c in grp]))
            got = out.get_captions(l)
            data = {"spans": seq, "lang": l, "got": [(c.start, c.end, [repr(n) for n in c.nodes]) for c in got]}
            if [(c.start, c.end) for c in got] != [w[0] for w in want]:
                r.fail("merge-runs", "merged captions are not the maximal runs", data)
                continue
            for c, (key, groups) in zip(got, want):
                if not same_nodes(c.nodes, groups):
                    r.fail("merge-nodes", "nodes of a merged run are not the run's nodes in order separated by breaks", data)
        s1 = [(l, c.start, c.end, [(n.type_, n.content) for n in c.nodes]) for l in ("en", "fr") for c in out.get_captions(l)]
        out2 = merge_concurrent_captions(out)
        s2 = [(l, c.start, c.end, [(n.type_, n.content) for n in c.nodes]) for l in ("en", "fr") for c in out2.get_captions(l)]
        if s1 != s2:
            r.fail("merge-idempotent", "merging again changed something", {"spans": seq, "first": s1, "second": s2})


def same_nodes(nodes, groups):
    i = 0
    for k, g in enumerate(groups):
        if k:
            if i >= len(nodes) or nodes[i].type_ != CaptionNode.BREAK:
                return False
            i += 1
        for n in g:
            if i >= len(nodes) or (nodes[i].type_, nodes[i].content, nodes[i].start) != (n.type_, n.content, n.start):
                return False
            i += 1
    return i == len(nodes)


CASES = [adjust, merging]
