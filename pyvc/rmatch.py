"""Python regex matching on ropes: every backtracking decision is settled by language inclusion."""
import re
from functools import lru_cache

import z3

from . import lang as L
from .lang import sre_c, sre_parse, ANY, BEGIN, END, N, Lang, NFA
from .sym import Dec, Img, Rope, Unsupported, Word, rope, parts_of


class SMatch:
    """Groups are computed on first use: most callers only ask whether there was a match."""

    def __init__(self, compute, names):
        self.compute, self.names, self.done = compute, names, None

    @property
    def g(self):
        if self.done is None:
            self.done = self.compute()
        return self.done[0]

    @property
    def whole(self):
        self.g
        return self.done[1]

    def group(self, k=0):
        if k == 0:
            return self.whole
        if isinstance(k, str):
            k = self.names[k]
        return self.g.get(k)

    def groups(self, default=None):
        n = self.g["n"]
        return tuple(self.g.get(i, default) if self.g.get(i) is not None else default for i in range(1, n + 1))


def to_ir(p, flags):
    """sre tree -> tuple of nodes"""
    out = []
    for op, av in p:
        if op is sre_c.LITERAL:
            out.append(("set", L._single(av, flags)))
        elif op is sre_c.NOT_LITERAL:
            out.append(("set", frozenset(ANY) - L._single(av, flags)))
        elif op is sre_c.ANY:
            out.append(("set", frozenset(ANY) if flags & re.DOTALL else frozenset(ANY) - L.A.chars("\n")))
        elif op is sre_c.IN:
            out.append(("set", L._set_of(av, flags)))
        elif op is sre_c.BRANCH:
            out.append(("alt", tuple(to_ir(x, flags) for x in av[1])))
        elif op is sre_c.SUBPATTERN:
            body = to_ir(av[3], (flags | av[1]) & ~av[2])
            if av[0] is not None:
                out.append(("mark", av[0], 0))
                out += list(body)
                out.append(("mark", av[0], 1))
            else:
                out += list(body)
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, x = av
            out.append(("rep", to_ir(x, flags), lo, None if hi is sre_c.MAXREPEAT else hi, op is sre_c.MAX_REPEAT))
        elif op is sre_c.AT:
            if flags & re.MULTILINE:
                raise L.RegexUnsupported("multiline")
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                out.append(("begin",))
            elif av is sre_c.AT_END:
                out.append(("end",))
            elif av is sre_c.AT_END_STRING:
                out.append(("endz",))
            else:
                raise L.RegexUnsupported(str(av))
        else:
            raise L.RegexUnsupported(str(op))
    return tuple(out)


def ir_ast(nodes):
    out = []
    for n in nodes:
        if n[0] == "set":
            out.append(("set", n[1]))
        elif n[0] == "alt":
            out.append(("alt", [ir_ast(x) for x in n[1]]))
        elif n[0] == "rep":
            out.append(("rep", ir_ast(n[1]), n[2], n[3]))
        elif n[0] == "begin":
            out.append(("set", frozenset([BEGIN])))
        elif n[0] == "end":
            out.append(("cat", [("rep", ("set", L.A.chars("\n")), 0, 1), ("set", frozenset([END]))]))
        elif n[0] == "endz":
            out.append(("set", frozenset([END])))
    return ("cat", out)


@lru_cache(maxsize=2048)
def cont_lang(nodes, at_start, full):
    body = ir_ast(nodes)
    b, e = ("set", frozenset([BEGIN])), ("set", frozenset([END]))
    anys = ("rep", ("set", frozenset(ANY) | {BEGIN, END}), 0, None)
    # `$` consumes the END marker: optional trailing marker consumption
    items = ([("rep", b, 0, 1)] if at_start else []) + [body] + ([("rep", e, 0, 1)] if full else [anys])
    nfa = NFA()
    s, t = L.build(nfa, ("cat", items))
    trans, acc = nfa.determinize(s, t, list(range(N)) + [BEGIN, END])
    start = trans[0][BEGIN] if at_start else 0
    acc2 = [q for q in range(len(trans)) if trans[q][END] in acc or (not full and q in acc)]
    return Lang([[row[a] for a in range(N)] for row in trans], acc2, start).minimize()


def suffixes(X):
    """all suffixes of words of X"""
    live = X.live()
    start = frozenset(q for q in X.reach() if q in live)
    ids, trans, acc, todo = {start: 0}, [None], [], [start]
    while todo:
        Sx = todo.pop()
        row = []
        for a in range(N):
            T = frozenset(X.trans[q][a] for q in Sx)
            if T not in ids:
                ids[T] = len(trans)
                trans.append(None)
                todo.append(T)
            row.append(ids[T])
        trans[ids[Sx]] = row
        if Sx & X.acc:
            acc.append(ids[Sx])
    return Lang(trans, acc).minimize()


class Matcher:
    def __init__(self, it, full):
        self.it, self.full = it, full

    def lang(self, ps):
        return L.cat(*[L.literal(p) if isinstance(p, str) else p.lang() for p in ps])

    def can(self, nodes, ps, at_start):
        """Does the continuation match at the front of ps? True / False, refining a word if needed."""
        X = cont_lang(nodes, at_start, self.full)
        lg = self.lang(ps)
        if lg.subset(X):
            return True
        if lg.disjoint(X):
            return False
        from . import models
        r = Rope(ps)
        return models.decide_lang(self.it, r, X)

    def head(self, ps):
        """Resolve words; make the first part definitely non-empty (or ps empty)."""
        from . import models
        ps = parts_of(Rope(ps))
        while ps and not isinstance(ps[0], str) and models.part_min(ps[0]) == 0:
            if not isinstance(ps[0], Word):
                raise Unsupported("possibly empty part in a regex match")
            models.decide_lang(self.it, Rope([ps[0]]), L.TOP - L.EPS)
            ps = parts_of(Rope(ps))
        return ps

    def take1(self, ps):
        ps = self.head(ps)
        if not ps:
            raise Unsupported("regex: empty rest")
        p = ps[0]
        if isinstance(p, str):
            return p[0], parts_of(rope(p[1:], *ps[1:]))
        if isinstance(p, Dec):
            ds = p.explode()
            if ds is None:
                raise Unsupported("regex through an unbounded number")
            if len(ds) == 1:
                return ds[0], ps[1:]
            return ds[0], ds[1:] + ps[1:]
        if isinstance(p, Word):
            if p.hi == 1:
                return p, ps[1:]
            if p.lo == p.hi:
                cs = p.explode_to(p.lo)
                return cs[0], cs[1:] + ps[1:]
            if self.it.ctx.branch(p.length() == 1):
                c = p.explode_to(1)[0]
                return c, ps[1:]
            cs = p.split_prefix(1)
            return cs[0], cs[1:] + ps[1:]
        raise Unsupported("regex through a transduced word")

    def run(self, nodes, ps):
        self.consumed, self.marks = [], {}
        self.at_start = True
        ps = list(ps)
        while nodes:
            n, tail = nodes[0], nodes[1:]
            k = n[0]
            if k == "mark":
                self.marks[(n[1], n[2])] = len(self.consumed)
                nodes = tail
            elif k in ("begin", "end", "endz"):
                nodes = tail
            elif k == "set":
                c, ps = self.take1(ps)
                self.consumed.append(c)
                self.at_start = False
                nodes = tail
            elif k == "alt":
                for alt in n[1]:
                    if self.can(alt + tail, ps, self.at_start):
                        nodes = alt + tail
                        ps = parts_of(Rope(ps))
                        break
                    ps = parts_of(Rope(ps))
                else:
                    raise Unsupported("regex: no alternative")
            elif k == "rep":
                nodes, ps = self.rep(n, tail, ps)
            else:
                raise Unsupported(k)
        return ps

    def rep(self, n, tail, ps):
        _, sub, lo, hi, greedy = n
        ps = parts_of(Rope(ps))
        single = len(sub) == 1 and sub[0][0] == "set"
        more = sub + (("rep", sub, max(0, lo - 1), None if hi is None else hi - 1, greedy),) + tail
        if hi == 0:
            return tail, ps
        if single and hi is None and ps and not isinstance(ps[0], str):
            ps = self.head(ps)
        if single and hi is None and ps and isinstance(ps[0], (Word, Img, Dec)):
            from . import models
            p = ps[0]
            cs = sub[0][1]
            if models.charset_of(p) <= cs and lo <= models.part_min(p):
                rest = ps[1:]
                nn = (("rep", sub, 0, None, greedy),) + tail
                if greedy:
                    X = cont_lang(nn, False, self.full)
                    lg = self.lang(rest)
                    if lg.subset(X):
                        self.consumed.append(p)
                        self.at_start = False
                        return nn, rest
                else:
                    X = cont_lang(tail, self.at_start, self.full)
                    w = suffixes(p.lang()) - L.EPS
                    if lo == 0 or True:
                        if L.cat(w, self.lang(rest)).disjoint(X):
                            self.consumed.append(p)
                            self.at_start = False
                            return nn, rest
                    if lo == 0 and L.cat(p.lang(), self.lang(rest)).subset(X):
                        return tail, ps
                    raise Unsupported("lazy repeat through a word")
        stop = lo == 0
        if greedy:
            if not stop:
                return more, ps
            if self.can(more, ps, self.at_start):
                return more, parts_of(Rope(ps))
            return tail, parts_of(Rope(ps))
        if stop and self.can(tail, ps, self.at_start):
            return tail, parts_of(Rope(ps))
        return more, parts_of(Rope(ps))


def match(it, pat, mode, subj):
    from . import models
    try:
        X = L.regex_lang(pat.pattern, pat.flags, mode)
        tree = sre_parse.parse(pat.pattern, pat.flags)
        nodes = to_ir(tree, tree.state.flags)
    except L.RegexUnsupported as e:
        raise Unsupported("regex: %s" % e)
    if not models.decide_lang(it, subj, X):
        return None
    return SMatch(lambda: groups_of(it, pat, mode, subj, nodes), dict(pat.groupindex))


def groups_of(it, pat, mode, subj, nodes):
    return matched(it, pat, mode, parts_of(subj), nodes)[1:3]


def matched(it, pat, mode, ps, nodes, first=True):
    """-> (parts before the match, groups, whole match, parts after it); a match is known to exist"""
    full = mode == "fullmatch"
    m = Matcher(it, full)
    skipped = []
    if mode == "search" and not (nodes and nodes[0][0] == "begin"):
        # leftmost start position
        while True:
            ps = m.head(ps) if ps else ps
            Xc = cont_lang(nodes, first, False)
            lg = m.lang(ps)
            if lg.subset(Xc):
                break
            if not lg.disjoint(Xc):
                raise Unsupported("regex search: uncertain start")
            if not ps:
                raise Unsupported("regex search: no start")
            if isinstance(ps[0], Word) and not (ps[0].lo == ps[0].hi):
                suf = suffixes(ps[0].lang()) - L.EPS
                if L.cat(suf, m.lang(ps[1:])).disjoint(cont_lang(nodes, False, False)):
                    skipped.append(ps[0])
                    ps = ps[1:]
                    first = False
                    continue
                raise Unsupported("regex search inside a word")
            c, ps = m.take1(ps)
            skipped.append(c)
            first = False
    if not m.can(nodes, ps, first):
        raise Unsupported("regex: inconsistent decision")
    ps = parts_of(Rope(ps))
    rest = m.run(nodes, ps)
    groups = {"n": pat.groups}
    for g in range(1, pat.groups + 1):
        if (g, 0) in m.marks and (g, 1) in m.marks:
            groups[g] = rope(*m.consumed[m.marks[(g, 0)]:m.marks[(g, 1)]])
        else:
            groups[g] = None
    return skipped, groups, rope(*m.consumed), rest


def find_all(it, pat, subj):
    """Leftmost non-overlapping matches of an unanchored pattern: [(text before, SMatch)], text after the last."""
    from . import models
    try:
        X = L.regex_lang(pat.pattern, pat.flags, "search")
        tree = sre_parse.parse(pat.pattern, pat.flags)
        nodes = to_ir(tree, tree.state.flags)
    except L.RegexUnsupported as e:
        raise Unsupported("regex: %s" % e)
    if L.regex_lang(pat.pattern, pat.flags, "fullmatch").accepts("") or any(n[0] in ("begin", "end", "endz") for n in walk(nodes)):
        raise Unsupported("substitution with an anchored or empty pattern")
    out, ps = [], parts_of(subj)
    for _ in range(60):
        r = rope(*ps)
        if not models.decide_lang(it, r, X):
            return out, rope(*parts_of(r))
        skipped, groups, whole, rest = matched(it, pat, "search", parts_of(r), nodes, first=False)
        m = SMatch(None, dict(pat.groupindex))
        m.done = (groups, whole)
        out.append((rope(*skipped), m))
        ps = list(rest)
    raise Unsupported("too many matches")


def walk(nodes):
    for n in nodes:
        yield n
        if n[0] == "alt":
            for x in n[1]:
                yield from walk(x)
        elif n[0] == "rep":
            yield from walk(n[1])
