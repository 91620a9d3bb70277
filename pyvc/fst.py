"""Functional (deterministic, subsequential) string transducers over Unicode.

delta[q][a] = (q', out) with out a tuple of items; an item is a concrete character or COPY
(the input character itself).  final[q] = trailing output.  Letters are the classes of
lang.A; COPY keeps coarse classes exact.
"""
from functools import lru_cache
from .lang import A, N, Lang, NFA, TOP

COPY = object()


class FST:
    def __init__(self, delta, final, start=0):
        self.delta, self.final, self.start = delta, final, start

    def run(self, s):
        q, out = self.start, []
        for c in s:
            q, o = self.delta[q][A.cls(c)]
            out.extend(c if x is COPY else x for x in o)
        f = self.final[q]
        if f is None:
            return None
        return "".join(out) + "".join(f)


IDENT = FST([[(0, (COPY,))] * N], [()])


@lru_cache(maxsize=256)
def replace_fst(pat, rep):
    """str.replace(pat, rep) for a non-empty pattern of ASCII/singleton characters."""
    assert pat
    cls = [A.cls(c) for c in pat]
    assert all(A.is_single(i) for i in cls)
    m = len(pat)
    # KMP; states = number of matched characters (pending, not yet output)
    delta = []
    for k in range(m):
        row = []
        for a in range(N):
            if a == cls[k]:
                if k + 1 == m:
                    row.append((0, tuple(rep)))
                else:
                    row.append((k + 1, ()))
                continue
            # mismatch: longest proper border of pat[:k]+a  (leftmost, non-overlapping: no
            # restart inside a completed match)
            s = list(cls[:k]) + [a]
            j = k
            while j > 0:
                if s[len(s) - j:] == cls[:j]:
                    break
                j -= 1
            emit = len(s) - j
            out = []
            for i in range(emit):
                out.append(COPY if i == k else pat[i])
            row.append((j, tuple(out)))
        delta.append(row)
    final = [tuple(pat[:k]) for k in range(m)]
    return FST(delta, final)


def hom_fst(mapping):
    """Letter homomorphism: {char: string}, identity elsewhere."""
    row = []
    m = {A.cls(c): v for c, v in mapping.items()}
    for a in range(N):
        row.append((0, tuple(m[a]) if a in m else (COPY,)))
    return FST([row], [()])


def hom_classes(m):
    """Letter homomorphism on letters (alphabet indexes)."""
    return FST([[(0, tuple(m[a]) if a in m else (COPY,)) for a in range(N)]], [()])


def compose(f, g):
    """g after f."""
    if not (isinstance(f, FST) and isinstance(g, FST)):
        from . import nft
        return nft.compose(f, g)
    ids, delta, final, todo = {}, [], [], []

    def get(p):
        if p not in ids:
            ids[p] = len(delta)
            delta.append(None)
            final.append(None)
            todo.append(p)
        return ids[p]

    def feed(q, items, a):
        out = []
        for it in items:
            if it is COPY:
                q2, o = g.delta[q][a]
                out.extend(o)
            else:
                q2, o = g.delta[q][A.cls(it)]
                out.extend(it if x is COPY else x for x in o)
            q = q2
        return q, tuple(out)
    get((f.start, g.start))
    while todo:
        p = todo.pop()
        row = []
        cache = {}
        for a in range(N):
            p2, o = f.delta[p[0]][a]
            q2, out = feed(p[1], o, a)
            row.append((get((p2, q2)), out))
        delta[ids[p]] = row
        if f.final[p[0]] is not None:
            q2, out = feed(p[1], f.final[p[0]], None)
            final[ids[p]] = None if g.final[q2] is None else out + tuple(g.final[q2])
    return FST(delta, final)


def image(f, L=TOP):
    """The language f(L)."""
    if not isinstance(f, FST):
        from . import nft
        return nft.image(f, L)
    nfa = NFA()
    ids, todo = {}, []
    fin = nfa.state()

    def get(p):
        if p not in ids:
            ids[p] = nfa.state()
            todo.append(p)
        return ids[p]
    s0 = get((f.start, L.start))
    live = L.live()
    while todo:
        p = todo.pop()
        by = {}
        for a in range(N):
            t = L.trans[p[1]][a]
            if t not in live:
                continue
            q2, out = f.delta[p[0]][a]
            if COPY in out:
                by.setdefault(((q2, t), tuple(A.cls(x) if x is not COPY else -1 for x in out), a if out.count(COPY) > 1 else None),
                              set()).add(a)
            else:
                by.setdefault(((q2, t), tuple(A.cls(x) for x in out), None), set()).add(a)
        for ((to, out, _), letters) in by.items():
            cur = ids[p]
            for x in out:
                n = nfa.state()
                nfa.tr[cur].append((frozenset(letters) if x == -1 else frozenset([x]), n))
                cur = n
            nfa.eps[cur].append(get(to))
        if p[1] in L.acc and f.final[p[0]] is not None:
            cur = ids[p]
            for x in f.final[p[0]]:
                n = nfa.state()
                nfa.tr[cur].append((frozenset([A.cls(x)]), n))
                cur = n
            nfa.eps[cur].append(fin)
    trans, acc = nfa.determinize(s0, fin, range(N))
    return Lang([[row[a] for a in range(N)] for row in trans], acc).minimize()


class Delay(Exception):
    pass


def equivalent(f, g, L=TOP):
    """None if f(x) == g(x) for every x in L, else a witness x."""
    from . import nft
    return nft.equivalent(f, g, L)
