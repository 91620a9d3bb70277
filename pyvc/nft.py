"""Nondeterministic string transducers: re.sub of a general pattern and str.strip as exact functions on all strings.

A transducer maps each state and letter (class of lang.A) to a list of (next state, output items); COPY is the letter itself.
re.sub is a guess-and-check machine: at every position it guesses whether a match starts (and where it ends), and checks the guess
with a run of the pattern's prioritised automaton (ordered thread lists, as in a backtracking matcher): a position that is copied
must not start a match, and a match that ends at one place must not be overridden later by a thread of higher priority.
"""
from functools import lru_cache

from . import fst as F
from . import lang as L
from .fst import COPY, FST
from .lang import A, N, NFA, TOP, Lang


class NFT:
    """delta[q] = {letter: ((q', out), ...)}, final[q] = trailing output or None"""

    def __init__(self, delta, final, start=0):
        self.delta, self.final, self.start = delta, final, start

    def outs(self, s):
        cur = {self.start: {""}}
        for c in s:
            nxt = {}
            for q, os in cur.items():
                for to, o in self.delta[q].get(A.cls(c), ()):
                    t = "".join(c if x is COPY else x for x in o)
                    nxt.setdefault(to, set()).update(x + t for x in os)
            cur = nxt
        return {x + "".join(self.final[q]) for q, os in cur.items() if self.final[q] is not None for x in os}

    def run(self, s):
        r = self.outs(s)
        if len(r) > 1:
            raise ValueError("not a function at %r: %r" % (s, r))
        return r.pop() if r else None


def of(f):
    if isinstance(f, NFT):
        return f
    return NFT([{a: (t,) for a, t in enumerate(row)} for row in f.delta], list(f.final), f.start)


def number(start, step, final):
    """a machine from a start state, step(state) -> {letter: [(state, out)]} and final(state)"""
    ids, todo, delta, fin = {start: 0}, [start], [], []
    while todo:
        p = todo.pop(0)
        row = {}
        for a, ts in step(p).items():
            r = []
            for q, o in ts:
                if q not in ids:
                    ids[q] = len(ids)
                    todo.append(q)
                if (ids[q], o) not in r:
                    r.append((ids[q], o))
            row[a] = tuple(r)
        delta.append(row)
        fin.append(final(p))
        if len(delta) > 4000:
            raise L.RegexUnsupported("transducer too large")
    return trim(NFT(delta, fin))


def trim(f):
    """without states from which no end is reached"""
    back = {}
    for q, row in enumerate(f.delta):
        for ts in row.values():
            for t, _ in ts:
                back.setdefault(t, set()).add(q)
    live = {q for q, x in enumerate(f.final) if x is not None}
    todo = list(live)
    while todo:
        for p in back.get(todo.pop(), ()):
            if p not in live:
                live.add(p)
                todo.append(p)
    keep = sorted(live | {f.start})
    ids = {q: k for k, q in enumerate(keep)}
    delta = [{a: r for a, r in ((a, tuple((ids[t], o) for t, o in ts if t in live)) for a, ts in f.delta[q].items()) if r} for q in keep]
    return NFT(delta, [f.final[q] for q in keep], ids[f.start])


# ---------------------------------------------------------------- re.sub

class Prog:
    """prioritised automaton of a pattern (rmatch.to_ir)"""

    def __init__(self, ir):
        self.code = []
        self.seq(ir)
        self.code.append(("match",))

    def emit(self, *x):
        self.code.append(list(x))
        return len(self.code) - 1

    def seq(self, nodes):
        for n in nodes:
            if n[0] == "set":
                self.emit("set", frozenset(n[1]) - {L.BEGIN, L.END})
            elif n[0] == "mark":
                self.emit("save", n[1], n[2])
            elif n[0] == "alt":
                jumps = []
                for k, x in enumerate(n[1]):
                    if k + 1 < len(n[1]):
                        s = self.emit("split", None, None)
                        self.code[s][1] = len(self.code)
                    self.seq(x)
                    if k + 1 < len(n[1]):
                        jumps.append(self.emit("jump", None))
                        self.code[s][2] = len(self.code)
                for j in jumps:
                    self.code[j][1] = len(self.code)
            elif n[0] == "rep":
                _, x, lo, hi, greedy = n
                if (hi is None or hi > 1) and L.compile_ast(rmatch().ir_ast(tuple(y for y in x if y[0] != "mark"))).accepts(""):
                    raise L.RegexUnsupported("repetition of something that can be empty")
                for _ in range(lo):
                    self.seq(x)
                if hi is None:
                    s = self.emit("split", None, None)
                    b = len(self.code)
                    self.seq(x)
                    self.emit("jump", s)
                    e = len(self.code)
                    self.code[s][1:] = [b, e] if greedy else [e, b]
                else:
                    ss = []
                    for _ in range(hi - lo):
                        s = self.emit("split", None, None)
                        ss.append((s, len(self.code)))
                        self.seq(x)
                    for s, b in ss:
                        self.code[s][1:] = [b, len(self.code)] if greedy else [len(self.code), b]
            else:
                raise L.RegexUnsupported("%s in re.sub" % n[0])

    @lru_cache(maxsize=None)
    def follow(self, pc):
        """the threads at letters or at the match that pc leads to, by priority: (pc, groups opened and closed on the way)"""
        out, seen = [], set()

        def go(pc, marks):
            if pc in seen:
                return
            seen.add(pc)
            op = self.code[pc]
            if op[0] == "jump":
                go(op[1], marks)
            elif op[0] == "split":
                go(op[1], marks)
                go(op[2], marks)
            elif op[0] == "save":
                go(pc + 1, marks + ((op[1], op[2]),))
            else:
                out.append((pc, marks))
        go(pc, ())
        return tuple(out)

    def threads(self, pcs):
        out = []
        for pc in pcs:
            for t, _ in self.follow(pc):
                if t not in out:
                    out.append(t)
        return tuple(out)

    def step(self, ts, a):
        return self.threads([t + 1 for t in ts if self.code[t][0] == "set" and a in self.code[t][1]])

    def is_match(self, t):
        return self.code[t][0] == "match"


def rmatch():
    from . import rmatch as R
    return R


@lru_cache(maxsize=64)
def sub(ir, template):
    """re.sub with a template: a tuple of strings and at most one group number"""
    p = Prog(ir)
    start = p.threads([0])
    if any(p.is_match(t) for t in start):
        raise L.RegexUnsupported("re.sub of a pattern that matches the empty string")
    refs = [x for x in template if isinstance(x, int)]
    if len(refs) > 1:
        raise L.RegexUnsupported("template with several groups")
    group = refs[0] if refs else None
    k = template.index(group) if refs else len(template)
    before, after = "".join(template[:k]), "".join(template[k + 1:])

    def walk(pos, a):
        """one thread followed for the group: (pc, inside) -> [((pc, inside), copied)]; pc at the match: ended"""
        if group is None:
            return [(None, False)]
        out = []
        pc, inside = pos
        if p.code[pc][0] == "set" and a in p.code[pc][1]:
            for t, marks in p.follow(pc + 1):
                out.append(((t, opened(inside, marks)), inside))
        return out

    def opened(inside, marks):
        for g, close in marks:
            if g == group:
                inside = not close
        return inside

    def walks0():
        return [(t, opened(False, marks)) for t, marks in p.follow(0)] if group is not None else [None]

    def step(st):
        row = {}
        for a in range(N):
            ts = []
            S = st[1]
            S1 = frozenset(p.step(sorted(S), a))
            if any(p.is_match(t) for t in S1):
                continue
            if st[0] == "out":
                S2 = S1 | frozenset(p.step(start, a))
                if not any(p.is_match(t) for t in S2):
                    ts.append((("out", S2), (COPY,)))
                T, walks, head = start, walks0(), before
            else:
                T, walks, head = st[2], [st[3]], ""
            T1 = p.step(T, a)
            k = next((i for i, t in enumerate(T1) if p.is_match(t)), None)
            for w in walks:
                for w1, copied in walk(w, a):
                    out = tuple(head) + ((COPY,) if copied else ())
                    ended = w1 is None or p.is_match(w1[0])
                    if k is not None and ended:
                        ts.append((("out", S1 | frozenset(T1[:k])), out + tuple(after)))
                    rest = T1 if k is None else T1[:k]
                    if rest and not (w1 is not None and ended):
                        ts.append((("in", S1, rest, w1), out))
            if ts:
                row[a] = ts
        return row
    f = number(("out", frozenset()), step, lambda st: () if st[0] == "out" else None)
    if group is not None:
        try:
            if equivalent(f, f, TOP) is None:
                return f
        except F.Delay:
            pass
        raise L.RegexUnsupported("group of an ambiguous pattern")
    return f


@lru_cache(maxsize=64)
def strip(cs, left, right):
    def step(st):
        row = {}
        for a in range(N):
            b = a in cs
            ts = []
            if st == "lead":
                ts = [("lead", ())] if b and left else [("in", (COPY,))] if not b or not left and not right else [("gap", (COPY,)), ("tail", ())]
            elif st in ("in", "gap"):
                if not b or not right:
                    ts = [("in", (COPY,))]
                elif st == "gap":
                    ts = [("gap", (COPY,))]
                else:
                    ts = [("gap", (COPY,)), ("tail", ())]
            elif b:
                ts = [("tail", ())]
            if ts:
                row[a] = ts
        return row
    return number("lead", step, lambda st: None if st == "gap" else ())


# ---------------------------------------------------------------- rational relations (specifications)

class Rel:
    """builder: Rel.copy(lang), Rel.to(lang, text), cat, alt, star -- edges (letters, out, target), silent edges with output"""

    def __init__(self):
        self.n, self.edges, self.eps = 0, {}, {}

    def new(self):
        self.n += 1
        return self.n - 1


def copy(X):
    return ("lang", X, True)


def to(X, text):
    return ("cat", [("lang", X, False), ("emit", text)])


def seq(*xs):
    return ("cat", list(xs))


def alt(*xs):
    return ("alt", list(xs))


def star(x):
    return ("star", x)


def relation(x):
    r = Rel()

    def build(x, s):
        """-> end state"""
        if x[0] == "emit":
            t = r.new()
            r.eps.setdefault(s, []).append((t, tuple(x[1])))
            return t
        if x[0] == "cat":
            for y in x[1]:
                s = build(y, s)
            return s
        if x[0] == "alt":
            t = r.new()
            for y in x[1]:
                a = r.new()
                r.eps.setdefault(s, []).append((a, ()))
                e = build(y, a)
                r.eps.setdefault(e, []).append((t, ()))
            return t
        if x[0] == "star":
            h = r.new()
            t = r.new()
            r.eps.setdefault(s, []).append((h, ()))
            e = build(x[1], h)
            r.eps.setdefault(e, []).append((h, ()))
            r.eps.setdefault(h, []).append((t, ()))
            return t
        _, X, cp = x
        live = X.live()
        ids = {q: r.new() for q in range(len(X.trans))}
        t = r.new()
        r.eps.setdefault(s, []).append((ids[X.start], ()))
        for q, row in enumerate(X.trans):
            for a in range(N):
                if row[a] in live:
                    r.edges.setdefault(ids[q], []).append((a, (COPY,) if cp else (), ids[row[a]]))
            if q in X.acc:
                r.eps.setdefault(ids[q], []).append((t, ()))
        return t
    s = r.new()
    end = build(x, s)

    def closure(q):
        out, todo = [], [(q, ())]
        while todo:
            q, o = todo.pop()
            if (q, o) in out:
                continue
            out.append((q, o))
            if len(o) > 200:
                raise L.RegexUnsupported("silent loop with output")
            todo += [(t, o + p) for t, p in r.eps.get(q, ())]
        return out
    clos = {q: closure(q) for q in range(r.n)}

    def step(st):
        row = {}
        for q, o in clos[st]:
            for a, out, t in r.edges.get(q, ()):
                row.setdefault(a, []).append((t, o + out))
        return row

    def final(st):
        return next((o for q, o in clos[st] if q == end), None)
    return number(s, step, final)


# ---------------------------------------------------------------- algebra

def compose(f, g):
    """g after f"""
    f, g = of(f), of(g)

    def feed(q, items, a):
        cur = [(q, ())]
        for x in items:
            nxt = []
            for q, o in cur:
                for t, p in g.delta[q].get(a if x is COPY else A.cls(x), ()):
                    nxt.append((t, o + (p if x is COPY else tuple(x if y is COPY else y for y in p))))
            cur = nxt
        return cur

    def step(st):
        row = {}
        for a, ts in f.delta[st[0]].items():
            out = [((t, q), o) for t, items in ts for q, o in feed(st[1], items, a)]
            if out:
                row[a] = out
        return row

    def final(st):
        if f.final[st[0]] is None:
            return None
        for q, o in feed(st[1], f.final[st[0]], None):
            if g.final[q] is not None:
                return o + tuple(g.final[q])
        return None
    return number((f.start, g.start), step, final)


def image(f, X):
    nfa = NFA()
    ids, todo = {}, []
    fin = nfa.state()

    def get(p):
        if p not in ids:
            ids[p] = nfa.state()
            todo.append(p)
        return ids[p]
    s0 = get((f.start, X.start))
    live = X.live()
    while todo:
        p = todo.pop()
        by = {}
        for a, ts in f.delta[p[0]].items():
            t = X.trans[p[1]][a]
            if t not in live:
                continue
            for q, out in ts:
                by.setdefault(((q, t), tuple(A.cls(x) if x is not COPY else -1 for x in out), a if out.count(COPY) > 1 else None), set()).add(a)
        for (to_, out, _), letters in by.items():
            cur = ids[p]
            for x in out:
                n = nfa.state()
                nfa.tr[cur].append((frozenset(letters) if x == -1 else frozenset([x]), n))
                cur = n
            nfa.eps[cur].append(get(to_))
        if p[1] in X.acc and f.final[p[0]] is not None:
            cur = ids[p]
            for x in f.final[p[0]]:
                n = nfa.state()
                nfa.tr[cur].append((frozenset([A.cls(x)]), n))
                cur = n
            nfa.eps[cur].append(fin)
    trans, acc = nfa.determinize(s0, fin, range(N))
    return Lang([[row[a] for a in range(N)] for row in trans], acc).minimize()


def preimage(f, X):
    """{w : f(w) in X}"""
    def step(st):
        row = {}
        for a, ts in f.delta[st[0]].items():
            r = []
            for t, out in ts:
                q = st[1]
                for x in out:
                    q = X.trans[q][a if x is COPY else A.cls(x)]
                r.append(((t, q), ()))
            row[a] = r
        return row

    def final(st):
        if f.final[st[0]] is None:
            return None
        q = st[1]
        for x in f.final[st[0]]:
            q = X.trans[q][A.cls(x)]
        return () if q in X.acc else None
    return domain(number((f.start, X.start), step, final))


def domain(f):
    nfa = NFA()
    ids = [nfa.state() for _ in f.delta]
    fin = nfa.state()
    for q, row in enumerate(f.delta):
        by = {}
        for a, ts in row.items():
            for t, _ in ts:
                by.setdefault(t, set()).add(a)
        for t, letters in by.items():
            nfa.tr[ids[q]].append((frozenset(letters), ids[t]))
        if f.final[q] is not None:
            nfa.eps[ids[q]].append(fin)
    trans, acc = nfa.determinize(ids[f.start], fin, range(N))
    return Lang([[row[a] for a in range(N)] for row in trans], acc).minimize()


def equivalent(f, g, X):
    """None if every output of f and every output of g agree on every word of X and both have one, else a witness"""
    f, g = of(f), of(g)
    for h in (f, g):
        gap = X - domain(h)
        if not gap.is_empty():
            return gap.words(1, 200)[0]
    start = (f.start, g.start, X.start)
    succ, todo, ends = {start: []}, [start], set()
    live = X.live()
    while todo:
        p = todo.pop()
        if p[2] in X.acc and f.final[p[0]] is not None and g.final[p[1]] is not None:
            ends.add(p)
        for a, ts in f.delta[p[0]].items():
            us = g.delta[p[1]].get(a, ())
            z = X.trans[p[2]][a]
            if not us or z not in live:
                continue
            for t, o in ts:
                for u, q in us:
                    n = (t, u, z)
                    if n not in succ:
                        succ[n] = []
                        todo.append(n)
                    succ[p].append((a, o, q, n))
    back = {}
    for p, es in succ.items():
        for a, _, _, n in es:
            back.setdefault(n, []).append((p, a))
    # how to reach an end from each state
    tail = {p: None for p in ends}
    todo = list(ends)
    while todo:
        n = todo.pop(0)
        for p, a in back.get(n, ()):
            if p not in tail:
                tail[p] = (a, n)
                todo.append(p)

    def finish(w, p):
        while tail[p] is not None:
            a, p = tail[p]
            w += (a,)
        return w

    def bad(w):
        """a word of these letters on which the two differ: the letters of one class are told apart"""
        for pick in (lambda i, a: A.reps[a], lambda i, a: member(a, i), lambda i, a: member(a, i % 2)):
            x = "".join(pick(i, a) for i, a in enumerate(w))
            o1, o2 = f.outs(x), g.outs(x)
            if o1 != o2 or len(o1) != 1:
                return x
        return None

    def refuted(*ws):
        for w in ws:
            x = bad(w)
            if x is not None:
                return x
        raise F.Delay("no witness for a difference at %r" % (ws,))
    seen = {}
    todo = [(start, ((), ()), ())]
    while todo:
        p, (d1, d2), w = todo.pop(0)
        if p in seen:
            if seen[p][0] == (d1, d2):
                continue
            return refuted(finish(seen[p][1], p), finish(w, p))
        seen[p] = ((d1, d2), w)
        if p in ends and d1 + tuple(f.final[p[0]]) != d2 + tuple(g.final[p[1]]):
            return refuted(w)
        for a, o, q, n in succ[p]:
            if n not in tail:
                continue
            # a letter of a coarse class is itself only: it is matched in the step that reads it or never
            c = A.reps[a] if A.is_single(a) else COPY
            x = d1 + tuple(c if y is COPY else y for y in o)
            y = d2 + tuple(c if y is COPY else y for y in q)
            k = 0
            while k < len(x) and k < len(y) and x[k] == y[k]:
                k += 1
            x, y = x[k:], y[k:]
            if x and y or COPY in x or COPY in y:
                return refuted(finish(w + (a,), n))
            if max(len(x), len(y)) > 400:
                raise F.Delay("unbounded delay")
            todo.append((n, (x, y), w + (a,)))
    return None


@lru_cache(maxsize=None)
def members(a):
    if A.is_single(a):
        return (A.reps[a],)
    iv = [v for k, v in A.ivals.items() if k == a][0]
    return tuple(chr(c) for lo, hi in iv for c in range(lo, min(hi, lo + 3) + 1))[:8]


def member(a, i):
    m = members(a)
    return m[i % len(m)]
