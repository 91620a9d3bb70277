"""Regular languages over Unicode, with an exact finite quotient of the alphabet.

Every ASCII character is its own letter.  Non-ASCII characters are grouped by the
predicates Python's str methods and `re` classes can observe (isspace, isdecimal,
isdigit, \\w, line boundary, printable, lower()-stable) plus a few named singletons, so the
automata below decide questions about *all* of Unicode exactly.
"""
import re
import sys
from functools import lru_cache

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                                     # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

SINGLES = "\x85\xa0\u200e\u200f\u2028\u2029\ufeff\xad"
LINEBREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


# XML 1.0: Char, and the NCName classes (a quotient refinement only: nothing is assumed about the code)
_CHAR = re.compile("[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
_START = ("A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef"
          "\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff")
_NAMESTART = re.compile("[%s]" % _START)
_NAMECHAR = re.compile("[%s.0-9\xb7\u0300-\u036f\u203f-\u2040-]" % _START)


def _sig(c):
    return (_CHAR.match(c) is not None, _NAMESTART.match(c) is not None, _NAMECHAR.match(c) is not None,
            c.isspace(), c.isdecimal(), c.isdigit(), c.isalnum() or c == "_",
            c.isprintable(), c.lower() == c, re.match(r"\s", c) is not None,
            c.isalpha())


class Alphabet:
    def __init__(self):
        self.reps = [chr(i) for i in range(128)] + list(SINGLES)
        self.index = {c: i for i, c in enumerate(self.reps)}
        self.sigs = {}
        self.ivals = {}                                  # coarse class -> code point intervals
        seen = set(self.reps)
        for cp in range(128, sys.maxunicode + 1):
            if 0xD800 <= cp <= 0xDFFF:
                continue
            c = chr(cp)
            if c in seen:
                continue
            s = _sig(c)
            if s not in self.sigs:
                self.sigs[s] = len(self.reps)
                self.reps.append(c)
            iv = self.ivals.setdefault(self.sigs[s], [])
            if iv and iv[-1][1] == cp - 1:
                iv[-1][1] = cp
            else:
                iv.append([cp, cp])
        self.n = len(self.reps)
        self.all = frozenset(range(self.n))

    def cls(self, c):
        i = self.index.get(c)
        if i is None:
            i = self.sigs[_sig(c)]
            self.index[c] = i
        return i

    def is_single(self, i):
        return i < 128 + len(SINGLES)

    def where(self, pred):
        return frozenset(i for i in range(self.n) if pred(self.reps[i]))

    def chars(self, s):
        r = frozenset(self.cls(c) for c in s)
        for i in r:
            if not self.is_single(i):
                raise ValueError("character class too coarse for %r" % (s,))
        return r


A = Alphabet()
DIGIT = A.where(lambda c: re.match(r"\d", c) is not None)
ASCII_DIGIT = A.chars("0123456789")
SPACE = A.where(lambda c: re.match(r"\s", c) is not None)
WORDC = A.where(lambda c: re.match(r"\w", c) is not None)
STRIPWS = A.where(str.isspace)
LB = A.chars(LINEBREAKS)
ANY = A.all
BEGIN, END = A.n, A.n + 1          # markers used while translating anchors
N = A.n


class Lang:
    """A complete DFA. trans[q][a] for a in 0..N-1."""
    __slots__ = ("trans", "acc", "start", "_min", "_cls", "_id")
    made = 0

    def __init__(self, trans, acc, start=0):
        self.trans, self.acc, self.start = trans, frozenset(acc), start
        self._min = self._cls = None
        Lang.made += 1
        self._id = Lang.made

    def classes(self):
        """letter -> class of the letters no state tells apart"""
        if self._cls is None:
            ids = {}
            self._cls = tuple(ids.setdefault(c, len(ids)) for c in zip(*self.trans))
        return self._cls

    # ---- construction
    @staticmethod
    def from_nfa(nfa):
        return nfa.to_dfa()

    def accepts(self, s):
        q = self.start
        for c in s:
            q = self.trans[q][A.cls(c)]
        return q in self.acc

    def _product(self, other, f):
        ids, trans, acc, todo = {}, [], [], []

        def get(p):
            if p not in ids:
                ids[p] = len(trans)
                trans.append(None)
                todo.append(p)
                if f(p[0] in self.acc, p[1] in other.acc):
                    acc.append(ids[p])
            return ids[p]
        get((self.start, other.start))
        reps, which = {}, []
        for x, k in enumerate(zip(self.classes(), other.classes())):
            which.append(reps.setdefault(k, (len(reps), x))[0])
        reps = [x for _, x in reps.values()]
        while todo:
            p = todo.pop()
            a, b = self.trans[p[0]], other.trans[p[1]]
            row = [get((a[x], b[x])) for x in reps]
            trans[ids[p]] = [row[j] for j in which]
        return Lang(trans, acc)

    def __and__(self, o):
        return self._product(o, lambda x, y: x and y).minimize()

    def __or__(self, o):
        return self._product(o, lambda x, y: x or y).minimize()

    def __sub__(self, o):
        return self._product(o, lambda x, y: x and not y).minimize()

    def complement(self):
        return Lang(self.trans, set(range(len(self.trans))) - self.acc, self.start)

    def word(self):
        """A shortest word, or None."""
        from collections import deque
        q = deque([self.start])
        seen = {self.start: None}
        while q:
            s = q.popleft()
            if s in self.acc:
                out = []
                while seen[s] is not None:
                    s, a = seen[s]
                    out.append(A.reps[a])
                return "".join(reversed(out))
            # prefer readable letters
            for a in PREF:
                t = self.trans[s][a]
                if t not in seen:
                    seen[t] = (s, a)
                    q.append(t)
        return None

    def residue(self, m):
        """r if every word's length is r modulo m, else None."""
        live = self.live()
        seen, todo, out = {(self.start, 0)}, [(self.start, 0)], set()
        if self.start not in live:
            return None
        while todo:
            s, r = todo.pop()
            if s in self.acc:
                out.add(r)
                if len(out) > 1:
                    return None
            for t in set(self.trans[s]):
                if t in live and (t, (r + 1) % m) not in seen:
                    seen.add((t, (r + 1) % m))
                    todo.append((t, (r + 1) % m))
        return out.pop() if out else None

    def word_of_length(self, n):
        """A word of exactly this length, or None."""
        if n < 0 or n > 20000:
            return None
        good = [set(self.acc)]                      # good[k]: states with an accepted word of length k
        for k in range(n):
            nxt = {s for s, row in enumerate(self.trans) if any(t in good[-1] for t in row)}
            good.append(nxt)
            if not nxt:
                return None
        s, out = self.start, []
        if s not in good[n]:
            return None
        for k in range(n - 1, -1, -1):
            a = next(a for a in PREF if self.trans[s][a] in good[k])
            out.append(A.reps[a])
            s = self.trans[s][a]
        return "".join(out)

    def words(self, limit=10, maxlen=12):
        """Some accepted words (shortest first)."""
        out, frontier = [], [("", self.start)]
        live = self.live()
        for _ in range(maxlen + 1):
            nxt = []
            for w, s in frontier:
                if s in self.acc:
                    out.append(w)
                    if len(out) >= limit:
                        return out
                by = {}
                for a in PREF:
                    t = self.trans[s][a]
                    if t in live:
                        by.setdefault(t, []).append(a)
                for t, al in by.items():
                    for a in al[:2]:
                        nxt.append((w + A.reps[a], t))
            frontier = nxt[:2000]
        return out

    def live(self):
        rev = {}
        for s, row in enumerate(self.trans):
            for t in set(row):
                rev.setdefault(t, set()).add(s)
        live, todo = set(self.acc), list(self.acc)
        while todo:
            t = todo.pop()
            for s in rev.get(t, ()):
                if s not in live:
                    live.add(s)
                    todo.append(s)
        return live

    def reach(self):
        seen, todo = {self.start}, [self.start]
        while todo:
            s = todo.pop()
            for t in set(self.trans[s]):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def is_empty(self):
        return not (self.reach() & self.acc)

    def subset(self, o):
        return self._product(o, lambda x, y: x and not y).is_empty()

    def disjoint(self, o):
        return self._product(o, lambda x, y: x and y).is_empty()

    def equal(self, o):
        return self._product(o, lambda x, y: x != y).is_empty()

    def minimize(self):
        reach = sorted(self.reach())
        part = {s: (s in self.acc) for s in reach}
        seen = {}
        for a, c in enumerate(self.classes()):
            seen.setdefault(c, a)
        reps = list(seen.values())
        short = {s: [self.trans[s][a] for a in reps] for s in reach}
        while True:
            sig, new = {}, {}
            for s in reach:
                k = (part[s], tuple([part[t] for t in short[s]]))
                new[s] = sig.setdefault(k, len(sig))
            if len(sig) == len(set(part.values())):
                part = new
                break
            part = new
        k = len(set(part.values()))
        trans = [None] * k
        acc = set()
        for s in reach:
            if trans[part[s]] is None:
                trans[part[s]] = [part[t] for t in self.trans[s]]
            if s in self.acc:
                acc.add(part[s])
        return Lang(trans, acc, part[self.start])

    def charset(self):
        """Letters occurring in some accepted word."""
        live = self.live() & self.reach()
        out = set()
        for s in live:
            row = self.trans[s]
            for a in range(N):
                if a not in out and row[a] in live:
                    out.add(a)
        return frozenset(out)

    def len_range(self):
        """(min, max or None) length of accepted words."""
        live = self.live() & self.reach()
        if self.start not in live:
            return (0, 0)
        mn = len(self.word())
        # longest path / cycle among live
        order, state = {}, {}
        sys.setrecursionlimit(max(10000, sys.getrecursionlimit()))

        def dfs(s):
            if state.get(s) == 1:
                raise OverflowError
            if s in order:
                return order[s]
            state[s] = 1
            best = 0 if s in self.acc else -10 ** 9
            for t in set(self.trans[s]):
                if t in live:
                    best = max(best, 1 + dfs(t))
            state[s] = 2
            order[s] = best
            return best
        try:
            return mn, dfs(self.start)
        except OverflowError:
            return mn, None

    def first_chars(self):
        live = self.live()
        return frozenset(a for a in range(N) if self.trans[self.start][a] in live)

    def last_chars(self):
        reach = self.reach()
        live = self.live()
        return frozenset(a for s in (reach & live) for a in range(N)
                         if self.trans[s][a] in self.acc)

    def nonempty_part(self):
        return self - EPS

    def has_eps(self):
        return self.start in self.acc


PREF = [A.cls(c) for c in "abcdefghijklmnopqrstuvwxyz 0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-:.,;<>&/()[]{}%\n\""]
PREF += [i for i in range(N) if i not in set(PREF)]


class NFA:
    """Thompson automaton; letters may include the BEGIN/END markers."""

    def __init__(self):
        self.eps, self.tr = [], []

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def closure(self, S):
        S = set(S)
        todo = list(S)
        while todo:
            s = todo.pop()
            for t in self.eps[s]:
                if t not in S:
                    S.add(t)
                    todo.append(t)
        return frozenset(S)

    def determinize(self, start, final, letters):
        """letters: iterable of letters; returns (trans over letters, accepting)"""
        letters = list(letters)
        s0 = self.closure([start])
        ids, trans, acc, todo = {s0: 0}, [None], set(), [s0]
        while todo:
            S = todo.pop()
            if final in S:
                acc.add(ids[S])
            # split letters by edges
            moves = {}
            for s in S:
                for cs, t in self.tr[s]:
                    for a in cs:
                        moves.setdefault(a, set()).add(t)
            cache = {}
            row = {}
            for a in letters:
                k = frozenset(moves.get(a, ()))
                if k not in cache:
                    cl = self.closure(k)
                    if cl not in ids:
                        ids[cl] = len(trans)
                        trans.append(None)
                        todo.append(cl)
                    cache[k] = ids[cl]
                row[a] = cache[k]
            trans[ids[S]] = row
        return trans, acc


# ---------------------------------------------------------------- regex AST
# ('eps',) ('set', frozenset) ('cat', [..]) ('alt', [..]) ('rep', r, lo, hi)

def build(nfa, r):
    k = r[0]
    if k == "eps":
        s = nfa.state()
        return s, s
    if k == "set":
        s, t = nfa.state(), nfa.state()
        nfa.tr[s].append((r[1], t))
        return s, t
    if k == "cat":
        if not r[1]:
            return build(nfa, ("eps",))
        s, t = build(nfa, r[1][0])
        for x in r[1][1:]:
            a, b = build(nfa, x)
            nfa.eps[t].append(a)
            t = b
        return s, t
    if k == "alt":
        s, t = nfa.state(), nfa.state()
        for x in r[1]:
            a, b = build(nfa, x)
            nfa.eps[s].append(a)
            nfa.eps[b].append(t)
        return s, t
    if k == "rep":
        _, x, lo, hi = r
        s = t = nfa.state()
        for _ in range(lo):
            a, b = build(nfa, x)
            nfa.eps[t].append(a)
            t = b
        if hi is None:
            a, b = build(nfa, x)
            e = nfa.state()
            nfa.eps[t].append(a)
            nfa.eps[t].append(e)
            nfa.eps[b].append(a)
            nfa.eps[b].append(e)
            return s, e
        e = nfa.state()
        nfa.eps[t].append(e)
        for _ in range(hi - lo):
            a, b = build(nfa, x)
            nfa.eps[t].append(a)
            nfa.eps[b].append(e)
            t = b
        return s, e
    if k == "lang":
        L = r[1]
        base = [nfa.state() for _ in L.trans]
        e = nfa.state()
        for s, row in enumerate(L.trans):
            by = {}
            for a, t in enumerate(row):
                by.setdefault(t, set()).add(a)
            for t, al in by.items():
                nfa.tr[base[s]].append((frozenset(al), base[t]))
            if s in L.acc:
                nfa.eps[base[s]].append(e)
        return base[L.start], e
    raise ValueError(k)


def compile_ast(r):
    nfa = NFA()
    s, t = build(nfa, r)
    trans, acc = nfa.determinize(s, t, range(N))
    return Lang([[row[a] for a in range(N)] for row in trans], acc).minimize()


def substitute(X, cs, R):
    """X with every letter of cs replaced by some word of R."""
    nfa = NFA()
    qs = [nfa.state() for _ in X.trans]
    acc = nfa.state()
    for q, row in enumerate(X.trans):
        by = {}
        for a in range(N):
            by.setdefault(row[a], set()).add(a)
        for r, letters in by.items():
            plain = frozenset(letters - cs)
            if plain:
                nfa.tr[qs[q]].append((plain, qs[r]))
            if letters & cs:
                rs = [nfa.state() for _ in R.trans]
                nfa.eps[qs[q]].append(rs[R.start])
                for k, rw in enumerate(R.trans):
                    g = {}
                    for a in range(N):
                        g.setdefault(rw[a], set()).add(a)
                    for t, ls in g.items():
                        nfa.tr[rs[k]].append((frozenset(ls), rs[t]))
                    if k in R.acc:
                        nfa.eps[rs[k]].append(qs[r])
        if q in X.acc:
            nfa.eps[qs[q]].append(acc)
    trans, ac = nfa.determinize(qs[X.start], acc, list(range(N)))
    return Lang([[row[a] for a in range(N)] for row in trans], ac).minimize()


def lit(s):
    return ("cat", [("set", frozenset([A.cls(c)])) for c in s])


def cat(*langs):
    return compile_ast(("cat", [("lang", x) if isinstance(x, Lang) else lit(x) if isinstance(x, str) else x
                                for x in langs]))


def star(cs):
    return compile_ast(("rep", ("set", cs), 0, None))


def plus(cs):
    return compile_ast(("rep", ("set", cs), 1, None))


def starof(X):
    """any concatenation of words of X"""
    return compile_ast(("rep", ("lang", X), 0, None))


def rep(cs, lo, hi):
    return compile_ast(("rep", ("set", cs), lo, hi))


@lru_cache(maxsize=4096)
def literal(s):
    return compile_ast(lit(s))


EPS = compile_ast(("eps",))
EMPTY = Lang([[0] * N], [], 0)
TOP = star(ANY)




_RUNS = {}


def run_states(X, q, Y):
    """the states of X that the words of Y lead to from q"""
    k = (X._id, q, Y._id)
    if k in _RUNS:
        return _RUNS[k]
    reps = {}
    for x, c in enumerate(zip(X.classes(), Y.classes())):
        reps.setdefault(c, x)
    reps = list(reps.values())
    live = Y.live()
    seen, todo, out = {(q, Y.start)}, [(q, Y.start)], set()
    while todo:
        a, b = todo.pop()
        if b in Y.acc:
            out.add(a)
        ta, tb = X.trans[a], Y.trans[b]
        for x in reps:
            n = (ta[x], tb[x])
            if n[1] in live and n not in seen:
                seen.add(n)
                todo.append(n)
    _RUNS[k] = (frozenset(out),)
    return _RUNS[k]


def all_in(parts, X):
    """every concatenation of a word of each part (a string or a Lang) is in X"""
    S = frozenset([X.start])
    for p in parts:
        if isinstance(p, str):
            T = set()
            for q in S:
                for c in p:
                    q = X.trans[q][A.cls(c)]
                T.add(q)
            S = frozenset(T)
        else:
            S = frozenset().union(*[run_states(X, q, p)[0] for q in S]) if S else S
    return S <= X.acc


def cut_suffix(X, cs):
    """{w : w·v in X for some v of cs*}"""
    acc = set(X.acc)
    while True:
        more = {q for q in range(len(X.trans)) if q not in acc and any(X.trans[q][c] in acc for c in cs)}
        if not more:
            return Lang(X.trans, acc, X.start).minimize()
        acc |= more


def cut_prefix(X, cs):
    """{w : v·w in X for some v of cs*}"""
    start, todo = {X.start}, [X.start]
    while todo:
        q = todo.pop()
        for c in cs:
            if X.trans[q][c] not in start:
                start.add(X.trans[q][c])
                todo.append(X.trans[q][c])
    start = frozenset(start)
    ids, trans, todo = {start: 0}, [None], [start]
    while todo:
        S = todo.pop()
        row = []
        for a in range(N):
            T = frozenset(X.trans[q][a] for q in S)
            if T not in ids:
                ids[T] = len(trans)
                trans.append(None)
                todo.append(T)
            row.append(ids[T])
        trans[ids[S]] = row
    return Lang(trans, [k for S, k in ids.items() if S & set(X.acc)]).minimize()


@lru_cache(maxsize=1024)
def containing(s):
    return compile_ast(("cat", [("rep", ("set", ANY), 0, None), lit(s), ("rep", ("set", ANY), 0, None)]))


@lru_cache(maxsize=1024)
def starting(s):
    return compile_ast(("cat", [lit(s), ("rep", ("set", ANY), 0, None)]))


@lru_cache(maxsize=1024)
def ending(s):
    return compile_ast(("cat", [("rep", ("set", ANY), 0, None), lit(s)]))


class RegexUnsupported(Exception):
    pass


_CATS = {
    sre_c.CATEGORY_DIGIT: DIGIT, sre_c.CATEGORY_SPACE: SPACE, sre_c.CATEGORY_WORD: WORDC,
    sre_c.CATEGORY_NOT_DIGIT: ANY - DIGIT, sre_c.CATEGORY_NOT_SPACE: ANY - SPACE,
    sre_c.CATEGORY_NOT_WORD: ANY - WORDC,
}


def _single(code, flags):
    c = chr(code)
    s = {c}
    if flags & re.IGNORECASE:
        if not c.isascii():
            raise RegexUnsupported("ignorecase non-ascii")
        s |= {c.lower(), c.upper()}
        if c.lower() in "ksi":
            # Kelvin sign, long s, dotless i also match under Unicode IGNORECASE
            raise RegexUnsupported("ignorecase special")
    out = set()
    for x in s:
        i = A.cls(x)
        if not A.is_single(i):
            raise RegexUnsupported("coarse class for %r" % x)
        out.add(i)
    return frozenset(out)


def _set_of(items, flags):
    neg = False
    out = set()
    wide = [av for op, av in items if op is sre_c.RANGE and av[1] >= 128]
    if wide:
        out |= _in_ranges(wide)
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            out |= _single(av, flags)
        elif op is sre_c.RANGE:
            lo, hi = av
            if hi < 128:
                for x in range(lo, hi + 1):
                    out |= _single(x, flags)
        elif op is sre_c.CATEGORY:
            out |= _CATS[av]
        else:
            raise RegexUnsupported(str(op))
    return frozenset(ANY - out) if neg else frozenset(out)


def _in_ranges(ranges):
    """Letters of a union of code point ranges; exact only if no coarse class straddles it."""
    m = []
    for lo, hi in sorted(ranges):
        if m and lo <= m[-1][1] + 1:
            m[-1][1] = max(hi, m[-1][1])
        else:
            m.append([lo, hi])
    out = set()
    for i in range(N):
        if A.is_single(i):
            if any(lo <= ord(A.reps[i]) <= hi for lo, hi in m):
                out.add(i)
            continue
        ins = [any(lo <= a and b <= hi for lo, hi in m) for a, b in A.ivals[i]]
        outs = [all(b < lo or hi < a for lo, hi in m) for a, b in A.ivals[i]]
        if all(ins):
            out.add(i)
        elif not all(outs):
            # surrogates are not in the alphabet: [X-\ud7ff][\ue000-Y] are adjacent for our purposes
            raise RegexUnsupported("a character class straddles a range")
    return out


FULL = 1 << 40


def to_ast(p, flags):
    """sre tree -> regex AST with anchors as BEGIN/END marker sets."""
    out = []
    for op, av in p:
        if op is sre_c.LITERAL:
            out.append(("set", _single(av, flags)))
        elif op is sre_c.NOT_LITERAL:
            out.append(("set", ANY - _single(av, flags)))
        elif op is sre_c.ANY:
            out.append(("set", ANY if flags & re.DOTALL else ANY - A.chars("\n")))
        elif op is sre_c.IN:
            out.append(("set", _set_of(av, flags)))
        elif op is sre_c.BRANCH:
            out.append(("alt", [to_ast(x, flags) for x in av[1]]))
        elif op is sre_c.SUBPATTERN:
            out.append(to_ast(av[3], (flags | av[1]) & ~av[2]))
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT, getattr(sre_c, "POSSESSIVE_REPEAT", None)):
            lo, hi, x = av
            if op is getattr(sre_c, "POSSESSIVE_REPEAT", None):
                raise RegexUnsupported("possessive")
            out.append(("rep", to_ast(x, flags), lo, None if hi is sre_c.MAXREPEAT else hi))
        elif op is sre_c.AT:
            if flags & re.MULTILINE:
                raise RegexUnsupported("multiline anchor")
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                out.append(("set", frozenset([BEGIN])))
            elif av is sre_c.AT_END:
                if flags & FULL:                                 # fullmatch consumes to the end; "$" must be last
                    out.append(("set", frozenset([END])))
                else:
                    out.append(("cat", [("rep", ("set", A.chars("\n")), 0, 1), ("set", frozenset([END]))]))
            elif av is sre_c.AT_END_STRING:
                out.append(("set", frozenset([END])))
            else:
                raise RegexUnsupported(str(av))
        else:
            raise RegexUnsupported(str(op))
    return ("cat", out)


@lru_cache(maxsize=512)
def regex_lang(pattern, flags, mode):
    """The set of strings s with re.<mode>(pattern, s) a match."""
    tree = sre_parse.parse(pattern, flags)
    fl = tree.state.flags
    body = to_ast(tree, fl | (FULL if mode == "fullmatch" else 0))
    sig = frozenset(ANY)
    anys = ("rep", ("set", sig | {BEGIN, END}), 0, None)
    b, e = ("set", frozenset([BEGIN])), ("set", frozenset([END]))
    begin_body = ("cat", [("rep", b, 0, 1), body, ("rep", e, 0, 1)])
    if mode == "search":
        full = ("cat", [anys, body, anys])
    elif mode == "match":
        full = ("cat", [("rep", b, 0, 1), body, anys])
    else:
        full = begin_body
    nfa = NFA()
    s, t = build(nfa, full)
    letters = list(range(N)) + [BEGIN, END]
    trans, acc = nfa.determinize(s, t, letters)
    # intersect with BEGIN Sigma* END, dropping the markers
    start = trans[0][BEGIN]
    acc2 = [q for q in range(len(trans)) if trans[q][END] in acc]
    return Lang([[row[a] for a in range(N)] for row in trans], acc2, start).minimize()


def rx(pattern, flags=0):
    """Language of full matches of a pattern (spec side convenience)."""
    return regex_lang(pattern, flags, "fullmatch")
