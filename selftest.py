#!/usr/bin/env python3-vt
"""Cross-check of the verifier's Python model against CPython: the same functions interpreted by pyvc and run natively."""
import random
import re
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from fractions import Fraction                                       # noqa: E402

import z3                                                            # noqa: E402
from pyvc import env                                                 # noqa: E402,F401
from pyvc import fst as F, lang as L, models as M, nft as NT, rmatch, sym as Y                       # noqa: E402
from pyvc.interp import Interp                                       # noqa: E402
from pyvc.runner import H                                            # noqa: E402


def f_arith(a, b):
    return [a + b, a - b, a * b, a // b, a % b, -a // b, -a % b, divmod(a, b), abs(a - b), max(a, b), min(a, b), int(a / 4), round(a / 8, 2)]


def f_float(a):
    x = a / 8
    return [int(x), x // 1, x % 1, round(x), round(x, 1), "%.2f" % x, "{:02d}".format(int(x)), "%02d" % int(x), f"{int(x):03d}", x == int(x), x.is_integer()]


def f_loop(n):
    out, k = [], 0
    while True:
        k += 1
        if k > n:
            break
        if k % 2:
            continue
        out.append(k)
    else:
        out.append("else")
    for x in range(n):
        if x == 5:
            break
    else:
        out.append("no break")
    return out, {i: i * i for i in range(3)}, [a for a in "abc" if a != "b"], sorted({3, 1, 2})


def f_exc(x):
    log = []
    try:
        try:
            if x == 0:
                raise ValueError("zero")
            if x == 1:
                return log + ["one"]
            log.append(10 // (x - 2))
        except ValueError as e:
            log.append(str(e))
        finally:
            log.append("fin")
    except ZeroDivisionError:
        log.append("zde")
    return log


def f_str(s):
    return [s.replace("&", "&amp;").replace("<", "&lt;"), s.strip(), s.split("\n"), s.splitlines(), s.upper(), s.lower(), s.find("a"), "a" in s,
            s.startswith("a"), s.endswith("\n"), s[1:3], s[-1:], s[::-1], s.partition("a"), " ".join(s.split()), len(s), s.rstrip("\n"), s.isdigit(), s.lstrip("ab")]


def f_re(s):
    m = re.search(r"(\d+):(\d\d)", s)
    n = re.match(r"^([a-z]*)(?:=(.*))?$", s)
    return [m and m.groups(), n and n.group(1), re.sub(r"<[^>]*>", "", s), re.findall(r"\w+", s), re.split(r"\s+", s)]


class K:
    count = 0

    def __init__(self, a, b=None, *c, **d):
        self.a, self.b, self.c, self.d = a, b, c, d

    @property
    def p(self):
        return self.a

    @classmethod
    def make(cls, *a):
        return cls(*a)

    @staticmethod
    def s(x):
        return x + 1

    def __eq__(self, o):
        return isinstance(o, K) and self.a == o.a

    def __hash__(self):
        return hash(self.a)


class K2(K):
    def __init__(self, a):
        super().__init__(a, b=a + 1)


def f_cls(x):
    a, b = K(x, 2, 3, z=4), K.make(x)
    c = K2(x)
    return [a.p, a.b, a.c, a.d, b.b, K.s(x), a == b, a != K(x + 1), c.b, isinstance(c, K), [v for v in (c.a, getattr(c, "q", 7))], hasattr(a, "zz")]


def g_gen(n):
    return sum(x for x in range(n)), list(zip("ab", range(n))), list(enumerate("xy", 1)), any(x > 1 for x in range(n)), all(x > 1 for x in range(n))


def plain(v, it):
    if isinstance(v, Y.S):
        m = z3.simplify(v.t)
        if v.k == "bool":
            return z3.is_true(m)
        if v.k == "int":
            return m.as_long()
        return Fraction(m.numerator_as_long(), m.denominator_as_long())
    if isinstance(v, Y.PyList):
        return [plain(x, it) for x in v.items]
    if isinstance(v, Y.PyDict):
        return {plain(p[0], it): plain(p[1], it) for p in v.pairs}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x, it) for x in v) if not isinstance(v, list) else [plain(x, it) for x in v]
    return v


def norm(v):
    if isinstance(v, float):
        return Fraction(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, bool):
        return v
    return v


def concretize(ctx, v):
    """value of a possibly symbolic result under the (unique) model of the path"""
    if isinstance(v, Y.S):
        assert ctx.solver.check() == z3.sat
        t = ctx.solver.model().eval(v.t, model_completion=True)
        return plain(Y.S(t, v.k), None)
    if isinstance(v, (list, tuple)):
        return [concretize(ctx, x) for x in v]
    if isinstance(v, Y.PyList):
        return [concretize(ctx, x) for x in v.items]
    if isinstance(v, Y.PyDict):
        return {concretize(ctx, p[0]): concretize(ctx, p[1]) for p in v.pairs}
    if isinstance(v, Y.Rope) if hasattr(Y, "Rope") else False:
        assert ctx.solver.check() == z3.sat
        return Y.concrete(v, ctx.solver.model())
    return v


def run(f, args, symbolic):
    from pyvc.sym import Ctx
    work, out = [[]], None
    while work:
        ctx = Ctx(work.pop())
        Y.CUR = ctx
        it = Interp(ctx)
        try:
            a = []
            for x in args:
                if symbolic and isinstance(x, int):
                    t = ctx.fresh(z3.IntSort(), "x")
                    ctx.assume(t == x)
                    x = Y.S(t, "int")
                a.append(x)
            r = it.call(f, a, {})
            if ctx.solver.check() == z3.sat:
                out = concretize(ctx, r)
        except Y.PathEnd:
            pass
        except Y.Unsupported as e:
            return ("unsupported", str(e))
        work.extend(ctx.pending)
    return ("ok", out)


def main():
    Y.SCOPE = ("pycaption", "__main__")
    from pyvc import interp
    interp.EXTRA_MODULES.add("__main__")
    bad = skipped = n = 0
    cases = [(f_arith, (a, b)) for a in (-7, 0, 5, 12345) for b in (-3, 1, 4)]
    cases += [(f_float, (a,)) for a in (0, 1, 3, 4, 12, 20, 999, 12345)]
    cases += [(f_loop, (k,)) for k in (0, 3, 8)] + [(f_exc, (k,)) for k in range(4)] + [(f_cls, (k,)) for k in (0, 5)] + [(g_gen, (k,)) for k in (0, 3)]
    strs = ["", "a", "aab\n", " a b&c<d>\r\n\n", "12:34 <i>x</i>", "abc=def", "\u2028x\x85y", "&amp;amp;<<", "日本 a\tb"]
    cases += [(f_str, (s,)) for s in strs] + [(f_re, (s,)) for s in strs]
    for f, args in cases:
        want = norm(f(*args))
        for symbolic in (False, True):
            if symbolic and (f in (f_loop, g_gen) or isinstance(args[0], str)):
                continue
            n += 1
            st, got = run(f, args, symbolic)
            if st == "unsupported":
                skipped += 1
                print("selftest: not followed: %s%r: %s" % (f.__name__, args, got))
            elif norm(got) != want:
                # exact rationals against floats: compare with a tolerance on non-integers
                if repr(norm(got)) != repr(want) and not close(norm(got), want):
                    bad += 1
                    print("selftest: MISMATCH %s%r symbolic=%s\n  pyvc   %r\n  python %r" % (f.__name__, args, symbolic, norm(got), want))
    # string transducers and regular languages against CPython
    rng = random.Random(7)
    alpha = "ab&<>;\n\r -0129.:%lgtmp\u00a0\u2028é"
    pats = [r"^\d+(\.\d+)?(px|%)\Z", r"(\d{2,}):(\d\d)", r"<[^>]*>", r"^[a-b]+$", r"\s*-->\s*", r"(?:a|b)*0", r"\bab\b"]
    langs = []
    for p in pats:
        for mode in ("search", "match", "fullmatch"):
            try:
                langs.append((p, mode, L.regex_lang(p, 0, mode)))
            except L.RegexUnsupported:
                skipped += 1
    fs = [F.replace_fst("&", "&amp;"), F.replace_fst("&lt;", "<"), F.replace_fst("-->", "--&gt;"), F.compose(F.replace_fst("&lt;", "<"), F.replace_fst("&amp;", "&"))]
    ps = [lambda s: s.replace("&", "&amp;"), lambda s: s.replace("&lt;", "<"), lambda s: s.replace("-->", "--&gt;"), lambda s: s.replace("&lt;", "<").replace("&amp;", "&")]
    toks = ["&lt;", "&amp;", "-->", "&", "<", "--", ">", "10px", "50%", "01:22"] + list(alpha)
    for _ in range(3000):
        s = "".join(rng.choice(toks) for _ in range(rng.randint(0, 6)))
        for f, p in zip(fs, ps):
            n += 1
            if f.run(s) != p(s):
                bad += 1
                print("selftest: MISMATCH transducer on %r" % s)
        for p, mode, la in langs:
            n += 1
            if la.accepts(s) != bool(getattr(re, mode)(p, s)):
                bad += 1
                print("selftest: MISMATCH regex %r %s on %r" % (p, mode, s))
    # re.sub and str.strip as transducers
    subs = [(r"<v(\.[^\s.>]+)*\s([^>]*)>", r"\2: "), (r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3}))([.\s].*?)?>", ""), (r"\s*[\n\r]\s*", "\n"),
            (r"(<[^<>]*);>", r"\1>"), (r"a*b", ".."), (r"a(b|ba)c?", r"[\1]"), (r"(?:a|ab)(c|bcd)?", "x"), (r"a??b+?", "-"), (r"(?:ab|a)b*?c", "")]
    toks = ["<v ", "<v.a ", "</rt", "<ruby", "<00:00.000", ">", ";>", "<", "a", "b", "c", "d", "\n", "\r", " ", "\t", ".", ":", "&", "i", "0"]
    for p, t in subs:
        g = NT.sub(rmatch.to_ir(L.sre_parse.parse(p, re.compile(p).flags), re.compile(p).flags), M.template_of(t))
        for _ in range(800):
            s = "".join(rng.choice(toks) for _ in range(rng.randint(0, 8)))
            n += 1
            if g.run(s) != re.sub(p, t, s):
                bad += 1
                print("selftest: MISMATCH re.sub %r on %r" % (p, s))
    for cs, l, r in ((None, 1, 1), (None, 1, 0), ("\n", 1, 1), ("\n", 0, 1)):
        g = NT.strip(L.STRIPWS if cs is None else L.A.chars(cs), l, r)
        for _ in range(500):
            s = "".join(rng.choice(toks) for _ in range(rng.randint(0, 6)))
            n += 1
            if g.run(s) != ((s.strip(cs) if r else s.lstrip(cs)) if l else s.rstrip(cs)):
                bad += 1
                print("selftest: MISMATCH strip %r on %r" % (cs, s))
    print("selftest: %d comparisons, %d mismatches, %d not followed" % (n, bad, skipped))
    return 1 if bad else 0


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
        return abs(a - b) < Fraction(1, 10 ** 9)
    return a == b


if __name__ == "__main__":
    sys.exit(main())
